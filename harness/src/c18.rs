//! C18: rendering applies exactly the requested stages.

use libopenraw::tiff::exif::{LightsourceValue, PhotometricInterpretation};
use libopenraw::{Bitmap, CfaPattern, ColourSpace, DataType, Error, RawImage, RenderingOptions, RenderingStage, Type};

use crate::api::{self, Via};
use crate::cams::cams;
use crate::gen::{self, G};
use crate::meta;
use crate::raws::{self, Kind, BAYER};
use crate::run::{self, fail, R};
use crate::tiffw::{Tiff, V};

type M3 = [f64; 9];

/// What rendering needs to know.
struct Src {
    w: usize,
    h: usize,
    px: Vec<u16>,
    bpc: u32,
    black: u16,
    white: u16,
    table: Option<Vec<u16>>,
    /// 2x2 colours, 0 1 2
    cfa: Option<[u8; 4]>,
    photom: PhotometricInterpretation,
    /// Of the D65 illuminant.
    matrix: Option<M3>,
}

fn det(m: &M3) -> f64 {
    m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6])
}

fn inverse(m: &M3) -> M3 {
    let d = det(m);
    let c = |a: usize, b: usize, c: usize, e: usize| (m[a] * m[b] - m[c] * m[e]) / d;
    [
        c(4, 8, 5, 7),
        c(2, 7, 1, 8),
        c(1, 5, 2, 4),
        c(5, 6, 3, 8),
        c(0, 8, 2, 6),
        c(2, 3, 0, 5),
        c(3, 7, 4, 6),
        c(1, 6, 0, 7),
        c(0, 4, 1, 3),
    ]
}

fn mul(a: &M3, b: &M3) -> M3 {
    let mut r = [0.0; 9];
    for i in 0..3 {
        for j in 0..3 {
            r[i * 3 + j] = (0..3).map(|k| a[i * 3 + k] * b[k * 3 + j]).sum();
        }
    }
    r
}

const XYZ_RGB: M3 = [3.2406, -1.5372, -0.4986, -0.9689, 1.8758, 0.0415, 0.0557, -0.2040, 1.0570];

fn middle(mut v: [f64; 4]) -> f64 {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    (v[1] + v[2]) / 2.0
}

/// What it should be: width, height, components, values, and how much of a unit they may be off.
fn model(s: &Src, stage: u32) -> (usize, usize, usize, Vec<f64>, f64) {
    let range = s.white as f64 - s.black as f64;
    let mut v: Vec<f64> = s
        .px
        .iter()
        .take(s.w * s.h)
        .map(|x| {
            let mut x = *x;
            if let Some(t) = s.table.as_ref().filter(|t| t.len() == 1 << s.bpc) {
                x = t[(x as usize).min(t.len() - 1)];
            }
            (x as f64 - s.black as f64).max(0.0) / range
        })
        .collect();
    let (mut w, mut h) = (s.w, s.h);
    if stage < 2 {
        return (w, h, 1, v, 0.0);
    }
    let linear = matches!(s.photom, PhotometricInterpretation::LinearRaw);
    if linear {
        v = v.iter().flat_map(|x| [*x; 3]).collect();
    } else {
        let cfa = s.cfa.unwrap();
        let colour = |x: usize, y: usize| cfa[(y % 2) * 2 + x % 2];
        let mut o = Vec::new();
        for y in 1..h - 1 {
            for x in 1..w - 1 {
                let at = |dx: i32, dy: i32| v[(y as i32 + dy) as usize * w + (x as i32 + dx) as usize];
                let orth = middle([at(0, -1), at(0, 1), at(-1, 0), at(1, 0)]);
                let mut c = [0.0; 3];
                let me = colour(x, y) as usize;
                c[me] = at(0, 0);
                if me == 1 {
                    c[colour(x + 1, y) as usize] = (at(-1, 0) + at(1, 0)) / 2.0;
                    c[colour(x, y + 1) as usize] = (at(0, -1) + at(0, 1)) / 2.0;
                } else {
                    c[1] = orth;
                    c[2 - me] = middle([at(-1, -1), at(-1, 1), at(1, -1), at(1, 1)]);
                }
                o.extend_from_slice(&c);
            }
        }
        v = o;
        w -= 2;
        h -= 2;
    }
    let mut slack = 0.0;
    if stage == 3 {
        if linear {
            v.iter_mut().for_each(|x| *x = x.powf(1.0 / 2.2));
        } else {
            if let Some(m) = &s.matrix {
                let i = mul(&XYZ_RGB, &inverse(m));
                let big = i.iter().fold(0.0_f64, |a, b| a.max(b.abs()));
                slack = big * 1e-6;
                for c in v.chunks_mut(3) {
                    let x = [c[0], c[1], c[2]];
                    for k in 0..3 {
                        c[k] = i[k * 3] * x[0] + i[k * 3 + 1] * x[1] + i[k * 3 + 2] * x[2];
                    }
                }
            }
            v.iter_mut().for_each(|x| {
                *x = if *x <= 0.0031308 {
                    *x * 12.92
                } else {
                    1.055 * x.powf(1.0 / 2.4) - 0.055
                }
            });
        }
    }
    (w, h, 3, v, slack)
}

fn kind(e: &Error) -> &'static str {
    match e {
        Error::Unimplemented => "Unimplemented",
        Error::InvalidFormat => "InvalidFormat",
        _ => "another error",
    }
}

fn options(stage: u32, target: ColourSpace) -> RenderingOptions {
    let stage = match stage {
        0 => RenderingStage::Raw,
        1 => RenderingStage::Linearization,
        2 => RenderingStage::Interpolation,
        _ => RenderingStage::Colour,
    };
    RenderingOptions::default().with_stage(stage).with_target(target)
}

/// Compare the rendering with the model. `wrong`: the data can't be rendered at all.
fn judge(g: &mut G, s: &Src, wrong: bool, singular: bool, stage: u32, target: ColourSpace, got: Result<RawImage, Error>) -> R {
    let what = format!("{}x{} stage {stage} {target:?} {:?} {:?} black {} white {}", s.w, s.h, s.photom, s.cfa, s.black, s.white);
    let linear = matches!(s.photom, PhotometricInterpretation::LinearRaw);
    let cfa = matches!(s.photom, PhotometricInterpretation::CFA);
    // The reasons to refuse
    let mut reasons = vec![];
    if stage == 0 {
        reasons.push("Unimplemented");
    }
    if wrong || s.white <= s.black {
        reasons.push("InvalidFormat");
    }
    if stage >= 2 && !linear && (!cfa || s.cfa.is_none() || s.w < 2 || s.h < 2) {
        reasons.push("InvalidFormat");
    }
    if stage == 3 && cfa && target as u32 != ColourSpace::SRgb as u32 {
        reasons.push("Unimplemented");
    }
    if stage == 3 && cfa && singular {
        reasons.push("InvalidFormat");
    }
    let i = match (got, reasons.is_empty()) {
        (Ok(_), false) => return fail("not refused", format!("{what}: {reasons:?} {wrong}")),
        (Err(e), true) => return fail("refused", format!("{what}: {e}")),
        (Err(e), false) => {
            g.label("refused");
            ensure!(reasons.contains(&kind(&e)), "error", "{what}: got {e:?}, expected one of {reasons:?}");
            return Ok(());
        }
        (Ok(i), true) => i,
    };
    let (w, h, cc, v, slack) = model(s, stage);
    ensure_eq!((i.width() as usize, i.height() as usize), (w, h), "dimensions", "{what}");
    ensure_eq!((i.output_size().width, i.output_size().height), (w as u32, h as u32), "output-size", "{what}");
    ensure_eq!(i.bpc(), 16, "bpc", "{what}");
    let ty = if cc == 3 { DataType::PixmapRgb16 } else { DataType::Raw };
    ensure_eq!(i.data_type() as u32, ty as u32, "data-type", "{what}");
    ensure!(i.data8().is_none() && i.tile_data().is_none(), "storage", "{what}");
    let Some(d) = i.data16() else {
        return fail("storage", what);
    };
    ensure_eq!(d.len(), w * h * cc, "samples", "{what}");
    ensure_eq!(i.data_size(), d.len() * 2, "data-size", "{what}");
    ensure_eq!(i.data16_as_u8().map(|d| d.len()), Some(d.len() * 2), "data-size", "{what}");
    ensure_eq!((*i.blacks(), *i.whites()), ([0; 4], [65535; 4]), "levels", "{what}");
    if cc == 3 {
        ensure_eq!(i.mosaic_pattern(), &CfaPattern::Empty, "pattern", "{what}");
    } else {
        let b = s.cfa.and_then(|c| CfaPattern::try_from(&c[..]).ok());
        if let Some(b) = b {
            ensure_eq!(i.mosaic_pattern(), &b, "pattern", "{what}");
        }
    }
    for (k, (a, b)) in d.iter().zip(&v).enumerate() {
        let b = b * 65535.0;
        let c = b.clamp(0.0, 65535.0);
        let off = (*a as f64 - c).abs();
        ensure!(
            off <= 0.5 + 1e-6 + slack * 65535.0,
            "sample",
            "{what}: sample {k} (pixel {} of row {}, component {}): got {a}, expected {b}",
            k / cc % w,
            k / cc / w,
            k % cc
        );
    }
    if stage > 1 && w > 0 && h > 0 || stage == 1 && s.px.iter().any(|x| *x != s.px[0]) {
        g.nontrivial();
    }
    g.label(match (stage, linear) {
        (1, _) => "linearization",
        (2, true) => "interpolation, linear",
        (2, _) => "interpolation, mosaic",
        (_, true) => "colour, linear",
        _ if s.matrix.is_some() => "colour, matrix",
        _ => "colour, no matrix",
    });
    Ok(())
}

const TARGETS: [ColourSpace; 4] = [ColourSpace::SRgb, ColourSpace::Camera, ColourSpace::XYZ, ColourSpace::Unknown];

fn what_for(g: &mut G, linear: bool) -> (u32, ColourSpace) {
    let stage = g.pickv(&[1, 2, 2, 3, 3, 0]);
    let target = if linear || g.chance(4, 5) {
        ColourSpace::SRgb
    } else {
        g.pickv(&TARGETS)
    };
    (stage, target)
}

/// Black and white levels
fn levels(g: &mut G) -> (u16, u16) {
    match g.below(8) {
        0 => (0, 65535),
        1 => {
            // None, or upside down
            let a = g.u16();
            (a, g.pickv(&[a, a.saturating_sub(1), 0, a / 2]))
        }
        2 => (g.pickv(&[0, 128, 512, 1023]), g.pickv(&[1023, 4095, 16383])),
        3 => {
            let a = g.range(0, 65534) as u16;
            (a, a + 1)
        }
        _ => {
            let a = g.u16();
            let b = g.u16();
            (a.min(b), a.max(b).max(1))
        }
    }
}

fn size(g: &mut G) -> (usize, usize) {
    if let Some(s) = g.large(600) {
        return (s.0 as usize, s.1 as usize);
    }
    match g.below(6) {
        0 => (g.ur(0, 4), g.ur(0, 4)),
        1 => (g.ur(2, 40), 2 + g.idx(2)),
        2 => (2 + g.idx(2), g.ur(2, 40)),
        _ => (g.ur(3, 24), g.ur(3, 24)),
    }
}

/// A matrix, and whether it can't be inverted.
fn matrix(g: &mut G) -> (Vec<(i32, i32)>, bool) {
    match g.below(8) {
        0 => {
            // No inverse
            let mut m: Vec<i32> = (0..9).map(|_| g.below(200) as i32 - 100).collect();
            let k = g.idx(3) * 3;
            let z = g.idx(2);
            for j in 0..3 {
                m[k + j] = if z == 0 { 0 } else { m[(k + 3 + j) % 9] };
            }
            (m.iter().map(|v| (*v, 1)).collect(), true)
        }
        1 => {
            let all = &cams().matrices;
            let m = &all[g.idx(all.len())].m;
            (m.iter().map(|v| (*v, 10000)).collect(), false)
        }
        _ => loop {
            let mut m: Vec<i32> = (0..9).map(|_| g.below(8000) as i32 - 4000).collect();
            for k in 0..3 {
                m[k * 4] += if g.chance(7, 8) { 12000 } else { -12000 };
            }
            let mut f = [0.0; 9];
            for k in 0..9 {
                f[k] = m[k] as f64 / 10000.0;
            }
            if det(&f).abs() > 0.05 {
                break (m.iter().map(|v| (*v, 10000)).collect(), false);
            }
        },
    }
}

fn to_m3(m: &[(i32, i32)]) -> M3 {
    let mut r = [0.0; 9];
    for k in 0..9 {
        r[k] = m[k].0 as f64 / m[k].1 as f64;
    }
    r
}

fn photometric(g: &mut G) -> PhotometricInterpretation {
    match g.below(8) {
        0 | 1 => PhotometricInterpretation::LinearRaw,
        2 => g.pickv(&[
            PhotometricInterpretation::BlackIsZero,
            PhotometricInterpretation::Rgb,
        ]),
        _ => PhotometricInterpretation::CFA,
    }
}

/// An image made by hand.
fn image(g: &mut G) -> R {
    let (w, h) = size(g);
    let bits = g.pickv(&[8, 10, 12, 14, 16]);
    let n = w * h;
    let mut px = gen::image(g, n, w.max(1), bits);
    px.resize(n, 0);
    let mut wrong = false;
    match g.below(12) {
        0 if n > 0 => {
            px.truncate(g.idx(n));
            wrong = true;
        }
        1 => px.extend((0..g.ur(1, 9)).map(|_| 777)),
        _ => {}
    }
    let (cfa, pattern) = match g.below(10) {
        0 => (None, CfaPattern::Empty),
        1 => (None, raws::xtrans(g).0),
        _ => {
            let (p, b) = g.pick(&BAYER).clone();
            (Some(b), p)
        }
    };
    let mut data_type = DataType::Raw;
    if g.chance(1, 12) {
        data_type = g.pickv(&[DataType::CompressedRaw, DataType::PixmapRgb16, DataType::Unknown, DataType::Jpeg]);
        wrong = true;
    }
    let bpc = g.pickv(&[bits as u16, 16, 8]);
    let photom = photometric(g);
    let (black, white) = levels(g);
    let mut s = Src {
        w,
        h,
        bpc: bpc as u32,
        black,
        white,
        table: None,
        cfa,
        photom,
        matrix: None,
        px,
    };
    let mut i = if g.chance(1, 16) {
        wrong = true;
        if g.bool() {
            RawImage::with_data8(w as u32, h as u32, bpc, data_type, vec![1; n], pattern)
        } else {
            RawImage::new_tiled(w as u32, h as u32, bpc, data_type, vec![vec![1; n]], (w as u32, h as u32), pattern)
        }
    } else {
        RawImage::with_data16(w as u32, h as u32, bpc, data_type, s.px.clone(), pattern)
    };
    // The levels are those of the first component.
    let (mut blacks, mut whites) = ([black; 4], [white; 4]);
    if g.chance(1, 4) {
        for k in 1..4 {
            blacks[k] = black.wrapping_add(g.edge(16) as u16);
            whites[k] = white.wrapping_sub(g.edge(16) as u16);
        }
    }
    i.set_blacks(blacks);
    i.set_whites(whites);
    i.set_photometric_interpretation(photom);
    let mut singular = false;
    for k in 1..=2 {
        if g.chance(2, 3) {
            let (m, no) = matrix(g);
            let mut v: Vec<f64> = m.iter().map(|r| r.0 as f64 / r.1 as f64).collect();
            let whole = g.chance(7, 8);
            if !whole {
                v.resize(g.pickv(&[12, 3, 0, 8]), 0.5);
            }
            let light = g.pickv(&[
                LightsourceValue::D65,
                LightsourceValue::D65,
                LightsourceValue::StandardA,
                LightsourceValue::D50,
                LightsourceValue::Unknown,
            ]);
            i.set_colour_matrix(k, light, &v);
            if light == LightsourceValue::D65 && whole && s.matrix.is_none() {
                s.matrix = Some(to_m3(&m));
                singular = no;
            }
        }
    }
    if g.bool() {
        // Of no account here
        i.set_active_area(Some(libopenraw::Rect {
            x: 1,
            y: 1,
            width: 1,
            height: 1,
        }));
        i.set_output_size(3, 4);
        i.set_as_shot_neutral(&[0.5, 1.0, 0.7]);
    }
    g.input(format!("{w}x{h} {photom:?} {cfa:?} {black} {white} {:?} {:?}", s.matrix, s.px).as_bytes());
    // Several of them, the image is left as it was.
    let before = api::raw_text(&i);
    for _ in 0..g.ur(1, 3) {
        let (stage, target) = what_for(g, matches!(photom, PhotometricInterpretation::LinearRaw));
        let got = i.rendered_image(options(stage, target));
        judge(g, &s, wrong, singular, stage, target, got)?;
    }
    ensure!(api::raw_text(&i) == before, "image changed", "by rendering");
    Ok(())
}

/// A DNG file, with a linearization table.
fn dng(g: &mut G) -> R {
    let o = meta::order(g);
    let (w, h) = (g.ur(3, 20), g.ur(3, 20));
    let bits = g.pickv(&[12, 14, 16]);
    let depth = if g.chance(1, 4) { 16 } else { bits };
    let px = gen::image(g, w * h, w, depth);
    let (p, b) = g.pick(&BAYER).clone();
    let (mut black, mut white) = levels(g);
    if g.bool() {
        black = 0;
        white = 65535;
    }
    let mut t = Tiff::new(o);
    let d = t.dir();
    t.first(d);
    t.add(d, 0xfe, V::U32(vec![0]));
    t.add(d, 0x100, V::U16(vec![w as u16]));
    t.add(d, 0x101, V::U16(vec![h as u16]));
    t.add(d, 0x102, V::U16(vec![bits as u16]));
    t.add(d, 0x103, V::U16(vec![1]));
    let photom = if g.chance(1, 5) {
        PhotometricInterpretation::LinearRaw
    } else {
        PhotometricInterpretation::CFA
    };
    t.add(d, 0x106, V::U16(vec![photom as u16]));
    let blob = t.blob(raws::bytes16(&px, o));
    t.add(d, 0x111, V::Ptr(vec![blob]));
    t.add(d, 0x115, V::U16(vec![1]));
    t.add(d, 0x117, V::Len(vec![blob]));
    t.add(d, 0x828d, V::U16(vec![2, 2]));
    t.add(d, 0x828e, V::U8(b.to_vec()));
    t.add(d, 0xc612, V::U8(vec![1, 4, 0, 0]));
    t.add(d, 0xc61a, V::U16(vec![black]));
    t.add(d, 0xc61d, V::U16(vec![white]));
    let mut table = None;
    if g.chance(3, 4) {
        let n = g.pickv(&[1 << bits, 1 << bits, 1 << bits, 100]).min(65535);
        let k = g.below(5) as u32;
        let mut x: Vec<u16> = match k {
            0 => gen::image(g, n, 256, 16),
            _ => (0..n).map(|i| ((i * i * k as usize) >> (2 * bits - 16)).min(65535) as u16).collect(),
        };
        if bits == 16 {
            x.push(65535);
        }
        t.add(d, 0xc618, V::U16(x.clone()));
        table = Some(x);
        g.label("table");
    }
    let mut s = Src {
        w,
        h,
        bpc: bits,
        black,
        white,
        table,
        cfa: Some(b),
        photom,
        matrix: None,
        px,
    };
    let mut singular = false;
    for k in 0..2_u16 {
        if g.chance(2, 3) {
            let (m, no) = matrix(g);
            t.add(d, 0xc621 + k, V::SR(m.clone()));
            let light = g.pickv(&[21, 21, 17, 23]);
            t.add(d, 0xc65a + k, V::U16(vec![light]));
            if light == 21 && s.matrix.is_none() {
                s.matrix = Some(to_m3(&m));
                singular = no;
            }
        }
    }
    let bytes = t.build(g).bytes;
    g.input(&bytes);
    let f = match api::open(&bytes, Some(Type::Dng), Via::Memory) {
        Ok(f) => f,
        Err(e) => return fail("open", format!("{e:?}")),
    };
    let _ = p;
    let (stage, target) = what_for(g, matches!(photom, PhotometricInterpretation::LinearRaw));
    let got = f.rendered_image(options(stage, target));
    judge(g, &s, false, singular, stage, target, got)
}

/// Any file: what its raw image renders to.
fn file(g: &mut G) -> R {
    let ty = g.pickv(&raws::HOSTS);
    let r = raws::file(g, ty, Kind::Any);
    g.input(&r.bytes);
    let f = match api::open(&r.bytes, Some(ty), Via::Memory) {
        Ok(f) => f,
        Err(e) => return fail("open", format!("{ty:?}: {e:?}")),
    };
    let i = match f.raw_data(false) {
        Ok(i) => i,
        Err(e) => return fail("no raw data", format!("{ty:?}: {e}")),
    };
    for _ in 0..g.ur(1, 3) {
        let (stage, target) = what_for(g, false);
        let what = format!("{ty:?} {} stage {stage} {target:?}", r.style);
        match (f.rendered_image(options(stage, target)), i.rendered_image(options(stage, target))) {
            (Ok(a), Ok(b)) => {
                ensure!(api::raw_text(&a) == api::raw_text(&b), "file differs from image", "{what}: {} and {}", api::raw_text(&a), api::raw_text(&b));
                if stage > 1 {
                    g.nontrivial();
                }
                g.label(api::name_of(ty));
                let cc = if stage > 1 { 3 } else { 1 };
                ensure_eq!(a.data16().map(|d| d.len()), Some(a.width() as usize * a.height() as usize * cc), "samples", "{what}");
            }
            (Err(a), Err(b)) => {
                ensure_eq!(kind(&a), kind(&b), "error", "{what}");
                g.label("refused");
            }
            (a, b) => return fail("file differs from image", format!("{what}: {a:?} and {b:?}")),
        }
    }
    Ok(())
}

pub fn check() -> run::Check {
    run::Check {
        id: "C18",
        rule: "there is more than one sample value, or at least one interpolated pixel",
        assumptions: &[
            "the four channels have the same black and white levels (the first ones apply); LinearRaw images are only asked for sRGB",
            "interpolation is the bimedian one: the mean of two neighbours, or of the middle two of four",
            "float results may be off by 1e-6 of the largest coefficient of the inverse matrix",
        ],
        subs: vec![
            run::Sub { name: "image", quick: 900000, thorough: 20000000, run: image },
            run::Sub { name: "dng", quick: 120000, thorough: 3000000, run: dng },
            run::Sub { name: "file", quick: 180000, thorough: 4000000, run: file },
        ],
    }
}
