//! Files with raw data, for the formats that are not, or not only, TIFF.

use libopenraw::tiff::Compression;
use libopenraw::{CfaPattern, DataType, Type};

use crate::cams::{cams, Tid};
use crate::gen::{self, G};
use crate::ljpeg;
use crate::meta;
use crate::raws::{self, both, builtin_levels, camera, finish, frame, levels, neutral3, num, uint, white_of, Body, Desc, Kind, Pay, Raw};
use crate::tiffw::{s, Order, Tiff, V};
use crate::wraps::{self, Rec};

/// The white level of the tables, or that of so many bits.
fn white(known: Option<(u16, u16)>, bpc: u16) -> [u16; 4] {
    match known {
        Some((_, w)) if w != 0 => [w; 4],
        _ => white_of(bpc),
    }
}

/// The sensor information of Canon files, and the area it describes.
fn sensor_info(g: &mut G, w: u32, h: u32) -> (Vec<u16>, [u32; 4]) {
    let n = g.pickv(&[9, 17, 17, 34]);
    let mut v: Vec<u16> = (0..n).map(|_| g.u16()).collect();
    let (x, y) = if g.chance(1, 5) {
        (g.u32r(0, 65000), g.u32r(0, 65000))
    } else {
        (g.u32r(0, w - 1), g.u32r(0, h - 1))
    };
    let (aw, ah) = if g.chance(1, 5) {
        (g.u32r(1, 0xffff - x), g.u32r(1, 0xffff - y))
    } else {
        (g.u32r(1, w.min(0xffff - x)), g.u32r(1, h.min(0xffff - y)))
    };
    v[0] = (2 * n) as u16;
    v[1] = w as u16;
    v[2] = h as u16;
    v[5] = x as u16;
    v[6] = y as u16;
    v[7] = (x + aw) as u16;
    v[8] = (y + ah) as u16;
    // An even number of columns and of rows
    (v, [x, y, (aw + 1) & !1, (ah + 1) & !1])
}

/// The aspect of Canon files: the values, the ratio and the crop from the active area.
fn aspect_info(g: &mut G, w: u32, h: u32) -> (Vec<u32>, Option<(u32, u32)>, [u32; 4]) {
    let (code, ratio) = g.pickv(&[
        (0, Some((3, 2))),
        (1, Some((1, 1))),
        (2, Some((4, 3))),
        (7, Some((16, 9))),
        (8, Some((4, 5))),
        (12, Some((3, 2))),
        (13, Some((3, 2))),
        (256, Some((3, 2))),
        (258, Some((4, 3))),
        (99, None),
    ]);
    let a = raws::area(g, w, h);
    let mut v = vec![code, a[2], a[3], a[0], a[1]];
    for _ in 0..g.below(3) {
        v.push(g.u32());
    }
    (v, ratio, a)
}

fn canon_note(g: &mut G, t: &mut Tiff, n: usize, w: u32, h: u32, on: &mut dyn FnMut(&mut dyn FnMut(&mut Desc))) {
    let mut origin = [0; 2];
    match g.below(6) {
        0 | 1 => {}
        2 => {
            // Nothing in it, or not enough
            let (mut v, _) = sensor_info(g, w, h);
            if g.bool() {
                v.truncate(8);
            } else {
                let k = g.idx(2);
                v[7 + k] = g.u32r(0, v[5 + k] as u32) as u16;
            }
            t.add(n, 0xe0, V::U16(v));
        }
        _ => {
            let (v, a) = sensor_info(g, w, h);
            t.add(n, 0xe0, V::U16(v));
            origin = [a[0], a[1]];
            on(&mut |d| d.active = Some(a));
        }
    }
    match g.below(5) {
        0 | 1 => {}
        2 => {
            let (mut v, ..) = aspect_info(g, w, h);
            v.truncate(4);
            t.add(n, 0x9a, V::U32(v));
        }
        _ => {
            let (v, r, a) = aspect_info(g, w, h);
            let v = if g.chance(3, 4) { V::U32(v) } else { uint(g, &v) };
            t.add(n, 0x9a, v);
            on(&mut |d| {
                d.crop = Some([a[0] + origin[0], a[1] + origin[1], a[2], a[3]]);
                d.ratio = r;
            });
        }
    }
}

/// A model identifier, of a camera or not, and what it means.
fn canon_id(g: &mut G, not: &[Tid]) -> (u32, Tid) {
    if g.chance(1, 5) {
        let v = g.u32();
        let id = cams().ids("canon").iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or((1, 0));
        if !not.contains(&id) {
            return (v, id);
        }
    }
    loop {
        let x = g.pickv(&cams().ids("canon"));
        if !not.contains(&x.1) {
            return x;
        }
    }
}

// ---------------------------------------------------------------- CRW

pub fn u16s(o: Order, v: &[u16]) -> Vec<u8> {
    v.iter().flat_map(|v| o.u16(*v)).collect()
}
pub fn u32s(o: Order, v: &[u32]) -> Vec<u8> {
    v.iter().flat_map(|v| o.u32(*v)).collect()
}

/// White balance records of CRW files, and the neutral they give.
fn crw_wb(g: &mut G, o: Order, id: Tid, recs: &mut Vec<Rec>) -> Option<Vec<f64>> {
    let mut one = |g: &mut G, at: usize, n: usize, least: usize| -> (Vec<u16>, Vec<u8>) {
        let v: Vec<u16> = (0..n).map(|_| g.u16().max(1)).collect();
        let mut d = g.noise(least.max(at + 2 * n));
        d[at..at + 2 * n].copy_from_slice(&u16s(o, &v));
        (v, d)
    };
    let f = |v: &[u16]| -> Vec<f64> { v.iter().map(|v| *v as f64).collect() };
    let mut got = None;
    if g.chance(1, 3) {
        let magic = match g.below(3) {
            0 => g.u32r(513, 0xffff) as u16,
            1 => 276,
            _ => g.u32r(0, 275) as u16,
        };
        let (v, mut d) = one(g, if magic > 512 { 120 } else { 100 }, 4, 160);
        d[..2].copy_from_slice(&o.u16(magic));
        recs.push(Rec::Data(0x102c, d));
        let v = f(&v);
        if magic > 512 {
            got = Some(vec![v[0] / v[2], v[0] / v[3], 1.0, v[0] / v[1]]);
        } else if magic != 276 {
            let k = (v[0] + v[3]) / 2.0;
            got = neutral3([k / v[1], 1.0, k / v[2]]);
        }
    }
    if g.chance(1, 3) {
        // Told apart by its length
        let x = match g.below(3) {
            0 => {
                let (v, mut d) = one(g, 72, 4, 768);
                d.truncate(768);
                recs.push(Rec::Data(0x0032, d));
                let v = f(&v);
                let k = (1024.0 / v[1] + 1024.0 / v[2]) / 2.0;
                neutral3([k / (1024.0 / v[0]), 1.0, k / (1024.0 / v[3])])
            }
            1 => {
                let n = 2 * g.ur(50, 383);
                let d = g.noise(n);
                recs.push(Rec::Data(0x0032, d));
                None
            }
            _ => {
                // PRO1, G6, S60, S70
                let newer = [18, 23, 107, 108].contains(&id.1) && id.0 == 1;
                let (at, keys) = if newer { (96, [0x410, 0x45f3, 0x410]) } else { (120, [0; 3]) };
                let n = 2 * g.ur(385, 500);
                let (v, mut d) = one(g, at, 3, n);
                let v: Vec<u16> = v.iter().zip(keys).map(|(v, k)| (v ^ k).max(1)).collect();
                for i in 0..3 {
                    d[at + 2 * i..at + 2 * i + 2].copy_from_slice(&o.u16(v[i] ^ keys[i]));
                }
                recs.push(Rec::Data(0x0032, d));
                let v = f(&v);
                neutral3([v[0] / v[1], 1.0, v[0] / v[2]])
            }
        };
        got = got.or(x);
    }
    if g.chance(1, 2) {
        let idx = g.idx(10);
        let mut d = g.noise(40);
        d[14..16].copy_from_slice(&o.u16(idx as u16));
        recs.push(Rec::Data(0x102a, d));
        if g.chance(3, 4) {
            let k = [0, 1, 3, 4, 5, 6, 7, 0, 2, 8][idx];
            let (v, d) = one(g, 2 + 8 * k, 4, 80);
            recs.push(Rec::Data(0x10a9, d));
            let v = f(&v);
            got = got.or(neutral3([v[1] / v[0], 1.0, v[1] / v[3]]));
        }
    }
    got
}

fn crw(g: &mut G, _: Kind) -> Raw {
    let o = meta::order(g);
    let (p, table) = crate::c14::pay(g);
    let (mut a, mut b) = both(&p);
    // As the image is described, before decompression
    if g.bool() {
        a.w = g.u32r(1, 5000);
        a.h = g.u32r(1, 5000);
    }
    a.bpc = g.pickv(&[8, 10, 12, 16]);
    a.out = (a.w, a.h);
    a.whites = [0; 4];
    a.cfa = CfaPattern::Rggb;
    b.cfa = CfaPattern::Rggb;
    let mut info = u32s(o, &[a.w, a.h, 0x3f80_0000]);
    info.extend(o.u32(g.pickv(&[0, 90, 180, 270])));
    info.extend(u32s(o, &[a.bpc as u32, 24, 1]));
    let mut exif = vec![];
    let mut t = u32s(o, &[table]);
    for _ in 0..3 {
        t.extend(o.u32(g.u32()));
    }
    exif.push(Rec::Data(0x1835, t));
    let (v, area) = sensor_info(g, p.full_w, p.full_h);
    exif.push(Rec::Data(0x1031, u16s(o, &v)));
    a.active = Some(area);
    b.active = Some(area);
    let mut props = vec![Rec::Data(0x1810, info)];
    let mut id = (1, 0);
    let mut model = None;
    if g.chance(3, 4) {
        let (m, i, known) = camera(g, "canon");
        props.push(Rec::Heap(0x2807, vec![Rec::Data(0x080a, format!("Canon\0{m}\0").into_bytes()), Rec::Data(0x0810, b"Owner\0".to_vec())]));
        if known {
            model = Some(i);
        }
    }
    if g.chance(3, 4) {
        let (v, i) = canon_id(g, &[]);
        exif.push(if g.bool() { Rec::Inline(0x1834, u32s(o, &[v, 0])) } else { Rec::Data(0x1834, u32s(o, &[v, 0])) });
        if i != (1, 0) || model.is_none() {
            model = Some(i);
        }
    }
    id = model.unwrap_or(id);
    let wb = crw_wb(g, o, id, &mut exif);
    a.neutral = wb.clone();
    b.neutral = wb;
    let known = builtin_levels(Type::Crw, id);
    b.blacks = [known.map(|k| k.0).unwrap_or(0); 4];
    b.whites = white(known, p.full_bpc);
    for i in 0..g.below(3) {
        let n = g.ur(9, 20);
        let d = g.noise(n);
        exif.push(Rec::Data(0x1900 + i as u16, d));
    }
    let mix = |g: &mut G, v: Vec<Rec>| -> Vec<Rec> { g.perm(v.len()).iter().map(|i| v[*i].clone()).collect() };
    let exif = mix(g, exif);
    props.push(Rec::Heap(0x300b, exif));
    let props = mix(g, props);
    let mut top = vec![Rec::Heap(0x300a, props), Rec::Data(0x2005, p.chunks[0].clone())];
    if g.bool() {
        let d = wraps::rand_jpeg(g, 16, 16);
        top.push(Rec::Data(0x2007, d));
    }
    let top = mix(g, top);
    let extra = 2 * g.ur(0, 9);
    let (bytes, at) = wraps::crw(o, extra, &top, &mut |n| (g.perm(n), 2 * g.ur(0, 4)));
    let mut spots: Vec<usize> = (0..26).step_by(2).collect();
    for (code, at) in at {
        if code != 0x2005 {
            spots.extend((at..at + 40).step_by(2));
        } else {
            spots.extend([at, at + 512, at + 514, at + 520]);
        }
    }
    let end = bytes.len();
    spots.extend((end.saturating_sub(400)..end).step_by(2));
    spots.retain(|s| *s < end);
    Raw {
        ty: Type::Crw,
        bytes,
        skip: (a, p.skip),
        full: (b, p.full),
        spots,
        style: p.style,
        model: id,
    }
}

// ---------------------------------------------------------------- CR2

/// A lossless JPEG as CR2 files have, sliced or not.
pub fn cr2_pay(g: &mut G) -> (Pay, Option<Vec<u32>>) {
    let prec = g.pickv(&[12, 14, 14, 10, 16]);
    let comps = g.pickv(&[1, 2, 2, 4, 4]);
    let (w, h) = (g.ur(1, 24), g.ur(1, 12));
    let o = crate::c09::opt(g, w, h, comps, prec);
    let px = ljpeg::samples(g, w, h, comps, prec, o.pt);
    let e = ljpeg::encode(g, &o, &px);
    let total = (w * comps) as u32;
    let mut out = px.clone();
    let mut slices = None;
    let (mut fw, mut fh) = (total, h as u32);
    let mut style = "ljpeg";
    if total >= 2 && g.chance(2, 3) {
        let (s, x) = crate::c09::slice(g, &px, total, h);
        slices = Some(s);
        out = x;
        style = "ljpeg slices";
    } else {
        if comps == 4 {
            (fw, fh) = (2 * w as u32, 2 * h as u32);
            style = "ljpeg four";
        }
        if g.chance(1, 3) {
            // None
            slices = Some(vec![0]);
        }
    }
    let p = Pay {
        w: fw,
        h: fh,
        bpc: 8,
        comp: Some(6),
        chunks: vec![e.bytes.clone()],
        tile: None,
        skip: Body::S8(e.bytes),
        full: Body::S16(out),
        full_w: fw,
        full_h: fh,
        full_bpc: prec as u16,
        compr: [Compression::Unknown; 2],
        style,
    };
    (p, slices)
}

/// Colour data of Canon cameras: blacks and neutral.
fn colour_data(g: &mut G) -> (Vec<u16>, Option<[u16; 4]>, Option<[f64; 3]>) {
    // length, version, where the blacks are, where the white balance is
    let mut kinds: Vec<(usize, Option<i16>, usize, usize)> = vec![
        (582, None, 0, 25),
        (653, None, 0, 24),
        (1816, None, 329, 71),
        (1820, None, 329, 71),
        (1824, None, 329, 71),
        (2024, None, 343, 85),
        (3656, None, 343, 85),
        (3973, None, 363, 105),
        (3778, None, 363, 105),
        (796, Some(1), 196, 63),
        (674, Some(2), 0, 63),
        (692, Some(3), 0, 63),
        (1227, Some(4), 692, 63),
        (1250, Some(5), 692, 63),
        (1251, Some(6), 715, 63),
        (1346, Some(9), 719, 63),
        (1273, Some(10), 479, 63),
        (1275, Some(11), 479, 63),
        (1312, Some(10), 504, 63),
        (1316, Some(11), 728, 63),
        (1560, Some(12), 778, 63),
        (1592, Some(13), 778, 63),
        (1353, Some(14), 556, 63),
        (1602, Some(15), 778, 63),
        (5120, Some(-4), 333, 71),
        (1600, Some(-3), 264, 71),
    ];
    kinds.push((1337, Some(7), 715, 63));
    let (n, version, black, wb) = g.pickv(&kinds);
    let mut v: Vec<u16> = vec![0x5a5a; n];
    for x in v.iter_mut().take(110) {
        *x = g.u16().max(1);
    }
    if let Some(x) = version {
        v[0] = x as u16;
    }
    let mut blacks = None;
    if black > 0 {
        let mut b = [g.u16(), g.u16(), g.u16(), g.u16()];
        if g.chance(1, 4) {
            b = [0; 4];
        }
        v[black..black + 4].copy_from_slice(&b);
        blacks = Some(b);
    }
    let k: Vec<f64> = v[wb..wb + 4].iter().map(|v| *v as f64).collect();
    let neutral = Some([k[1] / k[0], 1.0, k[1] / k[3]]);
    if g.chance(1, 12) {
        // Of an unknown kind
        v[0] = g.pickv(&[100, 0, 8, 16, 0xfff0]);
        if version.is_some() {
            return (v, None, None);
        }
    }
    (v, blacks, neutral)
}

// 1D and 1DS, whose files are something else
const TIF: [Tid; 2] = [(1, 8), (1, 11)];

fn cr2(g: &mut G, _: Kind) -> Raw {
    let o = meta::order(g);
    if g.chance(1, 6) {
        return tif(g, o);
    }
    let (p, slices) = cr2_pay(g);
    let (model, ..) = camera(g, "canon");
    let note = g.chance(5, 6);
    let mut f = frame(g, Type::Cr2, o, &model, note);
    let (mut a, mut b) = both(&p);
    let raw = f.raw;
    a.cfa = CfaPattern::Rggb;
    b.cfa = CfaPattern::Rggb;
    // The size as Exif has it
    let size = [g.u32r(0, 9000), g.u32r(0, 9000)];
    a.w = 0;
    a.h = 0;
    if let (Some(x), true) = (f.exif, g.chance(3, 4)) {
        let v = num(g, size[0]);
        f.t.add(x, 0xa002, v);
        let v = num(g, size[1]);
        f.t.add(x, 0xa003, v);
        a.w = size[0];
        a.h = size[1];
    }
    a.out = (a.w, a.h);
    let blob = f.t.blob(p.chunks[0].clone());
    if g.bool() {
        f.t.add(raw, 0x103, V::U16(vec![6]));
    }
    f.t.add(raw, 0x111, V::Ptr(vec![blob]));
    f.t.add(raw, 0x117, V::Len(vec![blob]));
    if let Some(v) = slices {
        let v = if g.chance(3, 4) { V::U16(v.iter().map(|v| *v as u16).collect()) } else { uint(g, &v) };
        f.t.add(raw, 0xc640, v);
    }
    if g.chance(2, 3) {
        let k = g.pickv(&[1, 3, 3, 2, 0]);
        let v = num(g, k);
        f.t.add(raw, 0xc5e0, v);
        if k == 3 {
            a.cfa = CfaPattern::Gbrg;
            b.cfa = CfaPattern::Gbrg;
        }
    }
    let mut id = (1, 0);
    if let Some(n) = f.note {
        if g.chance(4, 5) {
            let (v, i) = canon_id(g, &TIF);
            f.t.add(n, 0x10, V::U32(vec![v]));
            id = i;
        }
        canon_note(g, &mut f.t, n, p.full_w, p.full_h, &mut |x| {
            x(&mut a);
            x(&mut b);
        });
        if g.chance(3, 4) {
            let (v, black, wb) = colour_data(g);
            f.t.add(n, 0x4001, V::U16(v));
            for d in [&mut a, &mut b] {
                d.blacks = black.unwrap_or([0; 4]);
                d.neutral = wb.and_then(neutral3);
            }
        }
    }
    let known = builtin_levels(Type::Cr2, id);
    for d in [&mut a, &mut b] {
        if d.blacks == [0; 4] {
            d.blacks = [known.map(|k| k.0).unwrap_or(0); 4];
        }
        d.whites = white(known, d.bpc);
    }
    let built = f.build(g);
    finish(Type::Cr2, built, p, a, b, id)
}

/// The files of the 1D and the 1DS
fn tif(g: &mut G, o: Order) -> Raw {
    let (mut p, _) = loop {
        let x = cr2_pay(g);
        if x.1.is_none() {
            break x;
        }
    };
    p.style = "tif";
    let (model, ..) = camera(g, "canon");
    let mut f = frame(g, Type::Cr2, o, &model, true);
    let n = f.note.unwrap();
    let (mut a, mut b) = both(&p);
    a.w = 0;
    a.h = 0;
    a.out = (0, 0);
    let which = *g.pick(&TIF);
    let (v, id) = *cams().ids("canon").iter().find(|x| x.1 == which).unwrap();
    f.t.add(n, 0x10, V::U32(vec![v]));
    let blob = f.t.blob(p.chunks[0].clone());
    f.t.add(n, 0x81, V::Ptr(vec![blob]));
    if g.chance(3, 4) {
        f.t.add(n, 0x82, V::Len(vec![blob]));
    } else {
        // To the end
        f.t.trail = 0;
        f.t.last = Some(blob);
    }
    let neutral = if g.bool() {
        let k = g.ur(3, 5);
        let v: Vec<u16> = (0..k).map(|_| g.u16().max(1)).collect();
        let x: Vec<f64> = v.iter().map(|v| *v as f64).collect();
        f.t.add(n, 0xa4, V::U16(v));
        neutral3([x[1] / x[0], 1.0, x[1] / x[2]])
    } else {
        None
    };
    let known = builtin_levels(Type::Cr2, id);
    for d in [&mut a, &mut b] {
        d.cfa = CfaPattern::Rggb;
        d.neutral = neutral.clone();
        d.blacks = [known.map(|k| k.0).unwrap_or(0); 4];
        d.whites = white(known, d.bpc);
    }
    let built = f.build(g);
    finish(Type::Cr2, built, p, a, b, id)
}

// ---------------------------------------------------------------- CR3

fn cr3(g: &mut G, _: Kind) -> Raw {
    let o = meta::order(g);
    let (w, h) = (g.u32r(1, 9000), g.u32r(1, 9000));
    let n = g.ur(1, 200);
    let data = g.noise(n);
    let mut d = Desc::new(w, h, 8);
    d.dt = DataType::CompressedRaw;
    d.compr = Compression::Unknown;
    d.whites = [0; 4];
    let mut c = wraps::Cr3 {
        noise: g.below(4) * g.below(1 << 32),
        ..Default::default()
    };
    let mut id = (1, 0);
    if g.bool() {
        let mut t = Tiff::new(o);
        let dir = t.dir();
        t.first(dir);
        let (m, ..) = camera(g, "canon");
        t.add(dir, 0x110, s(&m));
        raws::colours(g, &mut t, dir);
        c.cmt[0] = Some(t.build(g).bytes);
    }
    if g.chance(5, 6) {
        let mut t = Tiff::new(o);
        let dir = t.dir();
        t.first(dir);
        if g.chance(4, 5) {
            let (v, i) = canon_id(g, &[]);
            t.add(dir, 0x10, V::U32(vec![v]));
            id = i;
        }
        canon_note(g, &mut t, dir, w, h, &mut |x| x(&mut d));
        if t.d(dir).entries.is_empty() {
            t.add(dir, 0xfe00, V::U16(vec![1]));
        }
        c.cmt[2] = Some(t.build(g).bytes);
    }
    c.thmb = Some((0, 0, vec![]));
    let n = g.ur(3, 5);
    for k in 0..n {
        let jpeg = k == 0 || (k != 2 && g.bool());
        let len = g.ur(1, 80);
        let mut t = wraps::Track {
            w: g.u16(),
            h: g.u16(),
            jpeg,
            data: if jpeg { wraps::rand_jpeg(g, 8, 8) } else { g.noise(len) },
            kind: if k > 2 { g.pickv(&[0, 1, 2]) } else { 0 },
            stsz_list: g.bool(),
            co64: g.bool(),
            more: [0; 3],
        };
        t.several(g);
        if k == 2 {
            t.w = w as u16;
            t.h = h as u16;
            t.data = data.clone();
        }
        c.tracks.push(t);
    }
    let (bytes, at) = c.build();
    let mut spots = at.spots;
    for (i, m) in c.cmt.iter().enumerate() {
        if let Some(m) = m {
            spots.extend((at.cmt[i]..at.cmt[i] + m.len()).step_by(2).take(200));
        }
    }
    Raw {
        ty: Type::Cr3,
        bytes,
        skip: (d.clone(), Body::S8(data.clone())),
        full: (d, Body::S8(data)),
        spots,
        style: "cr3",
        model: id,
    }
}

// ---------------------------------------------------------------- MRW

const VERSIONS: [&[u8; 8]; 9] = [
    b"21860002", b"21810002", b"27730001", b"27660001", b"27790001", b"27780001", b"27820001", b"27200001", b"27470002",
];

fn mrw(g: &mut G, kind: Kind) -> Raw {
    let packed = kind != Kind::Plain || g.bool();
    let (mut w, h) = raws::size(g);
    let px;
    let data;
    if packed {
        // Pairs of samples in three bytes, across rows
        if w * h % 2 != 0 {
            w += 1;
        }
        px = gen::image(g, (w * h) as usize, w as usize, 12);
        data = raws::pack_msb(&px, px.len(), 12);
    } else {
        px = gen::image(g, (w * h) as usize, w as usize, 16);
        data = raws::bytes16(&px, Order::Be);
    }
    let bits = if packed { 12 } else { g.pickv(&[12, 12, 14, 16]) };
    let bayer = g.pickv(&[1, 4, 4, 0]);
    let version = if g.chance(1, 6) { *b"11110001" } else { **g.pick(&VERSIONS) };
    let id = mrw_id(&version);
    let prd = wraps::Prd {
        version,
        w: w as u16,
        h: h as u16,
        bits: bits as u8,
        packed,
        bayer,
    };
    let mut t = Tiff::new(Order::Be);
    let d = t.dir();
    t.first(d);
    t.add(d, 0x110, s("MODEL"));
    raws::colours(g, &mut t, d);
    let ttw = t.build(g);
    let mut blocks: Vec<(&[u8; 3], Vec<u8>)> = vec![(b"PRD", prd.bytes(Order::Be)), (b"TTW", ttw.bytes.clone())];
    let mut neutral = None;
    if g.bool() {
        let den: Vec<u8> = (0..4).map(|_| g.u32r(0, 9) as u8).collect();
        let v: Vec<u16> = (0..4).map(|_| g.u16().max(1)).collect();
        let mut b = den.clone();
        b.extend(u16s(Order::Be, &v));
        let n = g.ur(0, 9);
        b.extend(g.noise(n));
        blocks.push((b"WBG", b));
        let k = |i: usize| (64_u32 << den[i]) as f64 / v[i] as f64;
        neutral = neutral3(if bayer == 4 { [k(2), k(0), k(1)] } else { [k(0), k(1), k(3)] });
    }
    if g.bool() {
        blocks.push((b"RIF", g.noise(62)));
    }
    if g.bool() {
        let n = g.ur(1, 40);
        blocks.push((b"PAD", vec![7; n]));
    }
    let blocks: Vec<_> = g.perm(blocks.len()).iter().map(|i| blocks[*i].clone()).collect();
    let mut all = data.clone();
    let n = g.ur(0, 30);
    all.extend(g.noise(n));
    let (bytes, at) = wraps::mrw(Order::Be, &blocks, &all);
    let mut spots: Vec<usize> = (0..8).step_by(2).collect();
    for (i, bl) in blocks.iter().enumerate() {
        spots.extend([at[i] - 8, at[i] - 6, at[i] - 4, at[i] - 2]);
        match bl.0 {
            b"TTW" => spots.extend(ttw.spots.iter().map(|s| s + at[i])),
            _ => spots.extend(at[i]..at[i] + bl.1.len().min(24)),
        }
    }
    let mut a = Desc::new(w, h, bits);
    a.compr = Compression::Unknown;
    a.cfa = if bayer == 4 { CfaPattern::Gbrg } else { CfaPattern::Rggb };
    a.neutral = neutral;
    let known = builtin_levels(Type::Mrw, id);
    a.blacks = [known.map(|k| k.0).unwrap_or(0); 4];
    a.whites = white(known, bits);
    let mut b = a.clone();
    let skip = if packed {
        a.dt = DataType::CompressedRaw;
        b.bpc = 16;
        Body::S8(data)
    } else {
        Body::S16(px.clone())
    };
    Raw {
        ty: Type::Mrw,
        bytes,
        skip: (a, skip),
        full: (b, Body::S16(px)),
        spots,
        style: if packed { "mrw packed" } else { "mrw" },
        model: id,
    }
}

fn mrw_id(version: &[u8; 8]) -> Tid {
    cams().models("minolta").iter().find(|m| m.0.as_bytes() == version).map(|m| m.1).unwrap_or((6, 0))
}

// ---------------------------------------------------------------- RAF

fn raf(g: &mut G, kind: Kind) -> Raw {
    let o = meta::order(g);
    let old = kind != Kind::Codec && g.chance(1, 4);
    let (model, mut id, known) = camera(g, "fujifilm");
    if !known {
        id = (14, 0);
    }
    let bggr = ["X10", "XF1", "X-S1"].contains(&model.as_str());
    let mut mosaic = None;
    let p = match kind {
        Kind::Codec => {
            let (p, m) = crate::c15::pay(g, bggr);
            mosaic = Some(m);
            p
        }
        Kind::Any if g.chance(1, 12) => {
            let (p, m) = crate::c15::pay(g, bggr);
            mosaic = Some(m);
            p
        }
        Kind::Any if g.chance(1, 4) => {
            // Not decoded
            let (w, h) = (g.u32r(16, 60), g.u32r(10, 30));
            let bits = if old { 16 } else { g.pickv(&[12_u32, 14]) };
            let n = g.ur(1, (w * h * bits / 8 - 1) as usize);
            let mut d = g.noise(n);
            d[0] = 0;
            raf_pay(w, h, bits as u16, d.clone(), Body::S8(d), "not decoded")
        }
        _ => raf_plain(g, old),
    };
    let old = old && mosaic.is_none();
    let bps = p.bpc;
    let (w, h) = (p.w, p.h);
    let (mut a, mut b) = both(&p);
    let mut on = |f: &mut dyn FnMut(&mut Desc)| {
        f(&mut a);
        f(&mut b);
    };
    let kind_of = |b: &Body| if matches!(b, Body::S8(_)) { bps } else { 16 };
    let (s_bpc, f_bpc) = (kind_of(&p.skip), if mosaic.is_some() { p.full_bpc } else { kind_of(&p.full) });
    let mut meta: Vec<(u16, Vec<u8>)> = vec![];
    let mut active = None;
    match g.below(8) {
        0 => {
            // The size is that of the image
            meta.push((0x111, wraps::hw(h, w)));
            if g.bool() {
                let (y, x) = (g.u32r(0, 9), g.u32r(0, 9));
                meta.push((0x110, wraps::hw(y, x)));
                active = Some([x, y, w, h]);
            }
        }
        1 => {
            meta.push((0x100, wraps::hw(h, w)));
            let k = g.idx(2);
            meta.push((0x110 + k as u16, wraps::hw(3, 3)));
        }
        _ => {
            meta.push((0x100, wraps::hw(h, w)));
            let r = raws::area(g, w, h);
            meta.push((0x110, wraps::hw(r[1], r[0])));
            meta.push((0x111, wraps::hw(r[3], r[2])));
            active = Some(r);
        }
    }
    on(&mut |d| d.active = active);
    let mut user = active;
    if g.chance(1, 3) {
        let v = g.u32();
        meta.push((0x117, v.to_be_bytes().to_vec()));
        let r = raws::area(g, w, h);
        let miss = g.below(6);
        if miss != 0 {
            meta.push((0x118, wraps::hw(r[1], r[0])));
        }
        if miss != 1 {
            meta.push((0x119, wraps::hw(r[3], r[2])));
        }
        if v & 1 == 1 {
            user = if miss > 1 { Some(r) } else { None };
        }
    }
    if g.chance(2, 3) {
        let (rw, rh) = g.pickv(&[(3_u32, 2_u32), (4, 3), (16, 9), (1, 1), (65, 24), (5, 4)]);
        meta.push((0x115, wraps::hw(rh, rw)));
        let crop = user.map(|r| {
            let (mut cw, mut ch) = (r[2], r[3]);
            if r[2] as u64 * rh as u64 > r[3] as u64 * rw as u64 {
                cw = r[3] * rw / rh;
            } else {
                ch = r[2] * rh / rw;
            }
            [r[0] + (r[2] - cw) / 2, r[1] + (r[3] - ch) / 2, cw, ch]
        });
        on(&mut |d| {
            d.ratio = Some((rw, rh));
            d.crop = crop;
        });
    }
    // Whether the data without a directory is of twelve bits
    let mut info = g.u32();
    if old {
        info = if bps == 12 { info | 0x0008_0000 } else { info & !0x0008_0000 };
    }
    meta.push((0x130, info.to_be_bytes().to_vec()));
    let cfa = match &mosaic {
        Some(Some((m, bytes))) => Some((m.clone(), bytes.clone())),
        Some(None) => None,
        None if g.chance(1, 3) => Some(raws::xtrans(g)),
        None => None,
    };
    if let Some((m, bytes)) = cfa {
        // Stored from the last to the first
        meta.push((0x131, bytes.iter().rev().copied().collect()));
        on(&mut |d| d.cfa = m.clone());
    } else {
        let m = if bggr { CfaPattern::Bggr } else { CfaPattern::Rggb };
        on(&mut |d| d.cfa = m.clone());
    }
    let mut wb = None;
    // What tells that there is no directory
    if old {
        let v: Vec<u16> = (0..4).map(|_| g.u16().max(1)).collect();
        let mut d: Vec<u8> = v.iter().flat_map(|v| v.to_be_bytes()).collect();
        if g.chance(1, 5) {
            let n = g.idx(8);
            d.truncate(n);
        } else {
            let n = g.ur(0, 9);
            d.extend(g.noise(n));
            let x: Vec<f64> = v.iter().map(|v| *v as f64).collect();
            wb = neutral3([x[0] / x[1], 1.0, x[0] / x[3]]);
        }
        meta.push((0x2ff0, d));
    }
    if g.chance(2, 3) {
        let mut v = vec![];
        for _ in 0..g.below(3) {
            v.push(g.u32r(w, 0xffff_ffff));
        }
        if g.chance(4, 5) {
            let (x, y) = (g.u32r(0, w - 1), g.u32());
            v.extend([x, y]);
            on(&mut |d| d.out = (x, y));
            for _ in 0..g.below(3) {
                v.push(g.u32());
            }
        }
        let mut d: Vec<u8> = v.iter().flat_map(|v| v.to_le_bytes()).collect();
        let n = g.ur(0, 3);
        d.extend(g.noise(n));
        if d.len() != 4 {
            meta.push((0xc000, d));
        } else {
            on(&mut |d| d.out = (w, h));
        }
    }
    for i in 0..g.below(3) {
        let n = g.ur(0, 20);
        let d = g.noise(n);
        meta.push((0x9000 + i as u16, d));
    }
    let meta: Vec<_> = g.perm(meta.len()).iter().map(|i| meta[*i].clone()).collect();
    let mut spots_in = vec![];
    let cfa_bytes;
    if old {
        let mut d = vec![0; 64];
        d.extend(g.noise(2048 - 64));
        d.extend_from_slice(&p.chunks[0]);
        cfa_bytes = d;
    } else {
        let mut t = Tiff::new(o);
        let main = t.dir();
        t.first(main);
        let sub = t.dir();
        t.add(main, 0xf000, V::Ptr(vec![sub]));
        let blob = t.blob(p.chunks[0].clone());
        t.add(sub, 0xf001, V::U32(vec![w]));
        t.add(sub, 0xf002, V::U32(vec![h]));
        t.add(sub, 0xf003, V::U32(vec![bps as u32]));
        t.add(sub, 0xf007, V::Ptr(vec![blob]));
        t.add(sub, 0xf008, V::Len(vec![blob]));
        if g.chance(2, 3) {
            let (v, x) = levels(g);
            t.add(sub, 0xf00a, v);
            on(&mut |d| d.blacks = x);
        }
        if g.chance(2, 3) {
            let v: Vec<u32> = (0..3).map(|_| g.u16().max(1) as u32).collect();
            let e = uint(g, &v);
            t.add(sub, 0xf00e, e);
            if wb.is_none() {
                wb = neutral3([v[0] as f64 / v[1] as f64, 1.0, v[0] as f64 / v[2] as f64]);
            }
        }
        t.trail = g.ur(0, 20);
        let b = t.build(g);
        spots_in = b.spots;
        cfa_bytes = b.bytes;
    }
    on(&mut |d| {
        d.neutral = wb.clone();
        d.whites = white_of(bps);
    });
    a.bpc = s_bpc;
    b.bpc = f_bpc;
    let jpeg = wraps::rand_jpeg(g, 16, 16);
    let mut r = wraps::Raf {
        model,
        jpeg,
        meta,
        cfa: cfa_bytes,
        gaps: [g.ur(0, 9), g.ur(0, 9), g.ur(0, 9), g.ur(0, 9)],
        perm: vec![],
        extra: None,
    };
    r.perm = g.perm(3);
    r.second(g);
    let (bytes, at) = r.build();
    let mut spots: Vec<usize> = (84..112).step_by(4).collect();
    spots.extend((at[1]..at[1] + r.meta_bytes().len()).step_by(2));
    spots.extend(spots_in.iter().map(|s| s + at[2]));
    Raw {
        ty: Type::Raf,
        bytes,
        skip: (a, p.skip),
        full: (b, p.full),
        spots,
        style: p.style,
        model: id,
    }
}

pub fn raf_pay(w: u32, h: u32, bpc: u16, data: Vec<u8>, full: Body, style: &'static str) -> Pay {
    let skip = match &full {
        Body::S16(_) => full.clone(),
        _ => Body::S8(data.clone()),
    };
    Pay {
        w,
        h,
        bpc,
        comp: None,
        chunks: vec![data],
        tile: None,
        skip,
        full,
        full_w: w,
        full_h: h,
        full_bpc: bpc,
        compr: [Compression::Unknown; 2],
        style,
    }
}

fn raf_plain(g: &mut G, old: bool) -> Pay {
    let style = if old { g.pickv(&["raf 16", "raf 12"]) } else { g.pickv(&["raf 16", "raf 12in16", "raf 14in16", "raf 14", "raf 12"]) };
    let (mut w, mut h) = raws::size(g);
    // Told apart by the size
    w = w.max(5);
    h = h.max(2);
    let bits = match style {
        "raf 12" | "raf 12in16" => 12,
        "raf 14" | "raf 14in16" => 14,
        _ => 16,
    };
    if style == "raf 14" {
        w = w.max(9);
    }
    let px = gen::image(g, (w * h) as usize, w as usize, bits);
    let data = match style {
        "raf 12" => raws::pack_lsb(&px, w as usize, 12),
        "raf 14" => {
            // Little endian words of the bits from the first
            let mut d = raws::pack_msb(&px, px.len(), 14);
            while d.len() % 4 != 0 {
                d.push(0);
            }
            d.chunks_mut(4).for_each(|c| c.reverse());
            d
        }
        _ => raws::bytes16(&px, Order::Le),
    };
    raf_pay(w, h, bits as u16, data, Body::S16(px), style)
}

pub fn file(g: &mut G, ty: Type, kind: Kind) -> Raw {
    match ty {
        Type::Crw => crw(g, kind),
        Type::Cr2 => cr2(g, kind),
        Type::Cr3 => cr3(g, kind),
        Type::Mrw => mrw(g, kind),
        Type::Raf => raf(g, kind),
        _ => unreachable!("{ty:?}"),
    }
}
