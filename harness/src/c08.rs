//! C08: uncompressed sensor data keeps every sample.

use libopenraw::{Bitmap, DataType, RawFileHandle, RawImage, Type};

use crate::api::{self, Via};
use crate::gen::G;
use crate::raws::{self, Body, Kind, Raw};
use crate::run::{self, fail, Fail, R};

pub fn open(g: &mut G, ty: Type, bytes: &[u8]) -> Result<RawFileHandle, Fail> {
    let via = if g.chance(1, 40) { Via::File } else { Via::Memory };
    api::open(bytes, Some(ty), via).map_err(|e| Fail {
        sig: "open".into(),
        msg: format!("{ty:?}: {e:?}"),
    })
}

pub fn get(h: &RawFileHandle, r: &Raw, skip: bool) -> Result<RawImage, Fail> {
    h.raw_data(skip).map_err(|e| Fail {
        sig: "refused".into(),
        msg: format!("{:?} {} skip {skip}: {e}", r.ty, r.style),
    })
}

pub fn mark(g: &mut G, r: &Raw) {
    g.input(&r.bytes);
    let px = match &r.full.1 {
        Body::S16(x) | Body::First(x) => x,
        _ => return g.label("not decoded"),
    };
    if px.len() >= 16 && px.iter().any(|v| *v != px[0]) {
        g.nontrivial();
    }
    g.label(r.style);
    g.label(api::name_of(r.ty));
}

/// The samples of one file.
pub fn one(g: &mut G, ty: Type, kind: Kind) -> R {
    let r = raws::file(g, ty, kind);
    mark(g, &r);
    let h = open(g, ty, &r.bytes)?;
    let mut order = vec![false];
    if kind == Kind::Plain && !matches!(r.skip.1, Body::S8(_)) {
        order.push(true);
        if g.bool() {
            order.reverse();
        }
    }
    for skip in order {
        let i = get(&h, &r, skip)?;
        let (d, b) = if skip { &r.skip } else { &r.full };
        let what = format!("{ty:?} {} skip {skip}", r.style);
        ensure_eq!((i.width(), i.height()), (d.w, d.h), "dimensions", "{what}");
        ensure_eq!(i.data_type() as u32, DataType::Raw as u32, "data-type", "{what}");
        raws::compare_body(&i, b, &what)?;
    }
    Ok(())
}

fn files(g: &mut G) -> R {
    let ty = g.pickv(&raws::PLAIN);
    one(g, ty, Kind::Plain)
}

/// The data is cut: an error, or what there is.
fn cut(g: &mut G) -> R {
    let ty = g.pickv(&raws::CUTS);
    let r = raws::cut(g, ty);
    mark(g, &r);
    g.nontrivial();
    let h = match api::open(&r.bytes, Some(ty), Via::Memory) {
        Ok(h) => h,
        Err(_) => return Ok(()),
    };
    let want = match &r.full.1 {
        Body::S16(x) | Body::First(x) => x,
        _ => return Ok(()),
    };
    for skip in [false, true] {
        let i = match h.raw_data(skip) {
            Ok(i) => i,
            Err(_) => {
                g.label("refused");
                continue;
            }
        };
        let d = match i.data16() {
            Some(d) => d,
            None => continue,
        };
        ensure!(d.len() <= want.len(), "invented", "{ty:?} {}: {} samples of {}", r.style, d.len(), want.len());
        if let Some(k) = (0..d.len()).find(|k| d[*k] != want[*k]) {
            return fail("invented", format!("{ty:?} {}: sample {k} of {} is {:#x} not {:#x}", r.style, d.len(), d[k], want[k]));
        }
        g.label("short image");
    }
    Ok(())
}

/// The rows of the D100 have six more samples than its width.
fn d100(g: &mut G) -> R {
    let (w, h) = (34 + 10 * g.u32r(0, 6), g.u32r(2, 12));
    let (bytes, px) = raws::d100(g, w, h);
    g.input(&bytes);
    g.nontrivial();
    let i = match open(g, Type::Nef, &bytes)?.raw_data(false) {
        Ok(i) => i,
        Err(e) => return fail("refused", format!("D100: {e}")),
    };
    let d = i.data16().unwrap_or(&[]);
    let iw = i.width() as usize;
    ensure!(i.height() == h && (iw == w as usize || iw == w as usize + 6), "dimensions", "D100 {w}x{h}: {iw}x{}", i.height());
    if d == px && iw == w as usize {
        return fail("d100-stride", format!("{w}x{h}: {} samples are returned", d.len()));
    }
    let want: Vec<u16> = px.chunks(w as usize + 6).flat_map(|r| r[..iw].to_vec()).collect();
    ensure_eq!(d, &want[..], "samples", "D100 {w}x{h}");
    Ok(())
}

pub fn check() -> run::Check {
    run::Check {
        id: "C08",
        rule: "the image has at least 16 samples that are not all the same, or its data is cut",
        assumptions: &[],
        subs: vec![
            run::Sub { name: "files", quick: 750000, thorough: 15000000, run: files },
            run::Sub { name: "cut", quick: 150000, thorough: 3000000, run: cut },
            run::Sub { name: "d100", quick: 500, thorough: 5000, run: d100 },
        ],
    }
}
