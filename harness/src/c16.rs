//! C16: the raw image is described as the file describes it.
//! C22: skipping decompression returns the stored payload.

use libopenraw::{Bitmap, DataType};

use crate::c08;
use crate::gen::G;
use crate::raws::{self, Body, Kind};
use crate::run::{self, R};

fn described(g: &mut G) -> R {
    let ty = g.pickv(&raws::HOSTS);
    let r = raws::file(g, ty, Kind::Any);
    g.input(&r.bytes);
    g.label(r.style);
    g.label(crate::api::name_of(ty));
    let d = &r.full.0;
    let set = [
        d.active.map(|a| a != [0, 0, d.w, d.h]).unwrap_or(false),
        d.crop.is_some(),
        d.ratio.is_some(),
        d.neutral.is_some() || d.xy.is_some(),
        d.blacks != [0; 4],
        d.whites != raws::white_of(d.bpc),
        d.cfa != Default::default(),
    ];
    if set.iter().filter(|s| **s).count() >= 2 {
        g.nontrivial();
    }
    let h = c08::open(g, ty, &r.bytes)?;
    let mut order = [false, true];
    if g.bool() {
        order.reverse();
    }
    for skip in order {
        let i = c08::get(&h, &r, skip)?;
        let (d, _) = if skip { &r.skip } else { &r.full };
        raws::compare_desc(&i, d, &format!("{ty:?} {} skip {skip}", r.style))?;
    }
    Ok(())
}

pub fn c16() -> run::Check {
    run::Check {
        id: "C16",
        rule: "at least two of active area, crop, ratio, white balance, levels and pattern are not what they would be without the file saying so",
        assumptions: &["the built-in levels of each camera are those of the tables when the checks were written (harness/data/cams.txt)"],
        subs: vec![run::Sub { name: "described", quick: 750000, thorough: 15000000, run: described }],
    }
}

fn payload(g: &mut G) -> R {
    let ty = g.pickv(&raws::HOSTS);
    let r = raws::file(g, ty, Kind::Any);
    g.input(&r.bytes);
    g.label(r.style);
    g.label(crate::api::name_of(ty));
    let h = c08::open(g, ty, &r.bytes)?;
    let mut order = [false, true];
    if g.bool() {
        order.reverse();
    }
    for skip in order {
        let i = c08::get(&h, &r, skip)?;
        let (d, b) = if skip { &r.skip } else { &r.full };
        let what = format!("{ty:?} {} skip {skip}", r.style);
        let kind = match b {
            Body::S16(_) | Body::First(_) => DataType::Raw,
            _ => DataType::CompressedRaw,
        };
        if skip && kind == DataType::CompressedRaw {
            g.nontrivial();
        }
        ensure_eq!(i.data_type() as u32, kind as u32, "data-type", "{what}");
        if kind == DataType::CompressedRaw {
            ensure_eq!(format!("{:?}", i.compression()), format!("{:?}", d.compr), "compression", "{what}");
        }
        ensure_eq!((i.width(), i.height()), (d.w, d.h), "dimensions", "{what}");
        raws::compare_body(&i, b, &what)?;
    }
    Ok(())
}

pub fn c22() -> run::Check {
    run::Check {
        id: "C22",
        rule: "the data is compressed, and asked for as it is",
        assumptions: &[],
        subs: vec![run::Sub { name: "payload", quick: 600000, thorough: 12000000, run: payload }],
    }
}
