//! C09: lossless JPEG raw data decodes exactly.

use libopenraw::tiff::Compression;
use libopenraw::LJpeg;

use crate::gen::G;
use crate::ljpeg::{self, Opt};
use crate::raws::{Body, Pay};
use crate::run::{self, R};

pub fn opt(g: &mut G, w: usize, h: usize, comps: usize, prec: u8) -> Opt {
    let pt = if g.chance(1, 6) { g.u32r(1, (prec as u32 - 1).min(4)) as u8 } else { 0 };
    Opt {
        w,
        h,
        comps,
        prec,
        psv: g.u32r(1, 7) as u8,
        pt,
        restart: if g.chance(1, 4) { Some(g.ur(1, h.min((65535 / w).max(1)))) } else { None },
    }
}

/// A whole image, or tiles of one.
pub fn dng_pay(g: &mut G) -> Pay {
    let prec = g.pickv(&[8, 10, 12, 14, 16, 9, 11]);
    let comps = g.pickv(&[1, 2, 2, 3, 4]);
    if g.bool() {
        let (w, h) = (g.ur(1, 24), g.ur(1, 12));
        let (w, h) = g.large(500).map(|s| (s.0 as usize, s.1 as usize)).unwrap_or((w, h));
        let o = opt(g, w, h, comps, prec);
        let px = ljpeg::samples(g, w, h, comps, prec, o.pt);
        let e = ljpeg::encode(g, &o, &px);
        return Pay {
            w: (w * comps) as u32,
            h: h as u32,
            bpc: prec as u16,
            comp: Some(7),
            chunks: vec![e.bytes.clone()],
            tile: None,
            skip: Body::S8(e.bytes),
            full: Body::S16(px),
            full_w: (w * comps) as u32,
            full_h: h as u32,
            full_bpc: prec as u16,
            compr: [Compression::LJpeg; 2],
            style: "ljpeg",
        };
    }
    let cols = g.ur(1, 8);
    let (tw, th) = (cols * comps, g.ur(1, 8));
    let (w, h) = (g.ur(1, 3 * tw), g.ur(1, 3 * th));
    let px = crate::gen::image(g, w * h, w, prec as u32);
    let pt_all = 0;
    let mut chunks = vec![];
    for ty in 0..(h + th - 1) / th {
        for tx in 0..(w + tw - 1) / tw {
            let edge = g.below(1 << prec) as u16;
            let mut t = vec![edge; tw * th];
            for y in 0..th {
                for x in 0..tw {
                    let (a, b) = (tx * tw + x, ty * th + y);
                    if a < w && b < h {
                        t[y * tw + x] = px[b * w + a];
                    }
                }
            }
            let mut o = opt(g, cols, th, comps, prec);
            o.pt = pt_all;
            chunks.push(ljpeg::encode(g, &o, &t).bytes);
        }
    }
    Pay {
        w: w as u32,
        h: h as u32,
        bpc: prec as u16,
        comp: Some(7),
        chunks: chunks.clone(),
        tile: Some((tw as u32, th as u32)),
        skip: Body::Tiles((tw as u32, th as u32), chunks),
        full: Body::S16(px),
        full_w: w as u32,
        full_h: h as u32,
        full_bpc: prec as u16,
        compr: [Compression::LJpeg; 2],
        style: "ljpeg tiles",
    }
}

/// Vertical slices, as CR2 has: each holds its columns of all rows, one slice after the other.
pub fn slice(g: &mut G, px: &[u16], total: u32, h: usize) -> (Vec<u32>, Vec<u16>) {
    let n = g.u32r(1, (total - 1).min(4));
    let each = g.u32r(1, (total - 1) / n);
    let last = total - n * each;
    let mut want = px.to_vec();
    let mut at = 0;
    let mut x0 = 0;
    for k in 0..=n {
        let cw = if k == n { last } else { each } as usize;
        for y in 0..h {
            want[y * total as usize + x0..][..cw].copy_from_slice(&px[at..at + cw]);
            at += cw;
        }
        x0 += cw;
    }
    (vec![n, each, last], want)
}

/// A stream, on its own.
fn stream(g: &mut G) -> R {
    let prec = if g.chance(1, 10) { g.u32r(2, 7) as u8 } else { g.u32r(8, 16) as u8 };
    let comps = g.ur(1, 4);
    let (w, h) = match g.below(8) {
        0 => (g.ur(1, 3), g.ur(1, 3)),
        1 => (g.ur(1, 300), 1),
        2 => (1, g.ur(1, 60)),
        3 => (g.ur(60, 140), g.ur(30, 80)),
        _ => (g.ur(1, 40), g.ur(1, 20)),
    };
    let (w, h) = g.large(500).map(|s| (s.0 as usize, s.1 as usize)).unwrap_or((w, h));
    let o = opt(g, w, h, comps, prec);
    let px = ljpeg::samples(g, w, h, comps, prec, o.pt);
    let e = ljpeg::encode(g, &o, &px);
    g.input(&e.bytes);
    if w * h * comps >= 32 && px.iter().any(|v| *v != px[0]) {
        g.nontrivial();
    }
    if e.longest > 8 {
        g.label("codes over 8 bits");
    }
    if e.full {
        g.label("difference of 32768");
    }
    if o.restart.map(|n| n < h).unwrap_or(false) {
        g.label("restarts");
    }
    if o.pt > 0 {
        g.label("point transform");
    }
    g.label(["", "predictor 1", "predictor 2", "predictor 3", "predictor 4", "predictor 5", "predictor 6", "predictor 7"][o.psv as usize]);
    let is_raw = g.bool();
    let tiled = g.chance(1, 3);
    let mut d = LJpeg::new(is_raw);
    let mut want = px.clone();
    let total = (w * comps) as u32;
    let mut sliced = false;
    if is_raw && !tiled && g.bool() && total >= 2 {
        let (s, x) = slice(g, &px, total, h);
        d.set_slices(&s);
        want = x;
        g.label("slices");
        sliced = true;
    }
    let t = match d.decompress_buffer(&e.bytes, tiled, &None) {
        Ok(t) => t,
        Err(e) => return run::fail("refused", format!("{o:?}: {e}")),
    };
    let size = if tiled {
        (w as u32, h as u32)
    } else if is_raw && comps == 4 && !sliced {
        (2 * w as u32, 2 * h as u32)
    } else {
        (total, h as u32)
    };
    ensure_eq!((t.width, t.height), size, "geometry", "{o:?} raw {is_raw} tiled {tiled}");
    ensure_eq!(t.bpc, prec as u16, "precision", "{o:?}");
    ensure_eq!(t.buf.len(), want.len(), "count", "{o:?}");
    if t.buf != want {
        let i = t.buf.iter().zip(&want).position(|(a, b)| a != b).unwrap();
        return run::fail("samples", format!("{o:?} sliced {sliced}: sample {i} is {:#x} not {:#x}", t.buf[i], want[i]));
    }
    Ok(())
}

/// Data that ends too early is an error, or at most a wrong image of the right size.
fn cut(g: &mut G) -> R {
    let prec = g.u32r(8, 16) as u8;
    let comps = g.ur(1, 4);
    let (w, h) = (g.ur(1, 20), g.ur(2, 20));
    let o = opt(g, w, h, comps, prec);
    let px = ljpeg::samples(g, w, h, comps, prec, o.pt);
    let e = ljpeg::encode(g, &o, &px);
    let n = g.idx(e.bytes.len());
    let mut b = e.bytes[..n].to_vec();
    if g.bool() {
        b.extend_from_slice(&[0xff, 0xd9]);
    }
    g.input(&b);
    g.nontrivial();
    let mut d = LJpeg::new(g.bool());
    match d.decompress_buffer(&b, false, &None) {
        Ok(t) => ensure_eq!(t.buf.len(), px.len(), "count", "{o:?}"),
        Err(_) => g.label("refused"),
    }
    Ok(())
}

/// In a DNG file, as a strip or as tiles.
fn dng(g: &mut G) -> R {
    crate::c08::one(g, libopenraw::Type::Dng, crate::raws::Kind::Codec)
}

pub fn check() -> run::Check {
    run::Check {
        id: "C09",
        rule: "the image has at least 32 samples that are not all the same",
        assumptions: &["only sequential single scan streams are generated, as raw files have"],
        subs: vec![
            run::Sub { name: "stream", quick: 450000, thorough: 9000000, run: stream },
            run::Sub { name: "cut", quick: 150000, thorough: 3000000, run: cut },
            run::Sub { name: "dng", quick: 225000, thorough: 4500000, run: dng },
        ],
    }
}
