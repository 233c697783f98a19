//! C12: Nikon compressed raw data decodes exactly.

use libopenraw::tiff::Compression;
use libopenraw::Type;

use crate::gen::{self, G};
use crate::ljpeg::{self, Bits, Code};
use crate::raws::{self, Pay};
use crate::run::{self, R};
use crate::tiffw::Order;

/// Codes, as dcraw lists them: how many of each length, then symbols.
const LOSSY12: (&[u8], &[u8]) = (&[0, 1, 5, 1, 1, 1, 1, 1, 1, 2], &[5, 4, 3, 6, 2, 7, 1, 0, 8, 9, 11, 10, 12]);
const LOSSY14: (&[u8], &[u8]) = (&[0, 1, 4, 3, 1, 1, 1, 1, 1, 2], &[5, 6, 4, 7, 8, 3, 9, 2, 1, 0, 10, 11, 12, 13, 14]);
const LOSSLESS14: (&[u8], &[u8]) = (&[0, 1, 4, 2, 2, 3, 1, 2], &[7, 6, 8, 5, 9, 4, 10, 3, 11, 12, 2, 0, 1, 13, 14]);

fn code(t: (&[u8], &[u8])) -> Code {
    let lens: Vec<u8> = t.0.iter().enumerate().flat_map(|(i, n)| vec![i as u8 + 1; *n as usize]).collect();
    ljpeg::from_lengths(&lens, t.1)
}

fn encode(px: &[u16], w: usize, c: &Code, mut vpred: [[i32; 2]; 2]) -> Vec<u8> {
    let mut b = Bits::default();
    for (y, row) in px.chunks(w).enumerate() {
        let mut h = [0_i32; 2];
        for (x, v) in row.iter().enumerate() {
            let p = if x < 2 { vpred[y & 1][x] } else { h[x & 1] };
            let d = *v as i32 - p;
            let n = ljpeg::category(d);
            c.put(&mut b, n);
            b.put(ljpeg::extra(d, n), n as u32);
            if x < 2 {
                vpred[y & 1][x] = *v as i32;
            }
            h[x & 1] = *v as i32;
        }
    }
    b.end(false)
}

/// The payload, the table of the maker note, and the first level of the curve.
pub fn pay(g: &mut G, o: Order) -> (Pay, Vec<u8>, u16) {
    let w = match g.below(4) {
        0 => g.u32r(2, 5),
        1 => g.u32r(40, 300),
        _ => g.u32r(2, 60),
    };
    let h = g.u32r(1, 20);
    let (w, h) = g.large(500).map(|s| (s.0.max(2), s.1)).unwrap_or((w, h));
    let (kind, bpc) = g.pickv(&[(0x44_u8, 12_u16), (0x44, 14), (0x46, 14), (0x49, 12), (0x49, 14)]);
    let max = 1_u32 << bpc;
    let mut t = vec![kind];
    let mut curve: Vec<u16> = (0..0x4000).collect();
    let mut used = max;
    let vpred = [[g.below(max as u64) as i32, g.below(max as u64) as i32], [g.below(max as u64) as i32, g.below(max as u64) as i32]];
    let computed = kind == 0x44 && g.bool();
    t.push(if computed { 0x20 } else { g.pickv(&[0x10, 0x30, 0]) });
    if kind == 0x49 {
        t.extend(g.noise(2110));
    }
    for v in vpred.concat() {
        t.extend_from_slice(&o.u16(v as u16));
    }
    let mut r = g.sub();
    let style = if kind == 0x46 {
        let n = g.u16();
        t.extend_from_slice(&o.u16(n));
        "nikon lossless"
    } else if computed {
        // Knots, evenly spaced
        let step = 1_u32 << g.u32r(if bpc == 12 { 0 } else { 2 }, 10);
        let knots = max / step;
        let mut k: Vec<u16> = (0..=knots).map(|_| r.below(max as u64) as u16).collect();
        if g.bool() {
            k.sort_unstable();
        }
        t.extend_from_slice(&o.u16(k.len() as u16));
        k.iter().for_each(|v| t.extend_from_slice(&o.u16(*v)));
        for i in 0..max {
            let (a, f) = ((i / step) as usize, i % step);
            let b = if f == 0 { 0 } else { k[a + 1] as u32 * f };
            curve[i as usize] = ((k[a] as u32 * (step - f) + b) / step) as u16;
        }
        "nikon knots"
    } else {
        // Every value: those after the last are as the last
        let n = g.u32r(1, max);
        let n = if g.bool() { n.min(900) } else { n };
        let c: Vec<u16> = (0..n).map(|_| r.below(max as u64) as u16).collect();
        t.extend_from_slice(&o.u16(n as u16));
        c.iter().for_each(|v| t.extend_from_slice(&o.u16(*v)));
        for i in 0..0x4000 {
            curve[i] = c[i.min(n as usize - 1)];
        }
        used = n;
        "nikon table"
    };
    let n = g.ur(0, 9);
    t.extend(g.noise(n));
    let mut px = gen::image(g, (w * h) as usize, w as usize, bpc as u32);
    if g.bool() {
        px.iter_mut().for_each(|v| *v = (*v as u32 % used) as u16);
    }
    let c = code(match (kind, bpc) {
        (0x46, _) => LOSSLESS14,
        (_, 12) => LOSSY12,
        _ => LOSSY14,
    });
    let d = encode(&px, w as usize, &c, vpred);
    let full: Vec<u16> = px.chunks(w as usize).flat_map(|r| r[..w as usize - 1].iter().map(|v| curve[*v as usize])).collect();
    let mut p = raws::coded(w, h, bpc, 34713, d, full, style);
    // The last column is not part of the image.
    p.full_w = w - 1;
    p.compr = [Compression::NikonQuantized; 2];
    (p, t, curve[0])
}

fn files(g: &mut G) -> R {
    crate::c08::one(g, Type::Nef, raws::Kind::Codec)
}

pub fn check() -> run::Check {
    run::Check {
        id: "C12",
        rule: "the image has at least 16 samples that are not all the same",
        assumptions: &["no file changes code midway (the split of some lossy files), which is not implemented"],
        subs: vec![run::Sub { name: "files", quick: 450000, thorough: 9000000, run: files }],
    }
}
