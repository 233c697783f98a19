//! C11: Pentax compressed raw data decodes exactly.

use libopenraw::tiff::Compression;
use libopenraw::Type;

use crate::gen::{self, G};
use crate::ljpeg::{self, Bits, Code};
use crate::raws::{self, Body, Pay};
use crate::run::{self, R};
use crate::tiffw::Order;

/// The code of cameras that don't store theirs
fn builtin() -> Code {
    let counts = [0, 2, 3, 1, 1, 1, 1, 1, 1, 2];
    let syms = [3, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12];
    let lens: Vec<u8> = counts.iter().enumerate().flat_map(|(i, n)| vec![i as u8 + 1; *n]).collect();
    ljpeg::from_lengths(&lens, &syms)
}

/// The table of the maker note.
fn table(c: &Code, depth: usize, o: Order, g: &mut G) -> Vec<u8> {
    let mut t = vec![];
    t.extend_from_slice(&o.u16(((depth + 4) & 15) as u16));
    t.extend(g.noise(12));
    for s in 0..depth {
        let (v, n) = c.of[s];
        t.extend_from_slice(&o.u16(v << (12 - n)));
    }
    for s in 0..depth {
        t.push(c.of[s].1);
    }
    if g.bool() {
        let n = g.ur(1, 12);
        t.extend(g.noise(n));
    }
    t
}

pub fn encode(px: &[u16], w: usize, c: &Code) -> (Vec<u8>, u8) {
    let mut b = Bits::default();
    let mut up = [[0_i32; 2]; 2];
    let mut longest = 0;
    for (y, row) in px.chunks(w).enumerate() {
        let mut left = [0; 2];
        for (x, v) in row.iter().enumerate() {
            let p = if x < 2 { up[y & 1][x] } else { left[x & 1] };
            let d = *v as i32 - p;
            let n = ljpeg::category(d);
            c.put(&mut b, n);
            b.put(ljpeg::extra(d, n), n as u32);
            longest = longest.max(n + c.of[n as usize].1);
            if x < 2 {
                up[y & 1][x] = *v as i32;
            }
            left[x & 1] = *v as i32;
        }
    }
    (b.end(false), longest)
}

pub fn pay(g: &mut G, o: Order) -> (Pay, Option<Vec<u8>>) {
    let w = 2 * match g.below(4) {
        0 => g.u32r(1, 3),
        1 => g.u32r(20, 150),
        _ => g.u32r(1, 30),
    };
    let h = g.u32r(1, 20);
    let (w, h) = g.large(500).map(|s| ((s.0 + 1) & !1, s.1)).unwrap_or((w, h));
    let own = g.chance(2, 3);
    let bpc = if own { g.pickv(&[12, 14, 12, 10]) } else { 12_u16 };
    let px = gen::image(g, (w * h) as usize, w as usize, bpc as u32);
    let (code, depth) = if own {
        // Enough symbols for the differences of such an image
        let depth = g.ur(bpc as usize + 1, 15);
        let syms: Vec<u8> = (0..depth as u8).collect();
        let mut r = g.sub();
        (ljpeg::code(&mut r, &syms, 12), depth)
    } else {
        (builtin(), 13)
    };
    let (mut d, longest) = encode(&px, w as usize, &code);
    if longest > 13 {
        g.label("long codes");
    }
    match g.below(3) {
        0 => {
            let n = g.ur(1, 20);
            d.extend(g.noise(n));
        }
        1 => {
            // As whole words
            while d.len() % 4 != 0 {
                d.push(0);
            }
        }
        _ => {}
    }
    let table = if own { Some(table(&code, depth, o, g)) } else { None };
    let mut p = raws::coded(w, h, bpc, 65535, d, px, if own { "pentax own code" } else { "pentax" });
    p.skip = Body::S8(p.chunks[0].clone());
    p.compr = [Compression::Custom, Compression::None];
    (p, table)
}

fn files(g: &mut G) -> R {
    crate::c08::one(g, Type::Pef, raws::Kind::Codec)
}

pub fn check() -> run::Check {
    run::Check {
        id: "C11",
        rule: "the image has at least 16 samples that are not all the same",
        assumptions: &["widths are even, as the code works on pairs of columns"],
        subs: vec![run::Sub { name: "files", quick: 600000, thorough: 12000000, run: files }],
    }
}
