//! C10: Olympus compressed raw data decodes exactly.

use libopenraw::{decompress_olympus, Type};

use crate::gen::{self, G};
use crate::ljpeg::Bits;
use crate::raws::{self, Pay};
use crate::run::{self, R};

/// An encoder, after the description in dcraw (olympus_load_raw).
pub fn encode(px: &[u16], w: usize, h: usize, escapes: &mut usize) -> Vec<u8> {
    let mut b = Bits::default();
    let at = |y: usize, x: usize| px[y * w + x] as i32;
    for y in 0..h {
        let mut carry = [[0_i32; 3]; 2];
        for x in 0..w {
            let c = &mut carry[x & 1];
            let i = if c[2] < 3 { 2 } else { 0 };
            let mut n = 2 + i;
            while n + i < 16 && (c[0] >> (n + i)) != 0 {
                n += 1;
            }
            let pred = if y < 2 && x < 2 {
                0
            } else if y < 2 {
                at(y, x - 2)
            } else if x < 2 {
                at(y - 2, x)
            } else {
                let (w, n, nw) = (at(y, x - 2), at(y - 2, x), at(y - 2, x - 2));
                if (w < nw && nw < n) || (n < nw && nw < w) {
                    if (w - nw).abs() > 32 || (n - nw).abs() > 32 {
                        w + n - nw
                    } else {
                        (w + n) >> 1
                    }
                } else if (w - nw).abs() > (n - nw).abs() {
                    w
                } else {
                    n
                }
            };
            let delta = at(y, x) - pred;
            let low = delta & 3;
            let diff = delta >> 2;
            let v = diff - c[1];
            let (sign, m) = if v < 0 { (1, !v) } else { (0, v) };
            b.put(sign, 1);
            b.put(low as u32, 2);
            let high = m >> n;
            if high < 12 {
                b.put(1, high as u32 + 1);
            } else {
                b.put(0, 12);
                b.put((high as u32) << 1, 16 - n);
                *escapes += 1;
            }
            b.put(m as u32 & ((1 << n) - 1), n);
            c[0] = m;
            c[1] = (diff * 3 + c[1]) >> 5;
            c[2] = if m > 16 { 0 } else { c[2] + 1 };
        }
    }
    b.end(false)
}

fn size(g: &mut G) -> (u32, u32) {
    if let Some(s) = g.large(500) {
        return s;
    }
    match g.below(5) {
        0 => (g.u32r(1, 8), g.u32r(1, 8)),
        1 => (g.u32r(100, 600), g.u32r(1, 6)),
        _ => (g.u32r(2, 60), g.u32r(1, 30)),
    }
}

pub fn pay(g: &mut G) -> Pay {
    let mut tries = 0;
    loop {
        tries += 1;
        let (w, h) = size(g);
        let px = gen::image(g, (w * h) as usize, w as usize, 12);
        let mut d = g.noise(7);
        let mut esc = 0;
        d.extend(encode(&px, w as usize, h as usize, &mut esc));
        // More data than needed does no harm
        if g.bool() {
            let n = g.ur(1, 40);
            d.extend(g.noise(n));
        }
        let (n, w64, h64) = (d.len() as u64, w as u64, h as u64);
        // Sizes with another meaning
        if n >= 2 * w64 * h64 || n == h64 * (w64 * 12 / 8 + (w64 + 2) / 10) || n == w64 * h64 * 12 / 8 || d.len() < 8 {
            if tries > 6 {
                // Something that works
                let px: Vec<u16> = vec![5; 64 * 16];
                let mut d = vec![0; 7];
                d.extend(encode(&px, 64, 16, &mut esc));
                return raws::orf_pay(64, 16, Some(1), d, px, "olympus");
            }
            continue;
        }
        if esc > 0 {
            g.label("escaped differences");
        }
        return raws::orf_pay(w, h, Some(1), d, px, "olympus");
    }
}

fn buffer(g: &mut G) -> R {
    let (w, h) = size(g);
    let px = gen::image(g, (w * h) as usize, w as usize, 12);
    let mut d = g.noise(7);
    let mut esc = 0;
    d.extend(encode(&px, w as usize, h as usize, &mut esc));
    if esc > 0 {
        g.label("escaped differences");
    }
    if d.len() < 8 || g.chance(1, 3) {
        let n = g.ur(1, 20);
        d.extend(g.noise(n));
    }
    g.input(&d);
    if w * h >= 16 && px.iter().any(|v| *v != px[0]) {
        g.nontrivial();
    }
    if w & 1 == 1 {
        g.label("odd width");
    }
    match decompress_olympus(&d, w as usize, h as usize) {
        Ok(v) => {
            ensure_eq!(v.len(), px.len(), "count");
            if let Some(i) = (0..v.len()).find(|i| v[*i] != px[*i]) {
                return run::fail("samples", format!("{w}x{h}: sample {i} is {:#x} not {:#x}", v[i], px[i]));
            }
            Ok(())
        }
        Err(e) => run::fail("refused", format!("{w}x{h}: {e}")),
    }
}

fn files(g: &mut G) -> R {
    crate::c08::one(g, Type::Orf, raws::Kind::Codec)
}

/// Uncompressed, packed, padded, interlaced: as their size says.
fn sizes(g: &mut G) -> R {
    crate::c08::one(g, Type::Orf, raws::Kind::Plain)
}

/// Data that ends too early is refused.
fn cut(g: &mut G) -> R {
    let (w, h) = size(g);
    let px = gen::image(g, (w * h) as usize, w as usize, 12);
    let mut d = g.noise(7);
    let mut esc = 0;
    d.extend(encode(&px, w as usize, h as usize, &mut esc));
    let n = d.len() - g.ur(1, d.len());
    d.truncate(n);
    g.input(&d);
    g.nontrivial();
    if let Ok(v) = decompress_olympus(&d, w as usize, h as usize) {
        // Only if what is missing could be told from what is there
        return run::fail("made up", format!("{w}x{h}: {} samples of {n} bytes", v.len()));
    }
    Ok(())
}

pub fn check() -> run::Check {
    run::Check {
        id: "C10",
        rule: "the image has at least 16 samples that are not all the same",
        assumptions: &[],
        subs: vec![
            run::Sub { name: "buffer", quick: 600000, thorough: 12000000, run: buffer },
            run::Sub { name: "cut", quick: 75000, thorough: 1500000, run: cut },
            run::Sub { name: "files", quick: 225000, thorough: 4500000, run: files },
            run::Sub { name: "sizes", quick: 225000, thorough: 4500000, run: sizes },
        ],
    }
}
