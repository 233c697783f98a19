//! C13: Panasonic compressed raw data decodes exactly.

use libopenraw::tiff::Compression;
use libopenraw::Type;

use crate::gen::{Rng, G};
use crate::raws::{self, Body, Pay};
use crate::run::{self, R};

/// The bits of a file, as dcraw (pana_bits) reads them.
struct Pana<'a> {
    data: &'a [u8],
    buf: Vec<u8>,
    at: usize,
    vbits: u32,
}

impl Pana<'_> {
    fn bits(&mut self, n: u32) -> u32 {
        const FLAGS: usize = 0x2008;
        if self.vbits == 0 {
            let d = &self.data[self.at..self.at + 0x4000];
            self.buf[FLAGS..0x4000].copy_from_slice(&d[..0x4000 - FLAGS]);
            self.buf[..FLAGS].copy_from_slice(&d[0x4000 - FLAGS..]);
            self.at += 0x4000;
        }
        self.vbits = self.vbits.wrapping_sub(n) & 0x1ffff;
        let byte = ((self.vbits >> 3) ^ 0x3ff0) as usize;
        let v = self.buf[byte] as u32 | (self.buf.get(byte + 1).copied().unwrap_or(0) as u32) << 8;
        (v >> (self.vbits & 7)) & !(!0 << n)
    }
}

/// After panasonic_load_raw in dcraw
fn decode(data: &[u8], n: usize) -> Vec<u16> {
    let mut p = Pana {
        data,
        buf: vec![0; 0x4000],
        at: 0,
        vbits: 0,
    };
    let mut pred = [0_i32; 2];
    let mut nonz = [0_u32; 2];
    let mut sh = 0;
    let mut out = vec![];
    for k in 0..n {
        let i = k % 14;
        if i == 0 {
            pred = [0; 2];
            nonz = [0; 2];
        }
        if i % 3 == 2 {
            sh = 4 >> (3 - p.bits(2));
        }
        let c = i & 1;
        if nonz[c] != 0 {
            let j = p.bits(8) as i32;
            if j != 0 {
                pred[c] -= 0x80 << sh;
                if pred[c] < 0 || sh == 4 {
                    pred[c] &= !(!0 << sh);
                }
                pred[c] += j << sh;
            }
        } else {
            nonz[c] = p.bits(8);
            if nonz[c] != 0 || i > 11 {
                pred[c] = (nonz[c] << 4 | p.bits(4)) as i32;
            }
        }
        out.push(pred[c] as u16);
    }
    out
}

/// Blocks of groups of 16 bytes, some with many zeros.
fn blocks(g: &mut G, n: usize) -> Vec<u8> {
    let mut r = g.sub();
    let mut d = vec![0; n * 0x4000];
    let style = g.below(4);
    for grp in d.chunks_mut(16) {
        fill(&mut r, grp, style);
    }
    // Single bytes
    for _ in 0..g.below(4) {
        let i = g.idx(d.len());
        d[i] = g.u8();
    }
    d
}

fn fill(r: &mut Rng, grp: &mut [u8], style: u64) {
    let zeros = match style {
        0 => 0,
        1 => r.below(17),
        2 => 8 + r.below(8),
        _ => [0, 0, 3, 10][r.below(4) as usize],
    };
    for (i, b) in grp.iter_mut().enumerate() {
        *b = r.next() as u8;
        // The first bits are in the last bytes
        if 15 - i < zeros as usize && r.below(5) != 0 {
            *b = 0;
        }
    }
}

pub fn pay(g: &mut G) -> Pay {
    let n = g.ur(1, 3);
    let d = blocks(g, n);
    let total = n * 0x4000 / 16 * 14;
    let w = 14 * g.ur(1, 40);
    let h = if g.bool() { total / w } else { g.ur(1, total / w) };
    let px = decode(&d, w * h);
    let mut p = raws::coded(w as u32, h as u32, 12, 34316, d, vec![], "panasonic");
    p.full = Body::First(px);
    p.compr = [Compression::PanasonicRaw1, Compression::None];
    p
}

fn files(g: &mut G) -> R {
    crate::c08::one(g, Type::Rw2, raws::Kind::Codec)
}

pub fn check() -> run::Check {
    run::Check {
        id: "C13",
        rule: "the image has at least 16 samples that are not all the same",
        assumptions: &[
            "widths are multiples of 14, as all those of the cameras",
            "the samples of the last block past the image may be in the data",
        ],
        subs: vec![run::Sub { name: "files", quick: 100000, thorough: 3000000, run: files }],
    }
}
