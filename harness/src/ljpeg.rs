//! A lossless JPEG encoder, after ITU T.81 annex H.

use crate::gen::{Rng, G};

/// Bits, the most significant first.
#[derive(Default, Clone)]
pub struct Bits {
    pub out: Vec<u8>,
    acc: u64,
    n: u32,
}

impl Bits {
    pub fn put(&mut self, v: u32, n: u32) {
        if n == 0 {
            return;
        }
        self.acc = (self.acc << n) | (v as u64 & ((1_u64 << n) - 1));
        self.n += n;
        while self.n >= 8 {
            self.out.push((self.acc >> (self.n - 8)) as u8);
            self.n -= 8;
        }
        self.acc &= (1 << self.n) - 1;
    }
    /// Completes the last byte with that bit.
    pub fn end(mut self, one: bool) -> Vec<u8> {
        if self.n > 0 {
            let k = 8 - self.n;
            self.put(if one { (1 << k) - 1 } else { 0 }, k);
        }
        self.out
    }
}

/// A canonical prefix code of symbols.
#[derive(Clone, Debug)]
pub struct Code {
    /// How many codes there are of each length, from 1
    pub counts: [u8; 16],
    /// Symbols by code
    pub symbols: Vec<u8>,
    /// (code, length) by symbol
    pub of: Vec<(u16, u8)>,
}

/// A code for these symbols in which no code is all ones, of at most `max` bits.
pub fn code(r: &mut Rng, symbols: &[u8], max: u8) -> Code {
    let spare = 1 + if r.below(3) == 0 { r.below(3) as usize } else { 0 };
    let mut lens = vec![0_u8];
    let deep = r.below(3);
    while lens.len() < symbols.len() + spare {
        // Mostly somewhere, or mostly the deepest
        let mut i = r.below(lens.len() as u64) as usize;
        if deep == 0 && r.below(4) != 0 {
            let m = *lens.iter().filter(|l| **l < max).max().unwrap();
            i = lens.iter().position(|l| *l == m).unwrap();
        } else if deep == 1 {
            let m = *lens.iter().min().unwrap();
            i = lens.iter().position(|l| *l == m).unwrap();
        }
        if lens[i] >= max {
            continue;
        }
        lens[i] += 1;
        let l = lens[i];
        lens.push(l);
    }
    lens.sort_unstable();
    lens.truncate(symbols.len());
    if lens.len() == 1 && lens[0] == 0 {
        lens[0] = 1;
    }
    let mut syms = symbols.to_vec();
    for i in 0..syms.len() {
        let j = i + r.below((syms.len() - i) as u64) as usize;
        syms.swap(i, j);
    }
    from_lengths(&lens, &syms)
}

pub fn from_lengths(lens: &[u8], syms: &[u8]) -> Code {
    let mut counts = [0; 16];
    let mut of = vec![(0, 0); 256];
    let mut c = 0_u32;
    let mut l = lens.first().copied().unwrap_or(1);
    for (n, s) in lens.iter().zip(syms) {
        c <<= n - l;
        l = *n;
        counts[l as usize - 1] += 1;
        of[*s as usize] = (c as u16, l);
        c += 1;
    }
    Code {
        counts,
        symbols: syms.to_vec(),
        of,
    }
}

impl Code {
    pub fn put(&self, b: &mut Bits, s: u8) {
        let (c, l) = self.of[s as usize];
        assert!(l > 0, "no code for {s}");
        b.put(c as u32, l as u32);
    }
}

/// The number of bits of the magnitude of a difference
pub fn category(d: i32) -> u8 {
    (32 - d.unsigned_abs().leading_zeros()) as u8
}

/// What follows the category
pub fn extra(d: i32, n: u8) -> u32 {
    if d < 0 {
        (d - 1) as u32 & ((1_u32 << n) - 1)
    } else {
        d as u32
    }
}

#[derive(Clone, Debug)]
pub struct Opt {
    /// Columns and rows of the JPEG
    pub w: usize,
    pub h: usize,
    pub comps: usize,
    pub prec: u8,
    /// Predictor, 1 to 7
    pub psv: u8,
    /// Point transform
    pub pt: u8,
    /// Rows between restarts, if any
    pub restart: Option<usize>,
}

pub struct Out {
    pub bytes: Vec<u8>,
    /// Longest code used
    pub longest: u8,
    pub full: bool,
}

/// Samples are interleaved: all components of a column, then the next column.
pub fn encode(g: &mut G, o: &Opt, px: &[u16]) -> Out {
    assert_eq!(px.len(), o.w * o.h * o.comps);
    let row = o.w * o.comps;
    let v: Vec<i32> = px.iter().map(|v| (*v >> o.pt) as i32).collect();
    let start = 1_i32 << (o.prec - o.pt - 1);
    // Differences modulo 2^16
    let mut diffs = vec![0_i32; v.len()];
    for y in 0..o.h {
        let first = y == 0 || o.restart.map(|n| y % n == 0).unwrap_or(false);
        for x in 0..o.w {
            for c in 0..o.comps {
                let i = y * row + x * o.comps + c;
                let p = if first {
                    if x == 0 {
                        start
                    } else {
                        v[i - o.comps]
                    }
                } else if x == 0 {
                    v[i - row]
                } else {
                    let (a, b, d) = (v[i - o.comps], v[i - row], v[i - row - o.comps]);
                    match o.psv {
                        1 => a,
                        2 => b,
                        3 => d,
                        4 => a + b - d,
                        5 => a + ((b - d) >> 1),
                        6 => b + ((a - d) >> 1),
                        7 => (a + b) >> 1,
                        _ => unreachable!(),
                    }
                };
                let d = (v[i] - p) as i16 as i32;
                // Of the two forms of that one the positive one is coded
                diffs[i] = if d == -32768 { 32768 } else { d };
            }
        }
    }
    let mut r = g.sub();
    // Tables: one for all, or several
    let tables = if o.comps > 1 && g.bool() { g.ur(1, o.comps.min(4)) } else { 1 };
    let ids: Vec<u8> = {
        let p = g.perm(4);
        p[..tables].iter().map(|v| *v as u8).collect()
    };
    let of_comp: Vec<usize> = (0..o.comps).map(|c| c % tables).collect();
    let mut used = vec![[false; 17]; tables];
    for (i, d) in diffs.iter().enumerate() {
        used[of_comp[i % o.comps]][category(*d) as usize] = true;
    }
    let mut codes = vec![];
    let all = g.chance(1, 3);
    for u in &used {
        let syms: Vec<u8> = (0..=16_u8).filter(|s| u[*s as usize] || (all && *s <= o.prec)).collect();
        codes.push(code(&mut r, &syms, 16));
    }
    let mut b = vec![0xff, 0xd8];
    let seg = |b: &mut Vec<u8>, m: u8, d: &[u8], fill: usize| {
        b.extend(std::iter::repeat(0xff).take(1 + fill));
        b.push(m);
        b.extend_from_slice(&((d.len() + 2) as u16).to_be_bytes());
        b.extend_from_slice(d);
    };
    let comp_ids: Vec<u8> = match g.below(3) {
        0 => (0..o.comps as u8).collect(),
        1 => (1..=o.comps as u8).collect(),
        _ => (0..o.comps as u8).map(|c| 200 - 7 * c).collect(),
    };
    let mut sof = vec![o.prec];
    sof.extend_from_slice(&(o.h as u16).to_be_bytes());
    sof.extend_from_slice(&(o.w as u16).to_be_bytes());
    sof.push(o.comps as u8);
    for c in &comp_ids {
        sof.extend_from_slice(&[*c, 0x11, 0]);
    }
    let mut before: Vec<(u8, Vec<u8>)> = vec![];
    let dht: Vec<Vec<u8>> = codes
        .iter()
        .zip(&ids)
        .map(|(c, id)| {
            let mut d = vec![*id];
            d.extend_from_slice(&c.counts);
            d.extend_from_slice(&c.symbols);
            d
        })
        .collect();
    if g.bool() {
        before.push((0xc4, dht.concat()));
    } else {
        before.extend(dht.iter().map(|d| (0xc4, d.clone())));
    }
    if let Some(n) = o.restart {
        before.push((0xdd, ((n * o.w) as u16).to_be_bytes().to_vec()));
    }
    if g.chance(1, 4) {
        let n = g.ur(0, 30);
        let m = g.pickv(&[0xe0, 0xe1, 0xef, 0xfe]);
        before.push((m, g.noise(n)));
    }
    if g.chance(1, 6) {
        // A table replaced before it is used
        let mut d = vec![ids[0]];
        let c = code(&mut r, &[3, 5, 9, 1, 12, 7, 8, 2, 0], 16);
        d.extend_from_slice(&c.counts);
        d.extend_from_slice(&c.symbols);
        before.insert(0, (0xc4, d));
    }
    let at = g.idx(before.len() + 1);
    for (i, (m, d)) in before.iter().enumerate() {
        let fill = if r.below(6) == 0 { 1 + r.below(2) as usize } else { 0 };
        if i == at {
            seg(&mut b, 0xc3, &sof, fill);
        }
        seg(&mut b, *m, d, fill);
    }
    if at == before.len() {
        seg(&mut b, 0xc3, &sof, 0);
    }
    let mut sos = vec![o.comps as u8];
    for c in 0..o.comps {
        sos.extend_from_slice(&[comp_ids[c], ids[of_comp[c]] << 4]);
    }
    sos.extend_from_slice(&[o.psv, 0, o.pt]);
    seg(&mut b, 0xda, &sos, 0);
    let mut longest = 0;
    let rows = o.restart.unwrap_or(o.h);
    let ones = g.chance(3, 4);
    for (k, part) in diffs.chunks(rows * row).enumerate() {
        if k > 0 {
            b.extend_from_slice(&[0xff, 0xd0 + ((k - 1) & 7) as u8]);
        }
        let mut bits = Bits::default();
        for (i, d) in part.iter().enumerate() {
            let c = &codes[of_comp[i % o.comps]];
            let n = category(*d);
            longest = longest.max(c.of[n as usize].1);
            c.put(&mut bits, n);
            if n < 16 {
                bits.put(extra(*d, n), n as u32);
            }
        }
        for v in bits.end(ones) {
            b.push(v);
            if v == 0xff {
                b.push(0);
            }
        }
    }
    b.extend_from_slice(&[0xff, 0xd9]);
    if g.chance(1, 3) {
        let n = g.ur(1, 9);
        b.extend(g.noise(n));
    }
    Out {
        bytes: b,
        longest,
        full: diffs.contains(&32768),
    }
}

/// An image of that many columns and rows of so many components.
pub fn samples(g: &mut G, w: usize, h: usize, comps: usize, prec: u8, pt: u8) -> Vec<u16> {
    let mut px = crate::gen::image(g, w * h * comps, w * comps, prec as u32);
    px.iter_mut().for_each(|v| *v = (*v >> pt) << pt);
    px
}
