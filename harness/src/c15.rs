//! C15: Fujifilm compressed raw data decodes exactly.
//!
//! The code: strips of 768 columns, each a bit stream of its own, in groups of six rows. A group
//! has six lines of each of R (3), G (6) and B (3) samples, coded in six passes over a pair of
//! lines. A sample is predicted from those around it, and the difference is coded with an adaptive
//! Golomb code chosen by the gradients.

use std::sync::OnceLock;

use libopenraw::{CfaPattern, Type};

use crate::gen::G;
use crate::ljpeg::Bits;
use crate::raws::{self, Body, Pay};
use crate::run::{self, R};

/// The lines of samples: those before the group, and those of the group.
const R0: usize = 0;
const G0: usize = 5;
const B0: usize = 13;
const LINES: usize = 18;
const BLOCK: usize = 768;

/// Which samples at even positions are not coded, but interpolated
#[derive(Clone, Copy, PartialEq, Debug)]
enum Skip {
    No,
    Even,
    /// Those at this position of four
    At(usize),
}

impl Skip {
    fn skips(self, x: usize) -> bool {
        match self {
            Skip::No => false,
            Skip::Even => x % 2 == 0,
            Skip::At(k) => x % 4 == k,
        }
    }
}

/// The passes: lines, contexts, what isn't coded in an X-Trans image.
const PASSES: [(usize, usize, usize, Skip, Skip); 6] = [
    (R0 + 2, G0 + 2, 0, Skip::Even, Skip::No),
    (G0 + 3, B0 + 2, 1, Skip::No, Skip::Even),
    (R0 + 3, G0 + 4, 2, Skip::At(0), Skip::Even),
    (G0 + 5, B0 + 3, 0, Skip::No, Skip::At(2)),
    (R0 + 4, G0 + 6, 1, Skip::At(2), Skip::No),
    (G0 + 7, B0 + 4, 2, Skip::Even, Skip::At(0)),
];

/// Where the sample of a pixel of the group is.
fn place(xtrans: bool, cfa: &[u8], row: usize, x: usize) -> (usize, usize) {
    let n = if xtrans { 6 } else { 2 };
    let line = match cfa[row % n * n + x % n] {
        0 => R0 + 2 + row / 2,
        1 => G0 + 2 + row,
        _ => B0 + 2 + row / 2,
    };
    let at = if xtrans { x / 3 * 2 + [0, 1, 1][x % 3] } else { x / 2 };
    (line, at)
}

/// The X-Trans patterns all the samples of which are coded.
fn patterns() -> &'static Vec<Vec<u8>> {
    static P: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    P.get_or_init(|| {
        let base: Vec<u8> = b"GBGGRGRGRBGBGBGGRGGRGGBGBGBRGRGRGGBG"
            .iter()
            .map(|c| match c {
                b'R' => 0,
                b'G' => 1,
                _ => 2,
            })
            .collect();
        let mut all = vec![];
        for k in 0..144 {
            let (dy, dx, turn, swap) = (k / 6 % 6, k % 6, k / 36 & 1 == 1, k / 72 == 1);
            let p: Vec<u8> = (0..36)
                .map(|i| {
                    let (y, x) = if turn { (i % 6, i / 6) } else { (i / 6, i % 6) };
                    let c = base[(y + dy) % 6 * 6 + (x + dx) % 6];
                    if swap {
                        2 - c
                    } else {
                        c
                    }
                })
                .collect();
            let mut seen = std::collections::HashSet::new();
            let good = (0..36).all(|i| {
                // Twelve columns, as the positions are of eight
                (0..2).all(|r| {
                    let (line, at) = place(true, &p, i / 6, i % 6 + 6 * r);
                    let skip = PASSES.iter().find_map(|q| if q.0 == line { Some(q.3) } else if q.1 == line { Some(q.4) } else { None }).unwrap();
                    !skip.skips(at) && seen.insert((line, at))
                })
            });
            if good && !all.contains(&p) {
                all.push(p);
            }
        }
        assert!(!all.is_empty());
        all
    })
}

#[derive(Clone, Default)]
struct Table {
    base: i32,
    points: [i32; 5],
    total: i32,
    bits: u32,
    /// The sum of the differences it is for
    near: i32,
    /// Weight of the first gradient
    weight: i32,
}

fn bits_for(states: i32) -> u32 {
    let mut n = 1;
    while (1_i64 << n) < states as i64 {
        n += 1;
    }
    n
}

impl Table {
    fn main(base: i32, max: i32) -> Table {
        let mut p = [base, 3 * base + 0x12, 5 * base + 0x43, 7 * base + 0x114, max];
        if p[1] > max || p[1] < base + 1 {
            p[1] = base + 1;
        }
        for i in 2..4 {
            if p[i] < p[i - 1] || p[i] > max {
                p[i] = p[i - 1];
            }
        }
        let total = (max + 2 * base) / (2 * base + 1) + 1;
        Table { base, points: p, total, bits: bits_for(total), near: 0, weight: 9 }
    }
    /// For samples that are nearly the same as those around
    fn near(base: i32, max: i32) -> Table {
        let mut t = Table::main(base, max);
        t.near = 5 + base;
        t.weight = 3;
        t
    }
    fn quant(&self, v: i32) -> i32 {
        let p = &self.points;
        let a = v.abs();
        // The bounds belong to the outer class below zero only for the third
        let k = if v < 0 {
            if a >= p[3] {
                4
            } else if a >= p[2] {
                3
            } else if a >= p[1] {
                2
            } else if a > p[0] {
                1
            } else {
                0
            }
        } else if a <= p[0] {
            0
        } else if a < p[1] {
            1
        } else if a < p[2] {
            2
        } else if a < p[3] {
            3
        } else {
            4
        };
        if v < 0 {
            -k
        } else {
            k
        }
    }
    fn gradient(&self, a: i32, b: i32) -> i32 {
        self.weight * self.quant(a) + self.quant(b)
    }
    fn start(&self) -> (i32, i32) {
        (2.max((self.total + 0x20) >> 6), 1)
    }
}

/// Contexts of one set: the 41 of the main table, then five for each of the others.
type Ctx = Vec<(i32, i32)>;

struct Strip<'a> {
    max: i32,
    lossy: bool,
    tables: Vec<Table>,
    /// Limit of the length of codes
    limit: u32,
    lines: Vec<Vec<i32>>,
    even: Vec<Ctx>,
    odd: Vec<Ctx>,
    out: Bits,
    width: usize,
    /// Targets
    want: Box<dyn Fn(usize, usize) -> Option<i32> + 'a>,
    escapes: usize,
}

impl Strip<'_> {
    fn contexts(&mut self) {
        let s = self.tables[0].start();
        for set in self.even.iter_mut().chain(self.odd.iter_mut()) {
            set[..41].fill(s);
        }
    }

    fn code(&mut self, line: usize, x: usize, odd: bool, grad: usize) {
        let l = |y: usize, x: usize| self.lines[y][x];
        let i = x + 1;
        let (b, c, d) = (l(line - 1, i), l(line - 1, i - 1), l(line - 1, i + 1));
        let (mut pred, near, g);
        if odd {
            let (a, e) = (l(line, i - 1), l(line, i + 1));
            near = (b - c).abs() + (c - a).abs();
            pred = if (b > c && b > d) || (b < c && b < d) { (e + a + 2 * b) >> 2 } else { (a + e) >> 1 };
            g = (b - c, c - a);
        } else {
            let f = l(line - 2, i);
            near = (f - b).abs() + (c - b).abs();
            pred = self.between(line, i);
            g = (b - f, c - b);
        }
        let mut k = 0;
        for j in 1..self.tables.len() {
            if self.tables[0].base < j as i32 {
                break;
            }
            if near <= self.tables[j].near {
                k = j;
                break;
            }
        }
        let t = self.tables[k].clone();
        let gr = t.gradient(g.0, g.1);
        let step = 2 * t.base + 1;
        let sign = if gr < 0 { -1 } else { 1 };
        // What to code
        let signed = match (self.want)(line, x) {
            None => 0,
            Some(v) => {
                let d = v - pred;
                let q = if d < 0 { -((-d + t.base) / step) } else { (d + t.base) / step };
                let low = -(t.total / 2);
                (sign * q - low).rem_euclid(t.total) + low
            }
        };
        let code = if signed >= 0 { 2 * signed } else { -2 * signed - 1 };
        assert!(code < t.total);
        let at = gr.unsigned_abs() as usize;
        let set = if odd { &mut self.odd[grad] } else { &mut self.even[grad] };
        let c = &mut set[if k == 0 { at } else { 41 + 5 * (k - 1) + at }];
        let mut n = 0;
        while n < 15 && (c.1 << n) < c.0 {
            n += 1;
        }
        let limit = self.limit - t.bits - 1;
        let high = code as u32 >> n;
        if high < limit {
            for _ in 0..high {
                self.out.put(0, 1);
            }
            self.out.put(1, 1);
            self.out.put(code as u32 & ((1 << n) - 1), n);
        } else {
            self.escapes += 1;
            for _ in 0..limit {
                self.out.put(0, 1);
            }
            self.out.put(1, 1);
            self.out.put(code as u32 - 1, t.bits);
        }
        c.0 += signed.abs();
        if c.1 == 0x40 {
            c.0 >>= 1;
            c.1 >>= 1;
        }
        c.1 += 1;
        pred += sign * signed * step;
        if pred < -t.base {
            pred += t.total * step;
        } else if pred > t.base + self.max {
            pred -= t.total * step;
        }
        self.lines[line][i] = pred.clamp(0, self.max);
        if !self.lossy {
            if let Some(v) = (self.want)(line, x) {
                assert_eq!(self.lines[line][i], v, "the encoder");
            }
        }
    }

    /// The prediction from the lines above
    fn four(&self, line: usize, i: usize) -> i32 {
        let l = |y: usize, x: usize| self.lines[y][x];
        let (b, c, d, f) = (l(line - 1, i), l(line - 1, i - 1), l(line - 1, i + 1), l(line - 2, i));
        let (dc, df, dd) = ((c - b).abs(), (f - b).abs(), (d - b).abs());
        // Without the one that differs the most
        if dc > df && dc > dd {
            f + d + 2 * b
        } else if dd > dc && dd > df {
            f + c + 2 * b
        } else {
            d + c + 2 * b
        }
    }

    fn between(&self, line: usize, i: usize) -> i32 {
        self.four(line, i) >> 2
    }

    fn even(&mut self, line: usize, x: usize, skip: Skip, grad: usize) {
        if skip.skips(x) {
            self.lines[line][x + 1] = self.between(line, x + 1);
        } else {
            self.code(line, x, false, grad);
        }
    }

    fn edges(&mut self, from: usize, to: usize) {
        for y in from..=to {
            self.lines[y][0] = self.lines[y - 1][1];
            self.lines[y][self.width + 1] = self.lines[y - 1][self.width];
        }
    }

    fn group(&mut self, xtrans: bool) {
        for (l0, l1, grad, s0, s1) in PASSES {
            let (s0, s1) = if xtrans { (s0, s1) } else { (Skip::No, Skip::No) };
            let (mut e, mut o) = (0, 1);
            while e < self.width || o < self.width {
                if e < self.width {
                    self.even(l0, e, s0, grad);
                    self.even(l1, e, s1, grad);
                    e += 2;
                }
                // The odd ones follow from a distance
                if e > 8 {
                    self.code(l0, o, true, grad);
                    self.code(l1, o, true, grad);
                    o += 2;
                }
            }
            for (first, last) in [(R0, R0 + 4), (G0, G0 + 7), (B0, B0 + 4)] {
                if (first..=last).contains(&l0) || (first..=last).contains(&l1) {
                    self.edges(first + 2, last);
                }
            }
        }
    }

    /// The last two lines of each become those before.
    fn next(&mut self) {
        for (first, last) in [(R0, R0 + 4), (G0, G0 + 7), (B0, B0 + 4)] {
            for k in 0..2 {
                self.lines[first + k] = self.lines[last - 1 + k].clone();
            }
            for y in first + 2..=last {
                self.lines[y].fill(0);
            }
            self.lines[first + 2][0] = self.lines[first + 1][1];
            self.lines[first + 2][self.width + 1] = self.lines[first + 1][self.width];
        }
    }
}

struct Image {
    w: usize,
    h: usize,
    bits: u32,
    xtrans: bool,
    cfa: Vec<u8>,
    px: Vec<u16>,
    /// Of each strip and group, if lossy
    bases: Option<Vec<Vec<u8>>>,
}

/// The data, what it decodes to, and how many long codes there were.
fn encode(g: &mut G, im: &Image) -> (Vec<u8>, Vec<u16>, usize) {
    let groups = im.h / 6;
    let strips = (im.w + BLOCK - 1) / BLOCK;
    let max = (1 << im.bits) - 1;
    let width = if im.xtrans { BLOCK * 2 / 3 } else { BLOCK / 2 };
    let mut out = im.px.clone();
    let mut parts = vec![];
    let mut escapes = 0;
    for n in 0..strips {
        let x0 = n * BLOCK;
        let sw = BLOCK.min(im.w - x0);
        let mut tables = vec![Table::main(0, max)];
        if im.bases.is_some() {
            tables.extend((0..3).map(|b| Table::near(b, max)));
        }
        let mut set = vec![tables[0].start(); 41];
        for t in &tables[1..] {
            set.extend([t.start(); 5]);
        }
        let mut s = Strip {
            max,
            lossy: im.bases.is_some(),
            limit: 4 * bits_for(max + 1),
            tables,
            lines: vec![vec![0; width + 2]; LINES],
            even: vec![set.clone(); 3],
            odd: vec![set; 3],
            out: Bits::default(),
            width,
            want: Box::new(|_, _| None),
            escapes: 0,
        };
        for k in 0..groups {
            if let Some(b) = &im.bases {
                let b = b[n][k] as i32;
                if k == 0 || b != s.tables[0].base {
                    s.tables[0] = Table::main(b, max);
                    s.contexts();
                }
            }
            let mut want = vec![vec![-1; width]; LINES];
            for row in 0..6 {
                for x in 0..sw {
                    let (line, at) = place(im.xtrans, &im.cfa, row, x);
                    want[line][at] = im.px[(6 * k + row) * im.w + x0 + x] as i32;
                }
            }
            s.want = Box::new(move |l, x| Some(want[l][x]).filter(|v| *v >= 0));
            s.group(im.xtrans);
            for row in 0..6 {
                for x in 0..sw {
                    let (line, at) = place(im.xtrans, &im.cfa, row, x);
                    out[(6 * k + row) * im.w + x0 + x] = s.lines[line][at + 1] as u16;
                }
            }
            s.next();
        }
        escapes += s.escapes;
        let mut d = s.out.end(false);
        while d.len() % 4 != 0 {
            d.push(0);
        }
        parts.push(d);
    }
    if g.bool() {
        // As cameras do
        for p in parts.iter_mut() {
            while p.len() % 16 != 0 {
                p.push(0);
            }
        }
    }
    let mut d = vec![];
    let be = |d: &mut Vec<u8>, v: usize| d.extend_from_slice(&(v as u16).to_be_bytes());
    be(&mut d, 0x4953);
    d.push(if im.bases.is_some() { 0 } else { 1 });
    d.push(if im.xtrans { 16 } else { 0 });
    d.push(im.bits as u8);
    be(&mut d, im.h);
    be(&mut d, strips * BLOCK);
    be(&mut d, im.w);
    be(&mut d, BLOCK);
    d.push(strips as u8);
    be(&mut d, groups);
    let start = d.len();
    for p in &parts {
        d.extend_from_slice(&(p.len() as u32).to_be_bytes());
    }
    while (d.len() - start) % 16 != 0 {
        d.push(0);
    }
    if let Some(b) = &im.bases {
        for b in b {
            let mut b = b.clone();
            while b.len() % 16 != 0 {
                b.push(0);
            }
            d.extend(b);
        }
    }
    for p in parts {
        d.extend(p);
    }
    (d, out, escapes)
}

/// An image the code makes smaller.
fn image(g: &mut G, w: usize, h: usize, bits: u32) -> Vec<u16> {
    let max = (1_i64 << bits) - 1;
    let mut r = g.sub();
    let levels: Vec<i64> = (0..3).map(|_| r.below(max as u64 + 1) as i64).collect();
    let (sx, sy) = (g.below(9) as i64 - 4, g.below(41) as i64 - 20);
    let amp = 1_u64 << g.below(bits as u64 - 5);
    let far = g.pickv(&[0, 0, 400, 60]);
    let blocks = g.chance(1, 3);
    let mut px = vec![0; w * h];
    for (i, p) in px.iter_mut().enumerate() {
        let (y, x) = (i / w, i % w);
        let mut v = levels[0] + x as i64 * sx + y as i64 * sy + r.below(amp) as i64;
        if blocks {
            v += levels[1 + (x / 100 + y / 7) % 2];
        }
        // There and back again
        let m = v.rem_euclid(2 * max + 2);
        *p = if m > max { 2 * max + 1 - m } else { m } as u16;
        if far != 0 && r.below(far) == 0 {
            *p = [0, max as u64, r.below(max as u64 + 1)][r.below(3) as usize] as u16;
        }
    }
    px
}

/// The payload, and the pattern of an X-Trans image; others are RGGB, or BGGR.
pub fn pay(g: &mut G, bggr: bool) -> (Pay, Option<(CfaPattern, Vec<u8>)>) {
    let w = match g.below(5) {
        0 => 792,
        1 => 24 * g.ur(32, 64),
        2 => 24 * g.ur(65, 100),
        _ => 768,
    };
    let h = 6 * if w > 800 { g.ur(1, 2) } else { g.pickv(&[1, 1, 2, 2, 3, 4, 17]) };
    let (w, h) = if g.chance(1, 60) {
        g.label("large");
        if g.bool() { (24 * g.ur(100, 300), 6) } else { (768, 6 * g.ur(18, 60)) }
    } else {
        (w, h)
    };
    let bits = g.pickv(&[14, 14, 12, 16]);
    let xtrans = g.bool();
    let mut px = image(g, w, h, bits);
    let strips = (w + BLOCK - 1) / BLOCK;
    let bases = if g.chance(1, 3) {
        let pick = g.pickv(&[0, 1, 2, 3, 5, 30, 255]);
        let all = g.bool();
        Some((0..strips).map(|_| (0..h / 6).map(|_| if all || g.bool() { pick } else { g.below(12) as u8 }).collect()).collect())
    } else {
        None
    };
    let cfa = if xtrans {
        g.pick(patterns()).clone()
    } else if bggr {
        vec![2, 1, 1, 0]
    } else {
        vec![0, 1, 1, 2]
    };
    let mut im = Image { w, h, bits, xtrans, cfa: cfa.clone(), px: vec![], bases };
    let (mut d, mut out, mut escapes);
    loop {
        im.px = px;
        (d, out, escapes) = encode(g, &im);
        if d.len() < w * h * bits as usize / 8 {
            break;
        }
        g.label("didn't compress");
        px = vec![g.below(1 << bits) as u16; w * h];
    }
    if escapes > 0 {
        g.label("long codes");
    }
    if strips > 1 {
        g.label("several strips");
    }
    let style = match (xtrans, im.bases.is_some()) {
        (true, false) => "x-trans",
        (true, true) => "x-trans lossy",
        (false, false) => "fuji bayer",
        (false, true) => "fuji bayer lossy",
    };
    let mut p = crate::raws2::raf_pay(w as u32, h as u32, bits as u16, d.clone(), Body::S16(out), style);
    p.skip = Body::S8(d);
    p.full_bpc = 16;
    let mosaic = if xtrans { Some((CfaPattern::try_from(&cfa[..]).unwrap(), cfa)) } else { None };
    (p, mosaic)
}

fn files(g: &mut G) -> R {
    crate::c08::one(g, Type::Raf, raws::Kind::Codec)
}

pub fn check() -> run::Check {
    run::Check {
        id: "C15",
        rule: "the image has at least 16 samples that are not all the same",
        assumptions: &[
            "heights are multiples of six, as the code works on groups of six rows",
            "X-Trans patterns are those none of the samples of which is one the code interpolates",
            "the lossy variant is compared with what a model of the code reconstructs",
        ],
        subs: vec![run::Sub { name: "files", quick: 20000, thorough: 1500000, run: files }],
    }
}
