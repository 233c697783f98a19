//! C21: values are found wherever the container formats place them.

use libopenraw::{RawFileHandle, Type};

use crate::api::{self, Via, Q};
use crate::doc;
use crate::gen::G;
use crate::prev;
use crate::raws::{self, Kind};
use crate::run::{self, fail, R};
use crate::tiffw::Order;
use crate::wraps::{self, Rec};

fn be32(b: &[u8], p: usize) -> usize {
    u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize
}

thread_local! {
    static BIG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Rearranged, with what follows the strangers just after 8 KiB: where buffers of the standard library end.
pub fn spread(g: &mut G, ty: Type, b: &[u8]) -> Vec<u8> {
    BIG.with(|x| x.set(true));
    let r = rearrange(g, ty, b);
    BIG.with(|x| x.set(false));
    r
}

/// Something no one knows of
fn junk(g: &mut G, short: bool) -> Vec<u8> {
    if !BIG.with(|x| x.get()) && g.chance(1, 400) {
        g.label("a large stranger");
        let n = if short {
            g.ur(60000, 65500)
        } else if g.chance(1, 25) {
            g.ur(0xff_0000, 0x101_0000)
        } else {
            g.ur(60000, 140000)
        };
        return vec![0x5a; n];
    }
    if BIG.with(|x| x.get()) && g.chance(1, 3) {
        let n = 8192 - g.ur(0, 250);
        return vec![0x5a; n];
    }
    let n = g.pickv(&[0, 1, 2, 3, 8, 9, 17, 40, 300]);
    g.noise(n)
}

/// How many of them: few, as a rule.
fn several(g: &mut G) -> usize {
    if !BIG.with(|x| x.get()) && g.chance(1, 30) {
        return g.pickv(&[9, 33, 65, 129, 200, 300]);
    }
    g.idx(4)
}

// CIFF

fn records(o: Order, b: &[u8]) -> Vec<Rec> {
    let u16_ = |p: usize| o.read16(&b[p..]);
    let u32_ = |p: usize| o.read32(&b[p..]) as usize;
    let t = u32_(b.len() - 4);
    let n = u16_(t) as usize;
    (0..n)
        .map(|i| {
            let p = t + 2 + i * 10;
            let code = u16_(p);
            if code & 0x4000 != 0 {
                return Rec::Inline(code & !0x4000, b[p + 2..p + 10].to_vec());
            }
            let d = &b[u32_(p + 6)..u32_(p + 6) + u32_(p + 2)];
            match code & 0x3800 {
                0x2800 | 0x3000 => Rec::Heap(code, records(o, d)),
                _ => Rec::Data(code, d.to_vec()),
            }
        })
        .collect()
}

/// Codes with no meaning: the low bits are not used by any camera.
fn strange(g: &mut G, depth: u32, kept: &[u16]) -> Rec {
    let kind = g.pickv(&[0, 0x800, 0x1000, 0x1800, 0x2000, 0x2800, 0x3000]);
    let mut code = kind | (0x700 + g.below(0xff) as u16);
    if kept.contains(&code) {
        code = kind | 0x7ff;
    }
    match kind {
        0x2800 | 0x3000 => {
            let n = if depth > 2 { 0 } else { g.idx(3) };
            Rec::Heap(code, (0..n).map(|_| strange(g, depth + 1, &[])).collect())
        }
        _ if g.bool() => Rec::Inline(code, g.noise(8)),
        _ => Rec::Data(code, junk(g, false)),
    }
}

/// In another order, those with the same code staying in theirs, with others between.
fn shuffle(g: &mut G, recs: Vec<Rec>) -> Vec<Rec> {
    let codes: Vec<u16> = recs.iter().map(|r| r.code()).collect();
    let mut v: Vec<Rec> = recs
        .into_iter()
        .map(|r| match r {
            Rec::Heap(c, rs) => Rec::Heap(c, shuffle(g, rs)),
            r => r,
        })
        .collect();
    if g.chance(3, 4) {
        let p = g.perm(v.len());
        let mut w: Vec<Rec> = p.iter().map(|i| v[*i].clone()).collect();
        let mut seen: Vec<u16> = vec![];
        for i in 0..w.len() {
            let c = w[i].code();
            if seen.contains(&c) {
                continue;
            }
            seen.push(c);
            let here: Vec<usize> = (0..w.len()).filter(|j| w[*j].code() == c).collect();
            let from: Vec<usize> = (0..v.len()).filter(|j| codes[*j] == c).collect();
            for (a, b) in here.iter().zip(from) {
                w[*a] = v[b].clone();
            }
        }
        v = w;
    }
    for _ in 0..several(g) {
        let at = g.idx(v.len() + 1);
        let r = strange(g, 0, &codes);
        v.insert(at, r);
    }
    v
}

fn crw(g: &mut G, b: &[u8]) -> Vec<u8> {
    let o = if &b[..2] == b"II" { Order::Le } else { Order::Be };
    let hl = o.read32(&b[2..]) as usize;
    let recs = shuffle(g, records(o, &b[hl..]));
    let extra = g.pickv(&[0, 0, 2, 6, 38, 500]);
    let mut place = |n: usize| {
        let p = if g.chance(3, 4) { g.perm(n) } else { (0..n).collect() };
        (p, g.pickv(&[0, 0, 1, 2, 7, 64]))
    };
    wraps::crw(o, extra, &recs, &mut place).0
}

// MRW

fn mrw(g: &mut G, b: &[u8]) -> Vec<u8> {
    let o = if b[3] == b'M' { Order::Be } else { Order::Le };
    let len = o.read32(&b[4..]) as usize;
    let mut blocks: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut p = 8;
    while p + 8 <= 8 + len {
        let n = o.read32(&b[p + 4..]) as usize;
        blocks.push((b[p..p + 4].to_vec(), b[p + 8..p + 8 + n].to_vec()));
        p += 8 + n;
    }
    if g.bool() {
        let perm = g.perm(blocks.len());
        blocks = perm.iter().map(|i| blocks[*i].clone()).collect();
    }
    for _ in 0..several(g) {
        let at = g.idx(blocks.len() + 1);
        let name = g.pickv(&[b"\0PAD", b"\0XYZ", b"\0AAA", b"ABCD", b"\0ttw"]);
        let j = junk(g, false);
        blocks.insert(at, (name.to_vec(), j));
    }
    let mut out = b[..4].to_vec();
    let n: usize = blocks.iter().map(|b| b.1.len() + 8).sum();
    out.extend_from_slice(&o.u32(n as u32));
    for (name, d) in blocks {
        out.extend_from_slice(&name);
        out.extend_from_slice(&o.u32(d.len() as u32));
        out.extend_from_slice(&d);
    }
    out.extend_from_slice(&b[8 + len..]);
    out
}

// RAF

fn raf(g: &mut G, b: &[u8]) -> Vec<u8> {
    let mut parts: Vec<Vec<u8>> = vec![];
    let mut first = b.len();
    for k in 0..3 {
        let (at, n) = (be32(b, 84 + 8 * k), be32(b, 88 + 8 * k));
        parts.push(b[at..at + n].to_vec());
        if n > 0 {
            first = first.min(at);
        }
    }
    // The tags
    let m = &parts[1];
    if m.len() >= 4 {
        let n = be32(m, 0);
        let mut tags = vec![];
        let mut p = 4;
        for _ in 0..n {
            let l = u16::from_be_bytes([m[p + 2], m[p + 3]]) as usize;
            tags.push(m[p..p + 4 + l].to_vec());
            p += 4 + l;
        }
        let rest = m[p..].to_vec();
        let mut codes: Vec<[u8; 2]> = tags.iter().map(|t| [t[0], t[1]]).collect();
        codes.sort();
        let n = codes.len();
        codes.dedup();
        if n == codes.len() && g.chance(3, 4) {
            let perm = g.perm(n);
            tags = perm.iter().map(|i| tags[*i].clone()).collect();
        }
        for _ in 0..several(g) {
            let at = g.idx(tags.len() + 1);
            let code = 0x7000 + g.below(0x100) as u16;
            let j = junk(g, true);
            let mut t = code.to_be_bytes().to_vec();
            t.extend_from_slice(&(j.len() as u16).to_be_bytes());
            t.extend_from_slice(&j);
            tags.insert(at, t);
        }
        let mut m = (tags.len() as u32).to_be_bytes().to_vec();
        m.extend(tags.concat());
        m.extend(rest);
        parts[1] = m;
    }
    let mut out = b[..first.min(160)].to_vec();
    out.resize(160.max(out.len()), 0);
    for i in g.perm(3) {
        let n = g.pickv(&[0, 0, 1, 2, 7, 1000]);
        out.extend(g.noise(n));
        if g.chance(1, 200) {
            g.label("a large stranger");
            let n = if g.chance(1, 25) { g.ur(0xff_0000, 0x101_0000) } else { g.ur(60000, 140000) };
            out.resize(out.len() + n, 0x5a);
        }
        let at = out.len();
        out.extend_from_slice(&parts[i]);
        let off = if parts[i].is_empty() { 0 } else { at as u32 };
        out[84 + 8 * i..88 + 8 * i].copy_from_slice(&off.to_be_bytes());
        out[88 + 8 * i..92 + 8 * i].copy_from_slice(&(parts[i].len() as u32).to_be_bytes());
    }
    // There is always something after the last part.
    let n = g.pickv(&[16, 17, 64]);
    out.extend(g.noise(n));
    out
}

// ISO media

#[derive(Default)]
struct Iso {
    out: Vec<u8>,
    /// from, length, to
    map: Vec<(usize, usize, usize)>,
    fix: Vec<([u8; 4], usize)>,
}

impl Iso {
    fn stranger(&mut self, g: &mut G) {
        let name = g.pickv(&[b"free", b"skip", b"abcd", b"Xyz ", b"uuid", b"wide", b"\0\0\0\0"]);
        let mut d = junk(g, false);
        if name == b"uuid" {
            let mut x = vec![0x42; 16];
            x.append(&mut d);
            d = x;
        }
        if g.chance(1, 4) {
            self.out.extend(wraps::bx64(name, &d));
        } else {
            self.out.extend(wraps::bx(name, &d));
        }
    }
    fn boxes(&mut self, g: &mut G, b: &[u8], mut at: usize, end: usize, top: bool) {
        while at < end {
            let (mut len, mut head) = (be32(b, at), 8);
            if len == 1 {
                len = u64::from_be_bytes(b[at + 8..at + 16].try_into().unwrap()) as usize;
                head = 16;
            }
            let name: [u8; 4] = b[at + 4..at + 8].try_into().unwrap();
            if (!top || at > 0) && g.chance(1, 4) {
                let n = if g.chance(1, 30) { several(g) } else { 1 };
                (0..n).for_each(|_| self.stranger(g));
            }
            let body = at + head;
            let mut inner = matches!(&name, b"moov" | b"trak" | b"mdia" | b"minf" | b"stbl");
            let mut skip = 0;
            if &name == b"uuid" && b[body..body + 16] == wraps::CANON_UUID {
                inner = true;
                skip = 16;
            }
            let start = self.out.len();
            self.map.push((at, 1, start));
            if inner {
                let wide = g.chance(1, 6);
                let head = if wide { 16 } else { 8 };
                self.out.extend_from_slice(&[0; 4]);
                self.out.extend_from_slice(&name);
                self.out.resize(start + head, 0);
                self.out.extend_from_slice(&b[body..body + skip]);
                self.boxes(g, b, body + skip, at + len, false);
                let n = self.out.len() - start;
                if wide {
                    self.out[start..start + 4].copy_from_slice(&1_u32.to_be_bytes());
                    self.out[start + 8..start + 16].copy_from_slice(&(n as u64).to_be_bytes());
                } else {
                    self.out[start..start + 4].copy_from_slice(&(n as u32).to_be_bytes());
                }
            } else {
                if &name == b"mdat" && g.chance(1, 3) {
                    let n = len - head + 16;
                    self.out.extend_from_slice(&1_u32.to_be_bytes());
                    self.out.extend_from_slice(&name);
                    self.out.extend_from_slice(&(n as u64).to_be_bytes());
                } else {
                    self.out.extend_from_slice(&b[at..body]);
                }
                self.map.push((body, len - head, self.out.len()));
                if matches!(&name, b"stco" | b"co64" | b"CTBO") {
                    self.fix.push((name, self.out.len()));
                }
                self.out.extend_from_slice(&b[body..at + len]);
            }
            at += len;
        }
        if g.chance(1, 4) {
            self.stranger(g);
        }
    }
    fn to(&self, old: usize) -> Option<usize> {
        self.map.iter().find(|m| old >= m.0 && old < m.0 + m.1).map(|m| old - m.0 + m.2)
    }
}

fn cr3(g: &mut G, b: &[u8]) -> Vec<u8> {
    let mut iso = Iso::default();
    iso.boxes(g, b, 0, b.len(), true);
    for (name, p) in std::mem::take(&mut iso.fix) {
        let (start, step, wide) = match &name {
            b"stco" => (p + 8, 4, false),
            b"co64" => (p + 8, 8, true),
            _ => (p + 8, 20, true),
        };
        let n = be32(&iso.out, if &name == b"CTBO" { p } else { p + 4 });
        for k in 0..n {
            let q = start + k * step;
            if wide {
                let v = u64::from_be_bytes(iso.out[q..q + 8].try_into().unwrap());
                if let Some(v) = iso.to(v as usize) {
                    iso.out[q..q + 8].copy_from_slice(&(v as u64).to_be_bytes());
                }
            } else {
                let v = be32(&iso.out, q);
                if let Some(v) = iso.to(v) {
                    iso.out[q..q + 4].copy_from_slice(&(v as u32).to_be_bytes());
                }
            }
        }
    }
    iso.out
}

// JPEG

fn jpeg(g: &mut G, b: &[u8]) -> Vec<u8> {
    let mut out = b[..2].to_vec();
    let mut p = 2;
    let mut segment = |g: &mut G, out: &mut Vec<u8>| {
        if !g.chance(1, 3) {
            return;
        }
        let n = if g.chance(1, 20) { several(g) } else { 1 };
        for _ in 0..n {
            let m = g.pickv(&[0xfe, 0xe0, 0xe2, 0xed, 0xef, 0xe1]);
            let mut d = match m {
                0xe1 => b"http://ns.adobe.com/xap/1.0/\0".to_vec(),
                0xe2 => b"MPF\0".to_vec(),
                0xe0 => b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0".to_vec(),
                _ => vec![],
            };
            d.extend(junk(g, true));
            out.extend_from_slice(&[0xff, m]);
            out.extend_from_slice(&(d.len() as u16 + 2).to_be_bytes());
            out.extend(d);
        }
    };
    while b[p + 1] != 0xda {
        segment(g, &mut out);
        let n = u16::from_be_bytes([b[p + 2], b[p + 3]]) as usize + 2;
        out.extend_from_slice(&b[p..p + n]);
        p += n;
    }
    out.extend_from_slice(&b[p..]);
    out
}

fn asked() -> Vec<Q> {
    let mut v = vec![
        Q::Type,
        Q::Mime,
        Q::TypeId,
        Q::VendorId,
        Q::ThumbSizes,
        Q::ThumbListed(0),
        Q::ThumbListed(1),
        Q::ThumbListed(2),
        Q::Thumb(0),
        Q::Thumb(160),
        Q::Thumb(u32::MAX),
        Q::Raw(true),
        Q::Raw(false),
        Q::Meta,
        Q::Orientation,
    ];
    for k in 0..3 {
        v.push(Q::Illuminant(k));
        v.push(Q::Matrix(k));
    }
    for k in [
        "Exif.Image.Make",
        "Exif.Image.Model",
        "Exif.Photo.ISOSpeedRatings",
        "Exif.Photo.ExposureTime",
    ] {
        v.push(Q::MetaValue(k));
    }
    v
}

fn open(b: &[u8], ty: Type, what: &str) -> Result<RawFileHandle, run::Fail> {
    api::open(b, Some(ty), Via::Memory).map_err(|e| run::Fail {
        sig: "open".into(),
        msg: format!("{ty:?} {what}: {e:?}"),
    })
}

fn rearrange(g: &mut G, ty: Type, b: &[u8]) -> Vec<u8> {
    match ty {
        Type::Crw => crw(g, b),
        Type::Mrw => mrw(g, b),
        Type::Raf => raf(g, b),
        Type::Cr3 => cr3(g, b),
        Type::Jpeg => jpeg(g, b),
        _ => b.to_vec(),
    }
}

fn judge(g: &mut G, ty: Type, b: &[u8], previews: bool) -> R {
    let moved = rearrange(g, ty, b);
    g.input(&moved);
    g.label(api::name_of(ty));
    let (x, y) = (open(b, ty, "as made")?, open(&moved, ty, "rearranged")?);
    let mut found = false;
    for q in asked() {
        if ty == Type::Jpeg && matches!(q, Q::Raw(_)) {
            continue;
        }
        // Random tags may place a preview anywhere.
        if !previews && matches!(q, Q::ThumbSizes | Q::ThumbListed(_) | Q::Thumb(_)) {
            continue;
        }
        let (a, c) = (api::ask_caught(&x, &q)?, api::ask_caught(&y, &q)?);
        found |= match q {
            Q::ThumbListed(0) => a.starts_with(|c: char| c.is_ascii_digit()),
            Q::Raw(_) => a.contains("d16=") || a.contains("d8="),
            Q::Meta => !a.starts_with("0:") && a != "None",
            _ => false,
        };
        if a != c {
            return fail(format!("{} differs", q.name()), format!("{ty:?}: as made {a}\nrearranged {c}"));
        }
    }
    if found && moved != b {
        g.nontrivial();
    }
    Ok(())
}

const TYPES: [Type; 4] = [Type::Crw, Type::Mrw, Type::Raf, Type::Cr3];

fn raw(g: &mut G) -> R {
    let ty = g.pickv(&TYPES);
    let r = raws::coloured(g, ty, Kind::Any);
    judge(g, ty, &r.bytes, true)
}

fn previews(g: &mut G) -> R {
    let ty = g.pickv(&[Type::Crw, Type::Mrw, Type::Raf, Type::Cr3, Type::Jpeg]);
    let f = prev::file(g, ty);
    judge(g, ty, &f.bytes, true)
}

fn metadata(g: &mut G) -> R {
    let ty = g.pickv(&[Type::Mrw, Type::Raf, Type::Cr3, Type::Jpeg]);
    let f = doc::doc(g, ty);
    judge(g, ty, &f.bytes, false)
}

pub fn check() -> run::Check {
    run::Check {
        id: "C21",
        rule: "the file was rearranged, and has a preview, metadata or raw data",
        assumptions: &[
            "what is in the containers is that of the other checks; both files are read by the library and their answers compared",
        ],
        subs: vec![
            run::Sub {
                name: "raw",
                quick: 180000,
                thorough: 4000000,
                run: raw,
            },
            run::Sub {
                name: "previews",
                quick: 180000,
                thorough: 4000000,
                run: previews,
            },
            run::Sub {
                name: "metadata",
                quick: 180000,
                thorough: 4000000,
                run: metadata,
            },
        ],
    }
}
