//! Random trees of directories inside every kind of file that has them, with the model of what
//! they hold.

use libopenraw::metadata::Value;
use libopenraw::{RawFileHandle, Type};

use crate::api::{self, Via};
use crate::gen::G;
use crate::meta::{self, Names};
use crate::tiffw::{Base, Built, Id, Order, Tiff, V};
use crate::wraps;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Role {
    Chain(usize),
    Exif(usize),
    Note(usize),
    Gps(usize),
    Sub(usize),
}

/// One directory and how it should be seen.
#[derive(Clone, Debug)]
pub struct MDir {
    pub node: Id,
    pub role: Role,
    /// As `IfdType` prints it
    pub kind: &'static str,
    pub id: &'static str,
    pub table: &'static str,
    pub indent: usize,
    /// Sorted by tag, resolved to what is stored
    pub entries: Vec<(u16, V)>,
    pub next: u32,
}

impl MDir {
    pub fn names(&self) -> &'static Names {
        meta::names(self.table)
    }
    pub fn name(&self, tag: u16) -> &'static str {
        self.names().get(&tag).copied().unwrap_or("")
    }
    pub fn ns(&self) -> &'static str {
        match self.kind {
            "Main" => "Exif.Image",
            "Exif" => "Exif.Photo",
            "Raw" => "Raw",
            "MakerNote" => "MakerNote",
            "GpsInfo" => "GPSInfo",
            _ => "other",
        }
    }
}

pub struct Doc {
    pub ty: Type,
    pub bytes: Vec<u8>,
    pub dirs: Vec<MDir>,
    pub order: Order,
    /// Directories of a CR3 file are files of their own
    pub blocks: bool,
    /// The TIFF's place in the file
    pub shift: usize,
    pub spots: Vec<usize>,
    /// Those of the JPEG file a Panasonic one holds
    pub inner: Option<Vec<MDir>>,
}

pub const HOSTS: [Type; 14] = [
    Type::Dng,
    Type::Nef,
    Type::Cr2,
    Type::Pef,
    Type::Arw,
    Type::Orf,
    Type::Rw2,
    Type::Erf,
    Type::Jpeg,
    Type::Raf,
    Type::Mrw,
    Type::Cr3,
    Type::Gpr,
    Type::Nrw,
];

pub struct Note {
    pub prefix: Vec<u8>,
    pub base: Base,
    pub id: &'static str,
    pub table: &'static str,
    pub order: Option<Order>,
    /// What must be the first entry
    pub first: Option<(u16, V)>,
}

fn nk(prefix: &[u8], base: Base, id: &'static str, table: &'static str) -> Note {
    Note {
        prefix: prefix.to_vec(),
        base,
        id,
        table,
        order: None,
        first: None,
    }
}

/// A maker note such as files of that type may hold.
pub fn note(g: &mut G, ty: Type, o: Order) -> Note {
    use Base::*;
    match ty {
        Type::Cr2 | Type::Cr3 | Type::Crw => return nk(b"", File, "Exif.Canon", "MNOTE_CANON_TAG_NAMES"),
        Type::Arw => {
            let p: &[u8] = if g.bool() { b"SONY DSC \0\0\0" } else { b"" };
            return nk(p, File, "Exif.Sony5", "MNOTE_SONY_TAG_NAMES");
        }
        _ => {}
    }
    let mut nikon2 = b"Nikon\0\x02\x10\0\0".to_vec();
    nikon2.extend_from_slice(if o == Order::Le { b"II" } else { b"MM" });
    nikon2.extend_from_slice(&o.u16(42));
    nikon2.extend_from_slice(&o.u32(8));
    if ty == Type::Nef || ty == Type::Nrw {
        return match g.below(4) {
            0 => nk(b"Nikon\0\x01\0", Node(8), "Exif.Nikon2", "MNOTE_NIKON2_TAG_NAMES"),
            1 => nk(b"", File, "Exif.NikonHeaderless", "MNOTE_NIKON_TAG_NAMES"),
            _ => nk(&nikon2, Node(10), "Exif.Nikon", "MNOTE_NIKON_TAG_NAMES"),
        };
    }
    let rw2 = ty == Type::Rw2;
    match g.below(28) {
        0 => nk(b"Nikon\0\x01\0", Node(8), "Exif.Nikon2", "MNOTE_NIKON2_TAG_NAMES"),
        1 => nk(&nikon2, Node(10), "Exif.Nikon", "MNOTE_NIKON_TAG_NAMES"),
        2 => nk(b"OLYMPUS\0II\x03\0", Node(0), "Exif.Olympus2", "MNOTE_OLYMPUS_TAG_NAMES"),
        3 => nk(b"OM SYSTEM\0\0\0II\x04\0", Node(0), "Exif.Olympus2", "MNOTE_OLYMPUS_TAG_NAMES"),
        4 => nk(b"OLYMP\0\x01\0", File, "Exif.Olympus", "MNOTE_OLYMPUS_TAG_NAMES"),
        5 => nk(b"EPSON\0\x01\0", File, "Exif.Epson", "MNOTE_OLYMPUS_TAG_NAMES"),
        6 => nk(b"AOC\0MM", File, "Exif.Pentax", "MNOTE_PENTAX_TAG_NAMES"),
        7 => nk(b"PENTAX \0MM", Node(0), "Exif.Pentax", "MNOTE_PENTAX_TAG_NAMES"),
        8 => nk(b"Panasonic\0\0\0", File, "Exif.Panasonic", "MNOTE_PANASONIC_TAG_NAMES"),
        9 => nk(b"Ricoh\0\0\0", File, "Exif.Ricoh", "MNOTE_RICOH_TAG_NAMES"),
        10 if rw2 => nk(b"LEICA CAMERA AG\0\0\0", File, "Exif.Panasonic", "MNOTE_PANASONIC_TAG_NAMES"),
        10 if ty == Type::Dng => nk(b"LEICA CAMERA AG\0\0\0", File, "Exif.Leica5", "MNOTE_LEICA5_TAG_NAMES"),
        11 if rw2 => nk(b"LEICA\0\0\0", File, "Exif.Panasonic", "MNOTE_PANASONIC_TAG_NAMES"),
        11 => nk(b"LEICA\0\0\0", Node(0), "Exif.Leica2", "MNOTE_LEICA2_TAG_NAMES"),
        12 => {
            let k = g.pickv(&[8, 9, 10]);
            nk(&[b'L', b'E', b'I', b'C', b'A', 0, k, 0], File, "Exif.Leica5", "MNOTE_LEICA5_TAG_NAMES")
        }
        13 => {
            let k = g.pickv(&[1, 4, 5, 6, 7, 0x10, 0x1a]);
            nk(&[b'L', b'E', b'I', b'C', b'A', 0, k, 0], Node(0), "Exif.Leica5", "MNOTE_LEICA5_TAG_NAMES")
        }
        14 => nk(b"LEICA\0\x02\xff", File, "Exif.Leica6", "MNOTE_LEICA6_TAG_NAMES"),
        15 => nk(b"LEICA0\x03\0", Node(0), "Exif.Leica4", "MNOTE_LEICA4_TAG_NAMES"),
        16 => nk(b"LEICA\0\x02\0", File, "Exif.Leica9", "MNOTE_LEICA9_TAG_NAMES"),
        17 => nk(b"YI     \0\0\0\0\0", Node(0), "Exif.Xiaoyi", ""),
        18 => nk(b"Apple iOS\0\0\x01MM", Node(0), "Exif.Apple", "MNOTE_APPLE_TAG_NAMES"),
        19 | 20 => {
            let mut n = nk(b"FUJIFILM\x0c\0\0\0", Node(0), "Exif.Fujifilm", "MNOTE_FUJIFILM_TAG_NAMES");
            n.order = Some(Order::Le);
            n
        }
        21 => nk(b"SIGMA\0\0\0\x01\0", File, "Exif.Sigma", "MNOTE_SIGMA_TAG_NAMES"),
        22 | 23 => {
            let mut n = nk(b"", File, "Exif.Minolta", "MNOTE_MINOLTA_TAG_NAMES");
            n.first = Some((0, V::X(b"MLT0".to_vec())));
            n
        }
        _ => nk(b"", File, "", ""),
    }
}

/// Builds `note` with `entries`; the caller puts `V::Note` of it in an EXIF directory.
pub fn add_note(t: &mut Tiff, n: &Note, entries: Vec<(u16, V)>) -> Id {
    let id = t.dir();
    let d = t.d(id);
    d.prefix = n.prefix.clone();
    d.base = n.base;
    d.contained = matches!(n.base, Base::Node(_));
    d.order = n.order;
    d.tail = 8;
    if let Some(f) = &n.first {
        d.entries.push(f.clone());
    }
    d.entries.extend(entries);
    id
}

/// TIFF header of a file of that type.
pub fn header(t: &mut Tiff, ty: Type, g: &mut G) {
    match ty {
        Type::Orf => {
            let m: &[u8] = match t.order {
                Order::Le => g.pickv(&[b"IIRO", b"IIRS"]),
                Order::Be => b"MMOR",
            };
            t.header[..4].copy_from_slice(m);
        }
        Type::Rw2 => t.header[..4].copy_from_slice(b"IIU\0"),
        Type::Cr2 => t.header.extend_from_slice(b"CR\x02\0\0\0\0\0"),
        _ => {}
    }
}

pub fn chain_kind(ty: Type, i: usize) -> (&'static str, &'static str) {
    match (ty, i) {
        (_, 0) => ("Main", "Main"),
        (Type::Cr2, 3) => ("Raw", "Raw"),
        _ => ("Other", "Other"),
    }
}

pub fn some(g: &mut G, lo: usize, hi: usize, table: &str, avoid: &[u16]) -> Vec<(u16, V)> {
    let n = if g.chance(1, 400) { g.pickv(&[64, 127, 128, 255, 256, 300]) } else { g.ur(lo, hi) };
    meta::entries(g, n, table, avoid)
}

pub const AVOID: [u16; 6] = [0x2e, 0x120, 0x0111, 0x0117, 0x0201, 0x0202];

/// What an entry's value is once the places are known.
pub fn resolve(v: &V, b: &Built) -> V {
    match v {
        V::Ptr(x) => V::U32(x.iter().map(|i| crate::tiffw::place(&b.off, *i)).collect()),
        V::PtrAdd(i, k) => V::U32(vec![(b.off[*i] as i64 + k) as u32]),
        V::PtrRel(a, c, k) => V::U32(vec![b.off[*a].wrapping_sub(b.off[*c] + k)]),
        V::Len(x) => V::U32(x.iter().map(|i| b.size[*i]).collect()),
        V::Note(i) => {
            let at = b.off[*i] as usize;
            V::X(b.bytes[at..at + b.size[*i] as usize].to_vec())
        }
        v => v.clone(),
    }
}

pub fn finish(t: &Tiff, b: &Built, dirs: &mut [MDir]) {
    for d in dirs.iter_mut() {
        if let crate::tiffw::Node::Dir(s) = &t.nodes[d.node] {
            let mut e: Vec<(u16, V)> = s.entries.iter().map(|(t, v)| (*t, resolve(v, b))).collect();
            e.sort_by_key(|x| x.0);
            d.entries = e;
            d.next = s.next.map(|n| b.off[n]).unwrap_or(0);
        }
    }
}

pub fn m(node: Id, role: Role, kind: &'static str, id: &'static str, table: &'static str, indent: usize) -> MDir {
    MDir {
        node,
        role,
        kind,
        id,
        table,
        indent,
        entries: vec![],
        next: 0,
    }
}

/// A whole tree for a TIFF-like file.
pub fn tree(g: &mut G, ty: Type, o: Order, deep: bool) -> (Tiff, Vec<MDir>) {
    let mut t = Tiff::new(o);
    header(&mut t, ty, g);
    let mut dirs = vec![];
    let n = if ty == Type::Cr2 { g.ur(1, 5) } else { 1 + g.idx(4) };
    let n = if g.chance(1, 60) { g.ur(5, 20) } else { n };
    let chain: Vec<Id> = (0..n).map(|_| t.dir()).collect();
    t.first(chain[0]);
    let big = if g.chance(1, 12) { 60 } else { 9 };
    for (i, id) in chain.iter().enumerate() {
        if i + 1 < n {
            t.next(*id, chain[i + 1]);
        }
        let (kind, did) = chain_kind(ty, i);
        let table = if ty == Type::Rw2 && i == 0 { "RAW_PANASONIC_TAG_NAMES" } else { "EXIF_TAG_NAMES" };
        dirs.push(m(*id, Role::Chain(i), kind, did, table, 1));
        let low = if i == 0 { 1 } else { 0 };
        // Only some directories may be empty
        let low = if g.chance(1, 8) { 0 } else { low.max(1) };
        let e = some(g, low, big, table, &AVOID);
        t.d(*id).entries.extend(e);
        if !deep {
            continue;
        }
        if g.chance(if i == 0 { 2 } else { 1 }, 3) {
            let x = t.dir();
            t.add(*id, 0x8769, V::Ptr(vec![x]));
            let e = some(g, 0, big, "EXIF_TAG_NAMES", &AVOID);
            t.d(x).entries.extend(e);
            dirs.push(m(x, Role::Exif(i), "Exif", "Exif", "EXIF_TAG_NAMES", 2));
            if g.chance(2, 3) {
                let k = note(g, ty, o);
                let avoid: Vec<u16> = k.first.iter().map(|f| f.0).chain(AVOID).collect();
                let e = some(g, 1, big, k.table, &avoid);
                let nid = add_note(&mut t, &k, e);
                t.add(x, 0x927c, V::Note(nid));
                dirs.push(m(nid, Role::Note(i), "MakerNote", k.id, k.table, 3));
            }
        }
        if g.chance(1, 3) {
            let x = t.dir();
            t.add(*id, 0x8825, V::Ptr(vec![x]));
            let e = some(g, 0, 6, "GPSINFO_TAG_NAMES", &AVOID);
            t.d(x).entries.extend(e);
            dirs.push(m(x, Role::Gps(i), "GpsInfo", "GPSInfo", "GPSINFO_TAG_NAMES", 2));
        }
        if g.chance(1, 3) {
            let k = if g.chance(1, 40) { g.ur(4, 20) } else { g.ur(1, 3) };
            let subs: Vec<Id> = (0..k).map(|_| t.dir()).collect();
            for x in &subs {
                let e = some(g, 0, 6, "EXIF_TAG_NAMES", &AVOID);
                t.d(*x).entries.extend(e);
                dirs.push(m(*x, Role::Sub(i), "SubIfd", "", "EXIF_TAG_NAMES", 2));
            }
            let subs = crate::tiffw::holes(g, subs);
            t.add(*id, 0x014a, V::Ptr(subs));
        }
    }
    (t, dirs)
}

/// The JPEG file a Panasonic file has, and what its EXIF data holds.
fn panasonic_jpeg(g: &mut G) -> (Vec<u8>, Vec<MDir>) {
    if g.chance(1, 6) {
        return (wraps::jpeg(64, 48, None, &[4; 9]), vec![]);
    }
    let o = meta::order(g);
    let (mut t, mut dirs) = tree(g, Type::Rw2, o, true);
    t.header[..2].copy_from_slice(if o == Order::Le { b"II" } else { b"MM" });
    t.header[2..4].copy_from_slice(&o.u16(42));
    t.trail = 32;
    let b = t.build(g);
    finish(&t, &b, &mut dirs);
    (wraps::jpeg(64, 48, Some(&b.bytes), &[4; 9]), dirs)
}

/// A file of one of the types, with a tree of directories in it.
pub fn doc(g: &mut G, ty: Type) -> Doc {
    let mut o = meta::order(g);
    if matches!(ty, Type::Rw2) {
        o = Order::Le;
    }
    if ty == Type::Cr3 {
        return cr3(g);
    }
    let (mut t, mut dirs) = tree(g, ty, o, true);
    let mut inner = None;
    if ty == Type::Rw2 && g.bool() {
        let (f, d) = panasonic_jpeg(g);
        let b = t.blob(f);
        t.add(dirs[0].node, 0x2e, V::Note(b));
        inner = Some(d);
    }
    t.pad = g.pickv(&[0, 0xff, 0x41]);
    t.roomy = !matches!(ty, Type::Jpeg | Type::Raf);
    t.trail = 32;
    let b = t.build(g);
    finish(&t, &b, &mut dirs);
    let mut shift = 0;
    let bytes = match ty {
        Type::Jpeg => {
            shift = 12;
            wraps::jpeg(16, 8, Some(&b.bytes), &[1, 2, 3])
        }
        Type::Raf => {
            let mut r = wraps::Raf {
                model: "FinePix X100".into(),
                jpeg: wraps::jpeg(320, 240, Some(&b.bytes), &[9; 40]),
                meta: vec![(0x100, wraps::hw(8, 8))],
                cfa: vec![0; 64],
                gaps: [g.ur(0, 8), g.ur(0, 8), g.ur(0, 8), g.ur(0, 8)],
                perm: vec![],
                extra: None,
            };
            r.perm = g.perm(3);
            r.second(g);
            let (f, at) = r.build();
            shift = at[0] + 12;
            f
        }
        Type::Mrw => {
            let prd = wraps::Prd {
                version: *b"27660001",
                w: 4,
                h: 4,
                bits: 12,
                packed: true,
                bayer: 1,
            }
            .bytes(Order::Be);
            let mut blocks: Vec<(&[u8; 3], Vec<u8>)> = vec![(b"PRD", prd), (b"TTW", b.bytes.clone())];
            if g.bool() {
                blocks.push((b"WBG", vec![0; 12]));
            }
            if g.bool() {
                blocks.push((b"PAD", vec![7; 12]));
            }
            let p = g.perm(blocks.len());
            let blocks: Vec<_> = p.iter().map(|i| blocks[*i].clone()).collect();
            let (f, at) = wraps::mrw(Order::Be, &blocks, &[0; 24]);
            for (i, bl) in blocks.iter().enumerate() {
                if bl.0 == b"TTW" {
                    shift = at[i];
                }
            }
            f
        }
        _ => b.bytes.clone(),
    };
    g.input(&bytes);
    Doc {
        ty,
        bytes,
        dirs,
        order: o,
        blocks: false,
        shift,
        spots: b.spots.iter().map(|s| s + shift).collect(),
        inner,
    }
}

fn cr3(g: &mut G) -> Doc {
    let mut dirs = vec![];
    let mut cmt = [None, None, None, None];
    let kinds = [
        ("Main", "Main", "EXIF_TAG_NAMES", Role::Chain(0)),
        ("Exif", "Exif", "EXIF_TAG_NAMES", Role::Exif(0)),
        ("MakerNote", "Exif.Canon", "MNOTE_CANON_TAG_NAMES", Role::Note(0)),
        ("GpsInfo", "GPSInfo", "GPSINFO_TAG_NAMES", Role::Gps(0)),
    ];
    for (i, k) in kinds.iter().enumerate() {
        if i > 0 && g.chance(1, 6) {
            continue;
        }
        let o = meta::order(g);
        let mut t = Tiff::new(o);
        let d = t.dir();
        t.first(d);
        let e = some(g, 0, 9, k.2, &AVOID);
        t.d(d).entries.extend(e);
        t.trail = 8;
        let b = t.build(g);
        let mut v = vec![m(d, k.3, k.0, k.1, k.2, 1)];
        finish(&t, &b, &mut v);
        dirs.extend(v);
        cmt[i] = Some(b.bytes);
    }
    let c = wraps::Cr3 {
        cmt,
        tracks: vec![],
        noise: g.below(4) * g.below(1 << 32),
        ..Default::default()
    };
    let (bytes, at) = c.build();
    g.input(&bytes);
    Doc {
        ty: Type::Cr3,
        bytes,
        dirs,
        order: Order::Le,
        blocks: true,
        shift: 0,
        spots: at.spots,
        inner: None,
    }
}

impl Doc {
    pub fn open(&self) -> libopenraw::Result<RawFileHandle> {
        api::open(&self.bytes, Some(self.ty), Via::Memory)
    }
    pub fn find(&self, r: Role) -> Option<&MDir> {
        self.dirs.iter().find(|d| d.role == r)
    }
    /// The one the file handle returns: Panasonic files have theirs in a preview.
    pub fn of(&self, r: Role) -> Option<&MDir> {
        if self.ty != Type::Rw2 {
            return self.find(r);
        }
        let inner = self.inner.iter().flatten().find(|d| d.role == r);
        match r {
            Role::Exif(_) => inner.or_else(|| self.find(r)),
            Role::Note(_) => inner,
            _ => self.find(r),
        }
    }
    /// What `metadata()` should yield.
    pub fn listing(&self) -> Vec<(String, Value, i16)> {
        let mut out = vec![];
        if self.blocks {
            return out;
        }
        for d in &self.dirs {
            if let Role::Chain(_) = d.role {
                for (tag, v) in &d.entries {
                    out.push((format!("{}.{}", d.ns(), d.name(*tag)), meta::expect(v).unwrap(), v.type_() as i16));
                }
            }
        }
        out
    }
}
