//! Files with raw data, and what their raw image must be.

use libopenraw::tiff::Compression;
use libopenraw::{Bitmap, CfaPattern, DataType, RawImage, Rect, Type};

use crate::cams::{cams, Tid};
use crate::doc;
use crate::gen::{self, G};
use crate::meta;
use crate::run::{self, R};
use crate::tiffw::{holes, s, Base, Built, Id, Order, Tiff, V};

#[derive(Clone, Debug)]
pub struct Desc {
    pub w: u32,
    pub h: u32,
    pub bpc: u16,
    pub dt: DataType,
    pub compr: Compression,
    pub cfa: CfaPattern,
    /// x, y, width, height
    pub active: Option<[u32; 4]>,
    pub crop: Option<[u32; 4]>,
    pub ratio: Option<(u32, u32)>,
    pub out: (u32, u32),
    pub neutral: Option<Vec<f64>>,
    pub xy: Option<(f64, f64)>,
    pub blacks: [u16; 4],
    pub whites: [u16; 4],
    pub photom: u32,
    pub lin: Option<Vec<u16>>,
}

pub fn white_of(bpc: u16) -> [u16; 4] {
    [1_u32.checked_shl(bpc as u32).map_or(u16::MAX, |v| (v - 1) as u16); 4]
}

impl Desc {
    pub fn new(w: u32, h: u32, bpc: u16) -> Desc {
        Desc {
            w,
            h,
            bpc,
            dt: DataType::Raw,
            compr: Compression::None,
            cfa: CfaPattern::Empty,
            active: None,
            crop: None,
            ratio: None,
            out: (w, h),
            neutral: None,
            xy: None,
            blacks: [0; 4],
            whites: white_of(bpc),
            photom: 32803,
            lin: None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    S16(Vec<u16>),
    /// These samples, then possibly others that are not part of the image
    First(Vec<u16>),
    S8(Vec<u8>),
    Tiles((u32, u32), Vec<Vec<u8>>),
}

#[derive(Clone, Debug)]
pub struct Raw {
    pub ty: Type,
    pub bytes: Vec<u8>,
    pub skip: (Desc, Body),
    pub full: (Desc, Body),
    pub spots: Vec<usize>,
    pub style: &'static str,
    pub model: Tid,
}

pub fn near(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}

fn rect(r: Option<&Rect>) -> Option<[u32; 4]> {
    r.map(|r| [r.x, r.y, r.width, r.height])
}

pub fn compare_desc(r: &RawImage, d: &Desc, what: &str) -> R {
    ensure_eq!((r.width(), r.height()), (d.w, d.h), "dimensions", "{what}");
    ensure_eq!(r.bpc(), d.bpc, "bpc", "{what}");
    ensure_eq!(format!("{:?}", r.data_type()), format!("{:?}", d.dt), "data-type", "{what}");
    if d.dt == DataType::CompressedRaw {
        ensure_eq!(format!("{:?}", r.compression()), format!("{:?}", d.compr), "compression", "{what}");
    }
    ensure_eq!(*r.mosaic_pattern(), d.cfa, "mosaic", "{what}");
    ensure_eq!(rect(r.active_area()), d.active, "active-area", "{what}");
    ensure_eq!(rect(r.user_crop()), d.crop, "user-crop", "{what}");
    ensure_eq!(r.user_aspect_ratio().map(|a| (a.0, a.1)), d.ratio, "aspect-ratio", "{what}");
    let o = r.output_size();
    ensure_eq!((o.width, o.height), d.out, "output-size", "{what}");
    let n = r.as_shot_neutral().map(|v| v.to_vec());
    let same = match (&n, &d.neutral) {
        (None, None) => true,
        (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| near(*a, *b)),
        _ => false,
    };
    ensure!(same, "as-shot-neutral", "{what}: {n:?} want {:?}", d.neutral);
    let xy = r.as_shot_white_xy();
    let same = match (&xy, &d.xy) {
        (None, None) => true,
        (Some(a), Some(b)) => near(a.0, b.0) && near(a.1, b.1),
        _ => false,
    };
    ensure!(same, "as-shot-white-xy", "{what}: {xy:?} want {:?}", d.xy);
    ensure_eq!(*r.blacks(), d.blacks, "blacks", "{what}");
    ensure_eq!(*r.whites(), d.whites, "whites", "{what}");
    ensure_eq!(r.photometric_interpretation() as u32, d.photom, "photometric", "{what}");
    ensure_eq!(r.linearization_table(), d.lin.as_ref(), "linearization-table", "{what}");
    Ok(())
}

pub fn compare_body(r: &RawImage, b: &Body, what: &str) -> R {
    match b {
        Body::S16(x) => {
            let d = match r.data16() {
                Some(d) => d,
                None => return run::fail("samples", format!("{what}: no 16 bits data, {:?} {:?}", r.data_type(), r.compression())),
            };
            ensure!(r.data8().is_none() && r.tile_data().is_none(), "samples-kind", "{what}");
            ensure_eq!(d.len(), x.len(), "samples-count", "{what}");
            if d != &x[..] {
                let i = d.iter().zip(x).position(|(a, b)| a != b).unwrap();
                return run::fail("samples", format!("{what}: sample {i} is {:#x} not {:#x} ({}x{})", d[i], x[i], r.width(), r.height()));
            }
            ensure_eq!(r.data_size(), x.len() * 2, "data-size", "{what}");
        }
        Body::First(x) => {
            let d = r.data16().unwrap_or(&[]);
            ensure!(d.len() >= x.len(), "samples-count", "{what}: {} of {}", d.len(), x.len());
            if let Some(i) = d.iter().zip(x).position(|(a, b)| a != b) {
                return run::fail("samples", format!("{what}: sample {i} is {:#x} not {:#x} ({}x{})", d[i], x[i], r.width(), r.height()));
            }
        }
        Body::S8(x) => {
            let d = match r.data8() {
                Some(d) => d,
                None => return run::fail("payload", format!("{what}: no 8 bits data, {:?} {:?}", r.data_type(), r.compression())),
            };
            ensure_eq!(d.len(), x.len(), "payload-size", "{what}");
            ensure!(d == &x[..], "payload", "{what}");
            ensure_eq!(r.data_size(), x.len(), "data-size", "{what}");
        }
        Body::Tiles(size, x) => {
            ensure_eq!(r.tile_size(), Some(*size), "tile-size", "{what}");
            let d = r.tile_data().unwrap_or(&[]);
            ensure_eq!(d.len(), x.len(), "tile-count", "{what}");
            ensure!(d == &x[..], "tiles", "{what}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- packing

/// Rows of samples as bits, the most significant first, each row in whole bytes.
pub fn pack_msb(px: &[u16], w: usize, bits: u32) -> Vec<u8> {
    let mut out = vec![];
    for row in px.chunks(w) {
        let mut acc = 0_u64;
        let mut n = 0;
        for v in row {
            acc = (acc << bits) | *v as u64;
            n += bits;
            while n >= 8 {
                out.push((acc >> (n - 8)) as u8);
                n -= 8;
            }
        }
        if n > 0 {
            out.push((acc << (8 - n)) as u8);
        }
    }
    out
}

/// Rows of samples as bits, the least significant first, each row in whole bytes.
pub fn pack_lsb(px: &[u16], w: usize, bits: u32) -> Vec<u8> {
    let mut out = vec![];
    for row in px.chunks(w) {
        let mut acc = 0_u64;
        let mut n = 0;
        for v in row {
            acc |= (*v as u64) << n;
            n += bits;
            while n >= 8 {
                out.push(acc as u8);
                acc >>= 8;
                n -= 8;
            }
        }
        if n > 0 {
            out.push(acc as u8);
        }
    }
    out
}

/// One byte after each fifteen of a row.
pub fn padded(rows: &[u8], row: usize, g: &mut G) -> Vec<u8> {
    let b = g.u8();
    let mut out = vec![];
    for r in rows.chunks(row) {
        for c in r.chunks(15) {
            out.extend_from_slice(c);
            if c.len() == 15 {
                out.push(b);
            }
        }
    }
    out
}

pub fn bytes16(px: &[u16], o: Order) -> Vec<u8> {
    px.iter().flat_map(|v| o.u16(*v)).collect()
}

// ---------------------------------------------------------------- payloads

/// What the raw area of a TIFF-like file holds.
#[derive(Clone, Debug)]
pub struct Pay {
    pub w: u32,
    pub h: u32,
    pub bpc: u16,
    /// Value of the Compression tag, if there is one
    pub comp: Option<u16>,
    /// Strips, or tiles
    pub chunks: Vec<Vec<u8>>,
    pub tile: Option<(u32, u32)>,
    /// As described and returned without and with decompression
    pub skip: Body,
    pub full: Body,
    pub full_w: u32,
    pub full_h: u32,
    pub full_bpc: u16,
    /// Of both results
    pub compr: [Compression; 2],
    pub style: &'static str,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// Not compressed
    Plain,
    /// Compressed in a way that is decoded
    Codec,
    /// Anything
    Any,
}

pub fn size(g: &mut G) -> (u32, u32) {
    if let Some(s) = g.large(500) {
        return s;
    }
    match g.below(6) {
        0 => (g.u32r(1, 4), g.u32r(1, 4)),
        1 => (g.u32r(1, 80), 1),
        2 => (1, g.u32r(1, 40)),
        3 => (g.pickv(&[8, 10, 16, 20, 30, 32, 40, 64]), g.u32r(1, 12)),
        _ => (g.u32r(1, 70), g.u32r(1, 24)),
    }
}

/// Splits rows in strips.
pub fn strips(g: &mut G, data: Vec<u8>, row: usize) -> Vec<Vec<u8>> {
    let rows = if row == 0 { 0 } else { data.len() / row };
    if rows < 2 || g.bool() {
        return vec![data];
    }
    if g.chance(1, 3) {
        // Of any length
        let mut out = vec![];
        let mut rest = &data[..];
        while out.len() < 4 && rest.len() > 1 {
            let n = g.ur(1, rest.len() - 1);
            out.push(rest[..n].to_vec());
            rest = &rest[n..];
        }
        out.push(rest.to_vec());
        return out;
    }
    let k = g.ur(1, rows);
    data.chunks(k * row).map(|c| c.to_vec()).collect()
}

pub fn compression(v: Option<u16>) -> Compression {
    v.map(|v| Compression::from(v as u32)).unwrap_or(Compression::None)
}

/// How one run of rows is stored
pub fn encode(g: &mut G, style: &str, px: &[u16], w: usize, o: Order) -> Vec<u8> {
    let _ = &g;
    match style {
        "8" => px.iter().map(|v| *v as u8).collect(),
        "16" | "12in16" | "14in16" => bytes16(px, o),
        "10" => pack_msb(px, w, 10),
        "14" => pack_msb(px, w, 14),
        "12" if o == Order::Le => pack_lsb(px, w, 12),
        "12" | "12pentax" => pack_msb(px, w, 12),
        "12nikon" => {
            let d = pack_msb(px, w, 12);
            padded(&d, (w * 12 + 7) / 8, g)
        }
        _ => unreachable!("{style}"),
    }
}

/// Uncompressed samples in one of the layouts a TIFF directory describes.
pub fn plain(g: &mut G, styles: &[&'static str], o: Order, tiles: bool) -> Pay {
    let cutting = CUT.with(|c| c.get());
    let mut style = g.pickv(styles);
    if cutting && !["8", "10", "12", "14", "16"].contains(&style) {
        // Told apart by their size
        style = "16";
    }
    let tiles = tiles && !cutting;
    let (mut w, h) = size(g);
    // 12 and 14 bits samples are in whole words if the size of the data says so: not so
    // narrow that they would be.
    let least = if ["12", "14", "12pentax", "12nikon"].contains(&style) { 4 } else { 1 };
    w = w.max(least);
    let bits: u32 = match style {
        "8" => 8,
        "10" => 10,
        "14" | "14in16" => 14,
        "16" => 16,
        _ => 12,
    };
    let px = gen::image(g, (w * h) as usize, w as usize, bits);
    let comp = match style {
        "12nikon" => Some(32769),
        "12pentax" => Some(32773),
        _ => *g.pick(&[None, Some(1)]),
    };
    let tile = if tiles && g.chance(1, 4) {
        // Not too many of them
        let (a, b) = (w / 16, h / 16);
        Some((a + g.u32r(least, 20), b + g.u32r(1, 12)))
    } else {
        None
    };
    let chunks = if let Some((tw, th)) = tile {
        let mut out = vec![];
        for ty in 0..(h + th - 1) / th {
            for tx in 0..(w + tw - 1) / tw {
                let fill = g.below(1 << bits) as u16;
                let mut t = vec![fill; (tw * th) as usize];
                for y in 0..th {
                    for x in 0..tw {
                        let (a, b) = (tx * tw + x, ty * th + y);
                        if a < w && b < h {
                            t[(y * tw + x) as usize] = px[(b * w + a) as usize];
                        }
                    }
                }
                out.push(encode(g, style, &t, tw as usize, o));
            }
        }
        out
    } else {
        let d = encode(g, style, &px, w as usize, o);
        let row = d.len() / h as usize;
        strips(g, d, row)
    };
    Pay {
        w,
        h,
        bpc: bits as u16,
        comp,
        chunks,
        tile,
        skip: Body::S16(px.clone()),
        full: Body::S16(px),
        full_w: w,
        full_h: h,
        full_bpc: bits as u16,
        compr: [Compression::None; 2],
        style,
    }
}

/// Compressed in a way that is not decoded.
pub fn opaque(g: &mut G, comps: &[u16], tiles: bool) -> Pay {
    let (w, h) = size(g);
    let comp = g.pickv(comps);
    let bpc = g.pickv(&[8, 10, 12, 14, 16]);
    let n = g.ur(1, 4);
    let chunks: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let n = g.ur(1, 90);
            g.noise(n)
        })
        .collect();
    let tile = if tiles && g.chance(1, 3) { Some((g.u32r(1, 99), g.u32r(1, 99))) } else { None };
    let body = match tile {
        Some(t) => Body::Tiles(t, chunks.clone()),
        None => Body::S8(chunks.concat()),
    };
    Pay {
        w,
        h,
        bpc,
        comp: Some(comp),
        chunks,
        tile,
        skip: body.clone(),
        full: body,
        full_w: w,
        full_h: h,
        full_bpc: bpc,
        compr: [compression(Some(comp)); 2],
        style: "opaque",
    }
}

/// One chunk of compressed data that decodes to these samples.
pub fn coded(w: u32, h: u32, bpc: u16, comp: u16, chunk: Vec<u8>, px: Vec<u16>, style: &'static str) -> Pay {
    Pay {
        w,
        h,
        bpc,
        comp: Some(comp),
        chunks: vec![chunk.clone()],
        tile: None,
        skip: Body::S8(chunk),
        full: Body::S16(px),
        full_w: w,
        full_h: h,
        full_bpc: bpc,
        compr: [compression(Some(comp)), Compression::None],
        style,
    }
}

// ---------------------------------------------------------------- TIFF

/// An integer in one of the types that hold it.
pub fn uint(g: &mut G, v: &[u32]) -> V {
    let small = v.iter().all(|v| *v <= 0xffff);
    match g.below(5) {
        0 | 1 if small => V::U16(v.iter().map(|v| *v as u16).collect()),
        2 if small => {
            let k = g.u32r(1, 100);
            V::R(v.iter().map(|v| (v * k, k)).collect())
        }
        _ => V::U32(v.to_vec()),
    }
}

pub fn num(g: &mut G, v: u32) -> V {
    uint(g, &[v])
}

/// A level as most files have it: one value, or four.
pub fn levels(g: &mut G) -> (V, [u16; 4]) {
    if g.bool() {
        let v = g.u16();
        (num(g, v as u32), [v; 4])
    } else {
        let v = [g.u16(), g.u16(), g.u16(), g.u16()];
        (uint(g, &v.map(|v| v as u32)), v)
    }
}

pub const BAYER: [(CfaPattern, [u8; 4]); 4] = [
    (CfaPattern::Rggb, [0, 1, 1, 2]),
    (CfaPattern::Gbrg, [1, 2, 0, 1]),
    (CfaPattern::Bggr, [2, 1, 1, 0]),
    (CfaPattern::Grbg, [1, 0, 2, 1]),
];

pub fn xtrans(g: &mut G) -> (CfaPattern, Vec<u8>) {
    let b: Vec<u8> = (0..36).map(|_| g.below(3) as u8).collect();
    (CfaPattern::try_from(&b[..]).unwrap(), b)
}

/// The mosaic pattern, somewhere it is looked for.
pub fn cfa(g: &mut G, t: &mut Tiff, raw: Id, exif: Option<Id>) -> CfaPattern {
    let one = |g: &mut G, t: &mut Tiff, d: Id| -> Option<CfaPattern> {
        let ep = |g: &mut G| {
            let (p, b) = g.pick(&BAYER).clone();
            if g.chance(1, 5) {
                xtrans(g)
            } else {
                (p, b.to_vec())
            }
        };
        let style = g.below(4);
        let mut r = None;
        if style == 0 || style == 2 {
            let (p, b) = g.pick(&BAYER).clone();
            let mut v = vec![2, 2, 2, 2];
            if g.bool() {
                v = vec![0, 2, 0, 2];
            }
            v.extend_from_slice(&b);
            t.add(d, 0xa302, V::X(v));
            r = Some(p);
        }
        if style == 1 || style == 2 {
            let (p, b) = ep(g);
            t.add(d, 0x828d, V::U16(vec![if b.len() == 4 { 2 } else { 6 }; 2]));
            t.add(d, 0x828e, V::U8(b));
            r = Some(p);
        }
        r
    };
    let in_raw = if g.chance(2, 3) { one(g, t, raw) } else { None };
    let in_exif = match exif {
        Some(x) if x != raw && g.chance(1, 2) => one(g, t, x),
        _ => None,
    };
    in_raw.or(in_exif).unwrap_or_default()
}

pub fn photom(g: &mut G, t: &mut Tiff, d: Id) -> u32 {
    match g.below(6) {
        0 => 32803,
        1 => {
            t.add(d, 0x106, V::U16(vec![34892]));
            34892
        }
        2 => {
            let v = g.pickv(&[1, 2, 6, 4]);
            t.add(d, 0x106, num(g, v));
            v
        }
        3 => {
            // Not a known value
            let v = g.pickv(&[77, 32800]);
            t.add(d, 0x106, num(g, v));
            32803
        }
        _ => {
            t.add(d, 0x106, V::U16(vec![32803]));
            32803
        }
    }
}

/// Puts the payload in the directory.
pub fn put(g: &mut G, t: &mut Tiff, d: Id, p: &Pay) {
    let v = num(g, p.w);
    t.add(d, 0x100, v);
    let v = num(g, p.h);
    t.add(d, 0x101, v);
    t.add(d, 0x102, V::U16(vec![p.bpc]));
    if let Some(c) = p.comp {
        t.add(d, 0x103, V::U16(vec![c]));
    }
    let mut chunks = p.chunks.clone();
    if CUT.with(|c| c.get()) {
        let l = chunks.last_mut().unwrap();
        let n = g.idx(l.len());
        l.truncate(n);
    }
    let blobs: Vec<Id> = chunks.iter().map(|c| t.blob(c.clone())).collect();
    let (a, b) = if let Some((w, h)) = p.tile {
        let v = num(g, w);
        t.add(d, 0x142, v);
        let v = num(g, h);
        t.add(d, 0x143, v);
        (0x144, 0x145)
    } else {
        t.add(d, 0x115, V::U16(vec![1]));
        if g.bool() && blobs.len() > 1 {
            t.runs.push(blobs.clone());
        }
        (0x111, 0x117)
    };
    t.add(d, a, V::Ptr(blobs.clone()));
    let v = if g.bool() && chunks.iter().all(|c| c.len() < 65536) {
        V::U16(chunks.iter().map(|c| c.len() as u16).collect())
    } else {
        V::Len(blobs)
    };
    t.add(d, b, v);
}

pub struct Tree {
    pub t: Tiff,
    pub o: Order,
    pub main: Id,
    pub raw: Id,
    pub exif: Option<Id>,
    pub note: Option<Id>,
}

pub fn note_of(g: &mut G, ty: Type, o: Order) -> doc::Note {
    let mut n = doc::note(g, Type::Arw, o);
    let mut set = |p: &[u8], b: Base, id| {
        n.prefix = p.to_vec();
        n.base = b;
        n.id = id;
    };
    match ty {
        Type::Nef => return doc::note(g, ty, o),
        Type::Erf => set(b"EPSON\0\x01\0", Base::File, ""),
        Type::Pef if g.bool() => set(b"AOC\0MM", Base::File, ""),
        Type::Pef => set(b"PENTAX \0MM", Base::Node(0), ""),
        Type::Orf => match g.below(3) {
            0 => set(b"OLYMPUS\0II\x03\0", Base::Node(0), ""),
            1 => set(b"OM SYSTEM\0\0\0II\x04\0", Base::Node(0), ""),
            _ => set(b"OLYMP\0\x01\0", Base::File, ""),
        },
        Type::Cr2 => set(b"", Base::File, ""),
        Type::Rw2 => set(b"Panasonic\0\0\0", Base::File, ""),
        _ => {}
    }
    n
}

/// The directories of a file of that type, with the model in the first.
pub fn frame(g: &mut G, ty: Type, o: Order, model: &str, with_note: bool) -> Tree {
    let mut t = Tiff::new(o);
    doc::header(&mut t, ty, g);
    t.trail = 16;
    let main = t.dir();
    t.first(main);
    t.add(main, 0x110, s(model));
    if g.bool() {
        t.add(main, 0x10f, s("Make"));
    }
    colours(g, &mut t, main);
    let sub = matches!(ty, Type::Dng | Type::Nef | Type::Erf | Type::Arw);
    let mut raw = main;
    if sub && g.chance(3, 4) {
        raw = t.dir();
        let mut subs = vec![raw];
        t.add(raw, 0xfe, V::U32(vec![0]));
        for _ in 0..g.below(3) {
            // Before or after, something that isn't the raw image
            let d = t.dir();
            let v = g.pickv(&[1, 4, 0x10001]);
            if g.chance(4, 5) {
                t.add(d, 0xfe, V::U32(vec![v]));
            }
            t.add(d, 0x100, V::U16(vec![1]));
            t.add(d, 0x101, V::U16(vec![1]));
            let at = g.idx(subs.len() + 1);
            subs.insert(at, d);
        }
        if g.chance(1, 3) {
            // Another one, later
            let d = t.dir();
            t.add(d, 0xfe, V::U32(vec![0]));
            t.add(d, 0x100, V::U16(vec![9]));
            subs.push(d);
        }
        if g.bool() {
            t.add(main, 0xfe, V::U32(vec![1]));
            t.add(main, 0x100, V::U16(vec![3]));
            t.add(main, 0x101, V::U16(vec![3]));
        }
        let subs = holes(g, subs);
        t.add(main, 0x14a, V::Ptr(subs));
    } else if sub {
        t.add(main, 0xfe, V::U32(vec![0]));
    }
    if ty == Type::Cr2 {
        let mut last = main;
        for _ in 0..3 {
            let d = t.dir();
            t.next(last, d);
            last = d;
        }
        raw = last;
        for (i, d) in (main..=last).enumerate() {
            if i > 0 && d != raw {
                let _ = d;
            }
        }
    }
    let exif = if with_note || g.bool() {
        let x = t.dir();
        t.add(main, 0x8769, V::Ptr(vec![x]));
        t.add(x, 0x9000, V::X(b"0230".to_vec()));
        Some(x)
    } else {
        None
    };
    let note = if with_note {
        let n = note_of(g, ty, o);
        let id = doc::add_note(&mut t, &n, vec![]);
        t.add(exif.unwrap(), 0x927c, V::Note(id));
        Some(id)
    } else {
        None
    };
    Tree {
        t,
        o,
        main,
        raw,
        exif,
        note,
    }
}

impl Tree {
    pub fn build(&mut self, g: &mut G) -> Built {
        self.t.pad = g.pickv(&[0, 0xff]);
        self.t.roomy = true;
        // An empty maker note is no directory.
        if let Some(n) = self.note {
            if self.t.d(n).entries.is_empty() {
                self.t.add(n, 0xfe00, V::U16(vec![1]));
            }
        }
        self.t.build(g)
    }
}

/// A rectangle, most often inside
pub fn area(g: &mut G, w: u32, h: u32) -> [u32; 4] {
    match g.below(4) {
        0 => [g.u16() as u32, g.u16() as u32, g.u16() as u32, g.u16() as u32],
        _ => {
            let x = g.u32r(0, w.max(1) - 1);
            let y = g.u32r(0, h.max(1) - 1);
            [x, y, g.u32r(0, w - x.min(w)), g.u32r(0, h - y.min(h))]
        }
    }
}

/// A camera, known or not
pub fn camera(g: &mut G, fmt: &'static str) -> (String, Tid, bool) {
    let m = cams().models(fmt);
    let (s, t) = g.pickv(&m);
    if g.chance(1, 4) {
        let mut s = s.to_string();
        match g.below(6) {
            0 => {
                s.pop();
            }
            1 => s.push(g.pickv(&['I', ' ', '0', 'x'])),
            2 => s = if g.bool() { s.to_lowercase() } else { s.to_uppercase() },
            3 => s = s[1..].to_string(),
            4 => {
                // Somebody else's
                let f = g.pickv(&["canon", "nikon", "sony", "dng", "pentax", "olympus"]);
                s = g.pickv(&cams().models(f)).0.to_string();
            }
            _ => s = format!("No such {}", g.below(100)),
        }
        s.truncate(31);
        return match m.iter().find(|x| x.0 == s) {
            Some((_, t)) => (s, *t, true),
            None => (s, (0, 0), false),
        };
    }
    (s.to_string(), t, true)
}

/// What the first directory says of colours.
#[derive(Clone, Default, Debug)]
pub struct Colours {
    pub on: bool,
    pub matrices: [Option<Vec<(i32, i32)>>; 2],
    pub lights: [Option<u32>; 2],
}

thread_local! {
    pub static COLOURS: std::cell::RefCell<Colours> = Default::default();
}

/// A file that has colours of its own, half of the time
pub fn coloured(g: &mut G, ty: Type, kind: Kind) -> Raw {
    let on = g.bool();
    COLOURS.with(|c| *c.borrow_mut() = Colours { on, ..Default::default() });
    let r = file(g, ty, kind);
    COLOURS.with(|c| c.borrow_mut().on = false);
    r
}

/// Adds the colours to the first directory, if asked to.
pub fn colours(g: &mut G, t: &mut Tiff, main: Id) {
    COLOURS.with(|c| {
        let mut c = c.borrow_mut();
        if !c.on {
            return;
        }
        for k in 0..2 {
            c.matrices[k] = None;
            c.lights[k] = None;
            if g.bool() {
                let n = g.pickv(&[9, 9, 9, 12, 3, 1]);
                let v: Vec<(i32, i32)> = (0..n).map(|_| (g.u32() as i32, g.pickv(&[10000, 1, 65536, -3, 7]))).collect();
                t.add(main, 0xc621 + k as u16, V::SR(v.clone()));
                c.matrices[k] = Some(v);
            }
            if g.bool() {
                let v = if g.chance(3, 4) { g.pickv(&[0, 1, 4, 9, 17, 19, 20, 21, 23, 24, 255]) } else { g.u16() as u32 };
                let e = if g.bool() { V::U16(vec![v as u16]) } else { V::U32(vec![v]) };
                t.add(main, 0xc65a + k as u16, e);
                c.lights[k] = Some(v);
            }
            // Of no account
            t.add(main, 0xc623 + k as u16, V::SR(vec![(7, 1); 9]));
        }
    });
}

/// The name of the camera table of that type
pub fn table_of(ty: Type) -> &'static str {
    match ty {
        Type::Arw => "sony",
        Type::Cr2 | Type::Cr3 | Type::Crw => "canon",
        Type::Dng => "dng",
        Type::Erf => "epson",
        Type::Mrw => "minolta",
        Type::Nef => "nikon",
        Type::Orf => "olympus",
        Type::Pef => "pentax",
        Type::Raf => "fujifilm",
        Type::Rw2 => "panasonic",
        _ => "",
    }
}

pub fn builtin_levels(ty: Type, id: Tid) -> Option<(u16, u16)> {
    cams().matrix(table_of(ty), id).map(|m| (m.black, m.white))
}

const TIFF_PLAIN: [&str; 8] = ["8", "10", "12", "14", "16", "12in16", "14in16", "12nikon"];

pub fn rational(g: &mut G) -> (u32, u32) {
    (g.u32r(1, 70000), g.u32r(1, 70000))
}

pub fn fl(r: &[(u32, u32)]) -> Vec<f64> {
    r.iter().map(|r| r.0 as f64 / r.1 as f64).collect()
}

/// A white balance as a neutral of three
pub fn neutral3(v: [f64; 3]) -> Option<Vec<f64>> {
    Some(vec![v[0], v[1], v[2], f64::NAN])
}

pub fn finish(ty: Type, b: Built, p: Pay, skip: Desc, full: Desc, model: Tid) -> Raw {
    Raw {
        ty,
        bytes: b.bytes,
        skip: (skip, p.skip),
        full: (full, p.full),
        spots: b.spots,
        style: p.style,
        model,
    }
}

/// Descriptions of both results from the payload alone.
pub fn both(p: &Pay) -> (Desc, Desc) {
    let kind = |b: &Body| match b {
        Body::S16(_) | Body::First(_) => DataType::Raw,
        _ => DataType::CompressedRaw,
    };
    let mut a = Desc::new(p.w, p.h, p.bpc);
    a.dt = kind(&p.skip);
    a.compr = p.compr[0];
    let mut b = Desc::new(p.full_w, p.full_h, p.full_bpc);
    b.dt = kind(&p.full);
    b.compr = p.compr[1];
    // Set when the data is loaded
    b.whites = a.whites;
    (a, b)
}

fn dng(g: &mut G, kind: Kind) -> Raw {
    let o = meta::order(g);
    let p = match kind {
        Kind::Codec => crate::c09::dng_pay(g),
        Kind::Any if g.chance(1, 3) => crate::c09::dng_pay(g),
        Kind::Any if g.chance(1, 3) => opaque(g, &[8, 34892, 5, 65535], true),
        _ => plain(g, &TIFF_PLAIN, o, true),
    };
    let (model, id, known) = camera(g, "dng");
    let note = g.chance(1, 4);
    let mut f = frame(g, Type::Dng, o, &model, note);
    let (t, raw, main) = (&mut f.t, f.raw, f.main);
    t.add(main, 0xc612, V::U8(vec![1, 4, 0, 0]));
    put(g, t, raw, &p);
    let mosaic = cfa(g, t, raw, f.exif);
    let ph = photom(g, t, raw);
    let (mut a, mut b) = both(&p);
    let mut on = |f: &mut dyn FnMut(&mut Desc)| {
        f(&mut a);
        f(&mut b);
    };
    on(&mut |d| {
        d.cfa = mosaic.clone();
        d.photom = ph;
    });
    let (w, h) = (p.w, p.h);
    let mut active = None;
    if g.chance(2, 3) {
        let r = area(g, w, h);
        let v = [r[1], r[0], r[1] + r[3], r[0] + r[2]];
        let v = uint(g, &v);
        t.add(raw, 0xc68d, v);
        active = Some(r);
    }
    // Without one: all of it. The area is that before decompression.
    let act = active.unwrap_or([0, 0, w, h]);
    on(&mut |d| d.active = Some(act));
    if g.chance(2, 3) {
        let r = area(g, w, h);
        if g.chance(5, 6) {
            let v = uint(g, &r[..2]);
            t.add(raw, 0xc61f, v);
            let v = uint(g, &r[2..]);
            t.add(raw, 0xc620, v);
            on(&mut |d| d.crop = Some([r[0] + act[0], r[1] + act[1], r[2], r[3]]));
        } else {
            // Only one of them
            let k = g.idx(2);
            let v = uint(g, &r[..2]);
            t.add(raw, [0xc61f, 0xc620][k], v);
        }
    }
    if g.bool() {
        let (v, x) = levels(g);
        t.add(raw, 0xc61a, v);
        on(&mut |d| d.blacks = x);
    }
    if g.bool() {
        let (v, x) = levels(g);
        t.add(raw, 0xc61d, v);
        on(&mut |d| d.whites = x);
    }
    if g.chance(1, 4) {
        let n = g.ur(1, 40);
        let l: Vec<u16> = (0..n).map(|_| g.u16()).collect();
        t.add(raw, 0xc618, V::U16(l.clone()));
        on(&mut |d| d.lin = Some(l.clone()));
    }
    match g.below(4) {
        0 => {}
        1 => {
            let v = [rational(g), rational(g)];
            t.add(main, 0xc629, V::R(v.to_vec()));
            let f = fl(&v);
            on(&mut |d| d.xy = Some((f[0], f[1])));
        }
        k => {
            let n = if g.chance(1, 5) { 4 } else { 3 };
            let v: Vec<(u32, u32)> = (0..n).map(|_| rational(g)).collect();
            t.add(main, 0xc628, V::R(v.clone()));
            if k == 3 {
                let v = [rational(g), rational(g)];
                t.add(main, 0xc629, V::R(v.to_vec()));
            }
            let mut f = fl(&v);
            f.resize(4, f64::NAN);
            on(&mut |d| d.neutral = Some(f.clone()));
        }
    }
    let built = f.build(g);
    let id = if known { id } else { (13, 1) };
    finish(Type::Dng, built, p, a, b, id)
}

fn erf(g: &mut G, _kind: Kind) -> Raw {
    let o = meta::order(g);
    let p = if _kind == Kind::Any && g.chance(1, 4) {
        opaque(g, &[7, 34713, 65535], true)
    } else {
        plain(g, &TIFF_PLAIN, o, false)
    };
    let (model, id, known) = camera(g, "epson");
    let note = g.chance(4, 5);
    let mut f = frame(g, Type::Erf, o, &model, note);
    put(g, &mut f.t, f.raw, &p);
    let mosaic = cfa(g, &mut f.t, f.raw, f.exif);
    let ph = photom(g, &mut f.t, f.raw);
    let (mut a, _) = both(&p);
    a.cfa = mosaic;
    a.photom = ph;
    if let Some(n) = f.note {
        if g.chance(3, 4) {
            let r = area(g, p.w, p.h);
            let v: Vec<u8> = r.iter().flat_map(|v| o.u16(*v as u16)).collect();
            f.t.add(n, 0x400, V::X(v));
            a.active = Some(r);
        }
        if g.bool() {
            let (v, x) = levels(g);
            f.t.add(n, 0x401, v);
            a.blacks = x;
        }
        if g.bool() {
            let v: Vec<u16> = (0..128).map(|_| g.u16().max(1)).collect();
            a.neutral = neutral3([65536.0 / (v[24] as f64 * 508.0 * 1.078), 1.0, 65536.0 / (v[25] as f64 * 382.0 * 1.173)]);
            f.t.add(n, 0x0e80, V::U16(v));
        }
    }
    let built = f.build(g);
    let b = a.clone();
    finish(Type::Erf, built, p, a, b, if known { id } else { (5, 0) })
}

fn nef(g: &mut G, kind: Kind) -> Raw {
    let o = meta::order(g);
    let codec = kind == Kind::Codec || (kind == Kind::Any && g.chance(1, 3));
    let mut quant = None;
    let mut black = 0;
    let p = if codec {
        let (p, table, b) = crate::c12::pay(g, o);
        quant = Some(table);
        black = b;
        p
    } else if kind == Kind::Any && g.chance(1, 4) {
        opaque(g, &[7, 8, 65535], true)
    } else {
        plain(g, &TIFF_PLAIN, o, false)
    };
    let (mut model, mut id, mut known) = camera(g, "nikon");
    if model.contains("D100") {
        // Its rows have six more samples: see C08
        model = "NIKON D2X".into();
        known = true;
        id = cams().models("nikon").iter().find(|m| m.0 == "NIKON D2X").map(|m| m.1).unwrap_or((2, 0));
    }
    let note = quant.is_some() || g.chance(4, 5);
    let mut f = frame(g, Type::Nef, o, &model, note);
    put(g, &mut f.t, f.raw, &p);
    let mosaic = cfa(g, &mut f.t, f.raw, f.exif);
    let ph = photom(g, &mut f.t, f.raw);
    let (mut a, mut b) = both(&p);
    for d in [&mut a, &mut b] {
        d.cfa = mosaic.clone();
        d.photom = ph;
        d.active = Some([0, 0, d.w, d.h]);
    }
    b.blacks = [black; 4];
    let mut on = |f: &mut dyn FnMut(&mut Desc)| {
        f(&mut a);
        f(&mut b);
    };
    if let Some(n) = f.note {
        let no = f.t.d(n).order.unwrap_or(o);
        if let Some(table) = quant {
            f.t.add(n, 0x96, V::X(table));
        }
        if g.bool() {
            let (v, x) = levels(g);
            f.t.add(n, 0x3d, v);
            on(&mut |d| d.blacks = x);
        }
        if g.bool() {
            let r = area(g, p.w, p.h);
            let v = uint(g, &r);
            f.t.add(n, 0x45, v);
            on(&mut |d| d.crop = Some(r));
        }
        let wb = match g.below(7) {
            0 => {
                let mut v: Vec<(u32, u32)> = (0..4).map(|_| rational(g)).collect();
                if g.chance(1, 4) {
                    v[2].0 = 0;
                }
                f.t.add(n, 0x0c, V::R(v.clone()));
                let x = fl(&v);
                Some([1.0 / x[0], if x[2] <= 0.0 { 1.0 } else { x[2] }, 1.0 / x[1]])
            }
            1 => {
                let v: Vec<u16> = (0..3).map(|_| g.u16().max(1)).collect();
                let k = g.ur(0, 40);
                let mut d = vec![0x5a; 80 + k];
                d[..4].copy_from_slice(b"0100");
                d[72..74].copy_from_slice(&no.u16(v[0]));
                d[74..76].copy_from_slice(&no.u16(v[1]));
                d[76..78].copy_from_slice(&no.u16(v[2]));
                f.t.add(n, 0x97, V::X(d));
                Some([v[2] as f64 / v[0] as f64, 1.0, v[2] as f64 / v[1] as f64])
            }
            2 => {
                let v: Vec<u16> = (0..3).map(|_| g.u16().max(1)).collect();
                let k = g.ur(0, 40);
                let mut d = vec![0x5a; 26 + k];
                d[..4].copy_from_slice(b"0103");
                d[20..22].copy_from_slice(&no.u16(v[0]));
                d[22..24].copy_from_slice(&no.u16(v[1]));
                d[24..26].copy_from_slice(&no.u16(v[2]));
                f.t.add(n, 0x97, V::X(d));
                Some([v[1] as f64 / v[0] as f64, 1.0, v[1] as f64 / v[2] as f64])
            }
            3 => {
                let (r, b) = (g.u16().max(1), g.u16().max(1));
                let mut d = vec![0x5a; 2560];
                d[1248..1250].copy_from_slice(&r.to_be_bytes());
                d[1250..1252].copy_from_slice(&b.to_be_bytes());
                f.t.add(n, 0x14, V::X(d));
                Some([256.0 / r as f64, 1.0, 256.0 / b as f64])
            }
            4 => {
                let old = g.bool();
                let at = if old { 1556 } else { 56 };
                let mut d = vec![0x5a; at + 17 + g.ur(0, 30)];
                d[..8].copy_from_slice(if old { b"NRW 0100" } else { b"NRW 0101" });
                let v: Vec<u32> = (0..4).map(|_| g.u32r(1, 1 << 20)).collect();
                for i in 0..4 {
                    d[at + 4 * i..at + 4 * i + 4].copy_from_slice(&v[i].to_le_bytes());
                }
                f.t.add(n, 0x14, V::X(d));
                let gr = (v[1] + v[2]) as f64;
                Some([gr / (v[0] * 4) as f64, 1.0, gr / (v[3] * 4) as f64])
            }
            _ => None,
        };
        if let Some(wb) = wb {
            on(&mut |d| d.neutral = neutral3(wb));
        }
    }
    let built = f.build(g);
    finish(Type::Nef, built, p, a, b, if known { id } else { (2, 0) })
}

fn pef(g: &mut G, kind: Kind) -> Raw {
    let o = meta::order(g);
    let codec = kind == Kind::Codec || (kind == Kind::Any && g.chance(1, 2));
    let mut table = None;
    let p = if codec {
        let (p, t) = crate::c11::pay(g, o);
        table = t;
        p
    } else {
        plain(g, &["8", "10", "12", "14", "16", "12in16", "14in16", "12pentax"], o, false)
    };
    let by_id = g.chance(1, 2);
    let mut id = (4, 0);
    let mut model = "PENTAX".to_string();
    let mut number = None;
    if by_id {
        if g.chance(1, 5) {
            number = Some(g.u32());
            id = cams().ids("pentax").iter().find(|x| Some(x.0) == number).map(|x| x.1).unwrap_or((4, 0));
        } else {
            let x = g.pickv(&cams().ids("pentax"));
            number = Some(x.0);
            id = x.1;
        }
    } else {
        let (m, i, known) = camera(g, "pentax");
        model = m;
        if known {
            id = i;
        }
    }
    let note = by_id || table.is_some() || g.chance(4, 5);
    let mut f = frame(g, Type::Pef, o, &model, note);
    put(g, &mut f.t, f.raw, &p);
    let mosaic = cfa(g, &mut f.t, f.raw, f.exif);
    let ph = photom(g, &mut f.t, f.raw);
    let (mut a, mut b) = both(&p);
    for d in [&mut a, &mut b] {
        d.cfa = mosaic.clone();
        d.photom = ph;
    }
    if let Some(n) = f.note {
        let mut on = |f: &mut dyn FnMut(&mut Desc)| {
            f(&mut a);
            f(&mut b);
        };
        on(&mut |d| d.active = Some([0, 0, d.w, d.h]));
        if let Some(x) = number {
            f.t.add(n, 5, V::U32(vec![x]));
        }
        if let Some(x) = &table {
            f.t.add(n, 0x220, V::X(x.clone()));
        }
        let r = area(g, p.w, p.h);
        let state = g.below(5);
        if state != 0 {
            f.t.add(n, 0x38, V::U16(vec![r[0] as u16, r[1] as u16]));
        }
        if state != 1 {
            f.t.add(n, 0x39, V::U16(vec![r[2] as u16, r[3] as u16]));
        }
        if state > 1 {
            on(&mut |d| d.crop = Some(r));
        }
        if g.bool() {
            let k = g.below(6) as u8;
            f.t.add(n, 0x80, V::U8(vec![k]));
            let ratio = [Some((4, 3)), Some((3, 2)), Some((16, 9)), Some((1, 1)), None, None][k as usize];
            on(&mut |d| d.ratio = ratio);
        }
        if g.bool() {
            let (v, x) = levels(g);
            f.t.add(n, 0x200, v);
            on(&mut |d| d.blacks = x);
        }
        if g.bool() {
            let x = g.u16();
            let v = num(g, x as u32);
            f.t.add(n, 0x7e, v);
            on(&mut |d| d.whites = [x; 4]);
        } else if let Some((black, white)) = builtin_levels(Type::Pef, id) {
            on(&mut |d| {
                if white != 0 {
                    d.whites = [white; 4];
                }
                if d.blacks[0] == 0 {
                    d.blacks = [black; 4];
                }
            });
        }
        if g.bool() {
            let v: Vec<u16> = (0..4).map(|_| g.u16().max(1)).collect();
            let x: Vec<f64> = v.iter().map(|v| *v as f64).collect();
            f.t.add(n, 0x201, V::U16(v));
            on(&mut |d| d.neutral = neutral3([x[1] / x[0], 1.0, x[1] / x[3]]));
        }
    }
    let built = f.build(g);
    finish(Type::Pef, built, p, a, b, id)
}

/// Cameras whose crop is in one of the known places
fn sony_ratio(g: &mut G, id: Tid) -> Option<(u16, V, Option<(u32, u32)>)> {
    let cs = [
        "DSLR-A200", "DSLR-A300", "DSLR-A350", "DSLR-A700", "DSLR-A850", "DSLR-A900", "DSLR-A230", "DSLR-A290", "DSLR-A330", "DSLR-A380", "DSLR-A390",
    ];
    let cs3 = ["SLT-A33", "SLT-A35", "SLT-A55V", "DSLR-A450", "DSLR-A500", "DSLR-A550", "DSLR-A560", "DSLR-A580", "NEX-3", "NEX-5", "NEX-C3"];
    let at6444 = [
        "SLT-A58", "SLT-A99V", "ILCE-3000", "NEX-3N", "NEX-5R", "NEX-5T", "NEX-6", "DSC-RX100", "DSC-RX1", "DSC-RX1R", "DSC-RX100M2", "DSC-RX0", "DSC-RX1RM2",
        "DSC-RX10M2", "DSC-RX10M3", "DSC-RX100M4", "DSC-RX100M5", "ILCE-6300", "ILCE-6500", "ILCE-7RM2", "ILCE-7SM2", "ILCA-99M2",
    ];
    let at6488 = ["DSC-RX10", "DSC-RX100M3", "ILCE-7", "ILCE-7R", "ILCE-7S", "ILCE-7M2", "ILCE-5000", "ILCE-5100", "ILCE-6000", "ILCA-68", "ILCA-77M2"];
    let at6284 = [
        "ILCE-6100", "ILCE-6400", "ILCE-6600", "ILCE-7C", "ILCE-7M3", "ILCE-7RM3", "ILCE-7RM4", "ILCE-9", "ILCE-9M2", "DSC-RX0M2", "DSC-RX10M4",
        "DSC-RX100M6", "DSC-RX100M5A", "DSC-RX100M7", "DSC-HX99", "ZV-1", "ZV-1M2", "ZV-E10",
    ];
    let m = cams().models("sony");
    let model = &m.iter().find(|m| m.1 == id && id.1 != 0)?.0;
    if cs.contains(&model) {
        let mut d = g.noise(2 * 120);
        let k = g.below(4) as u8;
        d[170] = 0;
        d[171] = k;
        let r = match k {
            1 => Some((3, 2)),
            2 => Some((16, 9)),
            _ => None,
        };
        return Some((0x0114, V::X(d), r));
    }
    if cs3.contains(&model) {
        let mut d = g.noise(40);
        let k = g.pickv(&[4, 8, 0, 1]);
        d[10] = k;
        let r = match k {
            4 => Some((3, 2)),
            8 => Some((16, 9)),
            _ => None,
        };
        return Some((0x0114, V::X(d), r));
    }
    let at = if at6444.contains(&model) {
        6444
    } else if at6488.contains(&model) {
        6488
    } else if at6284.contains(&model) {
        6284
    } else {
        return None;
    };
    let mut d = vec![0x33; at + 60];
    let k = g.below(7);
    // Enciphered: each byte cubed modulo 249, those from 249 as they are
    d[at] = ((k * k * k) % 249) as u8;
    let r = [Some((16, 9)), Some((4, 3)), Some((3, 2)), Some((1, 1)), None, None, None][k as usize];
    Some((0x2010, V::X(d), r))
}

fn arw(g: &mut G, kind: Kind) -> Raw {
    let o = meta::order(g);
    if kind == Kind::Any && g.chance(1, 10) {
        return a100(g, o);
    }
    let r1 = g.chance(1, 8);
    let (mut model, mut id, mut known) = camera(g, "sony");
    if model == "DSLR-A100" {
        model = "DSLR-A200".into();
        id = cams().models("sony").iter().find(|m| m.0 == model).unwrap().1;
    }
    if r1 {
        model = "DSC-R1".into();
        id = cams().models("sony").iter().find(|m| m.0 == model).unwrap().1;
        known = true;
    }
    // The number of the maker note counts more than the name.
    let number = if g.chance(1, 3) {
        Some(if g.chance(1, 4) { g.u16() as u32 } else { g.pickv(&cams().ids("sony")).0 })
    } else {
        None
    };
    if let Some(n) = number {
        let x = cams().ids("sony").iter().find(|x| x.0 == n).map(|x| x.1);
        known = x.is_some();
        id = x.unwrap_or((8, 0));
    }
    let p = if kind == Kind::Any && g.chance(1, 3) {
        opaque(g, &[7, 32767, 32766], true)
    } else if known && id == (8, 78) {
        // Its data is always big endian.
        plain(g, &["16", "14in16", "12in16"], Order::Be, false)
    } else {
        plain(g, &TIFF_PLAIN[..7], o, false)
    };
    let note = number.is_some() || g.chance(3, 4);
    let mut f = frame(g, Type::Arw, o, &model, note);
    if let Some(v) = number {
        let v = num(g, v);
        f.t.add(f.note.unwrap(), 0xb001, v);
    }
    put(g, &mut f.t, f.raw, &p);
    let mosaic = cfa(g, &mut f.t, f.raw, f.exif);
    let ph = photom(g, &mut f.t, f.raw);
    let (mut a, _) = both(&p);
    a.cfa = mosaic;
    a.photom = ph;
    a.active = Some([0, 0, a.w, a.h]);
    let raw = f.raw;
    if let Some(n) = f.note {
        if g.chance(3, 4) {
            if let Some((tag, v, ratio)) = sony_ratio(g, if known { id } else { (8, 0) }) {
                f.t.add(n, tag, v);
                a.ratio = ratio;
            }
        }
    }
    let r = area(g, p.w, p.h);
    let state = g.below(5);
    if state != 0 {
        let v = uint(g, &[r[1], r[0]]);
        f.t.add(raw, 0x74c7, v);
    }
    if state != 1 {
        let v = uint(g, &r[2..]);
        f.t.add(raw, 0x74c8, v);
    }
    if state > 1 {
        a.crop = Some(r);
    }
    if g.bool() {
        let v: Vec<i16> = (0..4).map(|_| (g.u16() as i16 & 0x7fff).max(1)).collect();
        let x: Vec<f64> = v.iter().map(|v| *v as f64).collect();
        a.neutral = neutral3([x[1] / x[0], 1.0, x[1] / x[3]]);
        let v = if g.bool() { V::I16(v) } else { V::I32(v.iter().map(|v| *v as i32).collect()) };
        f.t.add(raw, 0x7313, v);
    }
    let id = if known { id } else { (8, 0) };
    let built_in = builtin_levels(Type::Arw, id);
    if g.bool() {
        let (v, x) = levels(g);
        f.t.add(raw, 0x7310, v);
        a.blacks = x;
    } else if let Some((black, _)) = built_in {
        a.blacks = [black; 4];
    }
    if g.bool() {
        let (v, x) = levels(g);
        f.t.add(raw, 0xc61d, v);
        a.whites = x;
    } else if let Some((_, white)) = built_in {
        a.whites = [white; 4];
    }
    let built = f.build(g);
    let b = a.clone();
    finish(Type::Arw, built, p, a, b, id)
}

/// The first one: its raw data is described by a Minolta block.
fn a100(g: &mut G, o: Order) -> Raw {
    let mut t = Tiff::new(o);
    t.trail = 16;
    let main = t.dir();
    t.first(main);
    t.add(main, 0x110, s("DSLR-A100"));
    let mut id = cams().models("sony").iter().find(|m| m.0 == "DSLR-A100").unwrap().1;
    if g.bool() {
        t.add(main, 0x10f, s("SONY"));
    }
    colours(g, &mut t, main);
    let (w, h) = (g.u32r(1, 60), g.u32r(1, 40));
    // These are not the size.
    t.add(main, 0x100, V::U16(vec![3872]));
    t.add(main, 0x101, V::U16(vec![2592]));
    let bits = g.pickv(&[12_u8, 14]);
    let bayer = g.pickv(&[1, 4, 4, 0]);
    let (packed, version) = (g.bool(), g.noise(8));
    let prd = crate::wraps::Prd {
        version: version.try_into().unwrap(),
        w: w as u16,
        h: h as u16,
        bits,
        packed,
        bayer,
    };
    let mut blocks: Vec<(&[u8; 3], Vec<u8>)> = vec![(b"PRD", prd.bytes(Order::Le))];
    let mut neutral = None;
    if g.chance(2, 3) {
        let den: Vec<u8> = (0..4).map(|_| g.u32r(0, 9) as u8).collect();
        let v: Vec<u16> = (0..4).map(|_| g.u16().max(1)).collect();
        let mut b = den.clone();
        b.extend(crate::raws2::u16s(Order::Le, &v));
        blocks.push((b"WBG", b));
        let k = |i: usize| (64_u32 << den[i]) as f64 / v[i] as f64;
        neutral = neutral3(if bayer == 4 { [k(2), k(0), k(1)] } else { [k(0), k(1), k(3)] });
    }
    if g.bool() {
        blocks.push((b"TTW", g.noise(20)));
    }
    let blocks: Vec<_> = g.perm(blocks.len()).iter().map(|i| blocks[*i].clone()).collect();
    let block = t.blob(crate::wraps::mrw(Order::Le, &blocks, &[]).0);
    let data = g.noise((w * h * 2) as usize);
    let blob = t.blob(data.clone());
    t.add(main, 0x14a, V::Ptr(vec![blob]));
    let mark = [0xa5, 0x1f, 0x77, 0xe9];
    t.add(main, 0xc634, V::U8(mark.to_vec()));
    let mut f = Tree {
        t,
        o,
        main,
        raw: main,
        exif: None,
        note: None,
    };
    if g.bool() {
        let x = f.t.dir();
        f.t.add(main, 0x8769, V::Ptr(vec![x]));
        f.t.add(x, 0x9000, V::X(b"0230".to_vec()));
        f.exif = Some(x);
        if g.bool() {
            let n = note_of(g, Type::Arw, o);
            let n = doc::add_note(&mut f.t, &n, vec![]);
            f.t.add(x, 0x927c, V::Note(n));
            f.note = Some(n);
            if g.bool() {
                let (v, i) = g.pickv(&[(256, (8, 1)), (257, (8, 25)), (0xffff, (8, 0))]);
                f.t.add(n, 0xb001, V::U16(vec![v]));
                id = i;
            }
        }
    }
    let mut built = f.build(g);
    // Its offset is of little endian, always.
    let mut e = vec![];
    e.extend(o.u16(0xc634));
    e.extend(o.u16(1));
    e.extend(o.u32(4));
    let at = (0..built.bytes.len() - 12).find(|i| built.bytes[*i..].starts_with(&e) && built.bytes[*i + 8..].starts_with(&mark)).unwrap() + 8;
    built.bytes[at..at + 4].copy_from_slice(&built.off[block].to_le_bytes());
    let mut a = Desc::new(w, h, bits as u16);
    a.compr = Compression::Unknown;
    a.dt = DataType::CompressedRaw;
    a.cfa = if bayer == 4 { CfaPattern::Gbrg } else { CfaPattern::Rggb };
    a.neutral = neutral;
    a.whites = [0; 4];
    Raw {
        ty: Type::Arw,
        bytes: built.bytes,
        skip: (a.clone(), Body::S8(data.clone())),
        full: (a, Body::S8(data)),
        spots: built.spots,
        style: "a100",
        model: id,
    }
}

fn orf(g: &mut G, kind: Kind) -> Raw {
    let o = meta::order(g);
    let codec = kind == Kind::Codec || (kind == Kind::Any && g.chance(1, 3));
    let p = if codec {
        crate::c10::pay(g)
    } else {
        orf_plain(g, o)
    };
    let (model, id, known) = camera(g, "olympus");
    let note = g.chance(4, 5);
    let mut f = frame(g, Type::Orf, o, &model, note);
    put(g, &mut f.t, f.raw, &p);
    let mosaic = cfa(g, &mut f.t, f.raw, f.exif);
    let _ = photom(g, &mut f.t, f.raw);
    let (mut a, mut b) = both(&p);
    for d in [&mut a, &mut b] {
        d.cfa = mosaic.clone();
        d.bpc = 12;
        d.whites = [4095; 4];
        d.active = Some([0, 0, d.w, d.h]);
    }
    let mut on = |f: &mut dyn FnMut(&mut Desc)| {
        f(&mut a);
        f(&mut b);
    };
    if let Some(n) = f.note {
        let base = f.t.d(n).base;
        let mut mult = false;
        if g.bool() {
            let (r, b) = (g.u16().max(1), g.u16().max(1));
            let state = g.below(5);
            if state != 0 {
                let v = num(g, r as u32);
                f.t.add(n, 0x1017, v);
            }
            if state != 1 {
                let v = num(g, b as u32);
                f.t.add(n, 0x1018, v);
            }
            if state > 1 {
                mult = true;
                on(&mut |d| d.neutral = neutral3([256.0 / r as f64, 1.0, 256.0 / b as f64]));
            }
        }
        if g.chance(3, 4) {
            let ip = f.t.dir();
            if let Base::Node(k) = base {
                // Offsets are not negative: after the note.
                f.t.d(ip).base = Base::At(n, k);
                f.t.d(ip).contained = true;
                f.t.runs.push(vec![n, ip]);
            }
            let v = match base {
                Base::Node(k) if g.bool() => V::PtrIfd(ip, Some((n, k))),
                Base::Node(k) => V::PtrRel(ip, n, k),
                _ if g.bool() => V::Note(ip),
                _ if g.bool() => V::PtrIfd(ip, None),
                _ => V::Ptr(vec![ip]),
            };
            f.t.add(n, 0x2040, v);
            let _ = &mut f;
            if g.bool() {
                let k = g.pickv(&[2, 4, 3]);
                let v: Vec<u16> = (0..k).map(|_| g.u16().max(1)).collect();
                f.t.add(ip, 0x100, V::U16(v.clone()));
                if !mult && k != 3 {
                    on(&mut |d| d.neutral = neutral3([256.0 / v[0] as f64, 1.0, 256.0 / v[1] as f64]));
                }
            }
            if g.bool() {
                let (v, x) = levels(g);
                f.t.add(ip, 0x600, v);
                on(&mut |d| d.blacks = x);
            }
            let mut act = [0; 4];
            if g.chance(2, 3) {
                let r = area(g, p.w, p.h);
                let miss = if g.chance(1, 5) { g.idx(4) } else { 9 };
                for i in 0..4 {
                    if i != miss {
                        let v = num(g, r[i]);
                        f.t.add(ip, 0x612 + i as u16, v);
                    }
                }
                if miss == 9 {
                    on(&mut |d| d.active = Some(r));
                    act = r;
                }
            }
            if g.bool() {
                let r = area(g, p.w, p.h);
                if r[2] > 0 && r[3] > 0 {
                    let v = uint(g, &[r[0], r[1], r[0] + r[2] - 1, r[1] + r[3] - 1]);
                    f.t.add(ip, 0x1113, v);
                    on(&mut |d| d.crop = Some([r[0] + act[0], r[1] + act[1], r[2], r[3]]));
                }
            }
            if f.t.d(ip).entries.is_empty() {
                f.t.add(ip, 0xfe00, V::U16(vec![0]));
            }
        }
    }
    let built = f.build(g);
    finish(Type::Orf, built, p, a, b, if known { id } else { (7, 0) })
}

/// The ways ORF files hold samples: their size tells them apart.
fn orf_plain(g: &mut G, o: Order) -> Pay {
    let style = g.below(5);
    if style < 2 {
        return plain(g, &["16", "12in16", "14in16"], o, false);
    }
    let (mut w, h) = size(g);
    let comp = Some(1_u16);
    let (data, px, style) = match style {
        2 => {
            // Padded: where both ways of counting the padding agree
            w = (w + 1) & !1;
            while w % 10 == 8 {
                w += 2;
            }
            w = w.max(10);
            let px = gen::image(g, (w * h) as usize, w as usize, 12);
            let d = pack_lsb(&px, w as usize, 12);
            (padded(&d, w as usize * 3 / 2, g), px, "12olympus")
        }
        3 => {
            // Interlaced: the second field is at the next multiple of 2048.
            // The size must be that of all samples: exact when it happens to fit, so the
            // image is made so that it does.
            let k = g.u32r(1, 3);
            let (w, h) = g.pickv(&[(64, 64), (512, 8), (256, 16), (128, 32), (1024, 4), (2048, 2)]);
            let _ = k;
            // half a field is a multiple of 2048: the second would start one block later, so
            // the last 2048 bytes of it are missing.
            let px = gen::image(g, (w * h) as usize, w as usize, 12);
            let packed = pack_msb(&px, w as usize, 12);
            let row = w as usize * 3 / 2;
            let total = (w * h) as usize * 3 / 2;
            let half = (h as usize + 1) / 2 * w as usize * 3 / 2;
            let second = ((half >> 11) + 1) << 11;
            let mut d = vec![0x5a; total];
            let mut out = vec![0_u16; (w * h) as usize];
            for y in 0..h as usize {
                let at = if y % 2 == 0 { y / 2 * row } else { second + y / 2 * row };
                for i in 0..row {
                    if at + i < total {
                        d[at + i] = packed[y * row + i];
                    }
                }
            }
            // What the data gives, whole pairs only
            for y in 0..h as usize {
                let at = if y % 2 == 0 { y / 2 * row } else { second + y / 2 * row };
                for i in 0..w as usize / 2 {
                    if at + 3 * i + 3 <= total {
                        let b = &d[at + 3 * i..];
                        out[y * w as usize + 2 * i] = (b[0] as u16) << 4 | (b[1] as u16) >> 4;
                        out[y * w as usize + 2 * i + 1] = (b[1] as u16 & 15) << 8 | b[2] as u16;
                    }
                }
            }
            return orf_pay(w, h, comp, d, out, "12interlaced");
        }
        _ => {
            // Wide: groups of eight samples in three big endian words stored little endian
            w = 3700 + 4 * g.u32r(0, 20);
            let h = 2 * g.u32r(1, 2);
            let px = gen::image(g, (w * h) as usize, w as usize, 12);
            let mut d = pack_msb(&px, (w * h) as usize, 12);
            d.chunks_mut(4).for_each(|c| c.reverse());
            return orf_pay(w, h, comp, d, px, "12msb32");
        }
    };
    orf_pay(w, h, comp, data, px, style)
}

pub fn orf_pay(w: u32, h: u32, comp: Option<u16>, data: Vec<u8>, px: Vec<u16>, style: &'static str) -> Pay {
    Pay {
        w,
        h,
        bpc: 12,
        comp,
        chunks: vec![data.clone()],
        tile: None,
        skip: Body::S8(data),
        full: Body::S16(px),
        full_w: w,
        full_h: h,
        full_bpc: 12,
        compr: [Compression::Olympus, Compression::None],
        style,
    }
}

fn rw2(g: &mut G, kind: Kind) -> Raw {
    let o = Order::Le;
    let codec = kind == Kind::Codec || (kind == Kind::Any && g.chance(1, 3));
    let (model, id, known) = camera(g, "panasonic");
    let mut f = frame(g, Type::Rw2, o, &model, false);
    let d = f.main;
    let bpc = g.pickv(&[None, Some(12_u16), Some(14), Some(16), Some(10)]);
    let comp = g.pickv(&[None, Some(1_u16), Some(34316), Some(34826), Some(34828), Some(34830)]);
    let mut p;
    let mut known_offset = false;
    // Too short to be anything else
    let mut short = false;
    if codec {
        p = crate::c13::pay(g);
        known_offset = true;
    } else if kind == Kind::Any && g.chance(1, 3) {
        // Not decoded
        p = opaque(g, &[34826, 34828, 34830, 1], false);
        p.chunks = vec![p.chunks.concat()];
        known_offset = true;
        if g.bool() {
            let n = p.chunks[0].len() as u32;
            while p.w * p.h * 3 / 2 <= n {
                p.h += 1;
            }
            if g.bool() {
                // As long as can be
                let n = (p.w * p.h * 3 / 2 - 1) as usize;
                let data = g.noise(n);
                p.chunks = vec![data.clone()];
                p.skip = Body::S8(data.clone());
                p.full = Body::S8(data);
            }
            (p.full_w, p.full_h) = (p.w, p.h);
        }
    } else if g.bool() {
        p = plain(g, &["16"], o, false);
        // Twelve bits, in the high ones
        if let Body::S16(px) = &mut p.full {
            px.iter_mut().for_each(|v| *v >>= 4);
            p.skip = Body::S16(px.clone());
        }
        p.chunks = vec![p.chunks.concat()];
        p.comp = comp;
        p.style = "12left";
    } else {
        let (w, h) = size(g);
        // So that the file isn't long enough to be taken for unpacked
        let (w, h) = (w.max(16), h.max(6));
        let px = gen::image(g, (w * h) as usize, w as usize, 12);
        let data = padded(&pack_lsb(&px, w as usize, 12), (w as usize * 12 + 7) / 8, g);
        p = orf_pay(w, h, comp, data, px.clone(), "12panasonic");
        p.skip = Body::S16(px);
    }
    let blob = f.t.blob(p.chunks[0].clone());
    let v = num(g, p.w);
    f.t.add(d, 2, v);
    let v = num(g, p.h);
    f.t.add(d, 3, v);
    if let Some(b) = bpc {
        f.t.add(d, 0x0a, V::U16(vec![b]));
    }
    let comp = if known_offset { p.comp } else { comp };
    let decoded = known_offset;
    if known_offset && (p.chunks[0].len() as u32) < p.w * p.h * 3 / 2 && g.bool() {
        known_offset = false;
        short = true;
    }
    if let Some(c) = comp {
        f.t.add(d, 0x0b, V::U16(vec![c]));
    }
    if known_offset {
        f.t.add(d, 0x118, V::Ptr(vec![blob]));
        if g.bool() {
            f.t.add(d, 0x111, V::U32(vec![0xffff_ffff]));
        }
    } else {
        f.t.add(d, 0x111, V::Ptr(vec![blob]));
        f.t.add(d, 0x117, V::Len(vec![blob]));
    }
    let bpc = bpc.unwrap_or(16);
    let (mut a, mut b) = both(&p);
    let of = |c: Option<u16>| match c {
        None => Compression::Unknown,
        Some(c) => Compression::from(c as u32),
    };
    a.compr = of(comp);
    b.compr = if matches!(p.full, Body::S16(_) | Body::First(_)) && decoded { Compression::None } else { of(comp) };
    for x in [&mut a, &mut b] {
        x.bpc = bpc;
        x.whites = white_of(bpc);
        x.active = Some([0, 0, p.w, p.h]);
        x.crop = Some([0; 4]);
        x.photom = 32803;
    }
    let mut on = |f: &mut dyn FnMut(&mut Desc)| {
        f(&mut a);
        f(&mut b);
    };
    if g.chance(3, 4) {
        let k = g.below(6) as u16;
        f.t.add(d, 9, V::U16(vec![k]));
        let m = [CfaPattern::Empty, CfaPattern::Rggb, CfaPattern::Grbg, CfaPattern::Gbrg, CfaPattern::Bggr, CfaPattern::Empty][k as usize].clone();
        on(&mut |x| x.cfa = m.clone());
    }
    if g.chance(3, 4) {
        let v: Vec<u16> = (0..4).map(|_| if g.chance(1, 6) { g.u16() } else { g.u32r(0, p.w.max(p.h)) as u16 }).collect();
        let miss = if g.chance(1, 5) { g.idx(4) } else { 9 };
        let at = |i: usize| if i == miss { 0 } else { v[i] as i64 };
        // top, left, bottom, right
        for i in 0..4 {
            if i != miss {
                f.t.add(d, 4 + i as u16, V::U16(vec![v[i]]));
            }
        }
        let c = [at(1), at(0), (at(3) - at(1)).max(0), (at(2) - at(0)).max(0)].map(|v| v as u32);
        on(&mut |x| x.crop = Some(c));
    }
    let rgb = |g: &mut G, t: &mut Tiff, tag: u16, low: u16| -> [Option<u16>; 3] {
        let mut r = [None; 3];
        if g.chance(2, 3) {
            for i in 0..3 {
                if g.chance(5, 6) {
                    let v = g.u16().max(low);
                    let e = num(g, v as u32);
                    t.add(d, tag + i as u16, e);
                    r[i] = Some(v);
                }
            }
        }
        r
    };
    let lim = rgb(g, &mut f.t, 0x0e, 0);
    let bl = rgb(g, &mut f.t, 0x1c, 0);
    let wb = rgb(g, &mut f.t, 0x24, 1);
    on(&mut |x| {
        let w = |i: usize| lim[i].unwrap_or(white_of(bpc)[0]);
        x.whites = [w(0), w(1), w(2), w(1)];
        let b = |i: usize| bl[i].unwrap_or(0);
        x.blacks = [b(0), b(1), b(2), b(1)];
        if let Some(g) = wb[1] {
            let k = |i: usize| wb[i].map(|v: u16| g as f64 / v as f64).unwrap_or(1.0);
            x.neutral = neutral3([k(0), 1.0, k(2)]);
        }
    });
    if g.bool() {
        let (r, bl) = (g.u16().max(1), g.u16().max(1));
        let state = g.below(5);
        if state != 0 {
            f.t.add(d, 0x11, V::U16(vec![r]));
        }
        if state != 1 {
            f.t.add(d, 0x12, V::U16(vec![bl]));
        }
        if state > 1 && wb[1].is_none() {
            on(&mut |x| x.neutral = neutral3([256.0 / r as f64, 1.0, 256.0 / bl as f64]));
        }
    }
    // Data goes to the end of the file
    f.t.trail = 0;
    f.t.last = Some(blob);
    let built = f.build(g);
    if short {
        g.label("panasonic by length");
    }
    finish(Type::Rw2, built, p, a, b, if known { id } else { (11, 0) })
}

/// A packed file of a D100, and all the samples of its rows.
pub fn d100(g: &mut G, w: u32, h: u32) -> (Vec<u8>, Vec<u16>) {
    let o = meta::order(g);
    let row = w as usize + 6;
    let px = gen::image(g, row * h as usize, row, 12);
    let d = pack_msb(&px, row, 12);
    let d = padded(&d, row * 3 / 2, g);
    let p = Pay {
        w,
        h,
        bpc: 12,
        comp: Some(34713),
        chunks: vec![d.clone()],
        tile: None,
        skip: Body::S8(d),
        full: Body::S16(px.clone()),
        full_w: w,
        full_h: h,
        full_bpc: 12,
        compr: [Compression::NikonQuantized; 2],
        style: "d100",
    };
    let mut f = frame(g, Type::Nef, o, "NIKON D100 ", true);
    let raw = f.raw;
    put(g, &mut f.t, raw, &p);
    (f.build(g).bytes, px)
}

pub const PLAIN: [Type; 9] = [
    Type::Dng,
    Type::Nef,
    Type::Erf,
    Type::Pef,
    Type::Arw,
    Type::Orf,
    Type::Rw2,
    Type::Mrw,
    Type::Raf,
];
pub const HOSTS: [Type; 12] = [
    Type::Dng,
    Type::Nef,
    Type::Erf,
    Type::Pef,
    Type::Arw,
    Type::Orf,
    Type::Rw2,
    Type::Mrw,
    Type::Raf,
    Type::Crw,
    Type::Cr2,
    Type::Cr3,
];

thread_local! {
    static CUT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub const CUTS: [Type; 5] = [Type::Dng, Type::Nef, Type::Erf, Type::Pef, Type::Arw];

/// A file whose samples are not all there: the last ones are missing.
pub fn cut(g: &mut G, ty: Type) -> Raw {
    CUT.with(|c| c.set(true));
    let r = file(g, ty, Kind::Plain);
    CUT.with(|c| c.set(false));
    r
}

pub fn file(g: &mut G, ty: Type, kind: Kind) -> Raw {
    match ty {
        Type::Dng => dng(g, kind),
        Type::Nef => nef(g, kind),
        Type::Erf => erf(g, kind),
        Type::Pef => pef(g, kind),
        Type::Arw => arw(g, kind),
        Type::Orf => orf(g, kind),
        Type::Rw2 => rw2(g, kind),
        _ => crate::raws2::file(g, ty, kind),
    }
}
