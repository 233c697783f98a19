//! Writers for what wraps or replaces TIFF: JPEG, MRW, RAF, ISO media (CR3), CIFF (CRW).

use crate::gen::G;
use crate::tiffw::Order;

/// A JPEG: enough of one for its header to be read. `exif` starts with the TIFF header.
pub fn jpeg(w: u16, h: u16, exif: Option<&[u8]>, body: &[u8]) -> Vec<u8> {
    let mut o = vec![0xff, 0xd8];
    if let Some(e) = exif {
        o.extend_from_slice(&[0xff, 0xe1]);
        o.extend_from_slice(&((e.len() + 8) as u16).to_be_bytes());
        o.extend_from_slice(b"Exif\0\0");
        o.extend_from_slice(e);
    }
    o.extend_from_slice(&[0xff, 0xdb, 0, 67, 0]);
    o.extend_from_slice(&[1; 64]);
    o.extend_from_slice(&[0xff, 0xc0, 0, 17, 8]);
    o.extend_from_slice(&h.to_be_bytes());
    o.extend_from_slice(&w.to_be_bytes());
    o.extend_from_slice(&[3, 1, 0x11, 0, 2, 0x11, 0, 3, 0x11, 0]);
    o.extend_from_slice(&[0xff, 0xda, 0, 12, 3, 1, 0, 2, 0, 3, 0, 0, 63, 0]);
    o.extend(body.iter().map(|b| if *b == 0xff { 0xfe } else { *b }));
    o.extend_from_slice(&[0xff, 0xd9]);
    o
}

pub fn rand_jpeg(g: &mut G, w: u16, h: u16) -> Vec<u8> {
    let n = g.ur(0, 300);
    let body = g.noise(n);
    jpeg(w, h, None, &body)
}

/// A Minolta file: blocks in the order given, then the raw data.
/// Returns the bytes and the offset of each block's content.
pub fn mrw(order: Order, blocks: &[(&[u8; 3], Vec<u8>)], data: &[u8]) -> (Vec<u8>, Vec<usize>) {
    let len: usize = blocks.iter().map(|b| b.1.len() + 8).sum();
    let mut o = match order {
        Order::Be => b"\0MRM".to_vec(),
        Order::Le => b"\0MRI".to_vec(),
    };
    o.extend_from_slice(&order.u32(len as u32));
    let mut at = vec![];
    for (n, b) in blocks {
        o.push(0);
        o.extend_from_slice(*n);
        o.extend_from_slice(&order.u32(b.len() as u32));
        at.push(o.len());
        o.extend_from_slice(b);
    }
    o.extend_from_slice(data);
    (o, at)
}

pub struct Prd {
    pub version: [u8; 8],
    pub w: u16,
    pub h: u16,
    pub bits: u8,
    pub packed: bool,
    pub bayer: u16,
}
impl Prd {
    pub fn bytes(&self, o: Order) -> Vec<u8> {
        let mut b = self.version.to_vec();
        b.extend_from_slice(&o.u16(self.h));
        b.extend_from_slice(&o.u16(self.w));
        b.extend_from_slice(&o.u16(self.h.saturating_sub(4)));
        b.extend_from_slice(&o.u16(self.w.saturating_sub(4)));
        b.push(if self.packed { 12 } else { 16 });
        b.push(self.bits);
        b.push(if self.packed { 0x59 } else { 0x52 });
        b.push(0);
        b.extend_from_slice(&o.u16(0));
        b.extend_from_slice(&o.u16(self.bayer));
        b
    }
}

/// ISO box
pub fn bx(name: &[u8; 4], content: &[u8]) -> Vec<u8> {
    let mut o = ((content.len() + 8) as u32).to_be_bytes().to_vec();
    o.extend_from_slice(name);
    o.extend_from_slice(content);
    o
}
/// ISO box with a 64 bit size
pub fn bx64(name: &[u8; 4], content: &[u8]) -> Vec<u8> {
    let mut o = 1_u32.to_be_bytes().to_vec();
    o.extend_from_slice(name);
    o.extend_from_slice(&((content.len() + 16) as u64).to_be_bytes());
    o.extend_from_slice(content);
    o
}

pub const CANON_UUID: [u8; 16] = [
    0x85, 0xc0, 0xb6, 0x87, 0x82, 0x0f, 0x11, 0xe0, 0x81, 0x11, 0xf4, 0xce, 0x46, 0x2b, 0x6a, 0x48,
];
pub const PREVIEW_UUID: [u8; 16] = [
    0xea, 0xf4, 0x2b, 0x5e, 0x1c, 0x98, 0x4b, 0x88, 0xb9, 0xfb, 0xb7, 0xdc, 0x40, 0x6e, 0x4d, 0x16,
];

#[derive(Clone, Default, Debug)]
pub struct Track {
    pub w: u16,
    pub h: u16,
    pub jpeg: bool,
    pub data: Vec<u8>,
    /// 0: video CRAW, 1: not a CRAW video, 2: metadata track
    pub kind: u8,
    /// One size for all samples, or a list
    pub stsz_list: bool,
    pub co64: bool,
    /// Further samples, chunks and descriptions after the first
    pub more: [u8; 3],
}

impl Track {
    /// Only the first sample is the image.
    pub fn several(&mut self, g: &mut G) {
        if g.chance(1, 3) {
            self.more = [g.below(4) as u8, g.below(3) as u8, g.below(3) as u8];
        }
    }
}

#[derive(Clone, Default, Debug)]
pub struct Cr3 {
    pub cmt: [Option<Vec<u8>>; 4],
    /// w, h, data
    pub thmb: Option<(u16, u16, Vec<u8>)>,
    pub prvw: Option<(u16, u16, Vec<u8>)>,
    pub tracks: Vec<Track>,
    /// Extra boxes here and there
    pub noise: u64,
}

fn track_box(t: &Track, id: u32, offset: u64, extra: &mut dyn FnMut() -> Vec<u8>) -> Vec<u8> {
    let mut tkhd = vec![0, 0, 0, 7];
    tkhd.extend_from_slice(&[0; 8]);
    tkhd.extend_from_slice(&id.to_be_bytes());
    tkhd.extend_from_slice(&[0; 4 + 4 + 16 + 36]);
    tkhd.extend_from_slice(&((t.w as u32) << 16).to_be_bytes());
    tkhd.extend_from_slice(&((t.h as u32) << 16).to_be_bytes());
    let mut mdhd = vec![0; 12];
    mdhd.extend_from_slice(&1_u32.to_be_bytes());
    mdhd.extend_from_slice(&1_u32.to_be_bytes());
    mdhd.extend_from_slice(&[0; 4]);
    let mut hdlr = vec![0; 8];
    hdlr.extend_from_slice(if t.kind == 2 { b"meta" } else { b"vide" });
    hdlr.extend_from_slice(&[0; 12]);
    hdlr.push(0);
    let mut entry = vec![0; 6];
    entry.extend_from_slice(&1_u16.to_be_bytes());
    entry.extend_from_slice(&[0; 16]);
    entry.extend_from_slice(&t.w.to_be_bytes());
    entry.extend_from_slice(&t.h.to_be_bytes());
    entry.extend_from_slice(&[0; 54]);
    entry.extend(if t.jpeg { bx(b"JPEG", &[0; 4]) } else { bx(b"CMP1", &[0; 52]) });
    let mut stsd = vec![0, 0, 0, 0];
    stsd.extend_from_slice(&(1 + t.more[2] as u32).to_be_bytes());
    stsd.extend(match t.kind {
        0 => bx(b"CRAW", &entry),
        1 => bx(b"abcd", &entry),
        _ => bx(b"CTMD", &[0; 20]),
    });
    for i in 0..t.more[2] {
        let mut e = entry.clone();
        // Of another size
        e[24] = i;
        e[26] = 9;
        stsd.extend(bx(b"CRAW", &e));
    }
    let mut stsz = vec![0, 0, 0, 0];
    if t.stsz_list {
        stsz.extend_from_slice(&0_u32.to_be_bytes());
        stsz.extend_from_slice(&(1 + t.more[0] as u32).to_be_bytes());
        stsz.extend_from_slice(&(t.data.len() as u32).to_be_bytes());
        for i in 0..t.more[0] {
            stsz.extend_from_slice(&(i as u32 * 5).to_be_bytes());
        }
    } else {
        stsz.extend_from_slice(&(t.data.len() as u32).to_be_bytes());
        stsz.extend_from_slice(&(1 + t.more[0] as u32).to_be_bytes());
    }
    let mut stco = vec![0, 0, 0, 0];
    stco.extend_from_slice(&(1 + t.more[1] as u32).to_be_bytes());
    for i in 0..=t.more[1] {
        let offset = offset / (i as u64 + 1);
        if t.co64 {
            stco.extend_from_slice(&offset.to_be_bytes());
        } else {
            stco.extend_from_slice(&(offset as u32).to_be_bytes());
        }
    }
    let mut stbl = bx(b"stsd", &stsd);
    stbl.extend(extra());
    stbl.extend(bx(b"stsz", &stsz));
    stbl.extend(bx(b"free", &[0; 3]));
    stbl.extend(bx(if t.co64 { b"co64" } else { b"stco" }, &stco));
    let mut minf = extra();
    minf.extend(bx(b"stbl", &stbl));
    let mut mdia = bx(b"mdhd", &mdhd);
    mdia.extend(bx(b"hdlr", &hdlr));
    mdia.extend(bx(b"minf", &minf));
    let mut trak = bx(b"tkhd", &tkhd);
    trak.extend(extra());
    trak.extend(bx(b"mdia", &mdia));
    bx(b"trak", &trak)
}

/// Where things ended up.
#[derive(Debug, Default, Clone)]
pub struct Cr3At {
    pub cmt: [usize; 4],
    pub tracks: Vec<u64>,
    pub prvw: u64,
    pub spots: Vec<usize>,
}

impl Cr3 {
    pub fn build(&self) -> (Vec<u8>, Cr3At) {
        // Twice: offsets do not change sizes.
        let mut at = Cr3At {
            tracks: vec![0; self.tracks.len()],
            ..Default::default()
        };
        let (b1, a1) = self.pass(&at);
        at = a1;
        let (b2, a2) = self.pass(&at);
        assert_eq!(b1.len(), b2.len());
        (b2, a2)
    }
    fn pass(&self, at: &Cr3At) -> (Vec<u8>, Cr3At) {
        let mut r = crate::gen::Rng::new(self.noise);
        let mut extra = |k: u64| -> Vec<u8> {
            if self.noise == 0 || r.below(k) != 0 {
                return vec![];
            }
            let n = r.below(40) as usize;
            let name = [*b"free", *b"skip", *b"abcd", *b"Xyz "][r.below(4) as usize];
            let data: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            if r.below(4) == 0 {
                bx64(&name, &data)
            } else {
                bx(&name, &data)
            }
        };
        let mut o = bx(b"ftyp", b"crx \0\0\0\x01crx isom");
        o.extend(extra(2));
        // The Canon header
        let mut craw = vec![];
        craw.extend(bx(b"CNCV", b"CanonCR3_001/00.09.00/00.00.00"));
        craw.extend(extra(2));
        let mut ctbo = 4_u32.to_be_bytes().to_vec();
        let ent: [(u64, u64); 4] = [
            (16, 16),
            (at.prvw.wrapping_sub(56), self.prvw.as_ref().map_or(0, |p| p.2.len() as u64 + 56)),
            (*at.tracks.first().unwrap_or(&1), 8),
            (0, 0),
        ];
        for (i, e) in ent.iter().enumerate() {
            ctbo.extend_from_slice(&(i as u32 + 1).to_be_bytes());
            ctbo.extend_from_slice(&e.0.to_be_bytes());
            ctbo.extend_from_slice(&e.1.to_be_bytes());
        }
        craw.extend(bx(b"CTBO", &ctbo));
        craw.extend(extra(2));
        let mut rel = [0_usize; 4];
        for (i, m) in self.cmt.iter().enumerate() {
            if let Some(m) = m {
                rel[i] = craw.len() + 8;
                craw.extend(bx(&[b'C', b'M', b'T', b'1' + i as u8], m));
                craw.extend(extra(3));
            }
        }
        if let Some((w, h, d)) = &self.thmb {
            let mut t = vec![0; 4];
            t.extend_from_slice(&w.to_be_bytes());
            t.extend_from_slice(&h.to_be_bytes());
            t.extend_from_slice(&(d.len() as u32).to_be_bytes());
            t.extend_from_slice(&[0, 1, 0, 0]);
            t.extend_from_slice(d);
            craw.extend(bx(b"THMB", &t));
        }
        craw.extend(extra(2));
        let mut moov = extra(3);
        let mut uuid = CANON_UUID.to_vec();
        let craw_in_uuid = 8 + 16;
        uuid.extend_from_slice(&craw);
        let uuid_at = moov.len();
        moov.extend(bx(b"uuid", &uuid));
        let mut mvhd = vec![0; 12];
        mvhd.extend_from_slice(&1_u32.to_be_bytes());
        mvhd.extend_from_slice(&[0; 84]);
        moov.extend(bx(b"mvhd", &mvhd));
        for (i, t) in self.tracks.iter().enumerate() {
            moov.extend(extra(3));
            moov.extend(track_box(t, i as u32 + 1, at.tracks[i], &mut || extra(4)));
        }
        let moov_at = o.len() + 8;
        o.extend(bx(b"moov", &moov));
        let mut cmt = [0; 4];
        for i in 0..4 {
            cmt[i] = moov_at + uuid_at + craw_in_uuid + rel[i];
        }
        o.extend(extra(2));
        let mut xp = vec![0xbe, 0x7a, 0xcf, 0xcb, 0x97, 0xa9, 0x42, 0xe8, 0x9c, 0x71, 0x99, 0x94, 0x91, 0xe3, 0xaf, 0xac];
        xp.extend_from_slice(b"<x/>");
        o.extend(bx(b"uuid", &xp));
        let mut prvw_at = 0;
        if let Some((w, h, d)) = &self.prvw {
            let mut p = vec![0, 0, 0, 0, 0, 1];
            p.extend_from_slice(&w.to_be_bytes());
            p.extend_from_slice(&h.to_be_bytes());
            p.extend_from_slice(&[0, 1]);
            p.extend_from_slice(&(d.len() as u32).to_be_bytes());
            p.extend_from_slice(d);
            let mut u = PREVIEW_UUID.to_vec();
            u.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, 1]);
            u.extend(bx(b"PRVW", &p));
            // The table counts from the box; the data starts 56 bytes further.
            prvw_at = o.len() as u64 + 8 + 16 + 8 + 8 + 16;
            o.extend(bx(b"uuid", &u));
        }
        o.extend(extra(2));
        let mut mdat = vec![];
        let mut tr = vec![];
        let base = o.len() as u64 + 8;
        for t in &self.tracks {
            tr.push(base + mdat.len() as u64);
            mdat.extend_from_slice(&t.data);
        }
        o.extend(bx(b"mdat", &mdat));
        o.extend(extra(2));
        let mut spots: Vec<usize> = (0..o.len().min(base as usize).saturating_sub(4)).step_by(4).collect();
        spots.retain(|p| *p < 4096);
        (
            o,
            Cr3At {
                cmt,
                tracks: tr,
                prvw: prvw_at,
                spots,
            },
        )
    }
}

/// RAF: header, preview, tag list, CFA.
#[derive(Clone, Default, Debug)]
pub struct Raf {
    pub model: String,
    pub jpeg: Vec<u8>,
    /// tag, bytes
    pub meta: Vec<(u16, Vec<u8>)>,
    pub cfa: Vec<u8>,
    pub gaps: [usize; 4],
    /// What is placed first: a permutation of jpeg, meta, cfa
    pub perm: Vec<usize>,
    /// The tags and the raw data of the second exposure
    pub extra: Option<(Vec<(u16, Vec<u8>)>, Vec<u8>)>,
}
impl Raf {
    /// A second exposure, that no result is taken from
    pub fn second(&mut self, g: &mut crate::gen::G) {
        if !g.chance(1, 3) {
            return;
        }
        let mut meta = vec![];
        for (t, b) in &self.meta {
            if g.chance(2, 3) {
                let mut b = b.clone();
                for x in b.iter_mut() {
                    *x ^= g.u8() & 0xf;
                }
                meta.push((*t, b));
            }
        }
        let mut cfa = self.cfa.clone();
        cfa.truncate(2000);
        for x in cfa.iter_mut() {
            *x ^= g.u8() & 0x11;
        }
        self.extra = Some((meta, cfa));
    }
    pub fn meta_bytes(&self) -> Vec<u8> {
        Self::list_bytes(&self.meta)
    }
    pub fn list_bytes(list: &[(u16, Vec<u8>)]) -> Vec<u8> {
        let mut m = (list.len() as u32).to_be_bytes().to_vec();
        for (t, b) in list {
            m.extend_from_slice(&t.to_be_bytes());
            m.extend_from_slice(&(b.len() as u16).to_be_bytes());
            m.extend_from_slice(b);
        }
        m
    }
    /// The bytes, and where the preview, the tags and the CFA are
    pub fn build(&self) -> (Vec<u8>, [usize; 3]) {
        let mut o = b"FUJIFILMCCD-RAW ".to_vec();
        o.extend_from_slice(b"0201FF000001");
        let mut model = self.model.as_bytes().to_vec();
        model.resize(32, 0);
        o.extend_from_slice(&model);
        o.extend_from_slice(b"0100");
        o.resize(84, 0);
        o.resize(160 + self.gaps[0], 0);
        let parts = [self.jpeg.clone(), self.meta_bytes(), self.cfa.clone()];
        let mut at = [0; 3];
        for (k, i) in self.perm.iter().enumerate() {
            at[*i] = o.len();
            o.extend_from_slice(&parts[*i]);
            o.resize(o.len() + self.gaps[1 + k], 0x5a);
        }
        for i in 0..3 {
            let off = if parts[i].is_empty() { 0 } else { at[i] as u32 };
            o[84 + 8 * i..88 + 8 * i].copy_from_slice(&off.to_be_bytes());
            o[88 + 8 * i..92 + 8 * i].copy_from_slice(&(parts[i].len() as u32).to_be_bytes());
        }
        if let Some((meta, cfa)) = &self.extra {
            for (i, part) in [Self::list_bytes(meta), cfa.clone()].iter().enumerate() {
                let off = o.len() as u32;
                o[120 + 8 * i..124 + 8 * i].copy_from_slice(&off.to_be_bytes());
                o[124 + 8 * i..128 + 8 * i].copy_from_slice(&(part.len() as u32).to_be_bytes());
                o.extend_from_slice(part);
            }
        }
        (o, at)
    }
}
pub fn hw(h: u32, w: u32) -> Vec<u8> {
    let mut v = (h as u16).to_be_bytes().to_vec();
    v.extend_from_slice(&(w as u16).to_be_bytes());
    v
}

/// CIFF
#[derive(Clone, Debug)]
pub enum Rec {
    /// code, up to 8 bytes
    Inline(u16, Vec<u8>),
    Data(u16, Vec<u8>),
    Heap(u16, Vec<Rec>),
}
impl Rec {
    pub fn code(&self) -> u16 {
        match self {
            Rec::Inline(c, _) | Rec::Data(c, _) | Rec::Heap(c, _) => *c,
        }
    }
}

/// A heap: data of the records in the order given by `place`, then the table, then its offset.
/// `gap` bytes between pieces. `base` is where the heap is in the file; the places of data
/// records are added to `at`.
pub fn heap(o: Order, recs: &[Rec], place: &mut dyn FnMut(usize) -> (Vec<usize>, usize), base: usize, at: &mut Vec<(u16, usize)>) -> Vec<u8> {
    let (order, gap) = place(recs.len());
    let mut b = vec![];
    let mut where_ = vec![(0_u32, 0_u32); recs.len()];
    for i in order {
        b.resize(b.len() + gap, 0xa5);
        match &recs[i] {
            Rec::Inline(..) => {}
            Rec::Data(c, d) => {
                at.push((*c, base + b.len()));
                where_[i] = (d.len() as u32, b.len() as u32);
                b.extend_from_slice(d);
            }
            Rec::Heap(_, rs) => {
                let off = b.len();
                let h = heap(o, rs, place, base + off, at);
                where_[i] = (h.len() as u32, off as u32);
                b.extend(h);
            }
        }
    }
    b.resize(b.len() + gap, 0xa5);
    let table = b.len() as u32;
    b.extend_from_slice(&o.u16(recs.len() as u16));
    for (i, r) in recs.iter().enumerate() {
        match r {
            Rec::Inline(c, d) => {
                b.extend_from_slice(&o.u16(*c | 0x4000));
                let mut d = d.clone();
                d.resize(8, 0);
                b.extend_from_slice(&d);
            }
            _ => {
                b.extend_from_slice(&o.u16(r.code()));
                b.extend_from_slice(&o.u32(where_[i].0));
                b.extend_from_slice(&o.u32(where_[i].1));
            }
        }
    }
    b.resize(b.len() + gap, 0xa5);
    b.extend_from_slice(&o.u32(table));
    b
}

pub fn crw(o: Order, header_extra: usize, recs: &[Rec], place: &mut dyn FnMut(usize) -> (Vec<usize>, usize)) -> (Vec<u8>, Vec<(u16, usize)>) {
    let mut b = match o {
        Order::Le => b"II".to_vec(),
        Order::Be => b"MM".to_vec(),
    };
    let hl = 26 + header_extra;
    b.extend_from_slice(&o.u32(hl as u32));
    b.extend_from_slice(b"HEAPCCDR");
    b.extend_from_slice(&o.u32(0x0001_0002));
    b.resize(hl, 0);
    let mut at = vec![];
    let h = heap(o, recs, place, hl, &mut at);
    b.extend(h);
    (b, at)
}
