//! Files of every kind with previews in every place they can be in.

use libopenraw::{DataType, Type};

use crate::doc;
use crate::gen::G;
use crate::meta;
use crate::tiffw::{holes, Base, Built, Id, Order, Tiff, V};
use crate::wraps::{self, Rec};

/// A preview as it should be returned.
#[derive(Clone, Debug)]
pub struct P {
    pub w: u32,
    pub h: u32,
    pub kind: DataType,
    pub bytes: Vec<u8>,
    pub place: &'static str,
}
impl P {
    pub fn dim(&self) -> u32 {
        self.w.max(self.h)
    }
}

pub struct File {
    pub ty: Type,
    pub bytes: Vec<u8>,
    pub list: Vec<P>,
    pub spots: Vec<usize>,
}

pub const HOSTS: [Type; 17] = [
    Type::Dng,
    Type::Nef,
    Type::Cr2,
    Type::Cr3,
    Type::Pef,
    Type::Arw,
    Type::Orf,
    Type::Rw2,
    Type::Erf,
    Type::Jpeg,
    Type::Raf,
    Type::Mrw,
    Type::Crw,
    Type::Gpr,
    Type::Nrw,
    Type::Sr2,
    Type::Rw,
];

/// What is known before the places are.
struct Spec {
    w: u32,
    h: u32,
    kind: DataType,
    blob: Id,
    /// How much longer than it is the data is said to be
    over: u32,
    /// As returned if not as stored
    first: Option<u8>,
    /// Not listed again if there is one of that size
    once: bool,
    place: &'static str,
}

fn dims(g: &mut G) -> (u16, u16) {
    let one = |g: &mut G| match g.below(5) {
        0 => g.u32r(1, 9) as u16,
        1 => g.pickv(&[160, 120, 640, 480, 424, 1024, 1616, 1080]),
        2 => (g.edge(15) as u16).max(1),
        _ => g.u32r(10, 3000) as u16,
    };
    (one(g), one(g))
}

fn jp(g: &mut G, w: u16, h: u16) -> Vec<u8> {
    let n = if g.chance(1, 60) { g.pickv(&[255, 256, 4096, 8192, 9000, 20000]) } else { g.ur(0, 120) };
    let body = g.noise(n);
    wraps::jpeg(w, h, None, &body)
}

/// Width or length, in either integer type.
fn num(g: &mut G, v: u32) -> V {
    if v <= 0xffff && g.bool() {
        V::U16(vec![v as u16])
    } else {
        V::U32(vec![v])
    }
}

/// Perhaps a preview in that directory, perhaps something that isn't one.
fn in_dir(g: &mut G, t: &mut Tiff, d: Id, place: &'static str, list: &mut Vec<Spec>) {
    let style = g.below(12);
    if style == 0 {
        return;
    }
    let mut e: Vec<(u16, V)> = vec![];
    if g.bool() {
        e.push((0xfe, V::U32(vec![1])));
    }
    let strips = |t: &mut Tiff, e: &mut Vec<(u16, V)>, b: Vec<u8>, over: u32| {
        let n = b.len() as u32;
        let b = t.blob(b);
        e.push((0x111, V::Ptr(vec![b])));
        e.push((0x117, V::U32(vec![n + over])));
        b
    };
    let (w, h) = dims(g);
    let mut spec = |kind, w: u32, h: u32, blob, over| {
        list.push(Spec {
            w,
            h,
            kind,
            blob,
            over,
            first: None,
            once: false,
            place,
        })
    };
    match style {
        // JPEG, in a strip or by the JPEG tags, with the size in the directory or not
        1..=5 => {
            let in_strip = g.bool();
            let b = jp(g, w, h);
            let n = b.len() as u32;
            // What the directory says may differ from what the JPEG says.
            let (mut sw, mut sh) = (w as u32, h as u32);
            let state = g.below(4);
            if state == 0 {
                let x = dims(g);
                sw = x.0 as u32;
                sh = x.1 as u32;
            }
            let known = state < 3 && n < sw * sh * 3;
            if known {
                e.push((0x100, num(g, sw)));
                e.push((0x101, num(g, sh)));
            } else {
                sw = w as u32;
                sh = h as u32;
                // One of them alone, or zero, is no size.
                match g.below(4) {
                    0 => e.push((0x100, num(g, 77))),
                    1 => e.push((0x101, num(g, 77))),
                    2 => {
                        e.push((0x100, num(g, 0)));
                        e.push((0x101, num(g, 77)));
                    }
                    _ => {}
                }
            }
            let over = if g.chance(1, 8) && (!known || n + 1 << 20 < sw * sh * 3) { g.u32r(1, 1 << 20) } else { 0 };
            let over = if known && n + over >= sw * sh * 3 { 0 } else { over };
            if in_strip {
                e.push((0x103, V::U16(vec![g.pickv(&[6, 7])])));
                let b = strips(t, &mut e, b, over);
                spec(DataType::Jpeg, sw, sh, b, over);
            } else {
                if g.bool() {
                    e.push((0x103, V::U16(vec![g.pickv(&[6, 7, 1])])));
                }
                let b = t.blob(b);
                e.push((0x201, V::Ptr(vec![b])));
                e.push((0x202, V::U32(vec![n + over])));
                spec(DataType::Jpeg, sw, sh, b, over);
            }
        }
        // 8 bit RGB
        6..=8 => {
            let (w, h) = if g.chance(1, 30) {
                (g.pickv(&[u32::MAX, 1 << 20]), 1)
            } else if g.chance(1, 6) {
                (w as u32, h as u32)
            } else {
                (g.u32r(1, 24), g.u32r(1, 24))
            };
            let n = (w as u64 * h as u64 * 3).min(3000) as usize;
            let b = g.noise(n);
            e.push((0x100, num(g, w)));
            e.push((0x101, num(g, h)));
            match g.below(3) {
                0 => {}
                1 => e.push((0x103, V::U16(vec![1]))),
                _ => e.push((0x103, V::U16(vec![g.pickv(&[0, 5, 8, 32773])]))),
            }
            match g.below(3) {
                0 => {}
                1 => e.push((0x102, V::U16(vec![8, 8, 8]))),
                _ => e.push((0x102, V::U16(vec![8]))),
            }
            match g.below(3) {
                0 => {}
                1 => e.push((0x106, V::U16(vec![2]))),
                _ => e.push((0x106, V::U16(vec![g.pickv(&[0, 1, 32803, 34892])]))),
            }
            let over = if g.chance(1, 10) { g.u32r(1, 1 << 20) } else { 0 };
            let b = strips(t, &mut e, b, over);
            spec(DataType::PixmapRgb8, w, h, b, over);
        }
        // None of these is a preview
        _ => {
            let n = g.ur(8, 200);
            let b = g.noise(n);
            let _ = strips(t, &mut e, b, 0);
            match g.below(5) {
                0 => {
                    // The image itself
                    e.retain(|x| x.0 != 0xfe);
                    e.push((0xfe, V::U32(vec![g.pickv(&[0, 4, 2, 0x10001])])));
                    e.push((0x100, num(g, 10)));
                    e.push((0x101, num(g, 10)));
                }
                1 => {
                    // 16 bit
                    e.push((0x100, num(g, 10)));
                    e.push((0x101, num(g, 10)));
                    e.push((0x102, V::U16(g.pickv(&[&[16, 16, 16], &[8, 16, 8], &[8, 8, 16]]).to_vec())));
                }
                2 => {
                    // YCbCr without JPEG
                    e.push((0x100, num(g, 10)));
                    e.push((0x101, num(g, 10)));
                    e.push((0x106, V::U16(vec![6])));
                    e.push((0x103, V::U16(vec![1])));
                }
                3 => {
                    // RGB said to be JPEG
                    let k = (n as u32) / 3;
                    e.push((0x100, num(g, k)));
                    e.push((0x101, num(g, 1)));
                    e.push((0x103, V::U16(vec![6])));
                }
                _ => {
                    // No size
                    e.push((0x100, num(g, 0)));
                    e.push((0x101, num(g, 5)));
                }
            }
        }
    }
    t.d(d).entries.extend(e);
}

fn pad(g: &mut G, t: &mut Tiff) -> Id {
    let n = 2 * g.ur(0, 20);
    let b = g.noise(n);
    t.blob(b)
}

/// The maker note's previews of a TIFF file.
fn in_note(g: &mut G, ty: Type, o: Order, t: &mut Tiff, exif: Id, list: &mut Vec<Spec>) {
    let mut n = doc::note(g, ty, o);
    let (w, h) = dims(g);
    let spec = |w: u32, h: u32, blob, first, once, place| Spec {
        w,
        h,
        kind: DataType::Jpeg,
        blob,
        over: 0,
        first,
        once,
        place,
    };
    let mut prefer = |p: &[u8], base, id| {
        if !n.prefix.starts_with(p) || n.id != id {
            n.prefix = p.to_vec();
            n.base = base;
            n.id = id;
            n.table = "";
            n.order = None;
            n.first = None;
        }
    };
    let olympus = [(b"OLYMPUS\0II\x03\0".to_vec(), Base::Node(0)), (b"OLYMP\0\x01\0".to_vec(), Base::File)];
    match ty {
        Type::Orf => {
            let k = g.idx(2);
            prefer(&olympus[k].0, olympus[k].1, if k == 0 { "Exif.Olympus2" } else { "Exif.Olympus" });
        }
        Type::Erf => prefer(b"EPSON\0\x01\0", Base::File, "Exif.Epson"),
        Type::Dng | Type::Gpr if g.bool() => prefer(b"LEICA\0\x02\xff", Base::File, "Exif.Leica6"),
        Type::Pef => {
            if g.bool() {
                prefer(b"AOC\0MM", Base::File, "Exif.Pentax")
            } else {
                prefer(b"PENTAX \0MM", Base::Node(0), "Exif.Pentax")
            }
        }
        _ => {}
    }
    let extra = g.ur(1, 5);
    let mut avoid: Vec<u16> = n.first.iter().map(|f| f.0).collect();
    avoid.extend([0x11, 0x100, 0x280, 0x300, 3, 4, 0x2020, 0x201, 0x202]);
    let mut e = meta::entries(g, extra, n.table, &avoid);
    let id = doc::add_note(t, &n, vec![]);
    t.add(exif, 0x927c, V::Note(id));
    let k = match n.base {
        Base::File | Base::At(..) => None,
        Base::Node(k) => Some(k),
    };
    let at = |b: Id| match k {
        None => V::Ptr(vec![b]),
        Some(k) => V::PtrRel(b, id, k),
    };
    let und = |b: Id, len: u32, v: V| {
        // UNDEFINED with that offset
        match v {
            V::Ptr(_) => V::Note(b),
            _ => V::PtrUnd(b, id, k.unwrap_or(0), len),
        }
    };
    let mut run = vec![id];
    run.push(pad(g, t));
    match ty {
        Type::Nef | Type::Nrw => {
            let b = jp(g, w, h);
            let len = b.len() as u32;
            let d = t.dir();
            let p = pad(g, t);
            let b = t.blob(b);
            run.extend([d, p, b]);
            t.add(d, 0x201, at(b));
            t.add(d, 0x202, V::U32(vec![len]));
            // TIFF's own type for directories is 13
            e.push((0x11, at(d)));
            list.push(spec(w as u32, h as u32, b, None, true, "maker note"));
        }
        Type::Pef => {
            let b = jp(g, w, h);
            let len = b.len() as u32;
            let b = t.blob(b);
            run.push(b);
            e.push((4, at(b)));
            e.push((3, num(g, len)));
            list.push(spec(w as u32, h as u32, b, None, true, "maker note"));
        }
        Type::Orf => {
            if g.bool() {
                let b = jp(g, w, h);
                let len = b.len() as u32;
                let b = t.blob(b);
                run.push(b);
                e.push((0x100, und(b, len, at(b))));
                list.push(spec(w as u32, h as u32, b, None, true, "maker note"));
            }
            if g.bool() {
                let (w, h) = dims(g);
                let b = jp(g, w, h);
                let len = b.len() as u32;
                let d = t.dir();
                let p = pad(g, t);
                let b = t.blob(b);
                run.extend([d, p, b]);
                // Whether there is one, where, of what length
                let lie = if g.chance(1, 3) { 1 + g.below(4) } else { 0 };
                let valid = lie == 0;
                if lie != 1 {
                    t.add(d, 0x100, V::U32(vec![if lie == 2 { 0 } else { g.u32r(1, 3) }]));
                }
                // (An offset of 0 is one in a note that has its own offsets)
                if lie != 3 || k.is_some() {
                    t.add(d, 0x101, at(b));
                } else if g.bool() {
                    t.add(d, 0x101, V::U32(vec![0]));
                }
                if lie < 3 || lie == 3 && k.is_none() {
                    t.add(d, 0x102, V::U32(vec![len]));
                } else if g.bool() {
                    t.add(d, 0x102, V::U32(vec![0]));
                }
                let v = match g.below(3) {
                    0 if k.is_none() => V::Note(d),
                    1 => V::PtrIfd(d, k.map(|k| (id, k))),
                    _ => at(d),
                };
                e.push((0x2020, v));
                if valid {
                    list.push(spec(w as u32, h as u32, b, None, true, "camera settings"));
                }
            }
        }
        Type::Erf => {
            let mut b = jp(g, w, h);
            if g.bool() {
                b[0] = g.u8();
            }
            let b = t.blob(b);
            run.push(b);
            e.push((0x280, V::Note(b)));
            list.push(spec(640, 424, b, Some(0xff), false, "maker note"));
        }
        Type::Dng | Type::Gpr => {
            let b = jp(g, w, h);
            let b = t.blob(b);
            run.push(b);
            if k.is_none() {
                e.push((0x300, V::Note(b)));
            }
            if n.id == "Exif.Leica6" {
                list.push(spec(w as u32, h as u32, b, None, true, "maker note"));
            }
        }
        _ => {}
    }
    t.d(id).entries.extend(e);
    t.runs.push(run);
}

fn settle(specs: &[Spec], t: &Tiff, b: &Built, file: &[u8], shift: usize) -> Vec<P> {
    let _ = t;
    let mut out: Vec<P> = vec![];
    for s in specs {
        let at = b.off[s.blob] as usize + shift;
        let end = (at + (b.size[s.blob] + s.over) as usize).min(file.len());
        let mut bytes = file[at..end].to_vec();
        if let Some(f) = s.first {
            bytes[0] = f;
        }
        let p = P {
            w: s.w,
            h: s.h,
            kind: s.kind,
            bytes,
            place: s.place,
        };
        if s.once && out.iter().any(|x| x.dim() == p.dim()) {
            continue;
        }
        out.push(p);
    }
    out
}

/// An EXIF block whose second directory has a thumbnail.
fn exif_thumb(g: &mut G, thumb: &[u8]) -> Vec<u8> {
    let o = meta::order(g);
    let mut t = Tiff::new(o);
    let a = t.dir();
    t.first(a);
    let n = g.ur(1, 4);
    let e = meta::entries(g, n, "EXIF_TAG_NAMES", &[0x111, 0x201, 0x202]);
    t.d(a).entries.extend(e);
    let d = t.dir();
    t.next(a, d);
    let b = t.blob(thumb.to_vec());
    t.add(d, 0x201, V::Ptr(vec![b]));
    t.add(d, 0x202, V::Len(vec![b]));
    t.add(d, 0x103, V::U16(vec![6]));
    if g.bool() {
        let c = t.dir();
        t.next(d, c);
        let e = meta::entries(g, 2, "EXIF_TAG_NAMES", &[]);
        t.d(c).entries.extend(e);
    }
    t.build(g).bytes
}

/// A JPEG with perhaps a thumbnail in it, and perhaps other segments before its EXIF block.
fn big_jpeg(g: &mut G, w: u16, h: u16) -> (Vec<u8>, Option<(u16, u16, Vec<u8>)>) {
    let thumb = if g.chance(3, 4) {
        let (tw, th) = dims(g);
        let b = jp(g, tw, th);
        Some((tw, th, b))
    } else {
        None
    };
    let exif = thumb.as_ref().map(|x| exif_thumb(g, &x.2));
    let n = if g.chance(1, 60) { g.ur(60000, 70000) } else { g.ur(0, 200) };
    let body = g.noise(n);
    let mut j = wraps::jpeg(w, h, exif.as_deref(), &body);
    if g.chance(1, 3) {
        let mut app0 = vec![0xff, 0xe0, 0, 16];
        app0.extend_from_slice(b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0");
        let at = 2;
        j.splice(at..at, app0);
        g.label("EXIF is not the first segment");
    }
    (j, thumb)
}

fn jpg(w: u32, h: u32, bytes: Vec<u8>, place: &'static str) -> P {
    P {
        w,
        h,
        kind: DataType::Jpeg,
        bytes,
        place,
    }
}

pub fn file(g: &mut G, ty: Type) -> File {
    let f = match ty {
        Type::Jpeg => {
            let (w, h) = dims(g);
            let (bytes, thumb) = big_jpeg(g, w, h);
            File {
                ty,
                spots: (0..bytes.len().min(600)).collect(),
                bytes,
                list: thumb.into_iter().map(|t| jpg(160, 120, t.2, "EXIF")).collect(),
            }
        }
        Type::Raf => {
            let (w, h) = dims(g);
            let (jpeg, thumb) = big_jpeg(g, w, h);
            let mut r = wraps::Raf {
                model: "FinePix X100".into(),
                jpeg: jpeg.clone(),
                meta: vec![(0x100, wraps::hw(8, 8))],
                cfa: vec![0; 64],
                gaps: [g.ur(0, 9), g.ur(0, 9), g.ur(0, 9), g.ur(0, 9)],
                perm: vec![],
                extra: None,
            };
            r.perm = g.perm(3);
            r.second(g);
            let (bytes, _) = r.build();
            let mut list = vec![jpg(w as u32, h as u32, jpeg, "header")];
            list.extend(thumb.map(|t| jpg(t.0 as u32, t.1 as u32, t.2, "EXIF")));
            File {
                ty,
                spots: (84..112).step_by(4).collect(),
                bytes,
                list,
            }
        }
        Type::Cr3 => {
            let mut c = wraps::Cr3 {
                noise: g.below(4) * g.below(1 << 32),
                ..Default::default()
            };
            let mut list = vec![];
            if g.chance(3, 4) {
                let (w, h) = dims(g);
                let b = jp(g, w, h);
                list.push(jpg(w as u32, h as u32, b.clone(), "THMB"));
                c.thmb = Some((w, h, b));
            } else if g.bool() {
                c.thmb = Some((0, 0, vec![]));
            }
            for _ in 0..g.below(5) {
                let (w, h) = dims(g);
                let jpeg = g.bool();
                let b = if jpeg { jp(g, w, h) } else { g.noise(50) };
                let mut t = wraps::Track {
                    w,
                    h,
                    jpeg,
                    data: b.clone(),
                    kind: if g.chance(3, 4) { 0 } else { g.pickv(&[1, 2]) },
                    stsz_list: g.bool(),
                    co64: g.bool(),
                    more: [0; 3],
                };
                t.several(g);
                if t.kind == 0 && jpeg {
                    list.push(jpg(w as u32, h as u32, b, "track"));
                }
                c.tracks.push(t);
            }
            if g.chance(3, 4) {
                let (w, h) = dims(g);
                let b = jp(g, w, h);
                c.prvw = Some(match g.below(12) {
                    // Said to be nothing
                    0 => (0, h, b),
                    1 => (w, 0, b),
                    2 => (w, h, vec![]),
                    _ => {
                        list.push(jpg(w as u32, h as u32, b.clone(), "PRVW"));
                        (w, h, b)
                    }
                });
            }
            let (bytes, at) = c.build();
            if c.thmb.is_none() {
                // Without one the header holds no thumbnail; the box is required.
            }
            File {
                ty,
                bytes,
                list,
                spots: at.spots,
            }
        }
        Type::Crw => {
            let o = meta::order(g);
            let mut recs = vec![];
            let n = g.ur(0, 5);
            for i in 0..n {
                let d = g.noise(10);
                recs.push(match g.below(3) {
                    0 => Rec::Inline(0x0032 + i as u16, d[..8].to_vec()),
                    1 => Rec::Data(0x1900 + i as u16, d),
                    _ => Rec::Heap(0x3100 + i as u16, vec![Rec::Data(0x2007, d)]),
                });
            }
            let mut list = vec![];
            if g.chance(4, 5) {
                let (w, h) = dims(g);
                let mut b = jp(g, w, h);
                if g.chance(1, 8) {
                    // Not a JPEG file
                    b[0] = g.below(255) as u8;
                } else {
                    list.push(jpg(w as u32, h as u32, b.clone(), "heap"));
                }
                recs.push(Rec::Data(0x2007, b));
            }
            let p = g.perm(recs.len());
            let recs: Vec<Rec> = p.iter().map(|i| recs[*i].clone()).collect();
            let extra = 2 * g.ur(0, 9);
            let (bytes, _) = wraps::crw(o, extra, &recs, &mut |n| (g.perm(n), 2 * g.ur(0, 4)));
            let end = bytes.len();
            File {
                ty,
                list,
                spots: (0..26).step_by(2).chain(end.saturating_sub(200)..end).collect(),
                bytes,
            }
        }
        Type::Rw2 | Type::Rw => {
            let mut t = Tiff::new(Order::Le);
            t.header[..4].copy_from_slice(b"IIU\0");
            let d = t.dir();
            t.first(d);
            let n = g.ur(1, 6);
            let e = meta::entries(g, n, "RAW_PANASONIC_TAG_NAMES", &[0x2e]);
            t.d(d).entries.extend(e);
            let mut list = vec![];
            if g.chance(5, 6) {
                let (w, h) = dims(g);
                let (jpeg, thumb) = big_jpeg(g, w, h);
                let b = t.blob(jpeg.clone());
                t.add(d, 0x2e, V::Note(b));
                list.extend(thumb.map(|t| jpg(160, 120, t.2, "EXIF")));
                list.push(jpg(w as u32, h as u32, jpeg, "JpegFromRaw"));
            }
            t.trail = g.ur(0, 40);
            t.roomy = true;
            let b = t.build(g);
            File {
                ty,
                bytes: b.bytes,
                list,
                spots: b.spots,
            }
        }
        Type::Mrw => {
            let mut t = Tiff::new(Order::Be);
            let d = t.dir();
            t.first(d);
            let e = meta::entries(g, 3, "EXIF_TAG_NAMES", &[]);
            t.d(d).entries.extend(e);
            let x = t.dir();
            t.add(d, 0x8769, V::Ptr(vec![x]));
            let note = t.dir();
            t.d(note).tail = 8;
            t.add(x, 0x927c, V::Note(note));
            let e = meta::entries(g, 3, "MNOTE_MINOLTA_TAG_NAMES", &[0, 0x81, 0x88, 0x89]);
            t.d(note).entries.extend(e);
            if g.bool() {
                t.add(note, 0, V::X(b"MLT0".to_vec()));
            }
            let (w, h) = dims(g);
            let mut j = jp(g, w, h);
            j[0] = g.u8();
            let len = j.len() as u32;
            let b = t.blob(j.clone());
            let style = g.below(8);
            match style {
                0 => t.add(note, 0x81, V::Note(b)),
                1 => match g.below(3) {
                    0 => {}
                    1 => {
                        t.add(note, 0x88, V::U32(vec![0]));
                        t.add(note, 0x89, num(g, len));
                    }
                    _ => {
                        t.add(note, 0x88, V::Ptr(vec![b]));
                        t.add(note, 0x89, num(g, 0));
                    }
                },
                _ => {
                    t.add(note, 0x88, V::Ptr(vec![b]));
                    t.add(note, 0x89, num(g, len));
                }
            }
            let mut list = vec![];
            if style != 1 {
                j[0] = 0xff;
                list.push(jpg(640, 480, j, "maker note"));
            }
            t.trail = 8;
            let b = t.build(g);
            let prd = wraps::Prd {
                version: *b"27660001",
                w: 4,
                h: 4,
                bits: 12,
                packed: true,
                bayer: 1,
            }
            .bytes(Order::Be);
            let mut blocks: Vec<(&[u8; 3], Vec<u8>)> = vec![(b"PRD", prd), (b"TTW", b.bytes.clone())];
            if g.bool() {
                blocks.push((b"WBG", vec![0; 12]));
            }
            if g.bool() {
                blocks.push((b"PAD", vec![7; 12]));
            }
            let p = g.perm(blocks.len());
            let blocks: Vec<_> = p.iter().map(|i| blocks[*i].clone()).collect();
            let (bytes, at) = wraps::mrw(Order::Be, &blocks, &[0; 24]);
            let mut spots: Vec<usize> = vec![];
            for (i, bl) in blocks.iter().enumerate() {
                spots.extend([at[i] - 8, at[i] - 4]);
                if bl.0 == b"TTW" {
                    spots.extend(b.spots.iter().map(|s| s + at[i]));
                }
            }
            File { ty, bytes, list, spots }
        }
        _ => {
            let o = meta::order(g);
            let mut t = Tiff::new(o);
            doc::header(&mut t, ty, g);
            let mut specs = vec![];
            let n = if ty == Type::Cr2 { g.ur(1, 4) } else { 1 + g.idx(4) };
            let chain: Vec<Id> = (0..n).map(|_| t.dir()).collect();
            t.first(chain[0]);
            let mut subs = vec![];
            for (i, d) in chain.iter().enumerate() {
                if i + 1 < n {
                    t.next(*d, chain[i + 1]);
                }
                t.add(*d, 0x10f, crate::tiffw::s("Maker"));
                let raw = ty == Type::Cr2 && i == 3;
                let mut throw = vec![];
                in_dir(g, &mut t, *d, "directory", if raw { &mut throw } else { &mut specs });
                if g.chance(1, 3) {
                    let k = g.ur(1, 3);
                    let ids: Vec<Id> = (0..k).map(|_| t.dir()).collect();
                    for s in &ids {
                        in_dir(g, &mut t, *s, "sub directory", if raw { &mut throw } else { &mut specs });
                    }
                    subs.extend(ids.clone());
                    let ids = holes(g, ids);
                    t.add(*d, 0x14a, V::Ptr(ids));
                }
            }
            if g.chance(2, 3) {
                let x = t.dir();
                t.add(chain[0], 0x8769, V::Ptr(vec![x]));
                in_note(g, ty, o, &mut t, x, &mut specs);
            }
            t.trail = 16 + g.ur(0, 100);
            t.roomy = ty != Type::Jpeg;
            let b = t.build(g);
            let list = settle(&specs, &t, &b, &b.bytes, 0);
            File {
                ty,
                bytes: b.bytes,
                list,
                spots: b.spots,
            }
        }
    };
    g.input(&f.bytes);
    f
}
