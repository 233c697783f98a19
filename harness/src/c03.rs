//! C03: a file is recognised as the type its content or name says.

use std::os::unix::ffi::OsStrExt;

use libopenraw::{Error, Type};

use crate::api::{self, Via};
use crate::gen::G;
use crate::meta;
use crate::run::{fail, Check, Sub, R};
use crate::tiffw::{Order, Tiff, V};
use crate::wraps;

const EXT: [(&str, Type); 17] = [
    ("arw", Type::Arw),
    ("cr2", Type::Cr2),
    ("cr3", Type::Cr3),
    ("dng", Type::Dng),
    ("erf", Type::Erf),
    ("jpg", Type::Jpeg),
    ("jpeg", Type::Jpeg),
    ("gpr", Type::Gpr),
    ("nef", Type::Nef),
    ("nrw", Type::Nrw),
    ("orf", Type::Orf),
    ("pef", Type::Pef),
    ("raf", Type::Raf),
    ("raw", Type::Rw),
    ("rw2", Type::Rw2),
    ("rwl", Type::Rw2),
    ("sr2", Type::Sr2),
];

const MIME: [(Type, &str); 15] = [
    (Type::Arw, "image/x-sony-arw"),
    (Type::Cr2, "image/x-canon-cr2"),
    (Type::Cr3, "image/x-canon-cr3"),
    (Type::Crw, "image/x-canon-crw"),
    (Type::Dng, "image/x-adobe-dng"),
    (Type::Erf, "image/x-epson-erf"),
    (Type::Mrw, "image/x-minolta-mrw"),
    (Type::Nef, "image/x-nikon-nef"),
    (Type::Nrw, "image/x-nikon-nrw"),
    (Type::Orf, "image/x-olympus-orf"),
    (Type::Pef, "image/x-pentax-pef"),
    (Type::Raf, "image/x-fuji-raf"),
    (Type::Rw, "image/x-panasonic-rw"),
    (Type::Rw2, "image/x-panasonic-rw2"),
    (Type::Sr2, "image/x-sony-sr2"),
];

/// What a file opened as `t` says it is: variants are the format they are a variant of.
fn family(t: Type) -> Option<Type> {
    Some(match t {
        Type::Gpr => Type::Dng,
        Type::Nrw => Type::Nef,
        Type::Rw => Type::Rw2,
        Type::Sr2 => Type::Arw,
        Type::Tiff | Type::Unknown => return None,
        t => t,
    })
}

fn mime(t: Type) -> Option<&'static str> {
    MIME.iter().find(|m| m.0 == t).map(|m| m.1)
}

fn kind(e: &Error) -> String {
    api::err(e)
}

fn judge(bytes: &[u8], r: libopenraw::Result<libopenraw::RawFileHandle>, want: Option<Type>, what: &str) -> R {
    match (r, want) {
        (Ok(h), Some(t)) => {
            ensure_eq!(h.type_(), t, "type", "{what} {:02x?}", &bytes[..bytes.len().min(24)]);
            match mime(t) {
                Some(m) => ensure_eq!(h.mime_type(), m, "mime", "{what}"),
                None => ensure!(MIME.iter().all(|m| m.1 != h.mime_type()), "mime", "{what} {}", h.mime_type()),
            }
            Ok(())
        }
        (Err(e), None) => {
            let w = if bytes.len() <= 4 { "Err(BufferTooSmall)" } else { "Err(UnrecognizedFormat)" };
            ensure_eq!(kind(&e), w.to_string(), "refusal", "{what} {} bytes", bytes.len());
            Ok(())
        }
        (Ok(h), None) => fail("accepted", format!("{what}: {:?} for {:02x?}", h.type_(), &bytes[..bytes.len().min(24)])),
        (Err(e), Some(t)) => fail("refused", format!("{what}: {} instead of {t:?} for {:02x?}", kind(&e), &bytes[..bytes.len().min(24)])),
    }
}

/// Something whose type the content alone tells, or nothing does.
fn content(g: &mut G) -> (Vec<u8>, Option<Type>) {
    let tail = |g: &mut G, b: &[u8]| {
        let n = g.ur(0, 60);
        let mut v = b.to_vec();
        v.extend(g.noise(n));
        v
    };
    match g.below(16) {
        0 => {
            let marker = g.pickv(&[0xdb, 0xe0, 0xe1, 0xe2, 0xee, 0xfe, 0xc0, 0xc4]);
            let mut v = tail(g, &[0xff, 0xd8, 0xff, marker]);
            v.push(0);
            (v, Some(Type::Jpeg))
        }
        1 => {
            let mut v = tail(g, b"\0MRM");
            v.push(0);
            (v, Some(Type::Mrw))
        }
        2 => {
            let mut v = vec![0, 0, 0, g.u8()];
            v.extend_from_slice(b"ftypcrx ");
            (tail(g, &v), Some(Type::Cr3))
        }
        3 => (tail(g, b"II\x1a\0\0\0HEAPCCDR"), Some(Type::Crw)),
        4 => {
            let k: &[u8] = g.pickv(&[b"IIRO", b"IIRS"]);
            let mut v = tail(g, k);
            v.push(8);
            (v, Some(Type::Orf))
        }
        5 => {
            let mut v = tail(g, b"IIU\0");
            v.push(8);
            (v, Some(Type::Rw2))
        }
        6 => (tail(g, b"FUJIFILMCCD-RAW "), Some(Type::Raf)),
        7 => {
            // Canon says so after the header.
            let o = meta::order(g);
            let mut t = Tiff::new(o);
            t.header.extend_from_slice(b"CR\x02\0\0\0\0\0");
            let d = t.dir();
            t.first(d);
            if g.bool() {
                t.add(d, 0x10f, crate::tiffw::s("NIKON"));
            }
            (t.build(g).bytes, Some(Type::Cr2))
        }
        8..=12 => tiff(g),
        13 => {
            // Signatures with a byte that is wrong, or cut short.
            let k: &[u8] = g.pickv(&[
                b"\0MRM" as &[u8],
                b"\0\0\0\x18ftypcrx ",
                b"II\x1a\0\0\0HEAPCCDR",
                b"IIRO",
                b"IIU\0",
                b"FUJIFILMCCD-RAW ",
                b"II\x2a\0",
                b"MM\0\x2a",
                b"\xff\xd8\xff",
            ]);
            let mut v = k.to_vec();
            if v.len() > 4 && g.bool() {
                v.truncate(g.ur(5, v.len() - 1));
            } else {
                let at = if v.starts_with(b"\0\0\0") { 4 + g.idx(8) } else { g.idx(v.len()) };
                let x = v[at];
                v[at] = x ^ g.pickv(&[0x80, 0x40, 0x11, 0x04]);
                v.extend_from_slice(&[0; 12]);
            }
            (v, None)
        }
        14 => {
            let n = g.ur(0, 4);
            let k: &[u8] = g.pickv(&[b"\xff\xd8\xff\xdb" as &[u8], b"\0MRM", b"IIRO", b"IIU\0", b"MM\0\x2a", b"abcd"]);
            (k[..n].to_vec(), None)
        }
        _ => {
            let n = g.ur(5, 40);
            let mut v = g.noise(n);
            v[0] = g.pickv(b"abcdZ\x01 ");
            if v.len() > 8 && &v[4..8] == b"ftyp" {
                v[4] = b'x';
            }
            (v, None)
        }
    }
}

fn tiff(g: &mut G) -> (Vec<u8>, Option<Type>) {
    let o = meta::order(g);
    let mut t = Tiff::new(o);
    let d = t.dir();
    t.first(d);
    let n = g.ur(0, 8);
    let e = meta::entries(g, n, "EXIF_TAG_NAMES", &[0x10f, 0xc612]);
    t.d(d).entries.extend(e);
    let makes: [(&str, Option<Type>); 22] = [
        ("NIKON CORPORATION", Some(Type::Nef)),
        ("NIKON", Some(Type::Nef)),
        ("THE NIKON", Some(Type::Nef)),
        ("SEIKO EPSON CORP.", Some(Type::Erf)),
        ("SEIKO EPSON CORP", None),
        ("PENTAX Corporation ", Some(Type::Pef)),
        ("PENTAX Corporation", None),
        ("SONY", Some(Type::Arw)),
        ("SONY ", Some(Type::Arw)),
        ("by SONY Corp", Some(Type::Arw)),
        ("Canon", Some(Type::Cr2)),
        ("Canon Inc.", None),
        ("CANON", None),
        ("Nikon", None),
        ("sony", None),
        ("Panasonic", None),
        ("", None),
        ("Apple", None),
        ("OLYMPUS", None),
        ("Leica Camera AG", None),
        ("NIKO", None),
        ("SON", None),
    ];
    let mut want = None;
    if g.chance(4, 5) {
        let (m, w) = g.pickv(&makes);
        let mut b = m.as_bytes().to_vec();
        if g.chance(4, 5) {
            b.push(0);
            if g.chance(1, 4) {
                b.extend_from_slice(b"SONY NIKON");
            }
        }
        t.add(d, 0x10f, V::A(b));
        want = w;
    } else if g.bool() {
        // Says so in the wrong type, or in another tag
        t.add(d, 0x110, crate::tiffw::s("NIKON D1"));
    }
    if g.chance(1, 3) {
        let v = g.pickv(&[1, 2, 3]);
        t.add(d, 0xc612, if v == 1 { V::U8(vec![1, 4, 0, 0]) } else { V::U8(vec![1, 1, 0, 0, 9]) });
        want = Some(Type::Dng);
    }
    let next = t.dir();
    if g.bool() {
        // What the second directory says does not count.
        t.next(d, next);
        t.add(next, 0x10f, crate::tiffw::s("Canon"));
        t.add(next, 0xc612, V::U8(vec![1, 4, 0, 0]));
    }
    t.trail = 24;
    let mut b = t.build(g).bytes;
    if g.chance(1, 10) {
        b[4..8].copy_from_slice(&o.u32(0x7fff_0000));
        want = None;
    }
    // The header must not say CR2 by accident.
    if &b[8..11] == b"CR\x02" {
        want = Some(Type::Cr2);
    }
    (b, want)
}

fn by_content(g: &mut G) -> R {
    let (b, want) = content(g);
    g.input(&b);
    if want.is_some() {
        g.nontrivial();
    }
    g.label(if want.is_some() { "recognised" } else { "refused" });
    let via = g.pickv(&[Via::Memory, Via::Memory, Via::Cursor, Via::File]);
    judge(&b, api::open(&b, None, via), want, &format!("content {via:?}"))
}

fn by_hint(g: &mut G) -> R {
    let (b, _) = content(g);
    let t = g.pickv(&api::TYPES);
    g.input(&b);
    let via = g.pickv(&[Via::Memory, Via::Memory, Via::Cursor, Via::File]);
    let r = api::open(&b, Some(t), via);
    match family(t) {
        Some(f) => {
            g.nontrivial();
            judge(&b, r, Some(f), "hint")
        }
        None => match r {
            Ok(h) => fail("accepted", format!("{t:?} opened as {:?}", h.type_())),
            Err(e) => {
                ensure_eq!(kind(&e), "Err(UnrecognizedFormat)".to_string(), "refusal", "hint {t:?}");
                Ok(())
            }
        },
    }
}

fn by_name(g: &mut G) -> R {
    let (b, by_content) = content(g);
    let dir = api::scratch().join(format!("c03-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut stem = match g.below(5) {
        0 => "IMG.cr2".to_string(),
        1 => ".nef.x".to_string(),
        2 => "a b".to_string(),
        3 => "é".to_string(),
        _ => g.ascii(1, 12).replace(['/', '\0'], "_"),
    };
    if stem.chars().all(|c| c == '.') {
        stem = "x".into();
    }
    let mut name = stem.into_bytes();
    let mut want = by_content;
    match g.below(6) {
        0..=3 => {
            let (e, t) = g.pickv(&EXT);
            let mode = g.below(3);
            name.push(b'.');
            for c in e.bytes() {
                let up = match mode {
                    0 => false,
                    1 => true,
                    _ => g.bool(),
                };
                name.push(if up { c.to_ascii_uppercase() } else { c });
            }
            want = family(t);
            g.nontrivial();
            g.label("extension");
        }
        4 => {
            let e: &[u8] = g.pickv(&[b"txt" as &[u8], b"cr", b"cr22", b"tif", b"", b"n\xffef", b"\xff\xfe", b"c\xcc\x81r2", b"jp", b"rwx", b"CR2 "]);
            name.push(b'.');
            name.extend_from_slice(e);
            g.label("unknown extension");
        }
        _ => {
            // Nothing after the last dot that could count
            name.retain(|c| *c != b'.');
            if name.is_empty() {
                name.push(b'x');
            }
        }
    }
    let path = dir.join(std::ffi::OsStr::from_bytes(&name));
    g.input(&name);
    g.input(&b);
    std::fs::write(&path, &b).unwrap();
    let hint = if g.chance(1, 4) { Some(g.pickv(&api::TYPES[..16])) } else { None };
    let r = libopenraw::rawfile_from_file(&path, hint);
    let _ = std::fs::remove_file(&path);
    let what = format!("name {:?} hint {hint:?}", String::from_utf8_lossy(&name));
    if let Some(t) = hint {
        g.label("hint wins");
        return judge(&b, r, family(t), &what);
    }
    judge(&b, r, want, &what)
}

/// What is advertised can be opened.
fn tables(g: &mut G) -> R {
    let all = libopenraw::mime_types();
    let i = g.idx(all.len().max(MIME.len()));
    ensure_eq!(all.len(), MIME.len(), "mime count");
    let m = all[i].as_str();
    let t = match MIME.iter().find(|x| x.1 == m) {
        Some(t) => t.0,
        None => return fail("mime unknown", m.to_string()),
    };
    ensure_eq!(libopenraw::type_for_mime_type(m), Some(t), "mime type", "{m}");
    g.nontrivial();
    let b = b"II\x2a\0\x08\0\0\0\0\0\0\0\0\0\0\0";
    judge(b, api::open(b, Some(t), Via::Memory), family(t), m)?;
    let ext = libopenraw::extensions();
    let e = g.pick(ext).clone();
    match EXT.iter().find(|x| x.0 == e) {
        None => fail("extension unknown", e),
        Some((_, t)) => {
            let p = api::scratch().join(format!("c03-{}.{e}", std::process::id()));
            std::fs::write(&p, b).unwrap();
            let r = libopenraw::rawfile_from_file(&p, None);
            let _ = std::fs::remove_file(&p);
            judge(b, r, family(*t), &format!("extension {e}"))
        }
    }?;
    for (e, _) in EXT.iter().filter(|e| !e.0.starts_with("jp")) {
        ensure!(ext.iter().any(|x| x == e), "extension missing", "{e}");
    }
    // What is not a MIME type it knows
    let mut w = m.to_string();
    match g.below(4) {
        0 => {
            w.pop();
        }
        1 => w.push('x'),
        2 => w = w.to_uppercase(),
        _ => w = format!(" {w}"),
    }
    if MIME.iter().all(|m| m.1 != w) {
        ensure_eq!(libopenraw::type_for_mime_type(&w), None, "mime nonsense", "{w}");
    }
    Ok(())
}

/// Whole files of each kind, without being told.
fn whole(g: &mut G) -> R {
    let (b, want): (Vec<u8>, Option<Type>) = match g.below(5) {
        0 => (wraps::rand_jpeg(g, 16, 16), Some(Type::Jpeg)),
        1 => {
            let d = crate::doc::doc(g, Type::Mrw);
            (d.bytes, Some(Type::Mrw))
        }
        2 => (crate::doc::doc(g, Type::Cr3).bytes, Some(Type::Cr3)),
        3 => (crate::doc::doc(g, Type::Raf).bytes, Some(Type::Raf)),
        _ => {
            let recs = vec![wraps::Rec::Data(0x2007, wraps::rand_jpeg(g, 4, 4))];
            let mut place = |n: usize| ((0..n).collect(), 0);
            (wraps::crw(Order::Le, 0, &recs, &mut place).0, Some(Type::Crw))
        }
    };
    g.input(&b);
    g.nontrivial();
    judge(&b, api::open(&b, None, Via::Memory), want, "whole")
}

pub fn check() -> Check {
    Check {
        id: "C03",
        rule: "the content, the name or the hint says a type",
        assumptions: &["JPEG streams that start with another marker than DQT are neither required nor forbidden to be recognised"],
        subs: vec![
            Sub { name: "content", quick: 1500000, thorough: 20000000, run: by_content },
            Sub { name: "hint", quick: 300000, thorough: 4000000, run: by_hint },
            Sub { name: "name", quick: 300000, thorough: 4000000, run: by_name },
            Sub { name: "tables", quick: 75000, thorough: 1000000, run: tables },
            Sub { name: "whole", quick: 150000, thorough: 2000000, run: whole },
        ],
    }
}
