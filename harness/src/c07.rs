//! C07: metadata enumeration is complete and well named.

use libopenraw::{Ifd, Type};

use crate::doc::{self, MDir, Role};
use crate::gen::G;
use crate::meta;
use crate::run::{fail, Check, Sub, R};
use crate::tiffw::V;

fn short<T: ToString>(x: &[T]) -> String {
    if x.len() == 1 {
        return x[0].to_string();
    }
    let mut s = String::from("[ ");
    for (i, v) in x.iter().enumerate() {
        if i > 0 {
            s += ", ";
        }
        if i > 5 {
            s += "...";
            break;
        }
        s += &v.to_string();
    }
    s + " ]"
}

fn value_text(v: &V) -> String {
    let r = |x: &[(u32, u32)]| x.iter().map(|r| format!("{}/{}", r.0, r.1)).collect::<Vec<_>>();
    let sr = |x: &[(i32, i32)]| x.iter().map(|r| format!("{}/{}", r.0, r.1)).collect::<Vec<_>>();
    match v {
        V::U8(x) | V::X(x) => short(x),
        V::A(x) => format!("\"{}\"", meta::text(x)),
        V::U16(x) => short(x),
        V::U32(x) => short(x),
        V::R(x) => short(&r(x)),
        V::I8(x) => short(x),
        V::I16(x) => short(x),
        V::I32(x) => short(x),
        V::SR(x) => short(&sr(x)),
        V::F(x) => short(x),
        V::D(x) => short(x),
        _ => unreachable!(),
    }
}

const TYPE_NAMES: [&str; 13] = [
    "", "BYTE", "ASCII", "SHORT", "LONG", "RATIONAL", "SBYTE", "UNDEFINED", "SSHORT", "SLONG", "SRATIONAL", "FLOAT", "DOUBLE",
];

fn count(v: &V) -> usize {
    match v {
        V::U8(x) | V::X(x) | V::A(x) => x.len(),
        V::U16(x) => x.len(),
        V::U32(x) => x.len(),
        V::R(x) => x.len(),
        V::I8(x) => x.len(),
        V::I16(x) => x.len(),
        V::I32(x) => x.len(),
        V::SR(x) => x.len(),
        V::F(x) => x.len(),
        V::D(x) => x.len(),
        _ => unreachable!(),
    }
}

/// The lines the dump of a directory should have, without indentation.
fn dump_of(d: &MDir) -> String {
    lines_of(d).join("\n")
}

fn lines_of(d: &MDir) -> Vec<String> {
    let mut s = vec![format!("<IFD type={} id=\"{}\" {} entries next=@{}>", d.kind, d.id, d.entries.len(), d.next)];
    for (tag, v) in &d.entries {
        s.push(format!(
            "<0x{:04x}={:>5}> {:<30} [{:>2}={:<10} {}] = {}",
            tag,
            tag,
            d.name(*tag),
            v.type_(),
            TYPE_NAMES[v.type_() as usize],
            count(v),
            value_text(v)
        ));
    }
    s.push("</IFD>".into());
    s
}

fn deepness(g: &mut G, d: &doc::Doc) {
    if d.dirs.len() > 2 {
        g.nontrivial();
    }
    for x in &d.dirs {
        g.label(match x.role {
            Role::Chain(0) => "first",
            Role::Chain(_) => "chained",
            Role::Exif(_) => "exif",
            Role::Note(_) => "maker note",
            Role::Gps(_) => "gps",
            Role::Sub(_) => "sub",
        });
    }
}

fn keys(g: &mut G) -> R {
    let ty = g.pickv(&doc::HOSTS[..11]);
    let d = doc::doc(g, ty);
    deepness(g, &d);
    let h = match d.open() {
        Ok(h) => h,
        Err(e) => return fail("open", format!("{ty:?}: {e}")),
    };
    let got: Vec<_> = match h.metadata() {
        Some(m) => m.collect(),
        None => return fail("no-metadata", format!("{ty:?}")),
    };
    let want = d.listing();
    let a: Vec<&str> = got.iter().map(|x| x.0.as_str()).collect();
    let b: Vec<&str> = want.iter().map(|x| x.0.as_str()).collect();
    ensure_eq!(a, b, "keys", "{ty:?}");
    for (x, y) in got.iter().zip(&want) {
        ensure!(meta::same(&x.1, &y.1), "value", "{ty:?} {}: got {:?}, expected {:?}", y.0, x.1, y.1);
    }
    // An exhausted enumeration stays so.
    let mut it = h.metadata().unwrap();
    for _ in 0..got.len() {
        it.next();
    }
    ensure!(it.next().is_none() && it.next().is_none(), "not-over", "{ty:?}");
    Ok(())
}

/// Values by name, and the orientation.
fn lookup(g: &mut G) -> R {
    let ty = g.pickv(&doc::HOSTS);
    let d = doc::doc(g, ty);
    deepness(g, &d);
    let h = match d.open() {
        Ok(h) => h,
        Err(e) => return fail("open", format!("{ty:?}: {e}")),
    };
    let main = match d.find(Role::Chain(0)) {
        Some(m) if ty != Type::Jpeg => m,
        _ => return Ok(()),
    };
    let mut seen = std::collections::HashSet::new();
    let mut orientation = None;
    for (tag, v) in &main.entries {
        let key = format!("Exif.Image.{}", main.name(*tag));
        if !seen.insert(key.clone()) {
            continue;
        }
        let want = meta::expect(v).unwrap();
        match h.metadata_value(&key) {
            Some(got) => {
                ensure!(meta::same(&got, &want), "lookup", "{ty:?} {key}: got {got:?}, expected {want:?}");
                if key == "Exif.Image.Orientation" {
                    orientation = want.integer();
                }
            }
            None => return fail("lookup none", format!("{ty:?} {key} {want:?}")),
        }
    }
    ensure_eq!(h.orientation(), orientation.unwrap_or(0), "orientation", "{ty:?}");
    // Names that are not those of an entry of the primary directory.
    for (n, x) in d.dirs.iter().enumerate() {
        if n > 0 {
            for (tag, _) in x.entries.iter().take(3) {
                let key = format!("Exif.Image.{}", x.name(*tag));
                if !seen.contains(&key) {
                    ensure!(h.metadata_value(&key).is_none(), "lookup extra", "{ty:?} {key}");
                }
            }
        }
    }
    for t in ["", ".", "Exif.Image", "Exif.Photo.Make", "exif.image.make", "Make"] {
        ensure!(h.metadata_value(t).is_none(), "lookup nonsense", "{ty:?} {t}");
    }
    Ok(())
}

/// Every orientation the entry can hold.
fn orientation(g: &mut G) -> R {
    use crate::tiffw::*;
    let ty = g.pickv(&doc::HOSTS[..8]);
    let o = if ty == Type::Rw2 { Order::Le } else { meta::order(g) };
    let (mut t, dirs) = doc::tree(g, ty, o, false);
    let d0 = dirs[0].node;
    t.d(d0).entries.retain(|e| e.0 != 0x112);
    let v = g.u16();
    let want = match g.below(5) {
        0 => {
            t.add(d0, 0x112, V::U32(vec![v as u32]));
            v as u32
        }
        1 => {
            t.add(d0, 0x112, V::U16(vec![v, 3]));
            v as u32
        }
        2 => 0,
        _ => {
            t.add(d0, 0x112, V::U16(vec![v]));
            v as u32
        }
    };
    // Other directories have their own, which must not be mistaken for it.
    for x in &dirs[1..] {
        t.d(x.node).entries.retain(|e| e.0 != 0x112);
        t.add(x.node, 0x112, V::U16(vec![v ^ 5]));
        g.nontrivial();
    }
    t.trail = 16;
    let b = t.build(g);
    g.input(&b.bytes);
    let h = crate::api::open(&b.bytes, Some(ty), crate::api::Via::Memory).unwrap();
    ensure_eq!(h.orientation(), want, "orientation", "{ty:?}");
    let k = h.metadata().map(|m| m.filter(|e| e.0 == "Exif.Image.Orientation").count()).unwrap_or(0);
    let there = h.main_ifd().and_then(|d| d.entry(0x112)).is_some();
    ensure_eq!(k, there as usize, "orientation entries", "{ty:?}");
    Ok(())
}

/// The dump lists every directory that can be reached, once, where it belongs.
fn dump(g: &mut G) -> R {
    let ty = g.pickv(&doc::HOSTS);
    let d = doc::doc(g, ty);
    deepness(g, &d);
    let h = match d.open() {
        Ok(h) => h,
        Err(e) => return fail("open", format!("{ty:?}: {e}")),
    };
    let mut out = vec![];
    h.dump_file(&mut out);
    let text = String::from_utf8_lossy(&out).to_string();
    // The containers, their IFDs.
    let mut got: Vec<(usize, String)> = vec![];
    let mut level = None;
    let mut cur: Option<(usize, String)> = None;
    for l in text.split('\n') {
        let n = l.len() - l.trim_start_matches(' ').len();
        let body = &l[n..];
        if cur.is_none() && body.starts_with("<TIFF Container") {
            level = Some(n);
        } else if cur.is_none() && body == "</TIFF Container>" {
            level = None;
        } else if body.starts_with("<IFD ") && cur.is_none() {
            if let Some(k) = level {
                cur = Some(((n - k) / 2, body.to_string()));
            }
        } else if let Some((i, mut s)) = cur.take() {
            // Text values may hold new lines, so indentation is only removed where it should be.
            let strip = 2 * (i + 1) + level.unwrap();
            s.push('\n');
            if body == "</IFD>" {
                s += body;
                got.push((i, s));
            } else {
                if l.len() >= strip && l.as_bytes()[..strip].iter().all(|b| *b == b' ') {
                    s += &l[strip..];
                } else {
                    s += l;
                }
                cur = Some((i, s));
            }
        }
    }
    let want: Vec<(usize, String)> = d.dirs.iter().map(|x| (x.indent, dump_of(x))).collect();
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            Some(a) => ensure_eq!(a, w, "dump dir", "{ty:?} {:?}", d.dirs[i].role),
            None => return fail("dump missing", format!("{ty:?} {:?} {} of {}:\n{text}", d.dirs[i].role, i, want.len())),
        }
    }
    ensure_eq!(got.len(), want.len(), "dump dirs", "{ty:?} {:?}", got.last());
    Ok(())
}

const OLYMPUS: [(u16, &str, &str); 7] = [
    (0x2020, "Exif.OlympusCs", "MNOTE_OLYMPUS_CS_TAG_NAMES"),
    (0x2040, "Exif.OlympusIp", "MNOTE_OLYMPUS_IP_TAG_NAMES"),
    (0x2030, "Exif.OlympusRd", "MNOTE_OLYMPUS_RD_TAG_NAMES"),
    (0x2031, "Exif.OlympusRd2", "MNOTE_OLYMPUS_RD2_TAG_NAMES"),
    (0x2050, "Exif.OlympusFi", "MNOTE_OLYMPUS_FI_TAG_NAMES"),
    (0x2010, "Exif.OlympusEq", "MNOTE_OLYMPUS_EQ_TAG_NAMES"),
    (0x3000, "Exif.OlympusRi", "MNOTE_OLYMPUS_RI_TAG_NAMES"),
];

/// The directories of an Olympus maker note, and that of the camera in a Panasonic file, come
/// after the container's own.
fn vendor(g: &mut G) -> R {
    use crate::tiffw::*;
    let ty = g.pickv(&[Type::Orf, Type::Orf, Type::Rw2]);
    let o = if ty == Type::Rw2 { Order::Le } else { meta::order(g) };
    let (mut t, dirs) = doc::tree(g, ty, o, false);
    let mut want: Vec<MDir> = vec![];
    t.trail = 32;
    let end;
    if ty == Type::Rw2 {
        end = "</Panasonic RW2 File>";
        let co = meta::order(g);
        let mut c = Tiff::new(co);
        let d = c.dir();
        c.first(d);
        c.d(d).entries = doc::some(g, 1, 9, "RAW_PANASONIC_CAMERAIFD_TAG_NAMES", &[]);
        c.trail = 8;
        let b = c.build(g);
        want.push(doc::m(d, Role::Sub(0), "Main", "Main", "RAW_PANASONIC_CAMERAIFD_TAG_NAMES", 1));
        doc::finish(&c, &b, &mut want);
        let blob = t.blob(b.bytes);
        t.add(dirs[0].node, 0x120, V::Note(blob));
        if g.chance(2, 3) {
            g.nontrivial();
        }
    } else {
        end = "</Olympus ORF File>";
        let x = t.dir();
        t.add(dirs[0].node, 0x8769, V::Ptr(vec![x]));
        let k = loop {
            let k = doc::note(g, ty, o);
            if k.table == "MNOTE_OLYMPUS_TAG_NAMES" && k.order.is_none() {
                break k;
            }
        };
        let avoid: Vec<u16> = OLYMPUS.iter().map(|x| x.0).chain(doc::AVOID).collect();
        let e = doc::some(g, 0, 6, k.table, &avoid);
        let note = doc::add_note(&mut t, &k, e);
        t.add(x, 0x927c, V::Note(note));
        let mut ids = vec![];
        for (tag, id, table) in OLYMPUS {
            if g.chance(1, 3) {
                continue;
            }
            let d = t.dir();
            t.d(d).entries = doc::some(g, 0, 8, table, &[]);
            want.push(doc::m(d, Role::Sub(0), "Other", id, table, 1));
            let base = match k.base {
                Base::Node(k) => {
                    t.d(d).base = Base::At(note, k);
                    t.d(d).contained = true;
                    ids.push(d);
                    Some((note, k))
                }
                _ => None,
            };
            let v = match (g.below(3), base) {
                (0, None) => V::Note(d),
                (1, Some((n, k))) => V::PtrRel(d, n, k),
                (1, None) => V::Ptr(vec![d]),
                (_, b) => V::PtrIfd(d, b),
            };
            t.add(note, tag, v);
        }
        // Offsets are not negative: after the note.
        let p = g.perm(ids.len());
        t.runs.push([note].into_iter().chain(p.iter().map(|i| ids[*i])).collect());
        let b = t.build(g);
        doc::finish(&t, &b, &mut want);
        if want.len() > 2 {
            g.nontrivial();
        }
        g.label(k.id);
        return compare(g, ty, &b.bytes, &want, end);
    }
    let b = t.build(g);
    compare(g, ty, &b.bytes, &want, end)
}

fn compare(g: &mut G, ty: Type, bytes: &[u8], want: &[MDir], end: &str) -> R {
    g.input(bytes);
    let h = crate::api::open(bytes, Some(ty), crate::api::Via::Memory).unwrap();
    let mut out = vec![];
    h.dump_file(&mut out);
    let text = String::from_utf8_lossy(&out).to_string();
    let after = "</TIFF Container>\n";
    let at = match text.rfind(after) {
        Some(i) => i + after.len(),
        None => return fail("dump container", text),
    };
    let mut s = String::new();
    for d in want {
        let l = lines_of(d);
        for (i, x) in l.iter().enumerate() {
            let n = if i == 0 || i + 1 == l.len() { 2 } else { 4 };
            s += &format!("{:n$}{x}\n", "");
        }
    }
    s += end;
    s += "\n";
    ensure_eq!(&text[at..], &s, "dump vendor", "{ty:?}");
    Ok(())
}

/// What the dump opens. Text values may hold anything, other lines are theirs.
const OPEN: [&str; 38] = [
    "Minolta MRW File", "MRM", "PRD", "WBG", "RIF", "TTW", "PAD", "Fujifilm RAF File", "Sony ARW File", "JPEG File",
    "TrackRawInfo", "CRaw header", "offsets", "MP4 Iso Container", "Preview", "Track", "Metadata Block",
    "JPEG Container", "DNG File", "Olympus ORF File", "Epson ERF File", "Pentax PEF File", "Record", "HEAP", "Header",
    "CIFF Container", "Canon CRW File", "Canon CR2 File", "Canon CR3 File", "Nikon NEF File", "Panasonic RW2 File",
    "TIFF Container", "IFD", "RAF Container", "Offsets", "CFA", "CFA2", "RAF Meta Container",
];

fn starts(t: &str, name: &str) -> bool {
    t.strip_prefix(name).map(|r| r.starts_with([' ', '>', ':'])).unwrap_or(false)
}

/// What the dump opens it closes, in reverse order and under the same name.
fn nesting(g: &mut G) -> R {
    let a = crate::dmg::any(g);
    g.input(&a.bytes);
    g.desc = format!("{:?} {} bytes", a.ty, a.bytes.len());
    let h = match crate::api::open(&a.bytes, Some(a.ty), crate::api::Via::Memory) {
        Ok(h) => h,
        Err(e) => return fail("open", format!("{:?}: {e}", a.ty)),
    };
    let mut out = vec![];
    h.dump_file(&mut out);
    let text = String::from_utf8_lossy(&out).to_string();
    let mut stack: Vec<(usize, &str)> = vec![];
    let mut most = 0;
    for l in text.lines() {
        let t = l.trim_start_matches(' ');
        let n = l.len() - t.len();
        if let Some(c) = t.strip_prefix("</") {
            if !OPEN.iter().any(|o| c.starts_with(&o[..o.len().min(3)])) {
                continue;
            }
            let Some((k, name)) = stack.pop() else {
                return fail("dump closes", format!("{l:?}: nothing is open"));
            };
            let c = c.strip_suffix('>').unwrap_or("");
            ensure!(!c.is_empty() && starts(name, c), "dump closes", "{:?}: {l:?} closes <{name}", a.ty);
            ensure_eq!(n, k, "dump indentation", "{:?} {l:?}", a.ty);
        } else if let Some(o) = t.strip_prefix('<') {
            if !OPEN.iter().any(|x| starts(o, x)) {
                continue;
            }
            let up = stack.last().map(|s| s.0);
            ensure!(up.map(|u| n > u).unwrap_or(n == 0), "dump indentation", "{:?} {l:?} in {:?}", a.ty, stack.last());
            if !o.ends_with("/>") {
                stack.push((n, o));
                most = most.max(stack.len());
            }
        }
    }
    ensure!(stack.is_empty(), "dump closes", "{:?}: {stack:?} stay open", a.ty);
    g.nontrivial = most >= 3;
    Ok(())
}

/// What is shown of a table of a Fujifilm file: numbers of four bytes as such, or as a pair
fn fuji_lines(list: &[(u16, Vec<u8>)]) -> Vec<String> {
    const PAIRS: [(u16, &str); 7] = [
        (0x100, "SensorDimension"),
        (0x110, "ImageTopLeft"),
        (0x111, "ImageHeightWidth"),
        (0x115, "ImageAspectRatio"),
        (0x118, "CropTopLeft"),
        (0x119, "CropHeightWidth"),
        (0x121, "OutputHeightWidth"),
    ];
    let mut l = list.to_vec();
    l.sort();
    l.iter()
        .map(|(t, b)| {
            if let Some((_, name)) = PAIRS.iter().find(|p| p.0 == *t) {
                let (x, y) = (u16::from_be_bytes([b[2], b[3]]), u16::from_be_bytes([b[0], b[1]]));
                return format!("<0x{t:x}={t}> {name} = {x}, {y}");
            }
            let name = match t {
                0x117 => "Cropped",
                0x130 => "RawInfo",
                0x131 => "CfaPattern",
                0x9650 => "ExposureBias",
                0xc000 => "RafData",
                _ => "",
            };
            let v = if *t == 0xc000 {
                let v: Vec<u32> = b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
                let v_ = &v[..v.len().min(36)];
                if v.len() > 36 {
                    format!("U32s {v_:?}... len={}", v.len())
                } else {
                    format!("U32s {v_:?} len={}", v.len())
                }
            } else if b.len() == 4 {
                format!("0x{:08x}", u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
            } else if b.len() > 36 {
                format!("bytes {:?}... len={}", &b[..36], b.len())
            } else {
                format!("bytes {b:?} len={}", b.len())
            };
            format!("<0x{t:x}={t}> {name} = {v}")
        })
        .collect()
}

fn fuji_list(g: &mut G) -> Vec<(u16, Vec<u8>)> {
    let mut tags = vec![0x100u16, 0x110, 0x111, 0x115, 0x117, 0x118, 0x119, 0x121, 0x130, 0x131, 0x9650, 0xc000];
    for _ in 0..g.idx(4) {
        let t = 0x200 + g.idx(0x2000) as u16;
        if t != 0x2ff0 && !tags.contains(&t) {
            tags.push(t);
        }
    }
    let order = g.perm(tags.len());
    let n = g.idx(tags.len() + 1);
    order[..n]
        .iter()
        .map(|i| {
            let t = tags[*i];
            let n = match t {
                0x131 => 36,
                0xc000 => 4 * g.ur(2, 50) + g.idx(4),
                0x200..=0x2fff => g.ur(1, 60),
                _ => 4,
            };
            (t, g.noise(n))
        })
        .collect()
}

/// The dump of a Fujifilm file has its header and its tables
fn fuji(g: &mut G) -> R {
    let mut r = crate::wraps::Raf {
        model: g.pickv(&["FinePix X100", "X-T1", "A model that has 31 characters!"]).into(),
        jpeg: crate::wraps::rand_jpeg(g, 16, 16),
        meta: fuji_list(g),
        cfa: vec![],
        gaps: [g.ur(0, 9), g.ur(0, 9), g.ur(0, 9), g.ur(0, 9)],
        perm: vec![],
        extra: None,
    };
    r.perm = g.perm(3);
    if g.bool() {
        let n = g.ur(1, 40);
        r.extra = Some((fuji_list(g), g.noise(n)));
    }
    let (bytes, at) = r.build();
    g.input(&bytes);
    g.desc = format!("RAF, {} tags, {} in the second table", r.meta.len(), r.extra.as_ref().map(|e| e.0.len()).unwrap_or(0));
    g.nontrivial = r.meta.len() > 2;
    let h = match crate::api::open(&bytes, Some(Type::Raf), crate::api::Via::Memory) {
        Ok(h) => h,
        Err(e) => return fail("open", format!("{e}")),
    };
    let mut out = vec![];
    h.dump_file(&mut out);
    let text = String::from_utf8_lossy(&out).to_string();
    let lines: Vec<&str> = text.lines().map(|l| l.trim_start_matches(' ')).collect();
    let meta = r.meta_bytes();
    let mut want = vec![
        format!("Model   = {}", r.model),
        "<Offsets>".into(),
        format!("JPEG Offset = {}", at[0]),
        format!("JPEG Len    = {}", r.jpeg.len()),
        format!("Meta Offset = {}", at[1]),
        format!("Meta Len    = {}", meta.len()),
        "CFA Offset  = 0".into(),
        "CFA Len     = 0".into(),
    ];
    let mut tables = vec![(at[1], &r.meta)];
    match &r.extra {
        None => want.extend(["Offset= ", "Len   = ", "CFA Offset= ", "CFA Len   = "].map(|n| format!("Extra {n}0"))),
        Some((m, c)) => {
            let n = crate::wraps::Raf::list_bytes(m).len();
            let end = bytes.len() - c.len();
            want.push(format!("Extra Offset= {}", end - n));
            want.push(format!("Extra Len   = {n}"));
            want.push(format!("Extra CFA Offset= {end}"));
            want.push(format!("Extra CFA Len   = {}", c.len()));
            tables.push((end - n, m));
        }
    }
    want.push("</Offsets>".into());
    for w in &want {
        ensure!(lines.contains(&w.as_str()), "dump header", "no line {w:?}");
    }
    for (off, list) in tables {
        let open = format!("<RAF Meta Container @{off}>");
        let Some(i) = lines.iter().position(|l| *l == open) else {
            return fail("dump table", format!("no line {open:?}"));
        };
        let mut want = fuji_lines(list);
        want.push("</RAF Meta Container>".into());
        for (k, w) in want.iter().enumerate() {
            let got = lines.get(i + 1 + k).copied().unwrap_or("");
            ensure!(got == w, "dump table", "{got:?} for {w:?}");
        }
    }
    Ok(())
}

/// The dump of a Minolta file has its blocks and the fields of the first
fn minolta(g: &mut G) -> R {
    let order = crate::tiffw::Order::Be;
    let mut prd = b"27660001".to_vec();
    prd.extend(g.noise(16));
    let names: [&[u8; 3]; 5] = [b"PRD", b"TTW", b"WBG", b"RIF", b"PAD"];
    let mut blocks: Vec<(&[u8; 3], Vec<u8>)> = vec![];
    for i in g.perm(5) {
        let b = match i {
            0 => prd.clone(),
            1 => {
                let mut t = crate::tiffw::Tiff::new(order);
                let d = t.dir();
                t.first(d);
                t.add(d, 0x110, crate::tiffw::s("MODEL"));
                t.build(g).bytes
            }
            _ if g.chance(1, 4) => continue,
            _ => {
                let n = g.ur(12, 40);
                g.noise(n)
            }
        };
        blocks.push((names[i], b));
    }
    let tail = g.noise(20);
    let (bytes, at) = crate::wraps::mrw(order, &blocks, &tail);
    g.input(&bytes);
    g.desc = format!("MRW, {} blocks", blocks.len());
    g.nontrivial = blocks.len() > 3;
    let h = match crate::api::open(&bytes, Some(Type::Mrw), crate::api::Via::Memory) {
        Ok(h) => h,
        Err(e) => return fail("open", format!("{e}")),
    };
    let mut out = vec![];
    h.dump_file(&mut out);
    let text = String::from_utf8_lossy(&out).to_string();
    let lines: Vec<&str> = text.lines().map(|l| l.trim_start_matches(' ')).collect();
    let all: usize = blocks.iter().map(|b| b.1.len() + 8).sum();
    let w16 = |i: usize| u16::from_be_bytes([prd[i], prd[i + 1]]);
    let mut want = vec![
        format!("<MRM @0, len={all}>"),
        "version = \"27660001\"".into(),
        format!("SensorLength@8 = {}", w16(8)),
        format!("SensorWidth@10 = {}", w16(10)),
        format!("ImageLength@12 = {}", w16(12)),
        format!("ImageWidth@14 = {}", w16(14)),
        format!("DataSize@16 = {}", prd[16]),
        format!("PixelSize@17 = {}", prd[17]),
        format!("StorageType@18 = {}", prd[18]),
        format!("BayerPattern@22 = {}", w16(22)),
    ];
    for (k, (n, b)) in blocks.iter().enumerate() {
        let end = if matches!(*n, b"PRD" | b"TTW") { ">" } else { " />" };
        want.push(format!("<{} @{}, len={}{end}", String::from_utf8_lossy(*n), at[k] - 8, b.len()));
    }
    for w in &want {
        ensure!(lines.contains(&w.as_str()), "dump block", "no line {w:?}");
    }
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "C07",
        rule: "the file has at least three directories",
        assumptions: &["directories outside of the main chain are enumerated by the dump and the directory accessors, not by metadata()"],
        subs: vec![
            Sub { name: "keys", quick: 150000, thorough: 5000000, run: keys },
            Sub { name: "lookup", quick: 120000, thorough: 4000000, run: lookup },
            Sub { name: "orientation", quick: 60000, thorough: 2000000, run: orientation },
            Sub { name: "dump", quick: 150000, thorough: 5000000, run: dump },
            Sub { name: "vendor", quick: 60000, thorough: 2000000, run: vendor },
            Sub { name: "nesting", quick: 40000, thorough: 1000000, run: nesting },
            Sub { name: "fuji", quick: 20000, thorough: 600000, run: fuji },
            Sub { name: "minolta", quick: 20000, thorough: 600000, run: minolta },
        ],
    }
}
