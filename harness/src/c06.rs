//! C06: metadata values are what the file stores.

use libopenraw::tiff::exif::{Rational, SRational};
use libopenraw::{Ifd, Type};

use crate::doc::{self, Doc, MDir, Role};
use crate::gen::G;
use crate::meta;
use crate::run::{Check, Sub, R};
use crate::tiffw::V;

fn r32(r: &(u32, u32)) -> u32 {
    if r.1 == 0 {
        0
    } else {
        r.0 / r.1
    }
}

fn bits(v: Option<Vec<f64>>) -> Option<Vec<u64>> {
    v.map(|v| v.iter().map(|f| if f.is_nan() { 0x7ff8_0000_0000_0000 } else { f.to_bits() }).collect())
}

/// Every way to ask a directory for a value against what is stored.
macro_rules! check_dir {
    ($g:expr, $d:expr, $m:expr, $what:expr) => {{
        let (g, d, m, what): (&mut G, _, &MDir, &str) = ($g, $d, $m, $what);
        let r = (|| -> R {
    ensure_eq!(d.num_entries(), m.entries.len(), "num_entries", "{what}");
    let ids: Vec<u16> = (0..=0xffff_u16).filter(|t| d.entry(*t).is_some()).collect();
    let want: Vec<u16> = m.entries.iter().map(|e| e.0).collect();
    ensure_eq!(ids, want, "tags", "{what}");
    ensure_eq!(format!("{:?}", d.ifd_type()), m.kind.to_string(), "ifd-type", "{what}");
    for (tag, v) in &m.entries {
        let tag = *tag;
        let w = format!("{what} tag {tag:#06x} {v:?}");
        let e = match d.entry(tag) {
            Some(e) => e,
            None => return crate::run::fail("entry", w),
        };
        ensure_eq!(d.tag_name(tag), m.name(tag), "tag_name", "{w}");
        // Undefined bytes can be read as anything: only asked for as what they are.
        if matches!(v, V::X(_)) {
            ensure_eq!(d.uint_value(tag), None, "uint_value", "{w}");
            ensure_eq!(e.string_value(), None, "string_value", "{w}");
            continue;
        }
        let uarr: Option<Vec<u32>> = match v {
            V::U16(x) => Some(x.iter().map(|v| *v as u32).collect()),
            V::U32(x) => Some(x.clone()),
            V::R(x) => Some(x.iter().map(r32).collect()),
            _ => None,
        };
        ensure_eq!(d.uint_value(tag), uarr.as_ref().and_then(|a| a.first().copied()), "uint_value", "{w}");
        ensure_eq!(d.uint_value_array(tag), uarr, "uint_value_array", "{w}");
        let iarr: Option<Vec<i32>> = match v {
            V::I16(x) => Some(x.iter().map(|v| *v as i32).collect()),
            V::I32(x) => Some(x.clone()),
            _ => None,
        };
        ensure_eq!(d.int_value_array(tag), iarr, "int_value_array", "{w}");
        let sarr = if let V::U16(x) = v { Some(x.clone()) } else { None };
        ensure_eq!(d.u16_value_array(tag), sarr, "u16_value_array", "{w}");
        let farr: Option<Vec<f64>> = match v {
            V::U16(x) => Some(x.iter().map(|v| *v as f64).collect()),
            V::U32(x) => Some(x.iter().map(|v| *v as f64).collect()),
            V::R(x) => Some(x.iter().map(|r| if r.1 == 0 { f64::NAN } else { r.0 as f64 / r.1 as f64 }).collect()),
            V::SR(x) => Some(x.iter().map(|r| if r.1 == 0 { f64::NAN } else { r.0 as f64 / r.1 as f64 }).collect()),
            V::F(x) => Some(x.iter().map(|v| *v as f64).collect()),
            V::D(x) => Some(x.clone()),
            _ => None,
        };
        ensure_eq!(bits(d.float_value_array(tag)), bits(farr), "float_value_array", "{w}");
        let text = if let V::A(x) = v { Some(meta::text(x)) } else { None };
        ensure_eq!(e.string_value(), text, "string_value", "{w}");
        let big = format!("{:?}", d.endian()) == "Big";
        let int = if big { e.int_value::<byteorder::BigEndian>() } else { e.int_value::<byteorder::LittleEndian>() };
        ensure_eq!(int, iarr_first(v), "int_value", "{w}");
                let want = if let V::U8(x) = v { x.first().copied() } else { None };
            ensure_eq!(Ifd::value::<u8>(d, tag), want, "value u8", "{w}");
        let want = if let V::U16(x) = v { x.first().copied() } else { None };
            ensure_eq!(Ifd::value::<u16>(d, tag), want, "value u16", "{w}");
        let want = if let V::U32(x) = v { x.first().copied() } else { None };
            ensure_eq!(Ifd::value::<u32>(d, tag), want, "value u32", "{w}");
        let want = if let V::I8(x) = v { x.first().copied() } else { None };
            ensure_eq!(Ifd::value::<i8>(d, tag), want, "value i8", "{w}");
        let want = if let V::I16(x) = v { x.first().copied() } else { None };
            ensure_eq!(Ifd::value::<i16>(d, tag), want, "value i16", "{w}");
        let want = if let V::I32(x) = v { x.first().copied() } else { None };
            ensure_eq!(Ifd::value::<i32>(d, tag), want, "value i32", "{w}");
        let want = if let V::R(x) = v { x.first().map(|r| Rational { num: r.0, denom: r.1 }) } else { None };
            ensure_eq!(Ifd::value::<Rational>(d, tag), want, "value rational", "{w}");
        let want = if let V::SR(x) = v { x.first().map(|r| SRational { num: r.0, denom: r.1 }) } else { None };
            ensure_eq!(Ifd::value::<SRational>(d, tag), want, "value srational", "{w}");
        let f = if let V::F(x) = v { x.first().map(|v| v.to_bits()) } else { None };
        ensure_eq!(Ifd::value::<f32>(d, tag).map(|v| v.to_bits()), f, "value f32", "{w}");
        let f = if let V::D(x) = v { x.first().map(|v| v.to_bits()) } else { None };
        ensure_eq!(Ifd::value::<f64>(d, tag).map(|v| v.to_bits()), f, "value f64", "{w}");
    }
    // What is not there has no value.
    for _ in 0..3 {
        let tag = g.u16();
        if m.entries.iter().all(|e| e.0 != tag) {
            ensure!(d.uint_value(tag).is_none() && d.float_value_array(tag).is_none(), "absent", "{what} {tag:#x}");
        }
    }
    Ok(())

        })();
        r
    }};
}

fn iarr_first(v: &V) -> Option<i32> {
    match v {
        V::I16(x) => x.first().map(|v| *v as i32),
        V::I32(x) => x.first().copied(),
        _ => None,
    }
}

fn note_mix(g: &mut G, d: &Doc) {
    let mut inl = 0;
    let mut out = 0;
    for m in &d.dirs {
        for (_, v) in &m.entries {
            let n = match v {
                V::U8(x) | V::A(x) | V::X(x) => x.len(),
                V::I8(x) => x.len(),
                V::U16(x) => 2 * x.len(),
                V::I16(x) => 2 * x.len(),
                V::U32(x) => 4 * x.len(),
                V::I32(x) => 4 * x.len(),
                V::F(x) => 4 * x.len(),
                V::R(x) => 8 * x.len(),
                V::SR(x) => 8 * x.len(),
                V::D(x) => 8 * x.len(),
                _ => 0,
            };
            if n <= 4 {
                inl += 1
            } else {
                out += 1
            }
        }
    }
    if inl >= 2 && out >= 2 {
        g.nontrivial();
    }
    if d.order == crate::tiffw::Order::Be {
        g.label("big endian");
    }
    if d.dirs.len() > 2 {
        g.label("several directories");
    }
}

/// What `metadata()` says, value for value.
fn listed(g: &mut G) -> R {
    let ty = g.pickv(&doc::HOSTS[..11]);
    let d = doc::doc(g, ty);
    note_mix(g, &d);
    let h = match d.open() {
        Ok(h) => h,
        Err(e) => return crate::run::fail("open", format!("{ty:?}: {e}")),
    };
    let got: Vec<_> = match h.metadata() {
        Some(m) => m.collect(),
        None => return crate::run::fail("no-metadata", format!("{ty:?}")),
    };
    let want = d.listing();
    for (a, b) in got.iter().zip(&want) {
        ensure_eq!(a.2, b.2, "listed type", "{ty:?} {} {:?}", b.0, b.1);
        ensure!(meta::same(&a.1, &b.1), "listed value", "{ty:?} {}: got {:?}, expected {:?}", b.0, a.1, b.1);
        ensure_eq!(a.1.count(), b.1.count(), "listed count", "{}", b.0);
    }
    ensure_eq!(got.len(), want.len(), "listed entries", "{ty:?}");
    Ok(())
}

/// The typed questions, put to the directories that can be reached.
fn typed(g: &mut G) -> R {
    let ty = g.pickv(&doc::HOSTS);
    let d = doc::doc(g, ty);
    note_mix(g, &d);
    let h = match d.open() {
        Ok(h) => h,
        Err(e) => return crate::run::fail("open", format!("{ty:?}: {e}")),
    };
    let main = if ty == Type::Jpeg { None } else { d.find(Role::Chain(0)) };
    if let Some(m) = main {
        match h.main_ifd() {
            Some(x) => check_dir!(g, x, m, &format!("{ty:?} main"))?,
            None => return crate::run::fail("no-main", format!("{ty:?}")),
        }
    }
    if ty != Type::Jpeg {
        match (h.exif_ifd(), d.of(Role::Exif(0))) {
            (Some(x), Some(m)) => check_dir!(g, x, m, &format!("{ty:?} exif"))?,
            (None, None) => {}
            (a, b) => return crate::run::fail("exif-dir", format!("{ty:?} {} {}", a.is_some(), b.is_some())),
        }
    }
    match (h.maker_note_ifd(), d.of(Role::Note(0))) {
        (Some(x), Some(m)) => {
            g.label("maker note");
            check_dir!(g, x, m, &format!("{ty:?} {} note", m.id))?
        }
        (None, None) => {}
        (a, b) => {
            return crate::run::fail(
                "note-dir",
                format!("{ty:?} got {} expected {:?}", a.is_some(), b.map(|b| b.id)),
            )
        }
    }
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "C06",
        rule: "the directories hold at least two values inline and two at an offset",
        assumptions: &["UNDEFINED values are only compared as bytes"],
        subs: vec![
            Sub { name: "listed", quick: 90000, thorough: 3000000, run: listed },
            Sub { name: "typed", quick: 90000, thorough: 3000000, run: typed },
        ],
    }
}
