//! C23: text and value conversions are faithful.
use std::convert::TryFrom;

use libopenraw::metadata::Value;
use libopenraw::tiff::exif::{Rational, SRational};
use libopenraw::{CfaPattern, DataType, Type, TypeId};

use crate::api;
use crate::gen::G;
use crate::run::{Check, Sub, R};

fn lossy_to_nul(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).to_string()
}

/// The elements of a list as `into_string` writes it.
fn elements(text: &str, count: usize) -> Option<Vec<String>> {
    if count == 1 {
        return Some(vec![text.to_string()]);
    }
    if count == 0 {
        return if text.is_empty() { Some(vec![]) } else { None };
    }
    let t = text.strip_prefix("[ ")?.strip_suffix(']')?;
    let mut v: Vec<String> = t.split(", ").map(|x| x.to_string()).collect();
    if v.pop()? != "" {
        return None;
    }
    Some(v)
}

fn same_f32(a: f32, t: &str) -> bool {
    t.parse::<f32>().map(|b| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())).unwrap_or(false)
}
fn same_f64(a: f64, t: &str) -> bool {
    t.parse::<f64>().map(|b| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())).unwrap_or(false)
}

fn value(g: &mut G) -> R {
    let n = match g.below(4) {
        0 => 1,
        1 => g.ur(0, 4),
        2 => g.ur(18, 24),
        _ => g.ur(2, 60),
    };
    let v = match g.below(10) {
        0 => Value::Int((0..n).map(|_| g.u32()).collect()),
        1 => Value::SInt((0..n).map(|_| g.u32() as i32).collect()),
        2 => {
            let k = g.ur(0, 40);
            let mut s: Vec<u8> = (0..k).map(|_| if g.chance(1, 12) { g.u8() } else { g.u32r(0x20, 0x7e) as u8 }).collect();
            if g.bool() {
                s.push(0);
            }
            Value::String(s)
        }
        3 => Value::Float((0..n).map(|_| f32::from_bits(g.u32())).collect()),
        4 => Value::Double((0..n).map(|_| f64::from_bits(g.edge(64))).collect()),
        5 => Value::Rational((0..n).map(|_| Rational { num: g.u32(), denom: g.u32() }).collect()),
        6 => Value::SRational((0..n).map(|_| SRational { num: g.u32() as i32, denom: g.u32() as i32 }).collect()),
        7 => Value::Bytes((0..n).map(|_| g.u8()).collect()),
        8 => Value::SBytes((0..n).map(|_| g.u8() as i8).collect()),
        _ => Value::Invalid((0..n).map(|_| g.u8()).collect()),
    };
    g.desc = format!("{v:?}");
    let d = g.desc.clone();
    g.input(d.as_bytes());
    g.nontrivial = n > 0;
    if let Value::String(s) = &v {
        g.label("text");
        let want = lossy_to_nul(s);
        ensure_eq!(v.string(), Some(want.clone()), "string()");
        ensure_eq!(v.into_string(true), want, "text of a string");
        ensure_eq!(v.into_string(false), want, "text of a string, short");
        ensure_eq!(v.count(), 1, "count of a string");
        ensure_eq!(v.integer(), None, "integer() of a string");
        return Ok(());
    }
    ensure_eq!(v.count(), n, "count");
    ensure_eq!(v.string(), None, "string() of a number");
    // What each accessor says.
    let int = if let Value::Int(i) = &v { i.first().copied() } else { None };
    let rat = if let Value::Rational(i) = &v { i.first().copied() } else { None };
    ensure_eq!(v.integer(), int, "integer()");
    ensure_eq!(v.rational(), rat, "rational()");
    let full = v.into_string(true);
    let els = match elements(&full, n) {
        Some(e) => e,
        None => return crate::run::fail("list text", format!("{full:?} for {n} values")),
    };
    ensure_eq!(els.len(), n, "elements in the text", "{full:?}");
    for (i, t) in els.iter().enumerate() {
        let ok = match &v {
            Value::Int(x) => t.parse() == Ok(x[i]),
            Value::SInt(x) => t.parse() == Ok(x[i]),
            Value::Float(x) => same_f32(x[i], t) && t.len() <= x[i].to_string().len(),
            Value::Double(x) => same_f64(x[i], t) && t.len() <= x[i].to_string().len(),
            Value::Rational(x) => *t == format!("{}/{}", x[i].num, x[i].denom),
            Value::SRational(x) => *t == format!("{}/{}", x[i].num, x[i].denom),
            Value::Bytes(x) | Value::Invalid(x) => t.parse() == Ok(x[i]),
            Value::SBytes(x) => t.parse() == Ok(x[i]),
            Value::String(_) => true,
        };
        ensure!(ok, "element text", "element {i} of {v:?} reads {t:?}");
    }
    // The short text is the full one, or its beginning.
    let short = v.into_string(false);
    if n <= 20 {
        ensure_eq!(short, full, "short text of few values");
    } else {
        g.label("many values");
        let head = match short.strip_suffix("...]") {
            Some(h) => h,
            None => return crate::run::fail("short text", format!("{short:?} for {n} values")),
        };
        ensure!(full.starts_with(head), "short text", "{short:?} is not the beginning of {full:?}");
        ensure!(head.matches(", ").count() >= 20, "short text too short", "{short:?}");
    }
    Ok(())
}

const COL: [u8; 3] = [0, 1, 2];

fn pattern(g: &mut G) -> R {
    let n = match g.below(4) {
        0 => 4,
        1 => 36,
        2 => g.ur(1, 40),
        _ => 4,
    };
    let bytes: Vec<u8> = (0..n).map(|_| if g.chance(1, 30) { g.u8() } else { g.pickv(&COL) }).collect();
    g.desc = format!("{bytes:?}");
    g.input(&bytes);
    let bayer: [(&[u8; 4], &str, u8); 4] = [
        (&[0, 1, 1, 2], "RGGB", 2),
        (&[1, 2, 0, 1], "GBRG", 3),
        (&[2, 1, 1, 0], "BGGR", 4),
        (&[1, 0, 2, 1], "GRBG", 5),
    ];
    let p = CfaPattern::try_from(bytes.as_slice());
    if n == 4 {
        let b = bayer.iter().find(|b| b.0[..] == bytes[..]);
        ensure_eq!(p.is_ok(), b.is_some(), "which 2x2 patterns are known", "{bytes:?}");
        if let (Ok(p), Some(b)) = (&p, b) {
            g.nontrivial();
            g.label("2x2");
            ensure_eq!(p.to_string(), b.1, "name of the pattern");
            ensure_eq!(p.pattern_type() as u8, b.2, "type of the pattern");
            ensure_eq!((p.width(), p.height()), (2, 2), "size of the pattern");
            let back: Vec<u8> = p.pattern().iter().map(|c| *c as u8).collect();
            ensure_eq!(back, bytes, "pattern read back");
            let text: String = p.pattern().iter().map(|c| c.to_char()).collect();
            ensure_eq!(text, b.1, "letters of the pattern");
            for y in 0..2 {
                for x in 0..2 {
                    ensure_eq!(p[(x, y)] as u8, bytes[y * 2 + x], "pattern at ({x},{y})");
                }
            }
        }
    } else {
        let known = bytes.iter().all(|c| *c <= 2 || *c == 255);
        ensure_eq!(p.is_ok(), known, "which patterns are known", "{bytes:?}");
        if let Ok(p) = &p {
            let back: Vec<u8> = p.pattern().iter().map(|c| *c as u8).collect();
            ensure_eq!(back, bytes, "pattern read back");
            ensure_eq!(p.pattern_type() as u8, 1, "type of the pattern");
            if n == 36 {
                g.nontrivial();
                g.label("6x6");
                ensure_eq!((p.width(), p.height()), (6, 6), "size of the pattern");
                for y in 0..6 {
                    for x in 0..6 {
                        ensure_eq!(p[(x, y)] as u8, bytes[y * 6 + x], "pattern at ({x},{y})");
                    }
                }
            }
        }
    }
    Ok(())
}

fn ids(g: &mut G) -> R {
    let v = g.u32();
    g.desc = format!("{v:#x}");
    g.input(&v.to_le_bytes());
    g.nontrivial = v > 0xffff && v & 0xffff != 0;
    let t = TypeId::from(v);
    ensure_eq!(u32::from(t), v, "type id to number");
    ensure_eq!(t.to_string(), format!("{} {}", v >> 16, v & 0xffff), "type id text");
    ensure_eq!(TypeId::from(u32::from(t)), t, "type id and back");
    let dt = [
        DataType::Jpeg,
        DataType::PixmapRgb8,
        DataType::PixmapRgb16,
        DataType::CompressedRaw,
        DataType::Raw,
        DataType::Unknown,
    ];
    let d = g.pickv(&dt);
    let s = String::from(d);
    ensure_eq!(DataType::from(s.as_str()), d, "data type to text and back");
    let t = g.pickv(&api::TYPES);
    let s = String::from(t);
    ensure_eq!(Type::from(s.as_str()), t, "file type to text and back");
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "C23",
        rule: "metadata values of every kind with 0 to 60 elements, edge-biased; byte patterns of 1 to 40 cells; type ids over 32 bits and all kinds and types; non-trivial: at least one element / a known 2x2 or 6x6 pattern / both halves of the id non-zero; distinct by input",
        assumptions: &[],
        subs: vec![
            Sub { name: "value", quick: 375000, thorough: 45000000, run: value },
            Sub { name: "pattern", quick: 375000, thorough: 45000000, run: pattern },
            Sub { name: "ids", quick: 125000, thorough: 15000000, run: ids },
        ],
    }
}
