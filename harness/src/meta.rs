//! Random directories, and the values they should be read as.

use std::collections::HashMap;
use std::sync::OnceLock;

use libopenraw::metadata::Value;
use libopenraw::tiff::exif::{Rational, SRational};

use crate::gen::G;
use crate::tiffw::{Order, V};

pub type Names = HashMap<u16, &'static str>;

pub fn names(section: &str) -> &'static Names {
    static T: OnceLock<HashMap<&'static str, Names>> = OnceLock::new();
    static EMPTY: OnceLock<Names> = OnceLock::new();
    T.get_or_init(|| {
        let text = include_str!("../data/tags.txt");
        let mut all: HashMap<&'static str, Names> = HashMap::new();
        let mut cur = "";
        for l in text.lines() {
            if let Some(s) = l.strip_prefix('[') {
                cur = s.trim_end_matches(']');
            } else if let Some((a, b)) = l.split_once(' ') {
                all.entry(cur).or_default().insert(u16::from_str_radix(a, 16).unwrap(), b);
            }
        }
        all
    })
    .get(section)
    .unwrap_or_else(|| EMPTY.get_or_init(Names::new))
}

/// Tags the code follows: only added on purpose.
pub const POINTERS: [u16; 9] = [0x8769, 0x8825, 0x014a, 0x927c, 0xc634, 0xa005, 0xf000, 0x2010, 0xc612];

pub fn value(g: &mut G, type_: u16) -> V {
    let n = match g.below(8) {
        0 => 0,
        1..=3 => 1,
        4 => g.ur(2, 5),
        5 if g.chance(1, 30) => g.pickv(&[32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000]),
        5 => g.ur(2, 24),
        _ => g.ur(1, 4),
    };
    match type_ {
        1 => V::U8((0..n).map(|_| g.u8()).collect()),
        2 => {
            let mut v: Vec<u8> = (0..n).map(|_| if g.chance(1, 10) { g.u8() } else { g.u32r(0x20, 0x7e) as u8 }).collect();
            match g.below(4) {
                0 => {}
                1 => v.extend_from_slice(&[0, 0]),
                _ => v.push(0),
            }
            V::A(v)
        }
        3 => V::U16((0..n).map(|_| g.u16()).collect()),
        4 => V::U32((0..n).map(|_| g.u32()).collect()),
        5 => V::R((0..n).map(|_| (g.u32(), g.u32())).collect()),
        6 => V::I8((0..n).map(|_| g.u8() as i8).collect()),
        7 => V::X((0..n).map(|_| g.u8()).collect()),
        8 => V::I16((0..n).map(|_| g.u16() as i16).collect()),
        9 => V::I32((0..n).map(|_| g.u32() as i32).collect()),
        10 => V::SR((0..n).map(|_| (g.u32() as i32, g.u32() as i32)).collect()),
        11 => V::F((0..n).map(|_| f32::from_bits(g.u32())).collect()),
        _ => V::D((0..n).map(|_| f64::from_bits(g.edge(64))).collect()),
    }
}

/// `n` entries with distinct tags outside of `avoid`.
pub fn entries(g: &mut G, n: usize, table: &str, avoid: &[u16]) -> Vec<(u16, V)> {
    let mut known: Vec<u16> = names(table).keys().copied().collect();
    known.sort_unstable();
    let mut out: Vec<(u16, V)> = vec![];
    for _ in 0..n {
        let mut tag = if g.chance(3, 4) && !known.is_empty() { g.pickv(&known) } else { g.u16() };
        while POINTERS.contains(&tag) || avoid.contains(&tag) || out.iter().any(|e| e.0 == tag) {
            tag = tag.wrapping_add(1);
        }
        let t = 1 + g.below(12) as u16;
        out.push((tag, value(g, t)));
    }
    out
}

fn rd(v: &[(u32, u32)]) -> Vec<Rational> {
    v.iter().map(|r| Rational { num: r.0, denom: r.1 }).collect()
}
fn srd(v: &[(i32, i32)]) -> Vec<SRational> {
    v.iter().map(|r| SRational { num: r.0, denom: r.1 }).collect()
}

pub fn text(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).to_string()
}

/// What the entry should be reported as. `None`: pointers, whose value depends on the layout.
pub fn expect(v: &V) -> Option<Value> {
    Some(match v {
        V::U8(x) | V::X(x) => Value::Bytes(x.clone()),
        V::A(x) => {
            let mut s = text(x).into_bytes();
            s.push(0);
            Value::String(s)
        }
        V::U16(x) => Value::Int(x.iter().map(|v| *v as u32).collect()),
        V::U32(x) => Value::Int(x.clone()),
        V::R(x) => Value::Rational(rd(x)),
        V::I8(x) => Value::SBytes(x.clone()),
        V::I16(x) => Value::SInt(x.iter().map(|v| *v as i32).collect()),
        V::I32(x) => Value::SInt(x.clone()),
        V::SR(x) => Value::SRational(srd(x)),
        V::F(x) => Value::Float(x.clone()),
        V::D(x) => Value::Double(x.clone()),
        _ => return None,
    })
}

/// Equality of values, floats by their bits.
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Float(x), Value::Float(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.to_bits() == b.to_bits())
        }
        (Value::Double(x), Value::Double(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.to_bits() == b.to_bits())
        }
        _ => a == b,
    }
}

pub fn order(g: &mut G) -> Order {
    if g.bool() {
        Order::Be
    } else {
        Order::Le
    }
}
