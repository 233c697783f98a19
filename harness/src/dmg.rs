//! Files of any kind, and damage to them.

use libopenraw::Type;

use crate::gen::G;
use crate::raws::{self, Kind};
use crate::{api, doc, prev};

pub struct Any {
    pub ty: Type,
    pub bytes: Vec<u8>,
    pub spots: Vec<usize>,
}

/// A well formed file.
pub fn any(g: &mut G) -> Any {
    crate::tiffw::small(g, whole)
}

fn whole(g: &mut G) -> Any {
    match g.below(5) {
        0 | 1 => {
            let ty = g.pickv(&raws::HOSTS);
            let r = raws::coloured(g, ty, Kind::Any);
            Any {
                ty,
                bytes: r.bytes,
                spots: r.spots,
            }
        }
        2 => {
            let ty = g.pickv(&prev::HOSTS);
            let f = prev::file(g, ty);
            Any {
                ty,
                bytes: f.bytes,
                spots: f.spots,
            }
        }
        3 => {
            let ty = g.pickv(&doc::HOSTS);
            let d = doc::doc(g, ty);
            Any {
                ty,
                bytes: d.bytes,
                spots: d.spots,
            }
        }
        _ => {
            // All a file can have at once
            let ty = g.pickv(&raws::HOSTS);
            let r = raws::coloured(g, ty, Kind::Codec);
            Any {
                ty,
                bytes: r.bytes,
                spots: r.spots,
            }
        }
    }
}

fn put(b: &mut [u8], at: usize, v: u64, n: usize, le: bool) {
    let all = if le { v.to_le_bytes() } else { v.to_be_bytes() };
    let v = if le { &all[..n] } else { &all[8 - n..] };
    for (i, x) in v.iter().enumerate() {
        if let Some(p) = b.get_mut(at + i) {
            *p = *x;
        }
    }
}

fn place(g: &mut G, a: &Any) -> usize {
    if a.bytes.is_empty() {
        return 0;
    }
    match g.below(8) {
        0 => g.idx(a.bytes.len()),
        1 => g.idx(a.bytes.len().min(64)),
        _ if !a.spots.is_empty() => *g.pick(&a.spots),
        _ => g.idx(a.bytes.len()),
    }
}

/// Change one thing.
pub fn hurt(g: &mut G, a: &mut Any) {
    let at = place(g, a);
    match g.below(16) {
        0..=7 => {
            let n = g.pickv(&[1, 2, 2, 4, 4, 4, 8]);
            let v = match g.below(7) {
                0 | 1 => g.edge(8 * n as u32),
                2 => g.below(20),
                3 => (a.bytes.len() as u64).wrapping_add(g.below(9)).wrapping_sub(4),
                4 => place(g, a) as u64,
                5 => g.u32() as u64,
                _ => {
                    // Not far from what it was
                    let le = g.bool();
                    let mut old = [0; 8];
                    for i in 0..n {
                        let j = if le { i } else { n - 1 - i };
                        old[j] = a.bytes.get(at + i).copied().unwrap_or(0);
                    }
                    let v = u64::from_le_bytes(old).wrapping_add(g.below(5)).wrapping_sub(2);
                    put(&mut a.bytes, at, v, n, le);
                    return;
                }
            };
            let le = g.bool();
            put(&mut a.bytes, at, v, n, le);
        }
        8 => {
            let n = if g.bool() { g.idx(a.bytes.len() + 1) } else { at };
            a.bytes.truncate(n);
        }
        9 => {
            // One bit
            let bit = g.below(8);
            if let Some(b) = a.bytes.get_mut(at) {
                *b ^= 1 << bit;
            }
        }
        10 => {
            let n = g.ur(1, 16);
            let b = g.noise(n);
            a.bytes.splice(at.min(a.bytes.len())..at.min(a.bytes.len()), b);
        }
        11 => {
            let end = (at + g.ur(1, 16)).min(a.bytes.len());
            a.bytes.drain(at.min(end)..end);
        }
        12 => {
            // A part of the file over another
            let from = place(g, a);
            let n = g.pickv(&[2, 4, 8, 12, 24, 64]);
            let part: Vec<u8> = a.bytes.iter().skip(from).take(n).copied().collect();
            for (i, x) in part.into_iter().enumerate() {
                if let Some(p) = a.bytes.get_mut(at + i) {
                    *p = x;
                }
            }
        }
        13 => {
            let n = g.pickv(&[1, 2, 4, 12, 40, 200]);
            let v = g.pickv(&[0, 0xff, 0x7f, 0x80, 1]);
            for p in a.bytes.iter_mut().skip(at).take(n) {
                *p = v;
            }
        }
        14 => {
            let n = g.pickv(&[1, 2, 4, 12, 40]);
            let v = g.noise(n);
            for (p, x) in a.bytes.iter_mut().skip(at).zip(v) {
                *p = x;
            }
        }
        _ => {
            let n = g.ur(1, 64);
            let b = g.noise(n);
            a.bytes.extend(b);
        }
    }
}

/// How a file starts that is said to be of this kind
fn magic(g: &mut G) -> Vec<u8> {
    let m: &[&[u8]] = &[
        b"II*\0\x08\0\0\0",
        b"MM\0*\0\0\0\x08",
        b"II*\0\x10\0\0\0CR\x02\0",
        b"IIRO\x08\0\0\0",
        b"MMOR\0\0\0\x08",
        b"IIRS\x08\0\0\0",
        b"IIU\0\x18\0\0\0",
        b"\0MRM\0\0\0\x10",
        b"II\x1a\0\0\0HEAPCCDR\x02\0\x01\0",
        b"FUJIFILMCCD-RAW 0201FF383501",
        b"\0\0\0\x18ftypcrx \0\0\0\x01crx isom",
        b"\xff\xd8\xff\xe1\0\x40Exif\0\0II*\0\x08\0\0\0",
        b"\xff\xd8\xff\xc3\0\x0b",
        b"",
    ];
    g.pick(m).to_vec()
}

/// Bytes nothing is known of.
pub fn wild(g: &mut G) -> Any {
    let mut bytes = magic(g);
    let n = g.pickv(&[0, 1, 2, 3, 4, 8, 12, 26, 40, 100, 300]);
    let more = match g.below(3) {
        0 => g.fill(n),
        1 => g.noise(n),
        _ => {
            let v = g.pickv(&[0, 1, 4, 0xff]);
            vec![v; n]
        }
    };
    bytes.extend(more);
    Any {
        ty: g.pickv(&api::TYPES),
        spots: (0..bytes.len()).collect(),
        bytes,
    }
}

/// A file whose parts are away from each other.
pub fn spread(g: &mut G) -> Any {
    let mut a = crate::tiffw::spread(g, any);
    if matches!(a.ty, Type::Crw | Type::Mrw | Type::Raf | Type::Cr3 | Type::Jpeg) {
        a.bytes = crate::c21::spread(g, a.ty, &a.bytes);
        a.spots.clear();
    }
    a
}

/// Any bytes: most are nearly a file.
pub fn bytes(g: &mut G) -> Any {
    if g.chance(1, 10) {
        g.label("wild");
        return wild(g);
    }
    let mut a = any(g);
    g.label(api::name_of(a.ty));
    let n = match g.below(8) {
        0 => 0,
        1..=4 => 1,
        5 | 6 => g.ur(2, 4),
        _ => g.ur(5, 30),
    };
    for _ in 0..n {
        hurt(g, &mut a);
    }
    a
}

/// How it is opened.
pub fn hint(g: &mut G, ty: Type) -> Option<Type> {
    match g.below(10) {
        0 => None,
        1 => Some(g.pickv(&api::TYPES)),
        2 => match ty {
            Type::Dng => Some(Type::Gpr),
            Type::Nef => Some(Type::Nrw),
            Type::Arw => Some(Type::Sr2),
            Type::Rw2 => Some(Type::Rw),
            t => Some(t),
        },
        _ => Some(ty),
    }
}
