//! C14: Canon CRW compressed raw data decodes exactly.

use libopenraw::tiff::Compression;
use libopenraw::Type;

use crate::gen::{self, G};
use crate::ljpeg::{self, Bits, Code};
use crate::raws::{self, Body, Pay};
use crate::run::{self, R};

// Sixteen counts of codes of each length, and the symbols.
const FIRST: [[u8; 29]; 3] = [
    [
        0x00, 0x01, 0x04, 0x02, 0x03, 0x01, 0x02, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x04, 0x03,
        0x05, 0x06, 0x02, 0x07, 0x01, 0x08, 0x09, 0x00, 0x0a, 0x0b, 0xff,
    ],
    [
        0x00, 0x02, 0x02, 0x03, 0x01, 0x01, 0x01, 0x01, 0x02, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x03, 0x02,
        0x04, 0x01, 0x05, 0x00, 0x06, 0x07, 0x09, 0x08, 0x0a, 0x0b, 0xff,
    ],
    [
        0x00, 0x00, 0x06, 0x03, 0x01, 0x01, 0x02, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x06, 0x05,
        0x07, 0x04, 0x08, 0x03, 0x09, 0x02, 0x00, 0x0a, 0x01, 0x0b, 0xff,
    ],
];
const SECOND: [[u8; 180]; 3] = [
    [
        0x00, 0x02, 0x02, 0x02, 0x01, 0x04, 0x02, 0x01, 0x02, 0x05, 0x01, 0x01, 0x00, 0x00, 0x00, 0x8b, 0x03, 0x04,
        0x02, 0x05, 0x01, 0x06, 0x07, 0x08, 0x12, 0x13, 0x11, 0x14, 0x09, 0x15, 0x22, 0x00, 0x21, 0x16, 0x0a, 0xf0,
        0x23, 0x17, 0x24, 0x31, 0x32, 0x18, 0x19, 0x33, 0x25, 0x41, 0x34, 0x42, 0x35, 0x51, 0x36, 0x37, 0x38, 0x29,
        0x79, 0x26, 0x1a, 0x39, 0x56, 0x57, 0x28, 0x27, 0x52, 0x55, 0x58, 0x43, 0x76, 0x59, 0x77, 0x54, 0x61, 0xf9,
        0x71, 0x78, 0x75, 0x96, 0x97, 0x49, 0xb7, 0x53, 0xd7, 0x74, 0xb6, 0x98, 0x47, 0x48, 0x95, 0x69, 0x99, 0x91,
        0xfa, 0xb8, 0x68, 0xb5, 0xb9, 0xd6, 0xf7, 0xd8, 0x67, 0x46, 0x45, 0x94, 0x89, 0xf8, 0x81, 0xd5, 0xf6, 0xb4,
        0x88, 0xb1, 0x2a, 0x44, 0x72, 0xd9, 0x87, 0x66, 0xd4, 0xf5, 0x3a, 0xa7, 0x73, 0xa9, 0xa8, 0x86, 0x62, 0xc7,
        0x65, 0xc8, 0xc9, 0xa1, 0xf4, 0xd1, 0xe9, 0x5a, 0x92, 0x85, 0xa6, 0xe7, 0x93, 0xe8, 0xc1, 0xc6, 0x7a, 0x64,
        0xe1, 0x4a, 0x6a, 0xe6, 0xb3, 0xf1, 0xd3, 0xa5, 0x8a, 0xb2, 0x9a, 0xba, 0x84, 0xa4, 0x63, 0xe5, 0xc5, 0xf3,
        0xd2, 0xc4, 0x82, 0xaa, 0xda, 0xe4, 0xf2, 0xca, 0x83, 0xa3, 0xa2, 0xc3, 0xea, 0xc2, 0xe2, 0xe3, 0xff, 0xff,
    ],
    [
        0x00, 0x02, 0x02, 0x01, 0x04, 0x01, 0x04, 0x01, 0x03, 0x03, 0x01, 0x00, 0x00, 0x00, 0x00, 0x8c, 0x02, 0x03,
        0x01, 0x04, 0x05, 0x12, 0x11, 0x06, 0x13, 0x07, 0x08, 0x14, 0x22, 0x09, 0x21, 0x00, 0x23, 0x15, 0x31, 0x32,
        0x0a, 0x16, 0xf0, 0x24, 0x33, 0x41, 0x42, 0x19, 0x17, 0x25, 0x18, 0x51, 0x34, 0x43, 0x52, 0x29, 0x35, 0x61,
        0x39, 0x71, 0x62, 0x36, 0x53, 0x26, 0x38, 0x1a, 0x37, 0x81, 0x27, 0x91, 0x79, 0x55, 0x45, 0x28, 0x72, 0x59,
        0xa1, 0xb1, 0x44, 0x69, 0x54, 0x58, 0xd1, 0xfa, 0x57, 0xe1, 0xf1, 0xb9, 0x49, 0x47, 0x63, 0x6a, 0xf9, 0x56,
        0x46, 0xa8, 0x2a, 0x4a, 0x78, 0x99, 0x3a, 0x75, 0x74, 0x86, 0x65, 0xc1, 0x76, 0xb6, 0x96, 0xd6, 0x89, 0x85,
        0xc9, 0xf5, 0x95, 0xb4, 0xc7, 0xf7, 0x8a, 0x97, 0xb8, 0x73, 0xb7, 0xd8, 0xd9, 0x87, 0xa7, 0x7a, 0x48, 0x82,
        0x84, 0xea, 0xf4, 0xa6, 0xc5, 0x5a, 0x94, 0xa4, 0xc6, 0x92, 0xc3, 0x68, 0xb5, 0xc8, 0xe4, 0xe5, 0xe6, 0xe9,
        0xa2, 0xa3, 0xe3, 0xc2, 0x66, 0x67, 0x93, 0xaa, 0xd4, 0xd5, 0xe7, 0xf8, 0x88, 0x9a, 0xd7, 0x77, 0xc4, 0x64,
        0xe2, 0x98, 0xa5, 0xca, 0xda, 0xe8, 0xf3, 0xf6, 0xa9, 0xb2, 0xb3, 0xf2, 0xd2, 0x83, 0xba, 0xd3, 0xff, 0xff,
    ],
    [
        0x00, 0x00, 0x06, 0x02, 0x01, 0x03, 0x03, 0x02, 0x05, 0x01, 0x02, 0x02, 0x08, 0x0a, 0x00, 0x75, 0x04, 0x05,
        0x03, 0x06, 0x02, 0x07, 0x01, 0x08, 0x09, 0x12, 0x13, 0x14, 0x11, 0x15, 0x0a, 0x16, 0x17, 0xf0, 0x00, 0x22,
        0x21, 0x18, 0x23, 0x19, 0x24, 0x32, 0x31, 0x25, 0x33, 0x38, 0x37, 0x34, 0x35, 0x36, 0x39, 0x79, 0x57, 0x58,
        0x59, 0x28, 0x56, 0x78, 0x27, 0x41, 0x29, 0x77, 0x26, 0x42, 0x76, 0x99, 0x1a, 0x55, 0x98, 0x97, 0xf9, 0x48,
        0x54, 0x96, 0x89, 0x47, 0xb7, 0x49, 0xfa, 0x75, 0x68, 0xb6, 0x67, 0x69, 0xb9, 0xb8, 0xd8, 0x52, 0xd7, 0x88,
        0xb5, 0x74, 0x51, 0x46, 0xd9, 0xf8, 0x3a, 0xd6, 0x87, 0x45, 0x7a, 0x95, 0xd5, 0xf6, 0x86, 0xb4, 0xa9, 0x94,
        0x53, 0x2a, 0xa8, 0x43, 0xf5, 0xf7, 0xd4, 0x66, 0xa7, 0x5a, 0x44, 0x8a, 0xc9, 0xe8, 0xc8, 0xe7, 0x9a, 0x6a,
        0x73, 0x4a, 0x61, 0xc7, 0xf4, 0xc6, 0x65, 0xe9, 0x72, 0xe6, 0x71, 0x91, 0x93, 0xa6, 0xda, 0x92, 0x85, 0x62,
        0xf3, 0xc5, 0xb2, 0xa4, 0x84, 0xba, 0x64, 0xa5, 0xb3, 0xd2, 0x81, 0xe5, 0xd3, 0xaa, 0xc4, 0xca, 0xf2, 0xb1,
        0xe4, 0xd1, 0x83, 0x63, 0xea, 0xc3, 0xe2, 0x82, 0xf1, 0xa3, 0xc2, 0xa1, 0xc1, 0xe3, 0xa2, 0xe1, 0xff, 0xff,
    ],
];

fn code(t: &[u8]) -> Code {
    let mut lens: Vec<u8> = t[..16].iter().enumerate().flat_map(|(i, n)| vec![i as u8 + 1; *n as usize]).collect();
    let mut syms = t[16..].to_vec();
    lens.truncate(syms.len());
    syms.truncate(lens.len());
    ljpeg::from_lengths(&lens, &syms)
}

fn codes(table: u32) -> (Code, Code) {
    let t = table.min(2) as usize;
    (code(&FIRST[t]), code(&SECOND[t]))
}

/// What comes after 0xff is always 0.
fn stuff(b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for v in b {
        out.push(*v);
        if *v == 0xff {
            out.push(0);
        }
    }
    out
}

pub fn encode(px: &[u16], w: usize, table: u32) -> Vec<u8> {
    let (first, second) = codes(table);
    let mut b = Bits::default();
    let mut diffs: Vec<i32> = (0..px.len())
        .map(|n| px[n] as i32 - if n % w < 2 { 512 } else { px[n - 2] as i32 })
        .collect();
    while diffs.len() % 64 != 0 {
        diffs.push(0);
    }
    let mut carry = 0;
    for d in diffs.chunks(64) {
        let v = d[0] - carry;
        carry = d[0];
        let n = ljpeg::category(v);
        first.put(&mut b, n);
        b.put(ljpeg::extra(v, n), n as u32);
        let mut run = 0;
        for v in &d[1..] {
            if *v == 0 {
                run += 1;
                continue;
            }
            while run > 15 {
                second.put(&mut b, 0xf0);
                run -= 16;
            }
            let n = ljpeg::category(*v);
            second.put(&mut b, run << 4 | n);
            b.put(ljpeg::extra(*v, n), n as u32);
            run = 0;
        }
        if run > 0 {
            second.put(&mut b, 0);
        }
    }
    stuff(&b.end(false))
}

/// The record of the raw data, and the decoder table.
pub fn pay(g: &mut G) -> (Pay, u32) {
    let w = 8 * match g.below(4) {
        0 => 1,
        1 => g.u32r(20, 60),
        _ => g.u32r(1, 20),
    };
    let h = g.u32r(1, 24);
    let (w, h) = g.large(500).map(|s| ((s.0 + 7) & !7, s.1)).unwrap_or((w, h));
    let low = g.bool();
    let bits = if low { 12 } else { 10 };
    let px = gen::image(g, (w * h) as usize, w as usize, bits);
    let table = g.pickv(&[0, 1, 2, 2, 3]);
    let mut d = vec![];
    let mut style = "crw";
    if low {
        style = "crw low bits";
        let mut plane: Vec<u8> = px.chunks(4).map(|c| c.iter().enumerate().map(|(i, v)| ((v & 3) as u8) << (2 * i)).sum()).collect();
        let none = g.chance(1, 6);
        if none {
            plane.iter_mut().for_each(|v| *v = if *v == 0xff { 0xbf } else { *v });
        }
        d.extend(&plane);
        let mut fill = g.noise(514);
        fill.iter_mut().for_each(|v| *v &= 0x7f);
        if !none {
            fill[512] = 0xff;
            fill[513] = 1 | fill[513];
        }
        d.extend(fill);
    } else {
        d = g.noise(514);
    }
    let mut px = px;
    if low {
        for (i, v) in px.iter_mut().enumerate() {
            *v = (*v & !3) | (d[i / 4] >> (2 * (i % 4)) & 3) as u16;
        }
    }
    let shift = if low { 2 } else { 0 };
    let hi: Vec<u16> = px.iter().map(|v| v >> shift).collect();
    d.extend(encode(&hi, w as usize, table));
    let least = 0x4000 - 26;
    // How the decoder tells: a mark in the first bytes means low bits, only stuffed bytes mean
    // none, nothing at all means low bits.
    let says = |d: &[u8]| {
        let mut d = d.to_vec();
        d.resize(d.len().max(least), 0);
        let t = &d[514..least];
        let seen = t[..t.len() - 1].contains(&0xff);
        (!seen || t.windows(2).any(|w| w[0] == 0xff && w[1] != 0), seen)
    };
    if !low {
        d.extend([0, 0xff, 0, 0]);
    } else if !says(&d).1 {
        style = "crw low bits without a mark";
    } else if !says(&d).0 {
        // What there is says that it is compressed data
        d.extend([0xff, 1]);
    }
    let n = g.ur(0, 40);
    let len = d.len().max(least) + 8 + n;
    d.resize(len, 0);
    if says(&d).0 != low {
        // The mark is too far
        return pay(g);
    }
    (
        Pay {
            w,
            h,
            bpc: bits as u16,
            comp: None,
            chunks: vec![d.clone()],
            tile: None,
            skip: Body::S8(d),
            full: Body::S16(px),
            full_w: w,
            full_h: h,
            full_bpc: bits as u16,
            compr: [Compression::Unknown; 2],
            style,
        },
        table,
    )
}

fn files(g: &mut G) -> R {
    crate::c08::one(g, Type::Crw, raws::Kind::Codec)
}

pub fn check() -> run::Check {
    run::Check {
        id: "C14",
        rule: "the image has at least 16 samples that are not all the same",
        assumptions: &["rows are a multiple of eight samples, as blocks of 64 samples are eight rows apart"],
        subs: vec![run::Sub { name: "files", quick: 180000, thorough: 4000000, run: files }],
    }
}
