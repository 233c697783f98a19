//! C19: crops fit and keep the requested proportions.
use libopenraw::{AspectRatio, Point, Rect, Size};

use crate::gen::G;
use crate::run::{Check, Sub, R};

const COMMON: [(u32, u32); 12] = [
    (1, 1), (3, 2), (2, 3), (4, 3), (3, 4), (16, 9), (9, 16), (65, 24), (5, 4), (7, 6), (6, 7), (24, 65),
];

fn ratio(g: &mut G) -> (u32, u32) {
    match g.below(3) {
        0 => g.pickv(&COMMON),
        1 => (g.u32r(1, 40), g.u32r(1, 40)),
        _ => (g.u32r(1, 70000), g.u32r(1, 70000)),
    }
}

/// The area must be the original cut in one dimension only, to the proportion within a pixel.
fn judge(w: u32, h: u32, a: u32, b: u32, cw: u32, ch: u32) -> R {
    let (w, h, a, b, cw, ch) = (w as i128, h as i128, a as i128, b as i128, cw as i128, ch as i128);
    ensure!(cw <= w && ch <= h, "outside", "{w}x{h} cropped to {a}:{b} is {cw}x{ch}");
    ensure!(cw == w || ch == h, "both dimensions cut", "{w}x{h} cropped to {a}:{b} is {cw}x{ch}");
    // cw/ch = a/b within one pixel of the dimension that was cut
    let wide = w * b > h * a;
    if wide {
        // width is cut to h*a/b
        ensure!(ch == h, "wrong dimension cut", "{w}x{h} cropped to {a}:{b} is {cw}x{ch}");
        ensure!((cw * b - h * a).abs() <= b, "proportion", "{w}x{h} cropped to {a}:{b} is {cw}x{ch}");
    } else {
        ensure!(cw == w, "wrong dimension cut", "{w}x{h} cropped to {a}:{b} is {cw}x{ch}");
        ensure!((ch * a - w * b).abs() <= a, "proportion", "{w}x{h} cropped to {a}:{b} is {cw}x{ch}");
    }
    Ok(())
}

fn dim(g: &mut G) -> u32 {
    match g.below(4) {
        0 => g.u32r(1, 64),
        1 => g.u32r(1, 12000),
        2 => g.u32r(1, 1 << 20),
        // Up to what a file can say in 31 bits: exact in a double with room to spare.
        _ => g.u32r(1, (1 << 31) - 1),
    }
}

fn size(g: &mut G) -> (u32, u32, u32, u32) {
    let (a, b) = ratio(g);
    match g.below(4) {
        0 => {
            // Exactly the proportion, or a pixel off
            let k = g.u32r(1, 20000);
            let w = a.saturating_mul(k).min(1 << 31);
            let h = b.saturating_mul(k).min(1 << 31);
            let w = (w as i64 + g.below(3) as i64 - 1).max(1) as u32;
            let h = (h as i64 + g.below(3) as i64 - 1).max(1) as u32;
            g.label("near the ratio");
            (w, h, a, b)
        }
        1 => {
            let d = dim(g);
            g.label("square");
            (d, d, a, b)
        }
        _ => (dim(g), dim(g), a, b),
    }
}

fn crop(g: &mut G) -> R {
    let (w, h, a, b) = size(g);
    g.desc = format!("{w}x{h} to {a}:{b}");
    g.nontrivial = w as u64 * b as u64 != h as u64 * a as u64;
    let d = g.desc.clone();
    g.input(d.as_bytes());
    let c = AspectRatio(a, b).crop(Size { width: w, height: h });
    judge(w, h, a, b, c.width, c.height)
}

fn crop_into(g: &mut G) -> R {
    let (w, h, a, b) = size(g);
    let x = g.u32r(0, (u32::MAX - w).min(1 << 30));
    let y = g.u32r(0, (u32::MAX - h).min(1 << 30));
    g.desc = format!("{w}x{h}+{x}+{y} to {a}:{b}");
    g.nontrivial = x != 0 && y != 0;
    let d = g.desc.clone();
    g.input(d.as_bytes());
    let r = Rect::new(Point { x, y }, Size { width: w, height: h });
    ensure_eq!(r.to_vec(), vec![x, y, w, h], "rect");
    let c = AspectRatio(a, b).crop_into(&r);
    judge(w, h, a, b, c.width, c.height)?;
    ensure!(c.x >= x && c.y >= y, "outside", "{r:?} to {c:?}");
    let (x, y, w, h) = (x as i64, y as i64, w as i64, h as i64);
    let (cx, cy, cw, ch) = (c.x as i64, c.y as i64, c.width as i64, c.height as i64);
    ensure!(cx + cw <= x + w && cy + ch <= y + h, "outside", "{r:?} to {c:?}");
    let mx = ((cx - x) - (x + w - cx - cw)).abs();
    let my = ((cy - y) - (y + h - cy - ch)).abs();
    ensure!(mx <= 1 && my <= 1, "not centred", "{r:?} to {c:?}");
    // The size is the one crop() gives.
    let s = AspectRatio(a, b).crop(r.size());
    ensure_eq!((c.width, c.height), (s.width, s.height), "crop and crop_into differ");
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "C19",
        rule: "sizes from 1 to 2^31-1 (some exactly at the ratio, some a pixel off, some square), ratios of cameras and any up to 70000, positions; non-trivial: the size is not already at the ratio (crop), both coordinates non-zero (crop_into); distinct by input",
        assumptions: &["zero sizes and ratios are outside the property"],
        subs: vec![
            Sub { name: "crop", quick: 2000000, thorough: 200000000, run: crop },
            Sub { name: "crop_into", quick: 2000000, thorough: 200000000, run: crop_into },
        ],
    }
}
