//! C04: asking for a preview size returns the right preview.
//! C05: embedded previews are returned byte for byte.

use std::collections::BTreeSet;

use libopenraw::{Bitmap, DataType, RawFileHandle, Thumbnail, Type};

use crate::api::{self, Via};
use crate::gen::G;
use crate::prev::{self, File, P};
use crate::run::{fail, Check, Sub, R};

fn same(t: &Thumbnail, p: &P) -> bool {
    t.width() == p.w && t.height() == p.h && t.data_type() == p.kind && t.bpc() == 8 && t.data8() == Some(&p.bytes[..]) && t.data_size() == p.bytes.len()
}

fn open(g: &mut G, f: &File) -> Result<RawFileHandle, crate::run::Fail> {
    let via = if g.chance(1, 20) { Via::File } else { Via::Memory };
    api::open(&f.bytes, Some(f.ty), via).map_err(|e| crate::run::Fail {
        sig: "open".into(),
        msg: format!("{:?} cannot be opened: {e:?}", f.ty),
    })
}

fn listed(f: &File, h: &RawFileHandle) -> Result<BTreeSet<u32>, crate::run::Fail> {
    let want: BTreeSet<u32> = f.list.iter().map(|p| p.dim()).collect();
    let got: BTreeSet<u32> = h.thumbnail_sizes().unwrap_or(&[]).iter().copied().collect();
    if got != want {
        return Err(crate::run::Fail {
            sig: "sizes".into(),
            msg: format!(
                "{:?} lists {got:?}, but holds {:?}",
                f.ty,
                f.list.iter().map(|p| format!("{} {}x{}", p.place, p.w, p.h)).collect::<Vec<_>>()
            ),
        });
    }
    Ok(want)
}

fn extract(g: &mut G, ty: Type) -> R {
    let f = prev::file(g, ty);
    if f.list.len() > 1 {
        g.label("several");
    }
    for p in &f.list {
        g.label(p.place);
        g.label(if p.kind == DataType::Jpeg { "JPEG" } else { "RGB" });
    }
    if !f.list.is_empty() {
        g.nontrivial();
    } else {
        g.label("none");
    }
    g.desc = format!("{:?} {} bytes: {:?}", ty, f.bytes.len(), f.list.iter().map(|p| format!("{} {}x{}", p.place, p.w, p.h)).collect::<Vec<_>>());
    let h = open(g, &f)?;
    let sizes = listed(&f, &h)?;
    // A size listed twice is listed as often as there are previews of it
    ensure!(
        h.thumbnail_sizes().unwrap_or(&[]).len() <= f.list.len(),
        "too many",
        "{:?} lists {:?} for {} previews",
        ty,
        h.thumbnail_sizes(),
        f.list.len()
    );
    for s in sizes {
        let t = match h.thumbnail(s) {
            Ok(t) => t,
            Err(e) => return fail("extract", format!("{ty:?}: {s}: {e:?}")),
        };
        let c: Vec<&P> = f.list.iter().filter(|p| p.dim() == s).collect();
        ensure!(
            c.iter().any(|p| same(&t, p)),
            "preview",
            "{:?} {}: got {}x{} {:?} {} bytes {:02x?}, expected one of {:?}",
            ty,
            s,
            t.width(),
            t.height(),
            t.data_type(),
            t.data_size(),
            &t.data8().unwrap_or(&[])[..t.data_size().min(12)],
            c.iter()
                .map(|p| format!("{} {}x{} {:?} {} bytes {:02x?}", p.place, p.w, p.h, p.kind, p.bytes.len(), &p.bytes[..p.bytes.len().min(12)]))
                .collect::<Vec<_>>()
        );
    }
    Ok(())
}

fn extract_any(g: &mut G) -> R {
    let ty = g.pickv(&prev::HOSTS);
    extract(g, ty)
}

fn select(g: &mut G) -> R {
    let ty = g.pickv(&prev::HOSTS);
    let f = prev::file(g, ty);
    let h = open(g, &f)?;
    let dims: BTreeSet<u32> = f.list.iter().map(|p| p.dim()).collect();
    if dims.len() > 1 {
        g.nontrivial();
        g.label("several sizes");
    }
    g.desc = format!("{ty:?} {dims:?}");
    // Asked before anything was listed, sometimes
    if g.bool() {
        listed(&f, &h)?;
    }
    let mut ask: Vec<u32> = vec![0, 1, u32::MAX, u32::MAX - 1, g.u32().max(1), g.u32r(1, 5000)];
    for d in &dims {
        ask.extend([d.saturating_sub(1), *d, d.saturating_add(1)]);
        if d / 2 > 0 {
            ask.push(d / 2);
        }
    }
    let p = g.perm(ask.len());
    for i in p {
        let s = ask[i];
        let got = h.thumbnail(s);
        if s == 0 {
            ensure!(
                matches!(got, Err(libopenraw::Error::InvalidParam)),
                "zero",
                "{:?}: size 0 gives {:?}",
                ty,
                got.map(|t| t.width())
            );
            continue;
        }
        if dims.is_empty() {
            ensure!(
                matches!(got, Err(libopenraw::Error::NotFound)),
                "none",
                "{:?}: without previews, size {} gives {:?}",
                ty,
                s,
                got.map(|t| t.width())
            );
            continue;
        }
        let want = if dims.contains(&s) {
            g.label("exact");
            s
        } else if let Some(b) = dims.range(s..).next() {
            g.label("larger");
            *b
        } else {
            g.label("largest");
            *dims.iter().next_back().unwrap()
        };
        match got {
            Err(e) => return fail("refused", format!("{ty:?} has {dims:?}: size {s} gives {e:?}")),
            Ok(t) => {
                let d = t.width().max(t.height());
                ensure!(d == want, "selection", "{:?} has {:?}: size {} gives {}, expected {}", ty, dims, s, d, want);
                ensure!(
                    f.list.iter().any(|p| p.dim() == want && same(&t, p)),
                    "selected preview",
                    "{:?}: size {} gives {}x{} {:?}, which is not that preview",
                    ty,
                    s,
                    t.width(),
                    t.height(),
                    t.data_type()
                );
            }
        }
    }
    Ok(())
}

pub fn c04() -> Check {
    Check {
        id: "C04",
        rule: "the file holds previews of at least two sizes",
        assumptions: &["A size listed twice may be answered with either preview of that size"],
        subs: vec![Sub {
            name: "select",
            quick: 800000,
            thorough: 16000000,
            run: select,
        }],
    }
}

pub fn c05() -> Check {
    Check {
        id: "C05",
        rule: "the file holds at least one preview",
        assumptions: &[
            "The EXIF thumbnails of JPEG and RW2 files are 160x120 and the maker note previews of ERF and MRW files 640x424 and 640x480, as the library documents",
            "A preview said to be longer than the file ends with the file",
        ],
        subs: vec![Sub {
            name: "extract",
            quick: 1000000,
            thorough: 20000000,
            run: extract_any,
        }],
    }
}
