//! C02: an answer depends on the bytes of the file alone.

use std::panic::AssertUnwindSafe;

use libopenraw::{RawFileHandle, Type};

use crate::api::{self, Via, Q};
use crate::dmg;
use crate::gen::{self, G};
use crate::run::{self, fail, R};

struct File {
    bytes: Vec<u8>,
    hint: Option<Type>,
}

fn made(g: &mut G) -> File {
    let mut a = if g.chance(1, 4) {
        g.label("spread");
        dmg::spread(g)
    } else {
        dmg::any(g)
    };
    for _ in 0..g.pickv(&[0, 0, 0, 1, 1, 2, 5]) {
        dmg::hurt(g, &mut a);
    }
    if g.chance(1, 20) {
        a = dmg::wild(g);
    }
    g.label(api::name_of(a.ty));
    let hint = dmg::hint(g, a.ty);
    File { bytes: a.bytes, hint }
}

/// Not what it was, but alike
fn alike(g: &mut G, f: &File) -> File {
    let mut a = dmg::Any {
        ty: Type::Unknown,
        bytes: f.bytes.clone(),
        spots: vec![],
    };
    for _ in 0..g.ur(1, 3) {
        dmg::hurt(g, &mut a);
    }
    File {
        bytes: a.bytes,
        hint: f.hint,
    }
}

fn open(f: &File, via: Via) -> Result<RawFileHandle, String> {
    run::stage("open");
    let r = run::catch(AssertUnwindSafe(|| api::open(&f.bytes, f.hint, via)));
    run::stage("");
    match r {
        Ok(Ok(h)) => Ok(h),
        Ok(Err(e)) => Err(api::err(&e)),
        Err(f) => Err(f.sig),
    }
}

fn answer(h: &RawFileHandle, q: &Q) -> String {
    // That it panics is another property's concern. That it always does is this one's.
    api::ask_caught(h, q).unwrap_or_else(|f| format!("panic {}", f.sig))
}

/// The answer of a handle that was asked nothing else
fn alone(f: &File, q: &Q) -> String {
    match open(f, Via::Memory) {
        Ok(h) => answer(&h, q),
        Err(e) => format!("not opened: {e}"),
    }
}

fn history(g: &mut G) -> R {
    let first = made(g);
    let mut files = vec![first];
    match g.below(4) {
        0 => {
            let f = alike(g, &files[0]);
            files.push(f);
        }
        1 => {
            let f = made(g);
            files.push(f);
        }
        _ => {}
    }
    let all = api::queries();
    let n = if g.chance(1, 6) { all.len() } else { g.ur(3, 12) };
    let p = g.perm(all.len());
    let mut qs: Vec<Q> = p.into_iter().take(n).map(|i| all[i].clone()).collect();
    if g.bool() {
        // Those that share most
        for q in [Q::Raw(false), Q::Raw(true), Q::ThumbListed(0), Q::Meta, Q::Dump] {
            if g.bool() && !qs.contains(&q) {
                let at = g.idx(qs.len() + 1);
                qs.insert(at, q);
            }
        }
    }
    // What is done: which file, through which of its handles, what
    let mut steps = vec![];
    for round in 0..2 {
        for i in g.perm(qs.len() * files.len()) {
            if round == 0 || g.chance(1, 3) {
                steps.push((i % files.len(), g.idx(2), i / files.len()));
            }
        }
    }
    let vias: Vec<[Via; 2]> = files
        .iter()
        .map(|_| [g.pickv(&[Via::File, Via::File, Via::Memory]), g.pickv(&[Via::File, Via::Cursor, Via::Slice, Via::Probed])])
        .collect();
    let sum: Vec<u8> = files.iter().flat_map(|f| f.bytes.iter().copied()).collect();
    g.input(&sum);

    run::set_fill(0);
    let expected: Vec<Vec<String>> = files.iter().map(|f| qs.iter().map(|q| alone(f, q)).collect()).collect();
    run::set_fill(0xa5);
    let mut handles: Vec<[Option<Result<RawFileHandle, String>>; 2]> = files.iter().map(|_| [None, None]).collect();
    let mut done = vec![];
    let mut found = 0;
    let r = (|| {
        for (f, k, q) in &steps {
            let h = handles[*f][*k].get_or_insert_with(|| open(&files[*f], vias[*f][*k]));
            let got = match h {
                Ok(h) => answer(h, &qs[*q]),
                Err(e) => format!("not opened: {e}"),
            };
            done.push(format!("{f}/{:?}/{:?}", vias[*f][*k], qs[*q]));
            let want = &expected[*f][*q];
            if &got != want {
                return fail(
                    format!("{} differs", qs[*q].name()),
                    format!("after {done:?}\nalone: {want}\nthen:  {got}"),
                );
            }
            if !got.starts_with("Err(") && got != "None" && !got.starts_with("not opened") {
                found += 1;
            }
        }
        Ok(())
    })();
    run::clear_fill();
    drop(handles);
    r?;
    if found >= 5 {
        g.nontrivial();
    }
    Ok(())
}

/// The decoders offered by themselves, asked twice with other things in memory
fn decoders(g: &mut G) -> R {
    let (pay, _) = crate::raws2::cr2_pay(g);
    let mut a = dmg::Any {
        ty: Type::Cr2,
        spots: vec![],
        bytes: pay.chunks.concat(),
    };
    a.spots = (0..a.bytes.len().min(80)).collect();
    for _ in 0..g.pickv(&[0, 0, 1, 1, 3]) {
        dmg::hurt(g, &mut a);
    }
    let (w, h) = (g.ur(0, 40), g.ur(0, 20));
    let (is_raw, tiled, olympus) = (g.bool(), g.bool(), g.chance(1, 3));
    let slices = if g.bool() { Some([g.below(6) as u32, g.below(40) as u32, g.below(40) as u32]) } else { None };
    g.input(&a.bytes);
    let once = |fill: u8| {
        run::set_fill(fill);
        let r = run::catch(AssertUnwindSafe(|| {
            let r = if olympus {
                libopenraw::decompress_olympus(&a.bytes, w, h).map(|d| format!("{:016x}", gen::hash(&api::u16s(&d))))
            } else {
                let mut d = libopenraw::LJpeg::new(is_raw);
                if let Some(s) = slices {
                    d.set_slices(&s);
                }
                d.decompress_buffer(&a.bytes, tiled, &None).map(|r| format!("{}x{} {}x{} {:016x}", r.width, r.height, r.u_width, r.u_height, gen::hash(&api::u16s(&r.buf))))
            };
            r.unwrap_or_else(|e| api::err(&e))
        }));
        run::clear_fill();
        r.unwrap_or_else(|f| f.sig)
    };
    let (x, y) = (once(0), once(0xa5));
    if x != y {
        return fail("decoder differs", format!("{x}\n{y}"));
    }
    if !x.starts_with("Err(") {
        g.nontrivial();
    }
    Ok(())
}

pub fn check() -> run::Check {
    run::Check {
        id: "C02",
        rule: "at least five of the answers were compared and weren't errors, or a decoder had a result",
        assumptions: &["both answers come from one process: what the process keeps from one file to another shows if it depends on the order"],
        subs: vec![
            run::Sub { name: "history", quick: 60000, thorough: 5000000, run: history },
            run::Sub { name: "decoders", quick: 20000, thorough: 1000000, run: decoders },
        ],
    }
}
