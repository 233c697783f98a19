//! C01: no file content can crash or hang the library.

use std::panic::AssertUnwindSafe;

use libopenraw::LJpeg;

use crate::api::{self, Q};
use crate::dmg;
use crate::gen::G;
use crate::run::{self, R};

/// Formats what it is given and forgets it: an argument that cannot be formatted shows.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(format!("{}", r.args()).len());
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;

fn logging(on: bool) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = log::set_logger(&SINK);
    });
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}

fn queries(g: &mut G) -> Vec<Q> {
    let all = api::queries();
    let n = if g.chance(1, 3) { all.len() } else { g.ur(3, 10) };
    let p = g.perm(all.len());
    p.into_iter().take(n).map(|i| all[i].clone()).collect()
}

fn file(g: &mut G) -> R {
    let a = dmg::bytes(g);
    let hint = dmg::hint(g, a.ty);
    let qs = queries(g);
    let noisy = g.chance(1, 4);
    let via = match g.below(30) {
        0 => api::Via::File,
        1..=5 => api::Via::Probed,
        _ => api::Via::Memory,
    };
    g.input(&a.bytes);
    logging(noisy);
    let r = ask(g, &a, hint, via, &qs);
    logging(false);
    r
}

fn ask(g: &mut G, a: &dmg::Any, hint: Option<libopenraw::Type>, via: api::Via, qs: &[Q]) -> R {
    run::stage("open");
    let h = run::catch(AssertUnwindSafe(|| api::open(&a.bytes, hint, via)));
    run::stage("");
    let h = match h? {
        Ok(h) => h,
        Err(_) => {
            g.label("not opened");
            return Ok(());
        }
    };
    let mut good = 0;
    for q in qs {
        let t = api::ask_caught(&h, q)?;
        if !t.starts_with("Err(") && t != "None" {
            good += 1;
        }
        if matches!(q, Q::Raw(false)) && !t.starts_with("Err(") {
            g.label("raw data decoded");
        }
    }
    if good >= 3 {
        g.nontrivial();
    }
    Ok(())
}

/// The decoders that are also offered by themselves
fn decoders(g: &mut G) -> R {
    let olympus = g.chance(1, 3);
    let (bytes, w, h, slices) = if olympus {
        let n = g.ur(0, 200);
        let w = g.pickv(&[0, 1, 2, 3, 16, 17, 200, usize::MAX, 1 << 33]);
        let h = g.pickv(&[0, 1, 2, 5, 40, usize::MAX, 1 << 33]);
        (g.noise(n), w, h, None)
    } else {
        let (pay, _) = crate::raws2::cr2_pay(g);
        let s = if g.bool() { Some([g.below(6) as u32, g.edge(32) as u32, g.edge(32) as u32]) } else { None };
        (pay.chunks.concat(), 0, 0, s)
    };
    let mut a = dmg::Any {
        ty: libopenraw::Type::Cr2,
        spots: (0..bytes.len().min(80)).collect(),
        bytes,
    };
    for _ in 0..g.ur(0, 4) {
        dmg::hurt(g, &mut a);
    }
    let (is_raw, tiled) = (g.bool(), g.bool());
    g.input(&a.bytes);
    run::stage("decoder");
    let r = run::catch(AssertUnwindSafe(|| {
        if olympus {
            libopenraw::decompress_olympus(&a.bytes, w, h).is_ok()
        } else {
            let mut d = LJpeg::new(is_raw);
            if let Some(s) = slices {
                d.set_slices(&s);
            }
            d.decompress_buffer(&a.bytes, tiled, &None).is_ok()
        }
    }));
    run::stage("");
    if r? {
        g.label("decoded");
        g.nontrivial();
    }
    Ok(())
}

pub fn check() -> run::Check {
    run::Check {
        id: "C01",
        rule: "the file was opened and at least three questions were answered, or a decoder had a result",
        assumptions: &["a case that needs a single allocation of over 384 MB is not judged further"],
        subs: vec![
            run::Sub { name: "file", quick: 300000, thorough: 30000000, run: file },
            run::Sub { name: "decoders", quick: 50000, thorough: 3000000, run: decoders },
        ],
    }
}
