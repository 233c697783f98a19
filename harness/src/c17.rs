//! C17: camera identity and colour matrices follow the file.

use libopenraw::Type;

use crate::api::{self, Via};
use crate::cams::cams;
use crate::gen::G;
use crate::raws::{self, Kind, COLOURS};
use crate::run::{self, fail, R};

const LIGHTS: [u32; 22] = [0, 1, 2, 3, 4, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 255];

fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()))
}

fn camera(g: &mut G) -> R {
    COLOURS.with(|c| {
        *c.borrow_mut() = raws::Colours {
            on: true,
            ..Default::default()
        }
    });
    let r = judge(g);
    COLOURS.with(|c| c.borrow_mut().on = false);
    r
}

fn judge(g: &mut G) -> R {
    let ty = g.pickv(&raws::HOSTS);
    let r = raws::file(g, ty, Kind::Any);
    g.input(&r.bytes);
    g.label(api::name_of(ty));
    let colours = COLOURS.with(|c| c.borrow().clone());
    let hint = match ty {
        Type::Dng if g.chance(1, 4) => Type::Gpr,
        Type::Nef if g.chance(1, 4) => Type::Nrw,
        Type::Arw if g.chance(1, 4) => Type::Sr2,
        Type::Rw2 if g.chance(1, 4) => Type::Rw,
        _ => ty,
    };
    let h = match api::open(&r.bytes, Some(hint), Via::Memory) {
        Ok(h) => h,
        Err(e) => return fail("open", format!("{ty:?}: {e:?}")),
    };
    let table = raws::table_of(ty);
    let known = cams().matrix(table, r.model);
    if r.model.1 != 0 {
        g.nontrivial();
        g.label("known camera");
    } else {
        g.label("unknown camera");
    }
    let builtin: Option<Vec<f64>> = known.filter(|_| table != "dng").map(|m| m.m.iter().map(|v| *v as f64 / 10000.0).collect());
    let mut steps = [0, 1, 2, 3, 4, 5];
    let p = g.perm(6);
    for i in 0..6 {
        steps[i] = p[i];
    }
    for step in steps {
        match step {
            0 => match h.type_id() {
                Ok(id) => ensure_eq!(u32::from(id), ((r.model.0 as u32) << 16) + r.model.1 as u32, "type-id", "{ty:?}"),
                Err(e) => return fail("type-id error", format!("{ty:?} {e}")),
            },
            1 => match h.vendor_id() {
                Ok(id) => ensure_eq!(id, r.model.0, "vendor-id", "{ty:?}"),
                Err(e) => return fail("vendor-id error", format!("{ty:?} {e}")),
            },
            2 | 3 => {
                let k = step - 2;
                let want = match &colours.matrices[k] {
                    Some(m) => Some((2, m.iter().map(|r| r.0 as f64 / r.1 as f64).collect())),
                    None if k == 0 => builtin.clone().map(|m| (1, m)),
                    None => None,
                };
                let got = h.colour_matrix(k + 1).ok().map(|(o, m)| {
                    (o as u32, m)
                });
                match (&got, &want) {
                    (None, None) => {}
                    (Some(a), Some(b)) => {
                        ensure_eq!(a.0, b.0, "matrix origin", "{ty:?} {:?} matrix {}", r.model, k + 1);
                        ensure!(same(&a.1, &b.1), "matrix", "{ty:?} {:?} matrix {}: got {:?}, expected {:?}", r.model, k + 1, a.1, b.1);
                        g.label(if a.0 == 1 { "built-in matrix" } else { "provided matrix" });
                    }
                    _ => return fail("matrix presence", format!("{ty:?} {:?} matrix {}: got {got:?}, expected {want:?}", r.model, k + 1)),
                }
                let light = match colours.lights[k] {
                    Some(v) if LIGHTS.contains(&v) => v,
                    _ if k == 0 && builtin.is_some() => 21,
                    _ => 0,
                };
                ensure_eq!(h.calibration_illuminant(k + 1) as u32, light, "illuminant", "{ty:?} {:?} illuminant {}", r.model, k + 1);
            }
            4 => {
                let n = g.pickv(&[0, 3, 4, 255, usize::MAX]);
                ensure!(h.colour_matrix(n).is_err(), "matrix index", "{ty:?} matrix {n}");
                ensure_eq!(h.calibration_illuminant(n) as u32, 0, "illuminant index", "{ty:?} illuminant {n}");
            }
            _ => {
                // The image carries them too.
                let i = match h.raw_data(g.bool()) {
                    Ok(i) => i,
                    Err(e) => return fail("refused", format!("{ty:?} {}: {e}", r.style)),
                };
                for k in [1, 2] {
                    let m = h.colour_matrix(k).ok().map(|m| m.1).filter(|m| !m.is_empty());
                    match (m, i.colour_matrix(k)) {
                        (None, None) => {}
                        (Some(a), Some(b)) => {
                            ensure!(same(&a, &b.matrix), "image matrix", "{ty:?} matrix {k}: got {:?}, expected {a:?}", b.matrix);
                            ensure_eq!(b.illuminant as u32, h.calibration_illuminant(k) as u32, "image illuminant", "{ty:?} {k}");
                        }
                        (a, b) => return fail("image matrix presence", format!("{ty:?} matrix {k}: got {b:?}, expected {a:?}")),
                    }
                }
                ensure!(i.colour_matrix(0).is_none() && i.colour_matrix(3).is_none(), "image matrix index", "{ty:?}");
            }
        }
    }
    Ok(())
}

pub fn check() -> run::Check {
    run::Check {
        id: "C17",
        rule: "the camera is one of those the library knows",
        assumptions: &["the cameras, their numbers and their built-in matrices are those of the tables when the checks were written (harness/data/cams.txt)"],
        subs: vec![run::Sub { name: "camera", quick: 750000, thorough: 15000000, run: camera }],
    }
}
