//! C24: what the records of a CRW file say is found as Exif metadata.

use libopenraw::metadata::Value;
use libopenraw::tiff::exif::Rational;
use libopenraw::{Ifd, Type};

use crate::api::{self, Via};
use crate::gen::G;
use crate::raws2::{u16s, u32s};
use crate::run::{fail, R};
use crate::tiffw::Order;
use crate::wraps::{self, Rec};

type Want = Vec<(&'static str, u16, Value, i16)>;

/// Proleptic Gregorian calendar, by Howard Hinnant's method
fn date(t: u32) -> String {
    let (days, s) = ((t / 86400) as i64, t % 86400);
    let z = days + 719468;
    let era = z / 146097;
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    format!("{y:04}:{m:02}:{d:02} {:02}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60)
}

fn text(g: &mut G, most: usize) -> String {
    let n = g.ur(1, most);
    (0..n).map(|_| (0x21 + g.below(0x5d) as u8) as char).collect()
}

/// Text values keep the zero at their end.
fn z(s: &str) -> Value {
    Value::String(format!("{s}\0").into_bytes())
}

/// In the record when it fits there, or elsewhere
fn rec(g: &mut G, code: u16, d: Vec<u8>, may: bool) -> Rec {
    if may && d.len() <= 8 && g.bool() {
        Rec::Inline(code, d)
    } else {
        Rec::Data(code, d)
    }
}

fn file(g: &mut G) -> R {
    let o = if g.bool() { Order::Le } else { Order::Be };
    let mut main: Want = vec![];
    let mut exif: Want = vec![];
    // What is in ImageProps, ExifInformation, CameraObject, and in those heaps whose place doesn't matter
    let (mut props, mut info, mut camera, mut other) = (vec![], vec![], vec![], vec![]);
    let mut orientation = 0;
    if g.chance(4, 5) {
        let (w, h, bpc) = (g.edge(32) as u32, g.edge(32) as u32, g.edge(16) as u16);
        let angle = g.pickv(&[0, 90, 180, 270, 0, 90, 180, 270, 45, -1, 360, i32::MIN, i32::MAX]);
        orientation = match angle {
            0 => 1,
            90 => 6,
            180 => 3,
            270 => 8,
            _ => 0,
        };
        let mut d = u32s(o, &[w, h, g.u32(), angle as u32, bpc as u32, g.u32(), g.u32()]);
        let n = g.pickv(&[0, 0, 4, 9]);
        d.extend(g.noise(n));
        props.push(Rec::Data(0x1810, d));
        main.push(("Exif.Image.ImageWidth", 0x100, Value::Int(vec![w]), 4));
        main.push(("Exif.Image.ImageHeight", 0x101, Value::Int(vec![h]), 4));
        main.push(("Exif.Image.BitsPerSample", 0x102, Value::Int(vec![bpc as u32]), 3));
        main.push(("Exif.Image.Orientation", 0x112, Value::Int(vec![orientation]), 3));
    }
    let with_camera = g.chance(4, 5);
    if with_camera && g.chance(4, 5) {
        let (make, model) = (text(g, 20), text(g, 30));
        let mut d = format!("{make}\0{model}\0").into_bytes();
        let n = g.pickv(&[0, 0, 1, 8]);
        d.extend(vec![0; n]);
        camera.push(Rec::Data(0x080a, d));
        main.push(("Exif.Image.Make", 0x10f, z(&make), 2));
        main.push(("Exif.Image.Model", 0x110, z(&model), 2));
    }
    if g.bool() {
        let s = text(g, 31);
        let mut d = s.clone().into_bytes();
        d.push(0);
        if g.bool() {
            d.resize(32.max(d.len()), 0);
        }
        other.push(rec(g, 0x0810, d, true));
        exif.push(("Exif.Photo.OwnerName", 0xa430, z(&s), 2));
    }
    if g.bool() {
        let v = g.edge(32) as u32;
        let mut d = u32s(o, &[v]);
        let n = g.pickv(&[0, 4]);
        d.extend(g.noise(n));
        other.push(rec(g, 0x180b, d, true));
        exif.push(("Exif.Photo.SerialNumber", 0xa431, z(&format!("{v:X}")), 2));
    }
    if g.bool() {
        let t = g.edge(32) as u32;
        let mut d = u32s(o, &[t]);
        let n = g.pickv(&[0, 4, 8]);
        d.extend(g.noise(n));
        other.push(rec(g, 0x180e, d, true));
        exif.push(("Exif.Photo.DateTimeOriginal", 0x9003, z(&date(t)), 2));
        exif.push(("Exif.Photo.CreateDate", 0x9004, z(&date(t)), 2));
    }
    let with_info = g.chance(4, 5);
    let mut units = None;
    if with_info && g.chance(3, 4) {
        let n = g.pickv(&[1, 20, 21, 26, 30, 46]);
        let mut v: Vec<u16> = (0..n).map(|_| g.u16()).collect();
        let mut set = |g: &mut G, i: usize| {
            let x = if g.chance(1, 6) { g.u16() } else { g.below(10) as u16 };
            if let Some(p) = v.get_mut(i) {
                *p = x;
            }
        };
        for i in [1, 4, 17, 20] {
            set(g, i);
        }
        if n > 20 {
            if v[1] == 1 {
                exif.push(("Exif.Photo.SubjectDistanceRange", 0xa40c, Value::Int(vec![1]), 3));
            }
            let flash = match v[4] {
                1 => 0x19,
                2 => 1,
                3 | 5 => 0x41,
                _ => 0,
            };
            exif.push(("Exif.Photo.Flash", 0x9209, Value::Int(vec![flash]), 3));
            let metering = match v[17] {
                1 => 3,
                2 => 1,
                3 => 5,
                4 => 6,
                5 => 2,
                _ => 0,
            };
            exif.push(("Exif.Photo.MeteringMode", 0x9207, Value::Int(vec![metering]), 3));
            let program = match v[20] {
                1 => 2,
                2 => 4,
                3 => 3,
                4 => 1,
                5 => 5,
                _ => 0,
            };
            exif.push(("Exif.Photo.ExposureProgram", 0x8822, Value::Int(vec![program]), 3));
        }
        units = v.get(25).copied();
        info.push(Rec::Data(0x102d, u16s(o, &v)));
    }
    if let (Some(units), true) = (units, g.chance(3, 4)) {
        let n = g.pickv(&[2, 4, 4, 7]);
        let v: Vec<u16> = (0..n).map(|_| g.u16()).collect();
        let d = u16s(o, &v);
        other.push(rec(g, 0x1029, d, n == 4));
        let r = Rational { num: v[1] as u32, denom: units as u32 };
        exif.push(("Exif.Photo.FocalLength", 0x920a, Value::Rational(vec![r]), 5));
    }
    // These say nothing.
    for _ in 0..g.below(4) {
        let code = g.pickv(&[0x0805, 0x0816, 0x1807, 0x1014, 0x1818, 0x1817, 0x080b, 0x1030]);
        let n = g.ur(9, 40);
        let d = g.noise(n);
        other.push(Rec::Data(code, d));
    }
    // Where each goes
    let mut more: Vec<Vec<Rec>> = vec![vec![]; 3];
    for r in other {
        match g.below(7) {
            0 | 1 => props.push(r),
            2 | 3 if with_info => info.push(r),
            4 if with_camera => camera.push(r),
            k => more[k as usize % 3].push(r),
        }
    }
    let mix = |g: &mut G, v: Vec<Rec>| -> Vec<Rec> { g.perm(v.len()).iter().map(|i| v[*i].clone()).collect() };
    let codes = [0x3002, 0x3003, 0x3004];
    for (k, v) in more.into_iter().enumerate() {
        if !v.is_empty() {
            let v = mix(g, v);
            let r = Rec::Heap(codes[k], v);
            // One in another, at times
            match g.below(3) {
                0 if with_info => info.push(r),
                1 if with_camera => camera.push(r),
                _ => props.push(r),
            }
        }
    }
    if with_info {
        let v = mix(g, info);
        props.push(Rec::Heap(0x300b, v));
    }
    if with_camera {
        let v = mix(g, camera);
        props.push(Rec::Heap(0x2807, v));
    }
    let props = mix(g, props);
    let mut top = vec![Rec::Heap(0x300a, props)];
    if g.bool() {
        let d = g.noise(30);
        top.push(Rec::Data(0x2005, d));
    }
    let top = mix(g, top);
    let extra = 2 * g.ur(0, 9);
    let (bytes, _) = wraps::crw(o, extra, &top, &mut |n| (g.perm(n), 2 * g.ur(0, 4)));
    g.input(&bytes);

    let h = match api::open(&bytes, Some(Type::Crw), Via::Memory) {
        Ok(h) => h,
        Err(e) => return fail("open", format!("{e:?}")),
    };
    main.sort_by_key(|e| e.1);
    exif.sort_by_key(|e| e.1);
    let orient_first = g.bool();
    let ask_orientation = || -> R {
        ensure_eq!(h.orientation(), orientation, "orientation", "orientation");
        Ok(())
    };
    if orient_first {
        ask_orientation()?;
    }
    let got: Vec<(String, Value, i16)> = h.metadata().map(|m| m.collect()).unwrap_or_default();
    let want: Vec<(String, Value, i16)> = main
        .iter()
        .chain(&exif)
        .map(|(k, _, v, t)| (k.to_string(), clone(v), *t))
        .collect();
    for (k, v, t) in &want {
        let Some(x) = got.iter().find(|x| &x.0 == k) else {
            return fail(format!("{k} is missing"), format!("{want:?}\n{got:?}"));
        };
        if &x.1 != v || x.2 != *t {
            return fail(format!("{k} differs"), format!("should be {v:?} type {t}, is {:?} type {}", x.1, x.2));
        }
    }
    if got != want {
        return fail("listing", format!("{want:?}\n{got:?}"));
    }
    for (k, v, _) in want.iter().filter(|e| e.0.starts_with("Exif.Image")) {
        let x = h.metadata_value(k);
        if x.as_ref() != Some(v) {
            return fail(format!("{k} value differs"), format!("should be {v:?}, is {x:?}"));
        }
    }
    for (d, w) in [(h.main_ifd(), &main), (h.exif_ifd(), &exif)] {
        let Some(d) = d else { return fail("directory", "there is none") };
        ensure_eq!(d.num_entries(), w.len(), "entries", "entries of the directory");
        for (k, tag, v, _) in w {
            match v {
                Value::Int(x) => {
                    ensure_eq!(d.uint_value(*tag), Some(x[0]), format!("{k} of the directory"), "{k}");
                }
                Value::String(x) => {
                    let s = d.entry(*tag).and_then(|e| e.string_value());
                    ensure_eq!(s.as_deref().map(|s| s.as_bytes()), Some(&x[..x.len() - 1]), format!("{k} of the directory"), "{k}");
                }
                _ => {}
            }
        }
    }
    ask_orientation()?;
    g.label(match want.len() {
        0 => "nothing",
        1..=5 => "1-5 values",
        6..=10 => "6-10 values",
        _ => "more values",
    });
    if want.len() >= 5 {
        g.nontrivial();
    }
    Ok(())
}

fn clone(v: &Value) -> Value {
    match v {
        Value::Int(v) => Value::Int(v.clone()),
        Value::String(v) => Value::String(v.clone()),
        Value::Rational(v) => Value::Rational(v.iter().map(|r| Rational { num: r.num, denom: r.denom }).collect()),
        _ => unreachable!(),
    }
}

pub fn check() -> crate::run::Check {
    crate::run::Check {
        id: "C24",
        rule: "at least five values were found in the file and compared",
        assumptions: &["the records of the CIFF specification and those exiftool describes; the values are those of Exif 2.3"],
        subs: vec![crate::run::Sub { name: "file", quick: 500000, thorough: 50000000, run: file }],
    }
}
