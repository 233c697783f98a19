//! C25: the command line tools report and save what the files hold.

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::os::unix::process::CommandExt;
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};

use libopenraw::metadata::Value;
use libopenraw::tiff::exif::TagType;
use libopenraw::{Bitmap, DataType, Ifd, RawImage, Type};

use crate::api;
use crate::dmg;
use crate::doc;
use crate::gen::G;
use crate::prev;
use crate::raws::{self, Body, Kind};
use crate::run::{self, fail, Check, Fail, Sub, R};

/// The tools, built from the tree under check, are beside this program.
fn tools() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().to_path_buf()
}

/// A directory for the files, and one the tool runs in.
struct Desk {
    root: PathBuf,
}
impl Desk {
    fn new() -> Desk {
        let root = api::scratch().join(format!("desk-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(root.join("in")).unwrap();
        std::fs::create_dir_all(root.join("out")).unwrap();
        Desk { root }
    }
    fn put(&self, name: &str, bytes: &[u8]) -> String {
        let p = self.root.join("in").join(name);
        std::fs::write(&p, bytes).unwrap();
        p.to_str().unwrap().to_string()
    }
    /// Runs a tool that can write files of that many bytes, and returns how it ended and what it printed.
    fn end(&self, tool: &str, args: &[String], room: Option<u64>) -> Result<(Option<i32>, String, String), Fail> {
        run::stage(tool);
        let mut c = std::process::Command::new(tools().join(tool));
        c.args(args).current_dir(self.root.join("out")).stdin(std::process::Stdio::null()).env("RUST_BACKTRACE", "0");
        unsafe {
            c.pre_exec(move || {
                let l = libc::rlimit { rlim_cur: 30, rlim_max: 30 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
                if let Some(n) = room {
                    // An error, as when the disk is full
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                }
                Ok(())
            });
        }
        let o = c.output().map_err(|e| Fail { sig: "harness".into(), msg: format!("{tool}: {e}") })?;
        run::stage("");
        let t = |v: &[u8]| String::from_utf8_lossy(v).into_owned();
        Ok((o.status.code(), t(&o.stdout), t(&o.stderr)))
    }
    fn run(&self, tool: &str, args: &[String]) -> Result<String, Fail> {
        let (code, out, err) = self.end(tool, args, None)?;
        if code != Some(0) {
            return Err(Fail { sig: format!("{tool} fails"), msg: format!("{args:?}: {code:?}: {err}") });
        }
        Ok(out)
    }
    /// What it wrote.
    fn saved(&self) -> BTreeMap<String, Vec<u8>> {
        std::fs::read_dir(self.root.join("out"))
            .unwrap()
            .map(|e| {
                let e = e.unwrap();
                (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap())
            })
            .collect()
    }
}
impl Drop for Desk {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

/// Lines of the log aside, which is on the standard output too.
fn lines(s: &str) -> Vec<&str> {
    const LOG: [&str; 5] = ["ERROR [", "WARN  [", "INFO  [", "DEBUG [", "TRACE ["];
    s.lines().filter(|l| !LOG.iter().any(|p| l.starts_with(p)) && !l.starts_with("Elapsed time: ")).collect()
}

/// One a tool knows, which isn't told what a file is: of the CRW files, those with this header.
fn known<T>(g: &mut G, ty: Type, f: impl Fn(&mut G) -> T, bytes: impl Fn(&T) -> &[u8]) -> T {
    let mut r = f(g);
    let mut n = 0;
    while n < 200 && ty == Type::Crw && !bytes(&r).starts_with(b"II\x1a\0\0\0HEAPCCDR") {
        r = f(g);
        n += 1;
    }
    r
}

fn raw(g: &mut G, ty: Type) -> raws::Raw {
    known(g, ty, |g| raws::coloured(g, ty, Kind::Any), |r| &r.bytes)
}

fn same_lines(what: &str, got: &str, want: &str) -> R {
    let (a, b) = (lines(got), lines(want));
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        if x != y {
            return fail(what, format!("line {i} is {x:?}, expected {y:?}"));
        }
    }
    Ok(())
}

fn same_files(what: &str, got: &BTreeMap<String, Vec<u8>>, want: &BTreeMap<String, Vec<u8>>) -> R {
    ensure_eq!(got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>(), format!("{what} files"));
    for (k, v) in got {
        let w = &want[k];
        if v != w {
            let i = v.iter().zip(w).position(|(a, b)| a != b).unwrap_or(v.len().min(w.len()));
            return fail(format!("{what} content"), format!("{k} has {} bytes of {}, and differs from {i}", v.len(), w.len()));
        }
    }
    Ok(())
}

fn ext(t: Type) -> &'static str {
    match t {
        Type::Jpeg => "jpg",
        Type::Unknown => "",
        t => api::name_of(t),
    }
}

/// The stem and the name of a file.
fn name(g: &mut G, i: usize, ty: Type) -> (String, String) {
    let stem = format!("{}{i}", g.pickv(&["IMG_", "x.y", "a b ", "d\u{e9}j\u{e0}", "iphone-13-pro_1.57+IMG_", "."]));
    let e = ext(ty);
    let mut name = stem.clone();
    if !e.is_empty() {
        let e = if g.bool() { e.to_lowercase() } else { e.to_uppercase() };
        name = format!("{stem}.{e}");
    }
    (stem, name)
}

fn pgm(w: u32, h: u32, bpc: u16, d: &[u16]) -> Vec<u8> {
    let white = if bpc >= 16 { 0xffff } else { (1_u32 << bpc) - 1 };
    let mut v = format!("P5\n{w} {h}\n{white}\n").into_bytes();
    for x in d {
        v.extend((*x).min(white as u16).to_be_bytes());
    }
    v
}

/// Samples of several files, saved.
fn samples(g: &mut G) -> R {
    let desk = Desk::new();
    let skip = g.chance(1, 4);
    let mut args = vec!["-R".to_string()];
    if skip {
        args.push("-n".into());
    }
    let mut want = BTreeMap::new();
    let mut all = vec![];
    for i in 0..g.pickv(&[1, 1, 2, 3]) {
        let ty = g.pickv(&raws::HOSTS);
        let r = raw(g, ty);
        let (d, b) = if skip { &r.skip } else { &r.full };
        if matches!(b, Body::First(_)) {
            continue;
        }
        let (stem, name) = name(g, i, ty);
        if let Body::S16(px) = b {
            g.label(api::name_of(ty));
            g.nontrivial();
            want.insert(format!("{stem}_RAW.pgm"), pgm(d.w, d.h, d.bpc, px));
        }
        all.extend_from_slice(&r.bytes);
        args.push(desk.put(&name, &r.bytes));
    }
    g.input(&all);
    let at = g.idx(args.len());
    if !args[at..].iter().any(|a| a.starts_with('-')) && g.bool() {
        // There's nothing there.
        args.insert(at.max(1), desk.root.join("in/nothing.nef").to_str().unwrap().into());
    }
    desk.run("ordiag", &args)?;
    same_files("samples", &desk.saved(), &want)
}

/// Previews of several files, saved.
fn previews(g: &mut G) -> R {
    let desk = Desk::new();
    let mut args = vec!["-t".to_string()];
    let mut all = vec![];
    let mut files = vec![];
    for i in 0..g.pickv(&[1, 1, 2, 3]) {
        let ty = g.pickv(&prev::HOSTS);
        let f = known(g, ty, |g| prev::file(g, ty), |f| &f.bytes);
        let (stem, name) = name(g, i, ty);
        all.extend_from_slice(&f.bytes);
        args.push(desk.put(&name, &f.bytes));
        if f.list.iter().any(|p| p.kind == DataType::Jpeg) {
            g.nontrivial();
            g.label(api::name_of(ty));
        }
        files.push((stem, f.list));
    }
    g.input(&all);
    desk.run("ordiag", &args)?;
    let mut got = desk.saved();
    for (stem, list) in &files {
        let dims: std::collections::BTreeSet<u32> = list.iter().map(|p| p.dim()).collect();
        for d in dims {
            // Of several as large, any
            let alike: Vec<_> = list.iter().filter(|p| p.dim() == d).collect();
            let found = alike.iter().find_map(|p| {
                let n = format!("{stem}_{}x{}.jpg", p.w, p.h);
                got.get(&n).map(|b| (n, b.clone()))
            });
            match found {
                Some((n, b)) => {
                    ensure!(
                        alike.iter().any(|p| p.kind == DataType::Jpeg && n == format!("{stem}_{}x{}.jpg", p.w, p.h) && p.bytes == b),
                        "preview content",
                        "{n}: {} bytes, not those of a preview",
                        b.len()
                    );
                    got.remove(&n);
                }
                None => {
                    ensure!(
                        alike.iter().any(|p| p.kind != DataType::Jpeg),
                        "preview missing",
                        "{stem}: no file for {d}, {:?}",
                        alike.iter().map(|p| (p.w, p.h, p.place)).collect::<Vec<_>>()
                    );
                }
            }
        }
    }
    ensure!(got.is_empty(), "preview added", "{:?}", got.keys().collect::<Vec<_>>());
    Ok(())
}

fn matrix_line(m: &[f64], dev: bool) -> String {
    if dev {
        format!("{:?}", m.iter().map(|v| (*v * 10000.0) as i64).collect::<Vec<_>>())
    } else {
        format!("{m:?}")
    }
}

fn raw_lines(o: &mut String, r: &RawImage) {
    let _ = writeln!(o, "Found rawdata:\n\tFormat: {:?}\n\tSize: {}x{}", r.data_type(), r.width(), r.height());
    let s = r.output_size();
    let _ = writeln!(o, "\tOutput Size: {}x{}\n\tActive area: {:?}", s.width, s.height, r.active_area());
    let _ = write!(o, "\tUser crop: {:?}", r.user_crop());
    let _ = match r.user_aspect_ratio() {
        Some(a) => writeln!(o, " {}:{}", a.0, a.1),
        None => writeln!(o),
    };
    let _ = writeln!(o, "\tBayer Type: {:?}\n\tBpc: {}", r.mosaic_pattern(), r.bpc());
    let _ = writeln!(o, "\tWhites = {:?}\n\tBlacks = {:?}", r.whites(), r.blacks());
    let _ = if r.data_type() == DataType::CompressedRaw {
        match (r.data8(), r.tile_data()) {
            (Some(d), _) => writeln!(o, "\tRaw data: {} bytes", d.len()),
            (_, Some(t)) => writeln!(o, "\tTiled raw data: {} tiles", t.len()),
            _ => writeln!(o, "\tMissing compressed raw data."),
        }
    } else {
        match r.data16() {
            Some(d) => writeln!(o, "\tRaw data: {} bytes", 2 * d.len()),
            None => writeln!(o, "\tNo 16bits Raw data found."),
        }
    };
    if r.linearization_table().is_some() {
        let _ = writeln!(o, "\tHas a linearization table.");
    }
    let _ = match (r.as_shot_neutral(), r.as_shot_white_xy()) {
        (Some(n), _) => writeln!(o, "\tAs Shot Neutral = {n:?}"),
        (_, Some(xy)) => writeln!(o, "\tAs Shot XY = {xy:?}"),
        _ => writeln!(o, "\tNo White balance"),
    };
}

/// What the library says of a file, as ordiag puts it.
fn report(o: &mut String, files: &mut BTreeMap<String, Vec<u8>>, stem: &str, path: &Path, skip: bool, dev: bool, probe: bool) -> bool {
    let mut h = match libopenraw::rawfile_from_file(path, None) {
        Ok(h) => h,
        Err(_) => return false,
    };
    if probe {
        std::rc::Rc::get_mut(&mut h).unwrap().set_probe(true);
    }
    let _ = writeln!(o, "Raw type: {:?}\nMIME type: {}", h.type_(), h.mime_type());
    match h.type_id() {
        Ok(t) => {
            let _ = writeln!(o, "Vendor id: {}\nType id: {t:?}", h.vendor_id().unwrap());
        }
        _ => {
            let _ = writeln!(o, "Couldn't guess file type ID");
            return true;
        }
    }
    for (label, key) in [("Make", "Exif.Image.Make"), ("Model", "Exif.Image.Model"), ("Unique Camera Model", "Exif.Image.UniqueCameraModel")] {
        let v = h.metadata_value(key);
        if let Some(s) = v.as_ref().and_then(Value::string) {
            let _ = writeln!(o, "{label}: {s:?}");
        }
    }
    if let Some(sizes) = h.thumbnail_sizes() {
        let _ = writeln!(o, "Thumbnail sizes: {sizes:?}");
        for s in sizes {
            if let Ok(t) = h.thumbnail(*s) {
                let n = t.data8().map_or(0, |d| d.len());
                if let (DataType::Jpeg, Some(d)) = (t.data_type(), t.data8()) {
                    files.insert(format!("{stem}_{}x{}.jpg", t.width(), t.height()), d.to_vec());
                }
                let _ = writeln!(o, "\tThumbnail size: {} x {}\n\tFormat: {:?}\n\tSize: {n} bytes", t.width(), t.height(), t.data_type());
            }
        }
    }
    match h.raw_data(skip) {
        Ok(r) => {
            raw_lines(o, &r);
            if let Some(d) = r.data16() {
                files.insert(format!("{stem}_RAW.pgm"), pgm(r.width(), r.height(), r.bpc(), d));
            }
            for i in 1..=2 {
                if let Ok((origin, m)) = h.colour_matrix(i) {
                    if i == 1 {
                        let _ = writeln!(o, "\tColour Matrix Origin: {origin:?}");
                    }
                    let l = h.calibration_illuminant(i);
                    let _ = writeln!(o, "\tCalibration illuminant {i}: {} ({l:?})", l as u32);
                    let _ = writeln!(o, "\tColour matrix {i}: {}", matrix_line(&m, dev));
                }
            }
        }
        Err(_) => {
            let _ = writeln!(o, "Raw data not found");
        }
    }
    let e = h.exif_ifd();
    let _ = writeln!(o, "Has Exif: {}", e.is_some());
    if let Some(e) = e {
        let _ = writeln!(o, "Number of Exif entries {}", e.num_entries());
    }
    if let Some(m) = h.maker_note_ifd() {
        let _ = writeln!(o, "Number of MakerNote entries {}", m.num_entries());
    }
    let _ = writeln!(o, "Orientation: {}", h.orientation());
    if let (true, Some(p)) = (probe, h.probe()) {
        let _ = writeln!(o, "Probe:\n{}", p.print_str());
    }
    true
}

/// What the library has to say. None when it panics, which is for C01, or when the errors it logs,
/// which go to the standard output too, can't be told from what is printed.
fn said<T>(inside: bool, f: impl FnOnce() -> T) -> Option<T> {
    let before = api::errors();
    let r = run::catch(AssertUnwindSafe(|| api::with_log(f))).ok()?;
    let n = api::errors() - before;
    (n == 0 || !inside && n < 1 << 32).then_some(r)
}

/// Any file, not always one that is whole.
fn some(g: &mut G) -> dmg::Any {
    if g.chance(1, 8) {
        return dmg::wild(g);
    }
    match g.below(3) {
        0 => dmg::any(g),
        1 => {
            let ty = g.pickv(&raws::HOSTS);
            let r = raw(g, ty);
            dmg::Any { ty, bytes: r.bytes, spots: r.spots }
        }
        _ => {
            let mut a = dmg::any(g);
            if g.bool() {
                dmg::hurt(g, &mut a);
            }
            a
        }
    }
}

fn reports(g: &mut G) -> R {
    let desk = Desk::new();
    let (skip, dev, probe) = (g.chance(1, 3), g.chance(1, 3), g.chance(1, 3));
    let mut args = vec![];
    let (thumbs, samples) = (g.chance(1, 3), g.chance(1, 3));
    let mut files = BTreeMap::new();
    for (on, o) in [(skip, "-n"), (dev, "-D"), (probe, "-p"), (thumbs, "-t"), (samples, "-R")] {
        if on {
            args.push(o.to_string());
        }
    }
    let mut all = vec![];
    let mut want = String::new();
    let mut found = 0;
    for i in 0..g.pickv(&[1, 2, 3, 4]) {
        let a = some(g);
        let named = if g.chance(1, 4) { Type::Unknown } else { a.ty };
        let (_, name) = name(g, i, named);
        // Up to the last dot, that isn't the first character
        let stem = &name[..name.rfind('.').filter(|n| *n > 0).unwrap_or(name.len())];
        let p = desk.put(&name, &a.bytes);
        let one = said(false, || {
            let mut s = String::new();
            let mut m = BTreeMap::new();
            let f = report(&mut s, &mut m, stem, Path::new(&p), skip, dev, probe);
            (s, f, m)
        });
        if let Some((s, f, mut m)) = one {
            m.retain(|k, _| if k.ends_with(".pgm") { samples } else { thumbs });
            files.append(&mut m);
            want.push_str(&s);
            found += f as u32;
            if s.contains("Found rawdata") {
                g.label(api::name_of(a.ty));
            }
            all.extend_from_slice(&a.bytes);
            args.push(p);
        }
    }
    g.input(&all);
    if found > 0 {
        g.nontrivial();
    }
    if found > 0 && g.bool() {
        let first = args.iter().position(|a| !a.starts_with('-')).unwrap_or(args.len());
        let at = first + g.idx(args.len() - first + 1);
        args.insert(at, desk.root.join(g.pickv(&["in/nothing.nef", "in"])).to_str().unwrap().to_string());
    }
    let got = desk.run("ordiag", &args)?;
    same_lines("report", &got, &want)?;
    same_files("saved", &desk.saved(), &files)
}

/// What the others print: the metadata, the content, the identity, the payload.
fn others(g: &mut G) -> R {
    let desk = Desk::new();
    let tool = g.pickv(&["metadata", "metadata", "ordump", "identify", "probe", "rawdata"]);
    g.label(tool);
    let n = if tool == "rawdata" { 1 } else { g.pickv(&[1, 2, 3]) };
    let mut args = vec![];
    let mut all = vec![];
    let mut want = String::new();
    let mut files = BTreeMap::new();
    for i in 0..n {
        let mut listing = None;
        let mut payload = None;
        let a = if tool == "metadata" && g.bool() {
            let ty = g.pickv(&doc::HOSTS);
            let d = doc::doc(g, ty);
            listing = Some(d.listing());
            dmg::Any { ty, bytes: d.bytes, spots: d.spots }
        } else if tool == "rawdata" {
            let ty = g.pickv(&raws::HOSTS);
            let r = raw(g, ty);
            payload = Some(r.skip.1.clone());
            dmg::Any { ty, bytes: r.bytes, spots: r.spots }
        } else {
            some(g)
        };
        let named = if listing.is_none() && payload.is_none() && g.chance(1, 4) { Type::Unknown } else { a.ty };
        let (_, name) = name(g, i, named);
        let p = desk.put(&name, &a.bytes);
        let one = said(tool == "ordump", || {
            let mut h = match libopenraw::rawfile_from_file(&p, None) {
                Ok(h) => h,
                Err(e) => return if tool == "identify" { format!("Error opening file {p}: {e}\n") } else { String::new() },
            };
            match tool {
                "metadata" => {
                    let it: Vec<_> = match listing {
                        Some(k) => k,
                        None => h.metadata().into_iter().flatten().collect(),
                    };
                    it.into_iter()
                        .map(|(k, v, t)| {
                            let t: &'static str = TagType::try_from(t).unwrap_or(TagType::Error_).into();
                            format!("{k} ({t}) => {:?}\n", v.into_string(false))
                        })
                        .collect()
                }
                "ordump" => {
                    let mut o = vec![];
                    h.dump_file(&mut o);
                    String::from_utf8_lossy(&o).into_owned()
                }
                "identify" => match h.type_id() {
                    Ok(t) => format!("{p} {t}\n"),
                    Err(e) => format!("Error getting type id {p}: {e}\n"),
                },
                "probe" => {
                    std::rc::Rc::get_mut(&mut h).unwrap().set_probe(true);
                    for s in h.thumbnail_sizes().unwrap_or(&[]) {
                        let _ = h.thumbnail(*s);
                    }
                    let _ = h.raw_data(false);
                    let _ = h.exif_ifd();
                    let _ = h.maker_note_ifd();
                    h.probe().map_or(String::new(), |p| format!("Probe:\n{}\n", p.print_str()))
                }
                _ => String::new(),
            }
        });
        match payload {
            Some(Body::S8(b)) => {
                files.insert("rawdata.raw".to_string(), b);
                g.nontrivial();
            }
            // It only saves what is one piece.
            Some(_) => {
                let (code, _, err) = desk.end(tool, &[p], None)?;
                ensure_eq!(code, Some(1), "rawdata ends", "{err}");
                return same_files(tool, &desk.saved(), &files);
            }
            None => {}
        }
        if let Some(s) = one {
            if s.len() > 20 {
                g.nontrivial();
            }
            want.push_str(&s);
            all.extend_from_slice(&a.bytes);
            args.push(p);
        }
    }
    g.input(&all);
    if args.is_empty() {
        return Ok(());
    }
    if n > 1 && g.bool() {
        // What isn't a file doesn't stop it.
        let odd = desk.root.join(g.pickv(&["in/nothing.nef", "in"])).to_str().unwrap().to_string();
        let at = g.idx(args.len() + 1);
        args.insert(at, odd);
    }
    let got = desk.run(tool, &args)?;
    same_lines(tool, &got, &want)?;
    same_files(tool, &desk.saved(), &files)
}

/// A file that can't be written whole isn't said to be.
fn full(g: &mut G) -> R {
    let desk = Desk::new();
    let payload = g.chance(1, 3);
    let ty = g.pickv(&raws::HOSTS);
    let (bytes, ty) = if payload || g.bool() {
        (raw(g, ty).bytes, ty)
    } else {
        let ty = g.pickv(&prev::HOSTS);
        (known(g, ty, |g| prev::file(g, ty), |f| &f.bytes).bytes, ty)
    };
    let (stem, name) = name(g, 0, ty);
    let p = desk.put(&name, &bytes);
    let mut o = String::new();
    let mut want = BTreeMap::new();
    if payload {
        let h = libopenraw::rawfile_from_file(&p, None).and_then(|h| h.raw_data(true));
        match h.as_ref().ok().and_then(|r| r.data8()) {
            Some(d) => want.insert("rawdata.raw".to_string(), d.to_vec()),
            None => return Ok(()),
        };
    } else if said(false, || report(&mut o, &mut want, &stem, Path::new(&p), false, false, false)).is_none() {
        return Ok(());
    }
    g.input(&bytes);
    let most = want.values().map(|v| v.len()).max().unwrap_or(0);
    let room = match g.below(4) {
        0 => g.below(30),
        1 => most.saturating_sub(1) as u64,
        _ => g.below(most as u64 + 2),
    };
    let (tool, args) = if payload { ("rawdata", vec![p]) } else { ("ordiag", vec!["-t".into(), "-R".into(), p]) };
    let (code, _, err) = desk.end(tool, &args, Some(room))?;
    for (n, b) in desk.saved() {
        let whole = want.get(&n) == Some(&b);
        if whole && b.len() as u64 == room {
            g.label("just fits");
        }
        if !whole {
            g.nontrivial();
        }
        let told = if payload {
            code == Some(0)
        } else {
            let f = PathBuf::from(&n);
            err.lines().any(|l| {
                l.starts_with(&format!("Written {f:?}: ")) || l.starts_with(&format!("Written Raw {f:?}: "))
            })
        };
        ensure!(told == whole, "told", "{tool} with room for {room} bytes, {n}: {} bytes of {}, and {err}", b.len(), want.get(&n).map_or(0, |v| v.len()));
    }
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "C25",
        rule: "a file among those given is opened, and has samples, JPEG previews, metadata or a payload for the tool to save or print",
        assumptions: &[
            "what the library says of the files is right, which is for the other properties: the reports are compared to it, the saved files to what was put in",
            "rawdata is for files whose payload is one piece of bytes",
        ],
        subs: vec![
            Sub { name: "samples", quick: 6000, thorough: 200000, run: samples },
            Sub { name: "previews", quick: 6000, thorough: 200000, run: previews },
            Sub { name: "reports", quick: 10000, thorough: 300000, run: reports },
            Sub { name: "others", quick: 10000, thorough: 300000, run: others },
            Sub { name: "full", quick: 4000, thorough: 100000, run: full },
        ],
    }
}
