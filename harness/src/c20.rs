//! C20: the C interface reports exactly what the Rust interface reports.

use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::panic::AssertUnwindSafe;

use libopenraw::metadata::Value;
use libopenraw::tiff::IfdType;
use libopenraw::{
    Bitmap, CfaPattern, ColourSpace, Error, Ifd, RawFileHandle, RawImage, RenderingOptions, RenderingStage, Thumbnail,
    Type,
};

use crate::api::{self, Via};
use crate::gen::G;
use crate::raws::{self, Kind};
use crate::run::{self, R};
use crate::{doc, prev};

type P = *mut c_void;
type Cp = *const c_void;

extern "C" {
    fn or_debug_set_level(l: u32);
    fn or_get_extract_thumbnail(f: *const c_char, size: u32, t: *mut P) -> u32;
    fn or_get_extract_rawdata(f: *const c_char, o: u32, t: *mut P) -> u32;
    fn or_get_file_extensions() -> *const *const c_char;
    fn or_get_mime_types() -> *const *const c_char;
    fn or_get_type_for_mime_type(m: *const c_char) -> u32;

    fn or_rawfile_new(f: *const c_char, t: u32) -> P;
    fn or_rawfile_new_from_memory(b: *const u8, n: u32, t: u32) -> P;
    fn or_rawfile_release(r: P) -> u32;
    fn or_rawfile_get_type(r: P) -> u32;
    fn or_rawfile_get_typeid(r: P) -> u32;
    fn or_rawfile_get_vendorid(r: P) -> u32;
    fn or_rawfile_get_rawdata(r: P, o: u32, e: *mut u32) -> P;
    fn or_rawfile_get_orientation(r: P) -> i32;
    fn or_rawfile_get_thumbnail(r: P, s: u32, e: *mut u32) -> P;
    fn or_rawfile_get_thumbnail_sizes(r: P, n: *mut usize) -> *const u32;
    fn or_rawfile_get_metavalue(r: P, k: *const c_char) -> P;
    fn or_rawfile_get_rendered_image(r: P, o: u32, e: *mut u32) -> P;
    fn or_rawfile_get_ifd(r: P, t: u32) -> Cp;
    fn or_rawfile_get_calibration_illuminant1(r: P) -> u32;
    fn or_rawfile_get_calibration_illuminant2(r: P) -> u32;
    fn or_rawfile_get_colourmatrix1(r: P, m: *mut f64, n: *mut u32) -> u32;
    fn or_rawfile_get_colourmatrix2(r: P, m: *mut f64, n: *mut u32) -> u32;
    fn or_rawfile_get_colour_matrix_origin(r: P) -> u32;
    fn or_rawfile_get_metadata_iterator(r: P) -> P;

    fn or_metadata_iterator_free(i: P);
    fn or_metadata_iterator_next(i: P) -> c_int;
    fn or_metadata_iterator_get_entry(i: P) -> Cp;
    fn or_metadata_iterator_get_dir(i: P) -> Cp;
    fn or_metadata_get_key(m: Cp) -> *const c_char;
    fn or_metadata_get_value(m: Cp) -> Cp;
    fn or_metadata_get_type(m: Cp) -> i16;
    fn or_metavalue_release(v: P);
    fn or_metavalue_get_string(v: Cp) -> *const c_char;
    fn or_metavalue_get_as_string(v: Cp, full: bool) -> *const c_char;
    fn or_metavalue_get_count(v: Cp) -> u32;

    fn or_ifd_count_tags(d: Cp) -> i32;
    fn or_ifd_get_makernote_id(d: Cp) -> *const c_char;
    fn or_ifd_get_type(d: Cp) -> u32;
    fn or_ifd_get_tag_name(d: Cp, tag: u32) -> *const c_char;

    fn or_rawdata_new() -> P;
    fn or_rawdata_release(r: P) -> u32;
    fn or_rawdata_data_size(r: P) -> usize;
    fn or_rawdata_data(r: P) -> *const u8;
    fn or_rawdata_format(r: P) -> u32;
    fn or_rawdata_levels(r: P, b: *mut u16, w: *mut u16) -> u32;
    fn or_rawdata_as_shot_neutral(r: P, wb: *mut f64) -> u32;
    fn or_rawdata_as_shot_white_xy(r: P, x: *mut f64, y: *mut f64) -> u32;
    fn or_rawdata_dimensions(r: P, x: *mut u32, y: *mut u32);
    fn or_rawdata_get_cfa_pattern_type(r: P) -> u32;
    fn or_rawdata_get_compression(r: P) -> u32;
    fn or_rawdata_bpc(r: P) -> u32;
    fn or_rawdata_get_colour_matrix(r: P, i: u32, n: *mut u32) -> *const f64;
    fn or_rawdata_get_active_area(r: P, x: *mut u32, y: *mut u32, w: *mut u32, h: *mut u32) -> u32;
    fn or_rawdata_get_user_crop(r: P, x: *mut u32, y: *mut u32, w: *mut u32, h: *mut u32) -> u32;
    fn or_rawdata_get_user_aspect_ratio(r: P, w: *mut u32, h: *mut u32) -> u32;
    fn or_rawdata_get_mosaicinfo(r: P) -> Cp;
    fn or_mosaicinfo_get_type(m: Cp) -> u32;
    fn or_mosaicinfo_get_size(m: Cp, x: *mut u16, y: *mut u16);
    fn or_mosaicinfo_get_pattern(m: Cp, n: *mut u16) -> *const u8;

    fn or_thumbnail_new() -> P;
    fn or_thumbnail_release(t: P) -> u32;
    fn or_thumbnail_data_size(t: P) -> usize;
    fn or_thumbnail_data(t: P) -> *const u8;
    fn or_thumbnail_format(t: P) -> u32;
    fn or_thumbnail_dimensions(t: P, x: *mut u32, y: *mut u32);

    fn or_bitmapdata_release(b: P) -> u32;
    fn or_bitmapdata_data_size(b: P) -> usize;
    fn or_bitmapdata_data(b: P) -> *const u8;
    fn or_bitmapdata_format(b: P) -> u32;
    fn or_bitmapdata_bpc(b: P) -> u32;
    fn or_bitmapdata_dimensions(b: P, x: *mut u32, y: *mut u32);
}

const NONE: u32 = 0;
const NOT_AREF: u32 = 2;
/// What an out parameter holds before a call.
const UNSET: u32 = 0xdead_beef;

/// The number of an error in consts.h.
fn code(e: &Error) -> u32 {
    match e {
        Error::None => 0,
        Error::BufferTooSmall => 1,
        Error::InvalidAddress => NOT_AREF,
        Error::NotFound => 5,
        Error::InvalidParam => 6,
        Error::InvalidFormat => 7,
        _ => 42,
    }
}

/// The number of a kind of data in consts.h.
fn kind(d: libopenraw::DataType) -> u32 {
    use libopenraw::DataType::*;
    match d {
        PixmapRgb8 => 1,
        PixmapRgb16 => 2,
        Jpeg => 3,
        Raw => 6,
        CompressedRaw => 7,
        Unknown => 100,
    }
}

/// The number of a pattern in consts.h.
fn pattern(p: &CfaPattern) -> u32 {
    match p {
        CfaPattern::Empty => 0,
        CfaPattern::NonRgb22(_) => 1,
        CfaPattern::Rggb => 2,
        CfaPattern::Gbrg => 3,
        CfaPattern::Bggr => 4,
        CfaPattern::Grbg => 5,
    }
}

const IFDS: [(u32, IfdType); 8] = [
    (0, IfdType::Other),
    (1, IfdType::Main),
    (2, IfdType::Exif),
    (3, IfdType::MakerNote),
    (4, IfdType::Raw),
    (5, IfdType::SubIfd),
    (6, IfdType::GpsInfo),
    (10000, IfdType::Other),
];

fn ifd_number(t: IfdType) -> u32 {
    IFDS.iter().find(|i| i.1 == t).unwrap().0
}

/// The text of a C string; no text here is long.
fn text(p: *const c_char) -> Option<Vec<u8>> {
    if p.is_null() {
        None
    } else {
        Some(unsafe { CStr::from_ptr(p) }.to_bytes().to_vec())
    }
}

fn before_nul(s: &[u8]) -> Vec<u8> {
    s.split(|b| *b == 0).next().unwrap_or(&[]).to_vec()
}

// ---------------------------------------------------------------- objects

/// What is said of a directory.
#[derive(Clone)]
struct Dir {
    n: i32,
    id: Vec<u8>,
    ty: u32,
    tags: Vec<(u16, &'static str)>,
}

macro_rules! dir_of {
    ($d:expr) => {{
        let d = $d;
        let mut tags = vec![];
        for t in 0..=0xffff {
            if d.entry(t).is_some() && tags.len() < 40 {
                tags.push((t, d.tag_name(t)));
            }
        }
        for t in [0_u16, 0x100, 0x8769, 0xffff] {
            tags.push((t, d.tag_name(t)));
        }
        Dir {
            n: d.num_entries() as i32,
            id: before_nul(d.id()),
            ty: ifd_number(d.ifd_type()),
            tags,
        }
    }};
}

fn check_dir(p: Cp, d: &Dir, what: &str) -> R {
    unsafe {
        ensure_eq!(or_ifd_count_tags(p), d.n, "ifd tags", "{what}");
        ensure_eq!(or_ifd_get_type(p), d.ty, "ifd type", "{what}");
        ensure_eq!(text(or_ifd_get_makernote_id(p)), Some(d.id.clone()), "ifd makernote id", "{what}");
        for (t, name) in &d.tags {
            let got = text(or_ifd_get_tag_name(p, *t as u32));
            ensure_eq!(got.as_deref(), Some(name.as_bytes()), "ifd tag name", "{what} tag {t:x}");
        }
    }
    Ok(())
}

/// A metadata value, and the text it was first turned into: that text is kept.
struct Val {
    v: Value,
    kept: Option<String>,
}

fn check_value(g: &mut G, p: Cp, v: &mut Val, what: &str) -> R {
    unsafe {
        for _ in 0..g.ur(1, 3) {
            match g.below(3) {
                0 => ensure_eq!(or_metavalue_get_count(p), v.v.count() as u32, "value count", "{what}"),
                1 => {
                    let want = v.v.string().map(|s| s.into_bytes());
                    let got = text(or_metavalue_get_string(p));
                    // The bytes are those of the file, whether UTF-8 or not.
                    let got = got.map(|s| String::from_utf8_lossy(&s).into_owned().into_bytes());
                    ensure_eq!(got, want, "value string", "{what}");
                }
                _ => {
                    let full = g.bool();
                    let want = v.kept.get_or_insert_with(|| v.v.into_string(full)).clone();
                    let got = text(or_metavalue_get_as_string(p, full));
                    ensure_eq!(got, Some(want.into_bytes()), "value as string", "{what} full {full}");
                }
            }
        }
    }
    Ok(())
}

enum Obj {
    File(usize),
    Raw(Box<RawImage>),
    Bitmap(Box<RawImage>),
    Thumb(Box<Thumbnail>),
    Val(Val),
    /// Entries to come, and the one the iterator is at
    Iter(Vec<(String, Value, i16)>, usize, Option<String>),
}

fn dims(g: &mut G, f: unsafe extern "C" fn(P, *mut u32, *mut u32), p: P, want: (u32, u32), what: &str) -> R {
    let (mut x, mut y) = (UNSET, UNSET);
    let (ax, ay) = (g.chance(3, 4), g.chance(3, 4));
    let null = std::ptr::null_mut();
    unsafe { f(p, if ax { &mut x } else { null }, if ay { &mut y } else { null }) };
    let want = (if ax { want.0 } else { UNSET }, if ay { want.1 } else { UNSET });
    ensure_eq!((x, y), want, "dimensions", "{what}");
    Ok(())
}

fn bytes(p: *const u8, n: usize) -> Option<Vec<u8>> {
    if p.is_null() {
        None
    } else {
        Some(unsafe { std::slice::from_raw_parts(p, n) }.to_vec())
    }
}

type Four = unsafe extern "C" fn(P, *mut u32, *mut u32, *mut u32, *mut u32) -> u32;

fn area(g: &mut G, f: Four, p: P, want: Option<[u32; 4]>, what: &str) -> R {
    let mut out = [UNSET; 4];
    let ask: Vec<bool> = (0..4).map(|_| g.chance(3, 4)).collect();
    let at = |i: usize| -> *mut u32 {
        if ask[i] {
            &out[i] as *const u32 as *mut u32
        } else {
            std::ptr::null_mut()
        }
    };
    let (a, b, c, d) = (at(0), at(1), at(2), at(3));
    let r = unsafe { f(p, a, b, c, d) };
    let out = std::hint::black_box(&mut out);
    ensure_eq!(r, if want.is_some() { NONE } else { 5 }, "area error", "{what}");
    for i in 0..4 {
        let w = want.filter(|_| ask[i]).map(|w| w[i]).unwrap_or(UNSET);
        ensure_eq!(out[i], w, "area", "{what} {i}");
    }
    Ok(())
}

fn check_raw(g: &mut G, p: P, r: &RawImage, what: &str) -> R {
    let rect = |r: Option<&libopenraw::Rect>| r.map(|r| [r.x, r.y, r.width, r.height]);
    unsafe {
        match g.below(12) {
            0 => ensure_eq!(or_rawdata_data_size(p), r.data_size(), "rawdata size", "{what}"),
            1 => {
                let want = r.data8().or(r.data16_as_u8()).map(|d| d.to_vec());
                let got = bytes(or_rawdata_data(p), if want.is_some() { or_rawdata_data_size(p) } else { 0 });
                ensure!(got == want, "rawdata data", "{what}: {:?} and {:?} bytes", got.map(|d| d.len()), want.map(|d| d.len()));
            }
            2 => ensure_eq!(or_rawdata_format(p), kind(r.data_type()), "rawdata format", "{what}"),
            3 => {
                let (mut b, mut w) = ([7_u16; 6], [7_u16; 6]);
                let (ab, aw) = (g.chance(3, 4), g.chance(3, 4));
                let null = std::ptr::null_mut();
                let e = or_rawdata_levels(
                    p,
                    if ab { b[1..].as_mut_ptr() } else { null },
                    if aw { w[1..].as_mut_ptr() } else { null },
                );
                ensure_eq!(e, NONE, "rawdata levels error", "{what}");
                let want = |ask: bool, l: &[u16]| if ask { vec![7, l[0], l[1], l[2], l[3], 7] } else { vec![7; 6] };
                ensure_eq!(b.to_vec(), want(ab, r.blacks()), "rawdata blacks", "{what}");
                ensure_eq!(w.to_vec(), want(aw, r.whites()), "rawdata whites", "{what}");
            }
            4 => {
                let mut wb = [7.5_f64; 6];
                let e = or_rawdata_as_shot_neutral(p, wb[1..].as_mut_ptr());
                let want = r.as_shot_neutral().map(|n| vec![7.5, n[0], n[1], n[2], n[3], 7.5]);
                ensure_eq!(e, if want.is_some() { NONE } else { 5 }, "rawdata neutral error", "{what}");
                let want = want.unwrap_or(vec![7.5; 6]);
                ensure!(wb.iter().zip(&want).all(|(a, b)| a.to_bits() == b.to_bits()), "rawdata neutral", "{what}: got {wb:?}, expected {want:?}");
                ensure_eq!(or_rawdata_as_shot_neutral(p, std::ptr::null_mut()), NOT_AREF, "rawdata neutral null", "{what}");
            }
            5 => {
                let (mut x, mut y) = (7.5, 7.5);
                let e = or_rawdata_as_shot_white_xy(p, &mut x, &mut y);
                let want = r.as_shot_white_xy();
                ensure_eq!(e, if want.is_some() { NONE } else { 5 }, "rawdata white error", "{what}");
                let want = want.unwrap_or((7.5, 7.5));
                ensure_eq!((x.to_bits(), y.to_bits()), (want.0.to_bits(), want.1.to_bits()), "rawdata white", "{what}");
                let null = std::ptr::null_mut();
                ensure_eq!(or_rawdata_as_shot_white_xy(p, null, &mut y), NOT_AREF, "rawdata white null", "{what}");
                ensure_eq!(or_rawdata_as_shot_white_xy(p, &mut x, null), NOT_AREF, "rawdata white null", "{what}");
            }
            6 => dims(g, or_rawdata_dimensions, p, (r.width(), r.height()), what)?,
            7 => {
                ensure_eq!(or_rawdata_get_compression(p), r.compression() as u32, "rawdata compression", "{what}");
                ensure_eq!(or_rawdata_bpc(p), r.bpc() as u32, "rawdata bpc", "{what}");
            }
            8 => {
                let m = r.mosaic_pattern();
                ensure_eq!(or_rawdata_get_cfa_pattern_type(p), pattern(m), "rawdata pattern", "{what}");
                let i = or_rawdata_get_mosaicinfo(p);
                ensure!(!i.is_null(), "mosaic null", "{what}");
                ensure_eq!(or_mosaicinfo_get_type(i), pattern(m), "mosaic type", "{what}");
                let (mut x, mut y) = (7, 7);
                or_mosaicinfo_get_size(i, &mut x, &mut y);
                ensure_eq!((x as usize, y as usize), (m.width(), m.height()), "mosaic size", "{what}");
                let want: Vec<u8> = m.pattern().iter().map(|c| *c as u8).collect();
                let mut n = 0xeeee_u16;
                let c = or_mosaicinfo_get_pattern(i, &mut n);
                ensure_eq!(n as usize, want.len(), "mosaic count", "{what}");
                ensure!(n == 0 || bytes(c, n as usize) == Some(want), "mosaic pattern", "{what}");
            }
            9 => {
                let i = g.pickv(&[0, 1, 1, 2, 2, 3, u32::MAX]);
                let want = r.colour_matrix(i as usize).map(|m| &m.matrix);
                let mut n = UNSET;
                let ask = g.chance(3, 4);
                let got = or_rawdata_get_colour_matrix(p, i, if ask { &mut n } else { std::ptr::null_mut() });
                ensure_eq!(!got.is_null(), want.is_some(), "rawdata matrix presence", "{what} {i}");
                if let Some(want) = want {
                    if ask {
                        ensure_eq!(n as usize, want.len(), "rawdata matrix size", "{what} {i}");
                    }
                    let got = std::slice::from_raw_parts(got, want.len());
                    ensure!(got.iter().zip(want.iter()).all(|(a, b)| a.to_bits() == b.to_bits()), "rawdata matrix", "{what} {i}");
                }
            }
            10 => {
                area(g, or_rawdata_get_active_area, p, rect(r.active_area()), what)?;
                area(g, or_rawdata_get_user_crop, p, rect(r.user_crop()), what)?;
            }
            _ => {
                let (mut x, mut y) = (UNSET, UNSET);
                let e = or_rawdata_get_user_aspect_ratio(p, &mut x, &mut y);
                let want = r.user_aspect_ratio().map(|a| (a.0, a.1));
                ensure_eq!(e, if want.is_some() { NONE } else { 5 }, "ratio error", "{what}");
                ensure_eq!((x, y), want.unwrap_or((UNSET, UNSET)), "ratio", "{what}");
            }
        }
    }
    Ok(())
}

fn check_bitmap(g: &mut G, p: P, r: &RawImage, what: &str) -> R {
    unsafe {
        match g.below(4) {
            0 => ensure_eq!(or_bitmapdata_data_size(p), r.data_size(), "bitmap size", "{what}"),
            1 => {
                let want = r.data8().or(r.data16_as_u8()).map(|d| d.to_vec());
                let got = bytes(or_bitmapdata_data(p), if want.is_some() { or_bitmapdata_data_size(p) } else { 0 });
                ensure!(got == want, "bitmap data", "{what}: {:?} and {:?} bytes", got.map(|d| d.len()), want.map(|d| d.len()));
            }
            2 => {
                ensure_eq!(or_bitmapdata_format(p), kind(r.data_type()), "bitmap format", "{what}");
                ensure_eq!(or_bitmapdata_bpc(p), r.bpc() as u32, "bitmap bpc", "{what}");
            }
            _ => dims(g, or_bitmapdata_dimensions, p, (r.width(), r.height()), what)?,
        }
    }
    Ok(())
}

fn check_thumb(g: &mut G, p: P, t: &Thumbnail, what: &str) -> R {
    unsafe {
        match g.below(4) {
            0 => ensure_eq!(or_thumbnail_data_size(p), t.data_size(), "thumbnail size", "{what}"),
            1 => {
                let got = bytes(or_thumbnail_data(p), or_thumbnail_data_size(p));
                let want = t.data8().map(|d| d.to_vec());
                ensure!(got == want, "thumbnail data", "{what}: {:?} and {:?} bytes", got.map(|d| d.len()), want.map(|d| d.len()));
            }
            2 => ensure_eq!(or_thumbnail_format(p), kind(t.data_type()), "thumbnail format", "{what}"),
            _ => dims(g, or_thumbnail_dimensions, p, (t.width(), t.height()), what)?,
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- files

/// A file, what it was opened as, and the Rust handle of it.
struct Src {
    bytes: Vec<u8>,
    ty: Type,
    hint: Option<Type>,
    path: Option<CString>,
    rust: Option<RawFileHandle>,
}

fn source(g: &mut G, n: usize) -> Src {
    let (mut bytes, mut ty) = match g.below(8) {
        0..=3 => {
            let ty = g.pickv(&raws::HOSTS);
            (raws::coloured(g, ty, Kind::Any).bytes, ty)
        }
        4 | 5 => {
            let ty = g.pickv(&doc::HOSTS);
            (doc::doc(g, ty).bytes, ty)
        }
        _ => {
            let ty = g.pickv(&prev::HOSTS);
            (prev::file(g, ty).bytes, ty)
        }
    };
    match g.below(12) {
        0 => {
            let n = g.idx(bytes.len() + 1);
            bytes.truncate(n);
            g.label("truncated");
        }
        1 => {
            for _ in 0..g.ur(1, 4) {
                let i = g.idx(bytes.len());
                bytes[i] = g.u8();
            }
            g.label("damaged");
        }
        2 => {
            ty = g.pickv(&api::TYPES);
            g.label("wrong hint");
        }
        _ => {}
    }
    let hint = if g.chance(2, 3) { Some(ty) } else { None };
    let path = if g.chance(1, 4) {
        let ext = if g.bool() { String::new() } else { format!(".{}", g.pick(&libopenraw::extensions())) };
        let p = api::scratch().join(format!("c20-{}-{n}{ext}", std::process::id()));
        std::fs::write(&p, &bytes).unwrap();
        Some(CString::new(p.to_str().unwrap()).unwrap())
    } else {
        None
    };
    Src {
        bytes,
        ty,
        hint,
        path,
        rust: None,
    }
}

impl Drop for Src {
    fn drop(&mut self) {
        if let Some(p) = &self.path {
            let _ = std::fs::remove_file(p.to_str().unwrap());
        }
    }
}

/// The answer of the Rust interface; none if it has none because it panics, which is another
/// property's matter.
fn rust<T>(g: &mut G, f: impl FnOnce() -> T) -> Option<T> {
    run::stage("rust");
    let r = run::catch(AssertUnwindSafe(f)).ok();
    run::stage("");
    if r.is_none() {
        g.label("rust panics");
    }
    r
}

/// The options as documented: the target in four bits, the stage in two.
fn options(v: u32) -> RenderingOptions {
    let mut o = RenderingOptions::default();
    o = match v & 15 {
        0 => o.with_target(ColourSpace::Unknown),
        1 => o.with_target(ColourSpace::Camera),
        2 => o.with_target(ColourSpace::XYZ),
        3 => o.with_target(ColourSpace::SRgb),
        _ => o,
    };
    o.with_stage(match (v >> 4) & 3 {
        0 => RenderingStage::Raw,
        1 => RenderingStage::Linearization,
        2 => RenderingStage::Interpolation,
        _ => RenderingStage::Colour,
    })
}

/// Ask a file.
fn ask(g: &mut G, p: P, s: &Src, pool: &mut Vec<(P, Obj)>) -> R {
    let h = s.rust.as_ref().unwrap().clone();
    let what = format!("{}", api::name_of(s.ty));
    let what = what.as_str();
    let mut e = UNSET;
    let want_e = g.chance(3, 4);
    let ep: *mut u32 = if want_e { &mut e } else { std::ptr::null_mut() };
    macro_rules! obtained {
        ($name:expr, $got:expr, $want:expr, $obj:expr) => {{
            let got = $got;
            match $want {
                Ok(v) => {
                    ensure!(!got.is_null(), concat!($name, " null"), "{what}: error {e}");
                    pool.push((got, $obj(Box::new(v))));
                    if want_e {
                        ensure_eq!(e, NONE, concat!($name, " error"), "{what}");
                    }
                }
                Err(err) => {
                    ensure!(got.is_null(), concat!($name, " not null"), "{what}: {err}");
                    if want_e {
                        ensure_eq!(e, code(&err), concat!($name, " error"), "{what}: {err}");
                    }
                }
            }
        }};
    }
    unsafe {
        match g.below(13) {
            0 => ensure_eq!(or_rawfile_get_type(p), type_num(h.type_()), "type", "{what}"),
            1 => {
                let Some(want) = rust(g, || h.type_id()) else { return Ok(()) };
                let want = want.map(u32::from).unwrap_or(0);
                ensure_eq!(or_rawfile_get_typeid(p), want, "typeid", "{what}");
                ensure_eq!(or_rawfile_get_vendorid(p), want >> 16, "vendorid", "{what}");
            }
            2 | 3 => {
                let o = g.pickv(&[0, 1, 1, 2, 3, u32::MAX]);
                let Some(want) = rust(g, || h.raw_data(o == 1)) else { return Ok(()) };
                obtained!("rawdata", or_rawfile_get_rawdata(p, o, ep), want, Obj::Raw);
            }
            4 => {
                let Some(want) = rust(g, || h.orientation()) else { return Ok(()) };
                ensure_eq!(or_rawfile_get_orientation(p), want as i32, "orientation", "{what}");
            }
            5 => {
                let Some(sizes) = rust(g, || h.thumbnail_sizes().map(|s| s.to_vec())) else { return Ok(()) };
                let sizes = sizes.unwrap_or_default();
                let n = match g.below(4) {
                    0 if !sizes.is_empty() => *g.pick(&sizes),
                    1 => 0,
                    2 => g.u32(),
                    _ => g.u32r(1, 2000),
                };
                let Some(want) = rust(g, || h.thumbnail(n)) else { return Ok(()) };
                obtained!("thumbnail", or_rawfile_get_thumbnail(p, n, ep), want, Obj::Thumb);
            }
            6 => {
                let Some(want) = rust(g, || h.thumbnail_sizes().map(|s| s.to_vec())) else { return Ok(()) };
                let mut n = 0x7777_usize;
                let ask = g.chance(3, 4);
                let got = or_rawfile_get_thumbnail_sizes(p, if ask { &mut n } else { std::ptr::null_mut() });
                let len = want.as_ref().map(|w| w.len()).unwrap_or(0);
                if ask {
                    ensure_eq!(n, len, "sizes count", "{what}");
                }
                if let Some(want) = &want {
                    ensure!(!got.is_null(), "sizes null", "{what}");
                    ensure_eq!(std::slice::from_raw_parts(got, len).to_vec(), want.clone(), "sizes", "{what}");
                } else {
                    ensure!(got.is_null(), "sizes not null", "{what}");
                }
            }
            7 => {
                let keys: Vec<String> = match rust(g, || h.metadata().map(|d| d.map(|m| m.0).collect())) {
                    Some(Some(v)) => v,
                    _ => vec![],
                };
                let k = match g.below(4) {
                    0 => g.pickv(&["Exif.Image.Make", "Exif.Image.Orientation", "", "Exif.Image."]).to_string(),
                    1 => g.ascii(0, 12),
                    _ if !keys.is_empty() => g.pick(&keys).clone(),
                    _ => "Exif.Image.Model".to_string(),
                };
                let Some(want) = rust(g, || h.metadata_value(&k)) else { return Ok(()) };
                let c = CString::new(k.as_str()).unwrap();
                let got = or_rawfile_get_metavalue(p, c.as_ptr());
                ensure_eq!(!got.is_null(), want.is_some(), "metavalue presence", "{what} {k}");
                if let Some(v) = want {
                    pool.push((got, Obj::Val(Val { v, kept: None })));
                }
            }
            8 => {
                let o = match g.below(4) {
                    0 => g.u32(),
                    _ => g.u32r(0, 3) << 4 | g.u32r(0, 4),
                };
                let Some(want) = rust(g, || h.rendered_image(options(o))) else { return Ok(()) };
                obtained!("rendered", or_rawfile_get_rendered_image(p, o, ep), want, Obj::Bitmap);
            }
            9 => {
                let (n, t) = g.pickv(&IFDS);
                let Some(want) = rust(g, || h.ifd(t).map(|d| dir_of!(d))) else { return Ok(()) };
                let got = or_rawfile_get_ifd(p, n);
                ensure_eq!(!got.is_null(), want.is_some(), "ifd presence", "{what} {t:?}");
                if let Some(d) = want {
                    check_dir(got, &d, what)?;
                    g.label("ifd");
                }
            }
            10 => {
                let Some(want) = rust(g, || [h.calibration_illuminant(1) as u32, h.calibration_illuminant(2) as u32]) else {
                    return Ok(());
                };
                ensure_eq!(or_rawfile_get_calibration_illuminant1(p), want[0], "illuminant 1", "{what}");
                ensure_eq!(or_rawfile_get_calibration_illuminant2(p), want[1], "illuminant 2", "{what}");
                let Some(want) = rust(g, || h.colour_matrix(1).map(|m| m.0 as u32).unwrap_or(0)) else { return Ok(()) };
                ensure_eq!(or_rawfile_get_colour_matrix_origin(p), want, "origin", "{what}");
            }
            11 => {
                let i = g.ur(1, 2);
                let f = if i == 1 { or_rawfile_get_colourmatrix1 } else { or_rawfile_get_colourmatrix2 };
                let Some(want) = rust(g, || h.colour_matrix(i).map(|m| m.1)) else { return Ok(()) };
                let room = match g.below(4) {
                    0 => 9,
                    1 => g.ur(0, 9),
                    _ => g.ur(0, 40),
                };
                let mut buf = vec![7.5_f64; room + 2];
                let mut n = room as u32;
                let e = f(p, buf[1..].as_mut_ptr(), &mut n);
                let mut model = vec![7.5_f64; room + 2];
                match want {
                    Ok(m) => {
                        ensure_eq!(e, if m.len() <= room { NONE } else { 1 }, "matrix error", "{what} room {room} of {}", m.len());
                        ensure_eq!(n as usize, m.len(), "matrix size", "{what} room {room}");
                        if m.len() <= room {
                            model[1..=m.len()].copy_from_slice(&m);
                            g.label("matrix");
                        } else {
                            g.label("matrix too large");
                        }
                    }
                    Err(err) => {
                        ensure_eq!(e, code(&err), "matrix error", "{what}: {err}");
                    }
                }
                ensure!(buf.iter().zip(&model).all(|(a, b)| a.to_bits() == b.to_bits()), "matrix", "{what} room {room}: got {buf:?}, expected {model:?}");
                ensure_eq!(f(p, buf.as_mut_ptr(), std::ptr::null_mut()), 6, "matrix null size", "{what}");
            }
            _ => {
                let Some(list) = rust(g, || h.metadata().map(|m| m.collect::<Vec<_>>())) else { return Ok(()) };
                let got = or_rawfile_get_metadata_iterator(p);
                ensure!(!got.is_null(), "iterator null", "{what}");
                pool.push((got, Obj::Iter(list.unwrap_or_default(), 0, None)));
            }
        }
    }
    Ok(())
}

/// Move an iterator, and look at where it is.
fn step(g: &mut G, p: P, list: &[(String, Value, i16)], at: &mut usize, kept: &mut Option<String>) -> R {
    unsafe {
        if g.chance(3, 4) {
            let r = or_metadata_iterator_next(p);
            // Once at the end it stays there.
            ensure_eq!(r, (*at < list.len()) as c_int, "next", "entry {at} of {}", list.len());
            *at = (*at + 1).min(list.len() + 1);
            *kept = None;
        }
        let m = or_metadata_iterator_get_entry(p);
        let here = *at > 0 && *at <= list.len();
        ensure_eq!(!m.is_null(), here, "entry", "entry {at} of {}", list.len());
        if here {
            let (k, v, t) = &list[*at - 1];
            let what = format!("{k} entry {at}");
            ensure_eq!(text(or_metadata_get_key(m)), Some(k.clone().into_bytes()), "entry key", "{what}");
            ensure_eq!(or_metadata_get_type(m), *t, "entry type", "{what}");
            let c = or_metadata_get_value(m);
            ensure!(!c.is_null(), "entry value", "{what}");
            let mut val = Val {
                v: copy(v),
                kept: kept.take(),
            };
            check_value(g, c, &mut val, &what)?;
            *kept = val.kept;
            let d = or_metadata_iterator_get_dir(p);
            ensure!(!d.is_null(), "entry dir", "{what}");
            ensure!(or_ifd_count_tags(d) > 0, "entry dir", "{what}");
        }
    }
    Ok(())
}

fn copy(v: &Value) -> Value {
    match v {
        Value::Int(v) => Value::Int(v.clone()),
        Value::SInt(v) => Value::SInt(v.clone()),
        Value::String(v) => Value::String(v.clone()),
        Value::Float(v) => Value::Float(v.clone()),
        Value::Double(v) => Value::Double(v.clone()),
        Value::Rational(v) => Value::Rational(v.clone()),
        Value::SRational(v) => Value::SRational(v.clone()),
        Value::Bytes(v) => Value::Bytes(v.clone()),
        Value::SBytes(v) => Value::SBytes(v.clone()),
        Value::Invalid(v) => Value::Invalid(v.clone()),
    }
}

fn release(p: P, o: &Obj) -> R {
    unsafe {
        match o {
            Obj::File(_) => ensure_eq!(or_rawfile_release(p), NONE, "release file", ""),
            Obj::Raw(_) => ensure_eq!(or_rawdata_release(p), NONE, "release rawdata", ""),
            Obj::Bitmap(_) => ensure_eq!(or_bitmapdata_release(p), NONE, "release bitmap", ""),
            Obj::Thumb(_) => ensure_eq!(or_thumbnail_release(p), NONE, "release thumbnail", ""),
            Obj::Val(_) => or_metavalue_release(p),
            Obj::Iter(..) => or_metadata_iterator_free(p),
        }
    }
    Ok(())
}

/// Null handles are answered.
fn nulls(g: &mut G) -> R {
    let null: P = std::ptr::null_mut();
    let cnull: Cp = std::ptr::null();
    let mut e = UNSET;
    let (mut x, mut y, mut z, mut w) = (UNSET, UNSET, UNSET, UNSET);
    let mut d = [7.5; 9];
    let mut u = [7_u16; 4];
    unsafe {
        match g.below(9) {
            0 => {
                ensure_eq!(or_rawfile_release(null), NOT_AREF, "null release file", "");
                ensure_eq!(or_rawdata_release(null), NOT_AREF, "null release rawdata", "");
                ensure_eq!(or_thumbnail_release(null), NOT_AREF, "null release thumbnail", "");
                ensure_eq!(or_bitmapdata_release(null), NOT_AREF, "null release bitmap", "");
                or_metavalue_release(null);
                or_metadata_iterator_free(null);
            }
            1 => {
                ensure_eq!(or_rawfile_get_type(null), 0, "null type", "");
                ensure_eq!(or_rawfile_get_typeid(null), 0, "null typeid", "");
                ensure_eq!(or_rawfile_get_vendorid(null), 0, "null vendorid", "");
                ensure_eq!(or_rawfile_get_orientation(null), 0, "null orientation", "");
                ensure_eq!(or_rawfile_get_calibration_illuminant1(null), 0, "null illuminant", "");
                ensure_eq!(or_rawfile_get_calibration_illuminant2(null), 0, "null illuminant", "");
                ensure_eq!(or_rawfile_get_colour_matrix_origin(null), 0, "null origin", "");
            }
            2 => {
                ensure!(or_rawfile_get_rawdata(null, 0, &mut e).is_null(), "null rawdata", "");
                ensure_eq!(e, NOT_AREF, "null rawdata error", "");
                e = UNSET;
                ensure!(or_rawfile_get_thumbnail(null, 100, &mut e).is_null(), "null thumbnail", "");
                ensure_eq!(e, NOT_AREF, "null thumbnail error", "");
                e = UNSET;
                ensure!(or_rawfile_get_rendered_image(null, 0, &mut e).is_null(), "null rendered", "");
                ensure_eq!(e, NOT_AREF, "null rendered error", "");
                let en = std::ptr::null_mut();
                ensure!(or_rawfile_get_rawdata(null, 0, en).is_null(), "null rawdata", "");
                ensure!(or_rawfile_get_thumbnail(null, 100, en).is_null(), "null thumbnail", "");
                ensure!(or_rawfile_get_rendered_image(null, 0, en).is_null(), "null rendered", "");
            }
            3 => {
                let k = CString::new("Exif.Image.Make").unwrap();
                let mut n = 0_usize;
                ensure!(or_rawfile_get_thumbnail_sizes(null, &mut n).is_null(), "null sizes", "");
                ensure!(or_rawfile_get_metavalue(null, k.as_ptr()).is_null(), "null metavalue", "");
                ensure!(or_rawfile_get_ifd(null, 1).is_null(), "null ifd", "");
                ensure!(or_rawfile_get_metadata_iterator(null).is_null(), "null iterator", "");
                x = 9;
                ensure_eq!(or_rawfile_get_colourmatrix1(null, d.as_mut_ptr(), &mut x), NOT_AREF, "null matrix", "");
                ensure_eq!(or_rawfile_get_colourmatrix2(null, d.as_mut_ptr(), &mut x), NOT_AREF, "null matrix", "");
                ensure_eq!(d, [7.5; 9], "null matrix", "");
            }
            4 => {
                ensure_eq!(or_metadata_iterator_next(null), 0, "null next", "");
                ensure!(or_metadata_iterator_get_entry(null).is_null(), "null entry", "");
                ensure!(or_metadata_iterator_get_dir(null).is_null(), "null dir", "");
                ensure!(or_metadata_get_key(cnull).is_null(), "null key", "");
                ensure!(or_metadata_get_value(cnull).is_null(), "null value", "");
                ensure_eq!(or_metadata_get_type(cnull), 0, "null entry type", "");
                ensure!(or_metavalue_get_string(cnull).is_null(), "null string", "");
                ensure!(or_metavalue_get_as_string(cnull, true).is_null(), "null as string", "");
                ensure_eq!(or_metavalue_get_count(cnull), 0, "null count", "");
                ensure_eq!(or_ifd_count_tags(cnull), -1, "null tags", "");
                ensure_eq!(or_ifd_get_type(cnull), 10000, "null ifd type", "");
                ensure!(or_ifd_get_makernote_id(cnull).is_null(), "null makernote id", "");
                ensure!(or_ifd_get_tag_name(cnull, 0x100).is_null(), "null tag name", "");
            }
            5 => {
                ensure_eq!(or_rawdata_data_size(null), 0, "null size", "");
                ensure!(or_rawdata_data(null).is_null(), "null data", "");
                ensure_eq!(or_rawdata_format(null), 100, "null format", "");
                ensure_eq!(or_rawdata_levels(null, u.as_mut_ptr(), u.as_mut_ptr()), NOT_AREF, "null levels", "");
                ensure_eq!(or_rawdata_as_shot_neutral(null, d.as_mut_ptr()), NOT_AREF, "null neutral", "");
                let dp = d.as_mut_ptr();
                ensure_eq!(or_rawdata_as_shot_white_xy(null, dp, dp.add(1)), NOT_AREF, "null white", "");
                or_rawdata_dimensions(null, &mut x, &mut y);
                ensure_eq!(or_rawdata_get_cfa_pattern_type(null), 0, "null pattern", "");
                ensure_eq!(or_rawdata_get_compression(null), 0, "null compression", "");
                ensure_eq!(or_rawdata_bpc(null), 0, "null bpc", "");
                ensure!(or_rawdata_get_colour_matrix(null, 1, &mut z).is_null(), "null matrix", "");
                ensure_eq!(or_rawdata_get_active_area(null, &mut x, &mut y, &mut z, &mut w), NOT_AREF, "null area", "");
                ensure_eq!(or_rawdata_get_user_crop(null, &mut x, &mut y, &mut z, &mut w), NOT_AREF, "null crop", "");
                ensure_eq!(or_rawdata_get_user_aspect_ratio(null, &mut x, &mut y), NOT_AREF, "null ratio", "");
                ensure!(or_rawdata_get_mosaicinfo(null).is_null(), "null mosaic", "");
                ensure_eq!(or_mosaicinfo_get_type(cnull), 0, "null mosaic type", "");
                let mut n = 7;
                ensure!(or_mosaicinfo_get_pattern(cnull, &mut n).is_null(), "null mosaic pattern", "");
                ensure_eq!((x, y, z, w), (UNSET, UNSET, UNSET, UNSET), "null written", "");
                ensure_eq!((d, u), ([7.5; 9], [7; 4]), "null written", "");
            }
            6 => {
                ensure_eq!(or_thumbnail_data_size(null), 0, "null size", "");
                ensure!(or_thumbnail_data(null).is_null(), "null data", "");
                ensure_eq!(or_thumbnail_format(null), 100, "null format", "");
                or_thumbnail_dimensions(null, &mut x, &mut y);
                ensure_eq!(or_bitmapdata_data_size(null), 0, "null size", "");
                ensure!(or_bitmapdata_data(null).is_null(), "null data", "");
                ensure_eq!(or_bitmapdata_format(null), 100, "null format", "");
                ensure_eq!(or_bitmapdata_bpc(null), 0, "null bpc", "");
                or_bitmapdata_dimensions(null, &mut x, &mut y);
                ensure_eq!((x, y), (UNSET, UNSET), "null written", "");
            }
            7 => {
                // Null texts and buffers
                run::stage("null text");
                let t = type_num(g.pickv(&api::TYPES));
                ensure!(or_rawfile_new(std::ptr::null(), t).is_null(), "null file name", "");
                ensure!(or_rawfile_new_from_memory(std::ptr::null(), g.pickv(&[0, 1, 100]), t).is_null(), "null buffer", "");
                ensure_eq!(or_get_type_for_mime_type(std::ptr::null()), 0, "null mime type", "");
                let mut p = null;
                let r = or_get_extract_thumbnail(std::ptr::null(), 100, &mut p);
                ensure!(r != NONE && p.is_null(), "null extract thumbnail", "{r}");
                let r = or_get_extract_rawdata(std::ptr::null(), 0, &mut p);
                ensure!(r != NONE && p.is_null(), "null extract rawdata", "{r}");
            }
            _ => {
                // Empty objects
                let t = or_thumbnail_new();
                ensure_eq!(or_thumbnail_data_size(t), 0, "new thumbnail", "");
                or_thumbnail_dimensions(t, &mut x, &mut y);
                ensure_eq!((x, y), (0, 0), "new thumbnail", "");
                ensure_eq!(or_thumbnail_release(t), NONE, "release thumbnail", "new");
                let r = or_rawdata_new();
                check_raw(g, r, &RawImage::new(), "new")?;
                ensure_eq!(or_rawdata_release(r), NONE, "release rawdata", "new");
            }
        }
    }
    Ok(())
}

/// Everything a program can do in one call with a path.
fn extract(g: &mut G, s: &Src) -> R {
    let Some(path) = &s.path else { return Ok(()) };
    let name = path.to_str().unwrap().to_string();
    let gone = g.chance(1, 10);
    let path = if gone { CString::new(format!("{name}.none")).unwrap() } else { path.clone() };
    let file = path.to_str().unwrap().to_string();
    g.label("extract");
    let mut p: P = std::ptr::null_mut();
    unsafe {
        if g.bool() {
            let n = match g.below(3) {
                0 => 0,
                1 => g.u32(),
                _ => g.u32r(1, 2000),
            };
            let Some(want) = rust(g, || libopenraw::rawfile_from_file(&file, None).and_then(|h| h.thumbnail(n))) else {
                return Ok(());
            };
            ensure_eq!(or_get_extract_thumbnail(path.as_ptr(), n, std::ptr::null_mut()), NOT_AREF, "extract thumbnail null", "");
            let r = or_get_extract_thumbnail(path.as_ptr(), n, &mut p);
            match want {
                Ok(t) => {
                    ensure_eq!(r, NONE, "extract thumbnail", "{n}");
                    for _ in 0..4 {
                        check_thumb(g, p, &t, "extracted")?;
                    }
                    ensure_eq!(or_thumbnail_release(p), NONE, "extract release", "");
                }
                Err(e) => ensure!(p.is_null() && r == if gone { 3 } else { code(&e) }, "extract thumbnail error", "{n}: {r} for {e}"),
            }
        } else {
            let o = g.pickv(&[0, 1, 2, u32::MAX]);
            let Some(want) = rust(g, || libopenraw::rawfile_from_file(&file, None).and_then(|h| h.raw_data(o == 1))) else {
                return Ok(());
            };
            ensure_eq!(or_get_extract_rawdata(path.as_ptr(), o, std::ptr::null_mut()), NOT_AREF, "extract rawdata null", "");
            let r = or_get_extract_rawdata(path.as_ptr(), o, &mut p);
            match want {
                Ok(i) => {
                    ensure_eq!(r, NONE, "extract rawdata", "{o}");
                    for _ in 0..8 {
                        check_raw(g, p, &i, "extracted")?;
                    }
                    ensure_eq!(or_rawdata_release(p), NONE, "extract release", "");
                }
                Err(e) => ensure!(p.is_null() && r == if gone { 3 } else { code(&e) }, "extract rawdata error", "{o}: {r} for {e}"),
            }
        }
    }
    Ok(())
}

fn history(g: &mut G) -> R {
    run::set_fill(0xc5);
    let r = play(g);
    run::clear_fill();
    r
}

fn play(g: &mut G) -> R {
    let mut srcs: Vec<Src> = (0..g.ur(1, 3)).map(|n| source(g, n)).collect();
    let all: Vec<u8> = srcs.iter().flat_map(|s| s.bytes.clone()).collect();
    g.input(&all);
    let mut pool: Vec<(P, Obj)> = vec![];
    for s in srcs.iter_mut() {
        let opened = match &s.path {
            Some(p) => libopenraw::rawfile_from_file(p.to_str().unwrap(), s.hint),
            None => api::open(&s.bytes, s.hint, Via::Memory),
        };
        s.rust = opened.ok();
    }
    let mut asked = 0;
    for _ in 0..g.ur(8, 60) {
        if pool.is_empty() || g.chance(1, 12) {
            let i = g.idx(srcs.len());
            let s = &srcs[i];
            let t = type_num(s.hint.unwrap_or(Type::Unknown));
            // The hint "unknown" is no hint at all.
            let known = s.hint != Some(Type::Unknown);
            if !known {
                continue;
            }
            let p = unsafe {
                match &s.path {
                    Some(p) => or_rawfile_new(p.as_ptr(), t),
                    None => {
                        let copy = s.bytes.clone();
                        // The buffer isn't needed after the call
                        or_rawfile_new_from_memory(copy.as_ptr(), copy.len() as u32, t)
                    }
                }
            };
            ensure_eq!(!p.is_null(), s.rust.is_some(), "open", "{:?} {:?}", s.ty, s.hint);
            if !p.is_null() {
                pool.push((p, Obj::File(i)));
            }
            continue;
        }
        if g.chance(1, 20) {
            nulls(g)?;
            continue;
        }
        if g.chance(1, 20) {
            let i = g.idx(srcs.len());
            extract(g, &srcs[i])?;
            continue;
        }
        let i = g.idx(pool.len());
        if g.chance(1, 8) {
            let (p, o) = pool.swap_remove(i);
            release(p, &o)?;
            g.label("released");
            continue;
        }
        let (p, mut o) = pool.swap_remove(i);
        asked += 1;
        let mut more = vec![];
        let r = match &mut o {
            Obj::File(n) => {
                run::stage("file");
                ask(g, p, &srcs[*n], &mut more)
            }
            Obj::Raw(r) => (0..3).try_for_each(|_| check_raw(g, p, r, "rawdata")),
            Obj::Bitmap(r) => (0..2).try_for_each(|_| check_bitmap(g, p, r, "bitmap")),
            Obj::Thumb(t) => (0..2).try_for_each(|_| check_thumb(g, p, t, "thumbnail")),
            Obj::Val(v) => check_value(g, p, v, "value"),
            Obj::Iter(list, at, kept) => (0..3).try_for_each(|_| step(g, p, list, at, kept)),
        };
        pool.push((p, o));
        pool.append(&mut more);
        r?;
    }
    if asked >= 8 && pool.iter().any(|o| !matches!(o.1, Obj::File(_))) {
        g.nontrivial();
    }
    for o in &pool {
        g.label(match o.1 {
            Obj::File(_) => "file",
            Obj::Raw(_) => "rawdata",
            Obj::Bitmap(_) => "bitmap",
            Obj::Thumb(_) => "thumbnail",
            Obj::Val(_) => "value",
            Obj::Iter(..) => "iterator",
        });
    }
    // Released once each, in any order
    while !pool.is_empty() {
        let i = g.idx(pool.len());
        let (p, o) = pool.swap_remove(i);
        release(p, &o)?;
    }
    Ok(())
}

fn strings(p: *const *const c_char) -> Vec<String> {
    let mut out = vec![];
    unsafe {
        let mut p = p;
        while !(*p).is_null() && out.len() < 1000 {
            out.push(CStr::from_ptr(*p).to_string_lossy().into_owned());
            p = p.add(1);
        }
    }
    out
}

/// The number of a type, as the C header has it. Those of Rw and Jpeg aren't there.
fn type_num(t: Type) -> u32 {
    match t {
        Type::Cr2 => 1,
        Type::Crw => 2,
        Type::Nef => 3,
        Type::Mrw => 4,
        Type::Arw => 5,
        Type::Dng => 6,
        Type::Orf => 7,
        Type::Pef => 8,
        Type::Erf => 9,
        Type::Tiff => 10,
        Type::Nrw => 11,
        Type::Rw2 => 12,
        Type::Raf => 13,
        Type::Cr3 => 14,
        Type::Gpr => 15,
        Type::Sr2 => 16,
        Type::Rw => 17,
        Type::Jpeg => 100,
        _ => 0,
    }
}

/// What isn't about a file.
fn lists(g: &mut G) -> R {
    let exts: Vec<String> = libopenraw::extensions().iter().map(|s| s.to_string()).collect();
    let mimes: Vec<String> = libopenraw::mime_types().iter().map(|s| s.to_string()).collect();
    ensure_eq!(strings(unsafe { or_get_file_extensions() }), exts, "extensions");
    ensure_eq!(strings(unsafe { or_get_mime_types() }), mimes, "mime types");
    let m = match g.below(4) {
        0 => g.ascii(0, 20),
        1 => {
            let mut s = g.pick(&mimes).clone().into_bytes();
            let i = g.idx(s.len());
            match g.below(3) {
                0 => s[i] = s[i].to_ascii_uppercase(),
                1 => s[i] = b'x',
                _ => s.truncate(i),
            }
            String::from_utf8(s).unwrap()
        }
        _ => {
            g.nontrivial();
            g.pick(&mimes).clone()
        }
    };
    g.input(m.as_bytes());
    let c = CString::new(m.replace('\0', "")).unwrap();
    let want = libopenraw::type_for_mime_type(c.to_str().unwrap()).map(type_num).unwrap_or(0);
    ensure_eq!(unsafe { or_get_type_for_mime_type(c.as_ptr()) }, want, "type for mime type", "{c:?}");
    let l = g.u32r(0, 4);
    let before = log::max_level();
    unsafe { or_debug_set_level(l) };
    let got = log::max_level();
    log::set_max_level(before);
    ensure_eq!(got as usize, l as usize + 1, "debug level");
    Ok(())
}

pub fn check() -> run::Check {
    run::Check {
        id: "C20",
        rule: "at least eight calls on live objects, one of them not a file, or a known mime type",
        assumptions: &["handles are those the library returned and are released once: others are the caller's error"],
        subs: vec![
            run::Sub { name: "history", quick: 180000, thorough: 4000000, run: history },
            run::Sub { name: "lists", quick: 15000, thorough: 100000, run: lists },
        ],
    }
}
