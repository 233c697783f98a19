//! Every question a program can put to a file, and its answer as text.

use std::panic::AssertUnwindSafe;

use libopenraw::metadata::Value;
use libopenraw::{
    Bitmap, ColourSpace, Error, Ifd, RawFileHandle, RawImage, RenderingOptions, RenderingStage, Result, Type,
};

use crate::gen::{self, G};
use crate::run::{self, Fail};

pub const TYPES: [Type; 19] = [
    Type::Arw,
    Type::Cr2,
    Type::Cr3,
    Type::Crw,
    Type::Dng,
    Type::Erf,
    Type::Gpr,
    Type::Mrw,
    Type::Nef,
    Type::Nrw,
    Type::Orf,
    Type::Pef,
    Type::Raf,
    Type::Rw,
    Type::Rw2,
    Type::Jpeg,
    Type::Sr2,
    Type::Tiff,
    Type::Unknown,
];

pub fn name_of(t: Type) -> &'static str {
    match t {
        Type::Arw => "Arw",
        Type::Cr2 => "Cr2",
        Type::Cr3 => "Cr3",
        Type::Crw => "Crw",
        Type::Dng => "Dng",
        Type::Erf => "Erf",
        Type::Gpr => "Gpr",
        Type::Mrw => "Mrw",
        Type::Nef => "Nef",
        Type::Nrw => "Nrw",
        Type::Orf => "Orf",
        Type::Pef => "Pef",
        Type::Raf => "Raf",
        Type::Rw => "Rw",
        Type::Rw2 => "Rw2",
        Type::Jpeg => "Jpeg",
        Type::Sr2 => "Sr2",
        Type::Tiff => "Tiff",
        Type::Unknown => "Unknown",
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Q {
    Type,
    Mime,
    TypeId,
    VendorId,
    ThumbSizes,
    /// The n-th listed size
    ThumbListed(usize),
    Thumb(u32),
    Raw(bool),
    Render(u32, bool),
    Meta,
    MetaValue(&'static str),
    Orientation,
    Illuminant(usize),
    Matrix(usize),
    MainIfd,
    ExifIfd,
    NoteIfd,
    Dump,
}

impl Q {
    pub fn name(&self) -> &'static str {
        match self {
            Q::Type => "type",
            Q::Mime => "mime_type",
            Q::TypeId => "type_id",
            Q::VendorId => "vendor_id",
            Q::ThumbSizes => "thumbnail_sizes",
            Q::ThumbListed(_) | Q::Thumb(_) => "thumbnail",
            Q::Raw(false) => "raw_data",
            Q::Raw(true) => "raw_data_skip",
            Q::Render(..) => "rendered_image",
            Q::Meta => "metadata",
            Q::MetaValue(_) => "metadata_value",
            Q::Orientation => "orientation",
            Q::Illuminant(_) => "calibration_illuminant",
            Q::Matrix(_) => "colour_matrix",
            Q::MainIfd => "main_ifd",
            Q::ExifIfd => "exif_ifd",
            Q::NoteIfd => "maker_note_ifd",
            Q::Dump => "dump_file",
        }
    }
}

pub fn queries() -> Vec<Q> {
    let mut v = vec![
        Q::Type,
        Q::Mime,
        Q::TypeId,
        Q::VendorId,
        Q::ThumbSizes,
        Q::ThumbListed(0),
        Q::ThumbListed(1),
        Q::ThumbListed(2),
        Q::Thumb(0),
        Q::Thumb(1),
        Q::Thumb(160),
        Q::Thumb(1000),
        Q::Thumb(u32::MAX),
        Q::Raw(true),
        Q::Raw(false),
        Q::Meta,
        Q::Orientation,
        Q::MainIfd,
        Q::ExifIfd,
        Q::NoteIfd,
    ];
    for k in [
        "Exif.Image.Make",
        "Exif.Image.Model",
        "Exif.Image.ImageWidth",
        "Exif.Image.Orientation",
        "Exif.Photo.ExposureTime",
        "",
        "nonsense",
    ] {
        v.push(Q::MetaValue(k));
    }
    for i in 0..4 {
        v.push(Q::Illuminant(i));
        v.push(Q::Matrix(i));
    }
    for s in 0..4 {
        v.push(Q::Render(s, true));
    }
    v.push(Q::Render(3, false));
    v.push(Q::Dump);
    v
}

pub fn err(e: &Error) -> String {
    let d = format!("{e:?}");
    let end = d.find(|c: char| !c.is_alphanumeric()).unwrap_or(d.len());
    format!("Err({})", &d[..end])
}

fn big(b: &[u8]) -> String {
    if b.len() <= 64 {
        format!("{b:02x?}")
    } else {
        format!("{} bytes #{:016x}", b.len(), gen::hash(b))
    }
}

pub fn u16s(d: &[u16]) -> Vec<u8> {
    d.iter().flat_map(|v| v.to_le_bytes()).collect()
}

pub fn raw_text(r: &RawImage) -> String {
    let mut s = format!(
        "{}x{} bpc={} {:?} size={} ",
        r.width(),
        r.height(),
        r.bpc(),
        r.data_type(),
        r.data_size()
    );
    if let Some(d) = r.data8() {
        s += &format!("d8={} ", big(d));
    }
    if let Some(d) = r.data16() {
        s += &format!("d16={} ", big(&u16s(d)));
        s += &format!("as_u8={} ", big(r.data16_as_u8().unwrap_or(&[])));
    }
    if let Some(t) = r.tile_data() {
        s += &format!("tiles={} {:?} ", t.len(), r.tile_size());
        for x in t {
            s += &big(x);
        }
    }
    s += &format!(
        "active={:?} crop={:?} ratio={:?} out={:?} neutral={:?} xy={:?} blacks={:?} whites={:?} photom={:?} compr={:?} cfa={:?} lin={:?} m1={:?} m2={:?}",
        r.active_area(),
        r.user_crop(),
        r.user_aspect_ratio(),
        r.output_size(),
        r.as_shot_neutral(),
        r.as_shot_white_xy(),
        r.blacks(),
        r.whites(),
        r.photometric_interpretation(),
        r.compression(),
        r.mosaic_pattern(),
        r.linearization_table().map(|t| gen::hash(&u16s(t))),
        r.colour_matrix(1),
        r.colour_matrix(2),
    );
    for i in [0, 3] {
        s += &format!(" m{i}={:?}", r.colour_matrix(i));
    }
    s
}

pub fn value_text(v: &Value) -> String {
    // integer() and rational() are asked too: they are part of what can be asked.
    format!(
        "{v:?} count={} s={:?} i={:?} r={:?} full={} short={}",
        v.count(),
        v.string(),
        v.integer(),
        v.rational(),
        v.into_string(true),
        v.into_string(false)
    )
}

fn dir_text(d: Option<&(impl Ifd + ?Sized)>) -> String {
    match d {
        None => "None".into(),
        Some(d) => {
            let mut s = format!("{:?} {:?} n={} ", d.ifd_type(), d.endian(), d.num_entries());
            for tag in 0..=0xffff_u32 {
                if d.entry(tag as u16).is_some() {
                    s += &format!("{tag:x} ");
                }
            }
            s
        }
    }
}

macro_rules! dir_more {
    ($d:expr) => {{
        let d = $d;
        let mut s = dir_text(d);
        if let Some(d) = d {
            s += &format!("id={:?} next={} primary={} mn={} ", d.id(), d.next_ifd(), d.is_primary(), d.mnote_offset);
            for tag in 0..=0xffff_u32 {
                let tag = tag as u16;
                if let Some(e) = d.entry(tag) {
                    s += &format!(
                        "[{tag:x} {} {:?} {:?} {:?} {:?} {:?} {:?} {:?}]",
                        d.tag_name(tag),
                        d.uint_value(tag),
                        d.uint_value_array(tag),
                        d.u16_value_array(tag),
                        d.int_value_array(tag),
                        d.float_value_array(tag),
                        e.string_value(),
                        e.is_inline(),
                    );
                }
            }
        }
        big_text(s)
    }};
}

fn big_text(s: String) -> String {
    if s.len() > 600 {
        let h = gen::hash(s.as_bytes());
        format!("{}... #{h:016x}", s.chars().take(500).collect::<String>())
    } else {
        s
    }
}

pub fn stage_of(s: u32) -> RenderingStage {
    match s {
        0 => RenderingStage::Raw,
        1 => RenderingStage::Linearization,
        2 => RenderingStage::Interpolation,
        _ => RenderingStage::Colour,
    }
}

fn res<T>(r: Result<T>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(v) => f(v),
        Err(e) => err(&e),
    }
}

pub fn ask(h: &RawFileHandle, q: &Q) -> String {
    match q {
        Q::Type => format!("{:?}", h.type_()),
        Q::Mime => h.mime_type().to_string(),
        Q::TypeId => res(h.type_id(), |v| format!("{v}")),
        Q::VendorId => res(h.vendor_id(), |v| format!("{v}")),
        Q::ThumbSizes => format!("{:?}", h.thumbnail_sizes()),
        Q::ThumbListed(i) => match h.thumbnail_sizes().and_then(|s| s.get(*i)) {
            Some(s) => ask(h, &Q::Thumb(*s)),
            None => "-".into(),
        },
        Q::Thumb(s) => res(h.thumbnail(*s), |t| {
            format!(
                "{}x{} {:?} bpc={} {} {:?}",
                t.width(),
                t.height(),
                t.data_type(),
                t.bpc(),
                t.data_size(),
                t.data8().map(big)
            )
        }),
        Q::Raw(skip) => res(h.raw_data(*skip), |r| raw_text(&r)),
        Q::Render(st, srgb) => res(
            h.rendered_image(
                RenderingOptions::default()
                    .with_stage(stage_of(*st))
                    .with_target(if *srgb { ColourSpace::SRgb } else { ColourSpace::Camera }),
            ),
            |r| raw_text(&r),
        ),
        Q::Meta => match h.metadata() {
            None => "None".into(),
            Some(it) => {
                let mut n = 0;
                let mut s = String::new();
                for (k, v, t) in it {
                    n += 1;
                    s += &format!("{k} {t} {}\n", value_text(&v));
                    if s.len() > 1 << 16 {
                        s = format!("#{:016x}", gen::hash(s.as_bytes()));
                    }
                }
                big_text(format!("{n}: {s}"))
            }
        },
        Q::MetaValue(k) => match h.metadata_value(k) {
            None => "None".into(),
            Some(v) => big_text(value_text(&v)),
        },
        Q::Orientation => format!("{}", h.orientation()),
        Q::Illuminant(i) => format!("{:?}", h.calibration_illuminant(*i)),
        Q::Matrix(i) => res(h.colour_matrix(*i), |m| format!("{:?} {:?}", m.0, m.1)),
        Q::MainIfd => dir_more!(h.main_ifd()),
        Q::ExifIfd => dir_more!(h.exif_ifd()),
        Q::NoteIfd => dir_more!(h.maker_note_ifd()),
        Q::Dump => {
            let mut out = vec![];
            h.dump_file(&mut out);
            big(&out)
        }
    }
}

/// Ask, a panic being an answer of its own.
pub fn ask_caught(h: &RawFileHandle, q: &Q) -> std::result::Result<String, Fail> {
    run::stage(q.name());
    let r = run::catch(AssertUnwindSafe(|| ask(h, q)));
    run::stage("");
    r
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    Memory,
    File,
    Cursor,
    Slice,
    /// From memory, with a probe that takes note of what is met.
    Probed,
}

pub fn scratch() -> std::path::PathBuf {
    std::env::var("ORVERIF_SCRATCH")
        .map(std::path::PathBuf::from)
        .unwrap_or_else(|_| std::env::temp_dir())
}

pub fn open(bytes: &[u8], hint: Option<Type>, via: Via) -> Result<RawFileHandle> {
    match via {
        Via::Memory => libopenraw::rawfile_from_memory(bytes.to_vec(), hint),
        Via::Probed => {
            let mut h = libopenraw::rawfile_from_memory(bytes.to_vec(), hint)?;
            if let Some(f) = std::rc::Rc::get_mut(&mut h) {
                f.set_probe(true);
            }
            Ok(h)
        }
        Via::Cursor => libopenraw::rawfile_from_io(Box::new(std::io::Cursor::new(bytes.to_vec())), hint),
        Via::Slice => {
            // The trait object is 'static; the bytes are released with the process.
            let b: &'static [u8] = Box::leak(bytes.to_vec().into_boxed_slice());
            libopenraw::rawfile_from_io(Box::new(std::io::Cursor::new(b)), hint)
        }
        Via::File => {
            // A name without an extension, so that only hint and content count.
            let p = scratch().join(format!("case-{}", std::process::id()));
            std::fs::write(&p, bytes).unwrap();
            let r = libopenraw::rawfile_from_file(&p, hint);
            let _ = std::fs::remove_file(&p);
            r
        }
    }
}

pub fn hint(g: &mut G, own: Option<Type>) -> Option<Type> {
    match g.below(4) {
        0 | 1 => own,
        2 => None,
        _ => Some(g.pickv(&TYPES)),
    }
}

/// Log arguments are only evaluated when something listens.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.level() == log::Level::Error {
            // Those of several lines apart
            let n = if r.args().to_string().contains('\n') { 1 << 32 } else { 1 };
            ERRORS.fetch_add(n, std::sync::atomic::Ordering::SeqCst);
        }
        // Formatting is done, as any logger would.
        use std::fmt::Write;
        struct Null;
        impl Write for Null {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = Null.write_fmt(*r.args());
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;
static ERRORS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// How many times something was wrong enough to be logged as an error
pub fn errors() -> u64 {
    ERRORS.load(std::sync::atomic::Ordering::SeqCst)
}
pub fn with_log<T>(f: impl FnOnce() -> T) -> T {
    let _ = log::set_logger(&SINK);
    log::set_max_level(log::LevelFilter::Debug);
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    log::set_max_level(log::LevelFilter::Off);
    match r {
        Ok(v) => v,
        Err(e) => std::panic::resume_unwind(e),
    }
}
