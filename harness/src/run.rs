//! Running checks: worker processes, classification, shrinking, replay, evidence.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::gen::{self, G};

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub fn fail<S: Into<String>, M: Into<String>>(sig: S, msg: M) -> R {
    Err(Fail {
        sig: sig.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !$c {
            return $crate::run::fail($sig, format!($($a)*));
        }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return $crate::run::fail($sig, format!("got {:?}, expected {:?}", a, b));
        }
    }};
    ($a:expr, $b:expr, $sig:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return $crate::run::fail($sig, format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b));
        }
    }};
}

pub type CaseFn = fn(&mut G) -> R;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

// ---------------------------------------------------------------- allocator

/// Tracks live bytes, stops runaway cases, and fills fresh memory with a pattern so that a
/// result that depends on memory nobody wrote differs from one fill to the other.
pub struct Alloc;
static LIVE: AtomicI64 = AtomicI64::new(0);
static FILL: AtomicU64 = AtomicU64::new(0);
static GUARD: AtomicBool = AtomicBool::new(false);
const SINGLE_MAX: usize = 384 << 20;
const LIVE_MAX: i64 = 2 << 30;

pub fn set_fill(b: u8) {
    FILL.store(0x100 | b as u64, Ordering::SeqCst);
}
pub fn clear_fill() {
    FILL.store(0, Ordering::SeqCst);
}
pub const EXIT_HANG: i32 = 77;
pub const EXIT_BIG: i32 = 78;
pub const EXIT_GROW: i32 = 79;

unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        note(l.size(), true);
        let p = std::alloc::System.alloc(l);
        let f = FILL.load(Ordering::Relaxed);
        if f != 0 && !p.is_null() {
            std::ptr::write_bytes(p, f as u8, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        let f = FILL.load(Ordering::Relaxed);
        if f != 0 {
            // What is read after it is released isn't what it was.
            std::ptr::write_bytes(p, !(f as u8), l.size());
            std::hint::black_box(p);
        }
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        note(l.size(), true);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            note(n - l.size(), false);
        } else {
            LIVE.fetch_sub((l.size() - n) as i64, Ordering::Relaxed);
        }
        let q = std::alloc::System.realloc(p, l, n);
        let f = FILL.load(Ordering::Relaxed);
        if f != 0 && !q.is_null() && n > l.size() {
            std::ptr::write_bytes(q.add(l.size()), f as u8, n - l.size());
        }
        q
    }
}

fn note(n: usize, fresh: bool) {
    let live = LIVE.fetch_add(n as i64, Ordering::Relaxed) + n as i64;
    if GUARD.load(Ordering::Relaxed) {
        if fresh && n > SINGLE_MAX {
            unsafe { libc::_exit(EXIT_BIG) }
        }
        if live > LIVE_MAX {
            unsafe { libc::_exit(EXIT_GROW) }
        }
    }
}

// ---------------------------------------------------------------- where a case is

/// What survives when a case ends the process: the tape so far and the query under way.
static CUR: Mutex<Option<std::fs::File>> = Mutex::new(None);
static TAPE_FILE: Mutex<Option<std::fs::File>> = Mutex::new(None);

/// Called when the input is complete: keeps the choices that made it.
pub fn note_tape(tape: &[u64]) {
    if let Ok(f) = TAPE_FILE.lock() {
        if let Some(f) = f.as_ref() {
            let s = tape_str(tape);
            let _ = f.set_len(0);
            let _ = f.write_at(s.as_bytes(), 0);
        }
    }
}

/// The query under way, for the signature of a case that ends the process.
pub fn stage(name: &str) {
    if let Ok(f) = CUR.lock() {
        if let Some(f) = f.as_ref() {
            let _ = f.write_at(format!("{name:<40}\n").as_bytes(), 64);
        }
    }
}

// ---------------------------------------------------------------- one case

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

fn src_of(file: &str) -> String {
    // Stable across checkouts: keep what follows the last "/src/" of the library or crate.
    if let Some(i) = file.find("/repo/") {
        return file[i + 6..].to_string();
    }
    if let Some(i) = file.rfind("/src/") {
        let krate = file[..i].rsplit('/').next().unwrap_or("");
        return format!("{}{}", krate, &file[i..]);
    }
    file.to_string()
}

fn normalise(msg: &str) -> String {
    let mut out = String::new();
    let mut digit = false;
    for c in msg.chars().take(160) {
        if c.is_ascii_digit() {
            if !digit {
                out.push('N');
            }
            digit = true;
        } else {
            digit = false;
            out.push(if c == '\n' || c == '\t' { ' ' } else { c });
        }
    }
    out
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location();
        let file = loc.map(|l| l.file().to_string()).unwrap_or_default();
        let line = loc.map(|l| l.line()).unwrap_or(0);
        if std::env::var("ORVERIF_BT").is_ok() {
            eprintln!("{file}:{line} {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if let Ok(mut p) = LAST_PANIC.lock() {
            *p = Some((
                format!("panic {}: {}", src_of(&file), normalise(&msg)),
                format!("panicked at {file}:{line}: {msg}"),
            ));
        }
    }));
}

/// Run one case on the current thread: a panic is a failure.
pub fn run_case(f: CaseFn, g: &mut G) -> R {
    if let Ok(mut p) = LAST_PANIC.lock() {
        *p = None;
    }
    match catch_unwind(AssertUnwindSafe(|| f(g))) {
        Ok(r) => r,
        Err(_) => {
            let (sig, msg) = LAST_PANIC
                .lock()
                .ok()
                .and_then(|mut p| p.take())
                .unwrap_or(("panic".into(), "panic".into()));
            fail(sig, msg)
        }
    }
}

/// Run `f` catching panics: the panic's signature and message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (sig, msg) = LAST_PANIC
                .lock()
                .ok()
                .and_then(|mut p| p.take())
                .unwrap_or(("panic".into(), "panic".into()));
            Err(Fail { sig, msg })
        }
    }
}

fn shrink(f: CaseFn, tape: Vec<u64>, sig: &str, limit: Duration) -> (Vec<u64>, Fail, String) {
    let start = Instant::now();
    let mut best = tape;
    let mut last = Fail {
        sig: sig.into(),
        msg: String::new(),
    };
    let mut desc = String::new();
    let try_tape = |t: Vec<u64>| -> Option<(Vec<u64>, Fail, String)> {
        let mut g = G::replay(t);
        match run_case(f, &mut g) {
            Err(e) if e.sig == sig => {
                let used = g.used();
                let mut t = std::mem::take(&mut g.tape);
                t.truncate(used);
                Some((t, e, g.describe()))
            }
            _ => None,
        }
    };
    if let Some((t, e, d)) = try_tape(best.clone()) {
        best = t;
        last = e;
        desc = d;
    } else {
        last.msg = "(did not fail again when replayed from its tape)".into();
        return (best, last, desc);
    }
    let mut improved = true;
    while improved && start.elapsed() < limit {
        improved = false;
        // Delete spans.
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && start.elapsed() < limit {
            let mut i = 0;
            while i + size <= best.len() && start.elapsed() < limit {
                let mut t = best.clone();
                t.drain(i..i + size);
                match try_tape(t) {
                    Some((t, e, d)) if t.len() < best.len() => {
                        best = t;
                        last = e;
                        desc = d;
                        improved = true;
                    }
                    _ => i += size.max(1),
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Lower values.
        for i in 0..best.len() {
            if start.elapsed() >= limit {
                break;
            }
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            let mut lo = 0_u64;
            let mut hi = best[i];
            let mut first = true;
            while lo < hi && start.elapsed() < limit {
                let mid = if first { 0 } else { lo + (hi - lo) / 2 };
                first = false;
                let mut t = best.clone();
                t[i] = mid;
                match try_tape(t) {
                    Some((t, e, d)) if t.len() <= best.len() && i < t.len() && t[i] < best[i] => {
                        hi = t[i];
                        best = t;
                        last = e;
                        desc = d;
                        improved = true;
                        if i >= best.len() {
                            break;
                        }
                    }
                    _ => lo = mid + 1,
                }
            }
        }
    }
    (best, last, desc)
}

fn case_seed(seed: u64, check: &str, sub: &str, i: u64) -> u64 {
    gen::hash(format!("{seed}/{check}/{sub}/{i}").as_bytes())
}

// ---------------------------------------------------------------- worker

static CASE_START_CPU: AtomicU64 = AtomicU64::new(0);

fn cpu_ms() -> u64 {
    unsafe {
        let mut ru: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut ru);
        (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) as u64 * 1000
            + (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) as u64 / 1000
    }
}

const CASE_CPU_MS: u64 = 60_000;

fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = CASE_START_CPU.load(Ordering::Relaxed);
        if s != 0 && cpu_ms().saturating_sub(s) > CASE_CPU_MS {
            unsafe { libc::_exit(EXIT_HANG) }
        }
    });
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('t') => o.push('\t'),
                Some('n') => o.push('\n'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}
fn tape_str(t: &[u64]) -> String {
    let mut s = String::new();
    for (i, v) in t.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{v:x}");
    }
    s
}
fn tape_parse(s: &str) -> Vec<u64> {
    s.split(',')
        .filter(|x| !x.is_empty())
        .map(|x| u64::from_str_radix(x, 16).unwrap_or(0))
        .collect()
}

fn cases(sub: &Sub, tier: &str) -> u64 {
    // For work on the checks themselves
    if let Some(n) = std::env::var("ORVERIF_CASES").ok().and_then(|s| s.parse().ok()) {
        return n;
    }
    if tier == "thorough" {
        sub.thorough
    } else {
        sub.quick
    }
}

/// Runs cases `k, k+n, k+2n...` of the flat list starting at flat index `from`.
fn worker(check: &Check, tier: &str, seed: u64, k: u64, n: u64, from: u64, out: &str, cur: &str) {
    GUARD.store(true, Ordering::SeqCst);
    watchdog();
    *TAPE_FILE.lock().unwrap() = std::fs::File::create(format!("{cur}.tape")).ok();
    *CUR.lock().unwrap() = std::fs::File::create(cur).ok();
    let cur = std::fs::OpenOptions::new().write(true).open(cur).unwrap();
    let mut outf = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(out)
        .unwrap();
    let mut flat = 0_u64;
    let mut seen_sigs: BTreeMap<String, u32> = BTreeMap::new();
    for (si, sub) in check.subs.iter().enumerate() {
        let total = cases(sub, tier);
        let mut evals = 0_u64;
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut hashes: HashSet<u64> = HashSet::new();
        let mut samples = vec![];
        for i in 0..total {
            let f = flat;
            flat += 1;
            if f % n != k || f < from {
                continue;
            }
            let _ = cur.write_at(format!("{:<63}\n", format!("{f} {si} {i}")).as_bytes(), 0);
            if let Some(t) = TAPE_FILE.lock().unwrap().as_ref() {
                let _ = t.set_len(0);
            }
            stage("");
            CASE_START_CPU.store(cpu_ms().max(1), Ordering::Relaxed);
            let mut g = G::random(case_seed(seed, check.id, sub.name, i));
            let r = run_case(sub.run, &mut g);
            CASE_START_CPU.store(0, Ordering::Relaxed);
            evals += 1;
            for l in &g.labels {
                *labels.entry(l).or_insert(0) += 1;
            }
            if g.nontrivial {
                let d = g
                    .digest
                    .unwrap_or_else(|| gen::hash(tape_str(&g.tape).as_bytes()));
                hashes.insert(d);
                if samples.len() < 2 {
                    let d = g.describe();
                    if !d.is_empty() {
                        samples.push(d);
                    }
                }
            }
            if let Err(e) = r {
                let c = seen_sigs.entry(e.sig.clone()).or_insert(0);
                *c += 1;
                if *c == 1 {
                    // Recorded first, in case shrinking runs into something that ends the process.
                    let _ = writeln!(
                        outf,
                        "F\t{}\t{}\t{}\t{}\t{}\t{}",
                        sub.name,
                        i,
                        esc(&e.sig),
                        esc(&e.msg),
                        tape_str(&g.tape),
                        esc(&g.describe())
                    );
                    let limit = if seen_sigs.len() <= 3 { 8 } else { 1 };
                    let _ = cur.write_at(format!("{:<63}\n", format!("{f} {si} {i} shrink")).as_bytes(), 0);
                    let (t, e2, d) = shrink(sub.run, g.tape.clone(), &e.sig, Duration::from_secs(limit));
                    let _ = writeln!(
                        outf,
                        "F\t{}\t{}\t{}\t{}\t{}\t{}",
                        sub.name,
                        i,
                        esc(&e.sig),
                        esc(if e2.msg.is_empty() { &e.msg } else { &e2.msg }),
                        tape_str(&t),
                        esc(&d)
                    );
                }
                if seen_sigs.len() > 40 {
                    // Enough: the check has failed.
                    break;
                }
            }
            // Keep what was done so far, so a later crash does not lose it.
            if evals % 512 == 0 {
                flush(&mut outf, sub.name, &mut evals, &mut labels, &mut hashes, &mut samples);
            }
        }
        flush(&mut outf, sub.name, &mut evals, &mut labels, &mut hashes, &mut samples);
    }
    let _ = writeln!(outf, "D");
}

fn flush(
    outf: &mut std::fs::File,
    name: &str,
    evals: &mut u64,
    labels: &mut BTreeMap<&'static str, u64>,
    hashes: &mut HashSet<u64>,
    samples: &mut Vec<String>,
) {
    let mut s = format!("E\t{name}\t{evals}\n");
    for (l, c) in labels.iter() {
        let _ = writeln!(s, "L\t{name}\t{l}\t{c}");
    }
    for x in samples.iter() {
        let _ = writeln!(s, "S\t{name}\t{}", esc(x));
    }
    let hs: Vec<u64> = hashes.iter().copied().collect();
    let _ = writeln!(s, "H\t{name}\t{}", tape_str(&hs));
    let _ = outf.write_all(s.as_bytes());
    *evals = 0;
    labels.clear();
    hashes.clear();
    samples.clear();
}

// ---------------------------------------------------------------- parent

struct Found {
    sub: String,
    index: u64,
    sig: String,
    msg: String,
    tape: Vec<u64>,
    desc: String,
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR")
        .map(std::path::PathBuf::from)
        .unwrap_or_else(|_| std::env::current_dir().unwrap())
}

/// `known: property=C01 sig=<sig>` lines.
fn known_sigs(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                let pre = format!("property={id} sig=");
                if let Some(rest) = rest.strip_prefix(&pre) {
                    let mut it = rest.splitn(2, " :: ");
                    let sig = it.next().unwrap_or("").trim().to_string();
                    let what = it.next().unwrap_or("").trim().to_string();
                    v.push((sig, what));
                }
            }
        }
    }
    v
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1)
}

/// What ended a worker that did not finish.
fn death(st: &std::process::ExitStatus) -> Option<(String, String, bool)> {
    // (signature, message, violation)
    if let Some(sig) = st.signal() {
        return Some((
            format!("killed by signal {sig}"),
            format!("the process was ended by signal {sig} (abort, stack overflow or memory fault)"),
            true,
        ));
    }
    match st.code() {
        Some(0) => None,
        Some(EXIT_HANG) => Some((
            "does not end".into(),
            format!("still running after {CASE_CPU_MS} ms of CPU time"),
            true,
        )),
        Some(EXIT_GROW) => Some((
            "memory grows without bound".into(),
            format!("more than {LIVE_MAX} bytes live"),
            true,
        )),
        Some(EXIT_BIG) => Some(("big allocation".into(), String::new(), false)),
        c => Some((format!("exit {c:?}"), format!("worker exit {c:?}"), false)),
    }
}

pub fn main(checks: Vec<Check>) {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            install_hook();
            let c = checks.into_iter().find(|c| c.id == args[2]).unwrap();
            let tier = args[3].clone();
            let nums: Vec<u64> = args[4..8].iter().map(|x| x.parse().unwrap()).collect();
            let (out, cur) = (args[8].clone(), args[9].clone());
            // What a program's main thread has.
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || worker(&c, &tier, nums[0], nums[1], nums[2], nums[3], &out, &cur))
                .unwrap()
                .join()
                .unwrap();
        }
        Some("one") => {
            // one <check> <sub> <tape file>: one case, in this process
            install_hook();
            GUARD.store(true, Ordering::SeqCst);
            watchdog();
            let c = checks.into_iter().find(|c| c.id == args[2]).unwrap();
            let name = args[3].clone();
            let tape = tape_parse(&std::fs::read_to_string(&args[4]).unwrap());
            let index = args.get(5).and_then(|s| s.parse().ok()).unwrap_or(0);
            let seed = args.get(6).and_then(|s| s.parse().ok()).unwrap_or(1);
            let code = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let sub = c.subs.iter().find(|s| s.name == name).unwrap();
                    CASE_START_CPU.store(cpu_ms().max(1), Ordering::Relaxed);
                    // A case that ended the process before its input was complete has no tape:
                    // it is made again from its seed.
                    let mut g = if tape.is_empty() {
                        G::random(case_seed(seed, c.id, sub.name, index))
                    } else {
                        G::replay(tape)
                    };
                    let r = run_case(sub.run, &mut g);
                    println!("input: {}", g.describe());
                    match r {
                        Ok(()) => {
                            println!("holds");
                            0
                        }
                        Err(e) => {
                            println!("FAILS\nsig: {}\nmsg: {}", e.sig, e.msg);
                            1
                        }
                    }
                })
                .unwrap()
                .join()
                .unwrap();
            std::process::exit(code);
        }
        Some("check") => {
            let c = checks.into_iter().find(|c| c.id == args[2]);
            match c {
                Some(c) => std::process::exit(parent(&c)),
                None => {
                    eprintln!("no such check {}", args[2]);
                    std::process::exit(2)
                }
            }
        }
        Some("replay") => {
            // replay <file>
            let s = std::fs::read_to_string(&args[2]).unwrap();
            let num = |k: &str| -> String {
                let p = format!("\"{k}\": ");
                let i = s.find(&p).unwrap() + p.len();
                s[i..].chars().take_while(|c| c.is_ascii_digit()).collect()
            };
            let get = |k: &str| -> String {
                let p = format!("\"{k}\": \"");
                let i = s.find(&p).unwrap() + p.len();
                let mut o = String::new();
                let mut it = s[i..].chars();
                while let Some(c) = it.next() {
                    match c {
                        '"' => break,
                        '\\' => o.push(it.next().unwrap()),
                        c => o.push(c),
                    }
                }
                o
            };
            let tmp = std::env::temp_dir().join(format!("orverif-tape-{}", std::process::id()));
            std::fs::write(&tmp, get("tape")).unwrap();
            let st = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["one", &get("property"), &get("sub"), tmp.to_str().unwrap(), &num("index"), &num("seed")])
                .env("ORVERIF_SCRATCH", std::env::temp_dir())
                .status()
                .unwrap();
            let _ = std::fs::remove_file(&tmp);
            match death(&st) {
                Some((sig, msg, _)) if st.code() != Some(1) => {
                    println!("FAILS\nsig: {sig}\nmsg: {msg}");
                    std::process::exit(1)
                }
                _ => std::process::exit(st.code().unwrap_or(2)),
            }
        }
        Some("list") => {
            for c in checks {
                println!("{}", c.id);
                for s in c.subs {
                    println!("  {} quick={} thorough={}", s.name, s.quick, s.thorough);
                }
            }
        }
        _ => {
            eprintln!("usage: orverif check <id> | replay <file> | list");
            std::process::exit(2)
        }
    }
}

fn one_in_process(
    check: &Check,
    sub: &str,
    tape: &[u64],
    index: u64,
    seed: u64,
    dir: &std::path::Path,
) -> std::process::ExitStatus {
    let tf = dir.join("tape");
    std::fs::write(&tf, tape_str(tape)).unwrap();
    std::process::Command::new(std::env::current_exe().unwrap())
        .args(["one", check.id, sub, tf.to_str().unwrap(), &index.to_string(), &seed.to_string()])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .env("RAYON_NUM_THREADS", "2")
        .env("ORVERIF_SCRATCH", dir)
        .status()
        .unwrap()
}

fn parent(check: &Check) -> i32 {
    let t0 = Instant::now();
    let seed = seed();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let dir = std::env::temp_dir().join(format!("orverif-{}-{}", check.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let n = std::env::var("ORVERIF_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(8_u64);
    let exe = std::env::current_exe().unwrap();

    let mut errors: Vec<String> = vec![];
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let inconclusive = AtomicU64::new(0);
    let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for k in 0..n {
            let dir = &dir;
            let exe = &exe;
            let found = &found;
            let inconclusive = &inconclusive;
            let errs = &errs;
            sc.spawn(move || {
                let out = dir.join(format!("out{k}"));
                let cur = dir.join(format!("cur{k}"));
                let mut from = 0_u64;
                let mut deaths = 0;
                loop {
                    let scratch = dir.join(format!("scratch{k}"));
                    let _ = std::fs::create_dir_all(&scratch);
                    let st = std::process::Command::new(exe)
                        .args([
                            "worker",
                            check.id,
                            tier,
                            &seed.to_string(),
                            &k.to_string(),
                            &n.to_string(),
                            &from.to_string(),
                            out.to_str().unwrap(),
                            cur.to_str().unwrap(),
                        ])
                        .env("RAYON_NUM_THREADS", "2")
                        .env("ORVERIF_SCRATCH", &scratch)
                        .stdout(std::process::Stdio::null())
                        .stderr(std::process::Stdio::null())
                        .status();
                    let st = match st {
                        Ok(st) => st,
                        Err(e) => {
                            errs.lock().unwrap().push(format!("cannot start worker: {e}"));
                            return;
                        }
                    };
                    let Some((sig, msg, violation)) = death(&st) else {
                        return;
                    };
                    if violation {
                        deaths += if sig == "does not end" { 10 } else { 1 };
                    }
                    let c = std::fs::read_to_string(&cur).unwrap_or_default();
                    let first = c.lines().next().unwrap_or("").to_string();
                    let at = c.lines().nth(1).unwrap_or("").trim().to_string();
                    let tape = tape_parse(
                        &std::fs::read_to_string(dir.join(format!("cur{k}.tape"))).unwrap_or_default(),
                    );
                    let shrinking = first.contains("shrink");
                    let v: Vec<u64> = first.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                    if v.len() < 3 {
                        errs.lock().unwrap().push(format!("worker ended: {msg}"));
                        return;
                    }
                    from = v[0] + 1;
                    if sig == "big allocation" {
                        inconclusive.fetch_add(1, Ordering::SeqCst);
                    } else if shrinking {
                        // Already recorded as a failure.
                    } else if !violation {
                        errs.lock().unwrap().push(msg.clone());
                        return;
                    } else {
                        let sub = &check.subs[v[1] as usize];
                        let mut f = found.lock().unwrap();
                        if f.len() < 40 {
                            f.push(Found {
                                sub: sub.name.into(),
                                index: v[2],
                                sig: if at.is_empty() { sig } else { format!("{sig} in {at}") },
                                msg,
                                tape,
                                desc: String::new(),
                            });
                        }
                    }
                    if deaths > 60 {
                        // Enough: the check has failed.
                        return;
                    }
                }
            });
        }
    });
    errors.extend(errs.into_inner().unwrap());
    let mut found = found.into_inner().unwrap();

    // A death is confirmed in a fresh process of its own, and its tape made smaller there.
    let mut confirmed = vec![];
    let mut seen_death: BTreeSet<String> = BTreeSet::new();
    found.sort_by_key(|f| f.tape.len());
    for mut f in found.drain(..) {
        let key = format!("{} {}", f.sub, f.sig);
        if seen_death.contains(&key) {
            continue;
        }
        let dies = |tape: &[u64]| -> bool {
            let st = one_in_process(check, &f.sub, tape, f.index, seed, &dir);
            matches!(death(&st), Some((s, _, true)) if f.sig.starts_with(&s))
        };
        if !dies(&f.tape) {
            errors.push(format!("{} case {}: {} was not reproduced", f.sub, f.index, f.sig));
            continue;
        }
        if !f.tape.is_empty() && !f.sig.starts_with("does not end") {
            let t = Instant::now();
            let mut best = f.tape.clone();
            let mut size = best.len() / 2;
            while size >= 1 && t.elapsed() < Duration::from_secs(15) {
                let mut i = 0;
                while i + size <= best.len() && t.elapsed() < Duration::from_secs(15) {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    if dies(&c) {
                        best = c;
                    } else {
                        i += size;
                    }
                }
                size /= 2;
            }
            f.tape = best;
        }
        seen_death.insert(key);
        f.desc = format!("case {} of {} at seed {}", f.index, f.sub, seed);
        confirmed.push(f);
    }

    // Merge what the workers wrote.
    let mut evals: BTreeMap<String, u64> = BTreeMap::new();
    let mut labels: BTreeMap<(String, String), u64> = BTreeMap::new();
    let mut hashes: BTreeMap<String, HashSet<u64>> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut fails: BTreeMap<(String, String), Found> = BTreeMap::new();
    for k in 0..n {
        let mut s = String::new();
        if let Ok(mut f) = std::fs::File::open(dir.join(format!("out{k}"))) {
            let mut b = vec![];
            let _ = f.read_to_end(&mut b);
            s = String::from_utf8_lossy(&b).to_string();
        }
        for l in s.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "E" => *evals.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap_or(0),
                "L" => {
                    *labels.entry((p[1].into(), p[2].into())).or_insert(0) +=
                        p[3].parse::<u64>().unwrap_or(0)
                }
                "S" => {
                    if samples.iter().filter(|s| s.starts_with(&format!("{}: ", p[1]))).count() < 2 {
                        samples.push(format!("{}: {}", p[1], unesc(p[2])));
                    }
                }
                "H" => hashes.entry(p[1].into()).or_default().extend(tape_parse(p[2])),
                "F" if p.len() >= 7 => {
                    let f = Found {
                        sub: p[1].into(),
                        index: p[2].parse().unwrap_or(0),
                        sig: unesc(p[3]),
                        msg: unesc(p[4]),
                        tape: tape_parse(p[5]),
                        desc: unesc(p[6]),
                    };
                    let key = (f.sub.clone(), f.sig.clone());
                    match fails.get(&key) {
                        // The shortest reproduction wins.
                        Some(o) if o.tape.len() < f.tape.len() => {}
                        _ => {
                            fails.insert(key, f);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mut all: Vec<Found> = fails.into_values().collect();
    all.extend(confirmed);

    let known = known_sigs(check.id);
    let mut violations = vec![];
    let mut known_seen: BTreeSet<String> = BTreeSet::new();
    let rdir = verif_dir().join("replays");
    for f in all {
        if let Some((s, _)) = known.iter().find(|(s, _)| *s == f.sig) {
            known_seen.insert(s.clone());
            continue;
        }
        let _ = std::fs::create_dir_all(&rdir);
        let h = gen::hash(format!("{}{}", f.sub, f.sig).as_bytes()) & 0xffff_ffff;
        let path = rdir.join(format!("{}-{:08x}.json", check.id, h));
        let tape = tape_str(&f.tape);
        let j = format!(
            "{{\n \"property\": {},\n \"sub\": {},\n \"index\": {},\n \"seed\": {},\n \"sig\": {},\n \"message\": {},\n \"input\": {},\n \"tape\": {}\n}}\n",
            json_str(check.id), json_str(&f.sub), f.index, seed, json_str(&f.sig), json_str(&f.msg), json_str(&f.desc), json_str(&tape));
        let _ = std::fs::write(&path, j);
        println!("VIOLATION property={} replay={}", check.id, path.display());
        println!("  sub: {}\n  sig: {}\n  msg: {}\n  input: {}", f.sub, f.sig, f.msg.chars().take(600).collect::<String>(), f.desc.chars().take(600).collect::<String>());
        violations.push(f.sig.clone());
    }
    for (s, what) in &known {
        if known_seen.contains(s) {
            println!("KNOWN-FINDING: property={} {} ({})", check.id, what, s);
        } else {
            println!("KNOWN-FINDING: property={} {} ({}; not met by this run's cases)", check.id, what, s);
        }
    }
    for e in &errors {
        eprintln!("ERROR: {e}");
    }

    // Evidence.
    let ev: u64 = evals.values().sum();
    let nt: usize = hashes.values().map(|h| h.len()).sum();
    let mut per = vec![];
    for s in &check.subs {
        let ls: Vec<String> = labels
            .iter()
            .filter(|((a, _), _)| a == s.name)
            .map(|((_, l), c)| format!("{}: {}", json_str(l), c))
            .collect();
        per.push(format!(
            "   {}: {{\"cases\": {}, \"distinct_nontrivial\": {}, \"classes\": {{{}}}}}",
            json_str(s.name),
            evals.get(s.name).copied().unwrap_or(0),
            hashes.get(s.name).map(|h| h.len()).unwrap_or(0),
            ls.join(", ")
        ));
    }
    samples.truncate(24);
    let ass: Vec<String> = check.assumptions.iter().map(|s| json_str(s)).collect();
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"inconclusive\": {},\n  \"parts\": {{\n{}\n  }},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n",
        json_str(check.id), tier, seed, ev, nt, json_str(check.rule), inconclusive.load(Ordering::SeqCst),
        per.join(",\n"),
        samples.iter().map(|s| json_str(&s.chars().take(400).collect::<String>())).collect::<Vec<_>>().join(", "),
        ass.join(", "), t0.elapsed().as_secs_f64(), violations.len());
    let edir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    let _ = std::fs::write(edir.join(format!("{}.json", check.id)), j);
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "{}: {} cases, {} distinct non-trivial, {} inconclusive, {} violation(s), {:.1}s",
        check.id, ev, nt, inconclusive.load(Ordering::SeqCst), violations.len(), t0.elapsed().as_secs_f64()
    );
    if !violations.is_empty() {
        1
    } else if !errors.is_empty() {
        2
    } else {
        0
    }
}
