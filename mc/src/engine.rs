//! Execution of explorations: worker threads over an index space, accounting of
//! memory per thread, containment of crashes, hangs and runaway allocations,
//! statistics, violations and their replay artefacts.
use crate::refdec;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;
use wadec::core::Module;
use wadec::decode_errors::DecodeModuleError;

// ---------------------------------------------------------------- allocator

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    /// largest number of live bytes the thread may reach before allocations fail
    static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
    static CAPPED: Cell<bool> = const { Cell::new(false) };
    /// the case the thread is working on, for the signal handler
    static CASE: Cell<(*const u8, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static WHAT: Cell<(*const u8, usize)> = const { Cell::new((std::ptr::null(), 0)) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) { return std::ptr::null_mut() }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) { return std::ptr::null_mut() }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // old and new block may exist at the same time
        if !grow(n) { return std::ptr::null_mut() }
        let q = unsafe { System.realloc(p, l, n) };
        if !q.is_null() { let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64)); }
        q
    }
}
fn grow(n: usize) -> bool {
    LIVE.try_with(|x| {
        let v = x.get() + n as i64;
        if n as u64 > i64::MAX as u64 || v > CAP.with(|c| c.get()) {
            CAPPED.with(|c| c.set(true));
            return false;
        }
        x.set(v);
        PEAK.with(|p| if v > p.get() { p.set(v) });
        true
    }).unwrap_or(true)
}
/// Run `f`; returns its result and the peak of live bytes it added.
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let base = LIVE.with(|x| x.get());
    let outer = PEAK.with(|p| p.replace(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    PEAK.with(|p| p.set(outer.max(peak)));
    (r, (peak - base).max(0) as u64)
}
pub fn live() -> i64 { LIVE.with(|x| x.get()) }
/// What decoding n bytes may allocate: 512 bytes a byte and 1 MiB.
pub fn mem_bound(n: usize) -> u64 { 512 * n as u64 + (1 << 20) }
/// Live bytes a thread may hold while running the code under test.
pub const WORKER_CAP: i64 = 3 << 30;
pub fn set_cap(n: i64) { CAP.with(|c| c.set(n.saturating_add(LIVE.with(|x| x.get())))) }

// ------------------------------------------------------------------ signals

#[repr(C)]
struct SigAction { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }
unsafe extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn open(path: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn _exit(code: i32) -> !;
}
static VIOLATION_LINE: OnceLock<Vec<u8>> = OnceLock::new();
static CRASH_FILE: OnceLock<Vec<u8>> = OnceLock::new();
static CRASHING: AtomicBool = AtomicBool::new(false);
/// set in processes started to probe one input: how a crash ends is their answer
static PROBE: AtomicBool = AtomicBool::new(false);
pub const PROBE_CRASHED: i32 = 71;
pub const PROBE_CAPPED: i32 = 72;

extern "C" fn on_crash(sig: i32) {
    unsafe {
        if PROBE.load(Relaxed) {
            let capped = CAPPED.try_with(|c| c.get()).unwrap_or(false);
            _exit(if sig == 6 && capped { PROBE_CAPPED } else { PROBE_CRASHED });
        }
        if CRASHING.swap(true, Relaxed) { loop { std::hint::spin_loop() } }
        let (p, n) = CASE.try_with(|c| c.get()).unwrap_or((std::ptr::null(), 0));
        if p.is_null() {
            // not inside the code under test: an error of the check
            let m = b"mc: crashed outside the code under test\n";
            write(2, m.as_ptr().cast(), m.len());
            _exit(2);
        }
        if let Some(f) = CRASH_FILE.get() {
            let fd = open(f.as_ptr().cast(), 0o1 | 0o100 | 0o1000, 0o644u32);
            if fd >= 0 {
                let mut off = 0;
                while off < n {
                    let k = write(fd, p.add(off).cast(), n - off);
                    if k <= 0 { break }
                    off += k as usize;
                }
                close(fd);
            }
        }
        let capped = CAPPED.try_with(|c| c.get()).unwrap_or(false);
        let why: &[u8] = match sig {
            6 if capped => b"# aborted: allocates far beyond the bytes supplied\n",
            6 => b"# aborted (SIGABRT)\n",
            11 => b"# crashed (SIGSEGV: stack exhausted or memory corrupted)\n",
            _ => b"# crashed by a signal\n",
        };
        write(1, why.as_ptr().cast(), why.len());
        let (w, wn) = WHAT.try_with(|c| c.get()).unwrap_or((std::ptr::null(), 0));
        if !w.is_null() { write(1, w.cast(), wn); write(1, b"\n".as_ptr().cast(), 1); }
        if let Some(l) = VIOLATION_LINE.get() { write(1, l.as_ptr().cast(), l.len()); }
        _exit(1);
    }
}
pub fn install_handlers(probe: bool) {
    PROBE.store(probe, Relaxed);
    for sig in [4, 6, 7, 8, 11] {
        let a = SigAction { handler: on_crash as extern "C" fn(i32) as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
        unsafe { sigaction(sig, &a, std::ptr::null_mut()); }
    }
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}");
        if CASE.with(|c| c.get().0.is_null()) { eprintln!("mc: {m}") }
        PANIC_MSG.with(|p| *p.borrow_mut() = m);
    }));
}
thread_local! { static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

/// Run `f`, the code under test on `case`: a crash is then attributed to it.
/// `Err` carries the message of a panic.
pub fn guarded<T>(case: &[u8], f: impl FnOnce() -> T) -> Result<T, String> {
    let old = CASE.with(|c| c.replace((case.as_ptr(), case.len())));
    let r = catch_unwind(AssertUnwindSafe(f));
    CASE.with(|c| c.set(old));
    r.map_err(|_| PANIC_MSG.with(|p| std::mem::take(&mut *p.borrow_mut())))
}

// --------------------------------------------------------------------- runs

pub struct Violation { pub bytes: Vec<u8>, pub what: String, pub key: String }

#[derive(Default, Clone)]
pub struct Fam { pub evals: u64, pub accepted: u64, pub rejected: u64, pub wall: f64, pub note: String }

pub struct Run {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub t0: Instant,
    pub threads: usize,
    pub stop: AtomicBool,
    pub viol: Mutex<Vec<Violation>>,
    pub known: Vec<(String, String, String)>,
    pub known_hit: Mutex<BTreeMap<String, String>>,
    pub fams: Mutex<Vec<(String, Fam)>>,
    pub samples: Mutex<Vec<String>>,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub extra: Mutex<BTreeMap<String, u64>>,
    pub notes: Mutex<Vec<String>>,
    distinct: &'static [AtomicU64],
    pub distinct_n: AtomicU64,
    /// report decodes that differ from the model (others only use it to find their way)
    pub verdict: bool,
    /// judge rejections too (section, positions, value)
    pub diag: bool,
    /// print rejections in every way
    pub total: bool,
    /// hold the memory of every decode against the bound
    pub mem: bool,
    /// differences from the model count only if a fresh process does not show them
    pub alone: bool,
    pub confirmed: AtomicU64,
    pub lite: AtomicBool,
    pub done: Mutex<BTreeMap<String, Vec<(Vec<u8>, Vec<u32>)>>>,
    pub worst: Mutex<(f64, String)>,
    pub worst_small: AtomicU64,
    hang: Mutex<Vec<std::sync::Arc<Slot>>>,
}
pub struct Slot { start: AtomicU64, ptr: AtomicUsize, len: AtomicUsize }

pub static VERIF: OnceLock<String> = OnceLock::new();
pub fn verif() -> &'static str { VERIF.get_or_init(|| std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())) }

pub fn hash(b: &[u8]) -> u64 {
    let mut h: u64 = 0x9E37_79B9_7F4A_7C15 ^ (b.len() as u64).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0xFF51_AFD7_ED55_8CCD);
        h ^= h >> 29;
    }
    let mut t = 0u64;
    for (i, &x) in it.remainder().iter().enumerate() { t |= (x as u64) << (8 * i) }
    h = (h ^ t).wrapping_mul(0xC4CE_B9FE_1A85_EC53);
    h ^= h >> 32;
    h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h ^ (h >> 31)
}

impl Run {
    pub fn new(id: &str, thorough: bool, seed: u64) -> Self {
        let bits: u64 = if thorough { 1 << 33 } else { 1 << 29 };
        // zeroed pages straight from the system
        let words: &'static mut [u64] = vec![0u64; (bits / 64) as usize].leak();
        let distinct: &'static [AtomicU64] = unsafe { std::slice::from_raw_parts(words.as_ptr().cast(), words.len()) };
        let dir = format!("{}/replays", verif());
        let _ = std::fs::create_dir_all(&dir);
        let crash = format!("{dir}/{id}-crash.wasm");
        let _ = VIOLATION_LINE.set(format!("VIOLATION property={id} replay={crash}\n").into_bytes());
        let _ = CRASH_FILE.set([crash.as_bytes(), b"\0"].concat());
        Run {
            id: id.into(), thorough, seed, t0: Instant::now(),
            threads: std::thread::available_parallelism().map_or(4, |n| n.get()).min(16),
            stop: AtomicBool::new(false), viol: Mutex::default(), known: vec![], known_hit: Mutex::default(),
            fams: Mutex::default(), samples: Mutex::default(), states: 0.into(), transitions: 0.into(), traces: 0.into(),
            extra: Mutex::default(), notes: Mutex::default(), distinct, distinct_n: 0.into(), verdict: !matches!(id, "C12" | "C13" | "C14" | "C15" | "C16" | "C18"), diag: id == "C17", total: id == "C14", mem: id == "C15", alone: id == "C16", confirmed: 0.into(), lite: false.into(), done: Mutex::default(), worst: Mutex::default(), worst_small: 0.into(), hang: Mutex::default(),
        }
    }
    pub fn thorough(&self) -> bool { self.thorough && !self.lite() }
    /// run as part of another property's check: with reduced scopes
    pub fn lite(&self) -> bool { self.lite.load(Relaxed) }
    pub fn shrink(&self) -> usize { if self.lite() { 8 } else { 1 } }
    pub fn q<T>(&self, quick: T, thorough: T) -> T { if self.thorough() { thorough } else { quick } }
    /// three scopes: reduced, quick, thorough
    pub fn q3<T>(&self, lite: T, quick: T, thorough: T) -> T { if self.lite() { lite } else { self.q(quick, thorough) } }
    pub fn note(&self, s: impl Into<String>) { self.notes.lock().unwrap().push(s.into()) }
    pub fn count(&self, k: &str, n: u64) { *self.extra.lock().unwrap().entry(k.into()).or_default() += n }
    pub fn failed(&self) -> bool { self.stop.load(Relaxed) }

    /// Run `f` for every index in `0..n` on all threads.
    pub fn par(&self, name: &str, n: u64, chunk: u64, f: impl Fn(&mut W, u64) + Sync) {
        if self.failed() { return }
        let t = Instant::now();
        let next = AtomicU64::new(0);
        let tot = Mutex::new(Fam::default());
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(n.div_ceil(chunk).max(1) as usize) {
                std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, || {
                    let slot = std::sync::Arc::new(Slot { start: 0.into(), ptr: 0.into(), len: 0.into() });
                    self.hang.lock().unwrap().push(slot.clone());
                    let mut w = W::new(self, slot.clone());
                    loop {
                        let i = next.fetch_add(chunk, Relaxed);
                        if i >= n || self.stop.load(Relaxed) { break }
                        for k in i..(i + chunk).min(n) {
                            f(&mut w, k);
                            if self.stop.load(Relaxed) { break }
                        }
                    }
                    let mut t = tot.lock().unwrap();
                    t.evals += w.evals;
                    t.accepted += w.accepted;
                    t.rejected += w.rejected;
                    self.traces.fetch_add(w.evals, Relaxed);
                    self.hang.lock().unwrap().retain(|s| !std::sync::Arc::ptr_eq(s, &slot));
                }).unwrap();
            }
        });
        let mut fam = tot.into_inner().unwrap();
        fam.wall = t.elapsed().as_secs_f64();
        if std::env::var("MC_TRACE").is_ok() {
            eprintln!("{:<40} evals {:>10} acc {:>10} rej {:>10} {:.2}s", name, fam.evals, fam.accepted, fam.rejected, fam.wall);
        }
        let mut fams = self.fams.lock().unwrap();
        match fams.iter_mut().find(|(n, _)| n == name) {
            Some((_, o)) => { o.evals += fam.evals; o.accepted += fam.accepted; o.rejected += fam.rejected; o.wall += fam.wall }
            None => fams.push((name.into(), fam)),
        }
    }
    /// Enumerate a list of cases built beforehand.
    pub fn cases(&self, name: &str, cases: &[Vec<u8>]) {
        self.par(name, cases.len() as u64, 16, |w, i| { w.check(&cases[i as usize]); });
    }
    pub fn one(&self, name: &str, f: impl Fn(&mut W) + Sync) { self.par(name, 1, 1, |w, _| f(w)) }

    /// A violation; `key` identifies it against the known findings.
    pub fn violation(&self, bytes: &[u8], what: String, key: &str) {
        if let Some((_, k, text)) = self.known.iter().find(|(p, k, _)| *p == self.id && k == key && !key.is_empty()) {
            self.known_hit.lock().unwrap().insert(k.clone(), text.clone());
            return;
        }
        let mut v = self.viol.lock().unwrap();
        v.push(Violation { bytes: bytes.to_vec(), what, key: key.into() });
        self.stop.store(true, Relaxed);
    }

    /// Watch for cases that do not end.
    pub fn watchdog(&self) {
        let this: &'static Run = unsafe { &*(self as *const Run) };
        std::thread::spawn(move || {
            let limit: u64 = std::env::var("MC_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if this.thorough { 600 } else { 90 });
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let now = this.t0.elapsed().as_secs() + 1;
                for s in this.hang.lock().unwrap().iter() {
                    let st = s.start.load(Relaxed);
                    if st != 0 && now > st + limit {
                        let p = s.ptr.load(Relaxed) as *const u8;
                        let n = s.len.load(Relaxed);
                        let bytes = unsafe { std::slice::from_raw_parts(p, n) }.to_vec();
                        println!("# does not end: one input has been decoding for more than {limit} s");
                        let path = this.save(&bytes, "hang", "decoding does not terminate");
                        println!("VIOLATION property={} replay={}", this.id, path);
                        unsafe { _exit(1) }
                    }
                }
            }
        });
    }
    pub fn save(&self, bytes: &[u8], tag: &str, what: &str) -> String {
        let base = format!("{}/replays/{}-{}-{:016x}", verif(), self.id, tag, hash(bytes));
        let _ = std::fs::write(format!("{base}.wasm"), bytes);
        let _ = std::fs::write(format!("{base}.txt"), format!("property {}\n{}\ninput ({} bytes): {}\nreplay: mc replay {base}.wasm\n", self.id, what, bytes.len(), hex(bytes, 4096)));
        format!("{base}.wasm")
    }

    pub fn finish(&self, level: &str, rule: &str) -> i32 {
        let wall = self.t0.elapsed().as_secs_f64();
        let fams = self.fams.lock().unwrap();
        let mut cov = String::new();
        let evals: u64 = fams.iter().map(|f| f.1.evals).sum();
        let _ = write!(cov, "\"distinct_nontrivial\": {}, \"rule\": {}", self.distinct_n.load(Relaxed), js(rule));
        let acc: u64 = fams.iter().map(|f| f.1.accepted).sum();
        let rej: u64 = fams.iter().map(|f| f.1.rejected).sum();
        let _ = write!(cov, ", \"accepted\": {acc}, \"rejected\": {rej}");
        if level == "model_checking" {
            let _ = write!(cov, ", \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}", self.states.load(Relaxed), self.transitions.load(Relaxed), self.traces.load(Relaxed));
        } else {
            let _ = write!(cov, ", \"evaluations\": {evals}");
        }
        for (k, v) in self.extra.lock().unwrap().iter() { let _ = write!(cov, ", {}: {v}", js(k)); }
        let _ = write!(cov, ", \"families\": {{");
        for (i, (n, f)) in fams.iter().enumerate() {
            let _ = write!(cov, "{}{}: {{\"evaluations\": {}, \"accepted\": {}, \"rejected\": {}, \"wall_s\": {:.3}}}", if i > 0 { ", " } else { "" }, js(n), f.evals, f.accepted, f.rejected, f.wall);
        }
        let _ = write!(cov, "}}, \"bounds\": [{}]", self.notes.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        let samples = self.samples.lock().unwrap();
        let _ = write!(cov, ", \"samples\": [{}]", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        let viol = self.viol.lock().unwrap();
        let _ = write!(cov, ", \"violations\": {}, \"known_findings\": {}", viol.len(), self.known_hit.lock().unwrap().len());
        let ev = format!("{{\"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": {}, \"wall_s\": {:.3}, \"coverage\": {{{cov}}}}}\n",
            js(&self.id), if self.thorough { "thorough" } else { "quick" }, self.seed, js(level), wall);
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
        if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", verif(), self.id), ev) {
            eprintln!("mc: cannot write evidence: {e}");
            return 2;
        }
        for (k, text) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {k}: {text}", self.id);
        }
        println!("{}: {} evaluations ({} accepted, {} rejected), {} distinct, {} states, {} transitions, {:.1} s", self.id, evals, acc, rej,
            self.distinct_n.load(Relaxed), self.states.load(Relaxed), self.transitions.load(Relaxed), wall);
        if let Some(v) = viol.iter().min_by_key(|v| (v.bytes.len(), v.bytes.clone())) {
            println!("# {}", v.what);
            let path = self.save(&v.bytes, "case", &v.what);
            println!("VIOLATION property={} replay={}", self.id, path);
            return 1;
        }
        0
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn hex(b: &[u8], max: usize) -> String {
    let mut s = String::new();
    for x in b.iter().take(max) { let _ = write!(s, "{x:02x}"); }
    if b.len() > max { s.push_str("..."); }
    s
}

// ------------------------------------------------------------------ workers

pub struct W<'a> {
    pub run: &'a Run,
    slot: std::sync::Arc<Slot>,
    pub evals: u64,
    pub accepted: u64,
    pub rejected: u64,
    ticks: u32,
    pub buf: Vec<u8>,
}
impl<'a> W<'a> {
    fn new(run: &'a Run, slot: std::sync::Arc<Slot>) -> Self {
        W { run, slot, evals: 0, accepted: 0, rejected: 0, ticks: 0, buf: vec![] }
    }
    /// Count one evaluation of `bytes`; returns whether it is new.
    pub fn seen(&mut self, bytes: &[u8], nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            let h = hash(bytes);
            let d = self.run.distinct;
            let i = h as usize % (d.len() * 64);
            let bit = 1u64 << (i % 64);
            if d[i / 64].load(Relaxed) & bit == 0 && d[i / 64].fetch_or(bit, Relaxed) & bit == 0 {
                let n = self.run.distinct_n.fetch_add(1, Relaxed);
                if n.is_power_of_two() && n < 1 << 26 && bytes.len() < 300 {
                    self.run.samples.lock().unwrap().push(hex(bytes, 300));
                }
            }
        }
    }
    pub fn watch<T>(&mut self, bytes: &[u8], f: impl FnOnce() -> T) -> Result<T, String> {
        self.ticks = self.ticks.wrapping_add(1);
        self.slot.ptr.store(bytes.as_ptr() as usize, Relaxed);
        self.slot.len.store(bytes.len(), Relaxed);
        self.slot.start.store(self.run.t0.elapsed().as_secs() + 1, Relaxed);
        set_cap(WORKER_CAP);
        let r = guarded(bytes, f);
        set_cap(i64::MAX);
        self.slot.start.store(0, Relaxed);
        r
    }
    pub fn decode(&mut self, bytes: &[u8]) -> Result<Result<Module, DecodeModuleError>, String> {
        if !self.run.mem { return self.watch(bytes, || wadec::decode_module(bytes)) }
        let before = live();
        let (r, peak) = measured(|| self.watch(bytes, || wadec::decode_module(bytes)));
        let locals: u64 = match &r { Ok(Ok(m)) => m.funcs.iter().map(|f| f.locals.len() as u64).sum(), _ => 0 };
        let bound = mem_bound(bytes.len()) + 64 * locals;
        if peak > bound {
            self.fail(bytes, format!("allocates {peak} bytes for an input of {} bytes (bound {bound})", bytes.len()));
        }
        if bytes.len() <= 256 { self.run.worst_small.fetch_max(peak.saturating_sub(64 * locals), Relaxed); }
        if bytes.len() > 10_000 {
            let ratio = peak as f64 / bytes.len() as f64;
            let mut w = self.run.worst.lock().unwrap();
            if ratio > w.0 { *w = (ratio, format!("{} bytes for {} input bytes: {}", peak, bytes.len(), hex(bytes, 40))) }
        }
        drop(r);
        let left = live() - before;
        if left > 0 {
            // once may be a lazily built table; twice is a leak
            let before = live();
            for _ in 0..2 { drop(self.watch(bytes, || drop(wadec::decode_module(bytes)))); }
            if live() - before > 0 { self.fail(bytes, format!("{left} bytes stay allocated after the result has been dropped")) }
        }
        self.watch(bytes, || wadec::decode_module(bytes))
    }
    pub fn fail(&mut self, bytes: &[u8], what: impl Into<String>) { self.run.violation(bytes, what.into(), "") }

    /// The central comparison: verdict and module (or diagnosis) of the code
    /// under test against the reference model. Returns whether it was accepted.
    pub fn case(&mut self, bytes: &[u8]) -> bool { self.check(bytes) }
    pub fn check(&mut self, bytes: &[u8]) -> bool {
        let want = refdec::decode(bytes);
        self.check_against(bytes, &want)
    }
    pub fn check_against(&mut self, bytes: &[u8], want: &Result<Module, refdec::Rej>) -> bool {
        if let Err(r) = want && r.leaf == refdec::Leaf::BeyondBound { return false }
        if self.run.alone { return crate::special::alone(self, bytes, want) }
        self.seen(bytes, want.as_ref().map_or_else(|r| r.at > 10, |_| true));
        let got = match self.decode(bytes) {
            Ok(g) => g,
            Err(_) if !self.run.verdict && !self.run.total => return false,
            Err(p) => { self.fail(bytes, format!("panics: {p}")); return false }
        };
        match (want, &got) {
            (Ok(m), Ok(g)) => {
                self.accepted += 1;
                if self.run.verdict && let Some(d) = crate::eq::diff(m, g) { self.fail(bytes, format!("accepted, but decoded differently: {d}")) }
                true
            }
            (Err(r), Err(e)) => {
                self.rejected += 1;
                if self.run.total && let Err(p) = self.watch(bytes, || crate::diag::print_all(e)) {
                    self.fail(bytes, format!("printing the error panics: {p}"));
                }
                if self.run.diag && let Err(d) = self.watch(bytes, || crate::diag::judge(r, e, bytes)).unwrap_or_else(Err) {
                    self.fail(bytes, d);
                }
                false
            }
            (Ok(_), Err(e)) if !self.run.verdict => {
                self.rejected += 1;
                if self.run.total && let Err(p) = self.watch(bytes, || crate::diag::print_all(e)) { self.fail(bytes, format!("printing the error panics: {p}")) }
                false
            }
            (Err(_), Ok(_)) if !self.run.verdict => { self.accepted += 1; true }
            (Ok(_), Err(e)) => { self.fail(bytes, format!("rejects a well-formed module: {}", crate::diag::chain(e).join(": "))); false }
            (Err(r), Ok(_)) => { self.fail(bytes, format!("accepts a malformed module: {r:?}")); false }
        }
    }
}
