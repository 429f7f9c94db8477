//! Properties that are not (only) about one input and its result: faults and
//! schedules of the byte source, totality, memory, isolation, the command line.

use crate::dev::{self, Alpha, single};
use crate::engine::{Run, W, hex, live};
use crate::gens::*;
use crate::pda;
use crate::probe::{Out, probe};
use crate::refdec::Root;
use crate::wasm::*;
use std::io::{self, ErrorKind, Read};
use std::sync::atomic::Ordering::Relaxed;
use wadec::core::Module;
use wadec::decode_errors::DecodeModuleError;

/// One complete module for every state of a section.
pub fn reps(states: &[State], root: Root) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for (p, _) in states {
        let mut b = p.clone();
        if pda::complete(root, &mut b, 64) {
            let mut o = vec![];
            pda::frame(root, &b, &mut o);
            out.push(o);
        }
    }
    out.sort();
    out.dedup();
    out
}
/// Complete modules that together visit every state of every section.
fn all_reps(run: &Run, list: u32) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for id in [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 0] { v.extend(reps(&pda_structure(run, Root::Sec(id), list, 0), Root::Sec(id))) }
    v.extend(reps(&pda(run, Root::Func, 1, 0, 0), Root::Func));
    for i in instrs1() { v.push(code(&i)) }
    for i in instrs_marked() { v.push(code(&i)) }
    for b in nested(&[0xFC, 8, 1, 2], 2) { v.push(code(&b)) }
    for c in 0..EXPR_CONTEXTS { v.push(expr_in(c, &[0x41, 0x80, 0x01, 0x02, 0x40, 0x01, 0x0B])) }
    v.sort();
    v.dedup();
    v
}
/// Malformed modules of many sorts (one for each leaf and place the PDA finds is
/// too many here): the corpus with single bytes replaced.
fn bad_modules(step: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for m in small_corpus() {
        for p in (0..m.len()).step_by(step) {
            for x in [0x00u8, 0x05, 0x0B, 0x40, 0x63, 0x7F, 0x80, 0xFF] {
                let mut b = m.clone();
                b[p] = x;
                if b != m { v.push(b) }
            }
        }
    }
    v.retain(|b| crate::refdec::decode(b).is_err());
    v
}

pub type Outcome = Result<Module, String>;
pub fn outcome(r: Result<Module, DecodeModuleError>) -> Outcome { r.map_err(|e| format!("{} [{e:?}]", crate::diag::chain(&e).join(": "))) }
pub fn same(a: &Outcome, b: &Outcome) -> Option<String> {
    match (a, b) {
        (Ok(x), Ok(y)) => crate::eq::diff(x, y),
        (Err(x), Err(y)) => (x != y).then(|| format!("error {y} instead of {x}")),
        (Ok(_), Err(y)) => Some(format!("error {y} instead of a module")),
        (Err(x), Ok(_)) => Some(format!("a module instead of the error {x}")),
    }
}
fn clean(w: &mut W, b: &[u8]) -> Option<Outcome> {
    match w.watch(b, || outcome(wadec::decode_module(b))) {
        Ok(o) => Some(o),
        // C14 is about that
        Err(_) => None,
    }
}

// --------------------------------------------------------------------- C12

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::BrokenPipe, ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::Unsupported, ErrorKind::OutOfMemory,
    ErrorKind::StorageFull, ErrorKind::NotSeekable, ErrorKind::StaleNetworkFileHandle, ErrorKind::HostUnreachable, ErrorKind::NetworkUnreachable, ErrorKind::NetworkDown,
    ErrorKind::QuotaExceeded, ErrorKind::FileTooLarge, ErrorKind::ResourceBusy, ErrorKind::Deadlock, ErrorKind::IsADirectory, ErrorKind::NotADirectory, ErrorKind::ReadOnlyFilesystem,
    ErrorKind::DirectoryNotEmpty, ErrorKind::ExecutableFileBusy, ErrorKind::TooManyLinks, ErrorKind::ArgumentListTooLong, ErrorKind::Unsupported,
];
const MSG: &str = "injected fault 5e1f";

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault { Once, Always, AfterInterrupt }
/// what a failing read returns: an error that is only its kind, one with a
/// message, an error number of the system, one that wraps another error
#[derive(Clone, Copy, Debug)]
enum What { Kind(ErrorKind), Text(ErrorKind), Os(i32), Wraps(ErrorKind, ErrorKind) }
impl What {
    fn make(self) -> io::Error {
        match self {
            What::Kind(k) => k.into(),
            What::Text(k) => io::Error::new(k, MSG),
            What::Os(n) => io::Error::from_raw_os_error(n),
            What::Wraps(k, k2) => io::Error::new(k, io::Error::new(k2, MSG)),
        }
    }
}
struct Faulty<'a> { b: &'a [u8], pos: usize, calls: usize, at: usize, what: What, how: Fault, per: usize, hit: u32 }
impl Read for Faulty<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.calls;
        self.calls += 1;
        if self.how == Fault::AfterInterrupt && n == self.at { return Err(interruption(n)) }
        let due = match self.how { Fault::Once => n == self.at, Fault::Always => n >= self.at, Fault::AfterInterrupt => n == self.at + 1 };
        if due {
            self.hit += 1;
            return Err(self.what.make());
        }
        let k = buf.len().min(self.per).min(self.b.len() - self.pos);
        buf[..k].copy_from_slice(&self.b[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}
/// An interruption, in one of the forms it comes in.
fn interruption(n: usize) -> io::Error {
    match n % 3 { 0 => ErrorKind::Interrupted.into(), 1 => io::Error::from_raw_os_error(4), _ => io::Error::new(ErrorKind::Interrupted, MSG) }
}
/// Every read call of the decode of `b` fails in turn.
fn faults(w: &mut W, b: &[u8], kinds: &[ErrorKind], hows: &[Fault], pers: &[usize]) {
    let whats: Vec<[What; 2]> = kinds.iter().map(|&k| [What::Text(k), What::Kind(k)]).collect();
    faults_of(w, b, &whats, hows, pers);
}
/// The same with the system's errors and errors that wrap others.
fn other_faults(w: &mut W, b: &[u8], all: bool) {
    use ErrorKind::*;
    let mut whats: Vec<[What; 2]> = if all { (1..=133).filter(|&n| n != 4).map(|n| [What::Os(n); 2]).collect() } else { [5, 11, 32, 104, 110].map(|n| [What::Os(n); 2]).to_vec() };
    for (k, k2) in [(Other, UnexpectedEof), (Other, Interrupted), (UnexpectedEof, Other), (InvalidData, UnexpectedEof), (BrokenPipe, Interrupted), (WouldBlock, WouldBlock)] { whats.push([What::Wraps(k, k2); 2]) }
    faults_of(w, b, &whats, &[Fault::Once, Fault::Always], &[usize::MAX, 1]);
}
fn faults_of(w: &mut W, b: &[u8], whats: &[[What; 2]], hows: &[Fault], pers: &[usize]) {
    for &per in pers {
        for &how in hows {
            for (ki, ws) in whats.iter().enumerate() {
                for at in 0.. {
                    let what = ws[((at + ki) % 4 == 3) as usize];
                    let mut f = Faulty { b, pos: 0, calls: 0, at, what, how, per, hit: 0 };
                    let r = match w.watch(b, || wadec::decode_module(&mut f)) {
                        Ok(r) => r,
                        Err(p) => { w.fail(b, format!("panics when read call {at} fails ({what:?}, {how:?}): {p}")); return }
                    };
                    if f.hit == 0 { break }
                    w.evals += 1;
                    w.rejected += 1;
                    let case = format!("read call {at} (byte {}, {per} bytes a read) fails with {what:?}, {how:?}", f.pos);
                    match r {
                        Ok(_) => { w.fail(b, format!("{case}: decoding succeeds")); return }
                        Err(e) => {
                            let ch = crate::diag::chain(&e);
                            let want = what.make().to_string();
                            if !ch.iter().any(|l| l.contains(&want)) { w.fail(b, format!("{case}: the error does not carry it: {}", ch.join(": "))); return }
                        }
                    }
                }
            }
        }
    }
}
/// An interruption at every read call (once, or `n` times) changes nothing.
fn interruptions(w: &mut W, b: &[u8]) {
    let Some(c) = clean(w, b) else { return };
    for per in [usize::MAX, 1] {
        for n in [1usize, 3] {
            for at in 0.. {
                struct I<'a> { b: &'a [u8], pos: usize, calls: usize, at: usize, n: usize, per: usize, hit: bool }
                impl Read for I<'_> {
                    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                        let c = self.calls;
                        self.calls += 1;
                        if c >= self.at && c < self.at + self.n { self.hit = true; return Err(interruption(c)) }
                        let k = buf.len().min(self.per).min(self.b.len() - self.pos);
                        buf[..k].copy_from_slice(&self.b[self.pos..self.pos + k]);
                        self.pos += k;
                        Ok(k)
                    }
                }
                let mut r = I { b, pos: 0, calls: 0, at, n, per, hit: false };
                let o = match w.watch(b, || outcome(wadec::decode_module(&mut r))) {
                    Ok(o) => o,
                    Err(p) => { w.fail(b, format!("panics when read call {at} is interrupted: {p}")); return }
                };
                if !r.hit { break }
                w.evals += 1;
                if let Some(d) = same(&c, &o) { w.fail(b, format!("read call {at} interrupted {n} times: {d}")); return }
            }
        }
    }
}

pub fn c12(run: &Run) {
    use Fault::*;
    let mut corpus = small_corpus();
    corpus.extend((0..run.q(8, 13)).map(|i| order_modules(0b1_0110_1101_1011u32.rotate_left(i) & 0x1FFF)));
    run.par("every read call, every error kind", corpus.len() as u64, 1, |w, i| {
        let b = &corpus[i as usize];
        w.seen(b, true);
        faults(w, b, KINDS, &[Once, Always], &[usize::MAX, 1]);
        faults(w, b, &KINDS[..3], &[AfterInterrupt], &[usize::MAX, 1, 3]);
        other_faults(w, b, i % 8 == 0 || w.run.thorough());
        interruptions(w, b);
    });
    let fx = fixtures();
    run.par("every read call, fixtures", fx.len() as u64, 1, |w, i| {
        w.seen(&fx[i as usize], true);
        let n = fx[i as usize].len();
        if n > 3000 && !w.run.thorough() { return }
        faults(w, &fx[i as usize], &KINDS[..2], &[Once, Always], &[usize::MAX, 1, 7]);
        interruptions(w, &fx[i as usize]);
    });
    let bad = bad_modules(run.q(2, 1));
    run.par("every read call, malformed modules", bad.len() as u64, 4, |w, i| {
        w.seen(&bad[i as usize], true);
        faults(w, &bad[i as usize], &KINDS[..2], &[Once, Always], &[usize::MAX, 1]);
    });
    let rs = all_reps(run, run.q(1, 2));
    run.par("every read call, every grammar state", rs.len() as u64, 16, |w, i| {
        let b = &rs[i as usize];
        w.seen(b, true);
        faults(w, b, &KINDS[..2], &[Once, Always], &[usize::MAX, 1]);
        if w.run.thorough() { faults(w, b, &KINDS[2..], &[Once, AfterInterrupt], &[usize::MAX]); interruptions(w, b) }
    });
    run.count("grammar states with faults", rs.len() as u64);
    // large vectors, where reads are split
    let big: Vec<Vec<u8>> = vec![
        module(&[custom(&[b'n'; 5000], &[7; 100_000])]),
        module(&[sec(11, &cat(&[&[1, 1], &name(&[9; 70_000])]))]),
        module(&[sec(2, &cat(&[&[1], &name(&[b'a'; 20_000]), &name(&[b'b'; 9_000]), &[0, 0]]))]),
        module(&[sec(3, &rep(3000, &[0])), sec(10, &rep(3000, &[2, 0, 0x0B]))]),
    ];
    run.par("every read call, long vectors", big.len() as u64, 1, |w, i| {
        w.seen(&big[i as usize], true);
        faults(w, &big[i as usize], &KINDS[..2], &[Once, Always], if i < 3 { &[usize::MAX, 1000] } else { &[usize::MAX] });
    });
    run.note("faults: one read call of every decode fails, once or from there on, or right after an interruption; reads of 1, 3, 7 or all bytes; errors of every kind with and without a message, every error number of the system, errors that wrap others");
}

// --------------------------------------------------------------------- C13

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act { Full, One, AllButOne, Half, Three, Interrupt, Interrupt3 }
#[derive(Debug)]
pub struct Sched<'a> { b: &'a [u8], pos: usize, calls: usize, base: Act, devs: [(usize, Act); 2], intr: u32 }
impl Read for Sched<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.calls;
        let act = self.devs.iter().find(|d| d.0 == n).map_or(self.base, |d| d.1);
        let m = buf.len().min(self.b.len() - self.pos);
        if act == Act::Interrupt3 && self.intr < 2 { self.intr += 1; return Err(interruption(self.intr as usize)) }
        self.intr = 0;
        self.calls += 1;
        let k = match act {
            Act::Interrupt | Act::Interrupt3 => return Err(interruption(n)),
            Act::Full => m,
            Act::One => m.min(1),
            Act::AllButOne => if m > 1 { m - 1 } else { m },
            Act::Half => m.div_ceil(2),
            Act::Three => m.min(3),
        };
        buf[..k].copy_from_slice(&self.b[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}
const NONE: (usize, Act) = (usize::MAX, Act::Full);
/// `devs` deviations from each base schedule, at every read call
fn schedules(w: &mut W, b: &[u8], bases: &[Act], devs: u32) {
    let Some(c) = clean(w, b) else { return };
    let acts = [Act::Interrupt, Act::One, Act::Full, Act::AllButOne, Act::Interrupt3];
    for &base in bases {
        let run1 = |w: &mut W, devs: [(usize, Act); 2]| -> Option<usize> {
            let mut s = Sched { b, pos: 0, calls: 0, base, devs, intr: 0 };
            let o = match w.watch(b, || outcome(wadec::decode_module(&mut s))) {
                Ok(o) => o,
                Err(p) => { w.fail(b, format!("panics under the schedule {s:?}: {p}")); return None }
            };
            w.evals += 1;
            w.run.transitions.fetch_add(s.calls as u64, Relaxed);
            if let Some(d) = same(&c, &o) { w.fail(b, format!("base {base:?}, deviations {devs:?}: {d}")); return None }
            Some(s.calls)
        };
        let Some(n) = run1(w, [NONE, NONE]) else { return };
        if devs == 0 { continue }
        for i in 0..n {
            for a in acts {
                if a == base { continue }
                let Some(m) = run1(w, [(i, a), NONE]) else { return };
                if devs == 1 { continue }
                for j in i + 1..m {
                    for a2 in acts {
                        if a2 != base && run1(w, [(i, a), (j, a2)]).is_none() { return }
                    }
                }
            }
        }
    }
}
/// Modules whose sections have thousands of bytes, of every section and sort of content.
fn large_modules(run: &Run) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for n in if run.thorough() { vec![5_000usize, 9_000, 17_000, 70_000, 300_000] } else { vec![9_000, 70_000] } {
        let k = |item: usize| n / item;
        v.extend([
            module(&[custom(b"n", &vec![7; n]), custom(b"m", b"xy")]), module(&[custom(&vec![b'n'; n], b"c")]),
            module(&[sec(1, &rep(k(3), &[0x60, 0, 0]))]), module(&[sec(1, &cat(&[&[1, 0x60], &rep(n, &[0x7F]), &[0]]))]), module(&[sec(1, &cat(&[&[1, 0x4E], &rep(k(3), &[0x5E, 0x78, 1])]))]),
            module(&[sec(2, &rep(k(6), &[1, b'a', 1, b'b', 0, 0]))]), module(&[sec(2, &cat(&[&[1], &name(&vec![b'a'; n]), &[0, 0, 0]]))]),
            module(&[sec(3, &rep(k(1), &[5])), sec(10, &rep(k(1), &[2, 0, 0x0B]))]), module(&[sec(4, &rep(k(3), &[0x70, 0, 1]))]), module(&[sec(5, &rep(k(3), &[1, 0, 1]))]),
            module(&[sec(6, &rep(k(5), &[0x7F, 0, 0x41, 1, 0x0B]))]), module(&[sec(7, &rep(k(4), &[1, b'e', 0, 0]))]), module(&[sec(9, &rep(k(4), &[1, 0, 1, 2]))]), module(&[sec(9, &cat(&[&[1, 1, 0], &rep(n, &[3])]))]),
            module(&[sec(9, &cat(&[&[1, 5, 0x70], &rep(k(3), &[0xD2, 1, 0x0B])]))]), module(&[sec(12, &[2]), sec(11, &cat(&[&[2, 1], &name(&vec![9; n]), &[1, 1, 8]]))]), module(&[sec(12, &u(k(3) as u64)), sec(11, &rep(k(3), &[1, 1, 7]))]),
            module(&[sec(13, &rep(k(2), &[0, 1]))]), code(&vec![0x01; n]), code(&cat(&[&[0x0E], &rep(n, &[1]), &[0]])), func_module(&cat(&[&rep(k(2), &[1, 0x7F]), &[0x0B]])),
        ]);
    }
    v
}
/// One deviation at the read calls near the start, the end, and multiples of
/// 4096 bytes, from the base schedule.
fn edges(w: &mut W, b: &[u8], base: Act) {
    let Some(c) = clean(w, b) else { return };
    struct At<'a> { b: &'a [u8], pos: usize, log: Vec<usize>, base: Act, dev: (usize, Act) }
    impl Read for At<'_> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            let n = self.log.len();
            let act = if self.dev.0 == n { self.dev.1 } else { self.base };
            self.log.push(self.pos);
            let m = buf.len().min(self.b.len() - self.pos);
            let k = match act {
                Act::Interrupt | Act::Interrupt3 => return Err(interruption(n)),
                Act::Full => m, Act::One => m.min(1), Act::AllButOne => if m > 1 { m - 1 } else { m }, Act::Half => m.div_ceil(2), Act::Three => m.min(3),
            };
            buf[..k].copy_from_slice(&self.b[self.pos..self.pos + k]);
            self.pos += k;
            Ok(k)
        }
    }
    let run1 = |w: &mut W, dev: (usize, Act)| -> Option<Vec<usize>> {
        let mut s = At { b, pos: 0, log: vec![], base, dev };
        let o = match w.watch(b, || outcome(wadec::decode_module(&mut s))) {
            Ok(o) => o,
            Err(p) => { w.fail(b, format!("panics with base {base:?}, deviation {dev:?}: {p}")); return None }
        };
        w.evals += 1;
        w.run.transitions.fetch_add(s.log.len() as u64, Relaxed);
        if let Some(d) = same(&c, &o) { w.fail(b, format!("base {base:?}, deviation {dev:?}: {d}")); return None }
        Some(s.log)
    };
    let Some(log) = run1(w, NONE) else { return };
    let n = log.len();
    let near = if w.run.thorough() { 40 } else { 14 };
    let step = if w.run.thorough() || b.len() < 20_000 { 4096 } else { 32768 };
    let mut at: Vec<usize> = (0..n.min(near)).chain(n.saturating_sub(near)..n).collect();
    for k in 1..=b.len() / step {
        let i = log.partition_point(|&p| p < k * step);
        at.extend(i.saturating_sub(1)..(i + 2).min(n));
        let i = log.partition_point(|&p| p < k * step + 8);
        at.extend(i.saturating_sub(2)..(i + 3).min(n));
    }
    at.sort_unstable();
    at.dedup();
    for i in at { for a in [Act::Interrupt, Act::One, Act::AllButOne, Act::Full] { if a != base && run1(w, (i, a)).is_none() { return } } }
}
struct Cuts<'a> { b: &'a [u8], pos: usize, from: usize, mask: u64 }
impl Read for Cuts<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut k = 0;
        while k < buf.len() && self.pos < self.b.len() {
            buf[k] = self.b[self.pos];
            k += 1;
            self.pos += 1;
            if self.pos > self.from && self.pos - self.from <= 64 && self.mask >> (self.pos - self.from - 1) & 1 == 1 { break }
        }
        Ok(k)
    }
}
fn chunkings(w: &mut W, b: &[u8], from: usize) {
    let Some(c) = clean(w, b) else { return };
    for mask in 0..1u64 << (b.len() - from - 1) {
        let r = Cuts { b, pos: 0, from, mask };
        let o = match w.watch(b, || outcome(wadec::decode_module(r))) {
            Ok(o) => o,
            Err(p) => { w.fail(b, format!("panics: {p}")); return }
        };
        w.evals += 1;
        if let Some(d) = same(&c, &o) { w.fail(b, format!("delivered in pieces ending at {:?}: {d}", (0..64).filter(|i| mask >> i & 1 == 1).map(|i| from + i + 1).collect::<Vec<_>>())); return }
    }
}
/// the readers of the standard library
fn std_readers(w: &mut W, b: &[u8]) {
    let Some(c) = clean(w, b) else { return };
    let n = b.len();
    type Mk<'a> = Box<dyn Fn() -> Box<dyn Read + 'a> + 'a>;
    let mut mk: Vec<(String, Mk)> = vec![
        ("cursor".into(), Box::new(move || Box::new(io::Cursor::new(b.to_vec())))),
        ("deque".into(), Box::new(move || { let mut q = std::collections::VecDeque::with_capacity(n + 3); for i in 0..3 { q.push_back(i) } for _ in 0..3 { q.pop_front(); } q.extend(b); Box::new(q) })),
        ("take".into(), Box::new(move || Box::new(io::Read::take(b.chain(io::repeat(0x0B)), n as u64)))),
    ];
    for cap in [1usize, 2, 7, 64, 8192] { mk.push((format!("buffered {cap}"), Box::new(move || Box::new(io::BufReader::with_capacity(cap, b))))) }
    for p in [0, 1, 4, 8, 9, 10, 11, 12, n / 2, n] { let p = p.min(n); mk.push((format!("chain at {p}"), Box::new(move || Box::new(b[..p].chain(&b[p..]))))) }
    for (nm, m) in &mk {
        let mut r = m();
        let o = match w.watch(b, || outcome(wadec::decode_module(&mut r))) {
            Ok(o) => o,
            Err(p) => { w.fail(b, format!("panics with reader {nm}: {p}")); return }
        };
        w.evals += 1;
        if let Some(d) = same(&c, &o) { w.fail(b, format!("reader {nm}: {d}")); return }
    }
}

pub fn c13(run: &Run) {
    use Act::*;
    let bases = [Full, One, Half, Three, AllButOne];
    let mut corpus = small_corpus();
    corpus.extend(fixtures());
    corpus.push(module(&[custom(&[b'n'; 300], &[7; 10_000])]));
    corpus.push(module(&[sec(11, &cat(&[&[2, 1], &name(&[9; 9000]), &[1], &name(&[1; 40])]))]));
    corpus.push(module(&[sec(2, &cat(&[&[1], &name("é".repeat(700).as_bytes()), &name(&[b'b'; 600]), &[0, 0]]))]));
    run.par("readers of the standard library", corpus.len() as u64, 1, |w, i| { w.seen(&corpus[i as usize], true); std_readers(w, &corpus[i as usize]); });
    run.par("one deviation, corpus", corpus.len() as u64, 1, |w, i| {
        let b = &corpus[i as usize];
        w.seen(b, true);
        let d = if b.len() > 2500 && !w.run.thorough() { 0 } else { 1 };
        schedules(w, b, &bases, d);
    });
    let bad = bad_modules(run.q(3, 1));
    run.par("one deviation, malformed", bad.len() as u64, 4, |w, i| { w.seen(&bad[i as usize], true); schedules(w, &bad[i as usize], if w.run.thorough() { &bases } else { &[Full, One] }, 1); });
    let rs = all_reps(run, 1);
    run.states.fetch_add(0, Relaxed);
    run.par("one deviation, every grammar state", rs.len() as u64, 8, |w, i| { w.seen(&rs[i as usize], true); schedules(w, &rs[i as usize], if w.run.thorough() { &bases } else { &[Full, One] }, 1); });
    // sections of many bytes, in long vectors and in many small elements
    let large = large_modules(run);
    run.par("one deviation, large sections", large.len() as u64 * 5, 1, |w, i| {
        let b = &large[(i / 5) as usize];
        w.seen(b, true);
        edges(w, b, [Full, One, Half, Three, AllButOne][(i % 5) as usize]);
    });
    // truncated ones: the end of input in every state
    run.par("one deviation, cut short", rs.len() as u64, 8, |w, i| {
        let b = &rs[i as usize];
        let c = &b[..b.len() - 1];
        w.seen(c, true);
        schedules(w, c, &[Full, One], 0);
        std_readers(w, c);
    });
    let mut two: Vec<Vec<u8>> = (0..14u8).filter(|&i| !matches!(i, 3 | 10)).map(|i| module(&[sec(i, &rich(i))])).collect();
    two.push(module(&[sec(3, &[1, 0]), sec(10, &[1, 8, 1, 1, 0x63, 0x6E, 0x41, 1, 0x1A, 0x0B]), custom(b"n", b"xy")]));
    two.push(module(&[sec(1, &[1, 0x5F, 1, 0x64, 0x6E, 0]), custom(b"", b"")]));
    two.retain(|m| m.len() < run.q(80, 400));
    let pick: Vec<Vec<u8>> = rs.iter().filter(|m| m.len() <= 30).step_by(run.q(97, 11)).cloned().collect();
    two.extend(pick);
    run.par("two deviations", two.len() as u64, 1, |w, i| { w.seen(&two[i as usize], true); schedules(w, &two[i as usize], if w.run.thorough() { &bases } else { &[Full, One] }, 2); });
    // all chunkings
    let max = run.q(10, 15);
    let mut short: Vec<Vec<u8>> = rs.iter().filter(|m| m.len() - 8 <= max).cloned().collect();
    let cut: Vec<Vec<u8>> = short.iter().filter(|m| m.len() > 10).map(|m| m[..m.len() - 1].to_vec()).collect();
    short.extend(cut);
    short.push(module(&[sec(1, &[1, 0x5F, 1, 0x64, 0x6E, 0])]));
    short.push(module(&[sec(4, &[1, 0x40, 0, 0x63, 0x6F, 0, 1, 0x0B])]));
    run.par("all chunkings", short.len() as u64, 4, |w, i| { w.seen(&short[i as usize], true); chunkings(w, &short[i as usize], 8); });
    run.one("all chunkings with the preamble", |w| {
        for m in [module(&[]), module(&[sec(1, &[0])]), module(&[custom(b"ab", b"c")]), module(&[sec(8, &[0x81, 0])])] { w.seen(&m, true); chunkings(w, &m, 0); }
    });
    run.note("sections of 9000 and 70000 bytes (thorough: up to 300000): one deviation at the read calls near start, end and multiples of 4096 (32768) bytes");
    run.note(format!("schedules: 5 (2) base sizes, up to 2 deviations (interrupted once or three times, 1 byte, all, all but one) at every read call; all chunkings of modules with up to {max} bytes after the preamble"));
}

// --------------------------------------------------------------------- C14

pub fn c14(run: &Run) {
    crate::checks::umbrella(run);
    for id in 0..14 { pda_structure(run, Root::Sec(id), run.q(1, 2), run.q(1, 3)); }
    pda(run, Root::Func, 1, run.q(0, 1), run.q(0, 2));
    pda(run, Root::Sec(1), run.q(1, 2), 0, 0);
    let wide = Alpha::wide();
    for id in 1..14u8 { dev::explore(run, "deviations", Root::Sec(id), &[], &wide, 2); dev::explore(run, "deviations", Root::Sec(id), &[1], &wide, 2); }
    dev::explore(run, "deviations", Root::Func, &[], &wide, 2);
    let mut corpus = small_corpus();
    corpus.extend(fixtures().into_iter().filter(|m| m.len() < run.q(200, 5000)));
    mutate1(run, "one byte changed", &corpus, 0);
    // every integer with every boundary value: conversions
    let mut encs: Vec<Vec<u8>> = vec![];
    for v in bounds(64) { encs.push(u(v)); encs.push(s(v as i64)); encs.push(s(-(v as i64 & i64::MAX))) }
    encs.sort();
    encs.dedup();
    for (root, ps) in all_num_sites(run) { dev::at_sites(run, "integers", root, &ps, &encs); }
    // all short inputs
    run.par("all short inputs", 1 << 24, 4096, |w, i| {
        let b = (i as u32).to_be_bytes();
        if !w.run.thorough() && b[1] > 14 { return }
        w.check(&cat(&[&PRE, &b[1..]]));
    });
    // nesting and length, on an 8 MB stack
    let opens: [(&str, &[u8], &[u8]); 7] = [
        ("block", &[0x02, 0x40], &[0x0B]), ("loop", &[0x03, 0x7F], &[0x0B]), ("if", &[0x04, 0x40], &[0x0B]), ("else", &[0x04, 0x40, 0x05], &[0x0B]),
        ("try", &[0x1F, 0x40, 0], &[0x0B]), ("typed", &[0x02, 0x63, 0x6E], &[0x0B]), ("mixed", &[0x02, 0x40, 0x04, 0x7F, 0x01, 0x05, 0x03, 0x00, 0x1F, 0x40, 1, 2, 0], &[0x0B, 0x0B, 0x0B, 0x0B]),
    ];
    let mut cases: Vec<(String, Vec<u8>)> = vec![];
    for d in [100usize, 500, 1000] {
        for (n, o, c) in opens {
            let d = if n == "mixed" { d / 4 } else { d };
            for ctx in 0..EXPR_CONTEXTS {
                if ctx == 0 || d == 1000 || w_all(run) {
                    cases.push((format!("{n} x {d} in context {ctx}"), expr_in(ctx, &cat(&[&o.repeat(d), &c.repeat(d)]))));
                }
            }
            // unclosed, broken inside, surplus
            cases.push((format!("{n} x {d} unclosed"), code(&o.repeat(d))));
            cases.push((format!("{n} x {d} broken"), code(&cat(&[&o.repeat(d), &[0xFF]]))));
            cases.push((format!("{n} x {d} surplus else"), code(&cat(&[&o.repeat(d), &c.repeat(d), &[0x05]]))));
        }
    }
    let deep = cases.len();
    for (n, o, c) in opens { cases.push((format!("{n} x 100000"), code(&cat(&[&o.repeat(100_000), &c.repeat(100_000)])))) }
    let flat0 = cases.len();
    let k = run.q(300_000usize, 3_000_000);
    let flat: Vec<(&str, Vec<u8>)> = vec![
        ("nops", code(&[0x01].repeat(k))), ("consts", code(&[0x41, 0x00].repeat(k))), ("empty blocks", code(&[0x02, 0x40, 0x0B].repeat(k))),
        ("conditionals", code(&[0x04, 0x40, 0x05, 0x0B].repeat(k))), ("br_table", code(&cat(&[&[0x0E], &rep(k, &[0]), &[0]]))), ("select types", code(&cat(&[&[0x1C], &rep(k, &[0x7F])]))),
        ("catches", code(&cat(&[&[0x1F, 0x40], &rep(k, &[2, 0]), &[0x0B]]))), ("types", module(&[sec(1, &rep(k, &[0x60, 0, 0]))])), ("one recursive group", module(&[sec(1, &cat(&[&[1, 0x4E], &rep(k, &[0x5F, 0])]))])),
        ("params", module(&[sec(1, &cat(&[&[1, 0x60], &rep(k, &[0x7F]), &[0]]))])), ("supertypes", module(&[sec(1, &cat(&[&[1, 0x50], &rep(k, &[0]), &[0x5F, 0]]))])), ("imports", module(&[sec(2, &rep(k, &[0, 0, 0, 0]))])),
        ("functions", module(&[sec(3, &rep(k, &[0])), sec(10, &rep(k, &[2, 0, 0x0B]))])), ("tables", module(&[sec(4, &rep(k, &[0x70, 0, 0]))])), ("memories", module(&[sec(5, &rep(k, &[0, 0]))])),
        ("globals", module(&[sec(6, &rep(k, &[0x7F, 0, 0x0B]))])), ("exports", module(&[sec(7, &rep(k, &[0, 0, 0]))])), ("elements", module(&[sec(9, &rep(k, &[1, 0, 0]))])),
        ("element indices", module(&[sec(9, &cat(&[&[1, 1, 0], &rep(k, &[0])]))])), ("element expressions", module(&[sec(9, &cat(&[&[1, 5, 0x70], &rep(k, &[0x0B])]))])), ("data", module(&[sec(11, &rep(k, &[1, 0]))])),
        ("data bytes", module(&[sec(11, &cat(&[&[1, 1], &name(&vec![0; k])]))])), ("tags", module(&[sec(13, &rep(k, &[0, 0]))])), ("custom sections", cat(&[&PRE, &custom(b"", b"").repeat(k)])),
        ("custom contents", module(&[custom(b"", &vec![0; k])])), ("long name", module(&[custom(&vec![b'a'; k], b"")])), ("runs of locals", func_module(&cat(&[&rep(k, &[0, 0x7F]), &[0x0B]]))),
        ("locals", func_module(&cat(&[&[1], &u(k as u64), &[0x7F, 0x0B]]))), ("last element bad", module(&[sec(3, &cat(&[&u(k as u64 + 1), &vec![0; k], &[0x80]]))])), ("last instruction bad", code(&cat(&[&[0x01].repeat(k), &[0xFF]]))),
    ];
    for (n, b) in flat { cases.push((format!("{k} {n}"), b)) }
    let outs: Vec<Vec<u8>> = cases.iter().map(|c| c.1.clone()).collect();
    let chunks: Vec<usize> = (0..outs.len()).step_by(8).collect();
    run.par("nesting and length on an 8 MB stack", chunks.len() as u64, 1, |w, i| {
        let lo = chunks[i as usize];
        let hi = (lo + 8).min(outs.len());
        for (j, o) in (lo..hi).zip(probe(&outs[lo..hi], 120)) {
            let (nm, b) = &cases[j];
            w.seen(b, true);
            match o {
                Out::Accepted => w.accepted += 1,
                Out::Rejected(_) => w.rejected += 1,
                // refusing such depths would do, exhausting the stack does not
                Out::Crashed if j >= deep && j < flat0 => w.run.violation(b, format!("{nm}: exhausts an 8 MB stack"), &format!("nesting/{}", nm.split(' ').next().unwrap())),
                o => w.fail(b, format!("{nm}: {o:?}")),
            }
        }
    });
    run.note("child processes: blocks nested 100, 500, 1000 and 100000 deep in every expression context, flat inputs of 300000 (thorough: 3000000) elements of every sort");
}
fn w_all(run: &Run) -> bool { run.thorough() }

// --------------------------------------------------------------------- C15

pub fn c15(run: &Run) {
    crate::checks::umbrella(run);
    // every length, count and size with hostile values
    let hostile: Vec<u64> = vec![u32::MAX as u64, u32::MAX as u64 - 1, 1 << 31, (1 << 31) - 1, 1 << 30, 1 << 28, 1 << 27, 1 << 26, 1 << 25, 1 << 24, 1 << 22, 1 << 20, 65536, 65535];
    let mut a = Alpha { bytes: vec![], nums: vec![], lens: hostile.iter().map(|&v| u(v)).collect(), subs: vec![], ops: vec![], raw: vec![], consts: vec![] };
    a.lens.extend([u(1), u(2)]);
    a.bytes = single([0x00, 0x01, 0x02, 0x03, 0x05, 0x06, 0x40, 0x4E, 0x4F, 0x50, 0x5E, 0x5F, 0x60, 0x63, 0x6F, 0x7B]);
    a.nums = vec![u(1), u(2), u(4), u(5), u(6), u(7), u(u32::MAX as u64)];
    a.ops = single([0x0E, 0x1C, 0x1F, 0x02, 0x04, 0x20, 0x41, 0x43, 0xFB, 0xFC, 0xFD]);
    a.subs = vec![u(8), u(12), u(13)];
    for id in 1..14u8 { dev::explore(run, "hostile lengths", Root::Sec(id), &[], &a, run.q(2, 3)); }
    dev::explore(run, "hostile lengths", Root::Func, &[], &a, run.q(2, 3));
    for st in [&[1u8, 0x60][..], &[1, 0x4E, 1], &[1, 0x50], &[1, 0x4E, 2, 0x5F]] { dev::explore(run, "hostile lengths", Root::Sec(1), st, &a, run.q(2, 3)); }
    for st in [&[1u8, 4][..], &[1, 0], &[1, 1, 0], &[1, 5, 0x70], &[1, 5, 0x70, 1], &[1, 6], &[1, 7]] { dev::explore(run, "hostile lengths", Root::Sec(9), st, &a, 2); }
    // every list site of the grammar, every context
    let sites: Vec<(Root, Vec<Vec<u8>>)> = {
        let mut v = vec![];
        for id in 0..14 { let st = pda_structure(run, Root::Sec(id), 2, 0); v.push((Root::Sec(id), len_sites(&st))); }
        let st = pda(run, Root::Func, 2, 0, 0);
        v.push((Root::Func, len_sites(&st)));
        v
    };
    let encs: Vec<Vec<u8>> = hostile.iter().flat_map(|&v| [u(v), cat(&[&u(v), &[0]]), cat(&[&u(v), &[0; 40]]), cat(&[&u(v), &[0x7F; 40]]), cat(&[&u(v), &[0x0B; 40]])]).collect();
    for (root, ps) in &sites { dev::at_sites(run, "every length", *root, ps, &encs); }
    run.count("length sites", sites.iter().map(|s| s.1.len() as u64).sum());
    // sizes of sections and code entries, with names and contents behind them
    run.par("section sizes", 14 * hostile.len() as u64, 1, |w, i| {
        let (id, v) = ((i % 14) as u8, hostile[(i / 14) as usize]);
        for tail in [vec![], vec![0], vec![1], vec![0x80], rich(id), cat(&[&u(v)]), cat(&[&u(v), &[0; 100]]), cat(&[&[1], &u(v)]), cat(&[&[1], &u(v), &[0; 9]]), cat(&[&[1], &u(v), &u(v)]), cat(&[&[1], &u(v), &u(v), &u(v)]), vec![0; 5000]] {
            w.check(&cat(&[&PRE, &[id], &u(v), &tail]));
            w.check(&cat(&[&PRE, &custom(b"a", b"b"), &[id], &u(v), &tail]));
            w.check(&module(&[sec(id, &tail)]));
        }
    });
    // hostile counts after many small, good definitions
    let prefix: Vec<(u8, Vec<u8>)> = vec![
        (1, vec![0x60, 0, 0]), (1, vec![0x4E, 1, 0x5F, 0]), (2, vec![0, 0, 0, 0]), (3, vec![0]), (4, vec![0x70, 0, 0]), (5, vec![0, 0]), (6, vec![0x7F, 0, 0x0B]), (7, vec![0, 0, 0]), (9, vec![1, 0, 1, 0]),
        (9, vec![5, 0x70, 1, 0x0B]), (10, vec![2, 0, 0x0B]), (10, vec![6, 0, 0x0E, 1, 0, 0, 0x0B]), (11, vec![1, 1, 0]), (13, vec![0, 0]),
    ];
    run.par("hostile count behind many elements", prefix.len() as u64 * hostile.len() as u64, 1, |w, i| {
        let (id, e) = &prefix[i as usize % prefix.len()];
        let v = hostile[i as usize / prefix.len()];
        for n in [1usize, 10, 1000, 20_000] {
            let body = cat(&[&u(v), &e.repeat(n)]);
            w.check(&module(&[sec(*id, &body)]));
            w.check(&module(&[if *id == 10 { sec(3, &cat(&[&u(v), &vec![0; n]])) } else { vec![] }, sec(*id, &body)]));
            w.check(&module(&[if *id == 10 { sec(3, &rep(n, &[0])) } else { vec![] }, sec(*id, &body)]));
        }
    });
    // large, well-formed: the constant of the linear bound
    let n = run.q(100_000usize, 1_000_000);
    let large: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = prefix.iter().filter(|(id, _)| *id != 10 && *id != 3).map(|(id, e)| module(&[sec(*id, &rep(n, e))])).collect();
        v.push(module(&[sec(3, &rep(n, &[0])), sec(10, &rep(n, &[2, 0, 0x0B]))]));
        v.push(cat(&[&PRE, &custom(b"", b"").repeat(n)]));
        v.push(module(&[custom(b"", &vec![1; n])]));
        v.push(module(&[custom(&vec![b'a'; n], b"")]));
        v.push(module(&[sec(11, &cat(&[&[1, 1], &name(&vec![0; n])]))]));
        v.push(module(&[sec(1, &cat(&[&[1, 0x60], &rep(n, &[0x7F]), &rep(n, &[0x7E])]))]));
        v.push(module(&[sec(1, &cat(&[&[1, 0x5F], &rep(n, &[0x78, 0])]))]));
        v.push(module(&[sec(9, &cat(&[&[1, 1, 0], &rep(n, &[0])]))]));
        v.push(module(&[sec(9, &cat(&[&[1, 5, 0x70], &rep(n, &[0x0B])]))]));
        v.push(module(&[sec(9, &cat(&[&[1, 5, 0x70], &rep(n, &[0x01, 0x0B])]))]));
        for i in instrs1() { if i.len() < 4 { v.push(code(&i.repeat(n / 4))) } }
        for b in [&[0x02, 0x40, 0x0B][..], &[0x02, 0x40, 0x01, 0x0B], &[0x04, 0x40, 0x05, 0x0B], &[0x04, 0x40, 0x01, 0x05, 0x01, 0x0B], &[0x1F, 0x40, 1, 2, 0, 0x0B], &[0x0E, 1, 0, 0], &[0x1C, 1, 0x7F], &[0x1C, 0]] { v.push(code(&b.repeat(n / 4))) }
        v.push(code(&cat(&[&[0x0E], &rep(n, &[0]), &[0]])));
        v.push(code(&cat(&[&[0x1C], &rep(n, &[0x7F])])));
        v.push(code(&cat(&[&[0x1F, 0x40], &rep(n, &[2, 0]), &[0x0B]])));
        v.push(code(&cat(&[&[0x02, 0x40].repeat(1500), &[0x01].repeat(1500), &[0x0B].repeat(1500)])));
        v.push(code(&[&[0x02, 0x40][..], &[0x01; 10]].concat().repeat(1500).into_iter().chain([0x0B].repeat(1500)).collect::<Vec<_>>()));
        v.push(func_module(&cat(&[&rep(n, &[1, 0x7F]), &[0x0B]])));
        v.push(func_module(&cat(&[&rep(n, &[0, 0x7F]), &[0x0B]])));
        v
    };
    run.par("large well-formed inputs", large.len() as u64, 1, |w, i| {
        let m = &large[i as usize];
        w.check(m);
        // broken at the end
        w.check(&m[..m.len() - 1]);
    });
    pda(run, Root::Func, 1, 0, 0);
    for id in 0..14 { pda_structure(run, Root::Sec(id), 1, 1); }
    // run-length encoded locals (see known_findings.txt)
    let locals: Vec<(&str, Vec<u8>)> = vec![
        ("locals-expansion/one run of 2^32-1 i32", func_module(&cat(&[&[1], &u(u32::MAX as u64), &[0x7F, 0x0B]]))),
        ("locals-expansion/runs of 2^31 and 2^31-1", func_module(&cat(&[&[2], &u(1 << 31), &[0x7F], &u((1 << 31) - 1), &[0x7E, 0x0B]]))),
        ("locals-expansion/three functions with 2^28 locals each", module(&[sec(3, &[3, 0, 0, 0]), sec(10, &list(&vec![entry(&cat(&[&[1], &u(1 << 28), &[0x70, 0x0B]])); 3]))])),
    ];
    run.one("expanded locals (child process)", |w| {
        for (k, b) in &locals {
            w.seen(b, true);
            match &probe(std::slice::from_ref(b), 120)[0] {
                Out::Accepted | Out::Rejected(_) => w.accepted += 1,
                Out::Capped => w.run.violation(b, format!("needs more than 3 GB for {} bytes", b.len()), k),
                o => w.fail(b, format!("{o:?}")),
            }
        }
    });
    leaks(run);
    let worst = run.worst.lock().unwrap();
    run.note(format!("bound: 512 bytes for every input byte + 1 MiB (+ 64 bytes for every local: see known findings); worst ratio of large inputs {:.1}: {}; most for an input of up to 256 bytes: {}", worst.0, worst.1, run.worst_small.load(Relaxed)));
}
/// Nothing stays allocated: decodes of many different inputs, all of whose
/// names, indices, constants and contents are new.
fn leaks(run: &Run) {
    let n = run.q(6_000u64, 60_000);
    type F = fn(u64, &[u8]) -> Vec<u8>;
    // `t` is a text that has not occurred before, `i` a number
    let kinds: Vec<(&str, F)> = vec![
        ("custom name", |_, t| module(&[custom(t, b"x")])),
        ("custom contents", |_, t| module(&[custom(b"c", t)])),
        ("import module", |i, t| module(&[sec(2, &cat(&[&[1], &name(t), &name(b"i"), &[0], &u(i)]))])),
        ("import item", |i, t| module(&[sec(2, &cat(&[&[1], &name(b"m"), &name(t), &[0], &u(i)]))])),
        ("export", |i, t| module(&[sec(7, &cat(&[&[1], &name(t), &[(i % 5) as u8], &u(i)]))])),
        ("data", |i, t| module(&[sec(11, &cat(&[&[2, 0, 0x41], &s(i as i64), &[0x0B], &name(t), &[1], &name(t)]))])),
        ("types", |i, t| module(&[sec(1, &cat(&[&[2, 0x60], &list(&t.iter().take(20).map(|b| vec![0x7C + b % 4]).collect::<Vec<_>>()), &[1, 0x64], &s(i as i64), &[0x50, 1], &u(i), &[0x5F, 1, 0x63], &s(i as i64), &[1]]))])),
        ("tables", |i, _| module(&[sec(4, &cat(&[&[2, 0x64], &s(i as i64), &[1], &u(i), &u(i * 3), &[0x40, 0, 0x70, 0], &u(i), &[0xD2], &u(i), &[0x0B]]))])),
        ("memories", |i, _| module(&[sec(5, &cat(&[&[2, 0], &u(i), &[5], &u(i), &u(i * 5)]))])),
        ("globals", |i, _| module(&[sec(6, &cat(&[&[1, 0x63], &s(i as i64), &[1, 0x42], &s(i as i64 * 77), &[0x44], &(i as f64).to_le_bytes(), &[0x0B]]))])),
        ("elements", |i, t| module(&[sec(9, &cat(&[&[2, 6], &u(i), &[0x41], &s(i as i64), &[0x0B, 0x70, 1, 0xD2], &u(i), &[0x0B, 1, 0], &list(&t.iter().map(|&b| u(b as u64 * i)).collect::<Vec<_>>())]))])),
        ("tags", |i, _| module(&[sec(13, &cat(&[&[1, 0], &u(i)])), sec(8, &u(i)), sec(12, &u(0))])),
        ("code", |i, t| code(&cat(&[&[0x41], &s(i as i64), &[0x02], &s(i as i64), &[0x10], &u(i), &[0x0B, 0x0E], &list(&t.iter().map(|&b| u(b as u64 * i)).collect::<Vec<_>>()), &u(i), &[0x28, 2], &u(i), &[0x1F, 0x40, 1, 0], &u(i), &u(i), &[0x0B, 0x04, 0x40, 0x05, 0x43], &(i as f32).to_le_bytes(), &[0x0B, 0xFC, 8], &u(i), &u(i), &[0xFB, 24, 0], &u(i), &s(i as i64), &s(i as i64), &[0xFD, 12], &[i as u8; 16]]))),
        ("locals", |i, _| func_module(&cat(&[&[2], &u(i % 90), &[0x64], &s(i as i64), &u(i % 7), &[0x63], &s(i as i64), &[0x0B]]))),
        ("functions", |i, _| module(&[sec(3, &cat(&[&[1], &u(i)])), sec(10, &[1, 2, 0, 0x0B])])),
        ("bad custom name", |_, t| module(&[custom(&cat(&[t, &[0xFF]]), b"x")])),
        ("bad import name", |_, t| module(&[sec(2, &cat(&[&[2], &name(t), &name(t), &[0, 0], &name(&cat(&[t, &[0x80]])), &name(t), &[0, 0]]))])),
        ("bad export name", |_, t| module(&[sec(7, &cat(&[&[2], &name(t), &[0, 0], &name(&cat(&[t, &[0xC0]])), &[0, 0]]))])),
        ("bad import kind", |i, t| module(&[sec(2, &cat(&[&[1], &name(t), &name(t), &[5 + (i % 200) as u8]]))])),
        ("name cut short", |_, t| module(&[sec(0, &cat(&[&u(t.len() as u64 + 1), t]))])),
        ("bad instruction", |i, t| code(&cat(&[&[0x41], &s(i as i64), &[0x0E], &list(&t.iter().map(|&b| u(b as u64 * i)).collect::<Vec<_>>()), &u(i), &[0xFB], &u(31 + i)]))),
        ("bad section", |i, t| module(&[custom(t, t), sec(1, &cat(&[&[2, 0x60, 0, 1, 0x64], &s(i as i64), &[0x61]]))])),
        ("counts", |i, t| module(&[custom(t, t), sec(3, &cat(&[&[1], &u(i)])), sec(12, &u(i))])),
        ("repeated section", |i, t| module(&[custom(t, t), sec(8, &u(i)), sec(8, &u(i))])),
    ];
    let texts = |k: u64, i: u64| -> Vec<u8> { (0..32u64).map(|j| b'a' + (((k * n + i) >> (j % 13 * 2)) % 26 + j) as u8 % 26).chain(format!("{k}/{i}").into_bytes()).collect() };
    run.par("nothing stays allocated", kinds.len() as u64, 1, |w, k| {
        let f = kinds[k as usize].1;
        let mut left = 0i64;
        for i in 0..n {
            let b = f(i + 1, &texts(k, i));
            w.seen(&b, true);
            let before = live();
            match w.watch(&b, || wadec::decode_module(&b[..]).is_ok()) {
                Ok(ok) => if ok { w.accepted += 1 } else { w.rejected += 1 },
                Err(p) => { w.fail(&b, format!("panics: {p}")); return }
            }
            left += live() - before;
            // tables built once may stay: 16 KiB is far less than what all these inputs amount to
            if left > 16 << 10 { w.fail(&b, format!("after {} decodes whose results have been dropped, {left} bytes stay allocated ({})", i + 1, kinds[k as usize].0)); return }
        }
    });
    run.note(format!("retained memory: {} sorts of inputs x {n} different ones, all decoded and dropped: at most 16 KiB may stay", kinds.len()));
}
fn len_sites(st: &[State]) -> Vec<Vec<u8>> {
    st.iter().filter(|(_, k)| k.last() == Some(&(crate::refdec::S::Num as u32)) && pda::key_len_role(k)).map(|(p, _)| p.clone()).collect()
}

// --------------------------------------------------------------------- C16

/// Inputs of many sorts: good ones, and ones that fail early, late, in every section.
fn mixed() -> Vec<Vec<u8>> {
    let c = small_corpus();
    let mut v = vec![
        c[0].clone(), full(), c[2].clone(), c[11].clone(), c[10].clone(),
        vec![], b"\0asm".to_vec(), b"\0asm\x02\0\0\0".to_vec(),
        module(&[sec(3, &[1, 0])]), module(&[sec(12, &[1])]), module(&[sec(1, &[1, 0x61])]), module(&[sec(1, &[0]), sec(1, &[0])]), module(&[sec(3, &[0]), sec(1, &[0])]), module(&[sec(14, &[])]),
        code(&[0x02, 0x40, 0x41, 0x80]), code(&[0x05]), code(&[0xFC, 8, 0, 0]), module(&[sec(3, &[1, 0]), sec(10, &[1, 5, 0, 0xFC, 9, 0, 0x0B])]), module(&[sec(9, &[1, 8])]),
        module(&[sec(0, &[3, b'a'])]), module(&[custom(b"\xFF", b"")]), module(&[custom(b"a", b"1"), custom(b"a", b"2")]), func_module(&cat(&[&[2], &u(u32::MAX as u64), &[0x7F], &u(1), &[0x7E, 0x0B]])),
        module(&[sec(7, &cat(&[&[1], &name(b"f"), &[0, 0]]))]), module(&[sec(2, &cat(&[&[1], &name(b"m"), &name(b"n"), &[3, 0x7F, 1]]))]), module(&[sec(6, &[1, 0x63, 0x70, 0, 0xD0, 0x70, 0x0B])]),
    ];
    let mut t = full();
    t.truncate(t.len() / 2);
    v.push(t);
    v
}
struct Hooked<'a, F: FnMut(usize)> { b: &'a [u8], pos: usize, calls: usize, f: F }
impl<F: FnMut(usize)> Read for Hooked<'_, F> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        (self.f)(self.calls);
        self.calls += 1;
        let k = buf.len().min(self.b.len() - self.pos);
        buf[..k].copy_from_slice(&self.b[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}
/// child: decode one file in a fresh process and print the outcome
pub fn fresh(file: &str) -> ! {
    let b = std::fs::read(file).expect("file");
    println!("{}", match outcome(wadec::decode_module(&b[..])) { Ok(m) => format!("{m:?}"), Err(e) => e }.replace('\n', "\\n"));
    std::process::exit(0)
}
fn in_fresh_process(b: &[u8]) -> String {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let path = std::env::temp_dir().join(format!("mc-fresh-{}-{}", std::process::id(), N.fetch_add(1, Relaxed)));
    std::fs::write(&path, b).expect("write");
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("fresh").arg(&path).output().expect("spawn");
    let _ = std::fs::remove_file(&path);
    String::from_utf8_lossy(&o.stdout).trim_end_matches('\n').to_string()
}

/// One decode that runs on its own thread, a read call at a time.
struct Stepper { go: std::sync::mpsc::Sender<()>, at: std::sync::mpsc::Receiver<Option<Outcome>> }
type Job = (Vec<u8>, std::sync::mpsc::Receiver<()>, std::sync::mpsc::Sender<Option<Outcome>>);
struct Pool { jobs: Vec<std::sync::mpsc::Sender<Job>> }
impl Pool {
    fn new(n: usize) -> Self {
        Pool { jobs: (0..n).map(|_| {
            let (tx, rx) = std::sync::mpsc::channel::<Job>();
            std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                for (b, go, at) in rx {
                    if go.recv().is_err() { continue }
                    let r = crate::engine::guarded(&b, || outcome(wadec::decode_module(Hooked { b: &b, pos: 0, calls: 0, f: |_| { let _ = at.send(None); let _ = go.recv(); } })));
                    let _ = at.send(Some(r.unwrap_or_else(|p| Err(format!("panic: {p}")))));
                }
            }).unwrap();
            tx
        }).collect() }
    }
    fn start(&self, i: usize, b: &[u8]) -> Stepper {
        let (go, grx) = std::sync::mpsc::channel();
        let (atx, at) = std::sync::mpsc::channel();
        self.jobs[i].send((b.to_vec(), grx, atx)).unwrap();
        Stepper { go, at }
    }
}
impl Stepper {
    /// run to the next read call (None) or the end
    fn step(&self) -> Option<Outcome> { let _ = self.go.send(()); self.at.recv().unwrap() }
}

/// What the decode of `b` gives now must be what a fresh process gives. The
/// model tells which results are worth asking a fresh process about.
pub fn alone(w: &mut W, b: &[u8], want: &Result<Module, crate::refdec::Rej>) -> bool {
    w.seen(b, true);
    let confirmed = &w.run.confirmed;
    let got = match w.watch(b, || wadec::decode_module(b)) {
        Ok(g) => g,
        Err(p) => {
            if confirmed.fetch_add(1, Relaxed) < 400 && in_fresh_process(b) != "" { w.fail(b, format!("panics after decodes of similar inputs, but not in a fresh process: {p}")) }
            return false;
        }
    };
    let (odd, text) = match (want, got) {
        (Ok(m), Ok(g)) => { w.accepted += 1; (crate::eq::diff(m, &g).is_some(), Ok(g)) }
        (Err(r), Err(e)) => { w.rejected += 1; (crate::diag::judge(r, &e, b).is_err(), Err(e)) }
        (_, g) => (true, g),
    };
    let accepted = text.is_ok();
    if odd && confirmed.fetch_add(1, Relaxed) < 400 {
        let text = match outcome(text) { Ok(m) => format!("{m:?}"), Err(e) => e }.replace('\n', "\\n");
        let f = in_fresh_process(b);
        if f != text { w.fail(b, format!("after decodes of similar inputs: {text}; in a fresh process: {f}")) }
    }
    accepted
}

pub fn c16(run: &Run) {
    crate::checks::umbrella(run);
    let mut ins = mixed();
    ins.retain(|b| crate::engine::guarded(b, || drop(wadec::decode_module(&b[..]))).is_ok());
    let n = ins.len();
    let base: Vec<Outcome> = ins.iter().map(|b| outcome(wadec::decode_module(&b[..]))).collect();
    // each in a process of its own, against the result in this one
    let texts: Vec<String> = base.iter().map(|o| match o { Ok(m) => format!("{m:?}"), Err(e) => e.clone() }.replace('\n', "\\n")).collect();
    run.par("fresh processes", n as u64, 1, |w, i| {
        let b = &ins[i as usize];
        w.seen(b, true);
        let t = in_fresh_process(b);
        if t != texts[i as usize] { w.fail(b, format!("in a fresh process: {t}, after {i} other decodes: {}", texts[i as usize])) }
    });
    // histories
    let depth = run.q(3u32, 4);
    let judge = |w: &mut W, i: usize, ctx: &dyn Fn() -> String| {
        let b = &ins[i];
        match w.watch(b, || outcome(wadec::decode_module(&b[..]))) {
            Ok(o) => if let Some(d) = same(&base[i], &o) { w.fail(b, format!("{}: {d}", ctx())) },
            Err(p) => w.fail(b, format!("{}: panics: {p}", ctx())),
        }
        w.evals += 1;
    };
    run.par("histories", (n as u64).pow(depth), 64, |w, i| {
        let h: Vec<usize> = (0..depth).map(|k| (i / (n as u64).pow(k) % n as u64) as usize).collect();
        for (k, &x) in h.iter().enumerate() { judge(w, x, &|| format!("after the history {:?}", &h[..k])) }
    });
    // inputs that differ in little from each other, decoded in a row: what is kept
    // of one must not show in the next. The model says what each must be.
    let check_seq = |w: &mut W, seq: &[&[u8]]| { for b in seq { w.check(b); } };
    let bases: Vec<Vec<u8>> = small_corpus().into_iter().chain(fixtures().into_iter().filter(|m| m.len() < run.q(300, 5000))).collect();
    let at: Vec<(usize, usize)> = bases.iter().enumerate().flat_map(|(i, m)| (8..m.len()).map(move |p| (i, p))).collect();
    run.par("look-alikes: one byte different", at.len() as u64, 8, |w, i| {
        let (k, p) = at[i as usize];
        let m = &bases[k];
        let vals: Vec<u8> = if w.run.thorough() { (0..=255).collect() } else { vec![m[p] ^ 0x20, m[p] ^ 1, m[p].wrapping_add(1), m[p] ^ 0x80, m[p] ^ 0x40, 0, 0xFF] };
        for x in vals {
            let mut v = m.clone();
            v[p] = x;
            check_seq(w, &[m, &v, m, &v, &v, m]);
            // two of them
            if p + 1 < m.len() { let mut v2 = m.clone(); v2[p + 1] = m[p + 1] ^ 1; check_seq(w, &[&v, &v2, &v]); }
        }
    });
    // names that are alike: all pairs, at every site a name occurs
    let mut names: Vec<Vec<u8>> = [&b""[..], b"a", b"A", b"b", b"aa", b"aA", b"ab", b"ba", b"a\0", b"a ", b" a", b"m", b"env", b"Env", b"ENV", b"env2", b"memory", b"memory0", b"memorx", b"0", b"00", b"e", "é".as_bytes(), "e\u{301}".as_bytes(), "É".as_bytes(), "ß".as_bytes(), b"ss", "ı".as_bytes(), b"i", b"I", "\u{212A}".as_bytes(), b"K", b"k"].iter().map(|x| x.to_vec()).collect();
    for l in [8usize, 16, 32, 64, 256] { for p in [0, l / 2, l - 1] { let mut b = vec![b'x'; l]; names.push(b.clone()); b[p] = b'y'; names.push(b.clone()); b[p] = b'X'; names.push(b) } }
    names.sort();
    names.dedup();
    let nm = names.len() as u64;
    run.par("look-alikes: names", nm * nm, 8, |w, i| {
        let (a, b) = (&names[(i % nm) as usize], &names[(i / nm) as usize]);
        let sites: Vec<Box<dyn Fn(&[u8]) -> Vec<u8>>> = vec![
            Box::new(|n| module(&[custom(n, b"x")])), Box::new(|n| module(&[custom(b"x", n)])), Box::new(|n| module(&[sec(2, &cat(&[&[1], &name(n), &name(b"i"), &[0, 0]]))])),
            Box::new(|n| module(&[sec(2, &cat(&[&[1], &name(b"m"), &name(n), &[0, 0]]))])), Box::new(|n| module(&[sec(7, &cat(&[&[1], &name(n), &[0, 0]]))])), Box::new(|n| module(&[sec(11, &cat(&[&[1, 1], &name(n)]))])),
        ];
        for f in &sites { check_seq(w, &[&f(a), &f(b), &f(a), &f(b)]); }
        // both in one module, in both orders, after each other
        let two = |a: &[u8], b: &[u8]| module(&[custom(a, b), sec(2, &list(&[cat(&[&name(a), &name(b), &[0, 0]]), cat(&[&name(b), &name(a), &[0, 1]])])), sec(7, &list(&[cat(&[&name(a), &[0, 0]]), cat(&[&name(b), &[0, 1]])]))]);
        check_seq(w, &[&two(a, b), &two(b, a), &two(a, b), &two(a, a), &two(b, b)]);
    });
    // contents of the same length and kind, all ordered pairs of short bodies of every section
    let shorts: Vec<(u8, Vec<Vec<u8>>)> = (0..14u8).map(|id| {
        let st = pda_structure(run, Root::Sec(id), 2, 0);
        let mut v: Vec<Vec<u8>> = reps(&st, Root::Sec(id));
        v.truncate(run.q(60, 400));
        (id, v)
    }).collect();
    for (_, v) in &shorts {
        let n = v.len() as u64;
        run.par("look-alikes: sections", n * n, 32, |w, i| { check_seq(w, &[&v[(i % n) as usize], &v[(i / n) as usize], &v[(i % n) as usize]]); });
    }
    let ii = instrs_marked();
    let n2 = ii.len() as u64;
    run.par("look-alikes: instructions", n2 * run.q(40, n2), 64, |w, i| {
        let (a, b) = (&ii[(i % n2) as usize], &ii[((i % n2 + 1 + i / n2) % n2) as usize]);
        let (a, b) = (code(&cat(&[a, b])), code(b));
        check_seq(w, &[&a, &b]);
    });
    run.note(format!("look-alikes: every byte of {} modules changed in {} ways, all pairs of {nm} names at every site, all pairs of short contents of every section, decoded in a row and held against the model", bases.len(), run.q("7", "255")));
    // long repetitions: one input many times, then every other
    let reps = run.q(20_000u32, 300_000);
    run.par("long repetitions", n as u64, 1, |w, i| {
        let b = &ins[i as usize];
        let reps = if b.len() > 400 { reps / 20 } else { reps };
        for k in 0..reps {
            judge(w, i as usize, &|| format!("after {k} decodes of the same input"));
            if w.run.failed() { return }
        }
        for j in 0..n { judge(w, j, &|| format!("after {reps} decodes of input {i}")) }
    });
    // alternations of two, in one thread
    run.par("alternations", (n * n) as u64, 1, |w, i| {
        let (a, b) = (i as usize / n, i as usize % n);
        for k in 0..w.run.q(150, 2000) { judge(w, a, &|| format!("alternation {k} of inputs {a} and {b}")); judge(w, b, &|| format!("alternation {k} of {a} and {b}")) }
    });
    // a decode inside the byte source of another, at every read call
    run.par("nested decodes", (n * n) as u64, 1, |w, i| {
        let (a, b) = (i as usize / n, i as usize % n);
        for at in 0.. {
            let mut inner = None;
            let r = w.watch(&ins[a], || outcome(wadec::decode_module(Hooked { b: &ins[a], pos: 0, calls: 0, f: |c| if c == at || at == usize::MAX { inner = Some(outcome(wadec::decode_module(&ins[b][..]))) } })));
            let Some(inner) = inner else { break };
            w.evals += 1;
            match r {
                Ok(o) => if let Some(d) = same(&base[a], &o) { w.fail(&ins[a], format!("with input {b} decoded inside read call {at}: {d}")); return },
                Err(p) => { w.fail(&ins[a], format!("with input {b} decoded inside read call {at}: panics: {p}")); return }
            }
            if let Some(d) = same(&base[b], &inner) { w.fail(&ins[b], format!("decoded inside read call {at} of input {a}: {d}")); return }
        }
    });
    // nested at every read call at once, and two deep
    run.par("nested decodes at every read", n as u64, 1, |w, i| {
        let a = i as usize;
        for b in 0..n {
            let mut bad = None;
            let r = outcome(wadec::decode_module(Hooked { b: &ins[a], pos: 0, calls: 0, f: |c| {
                let x = (b + c) % n;
                let o = outcome(wadec::decode_module(Hooked { b: &ins[x], pos: 0, calls: 0, f: |k| if k == 2 {
                    let y = (x + 1) % n;
                    if let Some(d) = same(&base[y], &outcome(wadec::decode_module(&ins[y][..]))) { bad = Some((y, d)) }
                } }));
                if let Some(d) = same(&base[x], &o) { bad = Some((x, d)) }
            } }));
            w.evals += 1;
            if let Some((x, d)) = bad { w.fail(&ins[x], format!("decoded inside the reads of input {a}: {d}")); return }
            if let Some(d) = same(&base[a], &r) { w.fail(&ins[a], format!("with other decodes inside its reads: {d}")); return }
        }
    });
    // two threads, every interleaving at read calls with at most 2 preemptions
    let pick: Vec<usize> = (0..n).filter(|&i| ins[i].len() < run.q(60, 400)).collect();
    let m = pick.len();
    run.par("two threads, at most 2 preemptions", (m * m) as u64, 1, |w, i| {
        let (a, b) = (pick[i as usize / m], pick[i as usize % m]);
        let pool = Pool::new(2);
        // A runs p read calls, B runs q, then A to its end, then B
        let mut p = 0;
        loop {
            let mut q = 0;
            let mut a_ended = false;
            loop {
                let (sa, sb) = (pool.start(0, &ins[a]), pool.start(1, &ins[b]));
                let (mut ra, mut rb) = (None, None);
                for _ in 0..p { ra = sa.step(); if ra.is_some() { a_ended = true; break } }
                for _ in 0..q { rb = sb.step(); if rb.is_some() { break } }
                let b_ended = rb.is_some();
                while ra.is_none() { ra = sa.step() }
                while rb.is_none() { rb = sb.step() }
                w.evals += 1;
                w.run.transitions.fetch_add(p as u64 + q as u64 + 2, Relaxed);
                w.run.states.fetch_add(1, Relaxed);
                for (x, o, y) in [(a, ra.unwrap(), b), (b, rb.unwrap(), a)] {
                    if let Some(d) = same(&base[x], &o) {
                        w.fail(&ins[x], format!("interleaved with a decode of input {y} ({}) in another thread, switching after {p} and {q} reads: {d}", hex(&ins[y], 200)));
                        return;
                    }
                }
                if b_ended { break }
                q += 1;
            }
            if a_ended { break }
            p += 1;
        }
    });
    run.note(format!("{n} inputs; all histories of length {depth}; all pairs nested at every read call; all pairs of {m} short inputs in two threads with all schedules of at most 2 preemptions at read calls"));
}

// --------------------------------------------------------------------- C18

pub fn c18(run: &Run) {
    let exe = std::env::var("MC_CLI").unwrap_or_else(|_| format!("{}/target/cli/release/wadec", crate::engine::verif()));
    let exe = std::path::Path::new(&exe);
    assert!(exe.exists(), "wadec binary is not built: {exe:?}");
    let dir = std::env::temp_dir().join(format!("mc-cli-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut ins = mixed();
    ins.extend(small_corpus());
    ins.extend(fixtures());
    // one of each reason for rejection and place of it
    {
        let mut seen = std::collections::HashSet::new();
        for b in bad_modules(run.q(3, 1)) {
            let k = match crate::engine::guarded(&b, || wadec::decode_module(&b[..])) { Ok(Err(e)) => crate::diag::chain(&e).join(": ").replace(|c: char| c.is_ascii_digit(), ""), _ => continue };
            if seen.insert(k) { ins.push(b) }
        }
    }
    // every prefix of a module, larger ones
    let m = module(&[custom(b"a", b"xy"), sec(1, &[1, 0x60, 1, 0x7F, 0]), sec(3, &[1, 0]), sec(10, &[1, 4, 0, 0x01, 0x01, 0x0B])]);
    for k in 0..=m.len() { ins.push(m[..k].to_vec()) }
    ins.push(module(&[custom(b"big", &vec![0; 300_000])]));
    ins.push(module(&[custom(b"big", &vec![0; 300_000]), sec(1, &[1])]));
    ins.push(module(&[sec(11, &cat(&[&[1, 1], &name(&vec![7; 70_000])]))]));
    ins.push(module(&[custom("näm\n\t\"".as_bytes(), b"")]));
    // how inputs end and begin: bytes that text tools add, strip or translate
    let pre = &crate::wasm::PRE;
    for x in 0..=255u8 {
        ins.push(module(&[custom(b"c", &[b'v', x])]));
        ins.push(cat(&[&m, &[x]]));
        ins.push(cat(&[&[x], &m]));
    }
    let white = [0x0Au8, 0x0D, 0x20, 0x00, 0x09, 0x1A, 0x04, 0x08];
    for a in white { for b in white {
        ins.push(module(&[custom(b"c", &[b'v', a, b])]));
        ins.push(module(&[custom(&[a, b], &[a, b])]));
        ins.push(module(&[custom(b"c", &[a, b, b'v'])]));
        ins.push(cat(&[&m, &[a, b]]));
        ins.push(cat(&[&[a, b], &m]));
        ins.push(cat(&[pre, &[a, b]]));
    } }
    for h in [&b"\xEF\xBB\xBF"[..], b"\xFF\xFE", b"#!/usr/bin/env wasmtime\n", b"\x1F\x8B\x08", b"PK\x03\x04", b"(module)", b"(module", b"(module)\n", b"\x7FELF", b"-", b"--", b"--help", b"\x28\xB5\x2F\xFD"] {
        ins.push(h.to_vec());
        ins.push(cat(&[h, &m]));
        ins.push(cat(&[&m, h]));
    }
    ins.sort();
    ins.dedup();
    ins.retain(|b| crate::engine::guarded(b, || drop(wadec::decode_module(&b[..]))).is_ok());
    use std::io::Write;
    use std::process::{Command, Stdio};
    let modes = 5 * 3;
    run.par("inputs x modes x verbosity", (ins.len() * modes) as u64, 1, |w, i| {
        let b = &ins[i as usize / modes];
        let (mode, verb) = (i as usize % modes / 3, i as usize % modes % 3);
        w.seen(&[&b[..], &[mode as u8, verb as u8]].concat(), true);
        w.run.states.fetch_add(1, Relaxed);
        let path = dir.join(format!("{}-{i}.wasm", ["plain", "", "", "with space ü", "-dash"][mode]));
        let mut c = Command::new(exe);
        c.current_dir(&dir);
        if verb == 1 { c.arg("--verbose"); }
        let mut feed = false;
        match mode {
            0 | 3 => { std::fs::write(&path, b).unwrap(); c.arg(&path); }
            1 => { c.arg("-"); feed = true }
            2 => feed = true,
            _ => { std::fs::write(&path, b).unwrap(); c.arg(format!("./{}", path.file_name().unwrap().to_str().unwrap())); }
        }
        if verb == 2 { c.arg("--verbose"); }
        c.stdin(if feed { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut p = c.spawn().expect("spawn wadec");
        let si = p.stdin.take();
        let out = std::thread::scope(|s| {
            s.spawn(|| if let Some(mut si) = si {
                // in small pieces for some, so that reads are short
                if b.len() < 200 && i % 2 == 0 { for x in b.chunks(7) { if si.write_all(x).is_err() { break } let _ = si.flush(); } } else { let _ = si.write_all(b); }
            });
            p.wait_with_output().unwrap()
        });
        let _ = std::fs::remove_file(&path);
        let what = format!("wadec, input {}, {}", ["as a file", "as '-'", "on standard input", "as a file with an odd name", "as a relative path"][mode], ["quiet", "--verbose before", "--verbose after"][verb]);
        judge_cli(w, b, &what, verb > 0, &out, &wadec::decode_module(&b[..]));
    });
    // sizes: buffers and limits of the tool
    let sizes: Vec<usize> = { let mut v: Vec<usize> = (12..=run.q(24u32, 26)).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect(); v.extend([10_000_001, 100_000, 1_000_000, 5_000_000]); v };
    run.par("large inputs", sizes.len() as u64 * 6, 1, |w, i| {
        let (n, mode, broken) = (sizes[i as usize / 6], i as usize % 3, i as usize % 6 >= 3);
        // n bytes in all, what follows the big section matters
        let tail = if broken { sec(1, &[1, 0x61]) } else { sec(1, &[1, 0x60, 0, 0]) };
        let mut len = n - 8 - tail.len() - 4;
        let mut b = vec![];
        for _ in 0..12 {
            b = module(&[custom(b"b", &(0..len).map(|j| (j * 31) as u8).collect::<Vec<_>>()), tail.clone()]);
            if b.len() == n { break }
            len = (len as i64 + n as i64 - b.len() as i64) as usize;
        }
        w.seen(&b, true);
        let path = dir.join(format!("large-{i}.wasm"));
        let mut c = Command::new(exe);
        c.current_dir(&dir);
        match mode { 0 => { std::fs::write(&path, &b).unwrap(); c.arg(&path); } 1 => { c.arg("-"); } _ => {} }
        c.stdin(if mode > 0 { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut p = c.spawn().expect("spawn wadec");
        let si = p.stdin.take();
        let out = std::thread::scope(|s| {
            s.spawn(|| if let Some(mut si) = si { let _ = si.write_all(&b); });
            p.wait_with_output().unwrap()
        });
        let _ = std::fs::remove_file(&path);
        judge_cli(w, &b, &format!("wadec, {n} bytes, mode {mode}"), false, &out, &wadec::decode_module(&b[..]));
    });
    // what cannot be read
    run.one("unreadable inputs", |w| {
        let good = dir.join("good.wasm");
        std::fs::write(&good, module(&[])).unwrap();
        for verb in [false, true] {
            for (nm, p) in [("a missing file", dir.join("missing.wasm")), ("a directory", dir.clone()), ("a file as a directory", good.join("x")), ("an empty name", "".into()), ("a NUL-free long name", dir.join("x".repeat(300)))] {
                let mut c = Command::new(exe);
                if verb { c.arg("--verbose"); }
                let o = c.arg(&p).stdin(Stdio::null()).output().unwrap();
                w.seen(format!("{nm}{verb}").as_bytes(), true);
                w.rejected += 1;
                let err = String::from_utf8_lossy(&o.stderr);
                if o.status.code() != Some(1) { w.fail(nm.as_bytes(), format!("{nm}: exit {:?} instead of 1", o.status.code())) }
                if !err.contains("ERROR") { w.fail(nm.as_bytes(), format!("{nm}: no error on standard error, but {err:?}")) }
                if !o.stdout.is_empty() { w.fail(nm.as_bytes(), format!("{nm}: something on standard output")) }
                if verb != err.contains("DEBUG OUTPUT") { w.fail(nm.as_bytes(), format!("{nm}: debug output is wrong: {err:?}")) }
            }
            // a source that fails while it is read, after some bytes were delivered
            for (nm, b) in [("closed standard input", None), ("a directory as standard input", Some(std::fs::File::open(&dir).unwrap()))] {
                let mut c = Command::new(exe);
                if verb { c.arg("--verbose"); }
                c.stdin(match b { None => Stdio::null(), Some(f) => f.into() });
                let o = c.output().unwrap();
                w.seen(format!("{nm}{verb}").as_bytes(), true);
                let err = String::from_utf8_lossy(&o.stderr);
                if o.status.code() != Some(1) || !err.contains("ERROR") || !o.stdout.is_empty() { w.fail(nm.as_bytes(), format!("{nm}: exit {:?}, {err:?}", o.status.code())) }
            }
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    run.note(format!("{} inputs x (file, '-', standard input, odd file name, relative path) x (quiet, --verbose before or after the input), and unreadable inputs", ins.len()));
}
fn judge_cli(w: &mut W, b: &[u8], what: &str, verbose: bool, o: &std::process::Output, lib: &Result<Module, DecodeModuleError>) {
    let (so, se) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    let code = o.status.code();
    let bad = |s: String| w.run.violation(b, format!("{what}: {s}"), "");
    match lib {
        Ok(m) => {
            if code != Some(0) { bad(format!("exit {code:?} for a module the library accepts ({se})")) }
            if !se.is_empty() { bad(format!("error output for a module the library accepts: {se}")) }
            if verbose {
                if so.trim_end() != format!("{m:#?}") { bad("the dump is not that of the decoded module".into()) }
            } else if !so.is_empty() { bad("output without --verbose".into()) }
        }
        Err(e) => {
            if code != Some(1) { bad(format!("exit {code:?} for a module the library rejects")) }
            if !so.is_empty() { bad("standard output for a rejected module".into()) }
            let (main, dump) = match se.split_once("DEBUG OUTPUT") { Some((a, b)) => (a, Some(b)), None => (&se[..], None) };
            // the error, then its causes, one after the other
            let mut rest = main;
            for l in crate::diag::chain(e) {
                match rest.find(&l) {
                    Some(k) => rest = &rest[k + l.len()..],
                    None => { bad(format!("cause {l:?} is not (or not in its place) in {main:?}")); break }
                }
            }
            if rest.trim() != "" { bad(format!("something else after the causes: {rest:?}")) }
            if !main.starts_with("ERROR") { bad("does not start with ERROR".into()) }
            if verbose != dump.is_some() { bad(format!("debug output is {} with verbose {verbose}", if dump.is_some() { "there" } else { "missing" })) }
            if let Some(d) = dump && !d.contains(&format!("{e:#?}")) { bad("the dump is not that of the error".into()) }
        }
    }
    if lib.is_ok() { w.accepted += 1 } else { w.rejected += 1 }
}
