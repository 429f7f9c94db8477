//! Deviation-bounded exploration of inputs. From a prefix, every place where
//! the grammar needs another byte has a default (the nearest end) and an
//! alphabet of alternatives; all sequences with at most `k` alternatives are
//! explored and each leads to one complete input.
use crate::engine::{Run, W};
use crate::pda::frame;
use crate::refdec::{Root, S, Step, run_body};
use crate::wasm;
use std::sync::atomic::Ordering::Relaxed;

/// What alternatives there are at a site, given the key of the state.
pub struct Alpha {
    pub bytes: Vec<Vec<u8>>,
    pub nums: Vec<Vec<u8>>,
    pub lens: Vec<Vec<u8>>,
    pub subs: Vec<Vec<u8>>,
    pub ops: Vec<Vec<u8>>,
    pub raw: Vec<Vec<u8>>,
    pub consts: Vec<Vec<u8>>,
}
pub fn single(r: impl IntoIterator<Item = u8>) -> Vec<Vec<u8>> { r.into_iter().map(|b| vec![b]).collect() }

impl Alpha {
    /// everything: all bytes, all (sub-)opcodes, boundary integers with padded
    /// and over-long encodings
    pub fn wide() -> Self {
        let mut nums: Vec<Vec<u8>> = vec![];
        for v in [1u64, 2, 5, 63, 64, 65, 127, 128, 255, 256, 0x3FFF, 0x4000, 0xFFFF, 0x10000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 1 << 32, (1 << 32) + 5, 1 << 63, u64::MAX] { nums.push(wasm::u(v)) }
        for v in [-1i64, -2, -17, -40, -64, -65, -128, i32::MIN as i64, i32::MIN as i64 - 1, -(1 << 32), i64::MIN] { nums.push(wasm::s(v)) }
        for v in [63, 64, i32::MAX as i64, (1 << 32) - 1, 1 << 32, i64::MAX] { nums.push(wasm::s(v)) }
        nums.push(wasm::upad(0, 2));
        nums.push(wasm::upad(3, 5));
        nums.push(wasm::upad(3, 6));
        nums.push(wasm::upad(3, 10));
        nums.push(wasm::upad(3, 11));
        nums.push(vec![0xFF, 0xFF, 0xFF, 0xFF, 0x1F]);
        nums.push(vec![0xFF, 0xFF, 0xFF, 0xFF, 0x7F]);
        nums.push(vec![0x80, 0x80, 0x80, 0x80, 0x70]);
        nums.sort();
        nums.dedup();
        let mut subs: Vec<Vec<u8>> = (0..=600).map(wasm::u).collect();
        subs.extend([12u64, 65536 + 12, 1 << 31, u32::MAX as u64, 1 << 32].map(wasm::u));
        subs.push(wasm::upad(12, 5));
        subs.push(wasm::upad(8, 3));
        Alpha {
            bytes: single(0..=255),
            nums,
            lens: [wasm::u(1), wasm::u(2), wasm::u(3), wasm::upad(0, 2), wasm::upad(1, 5), wasm::upad(1, 6), wasm::u(5), wasm::u(128), wasm::u(u32::MAX as u64), wasm::u(1 << 32)].to_vec(),
            subs,
            ops: single(0..=255),
            raw: single([0, 0x0B, 0x61, 0x7F, 0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0xFF]),
            consts: single([1, 0x80, 0x7F, 0xFF]),
        }
    }
    /// smaller integer alphabet, for deeper searches
    pub fn narrow() -> Self {
        let mut a = Self::wide();
        a.nums = [wasm::u(1), wasm::u(127), wasm::u(u32::MAX as u64), wasm::u(1 << 32), wasm::s(-1), wasm::upad(2, 5), wasm::u(0x70)].to_vec();
        a.subs = (0..=300).map(wasm::u).collect();
        a.lens = [wasm::u(1), wasm::u(2), wasm::upad(1, 5), wasm::u(3)].to_vec();
        a.raw = single([0x0B, 0x80]);
        a.consts = single([0x80]);
        a
    }
    pub fn at(&self, key: &[u32]) -> &[Vec<u8>] {
        let site = *key.last().unwrap();
        if site == S::Opcode as u32 { return &self.ops }
        if site == S::Num as u32 {
            if key.len() >= 4 && key[key.len() - 4] == 0x0600 { return &self.subs }
            return if crate::pda::key_len_role(key) { &self.lens } else { &self.nums };
        }
        if site == S::Raw as u32 || site == S::Name as u32 { return &self.raw }
        if site == S::ConstB as u32 { return &self.consts }
        &self.bytes
    }
}

const MAX_STEPS: usize = 48;

/// All inputs with at most `k` deviations after `start`.
pub fn explore(run: &Run, name: &str, root: Root, start: &[u8], alpha: &Alpha, k: u32) {
    // the deviations along the default path are the tasks
    let mut tasks: Vec<(Vec<u8>, u32)> = vec![(start.to_vec(), 0)];
    let mut firsts: Vec<Vec<u8>> = vec![];
    let mut body = start.to_vec();
    if k > 0 { walk(root, &mut body, alpha, &mut |b| firsts.push(b.to_vec())); }
    if k > 1 {
        for f in firsts {
            tasks.push((f.clone(), 0));
            let mut b = f.clone();
            walk(root, &mut b, alpha, &mut |b| tasks.push((b.to_vec(), k - 2)));
        }
    } else {
        tasks.extend(firsts.into_iter().map(|f| (f, 0)));
    }
    run.transitions.fetch_add(tasks.len() as u64, Relaxed);
    run.par(name, tasks.len() as u64, 16, |w, i| {
        let (b, k) = &tasks[i as usize];
        let mut b = b.clone();
        go(w, root, &mut b, alpha, *k);
    });
    run.note(format!("{name}: {root:?} after {}: all inputs with at most {k} deviations from the shortest completion", crate::engine::hex(start, 64)));
}
fn walk(root: Root, body: &mut Vec<u8>, alpha: &Alpha, f: &mut dyn FnMut(&[u8])) {
    let base = body.len();
    for _ in 0..MAX_STEPS {
        let Step::Need(key, d) = run_body(root, body) else { break };
        let n = body.len();
        for a in alpha.at(&key) {
            if a[..] == [d] { continue }
            body.extend(a);
            f(body);
            body.truncate(n);
        }
        body.push(d);
    }
    body.truncate(base);
}
fn go(w: &mut W, root: Root, body: &mut Vec<u8>, alpha: &Alpha, k: u32) {
    let base = body.len();
    for _ in 0..MAX_STEPS {
        let Step::Need(key, d) = run_body(root, body) else { break };
        if k > 0 {
            let n = body.len();
            for a in alpha.at(&key) {
                if a[..] == [d] { continue }
                body.extend(a);
                go(w, root, body, alpha, k - 1);
                body.truncate(n);
            }
        }
        body.push(d);
    }
    let mut buf = std::mem::take(&mut w.buf);
    frame(root, body, &mut buf);
    w.case(&buf);
    w.buf = buf;
    body.truncate(base);
}

/// Every integer state (prefix) with every encoding, completed.
pub fn at_sites(run: &Run, name: &str, root: Root, sites: &[Vec<u8>], encs: &[Vec<u8>]) {
    let n = encs.len() as u64;
    run.par(name, sites.len() as u64 * n, 256, |w, i| {
        let mut body = sites[(i / n) as usize].clone();
        body.extend(&encs[(i % n) as usize]);
        go(w, root, &mut body, &Alpha { bytes: vec![], nums: vec![], lens: vec![], subs: vec![], ops: vec![], raw: vec![], consts: vec![] }, 0);
    });
}
/// Every site (prefix) followed by every string of the alphabet, then `post`
pub fn num_sites(states: &[(Vec<u8>, Vec<u32>)]) -> Vec<Vec<u8>> {
    states.iter().filter(|(_, k)| k.last() == Some(&(S::Num as u32))).map(|(p, _)| p.clone()).collect()
}
