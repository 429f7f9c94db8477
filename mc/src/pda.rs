//! Exploration of the grammar as a pushdown automaton, and replay of every
//! transition on the implementation.
//!
//! A state is the stack of constructs the reference model is inside of (with
//! list remainders, bytes of integers, opcodes, open blocks) after a prefix of a
//! section's content; a transition is one byte. The search is breadth-first from
//! the empty prefix, every state is expanded with all 256 bytes, and states are
//! merged when their keys are equal (equal keys have the same futures: the key
//! holds everything the grammar can still depend on). Each transition is turned
//! into complete inputs for the implementation: the prefix and byte alone (cut
//! short), and completed along the shortest way to the end; a byte that is wrong
//! also with what would have completed the prefix, as if it had been right and as
//! if it had not been there.
use crate::engine::{Run, W};
use crate::refdec::{Root, S, Step, run_body};
use crate::wasm;
use std::collections::HashSet;
use std::sync::Mutex;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Copy)]
pub struct Bounds {
    /// list elements outstanding
    pub list: u32,
    /// open blocks
    pub nest: usize,
    /// bytes of names, byte vectors outstanding
    pub raw: u32,
    /// bytes outstanding in a code entry
    pub entry: u32,
    /// prefix length
    pub len: usize,
}

fn within(key: &[u32], b: &Bounds) -> bool {
    let mut nest = 0;
    for &k in key {
        match k >> 28 {
            1 => if k & 0xFFFF > b.list { return false },
            2 => if k & 0xFFFF != 0 { nest += 1 },
            5 => if k & 0xFF > b.entry { return false },
            _ => {}
        }
    }
    if nest > b.nest { return false }
    // what is left of a code entry stands last
    let key = if let [k @ .., l] = key && l >> 28 == 5 { k } else { key };
    if let [.., rem, s] = key {
        if *s == S::Name as u32 || *s == S::Raw as u32 { return *rem <= b.raw }
        // an integer in progress whose value is a length: keep small ones
        if *s == S::Leb as u32 && *rem > b.list.max(b.raw) && *rem != 512 && key_len_role(key) { return false }
    }
    true
}
/// the integer in progress is a list or byte vector length (its frame is a list
/// code, or 0x200)
pub fn key_len_role(key: &[u32]) -> bool {
    let Some(&f) = key.get(key.len().wrapping_sub(4)) else { return false };
    f == 0x200 || (0x1000..0x1010).contains(&f) || matches!(f, 0x0E | 0x1C | 0x1F | 0x4E..=0x50 | 0x5F | 0x61 | 0x62 | 0x1209 | 0x1309 | 0x120A)
}
fn key128(k: &[u32]) -> u128 {
    let mut b = Vec::with_capacity(k.len() * 4);
    for x in k { b.extend(x.to_le_bytes()) }
    let a = crate::engine::hash(&b);
    b.push(0x5A);
    b.reverse();
    (a as u128) << 64 | crate::engine::hash(&b) as u128
}
pub fn frame(root: Root, body: &[u8], o: &mut Vec<u8>) {
    match root {
        Root::Func => wasm::func_module_into(o, body),
        Root::Sec(id) => wasm::frame(id, body, o),
    }
}
/// Complete `body` along the nearest end; false if that takes too long.
pub fn complete(root: Root, body: &mut Vec<u8>, max: usize) -> bool {
    for _ in 0..max {
        match run_body(root, body) {
            Step::Need(_, d) => body.push(d),
            Step::Done => return true,
            _ => return false,
        }
    }
    false
}

/// What to do with every transition beyond replaying it: nothing, or every
/// second byte too.
pub struct Opt<'a> {
    pub name: &'a str,
    pub bounds: Bounds,
    /// expand pairs of bytes in states reached with prefixes up to this length
    pub pairs: usize,
}

/// Returns the representative prefix and key of every state.
pub fn explore(run: &Run, root: Root, o: &Opt) -> Vec<(Vec<u8>, Vec<u32>)> { explore_if(run, root, o, &|_| true) }
/// As `explore`, within the states whose key satisfies `keep`.
pub fn explore_if(run: &Run, root: Root, o: &Opt, keep: &(dyn Fn(&[u32]) -> bool + Sync)) -> Vec<(Vec<u8>, Vec<u32>)> {
    let mut all: Vec<(Vec<u8>, Vec<u32>)> = vec![];
    if let Step::Need(k, _) = run_body(root, &[]) { all.push((vec![], k)) }
    let seen: Vec<Mutex<HashSet<u128>>> = (0..64).map(|_| Mutex::default()).collect();
    let mut frontier: Vec<Vec<u8>> = vec![vec![]];
    let mut states = 1u64;
    let mut transitions = 0u64;
    let mut depth = 0;
    while !frontier.is_empty() && depth < o.bounds.len && !run.failed() {
        let next: Mutex<Vec<(u128, Vec<u8>, Vec<u32>)>> = Mutex::default();
        run.par(o.name, frontier.len() as u64 * 16, if frontier.len() < 64 { 1 } else { 4 }, |w, i| {
            let p = &frontier[i as usize / 16];
            let mut body = p.clone();
            // the shortest way from here to the end, to go on with after a wrong byte
            let rest = if complete(root, &mut body, 40) { body.split_off(p.len()) } else { vec![] };
            for x in i % 16 * 16..i % 16 * 16 + 16 {
                body.truncate(p.len());
                body.push(x as u8);
                if let Some(key) = step(w, root, &mut body) {
                    body.truncate(p.len() + 1);
                    if within(&key, &o.bounds) && keep(&key) {
                        let k = key128(&key);
                        if !seen[(k % 64) as usize].lock().unwrap().contains(&k) { next.lock().unwrap().push((k, body.clone(), key)) }
                    }
                    if p.len() < o.pairs {
                        for c in 0..=255u8 {
                            body.truncate(p.len() + 1);
                            body.push(c);
                            step(w, root, &mut body);
                        }
                    }
                } else if !rest.is_empty() {
                    let mut buf = std::mem::take(&mut w.buf);
                    for skip in [1, 0] {
                        body.truncate(p.len() + 1);
                        body.extend(&rest[skip..]);
                        frame(root, &body, &mut buf);
                        w.check(&buf);
                    }
                    w.buf = buf;
                }
            }
        });
        transitions += frontier.len() as u64 * 256;
        let mut n = next.into_inner().unwrap();
        // one representative per state, independent of scheduling
        n.sort_unstable_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
        n.dedup_by_key(|x| x.0);
        n.retain(|(k, _, _)| seen[(k % 64) as usize].lock().unwrap().insert(*k));
        n.sort_unstable_by(|a, b| a.1.cmp(&b.1));
        all.extend(n.iter().map(|x| (x.1.clone(), x.2.clone())));
        frontier = n.into_iter().map(|x| x.1).collect();
        states += frontier.len() as u64;
        depth += 1;
    }
    run.states.fetch_add(states, Relaxed);
    run.transitions.fetch_add(transitions, Relaxed);
    run.note(format!("{:?}: {} states, prefixes up to {} bytes, list remainder <= {}, open blocks <= {}, raw bytes <= {}{}", root, states, depth, o.bounds.list, o.bounds.nest, o.bounds.raw,
        if depth >= o.bounds.len && !frontier.is_empty() { " (stopped at the length bound)" } else { " (all reachable states)" }));
    all
}

/// Replay one transition: the body as it stands and completed. Returns the key
/// of the state reached if more bytes are needed.
fn step(w: &mut W, root: Root, body: &mut Vec<u8>) -> Option<Vec<u32>> {
    let mut buf = std::mem::take(&mut w.buf);
    frame(root, body, &mut buf);
    w.check(&buf);
    let r = match run_body(root, body) {
        Step::Need(key, d) => {
            body.push(d);
            if complete(root, body, 40) {
                frame(root, body, &mut buf);
                w.check(&buf);
            }
            Some(key)
        }
        _ => None,
    };
    w.buf = buf;
    r
}

/// Every content of length up to `n` (all 256^k byte strings), as `root`.
pub fn all_strings(run: &Run, name: &str, root: Root, n: u32) {
    for k in 0..=n {
        let total = 256u64.pow(k);
        run.par(name, total, total.clamp(1, 4096), |w, i| {
            let mut buf = std::mem::take(&mut w.buf);
            let b = i.to_be_bytes();
            frame(root, &b[8 - k as usize..], &mut buf);
            w.check(&buf);
            w.buf = buf;
        });
    }
}
