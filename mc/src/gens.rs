//! Enumerations shared by several checks.
use crate::dev::{self, Alpha, single};
use crate::engine::Run;
use crate::pda::{self, Bounds, Opt};
use crate::refdec::{ORDER, Root, S, Step, run_body};
use crate::wasm::*;

pub type State = (Vec<u8>, Vec<u32>);

pub fn pda(run: &Run, root: Root, list: u32, nest: usize, pairs: usize) -> Vec<State> {
    let name = format!("transitions {root:?}");
    once(run, format!("{name} {list} {nest} {pairs}"), || pda::explore(run, root, &Opt { name: &name, bounds: Bounds { list, nest, raw: 2, entry: 3, len: 64 }, pairs }))
}
/// An exploration that is asked for again has been done.
fn once(run: &Run, key: String, f: impl FnOnce() -> Vec<State>) -> Vec<State> {
    if let Some(v) = run.done.lock().unwrap().get(&key) { return v.clone() }
    let v = f();
    run.done.lock().unwrap().insert(key, v.clone());
    v
}
/// States outside instructions (a section's own structure; expressions only as
/// far as their first byte).
pub fn pda_structure(run: &Run, root: Root, list: u32, pairs: usize) -> Vec<State> {
    let name = format!("transitions {root:?} (structure)");
    let pairs = if run.lite() && root == Root::Sec(10) { 0 } else { pairs };
    once(run, format!("{name} {list} {pairs}"), || pda::explore_if(run, root, &Opt { name: &name, bounds: Bounds { list, nest: 0, raw: 2, entry: 3, len: 64 }, pairs }, &|k| !k.iter().any(|x| x >> 28 == 3)))
}

// ------------------------------------------------------------- instructions

/// Complete instruction encodings: every opcode and sub-opcode, with at most
/// `k` immediates deviating from the default over `alpha`.
pub fn instrs(alpha: &Alpha, k: u32) -> Vec<Vec<u8>> {
    let Step::Need(top, _) = run_body(Root::Func, &[0]) else { unreachable!() };
    let mut out = vec![];
    fn go(body: &mut Vec<u8>, top: &[u32], alpha: &Alpha, k: u32, out: &mut Vec<Vec<u8>>) {
        let base = body.len();
        for _ in 0..40 {
            match run_body(Root::Func, body) {
                Step::Need(key, d) => {
                    if body.len() > 1 && key == top { out.push(body[1..].to_vec()); break }
                    let n = body.len();
                    let sub = key.len() >= 4 && key[key.len() - 4] == 0x0600 && key[key.len() - 3] == 0;
                    if k > 0 || sub {
                        for a in alpha.at(&key) {
                            if a[..] == [d] || (n == 1) { continue }
                            body.extend(a);
                            go(body, top, alpha, if sub { k } else { k - 1 }, out);
                            body.truncate(n);
                        }
                    }
                    body.push(d);
                }
                _ => break,
            }
        }
        body.truncate(base);
    }
    for op in 0..=255u8 {
        if op == 0x0B || op == 0x05 { continue }
        let mut b = vec![0, op];
        go(&mut b, &top, alpha, k, &mut out);
    }
    out.sort();
    out.dedup();
    out
}
/// One encoding of every instruction, minimal immediates.
pub fn instrs1() -> Vec<Vec<u8>> { instrs(&Alpha::narrow(), 0) }

/// One encoding of every instruction with immediates that are all different
/// and not the defaults.
pub fn instrs_marked() -> Vec<Vec<u8>> {
    let Step::Need(top, _) = run_body(Root::Func, &[0]) else { unreachable!() };
    let mut out = vec![];
    for i in instrs1() {
        // keep opcode (and sub-opcode) bytes, redo the immediates
        let oplen = if (0xFB..=0xFD).contains(&i[0]) { 1 + i[1..].iter().position(|b| b & 0x80 == 0).unwrap() + 1 } else { 1 };
        let mut body = vec![0];
        body.extend(&i[..oplen]);
        let mut n = 1u8;
        for _ in 0..40 {
            match run_body(Root::Func, &body) {
                Step::Need(key, d) => {
                    if key == top { out.push(body[1..].to_vec()); break }
                    let s = *key.last().unwrap();
                    n += 1;
                    body.push(if s == S::Opcode as u32 { 0x0B }
                        else if s == S::Num as u32 && pda::key_len_role(&key) { 2 }
                        else if s == S::Num as u32 || s == S::ConstB as u32 { n }
                        else if s == S::Cast as u32 { 1 }
                        else { d });
                }
                _ => break,
            }
        }
    }
    out
}

/// Bodies that put `ins` at the end of every path of open blocks up to `depth`,
/// with siblings before and after.
pub fn nested(ins: &[u8], depth: u32) -> Vec<Vec<u8>> {
    let open: [&[u8]; 5] = [&[0x02, 0x40], &[0x03, 0x7F], &[0x04, 0x40], &[0x04, 0x01, 0x01, 0x05], &[0x1F, 0x40, 1, 2, 0]];
    let mut out = vec![];
    for d in 0..=depth {
        for p in 0..5u32.pow(d) {
            let mut b = vec![];
            let mut q = p;
            for i in 0..d {
                if i % 2 == 1 { b.push(0x01) }
                b.extend(open[(q % 5) as usize]);
                q /= 5;
            }
            b.extend(ins);
            for i in 0..d {
                b.push(0x0B);
                if i % 2 == 0 { b.push(0x01) }
            }
            out.push(b);
        }
    }
    out
}

// -------------------------------------------------------------------- types

/// Every encoding of a value type, with representative indices, and some that
/// are not one.
pub fn valtypes() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = single([0x7F, 0x7E, 0x7D, 0x7C, 0x7B]);
    v.extend(single(0x69..=0x74));
    for r in [0x63, 0x64] {
        for h in heaptypes() { v.push(cat(&[&[r], &h])) }
    }
    v
}
pub fn heaptypes() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = single(0x69..=0x74);
    for i in [0i64, 1, 2, 63, 64, 100, 127, 128, 255, 0x3FFF, 0x4000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF] { v.push(s(i)) }
    v.push(spad(5, 2));
    v.push(spad(0x70, 5));
    v
}
pub fn bad_types() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = single((0..=255u8).filter(|b| !matches!(b, 0x7B..=0x7F | 0x69..=0x74 | 0x63 | 0x64)));
    for r in [0x63u8, 0x64] {
        for x in [-1i64, -2, -64, -65, -1000, -(1 << 32)] { v.push(cat(&[&[r], &s(x)])) }
        v.push(vec![r, 0x63]);
        v.push(vec![r, 0x7F]);
        v.push(cat(&[&[r], &s(1 << 32)]));
        // abstract heap types are single bytes, not padded integers
        v.push(cat(&[&[r], &spad(-16, 2)]));
        v.push(cat(&[&[r], &spad(-23, 5)]));
    }
    v
}

// ----------------------------------------------------------------- mutation

/// All single-byte substitutions, deletions and insertions of every module.
pub fn mutate1(run: &Run, name: &str, corpus: &[Vec<u8>], from: usize) {
    let idx: Vec<(usize, usize)> = corpus.iter().enumerate().flat_map(|(i, m)| (from..=m.len()).map(move |p| (i, p))).collect();
    run.par(name, idx.len() as u64, 1, |w, k| {
        let (i, p) = idx[k as usize];
        let m = &corpus[i];
        let mut b = m.clone();
        if p < m.len() {
            for x in 0..=255u8 {
                b[p] = x;
                w.check(&b);
            }
            b.copy_from_slice(m);
            b.remove(p);
            w.check(&b);
            b.insert(p, m[p]);
        }
        b.insert(p, 0);
        for x in 0..=255u8 {
            b[p] = x;
            w.check(&b);
        }
    });
    run.note(format!("{name}: {} modules, every position, all 256 substitutions and insertions, every deletion", corpus.len()));
}
/// All pairs of substitutions over `vals` at two positions of every module.
pub fn mutate2(run: &Run, name: &str, corpus: &[Vec<u8>], from: usize, vals: &[u8]) {
    let idx: Vec<(usize, usize)> = corpus.iter().enumerate().flat_map(|(i, m)| (from..m.len()).map(move |p| (i, p))).collect();
    run.par(name, idx.len() as u64, 1, |w, k| {
        let (i, p) = idx[k as usize];
        let m = &corpus[i];
        let mut b = m.clone();
        for q in p + 1..m.len() {
            for &x in vals {
                b[p] = x;
                for &y in vals {
                    b[q] = y;
                    w.check(&b);
                }
            }
            b.copy_from_slice(m);
        }
    });
    run.note(format!("{name}: {} modules, all pairs of positions x {} values each", corpus.len(), vals.len()));
}

/// Every integer site of the grammar: representative prefixes of all states that
/// expect an integer, in all roots.
pub fn all_num_sites(run: &Run) -> Vec<(Root, Vec<Vec<u8>>)> {
    let mut v = vec![];
    for id in 1..14 {
        let st = pda_structure(run, Root::Sec(id), 2, 0);
        v.push((Root::Sec(id), dev::num_sites(&st)));
    }
    let st = pda(run, Root::Func, 1, 0, 0);
    v.push((Root::Func, dev::num_sites(&st)));
    let st = pda_structure(run, Root::Sec(0), 2, 0);
    v.push((Root::Sec(0), dev::num_sites(&st)));
    v
}
pub fn order_modules(mask: u32) -> Vec<u8> {
    module(&ORDER.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, &id)| sec(id, &rich(id))).collect::<Vec<_>>())
}

/// The end of the preamble and of each section of a well-formed module.
pub fn section_ends(m: &[u8]) -> Vec<usize> {
    let mut v = vec![8];
    let mut p = 8;
    while p < m.len() {
        p += 1;
        let (mut n, mut k) = (0usize, 0);
        loop {
            let b = m[p];
            p += 1;
            n |= ((b & 0x7F) as usize) << k;
            k += 7;
            if b & 0x80 == 0 { break }
        }
        p += n;
        v.push(p);
    }
    assert!(p == m.len());
    v
}
