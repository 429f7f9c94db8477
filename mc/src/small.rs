//! Small scopes, exhaustively: every body that can be written with a few tokens
//! from a small alphabet. The automaton (`pda`) merges what the grammar cannot
//! tell apart, so it visits every state once; here nothing is merged, so every
//! combination of a few constructs occurs: what a decoder keeps of one when it
//! reads another is seen.
use crate::engine::{Run, W};
use crate::pda::{frame, key_len_role};
use crate::refdec::{Root, S, Step, run_body};
use std::sync::Mutex;
use std::sync::atomic::Ordering::Relaxed;

/// What may be written at every kind of place.
#[derive(Clone, Copy)]
pub struct Menu {
    pub ops: &'static [u8], pub bt: &'static [u8], pub vt: &'static [u8], pub zt: &'static [u8], pub ht: &'static [u8], pub rt: &'static [u8], pub st: &'static [u8], pub ct: &'static [u8],
    pub ext: &'static [u8], pub expk: &'static [u8], pub lim: &'static [u8], pub catchk: &'static [u8], pub num: &'static [u8], pub len: &'static [u8], pub bits: &'static [u8], pub memarg: &'static [u8],
    pub name: &'static [u8], pub raw: &'static [u8], pub cst: &'static [u8], pub tbl: &'static [u8], pub cast: &'static [u8], pub subs: &'static [u8], pub flag: &'static [u8],
}
pub const M: Menu = Menu {
    ops: &[0x0B, 0x01], bt: &[0x40, 0x7F], vt: &[0x7F, 0x7E], zt: &[0x7F, 0x78], ht: &[0x70, 1], rt: &[0x70, 0x6F], st: &[0x60, 0x5F], ct: &[0x60, 0x5F],
    ext: &[0, 1, 2, 3, 4], expk: &[0, 1, 2, 3, 4], lim: &[0, 1, 4, 5], catchk: &[0, 1, 2, 3], num: &[0, 1], len: &[0, 1, 2], bits: &[0, 1, 2, 3, 4, 5, 6, 7], memarg: &[0, 2, 0x40],
    name: b"ab", raw: &[0, 0x0B], cst: &[0, 1], tbl: &[0x70, 0x40], cast: &[0, 3], subs: &[8, 9], flag: &[0, 1],
};
impl Menu {
    fn at(&self, key: &[u32]) -> &'static [u8] {
        let s = *key.last().unwrap();
        let frame = if key.len() >= 4 { key[key.len() - 4] } else { 0 };
        match s {
            _ if s == S::Num as u32 => match frame {
                0x1409 | 0x110B => self.bits,
                0x0600 => self.subs,
                0x0400 => self.memarg,
                _ if key_len_role(key) => self.len,
                _ => self.num,
            },
            _ if s == S::Leb as u32 => &[0, 1],
            _ if s == S::Opcode as u32 => self.ops,
            _ if s == S::Bt as u32 => self.bt,
            _ if s == S::Vt as u32 => self.vt,
            _ if s == S::Zt as u32 => self.zt,
            _ if s == S::Ht as u32 => self.ht,
            _ if s == S::Rt as u32 => self.rt,
            _ if s == S::St as u32 => self.st,
            _ if s == S::Ct as u32 => self.ct,
            _ if s == S::Ext as u32 => self.ext,
            _ if s == S::ExpK as u32 => self.expk,
            _ if s == S::Lim as u32 => self.lim,
            _ if s == S::CatchK as u32 => self.catchk,
            _ if s == S::Name as u32 => self.name,
            _ if s == S::Raw as u32 => self.raw,
            _ if s == S::ConstB as u32 => self.cst,
            _ if s == S::Tbl as u32 => self.tbl,
            _ if s == S::Cast as u32 => self.cast,
            _ if s == S::Mutb as u32 => self.flag,
            _ => &[0],
        }
    }
}
/// bytes that are tried in every place where they are wrong
const WRONG: &[u8] = &[0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x08, 0x0B, 0x1F, 0x40, 0x41, 0x4E, 0x50, 0x5E, 0x5F, 0x60, 0x63, 0x64, 0x6F, 0x70, 0x77, 0x78, 0x7F, 0x80, 0xFB, 0xFC, 0xFD, 0xFF];

/// All bodies of up to so many bytes after `start`, each completed the shortest
/// way; of fewer bytes, also with every wrong byte in place of and in front of
/// the next one, and with bytes too many. How many bytes depends on how many
/// bodies there are of that length, hence on the menu alone.
pub fn bodies(run: &Run, name: &str, root: Root, start: &[u8], menu: &Menu) { bodies_in(run, name, root, start, menu, &|b, o| frame(root, b, o)) }
/// As `bodies`, in a module made by `wrap`.
pub fn bodies_in(run: &Run, name: &str, root: Root, start: &[u8], menu: &Menu, wrap: &(dyn Fn(&[u8], &mut Vec<u8>) + Sync)) {
    let mut level: Vec<Vec<u8>> = vec![start.to_vec()];
    let mut total = 0u64;
    let (most, most_wrong) = (run.q(150_000, 2_000_000) / run.shrink(), run.q(4_000, 60_000) / run.shrink());
    let (mut depth, mut wrong) = (0, 0);
    while !level.is_empty() && !run.failed() {
        let extend = level.len() < most && depth < 60;
        let spoil = level.len() < most_wrong;
        total += level.len() as u64;
        let next: Mutex<Vec<Vec<u8>>> = Mutex::default();
        run.par(name, level.len() as u64, 64, |w, i| {
            let mut body = level[i as usize].clone();
            let base = body.len();
            match run_body(root, &body) {
                Step::Need(key, _) => {
                    let mut kids: Vec<Vec<u8>> = vec![];
                    let menu = menu.at(&key);
                    // the shortest completion
                    let mut done = false;
                    for _ in 0..40 {
                        match run_body(root, &body) { Step::Need(_, d) => body.push(d), Step::Done => { done = true; break } _ => break }
                    }
                    let rest = body[base..].to_vec();
                    if done { put(w, &body, wrap) }
                    body.truncate(base);
                    for &b in menu {
                        body.push(b);
                        match run_body(root, &body) {
                            Step::Need(..) | Step::Done => if extend { kids.push(body.clone()) },
                            _ => {}
                        }
                        body.truncate(base);
                    }
                    if spoil {
                        put(w, &body, wrap);
                        for &b in WRONG {
                            body.push(b);
                            if matches!(run_body(root, &body), Step::Bad(_) | Step::Over) {
                                put(w, &body, wrap);
                                // as if it had not been there, and as if it had been right
                                body.extend(&rest);
                                put(w, &body, wrap);
                                body.truncate(base + 1);
                                body.extend(&rest[1..]);
                                put(w, &body, wrap);
                            }
                            body.truncate(base);
                        }
                    }
                    if !kids.is_empty() { next.lock().unwrap().extend(kids) }
                }
                Step::Done => {
                    put(w, &body, wrap);
                    if spoil {
                        for x in [&[0x0Bu8][..], &[0], &[1], &[0x05], &[0xFF], &[0x0B, 0x0B], &[0, 0], &[0, 0x0B]] {
                            body.extend(x);
                            put(w, &body, wrap);
                            body.truncate(base);
                        }
                        body.pop();
                        put(w, &body, wrap);
                    }
                }
                _ => {}
            }
        });
        if spoil { wrong = depth }
        level = next.into_inner().unwrap();
        if !level.is_empty() { depth += 1 }
    }
    run.states.fetch_add(total, Relaxed);
    run.note(format!("{name}: {root:?} after {}: all {total} bodies of up to {depth} bytes over the menu, every wrong byte in the first {wrong}", crate::engine::hex(start, 32)));
}
fn put(w: &mut W, body: &[u8], wrap: &(dyn Fn(&[u8], &mut Vec<u8>) + Sync)) {
    let mut buf = std::mem::take(&mut w.buf);
    wrap(body, &mut buf);
    w.check(&buf);
    w.buf = buf;
}

const BLOCKS: Menu = Menu { ops: &[0x0B, 0x05, 0x01, 0x02, 0x03, 0x04, 0x1F], catchk: &[2], num: &[0], len: &[0, 1], ..M };

/// Types: groups, subtypes, fields, parameters.
pub fn types(run: &Run) {
    let t = |nm: &str, start: &[u8], m: Menu| bodies(run, &format!("small scope: {nm}"), Root::Sec(1), start, &m);
    t("types", &[], Menu { st: &[0x60, 0x5E, 0x5F, 0x50, 0x4F, 0x4E], ct: &[0x60, 0x5E, 0x5F], num: &[0], vt: &[0x7F, 0x64], zt: &[0x7F, 0x78], ..M });
    t("parameters and results", &[1, 0x60], Menu { len: &[0, 1, 2, 3, 4], vt: &[0x7F, 0x7C, 0x70, 0x63], ht: &[0x70, 2], ..M });
    t("long parameter lists", &[1, 0x60], Menu { len: &[0, 5, 6, 7, 8], vt: &[0x7E, 0x7B], ..M });
    t("fields", &[1, 0x5F], Menu { len: &[0, 1, 2, 3, 4], zt: &[0x7F, 0x78, 0x64], ht: &[0x6E, 1], ..M });
    t("long field lists", &[1, 0x5F], Menu { len: &[5, 6], zt: &[0x77, 0x7E], ..M });
    t("arrays", &[3], Menu { st: &[0x5E], zt: &[0x7F, 0x78, 0x63, 0x6E], ht: &[0x6E, 1], ..M });
    t("supertypes", &[2], Menu { st: &[0x50, 0x4F, 0x60], ct: &[0x60], num: &[0, 1, 2], len: &[0, 1, 2, 3], vt: &[0x7F], ..M });
    t("recursive groups", &[2], Menu { st: &[0x4E, 0x5E, 0x50], ct: &[0x5E], len: &[0, 1, 2, 3], zt: &[0x77], ht: &[0], num: &[0], ..M });
}
/// Locals, the end of a body, its size.
pub fn locals(run: &Run) {
    let t = |nm: &str, start: &[u8], m: Menu| bodies(run, &format!("small scope: {nm}"), Root::Func, start, &m);
    t("locals", &[], Menu { len: &[0, 1, 2, 3, 4], num: &[0, 1, 2], vt: &[0x7F, 0x7E, 0x64], ht: &[0x6E, 0], ..M });
    t("locals and instructions", &[], Menu { len: &[0, 1, 2, 3], num: &[1, 2], vt: &[0x7F, 0x70], ops: &[0x0B, 0x01, 0x41, 0x02], bt: &[0x40], ..M });
    // the last of several functions, with neighbours before and behind
    for (k, n) in [(0, 2), (1, 2), (1, 3), (2, 3)] {
        bodies_in(run, "small scope: one function of several", Root::Func, &[], &Menu { len: &[0, 1, 2, 3], num: &[1, 3], vt: &[0x7E, 0x7B], ..M }, &|b, o| {
            use crate::wasm::*;
            let es: Vec<Vec<u8>> = (0..n).map(|j| if j == k { entry(b) } else { entry(&[1, 1, 0x7F, 0x41, j as u8, 0x1A, 0x0B]) }).collect();
            *o = module(&[sec(3, &rep(n, &[0])), sec(12, &[0]), sec(10, &list(&es)), custom(b"z", b"")]);
        });
    }
}
/// Blocks in blocks.
pub fn blocks(run: &Run) {
    let t = |nm: &str, start: &[u8], m: Menu| bodies(run, &format!("small scope: {nm}"), Root::Func, start, &m);
    t("blocks", &[0], Menu { bt: &[0x40], ..BLOCKS });
    t("typed blocks", &[0], Menu { bt: &[0x40, 0x7F, 0], ops: &[0x0B, 0x05, 0x02, 0x03, 0x04], ..BLOCKS });
    t("conditionals", &[0], Menu { bt: &[0x40, 0x7F], ops: &[0x0B, 0x05, 0x04, 0x01], ..BLOCKS });
    t("try_tables", &[0], Menu { bt: &[0x40], ops: &[0x0B, 0x1F, 0x05, 0x01], len: &[0, 1, 2, 3], catchk: &[0, 2, 3], ..BLOCKS });
    t("try_tables among others", &[0], Menu { bt: &[0x40, 0x7E], ops: &[0x0B, 0x1F, 0x04, 0x02], len: &[0, 1, 2], catchk: &[1, 2], num: &[3], ..BLOCKS });
    // without tokens in between, deeper
    t("only brackets", &[0, 0x04, 0x40], Menu { bt: &[0x40], ops: &[0x0B, 0x05, 0x04], ..BLOCKS });
    for ctx in 1..crate::wasm::EXPR_CONTEXTS {
        bodies_in(run, "small scope: blocks in constant expressions", Root::Func, &[0], &Menu { bt: &[0x40], len: &[0, 1], ..BLOCKS }, &|b, o| *o = crate::wasm::expr_in(ctx, b[1..].strip_suffix(&[0x0B]).unwrap_or(&b[1..])));
    }
}
/// A few instructions of different shapes behind each other.
pub fn instructions(run: &Run) {
    let t = |nm: &str, m: Menu| bodies(run, &format!("small scope: {nm}"), Root::Func, &[0], &m);
    t("instructions", Menu { ops: &[0x0B, 0x1A, 0x20, 0x41, 0x0E, 0x1C, 0x11, 0xD0, 0x28], vt: &[0x7F, 0x70], num: &[0, 1], ..M });
    t("branch tables", Menu { ops: &[0x0B, 0x0E], num: &[0, 1, 2], len: &[0, 1, 2, 3, 4], ..M });
    t("select types", Menu { ops: &[0x0B, 0x1C], vt: &[0x7F, 0x7E, 0x70, 0x64], len: &[0, 1, 2, 3, 4], ht: &[0x6E, 0], ..M });
    t("memory operands", Menu { ops: &[0x0B, 0x28, 0x3F, 0x36], num: &[0, 1], ..M });
    t("prefixed instructions", Menu { ops: &[0x0B, 0xFC, 0xFB, 0x20], subs: &[0, 8, 9, 10, 12, 14, 20, 22, 24, 28], ht: &[0x6E, 1], num: &[0, 2], ..M });
    t("vector instructions", Menu { ops: &[0x0B, 0xFD, 0x01], subs: &[0, 11, 21, 84, 93, 100], num: &[0, 2], memarg: &[0, 3, 0x41], ..M });
    t("casts", Menu { ops: &[0x0B, 0xFB], subs: &[20, 21, 24, 25], cast: &[0, 1, 2, 3], ht: &[0x6E, 0x70, 0, 1], num: &[0, 1], ..M });
}
/// Instructions with data indices among others, where no data count announces them.
pub fn data_indices(run: &Run) {
    use crate::wasm::*;
    let t = |nm: &str, m: Menu| bodies_in(run, &format!("small scope: {nm}"), Root::Func, &[0], &m, &|b, o| *o = module(&[sec(3, &[1, 0]), sec(10, &list(&[entry(b)]))]));
    t("data indices after leaving", Menu { ops: &[0x0B, 0x0F, 0x00, 0x0C, 0xFC], subs: &[9], num: &[0], ..M });
    t("data indices in blocks", Menu { ops: &[0x0B, 0x05, 0x04, 0x02, 0xFC], subs: &[8], bt: &[0x40], num: &[0], ..M });
    t("data indices among prefixed instructions", Menu { ops: &[0x0B, 0xFB, 0xFC], subs: &[0, 8, 9, 10, 18], num: &[0], ..M });
}
/// Entries of the other sections.
pub fn entries(run: &Run, ids: &[u8]) {
    for &id in ids {
        let t = |nm: &str, start: &[u8], m: Menu| bodies(run, &format!("small scope: {nm}"), Root::Sec(id), start, &m);
        match id {
            2 => {
                t("imports", &[], Menu { len: &[0, 1, 2, 3], name: b"a", num: &[0, 1], ..M });
                t("unnamed imports", &[2, 0, 0], Menu { len: &[0], rt: &[0x70, 0x64], ht: &[0x70, 1], vt: &[0x7F, 0x63], ..M });
                t("imported functions and tags", &[], Menu { len: &[0, 1, 2, 3, 4], name: b"ab", ext: &[0, 4], num: &[0, 3], ..M });
            }
            7 => {
                t("exports", &[], Menu { len: &[0, 1, 2, 3], name: b"ab", num: &[0, 1], expk: &[0, 1, 2, 3, 4], ..M });
                t("exports of functions", &[], Menu { len: &[0, 1, 2, 3, 4], name: b"ab", num: &[0, 1], expk: &[0, 3], ..M });
            }
            3 => t("type indices", &[], Menu { len: &[0, 1, 2, 3, 4, 5, 6], num: &[0, 1, 2, 3], ..M }),
            4 => {
                t("tables", &[], Menu { len: &[0, 1, 2, 3], tbl: &[0x70, 0x40, 0x64], ht: &[0x70, 0], ops: &[0x0B, 0x41], ..M });
            }
            5 => t("memories", &[], Menu { len: &[0, 1, 2, 3, 4, 5], num: &[0, 1, 3], ..M }),
            6 => {
                t("globals", &[], Menu { len: &[0, 1, 2, 3], vt: &[0x7F, 0x70, 0x63], ht: &[0x70, 1], ops: &[0x0B, 0x41, 0x23], ..M });
            }
            9 => {
                t("element segments", &[], Menu { len: &[0, 1, 2], ops: &[0x0B, 0x41], num: &[0, 1], ..M });
                t("element segments of functions", &[], Menu { len: &[0, 1, 2, 3], ops: &[0x0B], bits: &[0, 1, 2, 3], num: &[0, 1], ..M });
                t("element segments of expressions", &[], Menu { len: &[0, 1, 2, 3], ops: &[0x0B, 0xD2], bits: &[4, 5, 6, 7], num: &[0, 1], rt: &[0x70, 0x64], ht: &[0x6E], ..M });
            }
            11 => {
                t("data segments", &[], Menu { len: &[0, 1, 2, 3], ops: &[0x0B, 0x41], bits: &[0, 1, 2], num: &[0, 1], ..M });
            }
            13 => t("tags", &[], Menu { len: &[0, 1, 2, 3, 4, 5], num: &[0, 1, 2, 3], ..M }),
            _ => {}
        }
    }
}
