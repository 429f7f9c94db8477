//! The syntactic properties: each decided by exploration of the grammar and of
//! structured input spaces against the reference model.
use crate::dev::{self, Alpha, single};
use crate::engine::Run;
use crate::gens::*;
use crate::pda;
use crate::refdec::{ORDER, Root};
use crate::wasm::*;

pub fn c01(run: &Run) {
    umbrella(run);
    for id in 0..14 { pda(run, Root::Sec(id), if matches!(id, 9) { 1 } else { run.q(1, 2) }, run.q(0, 1), run.q(0, 3)); }
    pda(run, Root::Func, run.q(1, 2), run.q(1, 2), run.q(0, 3));
    for id in 0..14 { pda::all_strings(run, "all contents", Root::Sec(id), run.q(2, 3)); }
    pda::all_strings(run, "all contents", Root::Func, run.q(2, 3));
    run.note(format!("all byte strings up to {} bytes as content of every section and as function body", run.q(2, 3)));
    // whole modules
    run.par("all short files", 1 + 256 + 65536, 4096, |w, i| {
        let b = i.to_be_bytes();
        match i { 0 => { w.check(&[]); } 1..=256 => { w.check(&[(i - 1) as u8]); } _ => { let b2 = (i - 257) as u16; w.check(&b2.to_be_bytes()); let _ = b; } }
    });
    run.par("preamble bytes", 8 * 256, 256, |w, i| {
        let mut m = full();
        m[(i / 256) as usize] = i as u8;
        w.check(&m);
        w.check(&m[..8]);
    });
    // pairs of preamble bytes, its permutations, and versions in use
    run.par("pairs of preamble bytes", 28 * 65536, 4096, |w, i| {
        if w.run.lite() && i % 16 != 0 { return }
        let mut k = i / 65536;
        let mut a = 0;
        while k >= 7 - a { k -= 7 - a; a += 1 }
        let mut m = [&PRE[..], &[0, 2, 1, b'x']].concat();
        m[a as usize] = (i >> 8) as u8;
        m[(a + 1 + k) as usize] = i as u8;
        w.check(&m);
        w.check(&m[..8]);
    });
    run.one("preambles", |w| {
        let rest = &full()[8..];
        let magic: [[u8; 4]; 8] = [*b"\0asm", *b"msa\0", *b"\0ASM", *b"asm\0", *b"\0wsm", *b"wasm", *b"\0msa", *b"as\0m"];
        let mut vers: Vec<[u8; 4]> = [0u32, 1, 2, 3, 10, 11, 12, 13, 14, 0x0d_0000 >> 8, 100, 256, 0x100, 0xFFFF_FFFF, 0x6d_7361, 0xD].iter().flat_map(|v| [v.to_le_bytes(), v.to_be_bytes()]).collect();
        for layer in 0..=3u16 { for v in 0..=0x1F_u16 { let (a, b) = (v.to_le_bytes(), layer.to_le_bytes()); vers.push([a[0], a[1], b[0], b[1]]); vers.push([b[0], b[1], a[0], a[1]]) } }
        for m in magic { for v in &vers { for r in [&[][..], rest, &[0], &[0, 1, 0], &[0, 0], b"\0asm\x01\0\0\0"] { w.check(&cat(&[&m, v, r])); } } }
        // every arrangement of the eight bytes that keeps each byte's place in its half
        for p in 0..24 * 24 {
            let perm = |mut k: usize, b: &[u8]| { let mut b = b.to_vec(); let mut o = vec![]; for n in (1..=4).rev() { o.push(b.remove(k % n)); k /= n } o };
            let x = cat(&[&perm(p % 24, &PRE[..4]), &perm(p / 24, &PRE[4..])]);
            w.check(&x);
            w.check(&cat(&[&x, rest]));
        }
        // something in front of, or twice, the preamble
        for pre in [&b"\xEF\xBB\xBF"[..], b"\xFF\xFE", b"#!/usr/bin/env wasmtime\n", b"\n", b" ", b"\0", b"\x1F\x8B\x08", b"PK\x03\x04", b"(module)", b"(module", b"\x7FELF", b"BC\xC0\xDE", &PRE, b"\0asm", b"\x28\xB5\x2F\xFD"] {
            for r in [&[][..], rest] { w.check(&cat(&[pre, &PRE, r])); w.check(&cat(&[pre, r])); w.check(pre); }
        }
    });
    run.note("every pair of preamble bytes, arrangements of them, versions in use, and well-known beginnings");
    for n in 1..=run.q(2u32, 3) {
        run.par("all bytes after the preamble", 256u64.pow(n), 4096, |w, i| {
            let mut m = PRE.to_vec();
            m.extend(&i.to_be_bytes()[8 - n as usize..]);
            w.check(&m);
        });
    }
    // nesting of every kind, around round numbers and powers of two
    let mut deep: Vec<usize> = vec![100, 101, 200, 201, 250, 300, 400, 500, 501, 600, 800, 1000, 1001, 2000, 3000, 5000, 10_000, 10_001, 20_000];
    for k in 5..=16 { deep.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]) }
    run.par("deep nests", deep.len() as u64 * 6, 1, |w, i| {
        let d = deep[(i / 6) as usize];
        let (open, close): (&[u8], &[u8]) = [(&[0x02u8, 0x40][..], &[0x0Bu8][..]), (&[0x03, 0x7F], &[0x0B]), (&[0x04, 0x40], &[0x0B]), (&[0x04, 0x40], &[0x05, 0x0B]), (&[0x04, 0x7F, 0x05], &[0x0B]), (&[0x1F, 0x40, 1, 2, 0], &[0x0B])][(i % 6) as usize];
        let b = cat(&[&open.repeat(d), &[0x41, 7], &close.repeat(d), &[0x41, 1]]);
        w.check(&code(&b));
        if d < 1100 { for ctx in 1..EXPR_CONTEXTS { w.check(&expr_in(ctx, &b)); } }
        w.check(&code(&b[..b.len() - 3]));
        w.check(&code(&cat(&[&b, &[0x0B]])));
    });
    // types and integers in every place
    let mut ts = valtypes();
    ts.extend(bad_types());
    run.par("types in every place", ts.len() as u64, 1, |w, i| { for p in type_places(&ts[i as usize]) { w.check(&p); } });
    type_bytes(run);
    let mut encs: Vec<Vec<u8>> = vec![];
    for n in 1..=11usize { for pat in [0x80u8, 0xFF] { for last in [0u8, 1, 2, 7, 8, 0x0F, 0x10, 0x1F, 0x3F, 0x40, 0x6F, 0x70, 0x77, 0x78, 0x7E, 0x7F] { let mut e = vec![pat; n - 1]; e.push(last); encs.push(e) } } }
    for (root, ps) in &all_num_sites(run) { dev::at_sites(run, "integers in every place", *root, ps, &encs); }
    let mut corpus = small_corpus();
    let fx = fixtures();
    run.cases("corpus", &corpus);
    run.cases("corpus", &fx);
    corpus.truncate(run.q(17, 100));
    corpus.extend(fx.into_iter().filter(|f| f.len() < run.q(120, 2000)));
    mutate1(run, "corpus, one byte changed", &corpus, 8);
    let small: Vec<_> = small_corpus().into_iter().filter(|m| m.len() < run.q(60, 140)).collect();
    mutate2(run, "corpus, two bytes changed", &small, 8, if run.thorough() { &[0, 1, 2, 3, 4, 5, 0x0B, 0x10, 0x40, 0x41, 0x60, 0x63, 0x70, 0x7F, 0x80, 0xFC, 0xFD, 0xFF] } else { &[0, 1, 0x0B, 0x70, 0x80, 0xFF] });
    let (wide, narrow) = (Alpha::wide(), Alpha::narrow());
    for id in 1..14 { dev::explore(run, "deviations", Root::Sec(id), &[], if run.thorough() { &wide } else { &narrow }, 2); }
    dev::explore(run, "deviations", Root::Func, &[0], if run.thorough() { &wide } else { &narrow }, 2);
}

/// The inputs of the other syntactic properties, for properties that concern all inputs.
pub fn umbrella(run: &Run) {
    run.lite.store(true, std::sync::atomic::Ordering::Relaxed);
    for f in [c02, c03, c04, c05, c06, c07, c08, c09, c10, c19, c20, c21, c22] {
        let t = std::time::Instant::now();
        f(run);
        if std::env::var("MC_TRACE").is_ok() { eprintln!("# umbrella {:.1} s", t.elapsed().as_secs_f64()) }
    }
    run.lite.store(false, std::sync::atomic::Ordering::Relaxed);
}

/// contents whose declared size can be played with
fn small_contents(id: u8) -> Vec<Vec<u8>> {
    let mut v = vec![minimal(id)];
    if id == 10 { v.push(list(&[entry(&[0, 0x0B])])); v.push(list(&[entry(&[1, 1, 0x7F, 0x0B]), entry(&[0, 0x41, 0, 0x1A, 0x0B])])) }
    v.push(rich(id));
    v
}
fn with_size(id: u8, size: u64, body: &[u8]) -> Vec<u8> { cat(&[&[id], &u(size), body]) }

pub fn c02(run: &Run) {
    // sequences of sections
    let letters: Vec<Vec<u8>> = (0..=14u8).map(|id| sec(id, &if id == 0 { name(b"") } else { minimal(id.min(13)) })).collect();
    let n = run.q(5u32, 6);
    for k in 0..=n {
        run.par("section sequences", 15u64.pow(k), 512, |w, i| {
            let mut m = PRE.to_vec();
            let mut q = i;
            for _ in 0..k { m.extend(&letters[(q % 15) as usize]); q /= 15; }
            w.check(&m);
        });
    }
    run.note(format!("all sequences of up to {n} sections over the 14 kinds and an unknown one"));
    // unknown ids
    run.par("section ids", 256 * 3, 64, |w, i| {
        let id = (i % 256) as u8;
        let c = sec(0, &name(b"c"));
        match i / 256 {
            0 => w.check(&module(&[sec(id, &[0])])),
            1 => w.check(&module(&[c, sec(id, &[1, 2, 3])])),
            _ => w.check(&module(&[sec(1, &[0]), sec(id, &[]), sec(11, &[0])])),
        };
    });
    // moved, repeated and dropped sections of a module with all of them
    let secs: Vec<Vec<u8>> = ORDER.iter().map(|&id| sec(id, &rich(id))).collect();
    run.par("moved sections", 13 * 14 * 3, 8, |w, i| {
        let (from, to, how) = ((i % 13) as usize, (i / 13 % 14) as usize, i / (13 * 14));
        let mut v = secs.clone();
        match how {
            0 => { let x = v.remove(from); v.insert(to.min(12), x); }
            1 => { let x = v[from].clone(); v.insert(to, x); }
            _ => { v.insert(to, sec(ORDER[from], &minimal(ORDER[from]))); }
        }
        w.check(&module(&v));
        // with custom sections in between
        let c = custom(b"x", &[1]);
        let w2: Vec<Vec<u8>> = v.iter().flat_map(|s| [c.clone(), s.clone()]).collect();
        w.check(&module(&w2));
        let mut w3 = v.clone();
        w3.insert(to.min(w3.len()), c.clone());
        w3.push(c);
        w.check(&module(&w3));
    });
    run.par("swapped sections", 13 * 13 * 13, 64, |w, i| {
        let (a, b, c) = ((i % 13) as usize, (i / 13 % 13) as usize, (i / 169) as usize);
        let mut v = secs.clone();
        v.swap(a, b);
        v.swap(b, c);
        w.check(&module(&v));
    });
    // declared sizes: one section off by d, whatever follows
    let mut ds: Vec<i64> = (-9..=9).collect();
    for k in [4, 5, 6, 7, 8, 14, 15, 16, 21, 24, 28, 31] { ds.extend([1i64 << k, (1 << k) - 1, -(1 << k), 128 - (1 << k)]) }
    let mut cases = vec![];
    for id in 0..14u8 {
        for body in small_contents(id) {
            for &d in &ds {
                let size = body.len() as i64 + d;
                if !(0..1 << 32).contains(&size) { continue }
                let before: Vec<u8> = match id { 10 => { let n = first_u32(&body).unwrap(); cat(&[&sec(3, &rep(n as usize, &[0])), &sec(12, &[0])]) } _ => vec![] };
                let own = with_size(id, size as u64, &body);
                for follow in [vec![], vec![0], vec![0; 4], sec(0, &name(b"q")), vec![0x0B; 3], vec![0xFF; 2], sec(11, &[0]), vec![0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0]] {
                    cases.push(cat(&[&PRE, &before, &own, &follow]));
                    // filler inside the declared size, then the rest
                    if d > 0 && d < 300 {
                        for fill in [0u8, 0x0B, 0xFF, 1] { cases.push(cat(&[&PRE, &before, &own, &vec![fill; d as usize], &follow])) }
                    }
                }
            }
        }
    }
    run.cases("declared sizes", &cases);
    // the same in a module of many sections; two sizes off at a time
    let ids: Vec<u8> = { let mut v = vec![0]; v.extend(ORDER); v };
    let deltas: &[i64] = if run.thorough() { &[-3, -2, -1, 1, 2, 3] } else { &[-2, -1, 1, 2] };
    let nd = deltas.len() as u64 + 1;
    run.par("two declared sizes", 14 * 14 * nd * nd, 64, |w, i| {
        let (a, b) = ((i % 14) as usize, (i / 14 % 14) as usize);
        let d = |x: u64| if x == 0 { 0 } else { deltas[x as usize - 1] };
        let (da, db) = (d(i / 196 % nd), d(i / 196 / nd));
        if b < a { return }
        for variant in 0..2 {
            let mut m = PRE.to_vec();
            for (k, &id) in ids.iter().enumerate() {
                let body = if variant == 0 { rich(id) } else if id == 0 { name(b"abc") } else { minimal(id) };
                let mut size = body.len() as i64;
                if k == a { size += da }
                if k == b { size += db }
                m.extend(with_size(id, size.max(0) as u64, &body));
            }
            w.check(&m);
        }
    });
    // section sizes padded, sections of many sizes
    let mut cases = vec![];
    for id in 0..14u8 {
        for n in 1..=6 {
            let body = match id { 0 => rich(0), 3 => vec![0], 10 => vec![0], 12 => vec![0], id => rich(id) };
            cases.push(cat(&[&PRE, &[id], &upad(body.len() as u64, n), &body]));
            cases.push(cat(&[&PRE, &[id], &upad(body.len() as u64, n), &body, &custom(b"t", b"x")]));
        }
    }
    for n in (0..600).chain([16381, 16382, 16383, 16384, 16385, 65530, 65534, 65535, 65536, 65537, 1 << 20]) {
        cases.push(module(&[custom(b"", &vec![7; n]), sec(1, &[0])]));
        cases.push(module(&[sec(11, &list(&[cat(&[&[1], &name(&vec![9; n])])])), custom(b"end", b"")]));
        cases.push(module(&[sec(1, &rep(n.min(70000), &[0x60, 0, 0])), sec(3, &[0])]));
    }
    run.cases("section sizes", &cases);
    for id in 0..14 { pda_structure(run, Root::Sec(id), 1, 0); }
    mutate1(run, "full module, one byte changed", &[full()], 8);
}

pub fn c03(run: &Run) {
    // counts: absent or 0..3, and a data index somewhere or nowhere
    let dx: [&[u8]; 4] = [&[0xFC, 8, 0, 0], &[0xFC, 9, 0], &[0xFB, 9, 0, 0], &[0xFB, 18, 0, 0]];
    let build = |n: Option<usize>, m: Option<usize>, c: Option<u64>, d: Option<usize>, at: Option<(usize, &[u8])>| {
        let mut v = vec![];
        if let Some(n) = n { v.push(sec(3, &list(&(0..n).map(|i| u(i as u64 + 5)).collect::<Vec<_>>()))) }
        if let Some(c) = c { v.push(sec(12, &u(c))) }
        if let Some(m) = m {
            v.push(sec(10, &list(&(0..m).map(|i| entry(&cat(&[&[0, 0x41], &u((i % 64) as u64), &[0x1A], match at { Some((j, x)) if i == j => x, _ => &[] }, &[0x0B]]))).collect::<Vec<_>>())))
        }
        if let Some(d) = d { v.push(sec(11, &list(&(0..d).map(|i| vec![1, 1, i as u8]).collect::<Vec<_>>()))) }
        module(&v)
    };
    let mut cases = vec![];
    let opt = |i: usize| if i == 0 { None } else { Some(i - 1) };
    for n in 0..5 { for m in 0..5 { for c in 0..5 { for d in 0..5 {
        cases.push(build(opt(n), opt(m), opt(c).map(|x| x as u64), opt(d), None));
        for j in 0..opt(m).unwrap_or(0) { for x in dx { cases.push(build(opt(n), opt(m), opt(c).map(|x| x as u64), opt(d), Some((j, x)))) } }
    } } } }
    run.note("function, code, data and data count each absent or 0..3, every data-index instruction in every function");
    let big = [0usize, 1, 2, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 65535, 65536, 65537];
    for &a in &big { for &b in &big {
        if a.max(b) > 1000 && !run.thorough() && a.abs_diff(b) > 1 && a.min(b) > 2 && a % 256 != b % 256 { continue }
        cases.push(build(Some(a), Some(b), None, None, None));
        cases.push(build(None, None, Some(a as u64), Some(b), None));
        if a == b { cases.push(build(Some(a), Some(b), None, None, Some((a.saturating_sub(1), dx[1])))); cases.push(build(Some(a), Some(b), None, None, Some((a / 2, dx[0])))); cases.push(build(Some(a), Some(b), Some(0), None, Some((a / 2, dx[0])))); }
    } }
    for d in 0..4usize {
        for k in 2..32 { for x in [1u64 << k, (1 << k) + d as u64, (1 << k) - 1] { cases.push(build(None, None, Some(x), Some(d), None)); if d == 0 { cases.push(build(None, None, Some(x), None, None)) } } }
        cases.push(build(None, None, Some(u32::MAX as u64), Some(d), None));
    }
    run.cases("counts", &cases);
    // data indices at every nesting path, in every function of three
    let depth = run.q(4, 6);
    for (xi, x) in dx.iter().enumerate() {
        let paths = nested(x, depth);
        run.par("data index nesting", paths.len() as u64 * 8, 32, |w, i| {
            let p = &paths[(i / 8) as usize];
            let (j, how) = ((i % 4) as usize, i / 4 % 2);
            let bodies: Vec<Vec<u8>> = (0..3).map(|k| entry(&cat(&[&[0], if k == j || (j == 3 && k != 1) { &p[..] } else { &[0x01] }, &[0x0B]]))).collect();
            let mut v = vec![sec(3, &list(&[vec![0], vec![1], vec![2]]))];
            if how == 1 { v.push(sec(12, &[1])) }
            v.push(sec(10, &list(&bodies)));
            if how == 1 { v.push(sec(11, &[1, 1, 0])) }
            w.check(&module(&v));
            if xi == 0 && how == 1 { v.insert(1, custom(b"c", b"")); w.check(&module(&v)); }
        });
    }
    run.note(format!("data-index instructions under every path of up to {depth} open blocks"));
    // data indices in constant expressions do not count; neither do other instructions
    let mut cases = vec![];
    for x in dx {
        for ctx in 1..EXPR_CONTEXTS {
            let m = expr_in(ctx, x);
            cases.push(m.clone());
            let code = cat(&[&sec(3, &[1, 0]), &[]]);
            let _ = code;
            // with a code section that has none, and one that has some
            let id = m[8];
            for b in [&[0x01u8][..], x, &[0x02, 0x40, 0xFC, 9, 0, 0x0B]] {
                let mut parts = vec![(3u8, sec(3, &[1, 0])), (id, m[8..].to_vec()), (10, sec(10, &list(&[entry(&cat(&[&[0], b, &[0x0B]]))])))];
                parts.sort_by_key(|p| crate::refdec::rank(p.0));
                cases.push(module(&parts.iter().map(|p| p.1.clone()).collect::<Vec<_>>()));
                let mut parts2 = parts.clone();
                parts2.push((12, sec(12, &[if id == 11 { 1 } else { 0 }])));
                parts2.sort_by_key(|p| crate::refdec::rank(p.0));
                cases.push(module(&parts2.iter().map(|p| p.1.clone()).collect::<Vec<_>>()));
            }
        }
    }
    for i in instrs(&Alpha::narrow(), 1) {
        cases.push(module(&[sec(3, &[1, 0]), sec(10, &list(&[entry(&cat(&[&[0], &i, &[0x0B]]))]))]));
        cases.push(module(&[sec(3, &[1, 0]), sec(10, &list(&[entry(&cat(&[&[0, 0x02, 0x40], &i, &[0x0B, 0x0B]]))]))]));
    }
    run.cases("who needs a data count", &cases);
    // behind and before every other instruction, at the top and in blocks
    let all = instrs1();
    run.par("a data index next to every instruction", all.len() as u64, 2, |w, i| {
        let x = &all[i as usize];
        for d in dx {
            for body in [cat(&[x, d]), cat(&[d, x]), cat(&[&[0x02, 0x40], x, d, &[0x0B]]), cat(&[&[0x04, 0x40], x, &[0x05], d, &[0x0B]]), cat(&[&[0x03, 0x40], x, &[0x0B], d]), cat(&[&[0x02, 0x40], d, &[0x0B], x]), cat(&[x, &[0x1F, 0x40, 0], d, &[0x0B]])] {
                let e = entry(&cat(&[&[0], &body, &[0x0B]]));
                w.check(&module(&[sec(3, &[1, 0]), sec(10, &list(&[e.clone()]))]));
                w.check(&module(&[sec(3, &[2, 0, 1]), sec(12, &[0]), sec(10, &list(&[entry(&cat(&[&[0], x, &[0x0B]])), e]))]));
            }
        }
    });
    // the numbers of everything else do not matter
    let others = run.q3(3u64.pow(3), 3u64.pow(8), 3u64.pow(9));
    run.par("counts next to counts of everything", 256 * others, 256, |w, i| {
        let (mut q, mut r) = (i % 256, i / 256);
        let mut d = |n: u64| { if n == 4 { let x = q % 4; q /= 4; x } else { let x = r % 3; r /= 3; x } };
        let opt = |x: u64| x.checked_sub(1).map(|x| x as usize);
        let (funcs, codes, count, data) = (opt(d(4)), opt(d(4)), opt(d(4)), opt(d(4)));
        let mut v = Vec::with_capacity(13);
        let (imps, exps, types, tables, mems, globals, elems, tags, start) = (d(3), d(3), d(3), d(3), d(3), d(3), d(3), d(3), d(3));
        let mut rest = |id: u8, n: u64, x: &[u8]| if n > 0 { v.push(sec(id, &rep(n as usize, x))) };
        rest(1, types, &[0x60, 0, 0]);
        rest(2, imps, &[0, 1, b'f', 0, 0]);
        if let Some(n) = funcs { rest(3, n as u64 + 100, &[0]); }
        rest(4, tables, &[0x70, 0, 1]);
        rest(5, mems, &[0, 1]);
        rest(13, tags, &[0, 0]);
        rest(6, globals, &[0x7F, 0, 0x41, 0, 0x0B]);
        rest(7, exps, &[1, b'e', 0, 0]);
        if start > 0 { v.push(sec(8, &u(start - 1))) }
        let mut rest = |id: u8, n: u64, x: &[u8]| if n > 0 { v.push(sec(id, &rep(n as usize, x))) };
        rest(9, elems, &[0, 0x41, 0, 0x0B, 1, 0]);
        if let Some(c) = count { v.push(sec(12, &u(c as u64))) }
        if let Some(n) = codes { v.push(sec(10, &rep(n, &[2, 0, 0x0B]))) }
        if let Some(n) = data { v.push(sec(11, &rep(n, &[1, 1, b'd']))) }
        if let Some(n) = funcs { let p = v.iter().position(|s| s[0] == 3).unwrap(); v[p] = sec(3, &rep(n, &[0])); }
        w.check(&module(&v));
    });
    run.note("function, code, data count and data each absent or 0..2, next to 0..2 of every other kind of entry");
    crate::small::data_indices(run);
    // pairing of types and entries
    run.par("pairing", 700, 8, |w, n| { w.check(&build(Some(n as usize), Some(n as usize), None, None, None)); });
    if !run.lite() { for id in [3, 12] { pda(run, Root::Sec(id), run.q(2, 4), 0, 2); } }
    // all orders and repetitions of the four sections with small counts
    let letters: Vec<Vec<u8>> = vec![
        sec(3, &[1, 0]), sec(3, &[0]), sec(3, &[2, 0, 1]), sec(12, &[0]), sec(12, &[1]), sec(10, &[0]),
        sec(10, &list(&[entry(&[0, 0x0B])])), sec(10, &list(&[entry(&[0, 0xFC, 9, 0, 0x0B])])), sec(11, &[0]), sec(11, &[1, 1, 0]), custom(b"", b""),
        sec(6, &[1, 0x7F, 0, 0xFC, 9, 0, 0x0B]), sec(10, &list(&[entry(&[0, 0xFC, 8, 0, 0, 0x0B]), entry(&[0, 0x0B])])),
    ];
    let nl = letters.len() as u64;
    let k = run.q(4u32, 5);
    run.par("sequences of the sections concerned", nl.pow(k), 256, |w, i| {
        let mut m = PRE.to_vec();
        let mut q = i;
        for _ in 0..k { m.extend(&letters[(q % nl) as usize]); q /= nl; }
        w.check(&m);
    });
}

pub fn c04(run: &Run) {
    let sites = all_num_sites(run);
    // exhaustive in the last byte, the others from a few patterns
    let mut encs: Vec<Vec<u8>> = vec![];
    for n in 1..=12usize {
        for pat in [0x80u8, 0xFF, 0xC0, 0x81] {
            if run.lite() && pat & 0x7F != 0 && pat != 0xFF { continue }
            for last in 0..=255u8 { if run.lite() && last % 8 > 1 && last % 8 < 7 { continue } let mut e = vec![pat; n - 1]; e.push(last); encs.push(e) }
            for last in [0u8, 1, 0x7F, 0x70, 0x40, 0x0F, 0x3F] {
                for at in 0..n.saturating_sub(1) { for x in [0x80u8, 0xFF, 0xC0, 0xBF, 0x81] { let mut e = vec![pat; n - 1]; e.push(last); e[at] = x; encs.push(e) } }
            }
        }
    }
    let few: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = encs.clone();
        v.sort();
        v.dedup();
        v
    };
    let mut values: Vec<Vec<u8>> = vec![];
    for v in bounds(64) { for n in 1..=11 { let e = upad(v, n); if e.len() == n { values.push(e) } } }
    for v in sbounds(64) { for n in 1..=11 { let e = spad(v, n); if e.len() == n { values.push(e) } } }
    values.sort();
    values.dedup();
    run.note(format!("{} integer sites; {} encodings exhaustive in the last byte, {} encodings of boundary values at every padding", sites.iter().map(|s| s.1.len()).sum::<usize>(), few.len(), values.len()));
    for (root, ps) in &sites {
        dev::at_sites(run, "last byte exhaustive", *root, ps, &few);
    }
    // one site per integer type and role, all boundary values at all paddings; thorough: every site
    for (root, ps) in &sites {
        let ps: Vec<Vec<u8>> = if run.thorough() { ps.clone() } else { ps.iter().take(if *root == Root::Func { 40 } else { 12 }).cloned().collect() };
        dev::at_sites(run, "boundary values, all paddings", *root, &ps, &values);
    }
    // every 1- to 3-byte encoding (and every 4-byte one: thorough) at a site of each integer type
    let types: [(&str, Root, &[u8]); 8] = [
        ("u32", Root::Func, &[0, 0x20]), ("u64 memarg", Root::Func, &[0, 0x28, 0]), ("s32", Root::Func, &[0, 0x41]), ("s64", Root::Func, &[0, 0x42]),
        ("s33 blocktype", Root::Func, &[0, 0x02]), ("s33 heaptype", Root::Func, &[0, 0xD0]), ("u64 limits", Root::Sec(5), &[1, 1]), ("u32 list length", Root::Sec(3), &[]),
    ];
    let n = run.q3(2u32, 3, 4);
    for (nm, root, pre) in types {
        for k in 1..=n {
            if k > run.q(2, 3) && nm.contains("list") { continue }
            run.par(&format!("all encodings {nm}"), 256u64.pow(k), 4096, |w, i| {
                let mut body = pre.to_vec();
                body.extend(&i.to_be_bytes()[8 - k as usize..]);
                let mut buf = std::mem::take(&mut w.buf);
                if nm == "s33 heaptype" || root == Root::Func { body.push(0x0B); if nm.contains("block") { body.push(0x0B) } if nm.contains("memarg") {} }
                if root == Root::Sec(5) { body.push(0x05) }
                pda::frame(root, &body, &mut buf);
                w.check(&buf);
                w.buf = buf;
            });
        }
        run.note(format!("{nm}: all encodings of up to {n} bytes"));
    }
    // long encodings: any two bytes of one of minimal and maximal bytes
    let long: [(&str, usize, Root, &[u8], &[u8]); 6] = [
        ("u32", 5, Root::Func, &[0, 0x20], &[0x0B]), ("s32", 5, Root::Func, &[0, 0x41], &[0x0B]), ("s33 blocktype", 5, Root::Func, &[0, 0x02], &[0x0B, 0x0B]),
        ("s33 heaptype", 5, Root::Func, &[0, 0xD0], &[0x0B]), ("s64", 10, Root::Func, &[0, 0x42], &[0x0B]), ("u64 memarg", 10, Root::Func, &[0, 0x28, 0], &[0x0B]),
    ];
    for (nm, len, root, pre, post) in long {
        let pairs: Vec<(usize, usize)> = (0..len).flat_map(|a| (a + 1..len).map(move |b| (a, b))).collect();
        run.par(&format!("two bytes of a long {nm}"), pairs.len() as u64 * 128 * 2, 16, |w, i| {
            let (a, b) = pairs[(i / 256) as usize];
            let (x, fill) = ((i / 2 % 128) as u8, [0x80u8, 0xFF][(i % 2) as usize]);
            let mut e = vec![fill; len];
            e[len - 1] &= 0x7F;
            let top = if len == 5 { 0x0F } else { 1 };
            for unsigned_top in [false, true] {
                // the last byte at its greatest unsigned value, too
                if unsigned_top { e[len - 1] = if fill == 0xFF { top } else { continue } }
                e[a] = x | 0x80;
                for y in 0..=255u8 {
                    if y & 0x80 == 0 && b != len - 1 || w.run.lite() && y % 16 > 1 && y % 16 < 14 { continue }
                    let old = std::mem::replace(&mut e[b], y);
                    let mut buf = std::mem::take(&mut w.buf);
                    pda::frame(root, &cat(&[pre, &e, post]), &mut buf);
                    w.check(&buf);
                    w.buf = buf;
                    e[b] = old;
                }
            }
        });
    }
    run.note("5- and 10-byte encodings: all values of any two bytes, the others all minimal or all maximal");
    if !run.lite() && run.verdict {
        use wadec::core::{Instruction as I, types::HeapType};
        dense(run, "every u32", 1 << 32, |b, k| { b.push(0x20); put(b, k) }, |i, k| matches!(i, I::LocalGet(x) if x.0 as u64 == k));
        if run.thorough() {
        dense(run, "every non-negative s33", 1 << 32, |b, k| { b.push(0xD0); sput(b, k as i64) }, |i, k| matches!(i, I::RefNull(HeapType::TypeIdx(x)) if *x as u64 == k));
        dense(run, "every five-byte u32", 1 << 32, |b, k| { b.push(0x20); b.extend([k as u8 | 0x80, (k >> 7) as u8 | 0x80, (k >> 14) as u8 | 0x80, (k >> 21) as u8 | 0x80, (k >> 28) as u8]) }, |i, k| matches!(i, I::LocalGet(x) if x.0 as u64 == k));
        dense(run, "every five-byte s32", 1 << 32, |b, k| { let v = k as u32 as i32; b.push(0x41); b.extend([v as u8 | 0x80, (v >> 7) as u8 | 0x80, (v >> 14) as u8 | 0x80, (v >> 21) as u8 | 0x80, (v >> 28) as u8 & 0x7F]) }, |i, k| matches!(i, I::I32Const(x) if *x == k as u32 as i32));
        }
        run.note(if run.thorough() { "every u32 and non-negative s33 value in its shortest encoding, every u32 and s32 value in five bytes" } else { "every u32 value in its shortest encoding" });
    }
    if run.thorough() {
        // every value of the narrower types, a block of them per module
        const B: u64 = 4096;
        run.par("every u32", (1 << 32) / B, 1, |w, i| {
            let mut b = u(B);
            for k in 0..B { put(&mut b, i * B + k) }
            w.check(&module(&[cat(&[&[7 + 2], &u((2 + b.len()) as u64), &[1, 1, 0], &[]])]));
            let body = cat(&[&[1, 1, 0], &b]);
            w.check(&module(&[sec(9, &body)]));
        });
        run.par("every s32", (1 << 32) / B, 1, |w, i| {
            let mut b = vec![0];
            for k in 0..B { b.push(0x41); b.extend(s((i * B + k) as u32 as i32 as i64)) }
            b.push(0x0B);
            w.check(&func_module(&b));
        });
        run.par("every s33", (1 << 33) / B, 1, |w, i| {
            let lo = (i * B) as i64 - (1 << 32);
            if lo < 0 { // negative ones are rejected one by one
                if i % 4096 == 0 { for k in 0..B { w.check(&func_module(&cat(&[&[0, 0xD0], &s(lo + k as i64), &[0x0B]]))); } }
                return;
            }
            let mut b = vec![0];
            for k in 0..B { b.push(0xD0); b.extend(s(lo + k as i64)) }
            b.push(0x0B);
            w.check(&func_module(&b));
        });
        run.note("every u32, s32 and non-negative s33 value");
    }
    // 64-bit values: all with one or two runs of ones / two bits set, every alignment
    run.par("u64 patterns", 64 * 64, 16, |w, i| {
        let (a, b) = (i % 64, i / 64);
        let vals = [1u64 << a | 1 << b, (1u64 << a).wrapping_sub(1 << b), !(1u64 << a | 1 << b), (1u64 << a) ^ (u64::MAX >> b)];
        for v in vals {
            w.check(&module(&[sec(5, &cat(&[&[1, 5], &u(v), &u(v.rotate_left(7))]))]));
            w.check(&module(&[sec(4, &cat(&[&[1, 0x70, 1], &u(v), &u(!v)]))]));
            w.check(&code(&cat(&[&[0x29, 3], &u(v), &[0x42], &s(v as i64), &[0x42], &s((v as i64).wrapping_neg())])));
            w.check(&code(&cat(&[&[0x29, 0x43], &u(v & 0xFFFF_FFFF), &u(v), &[0x41], &s(v as i32 as i64)])));
        }
    });
    // discriminators are integers too: element and data variants, sub-opcodes, memarg flags, section sizes padded
    let mut cases = vec![];
    for bits in 0..=20u64 { for n in 1..=6 {
        let tail: &[u8] = match bits { 0 => &[0x41, 0, 0x0B, 1, 2], 1 | 3 => &[0, 1, 2], 2 => &[1, 0x41, 0, 0x0B, 0, 1, 2], 4 => &[0x41, 0, 0x0B, 1, 0xD2, 0, 0x0B], 5 | 7 => &[0x70, 1, 0xD2, 0, 0x0B], _ => &[1, 0x41, 0, 0x0B, 0x70, 1, 0xD2, 0, 0x0B] };
        cases.push(module(&[sec(9, &cat(&[&[1], &upad(bits, n), tail]))]));
        let tail: &[u8] = match bits { 0 => &[0x41, 0, 0x0B, 1, 2], 1 => &[1, 2], _ => &[1, 0x41, 0, 0x0B, 1, 2] };
        cases.push(module(&[sec(11, &cat(&[&[1], &upad(bits, n), tail]))]));
    } }
    for p in [0xFBu8, 0xFC, 0xFD] { for i in instrs1().iter().filter(|i| i[0] == p) { for n in 1..=6 {
        let oplen = i[1..].iter().position(|b| b & 0x80 == 0).unwrap() + 1;
        let sub = first_u32(&i[1..]).unwrap();
        cases.push(code(&cat(&[&[p], &upad(sub as u64, n), &i[1 + oplen..]])));
    } } }
    run.cases("padded discriminators", &cases);
}

pub fn c05(run: &Run) {
    crate::small::types(run);
    crate::small::entries(run, &[4, 5, 6]);
    pda(run, Root::Sec(1), run.q(2, 3), 0, run.q(2, 4));
    for id in [2, 4, 5, 6, 13] { pda_structure(run, Root::Sec(id), run.q(1, 2), run.q(2, 3)); }
    let wide = Alpha::wide();
    let narrow = Alpha::narrow();
    for start in [&[][..], &[1], &[1, 0x60], &[1, 0x4E], &[1, 0x4E, 1, 0x50], &[1, 0x4F], &[1, 0x5F, 1], &[2, 0x50, 0, 0x5E], &[1, 0x60, 1, 0x63]] {
        dev::explore(run, "type section", Root::Sec(1), start, if run.thorough() { &wide } else { &narrow }, run.q(2, 3));
    }
    for start in [&[1][..], &[1, 1, b'm', 1, b'n'], &[1, 0, 0, 1], &[1, 0, 0, 2], &[1, 0, 0, 3], &[1, 0, 0, 4]] { dev::explore(run, "import types", Root::Sec(2), start, &wide, 2); }
    for start in [&[1][..], &[1, 0x40, 0]] { dev::explore(run, "table types", Root::Sec(4), start, if run.thorough() { &wide } else { &narrow }, 2); }
    dev::explore(run, "memory types", Root::Sec(5), &[1], &wide, run.q(2, 3));
    dev::explore(run, "global types", Root::Sec(6), &[1], &narrow, 2);
    dev::explore(run, "tag types", Root::Sec(13), &[1], &wide, 2);
    // every type in every place
    let mut ts = valtypes();
    ts.extend(bad_types());
    run.par("types in every place", ts.len() as u64, 1, |w, i| { for p in type_places(&ts[i as usize]) { w.check(&p); } });
    type_bytes(run);
    // br_on_cast: flags x pairs of heap types
    let hts = heaptypes();
    let nh = hts.len() as u64;
    run.par("cast pairs", nh * nh * 2 * 8, 64, |w, i| {
        let (a, b) = (&hts[(i % nh) as usize], &hts[(i / nh % nh) as usize]);
        let (op, fl) = (24 + (i / nh / nh % 2) as u8, (i / nh / nh / 2) as u8);
        w.check(&code(&cat(&[&[0xFB, op, fl, 3], a, b])));
    });
    // limits: every flag byte x pairs of boundary values, in tables and memories, defined and imported
    let bs = { let mut v = bounds(64); if !run.thorough() { v.retain(|x| *x < 2 || x.count_ones() < 2 || x.wrapping_add(1) == 0 || x.wrapping_add(1).is_power_of_two()) } v };
    run.par("limits", 256 * bs.len() as u64, 16, |w, i| {
        let (fl, a) = ((i % 256) as u8, bs[(i / 256) as usize]);
        let tails: Vec<u64> = if fl < 8 { bs.clone() } else { vec![1] };
        for b in tails {
            let l = cat(&[&[fl], &u(a), &if fl & 1 == 1 { u(b) } else { vec![] }]);
            w.check(&module(&[sec(5, &cat(&[&[1], &l]))]));
            w.check(&module(&[sec(4, &cat(&[&[1, 0x6F], &l]))]));
            w.check(&module(&[sec(2, &cat(&[&[2, 0, 0, 2], &l, &[0, 0, 1, 0x70], &l]))]));
        }
    });
    // shapes: recursive groups of up to 3 subtypes over a small alphabet
    let subs: Vec<Vec<u8>> = vec![
        vec![0x60, 0, 0], vec![0x60, 1, 0x7F, 0], vec![0x60, 0, 1, 0x64, 0], vec![0x5E, 0x78, 0], vec![0x5E, 0x77, 1], vec![0x5F, 0], vec![0x5F, 1, 0x63, 1, 1], vec![0x5F, 2, 0x77, 0, 0x7B, 1],
        vec![0x50, 0, 0x60, 0, 0], vec![0x50, 1, 0, 0x5F, 0], vec![0x4F, 0, 0x5E, 0x7F, 0], vec![0x4F, 1, 5, 0x60, 2, 0x7C, 0x7D, 0], vec![0x50, 2, 1, 0x80, 1, 0x5F, 1, 0x6E, 0], vec![0x4F, 3, 2, 1, 0, 0x60, 0, 2, 0x7E, 0x7F],
        vec![0x4E, 0], vec![0x4E, 1, 0x60, 0, 0], vec![0x40], vec![0x5D, 0],
    ];
    let n = subs.len() as u64;
    let k = run.q(3u32, 4);
    run.par("groups", n.pow(k) * 4, 256, |w, i| {
        let mut q = i / 4;
        let xs: Vec<Vec<u8>> = (0..k).map(|_| { let x = subs[(q % n) as usize].clone(); q /= n; x }).collect();
        w.check(&match i % 4 {
            0 => module(&[sec(1, &list(&xs))]),
            1 => module(&[sec(1, &cat(&[&[1, 0x4E], &list(&xs)]))]),
            2 => module(&[sec(1, &cat(&[&[2, 0x4E], &list(&xs[..2]), &[0x4E], &list(&xs[2..])]))]),
            _ => module(&[sec(1, &cat(&[&[3, 0x4E, 0, 0x4E], &list(&xs), &xs[0]]))]),
        });
    });
    // function types: all parameter and result lists up to 3 (4) over 6 types
    let vt: Vec<Vec<u8>> = vec![vec![0x7F], vec![0x7C], vec![0x7B], vec![0x70], vec![0x64, 3], vec![0x63, 0x6F]];
    let lists: Vec<Vec<u8>> = (0..=run.q(3u32, 4)).flat_map(|k| (0..6u64.pow(k)).map({ let vt = &vt; move |i| { let mut q = i; list(&(0..k).map(|_| { let t = vt[(q % 6) as usize].clone(); q /= 6; t }).collect::<Vec<_>>()) } })).collect();
    let nl = lists.len() as u64;
    run.par("function types", nl * nl, 256, |w, i| {
        w.check(&module(&[sec(1, &cat(&[&[1, 0x60], &lists[(i % nl) as usize], &lists[(i / nl) as usize]]))]));
    });
}

/// A (value, reference or heap) type in every place one can occur.
pub fn type_places(t: &[u8]) -> Vec<Vec<u8>> {
    let c = |p: &[&[u8]]| cat(p);
    let mut v: Vec<Vec<u8>> = vec![
            module(&[sec(1, &c(&[&[1, 0x60, 1], t, &[0]]))]),
            module(&[sec(1, &c(&[&[1, 0x60, 2, 0x7F], t, &[1, 0x7E]]))]),
            module(&[sec(1, &c(&[&[1, 0x60, 0, 1], t]))]),
            module(&[sec(1, &c(&[&[1, 0x60, 1, 0x7D, 3], t, &[0x7F], t]))]),
            module(&[sec(1, &c(&[&[1, 0x5F, 2], t, &[0], t, &[1]]))]),
            module(&[sec(1, &c(&[&[1, 0x5E], t, &[1]]))]),
            module(&[sec(1, &c(&[&[1, 0x4E, 2, 0x50, 0, 0x5E], t, &[0, 0x4F, 1, 3, 0x5F, 1], t, &[0]]))]),
            module(&[sec(2, &c(&[&[1, 0, 0, 3], t, &[1]]))]),
            module(&[sec(2, &c(&[&[1, 0, 0, 1], t, &[1, 2, 3]]))]),
            module(&[sec(4, &c(&[&[1], t, &[0, 7]]))]),
            module(&[sec(4, &c(&[&[1, 0x40, 0], t, &[0, 7, 0xD0, 0x70, 0x0B]]))]),
            module(&[sec(6, &c(&[&[1], t, &[0, 0x0B]]))]),
            module(&[sec(9, &c(&[&[1, 5], t, &[0]]))]),
            module(&[sec(9, &c(&[&[1, 6, 0, 0x0B], t, &[0]]))]),
            module(&[sec(9, &c(&[&[1, 7], t, &[0]]))]),
            func_module(&c(&[&[1, 2], t, &[0x0B]])),
            func_module(&c(&[&[2, 1, 0x7F, 3], t, &[0x0B]])),
            code(&c(&[&[0x1C, 1], t])),
            code(&c(&[&[0x1C, 2, 0x7F], t])),
            code(&c(&[&[0x02], t, &[0x0B]])),
            code(&c(&[&[0x03], t, &[0x0B]])),
            code(&c(&[&[0x04], t, &[0x05, 0x0B]])),
            code(&c(&[&[0x1F], t, &[0, 0x0B]])),
            code(&c(&[&[0xD0], &t[(t.len() > 1) as usize..]])),
    ];
    for x in [20u8, 21, 22, 23] { v.push(code(&c(&[&[0xFB, x], &t[(t.len() > 1) as usize..]]))) }
    v
}
/// All short byte strings where a heap type, a block type or a value type is
/// expected, and abstract heap types as integers of every width.
pub fn type_bytes(run: &Run) {
    type F = fn(&[u8]) -> Vec<u8>;
    let sites: Vec<(&str, F)> = vec![
        ("ref.null", |t| code(&cat(&[&[0xD0], t]))),
        ("ref.test", |t| code(&cat(&[&[0xFB, 20], t]))),
        ("ref.cast null", |t| code(&cat(&[&[0xFB, 23], t]))),
        ("br_on_cast, first", |t| code(&cat(&[&[0xFB, 24, 1, 0], t, &[0x6E]]))),
        ("br_on_cast_fail, second", |t| code(&cat(&[&[0xFB, 25, 2, 0, 0x6E], t]))),
        ("reference in a block type", |t| code(&cat(&[&[0x02, 0x63], t, &[0x0B]]))),
        ("block type", |t| code(&cat(&[&[0x02], t, &[0x0B]]))),
        ("loop type", |t| code(&cat(&[&[0x03], t, &[0x0B]]))),
        ("if type", |t| code(&cat(&[&[0x04], t, &[0x05, 0x0B]]))),
        ("try_table type", |t| code(&cat(&[&[0x1F], t, &[0, 0x0B]]))),
        ("select type", |t| code(&cat(&[&[0x1C, 1], t]))),
        ("local", |t| func_module(&cat(&[&[1, 1], t, &[0x0B]]))),
        ("global", |t| module(&[sec(6, &cat(&[&[1], t, &[0, 0x0B]]))])),
        ("imported global", |t| module(&[sec(2, &cat(&[&[1, 0, 0, 3], t, &[0]]))])),
        ("parameter", |t| module(&[sec(1, &cat(&[&[1, 0x60, 1], t, &[0]]))])),
        ("result", |t| module(&[sec(1, &cat(&[&[1, 0x60, 0, 1], t]))])),
        ("field", |t| module(&[sec(1, &cat(&[&[1, 0x5F, 1], t, &[0]]))])),
        ("array element", |t| module(&[sec(1, &cat(&[&[1, 0x5E], t, &[1]]))])),
        ("table", |t| module(&[sec(4, &cat(&[&[1], t, &[0, 1]]))])),
        ("imported table", |t| module(&[sec(2, &cat(&[&[1, 0, 0, 1], t, &[0, 1]]))])),
        ("table with initialiser", |t| module(&[sec(4, &cat(&[&[1, 0x40, 0], t, &[0, 1, 0x0B]]))])),
        ("element segment", |t| module(&[sec(9, &cat(&[&[1, 5], t, &[0]]))])),
        ("active element segment", |t| module(&[sec(9, &cat(&[&[1, 6, 0, 0x0B], t, &[0]]))])),
        ("declarative element segment", |t| module(&[sec(9, &cat(&[&[1, 7], t, &[0]]))])),
    ];
    run.par("all short strings as types", sites.len() as u64 * 65536, 512, |w, i| {
        let f = sites[(i / 65536) as usize].1;
        let b = (i as u16).to_be_bytes();
        if w.run.lite() && !matches!(b[1], 0 | 1 | 2 | 0x0B | 0x40 | 0x5E..=0x71 | 0x77..=0x80 | 0xFF) { return }
        w.check(&f(&b));
        if b[0] == 0 { w.check(&f(&b[1..])); }
        // behind a reference marker
        w.check(&f(&[0x63 + (b[0] & 1), b[0], b[1]]));
    });
    // integers of two to six bytes: every first byte (they decide what is read), extreme middles, every last byte
    run.par("longer strings as types", if run.lite() { 0 } else { sites.len() as u64 * 128 * 5 }, 16, |w, i| {
        let f = sites[(i / 640) as usize].1;
        let (first, mid) = (0x80 | (i % 128) as u8, [0x80u8, 0xFF, 0xC0, 0xBF, 0x81][(i / 128 % 5) as usize]);
        for n in 1..=4usize {
            for last in (0..=255u8).filter(|l| w.run.thorough() || matches!(l, 0..=3 | 0x0F..=0x11 | 0x1E..=0x21 | 0x3F..=0x41 | 0x5F..=0x71 | 0x78..=0x81 | 0xFE..)) {
                let mut t = vec![first];
                t.extend(vec![mid; n]);
                t.push(last);
                w.check(&f(&t));
                if first >= 0xE0 { t.insert(0, 0x64); w.check(&f(&t)); }
            }
        }
    });
    run.note(format!("{} places for types: all strings of up to 2 bytes, integers of 3 to 6 bytes with every first byte, 5 middles and {} last bytes, plain and behind a reference marker", sites.len(), run.q("boundary", "all 256")));
}

pub fn c06(run: &Run) {
    crate::small::instructions(run);
    pda(run, Root::Func, 1, run.q(0, 1), run.q(0, 3));
    let (wide, narrow) = (Alpha::wide(), Alpha::narrow());
    // every opcode and sub-opcode: all pairs of immediates
    dev::explore(run, "opcodes and immediates", Root::Func, &[0], &wide, 2);
    for p in [0xFBu8, 0xFC, 0xFD] { dev::explore(run, "prefixed opcodes and immediates", Root::Func, &[0, p], &wide, run.q(2, 3)); }
    if run.thorough() { dev::explore(run, "three deviations", Root::Func, &[0], &narrow, 3); }
    // sub-opcodes: every one up to 2^16, and those that equal a defined one in their low bits
    run.par("sub-opcodes", 3 * 65536, 256, |w, i| {
        let p = 0xFB + (i / 65536) as u8;
        let sub = i % 65536;
        for tail in [&[][..], &[0], &[0, 0], &[0, 0, 0]] {
            w.check(&code(&cat(&[&[p], &u(sub), tail])));
            if sub < 300 {
                for k in [8u64, 9, 12, 15, 16, 17, 24, 31] { w.check(&code(&cat(&[&[p], &u(sub + (1 << k)), tail]))); }
            }
        }
    });
    // every instruction with one deviating immediate in every expression position
    let lib = instrs(&wide, 1);
    run.count("instruction encodings", lib.len() as u64);
    run.par("expression positions", lib.len() as u64 * EXPR_CONTEXTS as u64, 64, |w, i| {
        let x = &lib[(i / EXPR_CONTEXTS as u64) as usize];
        w.check(&expr_in((i % EXPR_CONTEXTS as u64) as usize, x));
    });
    // pairs (and in thorough, triples of a subset) of adjacent instructions
    let marked = instrs_marked();
    let n = marked.len() as u64;
    run.count("instructions", n);
    run.par("adjacent pairs", n * n, 256, |w, i| {
        let (a, b) = (&marked[(i % n) as usize], &marked[(i / n) as usize]);
        let mut buf = std::mem::take(&mut w.buf);
        func_module_into(&mut buf, &cat(&[&[0], a, b, &[0x0B]]));
        w.check(&buf);
        w.buf = buf;
    });
    run.par("inside blocks", n * 156, 64, |w, i| {
        let x = &marked[(i % n) as usize];
        let p = &nested(&[0xFF], 3)[(i / n) as usize];
        let at = p.iter().position(|&b| b == 0xFF).unwrap();
        w.check(&code(&cat(&[&p[..at], x, &p[at + 1..]])));
    });
    // every immediate of every instruction: all boundary values
    let st = pda(run, Root::Func, 1, 0, 0);
    let sites: Vec<Vec<u8>> = dev::num_sites(&st);
    let mut vals: Vec<Vec<u8>> = bounds(64).into_iter().map(u).collect();
    vals.extend(sbounds(64).into_iter().map(s));
    if run.thorough() { vals.extend((0..65536u64).map(u)) }
    vals.sort();
    vals.dedup();
    dev::at_sites(run, "boundary values of immediates", Root::Func, &sites, &vals);
    // memory operands: alignment x memory index x offset; lanes
    run.par("memory operands", 256 * 60, 16, |w, i| {
        let (fl, k) = (i % 256, i / 256);
        let ops: Vec<Vec<u8>> = if k < 23 { vec![vec![0x28 + k as u8]] } else if k < 37 { let l = [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 92, 93]; vec![vec![0xFD, l[k as usize - 23]]] } else if k < 45 { vec![vec![0xFD, 84 + (k - 37) as u8]] } else { return };
        for op in ops {
            for mem in [0u64, 1, 127, 128, u32::MAX as u64] { for off in [0u64, 1, 127, 128, 0xFFFF_FFFF, 1 << 32, u64::MAX] {
                let lane: &[u8] = if k >= 37 { &[3] } else { &[] };
                w.check(&code(&cat(&[&op, &u(fl), &if fl & 64 != 0 { u(mem) } else { vec![] }, &u(off), lane])));
            } }
        }
    });
    // whatever follows a byte that is no opcode
    let undefined: Vec<u8> = (0..=255u8).filter(|&b| b != 0x05 && b != 0x0B && !lib.iter().any(|x| x[0] == b)).collect();
    run.par("two bytes behind undefined opcodes", undefined.len() as u64 * 65536, 1024, |w, i| {
        if w.run.lite() && i % 256 > 4 { return }
        let (o, x, y) = (undefined[(i / 65536) as usize], (i >> 8) as u8, i as u8);
        let mut buf = std::mem::take(&mut w.buf);
        for t in [&[][..], &[0], &[0, 0], &[0x1A], &[2, 0], &[0, 2, 0]] {
            func_module_into(&mut buf, &cat(&[&[0, o, x, y], t, &[0x0B]]));
            w.check(&buf);
            if x & y & 0x80 != 0 { break }
        }
        w.buf = buf;
    });
    run.note(format!("{} bytes that are no opcode, each before every two bytes", undefined.len()));
    run.par("lanes", 256 * 23, 64, |w, i| {
        let (l, k) = ((i % 256) as u8, i / 256);
        w.check(&match k {
            0..=13 => code(&[0xFD, 21 + k as u8, l]),
            14..=21 => code(&[0xFD, 84 + (k - 14) as u8, 0x41, 2, 3, l]),
            _ => code(&cat(&[&[0xFD, 13], &(0..16).map(|j| if j == l % 16 { l } else { 15 - j }).collect::<Vec<u8>>()])),
        });
    });
    // branch tables and select lists
    run.par("branch tables", 300 * 5, 16, |w, i| {
        let (n, k) = (i / 5, i % 5);
        let ls: Vec<Vec<u8>> = (0..n).map(|j| u(match k { 0 => j, 1 => n - j, 2 => j * 131, 3 => u32::MAX as u64 - j, _ => 1 << (j % 32) })).collect();
        w.check(&code(&cat(&[&[0x0E], &list(&ls), &u(n * 3 + k), &[0x01]])));
        let ts: Vec<Vec<u8>> = (0..n).map(|j| valtypes()[(j * (k + 1)) as usize % valtypes().len()].clone()).collect();
        w.check(&code(&cat(&[&[0x1C], &list(&ts), &[0x1A]])));
    });
}

pub fn c07(run: &Run) {
    crate::small::blocks(run);
    crate::small::locals(run);
    pda(run, Root::Func, 1, run.q3(0, 1, 1), 0);
    // the bracket language: all strings of tokens up to a length
    let tok = |t: u64, k: usize| -> Vec<u8> {
        match t {
            0 => vec![0x02, 0x40], 1 => vec![0x03, 1], 2 => vec![0x04, 0x7F], 3 => vec![0x1F, 0x40, 1, 2, 0],
            4 => vec![0x05], 5 => vec![0x0B], _ => vec![0x41, k as u8 + 1],
        }
    };
    let n = run.q3(6u32, 7, 9);
    for k in 0..=n {
        run.par("bracket strings", 7u64.pow(k), 512, |w, i| {
            let mut b = vec![0];
            let mut q = i;
            let mut open = 1i32;
            let mut early = false;
            for j in 0..k {
                let t = q % 7;
                q /= 7;
                b.extend(tok(t, j as usize));
                if t < 4 { open += 1 }
                if t == 5 { open -= 1; early |= open <= 0 && j + 1 < k }
            }
            let mut buf = std::mem::take(&mut w.buf);
            func_module_into(&mut buf, &b);
            w.check(&buf);
            if open > 0 && !early {
                // close what is open, exactly, one short and one too many
                for extra in [-1, 0, 1] {
                    let mut c = b.clone();
                    c.extend(std::iter::repeat_n(0x0B, (open + extra).max(0) as usize));
                    func_module_into(&mut buf, &c);
                    w.check(&buf);
                }
            }
            w.buf = buf;
        });
    }
    run.note(format!("all strings of up to {n} tokens over block, loop, if, try_table, else, end and a numbered constant; also closed exactly, one end short and one end too many"));
    // the same in constant expressions, shorter
    for ctx in 1..EXPR_CONTEXTS {
        let k = run.q(5u32, 6);
        run.par("bracket strings in constant expressions", 7u64.pow(k), 512, |w, i| {
            let mut b = vec![];
            let mut q = i;
            for j in 0..k { b.extend(tok(q % 7, j as usize)); q /= 7; }
            w.check(&expr_in(ctx, &b));
        });
    }
    // block types of every kind of block, twice nested
    let mut bts: Vec<Vec<u8>> = valtypes();
    bts.extend(bad_types());
    bts.push(vec![0x40]);
    for v in bounds(32) { bts.push(s(v as i64)) }
    for v in [0i64, 1, 0x40, 0x7F] { for n in 2..=6 { bts.push(spad(v, n)) } }
    for v in [-1i64, -64, -65, -(1 << 32), 1 << 32] { bts.push(s(v)) }
    bts.sort();
    bts.dedup();
    let nb = bts.len() as u64;
    run.par("block types", nb * 4, 8, |w, i| {
        let (bt, k) = (&bts[(i / 4) as usize], i % 4);
        let op: u8 = [0x02, 0x03, 0x04, 0x1F][k as usize];
        let catches: &[u8] = if k == 3 { &[2, 1, 3, 1, 2, 0] } else { &[] };
        w.check(&code(&cat(&[&[op], bt, catches, &[0x41, 1, 0x0B, 0x41, 2]])));
        w.check(&code(&cat(&[&[0x02, 0x40, op], bt, catches, &[0x41, 1, 0x0B, 0x0B]])));
        if k == 2 { w.check(&code(&cat(&[&[op], bt, &[0x41, 1, 0x05, 0x41, 2, 0x0B, 0x41, 3]]))); }
        for bt2 in bts.iter().step_by(3) {
            w.check(&code(&cat(&[&[op], bt, catches, &[0x03], bt2, &[0x41, 1, 0x0B, 0x0B]])));
        }
    });
    // catch clauses: all lists of up to 3 over an alphabet
    let cl: Vec<Vec<u8>> = vec![vec![0, 1, 2], vec![1, 3, 4], vec![2, 5], vec![3, 6], vec![0, 0x80, 1, 0x81, 1], vec![2, 0xFF, 0xFF, 0xFF, 0xFF, 0x0F], vec![3, 0], vec![1, 0, 0], vec![4, 0], vec![0xFF]];
    for k in 0..=run.q(3u32, 4) {
        run.par("catch clauses", 10u64.pow(k), 32, |w, i| {
            let mut q = i;
            let l = list(&(0..k).map(|_| { let c = cl[(q % 10) as usize].clone(); q /= 10; c }).collect::<Vec<_>>());
            w.check(&code(&cat(&[&[0x1F, 0x40], &l, &[0x41, 9, 0x0B, 0x01]])));
            w.check(&code(&cat(&[&[0x1F, 0x7F], &l, &[0x02, 0x40, 0x1F, 0x40], &l, &[0x0B, 0x0B, 0x0B]])));
        });
    }
    let wide = Alpha::wide();
    for op in [0x02u8, 0x03, 0x04, 0x1F] { dev::explore(run, "block headers", Root::Func, &[0, op], &wide, 2); }
    // else in every subset of nested conditionals, empty and not
    let d = run.q3(9u32, 10, 14);
    run.par("else subsets", 1 << d, 32, |w, m| {
        for fill in [false, true] {
            let mut b = vec![];
            for k in 0..d { b.extend([0x04, 0x40]); if fill { b.extend([0x41, k as u8]) } }
            for k in (0..d).rev() { if fill { b.extend([0x41, 32 + k as u8]) } if m >> k & 1 == 1 { b.push(0x05); if fill { b.extend([0x41, 48 + k as u8]) } } b.push(0x0B) }
            w.check(&code(&b));
            // nested in the else branches instead
            let mut b = vec![];
            for k in 0..d { b.extend([0x04, 0x40]); if m >> k & 1 == 1 { b.push(0x05) } if fill { b.extend([0x41, k as u8]) } }
            b.extend(vec![0x0B; d as usize]);
            w.check(&code(&b));
        }
    });
    // depth: every kind at every depth up to a bound, a stray else or missing/extra end at the bottom
    let depth = run.q(300u64, 1200);
    run.par("depth", depth * 5, 8, |w, i| {
        let (k, d) = (i % 5, (i / 5 + 1) as usize);
        let open = |j: usize| -> Vec<u8> { match if k == 4 { j as u64 % 4 } else { k } { 0 => vec![0x02, 0x40], 1 => vec![0x03, (j % 60) as u8], 2 => vec![0x04, 0x7F], _ => vec![0x1F, 0x40, 1, 2, 0] } };
        for bottom in [&[0x41u8, 7][..], &[], &[0x05], &[0x05, 0x41, 1], &[0x05, 0x05], &[0x06]] {
            for ends in [d - 1, d, d + 1] {
                let mut b = vec![];
                for j in 0..d { b.extend(open(j)) }
                b.extend(bottom);
                b.extend(vec![0x0B; ends]);
                b.extend([0x41, 5]);
                w.check(&code(&b));
            }
        }
    });
    // towers: something at the bottom of n nested blocks, something behind each of them
    let n = run.q3(24u64, 70, 300);
    run.par("towers", n * 16, 4, |w, i| {
        let (d, per) = ((i / 16 + 1) as usize, i % 16);
        // outer kinds with a period of one or two
        let open = |k: u64| -> &'static [u8] { match k { 0 => &[0x02, 0x40], 1 => &[0x03, 1], 2 => &[0x04, 0x7F], _ => &[0x1F, 0x40, 1, 2, 0] } };
        let kinds = [per % 4, per / 4];
        for in_else in [false, true] {
            if in_else && !kinds.contains(&2) { continue }
            let mut head = vec![];
            for j in 0..d { let k = kinds[j % 2]; head.extend(open(k)); if k == 2 && in_else { head.extend([0x41, 1, 0x05]) } }
            let bottoms: Vec<Vec<u8>> = (0..4).flat_map(|k| [&[0x41u8, 7, 0x0B][..], &[0x05, 0x0B], &[0x05, 0x41, 1, 0x0B], &[0x05, 0x05, 0x0B], &[], &[0x0B, 0x05], &[0x0B, 0x41, 3]].map(|t| cat(&[open(k), t]))).chain([vec![], vec![0x05], vec![0x41, 9]]).collect();
            for bottom in &bottoms {
                for up in [0, 1, 2, d / 2, d - 1, d] {
                    if up > d { continue }
                    // an else, a missing end, a surplus end after `up` ends
                    for what in [&[][..], &[0x05], &[0x0B], &[0x41, 5]] {
                        let b = cat(&[&head, bottom, &vec![0x0B; up], what, &vec![0x0B; d - up]]);
                        w.check(&code(&b));
                        if what.is_empty() { w.check(&code(&b[..b.len() - 1])) ; }
                    }
                }
            }
        }
    });
    run.note(format!("towers of up to {n} blocks of two alternating kinds, every kind of block at the bottom with and without else, an else or end or instruction after some of the ends"));
    let deep: &[usize] = if run.thorough() { &[2000, 4095, 4096, 16384, 32767, 32768, 65535, 65536, 65537, 100000] } else { &[1023, 1024, 1025, 4096, 32768, 65536] };
    run.par("great depth", deep.len() as u64 * 4, 1, |w, i| {
        let (k, d) = (i % 4, deep[(i / 4) as usize]);
        let open: &[u8] = [&[0x02u8, 0x40][..], &[0x03, 1], &[0x04, 0x7F], &[0x1F, 0x40, 0]][k as usize];
        let mut b = open.repeat(d);
        b.extend([0x41, 1]);
        if k == 2 { b.push(0x05) }
        b.extend(vec![0x0B; d]);
        b.extend([0x41, 2]);
        w.check(&code(&b));
    });
    run.note(format!("every depth up to {depth}, and depths {deep:?}"));
    // width: many siblings at each level
    run.par("width", 300, 8, |w, n| {
        let mut b = vec![];
        for k in 0..n { b.extend([0x02, 0x40, 0x41, (k % 64) as u8, 0x0B]); if k % 3 == 0 { b.extend([0x04, 0x40, 0x05, 0x41, 1, 0x0B]) } }
        w.check(&code(&b));
        w.check(&code(&cat(&[&[0x04, 0x40], &b, &[0x05], &b, &[0x0B]])));
        w.check(&code(&cat(&[&[0x1F, 0x40], &rep(n as usize, &[2, 1]), &b, &[0x0B, 0x01]])));
    });
}

pub fn c08(run: &Run) {
    crate::small::entries(run, &[2, 7, 13]);
    for id in [2, 7, 8, 13] { pda(run, Root::Sec(id), run.q(2, 3), 0, run.q(2, 4)); }
    let (wide, narrow) = (Alpha::wide(), Alpha::narrow());
    for start in [&[1][..], &[1, 1, b'a', 1, b'b'], &[2, 0, 0, 0, 0]] { dev::explore(run, "imports", Root::Sec(2), start, &wide, run.q(2, 3)); }
    for start in [&[1][..], &[1, 1, b'a'], &[2, 0, 0, 0], &[1, 2, b'x', b'y']] { dev::explore(run, "exports", Root::Sec(7), start, &wide, run.q(2, 3)); }
    dev::explore(run, "start", Root::Sec(8), &[], &wide, 2);
    dev::explore(run, "tags", Root::Sec(13), &[], &wide, run.q(2, 3));
    let _ = narrow;
    // lists of entries over an alphabet of entries
    let imp: Vec<Vec<u8>> = vec![
        vec![0, 0, 0, 0], vec![1, b'a', 0, 0, 1], vec![0, 1, b'b', 0, 0x80, 1], vec![1, b'a', 1, b'b', 1, 0x70, 0, 1], vec![1, b'b', 1, b'a', 1, 0x64, 0x6F, 5, 1, 2], vec![2, b'a', b'b', 1, b'c', 2, 0, 1],
        vec![1, b'c', 2, b'a', b'b', 2, 5, 1, 0xFF, 0xFF, 3], vec![1, b'a', 1, b'a', 3, 0x7F, 0], vec![1, b'a', 1, b'a', 3, 0x63, 0, 1], vec![3, 0xE2, 0x82, 0xAC, 0, 4, 0, 9], vec![1, b'a', 1, b'a', 5, 0], vec![1, b'a', 1, b'a', 4, 1, 0],
    ];
    let exp: Vec<Vec<u8>> = vec![
        vec![0, 0, 0], vec![1, b'a', 0, 1], vec![1, b'a', 1, 1], vec![1, b'a', 2, 0], vec![2, b'a', b'b', 3, 0x80, 1], vec![1, b'b', 4, 7], vec![1, b'b', 0, 0xFF, 0xFF, 0xFF, 0xFF, 0x0F], vec![3, 0xE2, 0x82, 0xAC, 3, 2], vec![1, b'c', 5, 0], vec![0, 4, 0x80, 0], vec![4, 0xF0, 0x9F, 0xA6, 0x80, 2, 0x40], vec![1, 0, 1, 0x3F],
    ];
    let tag: Vec<Vec<u8>> = vec![vec![0, 0], vec![0, 1], vec![0, 0x80, 1], vec![0, 0xFF, 0xFF, 0xFF, 0xFF, 0x0F], vec![1, 0], vec![0, 0x7F], vec![0, 0x40], vec![0, 0x85, 0x80, 0], vec![0, 2], vec![0, 3], vec![0, 4], vec![0xFF, 0]];
    let k = run.q(4u32, 5);
    for (id, items) in [(2u8, &imp), (7, &exp), (13, &tag)] {
        for k in 0..=k {
            run.par("entry lists", 12u64.pow(k), 128, |w, i| {
                let mut q = i;
                let l = list(&(0..k).map(|_| { let c = items[(q % 12) as usize].clone(); q /= 12; c }).collect::<Vec<_>>());
                w.check(&module(&[sec(id, &l)]));
            });
        }
    }
    run.note(format!("imports, exports, tags: all lists of up to {k} entries over 12 entries each"));
    // start, exports and tags next to imports and definitions of every kind and number
    run.par("sections next to each other", 6 * 4 * 4 * 6 * 4, 16, |w, mut i| {
        let mut d = |n: u64| { let x = i % n; i /= n; x };
        let (kinds, imported, own, start, exported) = (d(6), d(4) as usize, d(4) as usize, d(6), d(4) as usize);
        let item = |k: u64, j: u8| match k { 0 => vec![0, j], 1 => vec![1, 0x70, 0, j], 2 => vec![2, 0, j], 3 => vec![3, 0x7F, j & 1], _ => vec![4, 0, j] };
        let imps: Vec<Vec<u8>> = (0..imported).map(|j| cat(&[&[1, b'm', 1, b'a' + j as u8], &item(if kinds == 5 { j as u64 } else { kinds }, j as u8)])).collect();
        for k in 0..5u8 {
            let exps: Vec<Vec<u8>> = (0..exported).map(|j| cat(&[&[1, b'e', (k + j as u8 * (imported as u8 & 1)) % 5], &u((j + own) as u64 % 5)])).collect();
            let mut v = vec![sec(1, &rich(1))];
            if imported > 0 { v.push(sec(2, &list(&imps))) }
            if own > 0 { v.push(sec(3, &rep(own, &[1]))) }
            if k == 1 { v.push(sec(4, &rep(own, &[0x70, 0, 1]))) }
            if k == 2 { v.push(sec(5, &rep(own, &[0, 1]))) }
            if k == 4 || own == 3 { v.push(sec(13, &rep(own, &[0, 3]))) }
            if k == 3 { v.push(sec(6, &rep(own, &[0x7F, 0, 0x41, 5, 0x0B]))) }
            if exported > 0 { v.push(sec(7, &list(&exps))) }
            if start > 0 { v.push(sec(8, &u(start - 1))) }
            if own > 0 { v.push(sec(10, &rep(own, &[2, 0, 0x0B]))) }
            w.check(&module(&v));
        }
    });
    if !run.lite() { combinations(run, &[2, 3, 7, 8, 13], false) }
    // kinds x boundary indices, alone and between others
    let bs = bounds(32);
    run.par("kinds and indices", 256, 1, |w, kind| {
        let kind = kind as u8;
        for &x in if kind < 6 { &bs[..] } else { &bs[..1] } {
            w.check(&module(&[sec(7, &cat(&[&[1, 1, b'e', kind], &u(x)]))]));
            w.check(&module(&[sec(7, &cat(&[&[3, 0, 0, 1, 1, b'e', kind], &u(x), &[0, 2, 3]]))]));
            w.check(&module(&[sec(2, &cat(&[&[1, 1, b'm', 1, b'n', kind], &match kind { 1 => vec![0x70, 0, 1], 2 => vec![0, 1], 3 => vec![0x7F, 0], 4 => cat(&[&[0], &u(x)]), _ => u(x) }]))]));
            w.check(&module(&[sec(13, &cat(&[&[1, kind], &u(x)]))]));
            w.check(&module(&[sec(13, &cat(&[&[2, 0, 5, kind], &u(x)]))]));
            w.check(&module(&[sec(8, &u(x))]));
        }
    });
    // names with a meaning x kinds x every small index x every small number of imports and definitions
    let nk = KNOWN_NAMES.len() as u64;
    let top = if run.lite() { 2 } else { 4u64 };
    run.par("names and indices next to counts", nk * top * top, 4, |w, i| {
        let (nm, imported, own) = (KNOWN_NAMES[(i % nk) as usize].as_bytes(), (i / nk % top) as usize, (i / nk / top) as usize);
        for kind in 0..5u8 {
            let item: &[u8] = [&[0u8, 0][..], &[1, 0x70, 0, 1], &[2, 0, 1], &[3, 0x7F, 0], &[4, 0, 0]][kind as usize];
            for x in 0..=(imported + own) as u64 + 1 {
                let mut v = vec![sec(1, &[1, 0x60, 0, 0])];
                if imported > 0 { v.push(sec(2, &rep(imported, &cat(&[&name(nm), &name(b"i"), item])))) }
                if kind == 0 && own > 0 { v.push(sec(3, &rep(own, &[0]))) }
                if kind == 1 && own > 0 { v.push(sec(4, &rep(own, &[0x70, 0, 1]))) }
                if kind == 2 && own > 0 { v.push(sec(5, &rep(own, &[0, 1]))) }
                if kind == 4 && own > 0 { v.push(sec(13, &rep(own, &[0, 0]))) }
                if kind == 3 && own > 0 { v.push(sec(6, &rep(own, &[0x7F, 0, 0x41, 5, 0x0B]))) }
                v.push(sec(7, &list(&[cat(&[&name(nm), &[kind], &u(x)]), cat(&[&name(b"z"), &[kind], &u(x)])])));
                if kind == 0 { v.push(sec(8, &u(x))) }
                if kind == 0 && own > 0 { v.push(sec(10, &rep(own, &[2, 0, 0x0B]))) }
                w.check(&module(&v));
            }
        }
    });
    run.note(format!("{nk} names with a meaning for exports of each kind, every index up to one past the end, next to up to 3 imports and 3 definitions"));
    // names of many lengths, different in both fields
    run.par("name lengths", 270 * 12, 16, |w, i| {
        let lens = [0usize, 1, 2, 3, 63, 64, 127, 128, 129, 255, 256, 300];
        let (a, b) = ((i / 12) as usize, lens[(i % 12) as usize]);
        let nm = |n: usize, c: u8| -> Vec<u8> { (0..n).map(|j| c + (j % 23) as u8).collect() };
        w.check(&module(&[sec(2, &list(&[cat(&[&name(&nm(a, b'a')), &name(&nm(b, b'A')), &[0, 1]]), cat(&[&name(&nm(b, b'B')), &name(&nm(a, b'b')), &[3, 0x7F, 1]])]))]));
        w.check(&module(&[sec(7, &list(&[cat(&[&name(&nm(a, b'a')), &[0, 1]]), cat(&[&name(&nm(b, b'B')), &[4, 2]])]))]));
    });
    // lengths of both names x every kind and variant of type
    let nl = run.q3(12u64, 48, 140);
    let items: [&[u8]; 15] = [&[0, 0], &[0, 5], &[1, 0x70, 0, 1], &[1, 0x6F, 1, 0, 9], &[1, 0x64, 0, 4, 1], &[1, 0x63, 3, 5, 1, 2], &[2, 0, 1], &[2, 1, 0, 3], &[2, 4, 1], &[2, 5, 1, 2], &[3, 0x7F, 0], &[3, 0x7E, 1], &[3, 0x64, 2, 0], &[4, 0, 0], &[4, 0, 9]];
    run.par("both name lengths x types", nl * nl, 16, |w, i| {
        let nm = |n: u64, c: u8| -> Vec<u8> { (0..n).map(|j| c + (j % 23) as u8).collect() };
        let (a, b) = (name(&nm(i % nl, b'a')), name(&nm(i / nl, b'A')));
        w.check(&module(&[sec(2, &list(&items.iter().map(|x| cat(&[&a, &b, x])).collect::<Vec<_>>()))]));
        for x in items { w.check(&module(&[sec(2, &list(&[cat(&[&a, &b, x])]))])); }
        w.check(&module(&[sec(7, &list(&(0..5u8).flat_map(|k| [cat(&[&a, &[k, 0]]), cat(&[&b, &[k, 7]])]).collect::<Vec<_>>()))]));
    });
    run.note(format!("module and item names of all lengths below {nl} each, with every kind and variant of external type"));
    // many entries: the k-th stays the k-th; duplicates are kept
    run.par("many entries", 400, 4, |w, n| {
        w.check(&module(&[sec(2, &list(&(0..n).map(|j| cat(&[&name(format!("m{}", j % 7).as_bytes()), &name(format!("n{j}").as_bytes()), &match j % 5 { 0 => cat(&[&[0], &u(j)]), 1 => vec![1, 0x70, 0, j as u8 & 127], 2 => vec![2, 0, 1], 3 => vec![3, 0x7E, (j & 1) as u8], _ => cat(&[&[4, 0], &u(j)]) }])).collect::<Vec<_>>()))]));
        w.check(&module(&[sec(7, &list(&(0..n).map(|j| cat(&[&name(format!("e{}", j % 5).as_bytes()), &[(j % 5) as u8], &u(j * 37)])).collect::<Vec<_>>()))]));
        w.check(&module(&[sec(13, &list(&(0..n).map(|j| cat(&[&[0], &u(j * 3)])).collect::<Vec<_>>()))]));
    });
}

pub fn c09(run: &Run) {
    crate::small::entries(run, &[4, 6, 9, 11]);
    if !run.lite() { combinations(run, &[4, 6, 9, 12, 11], false) }
    for id in [4, 6, 9, 11] { pda_structure(run, Root::Sec(id), run.q(2, 3), run.q(2, 4)); }
    let (wide, narrow) = (Alpha::wide(), Alpha::narrow());
    for bits in 0..8u8 { dev::explore(run, "element variants", Root::Sec(9), &[1, bits], &narrow, 2); }
    dev::explore(run, "elements", Root::Sec(9), &[], if run.thorough() { &wide } else { &narrow }, 2);
    for bits in 0..3u8 { dev::explore(run, "data variants", Root::Sec(11), &[1, bits], if run.thorough() { &wide } else { &narrow }, 2); }
    for st in [&[1][..], &[1, 0x40, 0, 0x70, 0, 1], &[1, 0x70], &[1, 0x63]] { dev::explore(run, "tables", Root::Sec(4), st, if run.thorough() { &wide } else { &narrow }, 2); }
    for st in [&[1][..], &[1, 0x7F, 0], &[1, 0x64, 0x6E, 1]] { dev::explore(run, "globals", Root::Sec(6), st, if run.thorough() { &wide } else { &narrow }, 2); }
    // variants x payload shapes
    let offs: Vec<Vec<u8>> = vec![vec![0x0B], vec![0x41, 0, 0x0B], vec![0x41, 0x7F, 0x0B], vec![0x42, 0x80, 1, 0x0B], vec![0x23, 5, 0x0B], vec![0x41, 1, 0x41, 2, 0x6A, 0x0B], vec![0x02, 0x40, 0x0B, 0x41, 3, 0x0B]];
    let tabs: Vec<Vec<u8>> = [0u64, 1, 2, 127, 128, u32::MAX as u64].map(u).to_vec();
    let tys: Vec<Vec<u8>> = vec![vec![0x70], vec![0x6F], vec![0x64, 0x70], vec![0x63, 0x70], vec![0x63, 0], vec![0x64, 0x85, 1], vec![0x6E], vec![0x7F]];
    let fidx: Vec<Vec<u8>> = vec![list(&[]), list(&[vec![0]]), list(&[vec![3], vec![1], vec![2]]), list(&[u(u32::MAX as u64), vec![0]]), rep(130, &[7])];
    let exprs: Vec<Vec<u8>> = vec![list(&[]), list(&[vec![0x0B]]), list(&[vec![0xD2, 0, 0x0B]]), list(&[vec![0xD0, 0x70, 0x0B], vec![0xD2, 4, 0x0B]]), list(&[vec![0x23, 1, 0x0B], vec![0x41, 1, 0xFB, 28, 0x0B], vec![0xD2, 0x80, 1, 0x0B]])];
    let mut segs: Vec<Vec<u8>> = vec![];
    for o in &offs { for f in &fidx { segs.push(cat(&[&[0], o, f])) } for e in &exprs { segs.push(cat(&[&[4], o, e])) } }
    for k in [0u8, 1, 0x70, 0xFF] { for f in &fidx { segs.push(cat(&[&[1, k], f])); segs.push(cat(&[&[3, k], f])) } }
    for t in &tabs { for o in &offs { for f in &fidx { segs.push(cat(&[&[2], t, o, &[0], f])) } for ty in &tys { for e in &exprs { segs.push(cat(&[&[6], t, o, ty, e])) } } } }
    for ty in &tys { for e in &exprs { segs.push(cat(&[&[5], ty, e])); segs.push(cat(&[&[7], ty, e])) } }
    run.count("element segments", segs.len() as u64);
    let n = segs.len() as u64;
    run.par("element segments", n, 16, |w, i| {
        let a = &segs[i as usize];
        w.check(&module(&[sec(9, &cat(&[&[1], a]))]));
        // next to each other: state of one must not leak into the other
        for j in (0..n).step_by(w.run.q(11, 1)) { w.check(&module(&[sec(9, &cat(&[&[2], a, &segs[j as usize]]))])); }
    });
    let inits: Vec<Vec<u8>> = vec![name(b""), name(&[0x0B]), name(&[0, 0xFF, 1]), name(&[0x80; 130]), name(&(0..=255u8).collect::<Vec<_>>())];
    let mut ds: Vec<Vec<u8>> = vec![];
    for i in &inits { ds.push(cat(&[&[1], i])); for o in &offs { ds.push(cat(&[&[0], o, i])); for t in &tabs { ds.push(cat(&[&[2], t, o, i])) } } }
    for b in 3..=255u64 { ds.push(cat(&[&u(b), &[0, 0x0B, 0]])) }
    let n = ds.len() as u64;
    run.par("data segments", n * n, 64, |w, i| {
        let (a, b) = (&ds[(i % n) as usize], &ds[(i / n) as usize]);
        w.check(&module(&[sec(11, &cat(&[&[2], a, b]))]));
        if i < n { w.check(&module(&[sec(11, &cat(&[&[1], a]))])); }
    });
    let lims: Vec<Vec<u8>> = vec![vec![0, 0], vec![1, 0, 0], vec![0, 0x80, 1], vec![1, 1, 0xFF, 0xFF, 3], vec![4, 1], vec![5, 1, 2], vec![2, 1], vec![3, 1, 1]];
    let mut tb: Vec<Vec<u8>> = vec![];
    for ty in &tys { for l in &lims { tb.push(cat(&[ty, l])); for e in &offs { tb.push(cat(&[&[0x40, 0], ty, l, e])) } } }
    for z in 1..=255u8 { tb.push(vec![0x40, z, 0x70, 0, 0, 0x0B]) }
    let n = tb.len() as u64;
    run.par("tables", n * n, 128, |w, i| {
        let (a, b) = (&tb[(i % n) as usize], &tb[(i / n) as usize]);
        w.check(&module(&[sec(4, &cat(&[&[2], a, b]))]));
        if i < n { w.check(&module(&[sec(4, &cat(&[&[1], a]))])); }
    });
    let mut gl: Vec<Vec<u8>> = vec![];
    for t in valtypes() { for m in 0..3u8 { for e in &offs { gl.push(cat(&[&t, &[m], e])) } } }
    let n = gl.len() as u64;
    run.par("globals", n * run.q(60, n), 128, |w, i| {
        let (a, b) = (&gl[(i % n) as usize], &gl[(i / n) as usize * w.run.q(n as usize / 60, 1)]);
        w.check(&module(&[sec(6, &cat(&[&[2], a, b]))]));
        if i < n { w.check(&module(&[sec(6, &cat(&[&[1], a]))])); }
    });
    // every instruction as (part of) an initialiser
    let marked = instrs_marked();
    run.par("initialisers", marked.len() as u64, 4, |w, i| { for ctx in 1..EXPR_CONTEXTS { w.check(&expr_in(ctx, &marked[i as usize])); } });
    // many segments of alternating variants
    run.par("many segments", 200, 4, |w, k| {
        w.check(&module(&[sec(9, &list(&(0..k).map(|j| segs[(j * 97 % segs.len() as u64) as usize].clone()).collect::<Vec<_>>()))]));
        let good: Vec<Vec<u8>> = (0..k).map(|j| match j % 8 { 0 => cat(&[&[0], &offs[1], &u(1), &u(j)]), 1 => cat(&[&[1, 0, 1], &u(j)]), 2 => cat(&[&[2], &u(j), &offs[2], &[0, 1], &u(j)]), 3 => cat(&[&[3, 0, 1], &u(j)]), 4 => cat(&[&[4], &offs[3], &[1, 0xD2], &u(j), &[0x0B]]), 5 => cat(&[&[5, 0x6F, 1, 0xD0, 0x6F, 0x0B]]), 6 => cat(&[&[6], &u(j), &offs[4], &[0x64, 0x70, 1, 0xD2], &u(j), &[0x0B]]), _ => vec![7, 0x63, 5, 0] }).collect();
        w.check(&module(&[sec(9, &list(&good))]));
    });
    let _ = single([]);
}

pub fn c10(run: &Run) {
    crate::small::locals(run);
    pda(run, Root::Sec(10), run.q(1, 2), 0, run.q(1, 2));
    pda(run, Root::Func, run.q(2, 3), 0, run.q(1, 3));
    // run-length lists: all of up to 3 runs over counts x types
    let counts = [0u64, 1, 2, 3, 127, 128, 300];
    let types: [&[u8]; 6] = [&[0x7F], &[0x7E], &[0x7C], &[0x7B], &[0x70], &[0x64, 3]];
    let runs: Vec<Vec<u8>> = counts.iter().flat_map(|&c| types.iter().map(move |t| cat(&[&u(c), t]))).collect();
    let n = runs.len() as u64;
    for k in 0..=run.q(3u32, 4) {
        run.par("locals", n.pow(k), 128, |w, i| {
            let mut q = i;
            let l = list(&(0..k).map(|_| { let c = runs[(q % n) as usize].clone(); q /= n; c }).collect::<Vec<_>>());
            w.check(&func_module(&cat(&[&l, &[0x41, 7, 0x1A, 0x0B]])));
        });
    }
    run.note("all lists of up to 3 (thorough: 4) runs over 7 counts x 6 types");
    // every pair of lengths of two runs; three runs around powers of two
    let m = run.q3(140u64, 530, 1100);
    run.par("pairs of run lengths", m * m, 64, |w, i| {
        let (a, b) = (i % m, i / m);
        w.check(&func_module(&cat(&[&[2], &u(a), &[0x7F], &u(b), &[0x7E, 0x01, 0x0B]])));
    });
    let around: Vec<u64> = std::iter::once(0).chain((0..=run.q3(8, 13, 16)).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1])).collect();
    let na = around.len() as u64;
    run.par("three run lengths around powers of two", na.pow(3), 16, |w, i| {
        let [a, b, c] = [i % na, i / na % na, i / na / na].map(|k| around[k as usize]);
        if a + b + c > run.q(10_000, 80_000) { return }
        w.check(&func_module(&cat(&[&[3], &u(a), &[0x7F], &u(b), &[0x64, 1], &u(c), &[0x7F, 0x0B]])));
    });
    run.note(format!("two runs: every pair of lengths below {m}; three runs: lengths within 1 of powers of two"));
    // many runs, big runs within the model's bound
    run.par("many runs", 600, 8, |w, n| {
        let l = list(&(0..n).map(|j| cat(&[&u(j % 5), types[(j % 6) as usize]])).collect::<Vec<_>>());
        w.check(&func_module(&cat(&[&l, &[0x0B]])));
    });
    run.par("big runs", 40, 1, |w, i| {
        let (k, d) = (i / 4 + 7, i % 4);
        let c = (1u64 << k) - 1 + d;
        w.check(&func_module(&cat(&[&[1], &u(c), &[0x7F, 0x0B]])));
        w.check(&func_module(&cat(&[&[3], &u(c), &[0x7F], &[1, 0x7B], &u(c), &[0x70, 0x0B]])));
    });
    // the limit: all lists of up to 4 (5) runs over counts around powers of two; totals
    // above 2^32-1 must be rejected (those between the model's bound and the limit: see below)
    let big = [0u64, 1, 2, 0xFFFF, 0x10000, 0x3FFF_FFFF, 0x4000_0000, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_FFFE, 0xFFFF_FFFF];
    for k in 1..=run.q(4u32, 5) {
        run.par("over the limit", 12u64.pow(k), 128, |w, i| {
            let mut q = i;
            let cs: Vec<u64> = (0..k).map(|_| { let c = big[(q % 12) as usize]; q /= 12; c }).collect();
            let l = list(&cs.iter().enumerate().map(|(j, &c)| cat(&[&u(c), types[j % 6]])).collect::<Vec<_>>());
            if cs.iter().sum::<u64>() > u32::MAX as u64 {
                w.check(&func_module(&cat(&[&l, &[0x0B]])));
                w.check(&module(&[sec(3, &[2, 0, 0]), sec(10, &cat(&[&[2, 2, 0, 0x0B], &entry(&cat(&[&l, &[0x0B]]))]))]));
            }
        });
    }
    run.par("many runs over the limit", 4, 1, |w, i| {
        let (n, c) = [(65537u64, 65535u64), (65537, 65536), (70000, 65536), (1 << 18, 1 << 14)][i as usize];
        if n * c <= u32::MAX as u64 { return }
        let mut l = u(n);
        for _ in 0..n { put(&mut l, c); l.push(0x7F) }
        l.push(0x0B);
        w.check(&func_module(&l));
    });
    crate::probe::locals_limit(run, &big, run.q(3, 4));
    // entry sizes: off by d, alone, with neighbours, with the section size adjusted or not
    let bodies: Vec<Vec<u8>> = vec![vec![0, 0x0B], vec![1, 1, 0x7F, 0x0B], vec![0, 0x02, 0x40, 0x0B, 0x0B], vec![0, 0x41, 0x80, 1, 0x1A, 0x0B], vec![2, 1, 0x7F, 2, 0x64, 0, 0x01, 0x0B], vec![0, 0x0B, 0x0B], vec![0], vec![], vec![1, 1], vec![0, 0x0B, 0x00], vec![0, 0x43, 0, 0, 0x0B, 0x0B, 0x0B]];
    let nb = bodies.len() as u64;
    let ds: Vec<i64> = (-6..=6).chain([120, 128, 256, 65536, 1 << 31]).collect();
    let nd = ds.len() as u64;
    run.par("entry sizes", nb * nb * nd * nd, 64, |w, i| {
        let (a, b) = (&bodies[(i % nb) as usize], &bodies[(i / nb % nb) as usize]);
        let (da, db) = (ds[(i / nb / nb % nd) as usize], ds[(i / nb / nb / nd) as usize]);
        let ent = |b: &[u8], d: i64| cat(&[&u((b.len() as i64 + d).max(0) as u64), b]);
        let body = cat(&[&[2], &ent(a, da), &ent(b, db)]);
        let pre = cat(&[&PRE, &sec(3, &[2, 0, 1])]);
        for sd in [-1i64, 0, 1] {
            if sd != 0 && (da.abs() > 6 || db.abs() > 6) { continue }
            let m = cat(&[&pre, &[10], &u((body.len() as i64 + sd) as u64), &body, &custom(b"z", b"")]);
            w.check(&m);
        }
        if db == 0 && b.len() == 2 {
            w.check(&cat(&[&PRE, &sec(3, &[1, 0]), &[10], &u((1 + ent(a, da).len()) as u64), &[1], &ent(a, da)]));
        }
    });
    // sizes padded; entries of many sizes
    run.par("entry lengths", 400, 4, |w, n| {
        let b = cat(&[&[0], &vec![0x01; n as usize], &[0x0B]]);
        for pad in 1..=5 {
            w.check(&module(&[sec(3, &[2, 0, 1]), sec(10, &cat(&[&[2], &upad(b.len() as u64, pad.max(leb_len(b.len()))), &b, &[2, 0, 0x0B]]))]));
        }
        for d in [-1i64, 1] { w.check(&module(&[sec(3, &[1, 0]), sec(10, &cat(&[&[1], &u((b.len() as i64 + d) as u64), &b]))])); }
    });
    // bytes left over, or missing, after bodies of every sort and of many sizes
    let sizes: Vec<usize> = [4usize, 20, 127, 128, 255, 256, 1000, 1024, 4096, 8192, 16383, 16384, 32768, 65535, 65536].into_iter().chain(if run.thorough() { vec![1 << 20, (1 << 21) - 1, 1 << 21] } else { vec![] }).collect();
    run.par("left over after long bodies", sizes.len() as u64 * 6, 1, |w, i| {
        let (n, sort) = (sizes[(i / 6) as usize], i % 6);
        let b = match sort {
            0 => { let k = n / 2; let mut l = u(k as u64); for j in 0..k { l.extend([(j % 2) as u8, [0x7F, 0x7E, 0x70][j % 3]]) } l }
            1 => cat(&[&[0], &vec![0x01; n]]),
            2 => cat(&[&[1, 2, 0x7F], &[0x41, 5].repeat(n / 2)]),
            3 => cat(&[&[0], &[0x02, 0x40, 0x0B].repeat(n / 3)]),
            4 => cat(&[&[0, 0x0E], &rep(n, &[1]), &[0]]),
            _ => cat(&[&[0, 0x1C], &rep(n, &[0x7F])]),
        };
        let b = cat(&[&b, &[0x0B]]);
        for extra in 0..=9usize {
            for fill in [0x00u8, 0x0B, 0x01] {
                let e = cat(&[&b, &vec![fill; extra]]);
                // last, and followed by another one
                w.check(&module(&[sec(3, &[1, 0]), sec(10, &list(&[entry(&e)]))]));
                w.check(&module(&[sec(3, &[2, 0, 1]), sec(10, &list(&[entry(&e), entry(&[0, 0x0B])]))]));
                // the declared size is short of what is there
                if extra > 0 && fill == 0 {
                    let short = cat(&[&u((b.len() - extra.min(b.len())) as u64), &b]);
                    w.check(&module(&[sec(3, &[1, 0]), sec(10, &list(&[short.clone()]))]));
                    w.check(&module(&[sec(3, &[2, 0, 1]), sec(10, &list(&[short, entry(&[0, 0x0B])]))]));
                }
            }
        }
    });
    run.note(format!("0 to 9 bytes left over or missing after bodies of 6 sorts and sizes {sizes:?}"));
    // bytes left over after every instruction that can be the last one, in every body of two or three
    let last = instrs1();
    run.par("left over after every last instruction", last.len() as u64, 16, |w, i| {
        let b = cat(&[&[0, 0x41, 0], &last[i as usize], &[0x0B]]);
        for extra in 1..=9usize {
            for fill in [0x00u8, 0x0B, 0x01, 0x0F, 0x1A, 0xFF] {
                if fill > 1 && extra > 4 && !w.run.thorough() { continue }
                let e = entry(&cat(&[&b, &vec![fill; extra]]));
                let k = (i as usize + extra) % 3;
                w.check(&module(&[sec(3, &rep(3, &[0])), sec(10, &list(&(0..3).map(|j| if j == k { e.clone() } else { vec![2, 0, 0x0B] }).collect::<Vec<_>>()))]));
                if extra < 4 { w.check(&module(&[sec(3, &[1, 0]), sec(10, &list(&[e]))])); }
            }
        }
        // none left over, and one byte short
        w.check(&module(&[sec(3, &[2, 0, 0]), sec(10, &list(&[entry(&b), entry(&b)]))]));
        w.check(&module(&[sec(3, &[2, 0, 0]), sec(10, &list(&[cat(&[&u(b.len() as u64 - 1), &b]), entry(&b)]))]));
    });
    run.note(format!("1 to 9 bytes of 6 values left over after each of {} last instructions", last.len()));
    run.par("long entries", 8, 1, |w, i| {
        let n = [16383usize, 16384, 65535, 65536, 65537, 1 << 20, (1 << 21) - 1, 1 << 21][i as usize];
        let b = cat(&[&[0], &vec![0x01; n - 2], &[0x0B]]);
        w.check(&module(&[sec(3, &[2, 0, 1]), sec(10, &cat(&[&[2], &entry(&b), &[2, 0, 0x0B]]))]));
    });
    let (wide, narrow) = (Alpha::wide(), Alpha::narrow());
    dev::explore(run, "function bodies", Root::Func, &[], &wide, 2);
    for st in [&[1][..], &[2, 1, 0x7F], &[1, 1, 0x64], &[3, 0, 0x7F, 2, 0x7E]] { dev::explore(run, "locals and bodies", Root::Func, st, if run.thorough() { &wide } else { &narrow }, 2); }
    dev::explore(run, "code section", Root::Sec(10), &[], &wide, 2);
}

pub fn c11(run: &Run) {
    let mut corpus = small_corpus();
    corpus.extend(fixtures());
    // bigger ones: many sections, long lists, long vectors
    corpus.push(module(&[sec(1, &rep(300, &[0x60, 1, 0x7F, 0])), custom(b"x", &[1; 300]), sec(3, &rep(200, &[5])), sec(10, &rep(200, &[4, 0, 0x41, 1, 0x0B])), sec(11, &rep(50, &[0, 0x41, 0, 0x0B, 3, 1, 2, 3]))]));
    corpus.push(module(&[custom(b"first", &[0; 200]), custom(b"", b""), sec(1, &[0]), custom(b"second", &[0, 1, 0]), sec(8, &[0]), custom(b"third", &[3; 130]), custom(b"3", b"")]));
    // contents that look like sections
    corpus.push(module(&[custom(b"x", &cat(&[&sec(1, &[0]), &sec(0, &name(b"q")), &sec(11, &[0])])), sec(11, &list(&[cat(&[&[1], &name(&cat(&[&sec(0, &[0]), &PRE]))])]))]));
    corpus.push(vec![PRE.to_vec(), sec(0, &[0]), PRE.to_vec()].concat());
    let mut subs = vec![];
    for mask in (0..1u32 << 13).step_by(run.q(37, 1)) { subs.push(order_modules(mask)) }
    corpus.extend(subs);
    run.par("every prefix", corpus.len() as u64, 1, |w, i| {
        let m = &corpus[i as usize];
        for k in 0..=m.len() { w.check(&m[..k]); }
    });
    run.note(format!("every prefix of {} modules", corpus.len()));
    // cut in one place and continued elsewhere: bytes missing in the middle
    let small: Vec<Vec<u8>> = small_corpus();
    run.par("gaps", small.len() as u64 * 400, 4, |w, i| {
        let m = &small[(i / 400) as usize];
        let p = (i % 400) as usize + 8;
        if p >= m.len() { return }
        for q in p + 1..=m.len().min(p + w.run.q(40, 400)) { w.check(&cat(&[&m[..p], &m[q..]])); }
    });
    // a section cut anywhere followed by a well-formed one
    run.par("cut section, then another", 14, 1, |w, id| {
        let body = rich(id as u8);
        let s = sec(id as u8, &body);
        for k in 0..s.len() { for f in [custom(b"", b""), sec(11, &[0]), sec(1, &[0]), vec![0; 8]] {
            w.check(&cat(&[&PRE, &s[..k], &f]));
        } }
    });
    // long vectors and names cut anywhere
    run.par("long vectors", 6, 1, |w, i| {
        let n = [300usize, 5000, 9000, 16385, 17000, 33000][i as usize];
        let v: Vec<u8> = (0..n).map(|j| b'a' + (j % 26) as u8).collect();
        let m = match i % 3 { 0 => module(&[custom(&v, &v)]), 1 => module(&[sec(11, &cat(&[&[1, 1], &name(&v)])), custom(b"q", b"")]), _ => module(&[sec(7, &cat(&[&[1], &name(&v), &[0, 0]]))]) };
        let step = if n > 1000 { 7 } else { 1 };
        for k in (0..m.len()).filter(|k| k % step == 0 || m.len() - k < 600 || *k < 600 || k % 4096 < 3) { w.check(&m[..k]); }
    });
    // the grammar: every state of every section, cut there
    for id in 0..14 { pda_structure(run, Root::Sec(id), run.q(2, 3), 0); }
    pda(run, Root::Func, 1, 0, 0);
}

/// Contents of one element each, of every sort.
fn singles(id: u8) -> Vec<Vec<u8>> {
    let one = |e: &[u8]| list(&[e.to_vec()]);
    match id {
        1 => vec![one(&[0x60, 0, 0]), one(&[0x5E, 0x7F, 0]), one(&[0x5F, 1, 0x78, 1]), one(&[0x4E, 0])],
        2 => vec![one(&[1, b'a', 1, b'b', 0, 0]), one(&[1, b'a', 1, b'b', 1, 0x70, 0, 1]), one(&[1, b'a', 1, b'b', 2, 0, 1]), one(&[1, b'a', 1, b'b', 3, 0x7F, 1]), one(&[1, b'a', 1, b'b', 4, 0, 0])],
        3 => vec![one(&[0]), one(&[1]), list(&[vec![5], vec![5]])],
        4 => vec![one(&[0x70, 0, 0]), one(&[0x6F, 1, 1, 2]), one(&[0x40, 0, 0x70, 0, 1, 0xD2, 0, 0x0B])],
        5 => vec![one(&[0, 0]), one(&[1, 1, 2]), one(&[4, 1])],
        6 => vec![one(&[0x7F, 0, 0x41, 1, 0x0B]), one(&[0x70, 1, 0xD2, 0, 0x0B]), one(&[0x7E, 0, 0x23, 0, 0x0B])],
        7 => (0..5).map(|k| one(&[1, b'e', k, 0])).collect(),
        9 => (0..8u8).map(|k| one(&match k { 0 => vec![0, 0x0B, 1, 0], 1 => vec![1, 0, 1, 0], 2 => vec![2, 0, 0x0B, 0, 1, 0], 3 => vec![3, 0, 1, 0], 4 => vec![4, 0x0B, 1, 0xD2, 0, 0x0B], 5 => vec![5, 0x70, 1, 0xD2, 0, 0x0B], 6 => vec![6, 0, 0x0B, 0x70, 1, 0x0B], _ => vec![7, 0x70, 0] })).collect(),
        10 => vec![one(&[2, 0, 0x0B]), one(&[4, 1, 1, 0x7F, 0x0B]), one(&[5, 0, 0xFC, 9, 0, 0x0B])],
        11 => vec![one(&[0, 0x0B, 0]), one(&[1, 1, 7]), one(&[2, 1, 0x41, 0, 0x0B, 1, 8])],
        13 => vec![one(&[0, 0]), one(&[0, 5])],
        _ => vec![],
    }
}

/// Several contents for each of these sections: all pairs and triples of them.
fn combinations(run: &Run, ids: &[u8], customs: bool) {
    let variants: Vec<(u8, Vec<u8>)> = {
        let mut v = vec![];
        for &id in ids {
            let mut vs = vec![rich(id)];
            if id != 8 && id != 12 { vs.push(minimal(id)); vs.extend(singles(id)) } else if id == 8 { vs.extend([vec![0], vec![1], vec![2], u(u32::MAX as u64)]) }
            for x in vs { v.push((id, x)) }
        }
        v
    };
    let nv = variants.len() as u64;
    run.count("section contents", nv);
    let combine = |w: &mut crate::engine::W, pick: &[&(u8, Vec<u8>)]| {
        if pick.windows(2).any(|p| crate::refdec::rank(p[0].0) >= crate::refdec::rank(p[1].0)) { return }
        let mut parts: Vec<(u8, Vec<u8>)> = pick.iter().map(|p| (p.0, p.1.clone())).collect();
        // what consistency demands
        let has = |parts: &[(u8, Vec<u8>)], id: u8| parts.iter().find(|p| p.0 == id).map(|p| first_u32(&p.1).unwrap());
        match (has(&parts, 3), has(&parts, 10)) { (Some(n), None) => parts.push((10, rep(n as usize, &[2, 0, 0x0B]))), (None, Some(n)) => parts.push((3, rep(n as usize, &[0]))), (Some(a), Some(b)) if a != b => return, _ => {} }
        match (has(&parts, 12), has(&parts, 11)) { (Some(n), None) => if n > 0 { parts.push((11, rep(n as usize, &[1, 0]))) }, (None, d) if has(&parts, 10).is_some() => parts.push((12, u(d.unwrap_or(0) as u64))), (Some(a), Some(b)) if a != b => return, _ => {} }
        parts.sort_by_key(|p| crate::refdec::rank(p.0));
        w.check(&module(&parts.iter().map(|p| sec(p.0, &p.1)).collect::<Vec<_>>()));
        if !customs { return }
        let c = custom(b"c", b"1");
        w.check(&module(&parts.iter().flat_map(|p| [c.clone(), sec(p.0, &p.1)]).collect::<Vec<_>>()));
    };
    run.par("pairs and triples of section contents", nv * nv, 4, |w, i| {
        let (a, b) = (&variants[(i % nv) as usize], &variants[(i / nv) as usize]);
        combine(w, &[a, b]);
        if crate::refdec::rank(a.0) < crate::refdec::rank(b.0) { for c in &variants { combine(w, &[a, b, c]) } }
    });
    run.note(format!("{nv} contents of sections: all pairs and triples of different sections, with and without custom sections in between"));
}

pub fn c19(run: &Run) {
    // all subsets of the sections
    run.par("section subsets", 1 << 13, 16, |w, mask| {
        w.check(&order_modules(mask as u32));
    });
    // each section alone decodes to what it does among all others
    let all = wadec::decode_module(&order_modules(0x1FFF)[..]);
    run.par("alone and among others", if run.verdict { 1 << 13 } else { 0 }, 16, |w, mask| {
        let Ok(all) = &all else { w.fail(&order_modules(0x1FFF), "the module with all sections is rejected"); return };
        let bytes = order_modules(mask as u32);
        w.seen(&bytes, true);
        if let Ok(Ok(m)) = w.decode(&bytes) {
            w.accepted += 1;
            let has = |id: u8| mask >> crate::refdec::rank(id) & 1 == 1;
            macro_rules! part { ($id:expr, $f:ident) => { if has($id) { if format!("{:?}", m.$f) != format!("{:?}", all.$f) { w.fail(&bytes, format!("{} decode differently among other sections", stringify!($f))) } } } }
            part!(1, types); part!(2, imports); part!(4, tables); part!(5, mems); part!(6, globals); part!(7, exports); part!(8, start); part!(9, elems); part!(12, data_count); part!(10, funcs); part!(11, datas); part!(13, tags);
            if !has(1) && !m.types.is_empty() || !has(2) && !m.imports.is_empty() || !has(8) && m.start.is_some() || !has(12) && m.data_count.is_some() { w.fail(&bytes, "definitions without their section") }
        } else { w.rejected += 1 }
    });
    // custom sections: every subset of gaps of a full module
    let secs: Vec<Vec<u8>> = ORDER.iter().map(|&id| sec(id, &rich(id))).collect();
    run.par("custom sections in every subset of gaps", 1 << 14, 16, |w, mask| {
        let mut m = PRE.to_vec();
        for k in 0..14usize {
            if mask >> k & 1 == 1 { m.extend(custom(&[b'a' + k as u8], &vec![k as u8; k])) }
            if k < 13 { m.extend(&secs[k]) }
        }
        w.check(&m);
    });
    // one and two custom sections of every kind at every pair of gaps
    let mut cs: Vec<Vec<u8>> = vec![];
    for n in [&b""[..], b"name", b"producers", b"target_features", b"linking", b"reloc.CODE", b"dylink.0", b"dylink", b"sourceMappingURL", b"external_debug_info", b".debug_info", b".debug_line", b"core", b"coredump", b"metadata.code.branch_hint", b"metadata.code.trace_inst", b"build_id", b"component-type", b"datacount", b"\0asm", "n\u{E4}me".as_bytes(), b"Name", b"NAME ", b"start", b"code", b"custom"] {
        for c in [&b""[..], &[0], &[0, 1, 0], &[1, 2, 3, 0xFF], b"\0asm\x01\0\0\0", &[0, 3, 1, 2, 3, 1, 1, 0], &[0x80; 9], &[0xFF; 200]] { cs.push(custom(n, c)) }
    }
    let n = cs.len() as u64;
    run.par("custom sections by name and content", n * 15, 8, |w, i| {
        let c = &cs[(i / 15) as usize];
        let g = (i % 15) as usize;
        for subset in [0x1FFFu32, 0, 0b1_1000_0000_1100] {
            let mut v: Vec<Vec<u8>> = ORDER.iter().enumerate().filter(|(k, _)| subset >> k & 1 == 1).map(|(_, &id)| sec(id, &if subset == 0x1FFF { rich(id) } else { minimal(id) })).collect();
            let g = g.min(v.len());
            v.insert(g, c.clone());
            w.check(&module(&v));
            v.insert(v.len(), c.clone());
            w.check(&module(&v));
            v.insert(g, cs[(i as usize * 7) % cs.len()].clone());
            w.check(&module(&v));
        }
    });
    // every name with a meaning, with every byte and some text as contents, before, in and behind modules that have a bit of everything
    let busy = [order_modules(0x1FFF), full(), {
        let bodies: Vec<Vec<u8>> = [&[0u8, 0x01, 0x01, 0x0B][..], &[1, 2, 0x7F, 0x20, 0, 0x1A, 0x01, 0x02, 0x40, 0x0B, 0x0B], &[0, 0x41, 0, 0x04, 0x40, 0x01, 0x05, 0x0B, 0x00, 0x0B], &[0, 0x41, 0, 0x0D, 0, 0x0F, 0x0B]].iter().map(|b| entry(b)).collect();
        module(&[sec(1, &[1, 0x60, 0, 0]), sec(2, &cat(&[&[2], &name(b"env"), &name(b"f"), &[0, 0], &name(b"env"), &name(b"memory"), &[2, 0, 1]])), sec(3, &[4, 0, 0, 0, 0]), sec(4, &[1, 0x70, 0, 1]), sec(5, &[1, 0, 1]), sec(6, &[1, 0x7F, 1, 0x41, 0, 0x0B]), sec(7, &cat(&[&[2], &name(b"memory"), &[2, 0], &name(b"_start"), &[0, 1]])), sec(8, &[1]), sec(9, &[1, 0, 0x41, 0, 0x0B, 1, 1]), sec(12, &[2]), sec(10, &list(&bodies)), sec(11, &[2, 0, 0x41, 0, 0x0B, 2, 0, 0, 1, 0])])
    }];
    let cut: Vec<Vec<usize>> = busy.iter().map(|m| crate::gens::section_ends(m)).collect();
    let texts: [&[u8]; 12] = [b"", b"\0\0", b"\x01\x00", b"\x00\x01\x00", b"\x02\x01\x00\x00", b"\x01\x02\x00\x01\x61", b"\0asm", b"abc", b"\x01\x01\x01\x01\x01\x01\x01\x01", b"file.map", b"[]", b"{}"];
    let nn = KNOWN_NAMES.len() as u64;
    run.par("names with a meaning x contents x gaps", nn * 268, 8, |w, i| {
        let (nm, k) = (KNOWN_NAMES[(i % nn) as usize].as_bytes(), (i / nn) as usize);
        let c = if k < 12 { texts[k].to_vec() } else { vec![(k - 12) as u8] };
        let c = custom(nm, &c);
        for (m, ends) in busy.iter().zip(&cut) {
            for (j, &e) in ends.iter().enumerate() {
                if (k > 14 && j % 5 != k % 5 || w.run.lite() && k > 2) && !w.run.thorough() { continue }
                w.check(&cat(&[&m[..e], &c, &m[e..]]));
            }
        }
    });
    run.note(format!("{nn} names with a meaning with 268 contents in the gaps of modules with a bit of everything"));
    // contents: all of up to 2 bytes (3: thorough), for a plain and a well-known name
    for nm in [&b""[..], b"x", b"name"] {
        for k in 0..=run.q(2u32, 3) {
            run.par("custom contents", 256u64.pow(k), 1024, |w, i| {
                let c = &i.to_be_bytes()[8 - k as usize..];
                w.check(&module(&[custom(nm, c), sec(1, &[0])]));
            });
        }
    }
    // contents and names that begin, end or consist of runs of one byte
    run.par("runs of one byte", 256 * 20, 8, |w, i| {
        let (x, run) = ((i % 256) as u8, (i / 256 + 1) as usize);
        for n in [0usize, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 200] {
            let mid: Vec<u8> = (0..n).map(|j| (j as u8).wrapping_mul(37).wrapping_add(x).wrapping_add(1)).collect();
            let r = vec![x; run];
            for c in [cat(&[&mid, &r]), cat(&[&r, &mid]), cat(&[&r, &mid, &r]), cat(&[&mid, &r, &mid])] {
                w.check(&module(&[custom(b"a", &c), sec(8, &[0]), custom(&[b'b'; 3], &c)]));
            }
            if x < 128 {
                let mid: Vec<u8> = mid.iter().map(|b| b & 0x7F).collect();
                for c in [cat(&[&mid, &r]), cat(&[&r, &mid]), cat(&[&mid, &r, &mid])] { w.check(&module(&[custom(&c, b"x"), custom(&c, &c)])); }
            }
        }
    });
    // entries with meaningful names next to every other section
    let names: Vec<&[u8]> = vec![b"", b"m", b"env", b"memory", b"table", b"global", b"__indirect_function_table", b"__memory_base", b"__table_base", b"__stack_pointer", b"__linear_memory", b"_start", b"_initialize", b"main", b"start", b"wasi_snapshot_preview1", b"wasi_unstable", b"spectest", b"js", b"mem", b"tag", b"func", b"exports", b"imports", b"GOT.mem", b"GOT.func", b"__cpp_exception", b"proc_exit", b"fd_write", b"data", b"wasm:js-string", b"0", b"_", b"."];
    let nn = names.len() as u64;
    let item = |k: u64| -> Vec<u8> { match k { 0 => vec![0, 1], 1 => vec![1, 0x70, 0, 1], 2 => vec![2, 0, 1], 3 => vec![3, 0x7F, 0], _ => vec![4, 0, 1] } };
    run.par("meaningful names", nn * nn * 5, 8, |w, i| {
        let (a, b, k) = (names[(i % nn) as usize], names[(i / nn % nn) as usize], i / nn / nn);
        let imp = sec(2, &list(&[cat(&[&name(a), &name(b), &item(k)])]));
        let exp = sec(7, &list(&[cat(&[&name(a), &[k as u8], &u(1)]), cat(&[&name(b), &[(k + 1) as u8 % 5], &u(0)])]));
        for other in ORDER {
            let mut parts: Vec<(u8, Vec<u8>)> = vec![(2, imp.clone()), (7, exp.clone())];
            if other == 2 || other == 7 { parts.retain(|p| p.0 != other) } else { parts.push((other, sec(other, &rich(other)))) }
            for need in match other { 3 => vec![10], 10 => vec![3, 12, 11], 12 => vec![11], _ => vec![] } { parts.push((need, sec(need, &rich(need)))) }
            parts.sort_by_key(|p| crate::refdec::rank(p.0));
            w.check(&module(&parts.iter().map(|p| p.1.clone()).collect::<Vec<_>>()));
            for drop in [2u8, 7] { w.check(&module(&parts.iter().filter(|p| p.0 != drop).map(|p| p.1.clone()).collect::<Vec<_>>())); }
        }
        // custom sections of these names around them
        w.check(&module(&[custom(a, b), imp.clone(), custom(b, a), exp.clone(), custom(a, b)]));
    });
    run.note(format!("{nn} x {nn} meaningful names in imports of every kind and in exports, next to every other section; runs of up to 20 equal bytes at the ends of contents and names"));
    combinations(run, &ORDER, true);
    // a custom section of every size before, between and behind the sections of modules
    // that are rejected (or not) for every reason that concerns several sections
    let e = |b: &[u8]| entry(&cat(&[&[0], b, &[0x0B]]));
    let bases: Vec<Vec<Vec<u8>>> = vec![
        ORDER.iter().map(|&id| sec(id, &rich(id))).collect(),
        vec![sec(3, &[1, 0]), sec(10, &list(&[e(&[0xFC, 9, 0])]))],
        vec![sec(3, &[1, 0]), sec(12, &[1]), sec(10, &list(&[e(&[0xFC, 9, 0])])), sec(11, &[1, 1, 0])],
        vec![sec(3, &[1, 0]), sec(10, &list(&[e(&[0xFB, 9, 0, 0])])), sec(11, &[1, 1, 0])],
        vec![sec(3, &[2, 0, 0]), sec(10, &list(&[e(&[])]))],
        vec![sec(3, &[1, 0]), sec(10, &list(&[e(&[]), e(&[])]))],
        vec![sec(3, &[1, 0])],
        vec![sec(10, &list(&[e(&[])]))],
        vec![sec(12, &[2]), sec(11, &[1, 1, 0])],
        vec![sec(12, &[1])],
        vec![sec(12, &[0])],
        vec![sec(11, &[1, 1, 0])],
        vec![sec(6, &[0]), sec(5, &[0])],
        vec![sec(13, &rich(13)), sec(5, &rich(5))],
        vec![sec(1, &[0]), sec(1, &[0])],
        vec![sec(11, &[0]), sec(12, &[0])],
        vec![sec(7, &rich(7)), sec(14, &[])],
        vec![sec(8, &[0]), sec(9, &[1, 0])],
    ];
    let most = run.q3(40u64, 600, 3000);
    run.par("a custom section of every size in every module", bases.len() as u64 * most, 4, |w, i| {
        let (base, n) = (&bases[(i % bases.len() as u64) as usize], (i / bases.len() as u64) as usize);
        for c in [custom(b"", &vec![0; n]), custom(b"name", &vec![0x0B; n]), custom(&vec![b'a'; n], b"")] {
            for g in 0..=base.len() {
                let mut v = base.clone();
                v.insert(g, c.clone());
                w.check(&module(&v));
                v.insert(g, custom(b"q", b""));
                w.check(&module(&v));
                if g > 0 { v.insert(g - 1, c.clone()); w.check(&module(&v)); }
            }
        }
    });
    run.note(format!("custom sections of all sizes below {most} in every gap of {} modules that are fine or break a rule between sections", bases.len()));
    run.par("custom sizes", 700, 4, |w, n| {
        let n = n as usize;
        let v: Vec<u8> = (0..n).map(|j| (j * 7) as u8).collect();
        w.check(&module(&[custom(b"a", &v), custom(&vec![b'n'; n], b"zz"), sec(8, &[0]), custom(b"b", &v)]));
    });
    run.par("big customs", 10, 1, |w, i| {
        let n = [4095usize, 4096, 8191, 8192, 16384, 65535, 65536, 1 << 20, (1 << 21) + 1, 1 << 22][i as usize];
        let v: Vec<u8> = (0..n).map(|j| (j * 7 + j / 256) as u8).collect();
        w.check(&module(&[custom(b"a", &v), sec(8, &[0]), custom(b"b", &v[1..])]));
    });
    // number of custom sections
    run.par("many customs", 300, 8, |w, n| {
        let v: Vec<Vec<u8>> = (0..n).map(|j| custom(format!("c{}", j % 9).as_bytes(), &[j as u8])).collect();
        let mut m = v.clone();
        m.push(sec(1, &rich(1)));
        m.extend(v);
        m.push(sec(13, &rich(13)));
        w.check(&module(&m));
    });
    run.par("sequences with customs", 6u64.pow(run.q(6, 7)), 256, |w, i| {
        let l = [custom(b"", b""), custom(b"b", b"1"), sec(1, &rich(1)), sec(13, &rich(13)), sec(8, &[1]), sec(11, &[0])];
        let mut m = PRE.to_vec();
        let mut q = i;
        for _ in 0..w.run.q(6, 7) { m.extend(&l[(q % 6) as usize]); q /= 6; }
        w.check(&m);
    });
    pda(run, Root::Sec(0), run.q(2, 4), 0, 2);
}

const LANES32: [u32; 13] = [0x7F80_0000, 0xFF80_0000, 0x7F80_0001, 0xFFBF_FFFF, 0x7FC0_0000, 0xFFC0_0000, 0x7FFF_FFFF, 0x3F80_0000, 0xBF80_0000, 0x0080_0000, 0x7F_FFFF, 0x7FC0_0001, 0x7FA0_0000];
const LANES64: [u64; 12] = [0x7FF0 << 48, 0xFFF0 << 48, 0x7FF0 << 48 | 1, 0xFFF7 << 48 | 0xFFFF, 0x7FF8 << 48, 0xFFF8 << 48, 0x3FF0 << 48, 0xBFF0 << 48, 0xF_FFFF_FFFF_FFFF, 0x10 << 48, 0x7FF8 << 48 | 1, 0x7FF4 << 48];

/// All `total` values of an operand in blocks of many instructions: each body is
/// built from the values, decoded, and compared with the values one by one.
fn dense(run: &Run, name: &str, total: u64, emit: impl Fn(&mut Vec<u8>, u64) + Sync, same: impl Fn(&wadec::core::Instruction, u64) -> bool + Sync) {
    const B: u64 = 1 << 14;
    run.par(name, total / B, 1, |w, i| {
        let mut body = std::mem::take(&mut w.buf);
        body.clear();
        body.push(0);
        for k in i * B..(i + 1) * B { emit(&mut body, k) }
        body.push(0x0B);
        let bytes = func_module(&body);
        w.buf = body;
        w.seen(&bytes, true);
        let Ok(Ok(m)) = w.decode(&bytes) else { w.fail(&bytes, format!("{name}: a body of constants is rejected")); return };
        w.accepted += 1;
        let b = &m.funcs[0].body;
        if b.len() as u64 != B { w.fail(&bytes, format!("{name}: {} instructions instead of {B}", b.len())); return }
        if let Some(k) = (0..B).find(|k| !same(&b[*k as usize], i * B + k)) {
            let mut one = vec![0];
            emit(&mut one, i * B + k);
            one.push(0x0B);
            let one = func_module(&one);
            // alone, if it shows there
            let alone = matches!(w.decode(&one), Ok(Ok(m)) if same(&m.funcs[0].body[0], i * B + k));
            w.fail(if alone { &bytes } else { &one }, format!("{name}: value {:#x} decodes as {:?}", i * B + k, b[k as usize]));
        }
    });
    run.count("values enumerated one by one", total);
}
pub fn c20(run: &Run) {
    // f32: every sign and exponent with mantissas of up to two set bits (and their complements): thorough: all 2^32
    let mant32: Vec<u32> = { let mut v = vec![0u32]; for a in 0..23 { v.push(1 << a); for b in 0..a { v.push(1 << a | 1 << b) } } let c: Vec<u32> = v.iter().map(|x| !x & 0x7F_FFFF).collect(); v.extend(c); v };
    run.par("f32 patterns", 512, 1, |w, hi| {
        let mut b = vec![0];
        for &m in &mant32 { b.push(0x43); b.extend(((hi as u32) << 23 | m).to_le_bytes()) }
        b.push(0x0B);
        w.check(&func_module(&b));
    });
    run.note(format!("f32: all 512 signs and exponents x {} mantissas; f64: all 4096 x mantissas with up to two set bits and complements", mant32.len()));
    let mant64: Vec<u64> = { let mut v = vec![0u64]; for a in 0..52 { v.push(1 << a); for b in 0..a { v.push(1 << a | 1 << b) } } let c: Vec<u64> = v.iter().map(|x| !x & ((1 << 52) - 1)).collect(); v.extend(c); v };
    run.par("f64 patterns", 4096, 8, |w, hi| {
        let mut b = vec![0];
        for &m in &mant64 { b.push(0x44); b.extend((hi << 52 | m).to_le_bytes()) }
        b.push(0x0B);
        w.check(&func_module(&b));
    });
    // integers
    let (s32, s64) = (sbounds(32), sbounds(64));
    run.par("integers", 64 * 64, 32, |w, i| {
        let (a, c) = (i % 64, i / 64);
        let v = (1u64 << a | 1 << c) as i64;
        let mut b = vec![];
        for x in [v, !v, v.wrapping_neg(), v ^ i64::MIN, (v as u64).wrapping_sub(1) as i64] {
            b.push(0x42); b.extend(s(x));
            b.push(0x41); b.extend(s(x as i32 as i64));
            b.push(0x41); b.extend(spad(x as i32 as i64, 5));
            b.push(0x42); b.extend(spad(x, 10));
        }
        w.check(&code(&b));
    });
    run.par("integers at boundaries", 8, 1, |w, ctx| {
        for &v in &s32 { w.check(&expr_in(ctx as usize, &cat(&[&[0x41], &s(v)]))); }
        for &v in &s64 { w.check(&expr_in(ctx as usize, &cat(&[&[0x42], &s(v)]))); }
    });
    // vectors and shuffles: every byte value at every position, all positions distinct, pairs of positions
    run.par("vectors", 16 * 256, 16, |w, i| {
        let (p, x) = ((i % 16) as usize, (i / 16) as u8);
        for op in [12u8, 13] {
            for base in [[0u8; 16], [0xFF; 16], std::array::from_fn(|j| j as u8 * 16 + 15 - j as u8), std::array::from_fn(|j| 255 - j as u8)] {
                let mut v = base;
                v[p] = x;
                w.check(&code(&cat(&[&[0xFD, op], &v, &[0x01]])));
                if x % 16 == 0 { for ctx in 0..EXPR_CONTEXTS { w.check(&expr_in(ctx, &cat(&[&[0xFD, op], &v]))); } }
                for q in 0..16 { let mut u = v; u[q] = u[q].wrapping_add(x); w.check(&code(&cat(&[&[0xFD, op], &u]))); }
            }
        }
    });
    // vectors made of lanes: every lane width, all lanes equal, one different, alternating
    run.par("vector lanes", 4 * 64, 1, |w, i| {
        let (lw, k) = (1usize << (i % 4), (i / 4) as u32);
        let bits = 8 * lw as u32;
        let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        let mut vals = vec![0u64, mask, 1, mask >> 1, 1 << (bits - 1), (1 << (bits - 1)) | 1, 0x5555_5555_5555_5555 & mask, 0xAAAA_AAAA_AAAA_AAAA & mask, 0x0102_0304_0506_0708 & mask, 0x8081_8283_8485_8687 & mask];
        if bits == 32 { vals.extend(LANES32.map(|x| x as u64)) }
        if bits == 64 { vals.extend(LANES64) }
        if bits == 16 { vals.extend([0x7C00, 0xFC00, 0x3C00, 0x7E00, 0xFE00, 0x7C01, 0x8001]) }
        if bits == 8 { vals = (0..256).collect() }
        let x = 1u64 << (k % bits);
        vals.extend([x, !x & mask]);
        let n = 16 / lw;
        for &a in vals.iter().skip(if k < 8 || bits != 8 { 0 } else { 256 }) {
            for &b in vals.iter().step_by(if bits == 8 { 37 } else { 1 }) {
                let fill = |f: &dyn Fn(usize) -> u64| -> Vec<u8> { (0..n).flat_map(|j| f(j).to_le_bytes()[..lw].to_vec()).collect() };
                let mut out = vec![0x01];
                let mut vs = vec![fill(&|j| if j % 2 == 0 { a } else { b }), fill(&|j| if j < n / 2 { a } else { b }), fill(&|_| a)];
                for p in 0..n { vs.push(fill(&|j| if j == p { b } else { a })) }
                for v in vs { out.extend([0xFD, 12]); out.extend(&v); out.extend([0xFD, 13]); out.extend(&v); }
                w.check(&code(&out));
            }
        }
    });
    run.note("v128: lanes of 1, 2, 4 and 8 bytes over interesting values, all equal, two halves, alternating, and one lane different at every place");
    // floats of interest in every expression position and next to each other
    let f32s = [0u32, 1 << 31, 1, 0x8000_0001, 0x7F_FFFF, 0x80_0000, 0x7F80_0000, 0xFF80_0000, 0x7F80_0001, 0xFFBF_FFFF, 0x7FC0_0000, 0xFFC0_0000, 0x7FFF_FFFF, 0xFFFF_FFFF, 0x3F80_0000, 0x0102_0304, 0x7FA0_0000, 0x7FC0_0001];
    let f64s = [0u64, 1 << 63, 1, 1 << 63 | 1, 0xF_FFFF_FFFF_FFFF, 0x7FF0 << 48, 0xFFF0 << 48, 0x7FF0 << 48 | 1, 0xFFF7 << 48 | 0xFFFF, 0x7FF8 << 48, 0xFFF8 << 48, u64::MAX >> 1, u64::MAX, 0x3FF0 << 48, 0x0102_0304_0506_0708, 0x7FF4 << 48, 0x7FF8 << 48 | 1, 0x7FF0_0000_2000_0000];
    let mut cs: Vec<Vec<u8>> = vec![];
    for f in f32s { cs.push(cat(&[&[0x43], &f.to_le_bytes()])) }
    for f in f64s { cs.push(cat(&[&[0x44], &f.to_le_bytes()])) }
    for v in [0i64, -1, 63, 64, -64, -65, i32::MIN as i64, i32::MAX as i64] { cs.push(cat(&[&[0x41], &s(v)])); cs.push(cat(&[&[0x42], &s(v)])) }
    cs.push(cat(&[&[0xFD, 12], &[0x7F; 16]]));
    cs.push(cat(&[&[0xFD, 13], &(0..16).collect::<Vec<u8>>()]));
    let n = cs.len() as u64;
    run.par("constants in every position", n * n * n, 64, |w, i| {
        let (a, b, c) = (&cs[(i % n) as usize], &cs[(i / n % n) as usize], &cs[(i / n / n) as usize]);
        if i / n / n >= 8 && !w.run.thorough() { return }
        w.check(&code(&cat(&[a, b, &[0x02, 0x40], c, &[0x0B]])));
        if i < n { for ctx in 0..EXPR_CONTEXTS { w.check(&expr_in(ctx, a)); w.check(&expr_in(ctx, &cat(&[b, a, a]))); } }
    });
    let st = pda(run, Root::Func, 1, 0, run.q(0, 2));
    let _ = st;
    for st in [&[0x43u8][..], &[0x44], &[0xFD, 12], &[0xFD, 13], &[0x41], &[0x42]] { dev::explore(run, "constants", Root::Func, &cat(&[&[0], st]), &Alpha { consts: single(0..=255), ..Alpha::wide() }, run.q(1, 2)); }
    if !run.lite() && run.verdict {
        use wadec::core::Instruction as I;
        dense(run, "every f32", 1 << 32, |b, k| { b.push(0x43); b.extend((k as u32).to_le_bytes()) }, |i, k| matches!(i, I::F32Const(x) if x.to_bits() == k as u32));
        dense(run, "every i32", 1 << 32, |b, k| { b.push(0x41); sput(b, k as u32 as i32 as i64) }, |i, k| matches!(i, I::I32Const(x) if *x == k as u32 as i32));
        run.note("every f32 and every i32 value");
    }
}

/// A cyclic sequence over `0..k` that contains every string of length `n` once.
fn de_bruijn(k: usize, n: usize) -> Vec<u8> {
    // concatenated Lyndon words whose length divides n
    let (mut a, mut out, mut t, mut stack) = (vec![0u8; n + 1], vec![], 1, vec![]);
    // iterative form of the usual recursion db(t, p)
    stack.push((1usize, 1usize, 0usize));
    while let Some((tt, p, j)) = stack.pop() {
        t = tt;
        if t > n {
            if n % p == 0 { out.extend(&a[1..=p]) }
            continue;
        }
        if j == 0 {
            a[t] = a[t - p];
            stack.push((t, p, a[t] as usize + 1));
            stack.push((t + 1, p, 0));
        } else if j < k {
            a[t] = j as u8;
            stack.push((t, p, j + 1));
            stack.push((t + 1, t, 0));
        }
    }
    let _ = t;
    out
}
/// Names that tools, embeddings or toolchains attach a meaning to.
const KNOWN_NAMES: &[&str] = &[
    "", "name", "linking", "reloc.CODE", "reloc.DATA", "reloc..debug_info", "producers", "target_features", "dylink", "dylink.0", "sourceMappingURL", "external_debug_info", ".debug_info", ".debug_line", ".debug_str",
    "metadata.code.branch_hint", "metadata.code.trace_inst", "build_id", "component-type", "component-name", "core", "coremodules", "coreinstances", "corestack", "datacount", "start", "code", "custom", "type", "data",
    "_start", "_initialize", "main", "__main_argc_argv", "__original_main", "__wasm_call_ctors", "__wasm_call_dtors", "__wasm_apply_data_relocs", "__wasm_init_memory", "memory", "mem", "table", "__indirect_function_table", "__stack_pointer", "__heap_base", "__data_end", "__memory_base", "__table_base", "__tls_base", "__dso_handle", "__cpp_exception", "__linear_memory", "__wbindgen_placeholder__", "__wbindgen_start", "__wbindgen_malloc", "__wbindgen_export_0", "__wbindgen_externref_xform__", "__wbg_log",
    "env", "wasi", "wasi_unstable", "wasi_snapshot_preview0", "wasi_snapshot_preview1", "wasi:cli/run@0.2.0", "wasi:io/streams", "wasi", "wasix_32v1", "wasi_ephemeral_nn", "wasm:js-string", "wasm:text-encoder", "spectest", "js", "go", "gojs", "wbg", "asyncify", "a", "m", "imports", "exports", "default", "index", "module", "GOT.mem", "GOT.func", "global", "globals", "func", "functions", "tag", "exception", "proc_exit", "fd_write", "malloc", "free", "realloc", "cabi_realloc", "canonical_abi_realloc", "memory.grow", "abort", "console", "log", "seed", "trace", "Math", "string", "constructor", "prototype", "__proto__", "toString", "then", "NaN", "null", "undefined", "true", "false", "0", "1", "-1", "*", "$", "$0", "_", "__", "@", "{}", "[]", "()", "%s", "%", "\\", "/", "./a", "../a", "a/b", "a.b", "a b", " ", "\t", "\n", "\0", "\u{feff}", "\u{e4}",
];
pub fn c21(run: &Run) {
    let sites: [(&str, fn(&[u8]) -> Vec<u8>); 6] = [
        ("custom", |n| module(&[custom(n, b"rest")])),
        ("import module", |n| module(&[sec(2, &cat(&[&[1], &name(n), &name(b"item"), &[0, 0]]))])),
        ("import item", |n| module(&[sec(2, &cat(&[&[1], &name(b"mod"), &name(n), &[3, 0x7F, 0]]))])),
        ("export", |n| module(&[sec(7, &cat(&[&[1], &name(n), &[0, 0]]))])),
        ("second export", |n| module(&[sec(7, &cat(&[&[2, 1, b'a', 1, 2], &name(n), &[4, 3]]))])),
        ("second import", |n| module(&[sec(2, &cat(&[&[2, 0, 0, 2, 0, 1], &name(n), &name(n), &[4, 0, 1]]))])),
    ];
    for (k, (nm, f)) in sites.iter().enumerate() {
        let max = if k == 0 { 3 } else { run.q(2, 3) };
        for n in 0..=if run.lite() { 2 } else { max } {
            run.par(&format!("all strings, {nm}"), 256u64.pow(n), 2048, |w, i| { let b = i.to_be_bytes(); w.check(&f(&b[8 - n as usize..])); });
        }
        // every code point
        run.par(&format!("all code points, {nm}"), 0x110000 / 64, 16, |w, i| {
            if (k > 0 || w.run.lite()) && !w.run.thorough() && i % 4 != k as u64 % 4 { return }
            for c in i * 64..i * 64 + 64 {
                if let Some(c) = char::from_u32(c as u32) { let mut b = [0; 4]; w.check(&f(c.encode_utf8(&mut b).as_bytes())); }
            }
        });
        // four bytes over boundary classes
        let cls = [0u8, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF];
        run.par(&format!("four and five bytes, {nm}"), 25u64.pow(4), 2048, |w, i| {
            let mut q = i;
            let b: [u8; 4] = std::array::from_fn(|_| { let x = cls[(q % 25) as usize]; q /= 25; x });
            w.check(&f(&b));
            if w.run.thorough() { for c in cls { w.check(&f(&[b[0], b[1], b[2], b[3], c])); } }
        });
    }
    run.note("all byte strings of up to 3 bytes (custom; others 2, thorough 3), every Unicode code point, all 4-byte strings over 25 boundary classes, at every name site");
    if run.thorough() {
        run.par("all four-byte strings from E0", 0x20 << 24, 65536, |w, i| { let b = ((0xE0 << 24) + i as u32).to_be_bytes(); w.check(&module(&[custom(&b, b"")])); });
    }
    // many names in one module: all three-character strings, every character of the
    // basic plane before and behind every ASCII character
    let packed = |ns: &[Vec<u8>]| -> Vec<u8> {
        let (mut cs, mut is, mut es) = (vec![], u(ns.len() as u64), u(ns.len() as u64));
        for (k, n) in ns.iter().enumerate() {
            let m = name(n);
            cs.extend(sec(0, &m));
            is.extend(cat(&[&m, &name(&ns[(k + 1) % ns.len()]), &[0, 0]]));
            es.extend(cat(&[&m, &[0, 0]]));
        }
        module(&[cs, sec(2, &is), sec(7, &es)])
    };
    let cut = if run.lite() { 8 } else { 1 };
    run.par("all strings of three ASCII characters", (1 << 14) / cut, 8, |w, i| {
        let ns: Vec<Vec<u8>> = (0..128).map(|k| { let x = (i * cut) << 7 | k; vec![(x >> 14) as u8, (x >> 7 & 127) as u8, (x & 127) as u8] }).collect();
        w.check(&packed(&ns));
    });
    run.par("pairs with an ASCII character", 0xF800 / cut, 8, |w, i| {
        let c = (i * cut) as u32;
        let Some(c) = char::from_u32(if c >= 0xD800 { c + 0x800 } else { c }) else { return };
        let ns: Vec<Vec<u8>> = (0..128u8).flat_map(|a| [format!("{}{c}", a as char).into_bytes(), format!("{c}{}", a as char).into_bytes()]).collect();
        w.check(&packed(&ns));
    });
    // names of many lengths that begin and end with every pair of ASCII characters
    let ls: Vec<usize> = [3usize, 5, 16, 31, 64, 127, 128, 255, 256, 260].into_iter().chain(if run.lite() { vec![] } else { vec![520, 1030] }).collect();
    run.par("pairs at the ends of long names", (1 << 11) * ls.len() as u64 / cut, 4, |w, i| {
        let (l, x) = (ls[i as usize % ls.len()], i / ls.len() as u64 * cut);
        let ns: Vec<Vec<u8>> = (0..8).map(|k| {
            let x = x << 3 | k;
            let (a, b) = ((x >> 7) as u8, (x & 127) as u8);
            let mut n: Vec<u8> = (0..l).map(|j| b'a' + ((j as u64 + x) % 26) as u8).collect();
            n[0] = b; n[1] = a; n[l - 2] = a; n[l - 1] = b;
            n
        }).collect();
        w.check(&packed(&ns));
    });
    // every three-character sequence inside long names: a de Bruijn sequence in pieces
    let seq = de_bruijn(128, 3);
    for l in [100usize, 300, 5000] {
        let k = seq.len().div_ceil(l) as u64;
        run.par("all three-character sequences in long names", k / cut, 4, |w, i| {
            let i = (i * cut) as usize;
            let n: Vec<u8> = (0..l + 2).map(|j| seq[(i * l + j) % seq.len()]).collect();
            w.check(&packed(&[n, vec![b'z']]));
        });
    }
    run.note(format!("packed: all strings of 3 ASCII characters, every pair of an ASCII and a basic-plane character, every pair of ASCII characters at both ends of names of {ls:?} bytes, every 3-character sequence inside names of 102, 302 and 5002 bytes; at all name sites"));
    if run.thorough() {
        run.par("all strings of four ASCII characters", 1 << 21, 64, |w, i| {
            let ns: Vec<Vec<u8>> = (0..128).map(|k| { let x = i << 7 | k; vec![(x >> 21) as u8, (x >> 14 & 127) as u8, (x >> 7 & 127) as u8, (x & 127) as u8] }).collect();
            w.check(&packed(&ns));
        });
    }
    // an ill-formed or special sequence at every position of names of every length
    let specials: [&[u8]; 22] = [&[0x80], &[0xFF], &[0xC0, 0x80], &[0xC3], &[0xE2, 0x82], &[0xED, 0xA0, 0x80], &[0xF0, 0x9F, 0xA6], &[0xF4, 0x90, 0x80, 0x80], &[0xEF, 0xBB, 0xBF], &[0], &[0xC3, 0xA9], &[b'e', 0xCC, 0x81], &[0xE2, 0x84, 0xAB], &[0xF0, 0x9F, 0xA6, 0x80], &[0x20], &[0x0A], &[0x7F], &[0xEF, 0xBF, 0xBD], &[0xEF, 0xBF, 0xBE], &[0xE2, 0x80, 0xAE], &[0xFE, 0xFF], &[0xF8, 0x88, 0x80, 0x80, 0x80]];
    let maxl = run.q(70u64, 300);
    run.par("positions", maxl * 22, 8, |w, i| {
        let (l, sp) = ((i / 22) as usize, specials[(i % 22) as usize]);
        for p in 0..=l {
            let mut b: Vec<u8> = (0..l).map(|j| b'a' + (j % 26) as u8).collect();
            b.splice(p..p, sp.iter().copied());
            for (_, f) in &sites[..4] { w.check(&f(&b)); }
        }
    });
    // lengths: name length in bytes, around integer boundaries, multi-byte fill; declared length off by d
    run.par("lengths", 330, 4, |w, l| {
        let l = l as usize;
        for fill in ["a", "é", "€", "🦀"] {
            let b: Vec<u8> = fill.repeat(l / fill.len()).into_bytes();
            for (_, f) in &sites { w.check(&f(&b)); }
        }
        let b: Vec<u8> = (0..l).map(|j| b'A' + (j % 50) as u8).collect();
        for d in [-3i64, -2, -1, 1, 2] {
            let n = b.len() as i64 + d;
            if n < 0 { continue }
            for pad in [0, 5] { let nm = cat(&[&upad(n as u64, pad), &b]); w.check(&module(&[sec(0, &nm)])); w.check(&module(&[sec(7, &cat(&[&[1], &nm, &[0, 0]]))])); w.check(&module(&[sec(2, &cat(&[&[1], &nm, &name(b"q"), &[0, 0]]))])); w.check(&module(&[sec(2, &cat(&[&[1], &name(b"q"), &nm, &[0, 0]]))])); }
        }
    });
    // every code point at the beginning, in the middle and at the end of longer names, everywhere at once
    run.par("all code points among others", 0x110000 / 64, 16, |w, i| {
        if w.run.lite() && i % 3 != 0 && i > 2048 { return }
        for c in i * 64..i * 64 + 64 {
            let Some(c) = char::from_u32(c as u32) else { continue };
            let [first, middle, last, only, ends] = [format!("{c}abcd"), format!("ab{c}cd"), format!("abcd{c}"), format!("{c}{c}{c}{c}"), format!("{c}abcd{c}")].map(String::into_bytes);
            w.check(&module(&[
                custom(&first, &last), custom(&middle, b""), custom(&last, &first), custom(&only, &only), custom(&ends, b""),
                sec(2, &list(&[cat(&[&name(&first), &name(&last), &[0, 0]]), cat(&[&name(&middle), &name(&ends), &[0, 1]]), cat(&[&name(&last), &name(&middle), &[0, 2]]), cat(&[&name(&only), &name(&first), &[0, 3]]), cat(&[&name(&ends), &name(&only), &[0, 4]])])),
                sec(7, &list(&[&first, &middle, &last, &only, &ends].map(|n| cat(&[&name(n), &[0, 0]])))),
            ]));
        }
    });
    // every code point, many in a row, deep inside names
    run.par("all code points in long names", 0x110000 / 256, 4, |w, i| {
        if w.run.lite() && i % 8 != 0 { return }
        for pad in [0usize, 61, 62, 63, 64, 65, 250, 1021] {
            let mut n = String::new();
            for j in 0..pad { n.push((b'a' + (j % 26) as u8) as char) }
            for c in i * 256..i * 256 + 256 { n.extend(char::from_u32(c as u32)) }
            n.push_str("tail");
            w.check(&packed(&[n.into_bytes(), b"x".to_vec()]));
        }
    });
    run.par("special sequences in long names", 300 * 22, 8, |w, i| {
        let (p, sp) = ((i / 22) as usize, specials[(i % 22) as usize]);
        if w.run.lite() && p % 8 > 1 { return }
        for t in [0usize, 1, 2, 7, 8, 9, 15, 16, 17, 33, 65, 130, 260] {
            let mut b: Vec<u8> = (0..p + t).map(|j| b'a' + (j % 26) as u8).collect();
            b.splice(p..p, sp.iter().copied());
            for (_, f) in &sites[..4] { w.check(&f(&b)); }
        }
    });
    // names with a meaning, in pairs
    let nk = KNOWN_NAMES.len() as u64;
    run.par("pairs of names with a meaning", nk * nk, 32, |w, i| {
        let (a, b) = (KNOWN_NAMES[(i % nk) as usize].as_bytes(), KNOWN_NAMES[(i / nk) as usize].as_bytes());
        let items = |n: &[u8]| list(&[cat(&[&name(n), &name(b), &[0, 0]]), cat(&[&name(n), &name(b), &[1, 0x70, 0, 1]]), cat(&[&name(n), &name(b), &[2, 0, 1]]), cat(&[&name(n), &name(b), &[3, 0x7F, 0]]), cat(&[&name(n), &name(b), &[4, 0, 0]])]);
        let exports = list(&(0..5u8).flat_map(|k| [cat(&[&name(a), &[k], &u(i % 3)]), cat(&[&name(b), &[k, 0]])]).collect::<Vec<_>>());
        w.check(&module(&[custom(a, b), sec(2, &items(a)), sec(7, &exports), custom(b, a)]));
        if i % nk == 0 { for (_, f) in &sites { w.check(&f(b)); } }
        for x in [b'.', b'/', b':', b'_', b'@', b'#', b'$'] { let n = cat(&[a, &[x], b]); w.check(&packed(&[n.clone(), a.to_vec()])); }
    });
    run.note(format!("every code point deep inside long names; special sequences at each of 300 positions; {nk} names with a meaning in pairs and joined"));
    // characters of every length at every position of names with a meaning
    let known: [&[u8]; 24] = [b"name", b"linking", b"reloc.CODE", b"reloc.", b"producers", b"target_features", b"dylink", b"dylink.0", b"sourceMappingURL", b"external_debug_info", b".debug_info", b".debug_", b"metadata.code.branch_hint", b"build_id", b"component-type", b"component-name", b"coremodules", b"_start", b"__wasm_call_ctors", b"memory", b"__indirect_function_table", b"wasi_snapshot_preview1", b"wasm:js-string", b"env"];
    run.par("characters in names with a meaning", known.len() as u64 * 12, 1, |w, i| {
        let (k, ins) = (known[(i / 12) as usize], ["é", "€", "🦀", "\u{0}", ".", "_", "/", "\u{FEFF}", "\u{FE0F}", "\u{301}", "ßß", "x€"][(i % 12) as usize]);
        for p in 0..=k.len() {
            let a = cat(&[&k[..p], ins.as_bytes(), &k[p..]]);
            let b = cat(&[&k[..p], ins.as_bytes()]);
            let mut v = vec![a, b, cat(&[ins.as_bytes(), &k[p..]]), cat(&[k, &vec![b'.'; p], ins.as_bytes()])];
            if p < k.len() { v.push(cat(&[&k[..p], ins.as_bytes(), &k[p + 1..]])) }
            for n in v { for (_, f) in &sites { w.check(&f(&n)); } }
        }
    });
    run.par("long names", 12, 1, |w, i| {
        let l = [1023usize, 4095, 4096, 8192, 16383, 16384, 32767, 65535, 65536, 70000, 1 << 20, 1 << 21][i as usize];
        if l > 8192 && w.run.lite() { return }
        for bad in [None, Some(0), Some(l / 2), Some(l - 1)] {
            let mut b: Vec<u8> = (0..l).map(|j| b'a' + (j % 26) as u8).collect();
            if let Some(p) = bad { b[p] = 0xFF }
            for (_, f) in &sites { w.check(&f(&b)); }
        }
        // a character across every position near the ends
        for p in (0..40).chain(l - 40..l - 2).chain(l / 2 - 9..l / 2 + 9) {
            if l > 20000 && !w.run.thorough() { break }
            let mut b: Vec<u8> = (0..l).map(|j| b'a' + (j % 26) as u8).collect();
            b[p..p + 3].copy_from_slice("€".as_bytes());
            w.check(&module(&[custom(&b, b"")]));
        }
    });
    for id in [0, 2, 7] { pda(run, Root::Sec(id), run.q(2, 3), 0, run.q(1, 2)); }
}

pub fn c22(run: &Run) {
    // (name, module from n elements, of which the i-th is made from the number e(i))
    type E<'a> = &'a dyn Fn(u64) -> u64;
    type F = fn(u64, E) -> Vec<u8>;
    fn items(n: u64, e: E, f: impl Fn(u64) -> Vec<u8>) -> Vec<u8> { let mut o = u(n); for i in 0..n { o.extend(f(e(i))) } o }
    let kinds: Vec<(&str, F)> = vec![
        ("types", |n, e| module(&[sec(1, &items(n, e, |i| match i % 4 { 0 => vec![0x60, 0, 0], 1 => cat(&[&[0x5E, 0x64], &s(i as i64), &[0]]), 2 => vec![0x5F, 0], _ => cat(&[&[0x50, 1], &u(i), &[0x60, 0, 0]]) }))])),
        ("rec group", |n, e| module(&[sec(1, &cat(&[&[1, 0x4E], &items(n, e, |i| cat(&[&[0x50, 1], &u(i), &[0x5F, 0]]))]))])),
        ("supertypes", |n, e| module(&[sec(1, &cat(&[&[1, 0x50], &items(n, e, u), &[0x5F, 0]]))])),
        ("fields", |n, e| module(&[sec(1, &cat(&[&[1, 0x5F], &items(n, e, |i| cat(&[&[0x64], &s(i as i64), &[(i & 1) as u8]]))]))])),
        ("params", |n, e| module(&[sec(1, &cat(&[&[1, 0x60], &items(n, e, |i| cat(&[&[0x63], &s(i as i64)])), &[1, 0x7F]]))])),
        ("results", |n, e| module(&[sec(1, &cat(&[&[1, 0x60, 1, 0x7E], &items(n, e, |i| cat(&[&[0x63], &s(i as i64)]))]))])),
        ("imports", |n, e| module(&[sec(2, &items(n, e, |i| cat(&[&[1, b'm', 1, b'n', 0], &u(i)])))])),
        ("functions and codes", |n, e| module(&[sec(3, &items(n, e, u)), sec(10, &items(n, e, |i| entry(&cat(&[&[0, 0x41], &s(i as i64), &[0x0B]]))))])),
        ("tables", |n, e| module(&[sec(4, &items(n, e, |i| cat(&[&[0x70, 0], &u(i)])))])),
        ("memories", |n, e| module(&[sec(5, &items(n, e, |i| cat(&[&[0], &u(i)])))])),
        ("globals", |n, e| module(&[sec(6, &items(n, e, |i| cat(&[&[0x7F, (i & 1) as u8, 0x41], &s(i as i64), &[0x0B]])))])),
        ("exports", |n, e| module(&[sec(7, &items(n, e, |i| cat(&[&[1, b'e', (i % 5) as u8], &u(i)])))])),
        ("elements", |n, e| module(&[sec(9, &items(n, e, |i| cat(&[&[1, 0, 1], &u(i)])))])),
        ("element functions", |n, e| module(&[sec(9, &cat(&[&[2, 1, 0], &items(n, e, u), &[3, 0, 1, 7]]))])),
        ("element expressions", |n, e| module(&[sec(9, &cat(&[&[2, 5, 0x70], &items(n, e, |i| cat(&[&[0xD2], &u(i), &[0x0B]])), &[3, 0, 1, 7]]))])),
        ("data segments", |n, e| module(&[sec(11, &items(n, e, |i| cat(&[&[1], &name(&i.to_le_bytes()[..4])])))])),
        ("data count", |n, e| module(&[sec(12, &u(n)), sec(11, &items(n, e, |i| vec![1, 1, i as u8]))])),
        ("data bytes", |n, e| module(&[sec(11, &cat(&[&[2, 0, 0x41, 0, 0x0B], &items(n, e, |i| vec![(i * 7 + i / 256 * 13) as u8]), &[1, 1, 5]]))])),
        ("passive data bytes", |n, e| module(&[sec(11, &cat(&[&[2, 1], &items(n, e, |i| vec![(i * 7 + i / 256 * 13) as u8]), &[1, 1, 5]]))])),
        ("data bytes of another memory", |n, e| module(&[sec(11, &cat(&[&[3, 1, 1, 7, 2, 3, 0x41, 0, 0x0B], &items(n, e, |i| vec![(i * 7 + i / 256 * 13) as u8]), &[1, 1, 5]]))])),
        ("active data segments", |n, e| module(&[sec(11, &items(n, e, |i| cat(&[&[0, 0x41], &s(i as i64), &[0x0B, 1, i as u8]])))])),
        ("mixed data segments", |n, e| module(&[sec(11, &items(n, e, |i| match i % 3 { 0 => vec![0, 0x0B, 1, i as u8], 1 => vec![1, 2, 5, i as u8], _ => cat(&[&[2], &u(i), &[0x0B, 0]]) }))])),
        ("mixed element segments", |n, e| module(&[sec(9, &items(n, e, |i| match i % 8 { 0 => cat(&[&[0, 0x0B, 1], &u(i)]), 1 => vec![1, 0, 0], 2 => cat(&[&[2], &u(i), &[0x0B, 0, 0]]), 3 => cat(&[&[3, 0, 1], &u(i)]), 4 => vec![4, 0x0B, 1, 0x0B], 5 => vec![5, 0x6F, 0], 6 => cat(&[&[6], &u(i), &[0x0B, 0x70, 0]]), _ => vec![7, 0x70, 1, 0x0B] }))])),
        ("active element functions", |n, e| module(&[sec(9, &cat(&[&[2, 0, 0x41, 1, 0x0B], &items(n, e, u), &[3, 0, 1, 7]]))])),
        ("active element functions of a table", |n, e| module(&[sec(9, &cat(&[&[2, 2, 5, 0x41, 1, 0x0B, 0], &items(n, e, u), &[3, 0, 1, 7]]))])),
        ("declared element functions", |n, e| module(&[sec(9, &cat(&[&[2, 3, 0], &items(n, e, u), &[3, 0, 1, 7]]))])),
        ("active element expressions", |n, e| module(&[sec(9, &cat(&[&[2, 4, 0x0B], &items(n, e, |i| cat(&[&[0xD2], &u(i), &[0x0B]])), &[3, 0, 1, 7]]))])),
        ("active element expressions of a table", |n, e| module(&[sec(9, &cat(&[&[2, 6, 3, 0x0B, 0x6F], &items(n, e, |i| cat(&[&[0x23], &u(i), &[0x0B]])), &[3, 0, 1, 7]]))])),
        ("declared element expressions", |n, e| module(&[sec(9, &cat(&[&[2, 7, 0x6F], &items(n, e, |i| cat(&[&[0x23], &u(i), &[0x0B]])), &[3, 0, 1, 7]]))])),
        ("mixed imports", |n, e| module(&[sec(2, &items(n, e, |i| cat(&[&[1, b'a' + (i % 26) as u8, 0], &match i % 5 { 0 => cat(&[&[0], &u(i)]), 1 => cat(&[&[1, 0x70, 0], &u(i)]), 2 => cat(&[&[2, 0], &u(i)]), 3 => vec![3, 0x7E, (i / 5 & 1) as u8], _ => cat(&[&[4, 0], &u(i)]) }])))])),
        ("import item name", |n, e| module(&[sec(2, &cat(&[&[1, 1, b'm'], &items(n, e, |i| vec![b'0' + (i * 7 % 70) as u8]), &[0, 5]]))])),
        ("subtypes", |n, e| module(&[sec(1, &items(n, e, |i| match i % 3 { 0 => cat(&[&[0x4E, 1, 0x4F, 1], &u(i), &[0x5F, 0]]), 1 => vec![0x4F, 0, 0x5E, 0x78, 1], _ => vec![0x60, 1, 0x7F, 1, 0x7E] }))])),
        ("global init of a table", |n, e| module(&[sec(4, &cat(&[&[2, 0x40, 0, 0x70, 0, 1], &items(n, e, |i| cat(&[&[0x23], &u(i)]))[leb_len(n as usize)..], &[0x0B, 0x6F, 0, 3]]))])),
        ("blocks in a row", |n, e| func_module(&cat(&[&[0], &items(n, e, |i| match i % 4 { 0 => vec![0x02, 0x40, 0x0B], 1 => cat(&[&[0x03, 0x7F, 0x41], &s(i as i64), &[0x0B]]), 2 => vec![0x04, 0x40, 0x05, 0x01, 0x0B], _ => vec![0x1F, 0x40, 1, 2, 0, 0x0B] })[leb_len(n as usize)..], &[0x0B]]))),
        ("tags", |n, e| module(&[sec(13, &items(n, e, |i| cat(&[&[0], &u(i)])))])),
        ("custom bytes", |n, e| module(&[custom(b"c", &(0..n).map(e).map(|i| (i * 7 + i / 256 * 13) as u8).collect::<Vec<_>>()), sec(1, &[0])])),
        ("custom name", |n, e| module(&[custom(&(0..n).map(e).map(|i| b'0' + (i * 7 % 70) as u8).collect::<Vec<_>>(), b"x"), sec(1, &[0])])),
        ("export name", |n, e| module(&[sec(7, &cat(&[&[2], &items(n, e, |i| vec![b'0' + (i * 7 % 70) as u8]), &[0, 1, 1, b'z', 4, 9]]))])),
        ("import names", |n, e| module(&[sec(2, &cat(&[&[1], &items(n, e, |i| vec![b'0' + (i * 7 % 70) as u8]), &items(n / 2, e, |i| vec![b'0' + (i * 11 % 70) as u8]), &[0, 5]]))])),
        ("local runs", |n, e| func_module(&cat(&[&items(n, e, |i| cat(&[&[(i % 3) as u8, 0x64], &s((i % 1000) as i64)])), &[0x41, 3, 0x0B]]))),
        ("instructions", |n, e| func_module(&cat(&[&[0], &items(n, e, |i| cat(&[&[0x41], &s(i as i64)]))[leb_len(n as usize)..], &[0x0B]]))),
        ("nested instructions", |n, e| func_module(&cat(&[&[0, 0x02, 0x40], &items(n, e, |i| cat(&[&[0x20], &u(i)]))[leb_len(n as usize)..], &[0x0B, 0x01, 0x0B]]))),
        ("then and else", |n, e| func_module(&cat(&[&[0, 0x04, 0x40], &items(n, e, |i| cat(&[&[0x20], &u(i)]))[leb_len(n as usize)..], &[0x05], &items(n, e, |i| cat(&[&[0x21], &u(i)]))[leb_len(n as usize)..], &[0x0B, 0x01, 0x0B]]))),
        ("global init", |n, e| module(&[sec(6, &cat(&[&[2, 0x7F, 0], &items(n, e, |i| cat(&[&[0x41], &s(i as i64)]))[leb_len(n as usize)..], &[0x0B, 0x7E, 1, 0x0B]]))])),
        ("branch table", |n, e| code(&cat(&[&[0x0E], &items(n, e, u), &[5, 0x01]]))),
        ("select types", |n, e| code(&cat(&[&[0x1C], &items(n, e, |i| cat(&[&[0x63], &s(i as i64)])), &[0x01]]))),
        ("catches", |n, e| code(&cat(&[&[0x1F, 0x40], &items(n, e, |i| match i % 4 { 0 => cat(&[&[0], &u(i), &u(i + 1)]), 1 => cat(&[&[1], &u(i), &u(2 * i)]), 2 => cat(&[&[2], &u(i)]), _ => cat(&[&[3], &u(i)]) }), &[0x01, 0x0B, 0x01]]))),
        ("custom sections", |n, e| module(&(0..n).map(e).map(|i| custom(&i.to_string().into_bytes(), &[i as u8])).collect::<Vec<_>>())),
    ];
    let nk = kinds.len() as u64;
    // what the elements are: all different, all equal, runs, repeating, descending
    type P = fn(u64, u64) -> u64;
    let pats: [P; 30] = [|_, i| i, |_, _| 0, |_, _| 3, |n, i| n - 1 - i, |_, i| i / 2, |_, i| i % 2, |n, i| (i >= n / 2) as u64, |n, i| (i + 1 == n) as u64, |_, i| (i == 0) as u64, |_, i| i / 256, |_, i| i % 256, |n, i| if i < n / 3 { 7 } else if i < 2 * n / 3 { i } else { 200 },
        // all of one kind, whatever number of kinds there is, rising, falling and mixed
        |_, i| 120 * i, |_, i| 120 * i + 1, |_, i| 120 * i + 2, |_, i| 120 * i + 3, |_, i| 120 * i + 4, |_, i| 120 * i + 5, |_, i| 120 * i + 6, |_, i| 120 * i + 7,
        |n, i| 120 * (n - 1 - i), |n, i| 120 * (n - 1 - i) + 1, |n, i| 120 * (n - 1 - i) + 2, |n, i| 120 * (n - 1 - i) + 3, |n, i| 120 * (n - 1 - i) + 4, |n, i| 120 * (n - 1 - i) + 5, |n, i| 120 * (n - 1 - i) + 6, |n, i| 120 * (n - 1 - i) + 7,
        |n, i| i * 7 % n, |n, i| if i % 2 == 0 { i } else { n - i }];
    let upto = run.q(520u64, 2100);
    run.par("every length", nk * upto, 16, |w, i| {
        let (k, n) = ((i % nk) as usize, i / nk);
        if w.run.lite() && n > 140 && n % 8 > 1 { return }
        for (j, p) in pats.iter().enumerate() {
            if j >= 12 && n > 270 && n % 8 != 1 && !w.run.thorough() { continue }
            w.check(&kinds[k].1(n, &|i| p(n, i)));
        }
    });
    let mut big: Vec<u64> = vec![];
    for k in 9..=run.q(17u32, 20) { big.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]) }
    big.extend([999, 1000, 1001, 9_999, 10_001, 49_999, 50_000, 50_001, 65_520, 65_521, 99_999, 100_001]);
    big.extend(run.q(vec![10_000, 100_000], vec![1000, 4097, 10_000, 100_000, 1_000_000, 3_000_000]));
    if run.thorough() { big.extend([(1 << 21) - 1, 1 << 21, (1 << 21) + 1]) }
    let nb = big.len() as u64;
    run.par("great lengths", nk * nb * 3, 1, |w, i| {
        let (k, n) = ((i % nk) as usize, big[(i / nk % nb) as usize]);
        if kinds[k].0 == "custom sections" && n > 70000 { return }
        let j = i / nk / nb;
        if (j > 0 && n > 70_000 || n > 70_000 && w.run.lite()) && !w.run.thorough() { return }
        let p = [pats[0], pats[2], pats[6]][j as usize];
        w.check(&kinds[k].1(n, &|i| p(n, i)));
    });
    // beyond: the lists with cheap elements
    let huge: Vec<(&str, u64)> = {
        let mut v = vec![];
        for (k, n) in [("branch table", 16_777_217u64), ("element functions", 16_777_217), ("data bytes", 16_777_217), ("passive data bytes", 33_554_433), ("custom bytes", 33_554_433), ("custom name", 16_777_217), ("import item name", 16_777_217), ("export name", 16_777_217), ("select types", 4_194_305), ("params", 4_194_305), ("results", 4_194_305), ("fields", 4_194_305), ("supertypes", 16_777_217), ("memories", 2_097_153), ("tags", 8_388_609), ("exports", 2_097_153), ("globals", 1_048_577), ("instructions", 4_194_305), ("data segments", 1_048_577), ("types", 1_048_577), ("mixed imports", 1_048_577), ("catches", 4_194_305), ("functions and codes", 1_048_577)] {
            v.push((k, n));
            if run.thorough() { v.push((k, n - 1)); v.push((k, n * 3)) }
        }
        v
    };
    run.par("huge lengths", if run.lite() { 0 } else { huge.len() as u64 }, 1, |w, i| {
        let (k, n) = huge[i as usize];
        let f = kinds.iter().find(|x| x.0 == k).unwrap().1;
        w.check(&f(n, &|i| i & 0x3F));
    });
    run.note(format!("huge: {huge:?}"));
    run.note(format!("{nk} kinds of lists, vectors and sequences: every length up to {}, and {big:?}", upto - 1));
    // declared length off by a little, and encoded at every width
    run.par("declared lengths", nk * run.q3(10, 40, 40), 4, |w, i| {
        let (k, n) = ((i % nk) as usize, i / nk);
        let a = kinds[k].1(n, &|i| i);
        // where two modules with n and n+1 elements first differ in the count: try all counts there
        let b = kinds[k].1(n + 1, &|i| i);
        if let Some(p) = a.iter().zip(&b).skip(8).position(|(x, y)| x != y).map(|p| p + 8) {
            for q in p..(p + 4).min(a.len()) { let mut m = a.clone(); for x in 0..=255u8 { m[q] = x; w.check(&m); } }
        }
    });
    run.par("padded lengths", nk * 30, 4, |w, i| {
        let (k, n) = ((i % nk) as usize, i / nk);
        let m = kinds[k].1(n, &|i| i);
        // pad every one-byte integer equal to the length, one at a time, fixing the section size by reparsing
        for p in 10..m.len().min(60) {
            if m[p] as u64 == n {
                for pad in 2..=6 {
                    let mut c = m[..p].to_vec();
                    c.extend(upad(n, pad));
                    c.extend(&m[p + 1..]);
                    // the (first) section grows
                    let sz = m[9];
                    if sz < 100 { c[9] = sz + pad as u8 - 1; w.check(&c); }
                }
            }
        }
    });
    for id in 1..14 { pda_structure(run, Root::Sec(id), run.q(3, 4), 0); }
    if run.thorough() {
        run.par("huge vectors", 4, 1, |w, i| {
            let n = [1u64 << 24, (1 << 24) + 1, 1 << 26, (1 << 28) + 1][i as usize];
            for k in ["passive data bytes", "custom bytes"] { w.check(&kinds.iter().find(|x| x.0 == k).unwrap().1(n, &|i| i)); }
        });
    }
}

pub fn c17(run: &Run) {
    umbrella(run);
    pda(run, Root::Sec(1), 2, 0, run.q(2, 3));
    for id in [2, 4, 5, 6, 7, 9, 10, 11, 13, 3, 8, 12, 0] { pda_structure(run, Root::Sec(id), 2, run.q(0, 1)); }
    pda(run, Root::Func, run.q(1, 2), 0, 0);
    // positions: a bad element at position k of every list, in lists nested in lists
    let long = vec![0xFFu8; 6];
    let big = vec![0xFF, 0xFF, 0xFF, 0xFF, 0x1F];
    let idx_bad = vec![long.clone(), big.clone(), vec![0x80; 5], vec![0x80]];
    let types_bad: Vec<Vec<u8>> = vec![vec![0x40], vec![0x62], vec![0x63, 0x40], vec![0x64, 0x7F], vec![0x63], vec![0x64, 0xFF, 0xFF, 0xFF, 0xFF, 0x7F, 0x7F]];
    let expr_bad: Vec<Vec<u8>> = vec![vec![0x05, 0x0B], vec![0xFF], vec![0x41, 0xFF, 0xFF, 0xFF, 0xFF, 0x3F], vec![0xFB, 31, 0x0B], vec![0xFC, 18], vec![0xFD, 0x9A, 2], vec![0x02, 0x40, 0x0B], vec![0x02, 0x40, 0x06], vec![0x1C, 2, 0x7F, 0x40], vec![0x0E, 3, 0, 0, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF]];
    let name_bad: Vec<Vec<u8>> = vec![name(&[0xC0, 0x80]), name(b"ab\xFF"), vec![0x85, 0x80, 0x80, 0x80, 0x80, 0], vec![0x7F, b'a']];
    type Wrap = Box<dyn Fn(&[u8]) -> Vec<u8> + Sync>;
    let in_sec = |id: u8, pre: Vec<u8>| -> Wrap { Box::new(move |l: &[u8]| module(&[custom(b"c", b"x"), sec(id, &cat(&[&pre, l]))])) };
    // in a function: the second of two, after a block
    let in_code = |pre: Vec<u8>| -> Wrap { Box::new(move |l: &[u8]| {
        let body = cat(&[&[0, 0x02, 0x40, 0x01, 0x0B], &pre, l, &[0x0B]]);
        module(&[sec(3, &[2, 0, 0]), sec(10, &list(&[entry(&[0, 0x0B]), entry(&body)]))])
    }) };
    let in_func = |pre: Vec<u8>| -> Wrap { Box::new(move |l: &[u8]| module(&[sec(3, &[2, 0, 0]), sec(10, &list(&[entry(&[0, 0x0B]), entry(&cat(&[&pre, l, &[0x0B]]))]))])) };
    let pre_each = |p: &[u8], v: &[Vec<u8>]| -> Vec<Vec<u8>> { v.iter().map(|x| cat(&[p, x])).collect() };
    let join = |v: Vec<Vec<Vec<u8>>>| -> Vec<Vec<u8>> { v.concat() };
    let lists: Vec<(&str, Wrap, Vec<u8>, Vec<Vec<u8>>)> = vec![
        ("types", in_sec(1, vec![]), vec![0x60, 0, 0], join(vec![vec![vec![0x61], vec![0x4F, 1, 0xFF], vec![0x5E, 0x7F, 2], vec![0x4E, 1, 0x40]], pre_each(&[0x60, 3, 0x7F, 0x7E], &types_bad), pre_each(&[0x60, 0, 2, 0x7F], &types_bad), pre_each(&[0x5F, 2, 0x78, 1], &types_bad), pre_each(&[0x50, 2, 1], &idx_bad)])),
        ("recursive group", in_sec(1, vec![3, 0x60, 0, 0, 0x4E]), vec![0x5F, 0], join(vec![vec![vec![0x61], vec![0x4E, 0]], pre_each(&[0x60, 0, 2, 0x7F], &types_bad), pre_each(&[0x4F, 3, 1, 0], &idx_bad)])),
        ("parameters", in_sec(1, vec![2, 0x60, 0, 0, 0x60]), vec![0x7F], types_bad.clone()),
        ("results", in_sec(1, vec![2, 0x60, 0, 0, 0x4E, 2, 0x60, 0, 0, 0x50, 0, 0x60, 1, 0x7F]), vec![0x63, 0x6E], types_bad.clone()),
        ("fields", in_sec(1, vec![2, 0x60, 0, 0, 0x5F]), vec![0x78, 1], join(vec![pre_each(&[], &types_bad), vec![vec![0x7F, 2], vec![0x77, 0xFF]]])),
        ("supertypes", in_sec(1, vec![2, 0x60, 0, 0, 0x4E, 3, 0x5F, 0, 0x5F, 0, 0x50]), vec![0], idx_bad.clone()),
        ("imports", in_sec(2, vec![]), vec![0, 1, b'x', 0, 0], join(vec![name_bad.clone(), pre_each(&[1, b'm'], &name_bad), pre_each(&[0, 0, 0], &idx_bad), vec![vec![0, 0, 5], vec![0, 0, 1, 0x7F], vec![0, 0, 1, 0x70, 8], vec![0, 0, 2, 9], vec![0, 0, 3, 0x7F, 2], vec![0, 0, 4, 1], vec![0, 0, 3, 0x40]]])),
        ("functions", in_sec(3, vec![]), vec![0], idx_bad.clone()),
        ("tables", in_sec(4, vec![]), vec![0x70, 0, 1], join(vec![vec![vec![0x7F], vec![0x40, 1], vec![0x70, 2], vec![0x70, 1, 0]], pre_each(&[0x40, 0, 0x70, 0, 0], &expr_bad)])),
        ("memories", in_sec(5, vec![]), vec![0, 1], vec![vec![2], vec![8, 0], vec![0, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x7F]]),
        ("globals", in_sec(6, vec![]), vec![0x7F, 0, 0x0B], join(vec![types_bad.clone(), vec![vec![0x7F, 2]], pre_each(&[0x7F, 1], &expr_bad)])),
        ("exports", in_sec(7, vec![]), vec![0, 0, 0], join(vec![name_bad.clone(), vec![vec![0, 5], vec![0, 0x7F]], pre_each(&[0, 3], &idx_bad)])),
        ("elements", in_sec(9, vec![]), vec![1, 0, 0], join(vec![vec![vec![8], vec![1, 1], vec![2, 0, 0x0B, 3], vec![3, 0xFF], vec![5, 0x7F], vec![6, 0, 0x0B, 0x40]], pre_each(&[0], &expr_bad), pre_each(&[4, 0x0B, 2, 0x0B], &expr_bad), pre_each(&[1, 0, 3, 0, 0], &idx_bad), pre_each(&[7, 0x70, 1], &expr_bad), pre_each(&[2], &idx_bad)])),
        ("element indices", in_sec(9, vec![2, 1, 0, 0, 1, 0]), vec![7], idx_bad.clone()),
        ("element indices of an active segment", in_sec(9, vec![1, 0, 0x41, 0, 0x0B]), vec![7], idx_bad.clone()),
        ("element expressions", in_sec(9, vec![2, 1, 0, 0, 5, 0x70]), vec![0x0B], expr_bad.clone()),
        ("element expressions of an active segment", in_sec(9, vec![1, 4, 0x41, 0, 0x0B]), vec![0xD0, 0x70, 0x0B], expr_bad.clone()),
        ("code", in_sec(10, vec![]), vec![2, 0, 0x0B], join(vec![vec![vec![3, 0, 0x0B, 0x0B], vec![1, 0, 0x0B], vec![0x80; 6]], expr_bad.iter().map(|e| entry(&cat(&[&[0, 0x02, 0x40, 0x01, 0x0B], e]))).collect(), types_bad.iter().map(|t| entry(&cat(&[&[3, 1, 0x7F, 2, 0x7E, 3], t]))).collect(), idx_bad.iter().map(|t| entry(&cat(&[&[2, 1, 0x7F], t]))).collect()])),
        ("locals", in_func(vec![]), vec![0, 0x7F], join(vec![pre_each(&[1], &types_bad), idx_bad.clone()])),
        ("labels", in_code(vec![0x0E]), vec![5], idx_bad.clone()),
        ("select types", in_code(vec![0x1C]), vec![0x7E], types_bad.clone()),
        ("catches", in_code(vec![0x02, 0x40, 0x1F, 0x40]), vec![2, 1], join(vec![vec![vec![4], vec![0xFF]], pre_each(&[0], &idx_bad), pre_each(&[1, 7], &idx_bad), pre_each(&[3], &idx_bad)])),
        ("data", in_sec(11, vec![]), vec![1, 0], join(vec![vec![vec![3], vec![1, 0x7F, 0]], pre_each(&[0], &expr_bad), pre_each(&[2, 1], &expr_bad), pre_each(&[2], &idx_bad)])),
        ("tags", in_sec(13, vec![]), vec![0, 3], join(vec![vec![vec![1], vec![0xFF]], pre_each(&[0], &idx_bad)])),
    ];
    let mut ks: Vec<usize> = (0..=run.q(140, 700)).collect();
    ks.extend([254, 255, 256, 257, 300, 1023, 1024, 16383, 16384, 65535, 65536, 65537]);
    ks.sort();
    ks.dedup();
    let nk = ks.len() as u64;
    run.par("bad element at position k", lists.len() as u64 * nk, 4, |w, i| {
        let (_, wrap, good, bads) = &lists[(i / nk) as usize];
        let k = ks[(i % nk) as usize];
        for (j, bad) in bads.iter().enumerate() {
            if k > 300 && j > 3 && !w.run.thorough() { break }
            // last element, or more behind it
            for more in if k > 300 { 1..=1usize } else { 0..=2 } {
                let mut l = u((k + 1 + more) as u64);
                for _ in 0..k { l.extend(good) }
                l.extend(bad);
                for _ in 0..more { l.extend(good) }
                w.check(&wrap(&l));
            }
        }
        // the list ends within its k-th element, or before it
        for cut in 0..=good.len().min(2) {
            let mut l = u(k as u64 + 1);
            for _ in 0..k { l.extend(good) }
            l.extend(&good[..cut.min(good.len() - 1)]);
            w.check(&wrap(&l));
        }
    });
    run.note(format!("{} lists of the grammar, bad elements of every sort at {} positions (up to 65537), with 0 to 2 elements behind", lists.len(), ks.len()));
    // section headers: ids, sizes, order, duplicates
    run.par("section ids", 256 * 16, 16, |w, i| {
        let (id, k) = ((i % 256) as u8, i / 256);
        let all: Vec<Vec<u8>> = ORDER.iter().map(|&x| sec(x, &rich(x))).collect();
        let mut m = PRE.to_vec();
        for x in all.iter().take(k as usize) { m.extend(x) }
        for tail in [vec![id], vec![id, 0], vec![id, 1], vec![id, 0x80], vec![id, 0xFF, 0xFF, 0xFF, 0xFF, 0x1F], vec![id, 0x80, 0x80, 0x80, 0x80, 0x80, 0], sec(id, &[0]), sec(id, &[0, 0]), sec(id, &[1, 0, 0, 0])] {
            let mut b = m.clone();
            b.extend(&tail);
            w.check(&b);
        }
    });
    run.par("section sizes", 14 * 600, 64, |w, i| {
        let (id, d) = ((i % 14) as u8, i / 14);
        for body in [rich(id), vec![0], cat(&[&rich(id), &[0; 300]]), if id == 0 { name(&[b'n'; 200]) } else { vec![1] }] {
            for pad in [1, 3, 5] {
                let mut m = cat(&[&PRE, &custom(b"x", b"y")]);
                m.push(id);
                m.extend(upad(d, if d > 127 { pad.max(2) } else { pad }));
                m.extend(&body);
                w.check(&m);
                m.extend(custom(b"after", b"z"));
                w.check(&m);
            }
        }
    });
    let secs: Vec<u8> = ORDER.to_vec();
    let n = secs.len() as u64;
    run.par("section order", n * n * n, 64, |w, i| {
        let p = [secs[(i % n) as usize], secs[(i / n % n) as usize], secs[(i / n / n) as usize]];
        w.check(&module(&p.iter().map(|&x| sec(x, &minimal(x))).collect::<Vec<_>>()));
        w.check(&module(&p.iter().flat_map(|&x| [custom(b"c", b""), sec(x, &rich(x))]).collect::<Vec<_>>()));
    });
    // counts: functions and code, data and its count
    let counts: Vec<usize> = (0..=12).chain([126, 127, 128, 129, 255, 256, 300, 65536]).collect();
    let n = counts.len() as u64;
    run.par("counts", n * n, 4, |w, i| {
        let (a, b) = (counts[(i % n) as usize], counts[(i / n) as usize]);
        w.check(&module(&[sec(3, &rep(a, &[0])), sec(10, &rep(b, &[2, 0, 0x0B]))]));
        w.check(&module(&[sec(12, &u(a as u64)), sec(11, &rep(b, &[1, 0]))]));
        if b == 0 { w.check(&module(&[sec(3, &rep(a, &[0]))])); w.check(&module(&[sec(10, &rep(a, &[2, 0, 0x0B]))])); w.check(&module(&[sec(12, &u(a as u64))])); }
        w.check(&module(&[sec(12, &u(a as u64 + (1 << 31))), sec(11, &rep(b, &[1, 0]))]));
    });
    // entry sizes
    run.par("entry sizes", 400, 4, |w, d| {
        for body in [&[0u8, 0x0B][..], &[1, 5, 0x7F, 0x01, 0x0B], &[0, 0x02, 0x40, 0x0B, 0x0B], &[0; 0], &[0], &cat(&[&[0], &[0x01; 150][..], &[0x0B]])] {
            for at in [0usize, 1, 3] {
                let mut es: Vec<Vec<u8>> = vec![entry(&[0, 0x0B]); at];
                es.push(cat(&[&u(d), body]));
                es.push(entry(&[0, 0x0B]));
                w.check(&module(&[sec(3, &rep(at + 2, &[0])), sec(10, &list(&es))]));
            }
        }
    });
    // locals totals: the number reported
    run.par("locals totals", 1 << 10, 16, |w, i| {
        let cs = [u32::MAX as u64, 1, 1 << 31, 0];
        let l: Vec<Vec<u8>> = (0..5).map(|k| cat(&[&u(cs[(i >> (2 * k) & 3) as usize]), &[0x7F]])).collect();
        if (0..5).map(|k| cs[(i >> (2 * k) & 3) as usize]).sum::<u64>() <= u32::MAX as u64 { return }
        for at in [0usize, 2] {
            let mut es: Vec<Vec<u8>> = vec![entry(&[0, 0x0B]); at];
            es.push(entry(&cat(&[&list(&l), &[0x0B]])));
            w.check(&module(&[sec(3, &rep(at + 1, &[0])), sec(10, &list(&es))]));
        }
    });
    // opcodes and markers inside nested blocks
    let mut inner: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
    inner.extend((0..=300u64).flat_map(|n| [0xFBu8, 0xFC, 0xFD].map(|p| cat(&[&[p], &u(n)]))));
    inner.extend([upad(18, 3), u(1 << 20), u(u32::MAX as u64), u(1 << 32)].iter().flat_map(|n| [0xFBu8, 0xFC, 0xFD].map(|p| cat(&[&[p], n]))));
    inner.extend((0..=255u8).flat_map(|b| [vec![0x02, b], vec![0xD0, b], vec![0x1C, 1, b], vec![0x1F, 0x40, 1, b, 0, 0], vec![0xFB, 24, b, 0, 0, 0], vec![0x28, b, 0], vec![0x06, b], vec![0x02, 0x63, b], vec![0x1F, 0x64, b]]));
    run.par("bad instructions in nested blocks", inner.len() as u64, 4, |w, i| {
        for b in nested(&inner[i as usize], w.run.q(2, 3)) { w.check(&code(&b)); }
        for c in 1..EXPR_CONTEXTS { for b in nested(&inner[i as usize], 1) { w.check(&expr_in(c, &b)); } }
    });
    let wide = Alpha::wide();
    dev::explore(run, "deviations", Root::Func, &[], &wide, run.q(2, 2));
    for id in 1..14u8 { dev::explore(run, "deviations", Root::Sec(id), &[1], &wide, 2); }
    let corpus = small_corpus();
    mutate1(run, "one byte changed", &corpus, 0);
    if run.thorough() { mutate1(run, "one byte changed, fixtures", &fixtures(), 0) }
    // every truncation
    run.cases("cut short", &corpus.iter().chain(&fixtures()).flat_map(|m| (0..m.len()).map(|k| m[..k].to_vec())).collect::<Vec<_>>());
}
