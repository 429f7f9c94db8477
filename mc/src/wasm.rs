//! Building blocks for binary modules, and the corpus.
pub const PRE: [u8; 8] = *b"\0asm\x01\0\0\0";

pub fn u(v: u64) -> Vec<u8> { let mut o = vec![]; put(&mut o, v); o }
pub fn put(o: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        if v == 0 { o.push(b); return }
        o.push(b | 0x80);
    }
}
pub fn s(v: i64) -> Vec<u8> { let mut o = vec![]; sput(&mut o, v); o }
pub fn sput(o: &mut Vec<u8>, mut v: i64) {
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) { o.push(b); return }
        o.push(b | 0x80);
    }
}
/// `v` padded to `n` bytes
pub fn upad(v: u64, n: usize) -> Vec<u8> {
    let mut o = u(v);
    if o.len() < n {
        *o.last_mut().unwrap() |= 0x80;
        while o.len() < n - 1 { o.push(0x80) }
        o.push(0);
    }
    o
}
pub fn spad(v: i64, n: usize) -> Vec<u8> {
    let mut o = s(v);
    if o.len() < n {
        let f = if v < 0 { 0x7F } else { 0 };
        *o.last_mut().unwrap() |= 0x80;
        while o.len() < n - 1 { o.push(0x80 | f) }
        o.push(f);
    }
    o
}
pub fn cat(p: &[&[u8]]) -> Vec<u8> { p.concat() }
pub fn sec(id: u8, body: &[u8]) -> Vec<u8> { let mut o = vec![id]; put(&mut o, body.len() as u64); o.extend(body); o }
pub fn module(secs: &[Vec<u8>]) -> Vec<u8> { let mut o = PRE.to_vec(); for x in secs { o.extend(x) } o }
pub fn list(items: &[Vec<u8>]) -> Vec<u8> { let mut o = u(items.len() as u64); for x in items { o.extend(x) } o }
pub fn rep(n: usize, item: &[u8]) -> Vec<u8> { let mut o = u(n as u64); for _ in 0..n { o.extend(item) } o }
pub fn name(n: &[u8]) -> Vec<u8> { let mut o = u(n.len() as u64); o.extend(n); o }
pub fn custom(n: &[u8], c: &[u8]) -> Vec<u8> { sec(0, &cat(&[&name(n), c])) }
pub fn entry(body: &[u8]) -> Vec<u8> { name(body) }
/// one function whose code entry is `body` (locals and expression); a data
/// count is declared so that data indices are fine
pub fn func_module_into(o: &mut Vec<u8>, body: &[u8]) {
    o.clear();
    o.extend(PRE);
    o.extend([3, 2, 1, 0, 12, 1, 0, 10]);
    let e = leb_len(body.len());
    put(o, (1 + e + body.len()) as u64);
    o.push(1);
    put(o, body.len() as u64);
    o.extend(body);
}
pub fn leb_len(n: usize) -> usize { let mut k = 1; let mut n = n >> 7; while n > 0 { k += 1; n >>= 7 } k }
pub fn func_module(body: &[u8]) -> Vec<u8> { let mut o = vec![]; func_module_into(&mut o, body); o }
/// a function without locals with these instructions
pub fn code(ins: &[u8]) -> Vec<u8> { func_module(&cat(&[&[0], ins, &[0x0B]])) }

/// Places an expression can occur. Returns the module around it.
pub const EXPR_CONTEXTS: usize = 8;
pub fn expr_in(ctx: usize, e: &[u8]) -> Vec<u8> {
    let e = cat(&[e, &[0x0B]]);
    match ctx {
        0 => func_module(&cat(&[&[0], &e])),
        1 => module(&[sec(6, &cat(&[&[1, 0x7F, 0], &e]))]),
        2 => module(&[sec(4, &cat(&[&[1, 0x40, 0, 0x70, 0, 1], &e]))]),
        3 => module(&[sec(9, &cat(&[&[1, 0], &e, &[1, 3]]))]),
        4 => module(&[sec(9, &cat(&[&[1, 5, 0x70, 1], &e]))]),
        5 => module(&[sec(11, &cat(&[&[1, 0], &e, &[1, 9]]))]),
        6 => module(&[sec(9, &cat(&[&[1, 6, 2], &e, &[0x70, 1], &e]))]),
        7 => module(&[sec(11, &cat(&[&[1, 2, 1], &e, &[1, 9]]))]),
        _ => unreachable!(),
    }
}

/// Frame the complete (or truncated, or malformed) content of one section.
pub fn frame(id: u8, body: &[u8], o: &mut Vec<u8>) {
    o.clear();
    o.extend(PRE);
    if id == 10 {
        let n = first_u32(body).unwrap_or(0).min(4096);
        let fs = rep(n as usize, &[0]);
        o.push(3);
        put(o, fs.len() as u64);
        o.extend(fs);
        o.extend([12, 1, 0]);
    }
    o.push(id);
    put(o, body.len() as u64);
    o.extend(body);
    if id == 3 {
        let n = first_u32(body).unwrap_or(0).min(4096);
        if n > 0 {
            let cs = rep(n as usize, &[2, 0, 0x0B]);
            o.push(10);
            put(o, cs.len() as u64);
            o.extend(cs);
        }
    }
    if id == 12 {
        let n = first_u32(body).unwrap_or(0).min(4096);
        if n > 0 {
            let ds = rep(n as usize, &[1, 0]);
            o.push(11);
            put(o, ds.len() as u64);
            o.extend(ds);
        }
    }
}
pub fn first_u32(b: &[u8]) -> Option<u32> {
    let mut v = 0u64;
    for (i, &x) in b.iter().enumerate().take(5) {
        v |= ((x & 0x7F) as u64) << (7 * i);
        if x & 0x80 == 0 { return u32::try_from(v).ok() }
    }
    None
}

// ------------------------------------------------------------------- corpus

/// Non-trivial contents for every section, consistent with each other:
/// 2 functions, 2 code entries, 2 data segments.
pub fn rich(id: u8) -> Vec<u8> {
    match id {
        0 => cat(&[&name("näm\u{1F980}e".as_bytes()), &[0, 0xFF, 0x0B, 1, 2, 3]]),
        1 => list(&[
            vec![0x60, 2, 0x7F, 0x7E, 1, 0x7D],
            vec![0x60, 0, 0],
            vec![0x4E, 2, 0x50, 1, 0, 0x5F, 2, 0x78, 1, 0x64, 3, 0, 0x4F, 0, 0x5E, 0x7B, 1],
            vec![0x5E, 0x63, 0x70, 0],
            vec![0x5F, 1, 0x77, 1],
            vec![0x60, 1, 0x64, 0x6E, 3, 0x6F, 0x7C, 0x63, 0x85, 1],
        ]),
        2 => list(&[
            cat(&[&name(b"m"), &name(b"f"), &[0, 1]]),
            cat(&[&name(b""), &name("é".as_bytes()), &[1, 0x70, 1, 1, 0x80, 1]]),
            cat(&[&name(b"env"), &name(b"mem"), &[2, 5, 1, 0xFF, 0xFF, 0xFF, 0xFF, 0x1F]]),
            cat(&[&name(b"env"), &name(b"g"), &[3, 0x7F, 1]]),
            cat(&[&name(b"env"), &name(b"t"), &[4, 0, 1]]),
        ]),
        3 => list(&[vec![0], vec![1]]),
        4 => list(&[vec![0x70, 0, 1], vec![0x40, 0, 0x63, 0x6F, 1, 1, 2, 0xD0, 0x6F, 0x0B], vec![0x64, 0, 4, 3]]),
        5 => list(&[vec![0, 1], vec![1, 1, 2], vec![4, 0x80, 0x80, 4], vec![5, 0, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 1]]),
        6 => list(&[
            vec![0x7F, 0, 0x41, 0x7F, 0x0B],
            vec![0x7C, 1, 0x44, 1, 0, 0, 0, 0, 0, 0xF4, 0x7F, 0x0B],
            vec![0x63, 0x6E, 0, 0xD0, 0x6E, 0x0B],
            vec![0x7B, 1, 0xFD, 12, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0x0B],
            vec![0x7E, 0, 0x42, 0x80, 0x80, 0x80, 0x80, 0x78, 0x42, 3, 0x7C, 0x0B],
        ]),
        7 => list(&[
            cat(&[&name(b"f"), &[0, 0]]),
            cat(&[&name(b"t\0"), &[1, 1]]),
            cat(&[&name("ü".as_bytes()), &[2, 0]]),
            cat(&[&name(b""), &[3, 0x80, 1]]),
            cat(&[&name(b"tag"), &[4, 0]]),
        ]),
        8 => vec![0x81, 0],
        9 => list(&[
            vec![0, 0x41, 0, 0x0B, 2, 0, 1],
            vec![1, 0, 1, 7],
            vec![2, 1, 0x41, 1, 0x0B, 0, 1, 1],
            vec![3, 0, 2, 4, 5],
            vec![4, 0x23, 0, 0x0B, 2, 0xD2, 0, 0x0B, 0xD0, 0x70, 0x0B],
            vec![5, 0x64, 0x70, 1, 0xD2, 1, 0x0B],
            vec![6, 2, 0x41, 2, 0x0B, 0x6F, 1, 0xD0, 0x6F, 0x0B],
            vec![7, 0x63, 1, 0],
        ]),
        12 => vec![2],
        10 => list(&[
            entry(&cat(&[
                &[3, 2, 0x7F, 1, 0x64, 0x6E, 1, 0x7B], // locals
                &[0x02, 0x40, 0x03, 0x7F, 0x41, 1, 0x0B, 0x1A, 0x0B],
                &[0x20, 0, 0x04, 3, 0x41, 0, 0x05, 0x02, 0x63, 0x6F, 0xD0, 0x6F, 0x0B, 0x1A, 0x0B],
                &[0x1F, 0x40, 3, 0, 1, 2, 2, 0, 3, 1, 0x08, 0, 0x0B],
                &[0xFC, 8, 1, 0, 0xFC, 9, 0, 0xFB, 9, 3, 1],
                &[0x28, 2, 16, 0x36, 0x42, 1, 0x80, 1, 0xFD, 84, 0, 0, 15],
                &[0x0E, 2, 0, 1, 2, 0x11, 1, 0, 0x1C, 1, 0x7F],
                &[0xFB, 24, 3, 0, 0x6E, 0x6D, 0xFD, 0x80, 2, 0x43, 0, 0, 0xC0, 0x7F, 0x1A, 0x0B],
            ])),
            entry(&[0, 0x0F, 0x0B]),
        ]),
        11 => list(&[vec![0, 0x41, 8, 0x0B, 3, 0xAA, 0xBB, 0xCC], vec![2, 1, 0x42, 0, 0x0B, 1, 0x0B], ]),
        13 => list(&[vec![0, 1], vec![0, 0x85, 1]]),
        _ => unreachable!(),
    }
}
/// Shortest content of every section.
pub fn minimal(id: u8) -> Vec<u8> { vec![0; if id == 8 || id == 12 { 1 } else { 1 }] }

pub fn full() -> Vec<u8> {
    let mut v = vec![];
    for &id in &crate::refdec::ORDER {
        v.push(custom(&[b'c', id], &[id; 3]));
        v.push(sec(id, &rich(id)));
    }
    v.push(sec(0, &rich(0)));
    module(&v)
}
/// One module per section with rich content, plus combinations.
pub fn small_corpus() -> Vec<Vec<u8>> {
    let mut v = vec![module(&[])];
    for id in 0..14u8 {
        v.push(match id {
            3 => module(&[sec(3, &rich(3)), sec(10, &list(&[entry(&[0, 0x0B]), entry(&[1, 2, 0x7F, 0x01, 0x0B])]))]),
            10 => module(&[sec(3, &rich(3)), sec(12, &[0]), sec(10, &rich(10))]),
            12 => module(&[sec(12, &[2]), sec(11, &rich(11))]),
            id => module(&[sec(id, &rich(id))]),
        });
    }
    v.push(module(&[custom(b"a", b""), sec(1, &rich(1)), custom(b"", b"xyz"), sec(3, &rich(3)), sec(7, &rich(7)), custom(b"n", &[0; 5]), sec(10, &list(&[entry(&[0, 0x0B]), entry(&[0, 1, 0x0B])])), custom(b"z", b"1")]));
    v.push(module(&[sec(4, &rich(4)), sec(5, &rich(5)), sec(13, &rich(13)), sec(6, &rich(6)), sec(9, &rich(9)), sec(11, &rich(11))]));
    v.push(full());
    v
}
/// The fixtures the repository's own tests use, copied.
pub fn fixtures() -> Vec<Vec<u8>> {
    let dir = format!("{}/corpus", crate::engine::verif());
    let mut names: Vec<_> = std::fs::read_dir(&dir).expect("corpus").map(|e| e.unwrap().path()).collect();
    names.sort();
    names.iter().map(|p| std::fs::read(p).unwrap()).collect()
}

/// Boundary values of an n-bit unsigned integer, smallest first.
pub fn bounds(n: u32) -> Vec<u64> {
    let max = if n == 64 { u64::MAX } else { (1 << n) - 1 };
    let mut v: Vec<u64> = (0..=130).collect();
    for k in 7..n {
        let p = 1u64 << k;
        v.extend([p - 1, p, p + 1, p | 0x7F, p | 0x40]);
    }
    for k in 0..8u64 { v.push(max.wrapping_sub(k)); v.push((max >> 1).wrapping_sub(k)); }
    // round numbers, and limits that engines have
    v.extend(ROUND);
    v.push(0x0102_0304_0506_0708 & max);
    v.push(0x5555_5555_5555_5555 & max);
    v.push(0xAAAA_AAAA_AAAA_AAAA & max);
    v.retain(|&x| x <= max);
    v.sort();
    v.dedup();
    v
}
const ROUND: [u64; 32] = [1000u64, 2000, 5000, 10_000, 12_500, 20_000, 30_000, 32_000, 50_000, 60_000, 65_000, 65_520, 99_999, 100_000, 100_001, 128_000, 200_000, 500_000, 1_000_000, 1_000_001, 7_654_320, 7_654_321, 7_654_322, 10_000_000, 100_000_000, 1_000_000_000, 4_000_000_000, 10_000_000_000, 1_000_000_000_000, 1_000_000_000_000_000, 1_000_000_000_000_000_000, 10_000_000_000_000_000_000];
/// Boundary values of an n-bit signed integer.
pub fn sbounds(n: u32) -> Vec<i64> {
    let (lo, hi) = if n == 64 { (i64::MIN, i64::MAX) } else { (-(1i64 << (n - 1)), (1i64 << (n - 1)) - 1) };
    let mut v: Vec<i64> = (-130..=130).collect();
    for k in 6..n - 1 {
        let p = 1i64 << k;
        for d in -1..=1 { v.extend([p.wrapping_add(d), (-p).wrapping_add(d)]); }
    }
    for d in 0..3 { v.extend([lo + d, hi - d]); }
    v.extend(ROUND.iter().filter(|&&x| x <= hi as u64).flat_map(|&x| [x as i64, -(x as i64)]));
    v.retain(|&x| x >= lo && x <= hi);
    v.sort();
    v.dedup();
    v
}
