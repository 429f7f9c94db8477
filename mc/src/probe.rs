//! Inputs that may end the process, run in child processes on an 8 MB stack.
use crate::engine::{self, PROBE_CAPPED, PROBE_CRASHED, Run};
use crate::wasm::*;
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};

#[derive(Debug, Clone, PartialEq)]
pub enum Out { Accepted, Rejected(String), Panicked(String), Crashed, Capped, Hangs }

const STACK: usize = 8 << 20;

/// child: decode every input of the file and print one line for each
pub fn child(file: &str) -> ! {
    engine::install_handlers(true);
    let data = std::fs::read(file).expect("probe file");
    let t = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        let mut p = &data[..];
        while p.len() >= 8 {
            let n = u64::from_le_bytes(p[..8].try_into().unwrap()) as usize;
            let b = &p[8..8 + n];
            engine::set_cap(engine::WORKER_CAP);
            let line = match engine::guarded(b, || {
                let r = wadec::decode_module(b);
                match &r {
                    Ok(m) => { let _ = m.section_headers.len(); "A".to_string() }
                    Err(e) => { let _ = format!("{e:?}{e:#?}"); format!("R {}", crate::diag::chain(e).join(": ")) }
                }
                // the result is dropped here
            }) { Ok(l) => l, Err(p) => format!("P {p}") };
            engine::set_cap(i64::MAX);
            println!("{}", line.replace('\n', " "));
            p = &p[8 + n..];
        }
    }).unwrap();
    let _ = t.join();
    std::process::exit(0)
}

/// parent: outcomes of all inputs
pub fn probe(inputs: &[Vec<u8>], timeout_s: u64) -> Vec<Out> {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let mut out: Vec<Out> = vec![];
    while out.len() < inputs.len() {
        let mut data = vec![];
        for b in &inputs[out.len()..] { data.extend((b.len() as u64).to_le_bytes()); data.extend(b); }
        let dir = std::env::temp_dir();
        let path = dir.join(format!("mc-probe-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::write(&path, data).expect("write probe file");
        let mut c = Command::new(std::env::current_exe().unwrap()).arg("probe").arg(&path).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
        let so = c.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || { for l in BufReader::new(so).lines().map_while(Result::ok) { if tx.send(l).is_err() { break } } });
        let mut hang = false;
        loop {
            match rx.recv_timeout(std::time::Duration::from_secs(timeout_s)) {
                Ok(l) => out.push(match l.as_bytes().first() {
                    Some(b'A') => Out::Accepted,
                    Some(b'R') => Out::Rejected(l[2..].into()),
                    _ => Out::Panicked(l.get(2..).unwrap_or("").into()),
                }),
                Err(std::sync::mpsc::RecvTimeoutError::Timeout) => { hang = true; let _ = c.kill(); break }
                Err(_) => break,
            }
        }
        let st = c.wait().expect("wait");
        let _ = std::fs::remove_file(&path);
        if out.len() < inputs.len() {
            out.push(if hang { Out::Hangs } else if st.code() == Some(PROBE_CAPPED) { Out::Capped } else if st.code() == Some(PROBE_CRASHED) || st.code().is_none() { Out::Crashed } else { panic!("probe: {st:?}") });
        }
    }
    out
}

/// Totals of locals up to 2^32-1 must not be rejected. Such a body without a
/// function is malformed for another reason, before anything is expanded.
pub fn locals_limit(run: &Run, big: &[u64], k: u32) {
    let types: [&[u8]; 3] = [&[0x7F], &[0x63, 0x6E], &[0x7B]];
    let mut inputs = vec![];
    let n = big.len() as u64;
    for k in 1..=k {
        for i in 0..n.pow(k) {
            let mut q = i;
            let cs: Vec<u64> = (0..k).map(|_| { let c = big[(q % n) as usize]; q /= n; c }).collect();
            if cs.iter().sum::<u64>() > u32::MAX as u64 { continue }
            let l = list(&cs.iter().enumerate().map(|(j, &c)| cat(&[&u(c), types[j % 3]])).collect::<Vec<_>>());
            inputs.push(module(&[sec(10, &list(&[entry(&cat(&[&l, &[0x0B]]))]))]));
        }
    }
    // many runs that end exactly at the limit
    let mut l = u(65537);
    for _ in 0..65537 { put(&mut l, 65535); l.push(0x7F) }
    l.push(0x0B);
    inputs.push(module(&[sec(10, &list(&[entry(&l)]))]));
    let next = inputs.len();
    // two bodies, each at the limit: it is per function
    let b = entry(&cat(&[&[1], &u(u32::MAX as u64), &[0x7F, 0x0B]]));
    inputs.push(module(&[sec(10, &list(&[b.clone(), b]))]));
    assert_eq!(next + 1, inputs.len());
    let outs = std::sync::Mutex::new((0u64, 0u64));
    let chunks: Vec<&[Vec<u8>]> = inputs.chunks(64).collect();
    run.par("totals up to the limit (child processes)", chunks.len() as u64, 1, |w, i| {
        for (b, o) in chunks[i as usize].iter().zip(probe(chunks[i as usize], 60)) {
            w.seen(b, true);
            w.rejected += 1;
            match o {
                Out::Rejected(c) if c.to_ascii_lowercase().contains("locals") => w.fail(b, format!("rejects locals that are within the limit: {c}")),
                Out::Rejected(_) => outs.lock().unwrap().0 += 1,
                Out::Capped => outs.lock().unwrap().1 += 1,
                Out::Accepted => w.fail(b, "accepts a code entry without a function"),
                o => w.fail(b, format!("{o:?}")),
            }
        }
    });
    let o = outs.into_inner().unwrap();
    run.count("locals totals judged", o.0);
    run.count("locals totals inconclusive", o.1);
}
