//! Model checking of wadec: `mc C01` .. `mc C22` decide one property each.
#![allow(dead_code)]
mod checks;
mod dev;
mod diag;
mod engine;
mod eq;
mod gens;
mod optable;
mod pda;
mod probe;
mod refdec;
mod small;
mod special;
mod wasm;

#[global_allocator]
static ALLOC: engine::Counting = engine::Counting;

type Check = fn(&engine::Run);
/// property, check, level of the evidence
const CHECKS: &[(&str, Check, &str)] = &[
    ("C01", checks::c01, MC), ("C02", checks::c02, MC), ("C03", checks::c03, MC), ("C04", checks::c04, MC), ("C05", checks::c05, MC), ("C06", checks::c06, MC),
    ("C07", checks::c07, MC), ("C08", checks::c08, MC), ("C09", checks::c09, MC), ("C10", checks::c10, MC), ("C11", checks::c11, MC), ("C12", special::c12, "fault_enumeration"),
    ("C13", special::c13, MC), ("C14", special::c14, MC), ("C15", special::c15, MC), ("C16", special::c16, "exploration"), ("C17", checks::c17, MC), ("C18", special::c18, "exploration"),
    ("C19", checks::c19, MC), ("C20", checks::c20, MC), ("C21", checks::c21, MC), ("C22", checks::c22, MC),
];
const MC: &str = "model_checking";

fn rule(id: &str) -> &'static str {
    match id {
        "C12" => "case: (module, error kind, read call that fails, way of failing, bytes per read), each of them executed on the real decoder; distinct: by module; non-trivial: the fault was delivered",
        "C16" => "case: (history of decodes | nesting at a read call | two-thread schedule of read calls), each of them executed on the real decoder; distinct: by decoded module; non-trivial: reached the judgement",
        "C18" => "case: (input, way of passing it, verbosity), one run of the real executable each; distinct: by all three",
        _ => "case: one byte sequence, decoded by the reference model and by the real decoder; distinct: by a 64-bit hash of the bytes (in a bit set, so collisions undercount); non-trivial: accepted, or rejected behind the preamble and the first section header",
    }
}

fn load_known() -> Vec<(String, String, String)> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", engine::verif())).unwrap_or_default();
    // known: property=<id> key=<key> | <what fails>
    text.lines().filter_map(|l| {
        let l = l.strip_prefix("known: property=")?;
        let (id, l) = l.split_once(" key=")?;
        let (key, what) = l.split_once(" | ")?;
        Some((id.to_string(), key.to_string(), what.to_string()))
    }).collect()
}

/// Show what the model and the decoder say about a file.
fn replay(file: &str) -> i32 {
    let b = std::fs::read(file).expect("replay file");
    println!("{} bytes: {}", b.len(), engine::hex(&b, 400));
    let want = refdec::decode(&b);
    match &want {
        Ok(m) => println!("model: accepts {}", format!("{m:?}").chars().take(4000).collect::<String>()),
        Err(r) => println!("model: rejects {r:?}"),
    }
    engine::install_handlers(true);
    match engine::guarded(&b, || wadec::decode_module(&b[..])) {
        Err(p) => println!("wadec: panics: {p}"),
        Ok(Ok(m)) => {
            println!("wadec: accepts");
            if let Ok(w) = &want { println!("difference: {}", eq::diff(w, &m).unwrap_or("none".into())) }
        }
        Ok(Err(e)) => {
            println!("wadec: rejects: {}", diag::chain(&e).join("\n       because "));
            if let Err(r) = &want { println!("diagnosis: {}", diag::judge(r, &e, &b).err().unwrap_or("fine".into())) }
        }
    }
    0
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or("");
    match arg(1) {
        "probe" => probe::child(arg(2)),
        "fresh" => special::fresh(arg(2)),
        "replay" => std::process::exit(replay(arg(2))),
        _ => {}
    }
    let Some((id, check, level)) = CHECKS.iter().find(|c| c.0 == arg(1)) else { eprintln!("usage: mc C01..C22 | mc replay FILE"); std::process::exit(2) };
    engine::install_handlers(false);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut run = engine::Run::new(id, thorough, seed);
    run.known = load_known();
    run.watchdog();
    check(&run);
    std::process::exit(run.finish(level, rule(id)));
}
