//! Bounded stand-ins: generated cases run against the real code. `jv run`, `jv case`, `jv known`.
mod ctx;
mod gen;
mod known;
mod node;
mod p_misc;
mod p_text;
mod p_tmpl;
mod rng;
mod rpc;
mod server;
use ctx::*;
use rng::Rng;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::{Seek, SeekFrom, Write};
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub static PANIC: Mutex<String> = Mutex::new(String::new());
pub type Case = fn(&mut Ctx, &mut Rng) -> Res;
pub fn props() -> Vec<(&'static str, Case)> {
    vec![
        ("C01", p_text::c01), ("C02", p_text::c02), ("C03", p_tmpl::c03), ("C04", p_tmpl::c04), ("C05", p_tmpl::c05), ("C06", p_tmpl::c06),
        ("C07", p_tmpl::c07), ("C08", p_tmpl::c08), ("C09", p_tmpl::c09), ("C10", p_tmpl::c10), ("C11", p_text::c11), ("C12", p_tmpl::c12),
        ("C13", p_text::c13), ("C14", p_misc::c14), ("C15", p_misc::c15), ("C16", p_misc::c16), ("C17", p_misc::c17), ("C18", p_misc::c18),
        ("C19", p_misc::c19), ("C20", rpc::c20), ("C21", rpc::c21),
    ]
}
pub fn run_one(cx: &mut Ctx, f: Case, seed: u64) -> Res {
    let mut r = Rng::new(seed);
    match std::panic::catch_unwind(AssertUnwindSafe(|| f(cx, &mut r))) {
        Ok(r) => r,
        Err(_) => {
            cx.l = Default::default();
            cx.py = None;
            Err(Fail { what: format!("panicked: {}", PANIC.lock().unwrap()), input: json!({"seed": seed}) })
        }
    }
}
fn arg(args: &[String], k: &str) -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) }
fn num(args: &[String], k: &str, d: u64) -> u64 { arg(args, k).and_then(|s| s.parse().ok()).unwrap_or(d) }
fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| { *PANIC.lock().unwrap() = i.to_string(); }));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let _g = rt.enter();
    let dir = std::env::temp_dir().join(format!("jv-{}", std::process::id()));
    for t in TEMPLATES {
        let p = dir.join("t").join(t);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, "").unwrap();
    }
    std::fs::create_dir_all(dir.join("empty")).unwrap();
    let mut cx = Ctx { l: Default::default(), dir: dir.clone(), py: None, node: None, node_dir: std::env::var("JV_NODE").ok(), rt: rt.handle().clone(), tier: std::env::var("VERIF_TIER").unwrap_or("quick".into()) };
    let out = match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&mut cx, &args),
        Some("case") => {
            let f = props().into_iter().find(|p| p.0 == args[2]).unwrap().1;
            match run_one(&mut cx, f, args[3].parse().unwrap()) {
                Ok(i) => json!({"violation": null, "sample": i.sample}),
                Err(e) => json!({"violation": {"seed": args[3], "what": e.what, "input": e.input}}),
            }
        }
        Some("show") => {
            // what the server makes of the lines of stdin, each a template (\n for a line break)
            for line in std::io::stdin().lines().map_while(|l| l.ok()) {
                let text = line.replace("\\n", "\n");
                let u = "file:///w/x.html";
                let e = ctx::open(&mut cx.l, u, &text);
                let err = cx.l.verif_tree(jinja_lsp_queries::tree_builder::LangType::Template, u).map(|t| t.root_node().has_error());
                println!("{text:?} error {err:?}\n  problems {}\n  defs {}", e.unwrap_or_default().iter().map(|x| format!("{:?} {} {}:{}", x.0, x.1.name, x.1.start.row, x.1.start.column)).collect::<Vec<_>>().join("; "),
                    cx.l.variables.get(u).map(|v| v.iter().map(|i| format!("{} {:?} {}:{} scope ..{}:{}", i.name, i.identifier_type, i.start.row, i.start.column, i.scope_ends.1.row, i.scope_ends.1.column)).collect::<Vec<_>>().join("; ")).unwrap_or_default());
            }
            json!({"violation": null})
        }
        Some("known") => known::run(&mut cx, &args[2]),
        _ => json!({"error": "usage: jv run|case|known PROPERTY ..."}),
    };
    drop(cx);
    std::fs::remove_dir_all(&dir).ok();
    println!("{out}");
    std::process::exit(if out["violation"].is_null() { 0 } else { 1 });
}
/// cases FROM, FROM+STEP, ... of the fixed set (seeds below a million) and of VERIF_SEED, until --cases or --time is reached
fn run(cx: &mut Ctx, args: &[String]) -> Value {
    let f = props().into_iter().find(|p| p.0 == args[2]).unwrap().1;
    let (from, step) = (num(args, "--from", 0), num(args, "--step", 1));
    let (fixed, cases) = (num(args, "--fixed", 500), num(args, "--cases", 1000));
    let end = Instant::now() + Duration::from_secs(num(args, "--time", 60));
    let base = 1_000_000 + num(args, "--seed", 1) * 1_000_000_000;
    let hang = num(args, "--hang", 60);
    let started = Arc::new(AtomicU64::new(0));
    let current = Arc::new(AtomicU64::new(0));
    let t0 = Instant::now();
    let mut state = arg(args, "--state").and_then(|p| std::fs::File::create(p).ok());
    {
        let (started, current, dir) = (started.clone(), current.clone(), cx.dir.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let s = started.load(Ordering::SeqCst);
            if s > 0 && t0.elapsed().as_millis() as u64 > s + hang * 1000 {
                println!("{}", json!({"violation": {"seed": current.load(Ordering::SeqCst), "what": format!("no answer within {hang} s"), "input": null}}));
                std::fs::remove_dir_all(&dir).ok();
                std::process::exit(1);
            }
        });
    }
    let (mut n, mut nt, mut skipped) = (0u64, HashSet::new(), 0u64);
    let mut all = HashSet::new();
    let mut samples = vec![];
    let mut i = from;
    while i < fixed + cases && Instant::now() < end {
        let seed = if i < fixed { i } else { base + i - fixed };
        current.store(seed, Ordering::SeqCst);
        started.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        if let Some(s) = state.as_mut() { s.seek(SeekFrom::Start(0)).ok(); writeln!(s, "{seed:<24}").ok(); }
        let r = run_one(cx, f, seed);
        started.store(0, Ordering::SeqCst);
        match r {
            Ok(x) => {
                n += 1;
                if x.sample.is_null() { skipped += 1; } else {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    x.sample.to_string().hash(&mut h);
                    all.insert(h.finish());
                    if x.nontrivial { nt.insert(h.finish()); if samples.len() < 2 { samples.push(x.sample); } }
                }
            }
            Err(e) => return json!({"violation": {"seed": seed, "what": e.what, "input": e.input}, "cases": n, "distinct": all.len(), "nontrivial": nt.len(), "skipped": skipped, "samples": samples}),
        }
        i += step;
    }
    json!({"violation": null, "cases": n, "distinct": all.len(), "nontrivial": nt.len(), "skipped": skipped, "samples": samples, "seconds": t0.elapsed().as_secs_f64()})
}
