mod alloc;
mod big;
mod crash;
mod dec;
mod engine;
mod fx;
mod lat;
mod model;
mod ops;
mod props;
mod sched;

use engine::*;
use props::*;
use std::collections::HashSet;
use std::sync::atomic::Ordering::*;

#[global_allocator]
static A: alloc::Checking = alloc::Checking;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    crash::install();
    install_panic_hook();
    let mode = std::env::args().nth(1).unwrap_or_default();
    if mode == "oneshot" {
        return props::conc::oneshot();
    }
    if mode == "orders" {
        return props::memo::orders();
    }
    if mode == "sched" {
        return props::conc::sched_main();
    }
    let prop = arg("--prop").unwrap_or_default();
    let tier = if arg("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let var = match arg("--variant").as_deref() {
        Some("chk") => Variant::Chk,
        Some("be") => Variant::Be,
        _ => Variant::Rel,
    };
    let cfg = Cfg::new(&prop, tier, var);
    MEM_ERRORS.store(prop == "C22", SeqCst);
    let spaces = match props::spaces(&prop, cfg) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {}", prop);
            std::process::exit(3)
        }
    };
    match mode.as_str() {
        "list" => {
            for (i, s) in spaces.iter().enumerate() {
                println!("{}\t{}", i, s.name);
            }
        }
        "replay" => {
            let name = arg("--space").unwrap_or_default();
            let idx: u64 = arg("--index").and_then(|x| x.parse().ok()).unwrap_or(0);
            let (no, sp) = match spaces.iter().enumerate().find(|(i, s)| s.name == name || name == format!("#{}", i)) {
                Some(s) => s,
                None => {
                    eprintln!("no such space");
                    std::process::exit(3)
                }
            };
            let eng = Engine::new(600, HashSet::new());
            let mut c = Ctx::new(&eng.bits, true);
            c.print = true;
            CUR.with(|x| x.set((no as u64, idx)));
            println!("property {} space {:?} index {}", prop, sp.name, idx);
            match &sp.kind {
                Kind::Indexed { run, .. } => run(idx, &mut c),
                Kind::Custom(f) => f(&eng, &mut c),
            }
            CUR.with(|x| x.set((u64::MAX, 0)));
            match c.failure {
                Some(m) => {
                    println!("  FAILS: {}", m);
                    std::process::exit(1)
                }
                None => println!("  holds"),
            }
        }
        "run" => {
            let secs = arg("--secs").and_then(|x| x.parse().ok()).unwrap_or(600);
            let known: HashSet<String> = match arg("--known") {
                Some(p) => std::fs::read_to_string(p).unwrap_or_default().lines().map(|l| l.to_string()).collect(),
                None => HashSet::new(),
            };
            let only = arg("--only");
            let eng: &'static Engine = Box::leak(Box::new(Engine::new(secs, known)));
            std::thread::spawn(move || eng.watch());
            for (no, sp) in spaces.iter().enumerate() {
                if let Some(o) = &only {
                    if !sp.name.contains(o.as_str()) {
                        continue;
                    }
                }
                eng.run_space(no, sp);
                if !eng.failures.lock().unwrap().is_empty() {
                    break;
                }
            }
            let stats = eng.stats.lock().unwrap();
            let mut fails = eng.failures.lock().unwrap();
            fails.sort_by_key(|f| f.index);
            let j = serde_json::json!({
                "states": eng.bits.count(),
                "transitions": stats.iter().map(|s| s.transitions).sum::<u64>(),
                "cases": stats.iter().map(|s| s.cases).sum::<u64>(),
                "spaces": stats.iter().map(|s| serde_json::json!({"name": s.name, "size": s.len, "cases": s.cases, "transitions": s.transitions, "complete": s.complete, "wall_s": (s.wall*100.0).round()/100.0, "samples": s.samples, "notes": s.notes})).collect::<Vec<_>>(),
                "known": *eng.known_hit.lock().unwrap(),
                "failures": fails.iter().take(5).map(|f| serde_json::json!({"space": f.space, "index": f.index, "case": f.desc, "message": f.msg})).collect::<Vec<_>>(),
            });
            if let Some(p) = arg("--out") {
                std::fs::write(p, serde_json::to_string(&j).unwrap()).unwrap();
            }
            for f in fails.iter().take(5) {
                println!("FAIL space={:?} index={} case: {}\n     {}", f.space, f.index, f.desc, f.msg);
            }
            for k in eng.known_hit.lock().unwrap().iter() {
                println!("KNOWN {}", k);
            }
            println!("states={} transitions={} cases={}", j["states"], j["transitions"], j["cases"]);
            if !fails.is_empty() {
                std::process::exit(1);
            }
        }
        _ => {
            eprintln!("usage: mc run|replay|list --prop ID --tier quick|thorough --variant rel|chk|be");
            std::process::exit(3);
        }
    }
}
