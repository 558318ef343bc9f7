mod alloc;
#[macro_use]
mod engine;
mod model;
mod util;
mod props_sys;
mod props_lib;
mod val;
mod props_text;
mod props_dyn;
mod props_rust;
mod props_show;
mod props_build;
mod props_limit;
mod props_val;

use std::collections::BTreeMap;
use std::io::Write;
use std::process::{exit, Command};
use std::time::Instant;

use engine::*;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn root() -> String { std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()) }

fn all_props() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(props_lib::PROPS);
    v.extend(props_sys::PROPS);
    v.extend(props_val::PROPS);
    v.extend(props_text::PROPS);
    v.extend(props_dyn::PROPS);
    v.extend(props_rust::PROPS);
    v.extend(props_show::PROPS);
    v.extend(props_build::PROPS);
    v.extend(props_limit::PROPS);
    v
}

fn find(id: &str) -> &'static Prop {
    all_props().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        exit(2)
    })
}

/// Keys of the findings listed in known_findings.txt for a property.
fn known(id: &str) -> BTreeMap<String, String> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    let mut m = BTreeMap::new();
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("finding: property=") else { continue };
        let mut it = rest.splitn(3, ' ');
        let (Some(p), Some(k), Some(w)) = (it.next(), it.next(), it.next()) else { continue };
        if p == id {
            m.insert(k.trim_start_matches("key=").to_string(), w.to_string());
        }
    }
    m
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|x| x as u64).unwrap_or(1)
}
fn thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }
fn cases(s: &Sub) -> u64 {
    let n = if thorough() { s.thorough } else { s.quick };
    match std::env::var("STPROP_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
        Some(f) => ((n as f64) * f).max(1.0) as u64,
        None => n,
    }
}

fn write_replay(prop: &str, sub: &str, seed: u64, idx: Option<u64>, choices: Option<&[u64]>, msg: &str) -> String {
    let dir = format!("{}/replays", root());
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{dir}/{prop}-{sub}.json");
    let v = serde_json::json!({
        "property": prop, "sub": sub, "seed": seed, "index": idx, "choices": choices, "message": msg,
        "how": format!("{dir}/../check.sh --replay {path}"),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

#[derive(serde::Serialize, serde::Deserialize)]
struct WorkerReport {
    evaluations: u64,
    distinct: u64,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
    per_sub: BTreeMap<String, u64>,
    known_seen: Vec<String>,
    violation: Option<(String, String)>, // replay, message
}

fn worker(id: &str, report: &str, journal: &str) {
    let prop = find(id);
    let j = Journal::open(journal);
    let mut rep = WorkerReport {
        evaluations: 0, distinct: 0, classes: default(), samples: vec![], per_sub: default(), known_seen: vec![], violation: None,
    };
    for (k, f) in prop.known {
        rep.evaluations += 1;
        match guarded(f) {
            Ok(true) | Err(_) => rep.known_seen.push(k.to_string()),
            Ok(false) => {}
        }
    }
    let only = std::env::var("STPROP_SUB").ok();
    for (i, s) in prop.subs.iter().enumerate() {
        if only.as_ref().map(|o| o != s.name).unwrap_or(false) {
            continue;
        }
        let t = Instant::now();
        let o = run_sub(prop, i, cases(s), seed(), &j);
        eprintln!("  {}/{}: {} evaluations, {} distinct non-trivial, {:.1}s {:?}", prop.id, s.name, o.evaluations, o.distinct.len(), t.elapsed().as_secs_f32(), o.classes);
        rep.evaluations += o.evaluations;
        rep.distinct += o.distinct.len() as u64;
        rep.per_sub.insert(s.name.to_string(), o.evaluations);
        for (k, v) in o.classes {
            *rep.classes.entry(format!("{}: {k}", s.name)).or_default() += v;
        }
        rep.samples.extend(o.samples.into_iter().map(|x| format!("{}: {x}", s.name)));
        if let Some((idx, rec, f)) = o.failure {
            let (small, sf) = shrink(s, rec, 6000);
            let path = write_replay(prop.id, s.name, seed(), Some(idx), Some(&small), &sf.msg);
            eprintln!("FAILED {}/{} case {idx}: {}\n  shrunk: {}", prop.id, s.name, f.msg, sf.msg);
            rep.violation = Some((path, sf.msg));
            break;
        }
    }
    std::fs::write(report, serde_json::to_string(&rep).unwrap()).unwrap();
}

fn check(id: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let prop = find(id);
    let t0 = Instant::now();
    let dir = format!("{}/work", root());
    std::fs::create_dir_all(&dir).unwrap();
    let report = format!("{dir}/{id}.report");
    let journal = format!("{dir}/{id}.journal");
    let _ = std::fs::remove_file(&report);
    let _ = std::fs::remove_file(&journal);
    let me = std::env::current_exe().unwrap();
    let limit = if thorough() { 4 * 3600 } else { 800 };
    let mut child = Command::new(&me).args(["worker", id, &report, &journal]).spawn().unwrap();
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed().as_secs() > limit {
            let _ = child.kill();
            let _ = child.wait();
            println!("INCONCLUSIVE property={id}: watchdog");
            return 2;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    };
    let mut crash = None;
    if status.signal().is_some() || status.code() == Some(alloc::FUEL_EXIT) {
        // the process died: replay, alone, each case that was in flight
        for (sub, idx) in Journal::open(&journal).read() {
            let Some(s) = prop.subs.get(sub as usize) else { continue };
            let st = Command::new(&me).args(["one", id, s.name, &idx.to_string()]).output().unwrap();
            let died = st.status.signal().is_some() || st.status.code() == Some(alloc::FUEL_EXIT);
            if died {
                let why = if st.status.code() == Some(alloc::FUEL_EXIT) {
                    "exceeded the work budget of 400 million allocations (does not terminate)".to_string()
                } else {
                    format!("killed by signal {:?}: {}", st.status.signal(), String::from_utf8_lossy(&st.stderr).chars().take(400).collect::<String>())
                };
                crash = Some((write_replay(id, s.name, seed(), Some(idx), None, &why), why));
                break;
            }
        }
        if crash.is_none() {
            println!("INCONCLUSIVE property={id}: worker died ({status}) and no case in flight reproduces it");
            return 2;
        }
    } else if !status.success() {
        println!("INCONCLUSIVE property={id}: worker failed ({status})");
        return 2;
    }
    let rep: WorkerReport = match std::fs::read_to_string(&report) {
        Ok(r) => serde_json::from_str(&r).unwrap(),
        Err(_) => WorkerReport {
            evaluations: 0, distinct: 0, classes: default(), samples: vec![], per_sub: default(), known_seen: vec![], violation: crash,
        },
    };
    let listed = known(id);
    let mut violations: Vec<(String, String)> = rep.violation.iter().cloned().collect();
    for k in &rep.known_seen {
        match listed.get(k) {
            Some(w) => println!("KNOWN-FINDING: property={id} {w}"),
            None => {
                let msg = format!("regression input `{k}` fails");
                violations.push((write_replay(id, &format!("known-{k}"), seed(), None, None, &msg), msg));
            }
        }
    }
    let ev = serde_json::json!({
        "property": id,
        "tier": if thorough() { "thorough" } else { "quick" },
        "seed": seed() as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": rep.evaluations,
            "distinct_nontrivial": rep.distinct,
            "rule": prop.rule,
            "samples": rep.samples,
            "cases_per_generator": rep.per_sub,
            "classes": rep.classes,
            "known_findings_reproduced": rep.known_seen.iter().filter(|k| listed.contains_key(*k)).collect::<Vec<_>>(),
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    std::fs::create_dir_all(format!("{}/evidence", root())).ok();
    std::fs::write(format!("{}/evidence/{id}.json", root()), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_file(&report);
    let _ = std::fs::remove_file(&journal);
    for (path, msg) in &violations {
        println!("{msg}");
        println!("VIOLATION property={id} replay={path}");
    }
    if violations.is_empty() {
        println!("OK property={id}: {} evaluations, {} distinct non-trivial", rep.evaluations, rep.distinct);
        0
    } else {
        1
    }
}

fn sub_of(p: &'static Prop, name: &str) -> &'static Sub {
    p.subs.iter().find(|s| s.name == name).unwrap_or_else(|| {
        eprintln!("unknown generator {name}");
        exit(2)
    })
}

fn report_one(sub: &'static Sub, mut src: Src) -> i32 {
    let t = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let mut ctx = Ctx { verbose: true, ..default() };
        match run_case(sub, &mut src, &mut ctx) {
            Ok(()) => {
                println!("case passes");
                0
            }
            Err(f) => {
                println!("case FAILS: {}", f.msg);
                1
            }
        }
    });
    t.unwrap().join().unwrap()
}

fn main() {
    if std::env::var_os("STPROP_EXPORTER").is_some() {
        exit(props_lib::exporter());
    }
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let rc = match s(1) {
        "list" => {
            for p in all_props() {
                println!("{}", p.id);
            }
            0
        }
        "check" => check(s(2)),
        "worker" => {
            worker(s(2), s(3), s(4));
            0
        }
        "one" => {
            let p = find(s(2));
            let sub = sub_of(p, s(3));
            report_one(sub, Src::random(case_seed(seed(), p.id, sub.name, s(4).parse().unwrap())))
        }
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(s(2)).unwrap()).unwrap();
            let p = find(v["property"].as_str().unwrap());
            let name = v["sub"].as_str().unwrap();
            if let Some(k) = name.strip_prefix("known-") {
                let f = p.known.iter().find(|x| x.0 == k).expect("known input").1;
                let bad = guarded(f).unwrap_or(true);
                println!("known input {k}: {}", if bad { "FAILS" } else { "passes" });
                bad as i32
            } else {
                let sub = sub_of(p, name);
                let src = match v["choices"].as_array() {
                    Some(c) => Src::replay(c.iter().map(|x| x.as_u64().unwrap()).collect()),
                    None => Src::random(case_seed(v["seed"].as_u64().unwrap(), p.id, sub.name, v["index"].as_u64().unwrap())),
                };
                report_one(sub, src)
            }
        }
        _ => {
            eprintln!("usage: stprop check ID | replay FILE | list");
            2
        }
    };
    std::io::stdout().flush().ok();
    exit(rc)
}
