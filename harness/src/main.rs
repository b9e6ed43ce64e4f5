//! s2check <property> --tier quick|thorough | s2check replay <file>
mod c_balance;
mod c_cost;
mod c_decode;
mod c_gen;
mod c_io;
mod c_iter;
mod c_log;
mod c_replay;
mod c_robust;
mod c_rows;
mod c_misc;
mod c_state;
mod engine;
mod mpq;
mod replay;
mod schema;
mod sha;
mod synth;

use engine::*;
use serde_json::json;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[global_allocator]
static COUNTING: c_cost::Counting = c_cost::Counting;

pub struct Property {
    pub id: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub checks: Vec<Check>,
}

fn properties() -> Vec<Property> {
    let mut v = vec![];
    v.extend(c_decode::properties());
    v.extend(c_replay::properties());
    v.extend(c_balance::properties());
    v.extend(c_state::properties());
    v.extend(c_iter::properties());
    v.extend(c_rows::properties());
    v.extend(c_robust::properties());
    v.extend(c_log::properties());
    v.extend(c_misc::properties());
    v.extend(c_gen::properties());
    v.extend(c_cost::properties());
    v.extend(c_io::properties());
    v
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch_of(pid: u32) -> PathBuf {
    scratch_base().join(format!("s2check-{pid}"))
}
fn scratch() -> Scratch {
    let d = scratch_of(std::process::id());
    std::fs::create_dir_all(&d).unwrap();
    Scratch(d)
}
fn scratch_base() -> PathBuf {
    if Path::new("/dev/shm").is_dir() && std::fs::write("/dev/shm/.s2check", b"x").is_ok() {
        let _ = std::fs::remove_file("/dev/shm/.s2check");
        PathBuf::from("/dev/shm")
    } else {
        std::env::temp_dir()
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|v| v as u64).unwrap_or(1)
}

fn known_listed(prop: &str, what: &str) -> bool {
    let f = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    f.lines().any(|l| l.strip_prefix("finding: ").is_some_and(|l| l == format!("property={prop} {what}")))
}

fn save_replay(prop: &str, check: &str, tape: &[u64], msg: &str) -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&d);
    let p = d.join(format!("{prop}-{check}.json"));
    let j = json!({"property": prop, "check": check, "tape": tape, "what": msg});
    std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    p
}

fn run(prop: Property, thorough: bool) -> i32 {
    let start = Instant::now();
    let sc = scratch();
    let seed = seed();
    let cap = Duration::from_secs(if thorough { 3000 } else { 420 });
    let out = run_checks(prop.id, &prop.checks, seed, thorough, cap, &sc.0);
    let st = out.stats;
    let mut code = 0;
    let mut violations = 0;
    for (k, n) in &st.known {
        if known_listed(prop.id, k) {
            println!("KNOWN-FINDING: property={} {} ({} cases)", prop.id, k, n);
        } else {
            println!("a finding that is not listed was reported as known: {k}");
            code = 2;
        }
    }
    if let Some(f) = &out.failure {
        let p = save_replay(prop.id, f.check, &f.tape, &f.msg);
        println!("{} case {} of {}: {}", prop.id, f.case, f.check, f.msg);
        println!("VIOLATION property={} replay={}", prop.id, p.display());
        code = 1;
        violations = 1;
    } else if let Some((c, i)) = &out.hang {
        println!("{}: case {i} of {c} does not end", prop.id);
        code = HUNG;
    }
    let ev = json!({
        "property": prop.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.distinct.len(),
            "rule": prop.rule,
            "samples": st.samples,
            "cases_per_check": st.per_check,
            "classes": st.labels,
            "known_findings_seen": st.known,
            "stopped_by_time_limit": st.capped,
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let d = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {:.1} s{}",
        prop.id,
        if code == 0 { "held" } else { "did not hold" },
        st.evaluations,
        st.distinct.len(),
        start.elapsed().as_secs_f64(),
        if st.capped { " (time limit)" } else { "" }
    );
    if code == HUNG {
        std::mem::forget(sc);
    } else {
        drop(sc);
    }
    let _ = std::io::stdout().flush();
    code
}

/// Exit code of the child in which a case does not end.
const HUNG: i32 = 3;

/// Runs cases that did not end, or in which the process ended, each in a process of its own with limits
/// far above what any case needs. True if one of them fails for sure, which is then reported.
fn confirm(prop: &Property, cases: &[(usize, u64)], seed: u64) -> bool {
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<_> = cases
        .iter()
        .map(|&(nth, i)| {
            let k = std::process::Command::new(&exe).env("RUST_BACKTRACE", "0").args(["--case", prop.id, &nth.to_string(), &i.to_string(), &seed.to_string()]).stdout(std::process::Stdio::null()).spawn().unwrap();
            (nth, i, k, None)
        })
        .collect();
    let start = Instant::now();
    while kids.iter().any(|k| k.3.is_none()) && start.elapsed() < Duration::from_secs(250) {
        for k in &mut kids {
            if k.3.is_none() {
                k.3 = k.2.try_wait().unwrap();
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut failed = false;
    for (nth, i, mut k, st) in kids {
        use std::os::unix::process::ExitStatusExt;
        let what = match st {
            None => {
                let _ = k.kill();
                let _ = k.wait();
                "does not end within 250 s".to_string()
            }
            Some(s) if s.code() == Some(0) => continue,
            Some(s) if s.code() == Some(1) => "fails".to_string(),
            Some(s) if s.code().is_some() => continue,
            Some(s) if s.signal() == Some(24) => "does not end within 40 s of processor time".to_string(),
            // who kills it is not known
            Some(s) if s.signal() == Some(9) => continue,
            Some(s) => format!("ends the process ({s}): an abort, a stack overflow or more than 4 GB of memory"),
        };
        let _ = std::fs::remove_dir_all(scratch_of(k.id()));
        let check = prop.checks[nth].name;
        println!("{} case {i} of {check}: {what}", prop.id);
        if !failed {
            failed = true;
            let d = verif_dir().join("replays");
            let _ = std::fs::create_dir_all(&d);
            let p = d.join(format!("{}-{check}.json", prop.id));
            std::fs::write(&p, serde_json::to_string_pretty(&json!({"property": prop.id, "check": check, "seed": seed, "case": i, "what": what})).unwrap()).unwrap();
            println!("VIOLATION property={} replay={}", prop.id, p.display());
        }
    }
    failed
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in properties() {
                println!("{} {:?}", p.id, p.checks.iter().map(|c| c.name).collect::<Vec<_>>());
            }
        }
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[1]).unwrap()).unwrap();
            let sc = scratch();
            let p = properties().into_iter().find(|p| p.id == j["property"]).expect("property");
            let c = p.checks.iter().find(|c| c.name == j["check"]).expect("check");
            if j["tape"].is_null() {
                // a case that did not end
                let nth = p.checks.iter().position(|x| x.name == c.name).unwrap();
                if confirm(&p, &[(nth, j["case"].as_u64().unwrap())], j["seed"].as_u64().unwrap()) {
                    std::process::exit(1);
                }
                println!("replay: the property holds on this case");
                return;
            }
            let tape: Vec<u64> = j["tape"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()).collect();
            let mut g = Gen::from_tape(tape, sc.0.clone());
            let r = match catch(|| (c.f)(&mut g)) {
                Ok(r) => r,
                Err(e) => Err(e),
            };
            if let Some(s) = &g.meta.sample {
                println!("case: {s}");
            }
            drop(sc);
            match r {
                Ok(()) => println!("replay: the property holds on this case"),
                Err(m) => {
                    println!("replay: {m}");
                    println!("VIOLATION property={} replay={}", p.id, args[1]);
                    std::process::exit(1);
                }
            }
        }
        Some("--case") => {
            let p = properties().into_iter().find(|p| p.id == args[1]).expect("property");
            let n: Vec<u64> = args[2..5].iter().map(|a| a.parse().unwrap()).collect();
            limit(40, 4 << 30);
            let sc = scratch();
            let d = sc.0.clone();
            let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || one_case(p.id, &p.checks[n[0] as usize], n[2], n[1], &d).1).unwrap().join();
            drop(sc);
            if let Ok(Err(m)) = &r {
                println!("{m}");
            }
            std::process::exit(if matches!(r, Ok(Ok(()))) { 0 } else { 1 });
        }
        Some("--reading") => {
            limit(200, 10 << 30);
            let p = PathBuf::from(&args[1]);
            let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || c_log::reading(&p)).unwrap().join();
            std::process::exit(if r.is_ok() { 0 } else { 1 });
        }
        Some("--child") => {
            limit(0, 10 << 30);
            let thorough = args.iter().any(|a| a == "thorough");
            let p = properties().into_iter().find(|p| p.id == args[1]).expect("property");
            let code = run(p, thorough);
            std::process::exit(code);
        }
        Some(id) => {
            // The work is done in a child so that an abort or a stack overflow is seen.
            let exe = std::env::current_exe().unwrap();
            let tier = std::env::var("VERIF_TIER").unwrap_or_default();
            let thorough = args.iter().any(|a| a == "thorough") || (!args.iter().any(|a| a == "quick") && tier == "thorough");
            let mut kid = std::process::Command::new(exe).env("RUST_BACKTRACE", "0").args(["--child", id, if thorough { "thorough" } else { "quick" }]).spawn().unwrap();
            let st = kid.wait().unwrap();
            let left = Scratch(scratch_of(kid.id()));
            match st.code() {
                Some(c) if c != HUNG => {
                    drop(left);
                    std::process::exit(c)
                }
                _ => {
                    println!("{id}: the process under test did not end as it should: {st}");
                    let p = properties().into_iter().find(|p| p.id == id).expect("property");
                    let shrinking = std::fs::read(left.0.join("failure")).ok().and_then(|b| serde_json::from_slice::<serde_json::Value>(&b).ok());
                    let failed = match shrinking {
                        Some(j) => {
                            let tape: Vec<u64> = j["tape"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()).collect();
                            let r = save_replay(p.id, j["check"].as_str().unwrap(), &tape, j["what"].as_str().unwrap());
                            println!("{id}: {}", j["what"].as_str().unwrap());
                            println!("VIOLATION property={id} replay={}", r.display());
                            true
                        }
                        None => confirm(&p, &notes(&left.0), seed()),
                    };
                    drop(left);
                    std::process::exit(if failed { 1 } else { 2 });
                }
            }
        }
        None => {
            eprintln!("usage: s2check <property> [--tier quick|thorough] | replay <file> | list");
            std::process::exit(2);
        }
    }
}
