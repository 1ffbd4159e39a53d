//! mc check <ID> [--tier quick|thorough]   explore a property, write its evidence
//! mc replay <ID> <file>                   run one recorded execution again
mod engine;
mod refm;
mod dom;
mod dict;
mod obs;
mod doc;
mod statics;
mod world;
mod checks;

use engine::*;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::Instant;

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub scopes: Vec<Scope>,
}

fn verif_dir() -> PathBuf { std::env::var_os("MC_VERIF").map(PathBuf::from).unwrap_or_else(|| "/verif".into()) }

fn known() -> Vec<(String, String)> {
    // lines "finding: property=<id> key=<key> <text>"
    let t = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("finding: property=")?;
        let (id, rest) = l.split_once(' ')?;
        let key = rest.strip_prefix("key=")?.split_once(' ')?.0;
        Some((id.to_string(), key.to_string()))
    }).collect()
}

/// Is this deviation of this property listed in the committed known-findings file?
pub fn is_known(id: &str, key: &str) -> bool {
    static K: Mutex<Option<Vec<(String, String)>>> = Mutex::new(None);
    let mut g = K.lock().unwrap();
    g.get_or_insert_with(known).iter().any(|(i, k)| i == id && k == key)
}

#[global_allocator]
static ALLOC: checks::Pausing = checks::Pausing;

static CUR: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));

fn write_replay(id: &str, v: &Violation) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}.json", id, v.scope));
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&serde_json::json!({
        "property": id, "scope": v.scope, "choices": v.prefix, "message": trunc(&v.msg, 20000), "execution": v.notes.iter().map(|n| trunc(n, 20000)).collect::<Vec<_>>(),
        "replay_with": format!("./check.sh replay {} {}", id, p.display()),
    })).unwrap());
    p
}

fn report(id: &str, v: &Violation) {
    let p = write_replay(id, v);
    println!("scope {}: {}", v.scope, trunc(&v.msg, 3000));
    for n in &v.notes { println!("  {}", trunc(n, 2000)) }
    println!("VIOLATION property={} replay={}", id, p.display());
    let _ = std::io::stdout().flush();
}

pub fn report_hang(v: Violation) -> ! {
    let (id, _) = CUR.lock().unwrap().clone();
    report(&id, &v);
    std::process::exit(1)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.get(1).copied() {
        Some("check") => {
            let tier = a.iter().position(|x| *x == "--tier").and_then(|i| a.get(i + 1).copied()).unwrap_or("quick");
            if std::env::var_os("MC_CHILD").is_some() { child(a[2], tier) } else { parent(&args, a[2], tier) }
        }
        Some("replay") => do_replay(a[2], Path::new(a[3])),
        Some("list") => for c in checks::IDS { println!("{}", c) },
        _ => { eprintln!("usage: mc check <ID> [--tier quick|thorough] | replay <ID> <file>"); std::process::exit(2) }
    }
}

fn do_replay(id: &str, file: &Path) {
    install_panic_hook();
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let c = checks::get(id).expect("unknown property");
    let name = v["scope"].as_str().unwrap();
    let s = c.scopes.iter().find(|s| s.name == name).expect("unknown scope");
    let prefix: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let (notes, r) = replay(s, &prefix);
    for n in notes { println!("  {}", n) }
    match r {
        Ok(()) => println!("no violation"),
        Err(m) => { println!("{}\nVIOLATION property={} replay={}", m, id, file.display()); std::process::exit(1) }
    }
}

/// Supervises the exploring process, so that a crash of it (stack overflow, abort, memory) is
/// attributed to the execution that caused it.
fn parent(args: &[String], id: &str, tier: &str) {
    let jpath = std::env::temp_dir().join(format!("mc-journal-{}-{}", id, std::process::id()));
    let st = std::process::Command::new(&args[0]).args(&args[1..])
        .env("MC_CHILD", "1").env("MC_JOURNAL", &jpath).status();
    let st = match st { Ok(s) => s, Err(e) => { eprintln!("cannot start the explorer: {}", e); std::process::exit(2) } };
    use std::os::unix::process::ExitStatusExt;
    let code = if let Some(c) = st.code() { c } else {
        let sig = st.signal().unwrap_or(0);
        if sig == libc::SIGSEGV || sig == libc::SIGABRT || sig == libc::SIGBUS || sig == libc::SIGILL {
            triage(args, id, tier, &jpath, sig)
        } else { eprintln!("explorer ended by signal {}", sig); 2 }
    };
    let _ = std::fs::remove_file(&jpath);
    std::process::exit(code)
}

fn triage(args: &[String], id: &str, _tier: &str, jpath: &Path, sig: i32) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let c = checks::get(id).expect("unknown property");
    let Some((si, cands)) = Journal::read(jpath) else { eprintln!("explorer crashed (signal {}) before exploring", sig); return 2 };
    let s = &c.scopes[si];
    for p in cands.iter().cloned() {
        let v = Violation { scope: s.name.into(), prefix: p, msg: format!("the process crashed with signal {}", sig), notes: vec![] };
        let f = write_replay(id, &v);
        let st = std::process::Command::new(&args[0]).arg("replay").arg(id).arg(&f).env("MC_LIMIT", "1")
            .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
        if let Ok(st) = st { if st.signal().is_some() {
            println!("scope {}: the process crashed with signal {} (stack overflow, abort or out of memory)", s.name, sig);
            println!("VIOLATION property={} replay={}", id, f.display());
            return 1
        } }
        let _ = std::fs::remove_file(&f);
    }
    // not one execution alone: the scope once more
    let st = std::process::Command::new(&args[0]).args(&args[1..]).env("MC_CHILD", "1").env("MC_SCOPE", s.name).env("MC_JOURNAL", jpath)
        .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
    if let (Ok(Some(sig)), Some(p)) = (st.map(|s| s.signal()), cands.into_iter().next()) {
        let f = write_replay(id, &Violation { scope: s.name.into(), prefix: p, msg: format!("the process crashed twice with signal {} in this scope", sig), notes: vec![] });
        println!("scope {}: the process crashes with signal {}, though no single execution does", s.name, sig);
        println!("VIOLATION property={} replay={}", id, f.display());
        return 1
    }
    eprintln!("explorer crashed with signal {} and not again", sig);
    2
}

fn child(id: &str, tier: &str) {
    install_panic_hook();
    unsafe {
        let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
    *CUR.lock().unwrap() = (id.to_string(), tier.to_string());
    let c = match checks::get(id) { Some(c) => c, None => { eprintln!("unknown property {}", id); std::process::exit(2) } };
    let journal = std::env::var_os("MC_JOURNAL").and_then(|p| Journal::open(Path::new(&p)));
    let only = std::env::var("MC_SCOPE").ok();
    let t0 = Instant::now();
    let (mut samples, mut findings, mut per, mut violation) = (vec![], vec![], vec![], None);
    let mut tot = Stats::default();
    for (i, s) in c.scopes.iter().enumerate() {
        if let Some(o) = &only { if o != s.name { continue } }
        let b = if tier == "thorough" { s.thorough } else { s.quick };
        if b == OFF { continue }
        if let Some(j) = &journal { j.scope(i) }
        let t = Instant::now();
        let (st, v) = explore(s, b, journal.as_ref(), &mut samples, &mut findings);
        let secs = t.elapsed().as_secs_f64();
        println!("{} {:<28} bound={:<4} executions={:<9} states={:<9} operations={:<10} depth={:<4} {:.1}s", id, s.name,
            if b == ALL { "all".to_string() } else { b.to_string() }, st.execs, st.states, st.steps, st.max_depth, secs);
        per.push(serde_json::json!({"scope": s.name, "what": s.what, "deviation_bound": if b == ALL { "none: complete tree".to_string() } else { b.to_string() },
            "wide_domains": s.wide, "executions": st.execs, "distinct_inputs": st.states, "operations": st.steps,
            "choice_points": st.nodes, "outside_domain": st.skipped, "longest_choice_sequence": st.max_depth, "seconds": secs}));
        tot.execs += st.execs; tot.states += st.states; tot.steps += st.steps; tot.nodes += st.nodes; tot.edges += st.edges; tot.skipped += st.skipped;
        if v.is_some() { violation = v; break }
    }
    findings.sort(); findings.dedup();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    if samples.len() > 24 { samples.truncate(24) }
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.states, "transitions": tot.steps, "traces_validated_against_impl": tot.execs,
            "choice_tree_nodes": tot.nodes, "choice_tree_edges": tot.edges, "outside_domain": tot.skipped,
            "exhaustive": violation.is_none(), "rule": c.rule, "scopes": per, "samples": samples,
            "known_findings": findings,
        },
        "assumptions": c.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": if violation.is_some() { 1 } else { 0 },
    });
    if only.is_none() {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write evidence: {}", e); std::process::exit(2)
        }
    }
    for f in &findings { println!("KNOWN-FINDING: property={} {}", id, f) }
    if let Some(v) = violation { report(id, &v); std::process::exit(1) }
    println!("{}: held on {} executions, {} distinct inputs, {} operations in {:.1}s", id, tot.execs, tot.states, tot.steps, t0.elapsed().as_secs_f64());
}
