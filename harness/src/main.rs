//! ljmc: bounded exhaustive model checking of lumberjack.
//!
//!   ljmc check  <ID> <quick|thorough>   supervise a worker, report its death as a verdict
//!   ljmc worker <ID> <tier> <slot dir>  explore (internal)
//!   ljmc replay <file>                  execute one recorded case
//!   ljmc list

mod build;
mod checks;
mod engine;
mod gen;
mod model;
mod ops;
mod text;

use engine::{fingerprint, json_str, now_ms, Local, Shared, Tier, Verdict};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::time::{Duration, Instant};

const HANG: i32 = 40;
/// A single case takes microseconds to milliseconds; this is a hang.
const CASE_LIMIT_MS: u64 = 90_000;
/// Cases that can end the process, each executed in a process of its own after the exploration.
const PROBES: &[(&str, &str)] = &[("F03", "deep 1000"), ("F03", "deep 100000")];
const MEM_KB: u64 = 26_000_000;

pub fn home() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn known(id: &str) -> Vec<String> {
    // finding: property=<id> <fingerprint> <what fails>
    let text = std::fs::read_to_string(home().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| {
            let mut p = l.splitn(3, ' ');
            if p.next()? == id {
                p.next().map(ToOwned::to_owned)
            } else {
                None
            }
        })
        .collect()
}

fn known_text(id: &str, fp: &str) -> String {
    let text = std::fs::read_to_string(home().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let pre = format!("finding: property={} {} ", id, fp);
    text.lines().find_map(|l| l.strip_prefix(&pre)).unwrap_or("").to_string()
}

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn find(id: &str) -> checks::Check {
    match checks::all().into_iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("no check for property {}", id);
            exit(2)
        }
    }
}

fn write_replay(id: &str, case: &str, msg: &str) -> PathBuf {
    let dir = home().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}.txt", id, fingerprint(case)));
    let mut text = format!("property {}\n", id);
    for l in msg.lines() {
        text.push_str(&format!("# {}\n", l));
    }
    text.push_str("---\n");
    text.push_str(case);
    text.push('\n');
    if std::fs::write(&p, text).is_err() {
        eprintln!("cannot write {}", p.display());
    }
    p
}

fn report(id: &str, case: &str, msg: &str) {
    let p = write_replay(id, case, msg);
    println!("property {} is violated:\n{}\ncase:\n{}", id, msg, case);
    println!("VIOLATION property={} replay={}", id, p.display());
}

fn run_case(id: &str, text: &str) -> Option<Verdict> {
    let c = find(id);
    let sh = Shared::new(id, Tier::Quick, None, Vec::new());
    let mut l = Local::new(&sh, 0);
    // the same stack as in exploration
    match engine::guard(|| (c.replay)(text, &mut l)) {
        Ok(v) => v,
        Err(p) => Some(Err(p)),
    }
}

fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .unwrap()
    })
}

fn worker(id: &str, t: Tier, dir: &Path) -> i32 {
    let c = find(id);
    let sh = Shared::new(id, t, Some(dir.to_path_buf()), known(id));
    let t0 = Instant::now();
    now_ms();
    let done = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        s.spawn(|| {
            // watchdog
            while !done.load(std::sync::atomic::Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                for (i, slot) in sh.slots().iter().enumerate() {
                    let st = slot.started_ms.load(std::sync::atomic::Ordering::Relaxed);
                    if st != 0 && now_ms().saturating_sub(st) > CASE_LIMIT_MS {
                        let _ = std::fs::write(dir.join("hung"), i.to_string());
                        exit(HANG);
                    }
                }
            }
        });
        let r = engine::guard(|| (c.run)(&sh));
        done.store(true, std::sync::atomic::Ordering::Relaxed);
        if let Err(p) = r {
            sh.harness_errors.lock().unwrap().push(p);
        }
    });
    let herr = sh.harness_errors.lock().unwrap().clone();
    let mut viol = sh.violations.lock().unwrap().clone();
    viol.sort_by_key(|(c, _)| c.len());
    let mut code = 0;
    if !viol.is_empty() {
        // confirm by executing the recorded case again
        let mut chosen = None;
        'outer: for (case, msg) in viol.iter().take(10) {
            for _ in 0..30 {
                match on_big_stack(|| run_case(id, case)) {
                    Some(Err(m)) => {
                        chosen = Some((case.clone(), m));
                        break 'outer;
                    }
                    Some(Ok(())) => (),
                    None => {
                        chosen = Some((case.clone(), format!("{}\n(the recorded case can't be parsed)", msg)));
                        break 'outer;
                    }
                }
            }
        }
        let (case, msg) = chosen.unwrap_or_else(|| {
            let (c, m) = viol[0].clone();
            (c, format!("{}\n(not reproduced by 30 executions of the recorded case: depends on hash seeds)", m))
        });
        report(id, &case, &msg);
        code = 1;
    } else if !herr.is_empty() {
        for h in &herr {
            eprintln!("error of the check: {}", h);
        }
        code = 2;
    } else if sh.counters().get("cases").cloned().unwrap_or(0) == 0 {
        eprintln!("error of the check: nothing was explored");
        for n in sh.notes.lock().unwrap().iter() {
            eprintln!("  {}", n);
        }
        code = 2;
    }
    let mut n_viol = viol.len();
    if code == 0 {
        for (_, case) in PROBES.iter().filter(|(p, _)| *p == id) {
            if let Some(why) = dies(id, case, dir) {
                if known(id).contains(&fingerprint(case)) {
                    sh.known_hit.lock().unwrap().push(fingerprint(case));
                } else {
                    report(id, case, &why);
                    n_viol += 1;
                    code = 1;
                    break;
                }
            }
        }
    }
    let hits = {
        let mut h = sh.known_hit.lock().unwrap().clone();
        h.sort();
        h.dedup();
        h
    };
    for h in &hits {
        println!("KNOWN-FINDING: property={} {}", id, known_text(id, h));
    }
    evidence(&c, &sh, t0.elapsed().as_secs_f64(), n_viol);
    if code == 0 {
        let cn = sh.counters();
        println!(
            "property {} held: {} cases, {} states, {} transitions, {:.1}s{}",
            id,
            cn.get("cases").unwrap_or(&0),
            sh.n_states(),
            cn.get("transitions").unwrap_or(&0),
            t0.elapsed().as_secs_f64(),
            if sh.capped.load(std::sync::atomic::Ordering::Relaxed) { " (time budget reached)" } else { "" }
        );
    }
    let _ = std::io::stdout().flush();
    code
}

fn evidence(c: &checks::Check, sh: &Shared, wall: f64, violations: usize) {
    let cn = sh.counters();
    let get = |k: &str| cn.get(k).cloned().unwrap_or(0);
    let capped = sh.capped.load(std::sync::atomic::Ordering::Relaxed);
    let fault = c.id == "F06";
    let mut cov = Vec::new();
    if fault {
        cov.push(format!("\"evaluations\": {}", get("cases")));
        cov.push(format!("\"distinct_nontrivial\": {}", sh.n_states()));
        cov.push(format!(
            "\"rule\": {}",
            json_str("every fault position and kind in the sequence of read/write calls of every reader/writer over a set of texts/trees; non-trivial: the fault was reached, distinct by (text, fault, position, outcome)")
        ));
    } else {
        cov.push(format!("\"states\": {}", sh.n_states()));
        cov.push(format!("\"transitions\": {}", get("transitions")));
        // complete histories where the cases are single steps of histories
        let tr = if get("traces") > 0 { get("traces") } else { get("cases") };
        cov.push(format!("\"traces_validated_against_impl\": {}", tr));
    }
    let samples: Vec<String> = sh.samples.lock().unwrap().iter().map(|s| json_str(s)).collect();
    cov.push(format!("\"samples\": [{}]", samples.join(", ")));
    cov.push(format!("\"exhaustive\": {}", !capped && violations == 0));
    cov.push(format!("\"explored\": {}", json_str(c.what)));
    let counters: Vec<String> = cn
        .iter()
        .filter(|(k, _)| **k != "transitions" && **k != "traces")
        .map(|(k, v)| format!("{}: {}", json_str(k), v))
        .collect();
    cov.push(format!("\"counters\": {{{}}}", counters.join(", ")));
    let outcomes: Vec<String> =
        sh.outcomes().iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    cov.push(format!("\"outcomes\": {{{}}}", outcomes.join(", ")));
    let notes: Vec<String> = sh.notes.lock().unwrap().iter().map(|s| json_str(s)).collect();
    cov.push(format!("\"bounds\": [{}]", notes.join(", ")));
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(c.id),
        json_str(if sh.quick() { "quick" } else { "thorough" }),
        seed,
        json_str(if fault { "fault_enumeration" } else { "model_checking" }),
        cov.join(",\n  "),
        json_str("the reference semantics in harness/src is right; petgraph, std and the conllx crate work; bounds as listed; deep recursion, memory exhaustion by huge inputs and inputs listed as limitations in DESIGN.md are out of scope"),
        wall,
        violations
    );
    let dir = home().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", c.id)), text) {
        eprintln!("cannot write evidence: {}", e);
    }
}

/// Run a child with a time limit; `None` if it had to be killed.
fn run_limited(cmd: &mut Command, limit: Duration) -> Option<std::process::ExitStatus> {
    let mut ch = cmd.spawn().ok()?;
    let t0 = Instant::now();
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            return Some(st);
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn limited_cmd(args: &[&str]) -> Command {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new("sh");
    c.arg("-c")
        .arg(format!("ulimit -v {}; ulimit -c 0; exec \"$0\" \"$@\"", MEM_KB))
        .arg(exe)
        .args(args);
    c
}

/// Execute a case in a process of its own; how it fails.
fn dies(id: &str, case: &str, dir: &Path) -> Option<String> {
    let f = dir.join("case");
    let _ = std::fs::write(&f, format!("property {}\n---\n{}\n", id, case));
    let mut cmd = limited_cmd(&["replay", f.to_str().unwrap()]);
    cmd.stdout(Stdio::null()).stderr(Stdio::null());
    match run_limited(&mut cmd, Duration::from_secs(60)) {
        None => Some("the call does not return (killed after 60 s)".to_string()),
        Some(s) => match s.code() {
            Some(0) | Some(2) => None,
            Some(1) => Some("the case fails".to_string()),
            _ => Some(format!("the process died: {}", s)),
        },
    }
}

fn check(id: &str, t: &str) -> i32 {
    find(id);
    let dir = std::env::temp_dir().join(format!("ljmc-{}-{}", id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let st = limited_cmd(&["worker", id, t, dir.to_str().unwrap()]).status();
    let code = match &st {
        Ok(s) => s.code(),
        Err(_) => Some(2),
    };
    let r = match code {
        Some(c) if c == 0 || c == 1 || c == 2 => c,
        _ => {
            // the worker died or hung: which case was in flight?
            let mut confirmed = None;
            let mut cases = Vec::new();
            let hung: Option<usize> =
                std::fs::read_to_string(dir.join("hung")).ok().and_then(|s| s.trim().parse().ok());
            for i in 0..64 {
                if let Ok(b) = std::fs::read(dir.join(format!("slot{}", i))) {
                    if b.len() > 10 {
                        let n: usize =
                            std::str::from_utf8(&b[..10]).ok().and_then(|s| s.parse().ok()).unwrap_or(0);
                        if let Some(c) = b.get(10..10 + n).and_then(|b| std::str::from_utf8(b).ok()) {
                            cases.push((Some(i) != hung, c.to_string()));
                        }
                    }
                }
            }
            cases.sort();
            for (_, c) in cases {
                let why = match dies(id, &c, &dir) {
                    None => continue,
                    Some(w) => w,
                };
                confirmed = Some((c, why));
                break;
            }
            match confirmed {
                Some((c, why)) => {
                    if known(id).contains(&fingerprint(&c)) {
                        println!("KNOWN-FINDING: property={} {}", id, known_text(id, &fingerprint(&c)));
                        2
                    } else {
                        report(id, &c, &why);
                        1
                    }
                }
                None => {
                    eprintln!("the worker ended abnormally ({:?}) and no case in flight explains it", st);
                    2
                }
            }
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let id = text.lines().next().and_then(|l| l.strip_prefix("property ")).unwrap_or("").to_string();
    let case = match text.find("\n---\n") {
        Some(i) => text[i + 5..].trim_end_matches('\n').to_string(),
        None => return 2,
    };
    for _ in 0..30 {
        match on_big_stack(|| run_case(&id, &case)) {
            None => {
                eprintln!("can't parse the case");
                return 2;
            }
            Some(Err(m)) => {
                println!("property {} is violated:\n{}\ncase:\n{}", id, m, case);
                return 1;
            }
            Some(Ok(())) => (),
        }
    }
    println!("property {} holds for the case", id);
    0
}

fn main() {
    engine::install_panic_hook();
    // capturing a backtrace with every reported error is slow and takes a global lock
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_FAILURE_BACKTRACE", "0");
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(String::as_str).collect();
    let code = match a.get(1..).unwrap_or(&[]) {
        ["check", id, t] => check(id, t),
        ["worker", id, t, dir] => worker(id, tier(t), Path::new(dir)),
        ["replay", f] => replay(f),
        ["list"] => {
            for c in checks::all() {
                println!("{}\t{}", c.id, c.what);
            }
            0
        }
        _ => {
            eprintln!("usage: ljmc check ID quick|thorough | replay FILE | list");
            2
        }
    };
    exit(code)
}
