//! vmon: runtime monitors for fuel-tx.
//!
//!   vmon run <ID> --tier quick|thorough --seed N --evidence FILE --replays DIR [--cases N] [--note k=v]
//!   vmon one <ID> <tier> <case seed> <index>     (used to confirm a crash)
//!   vmon worker ...                              (internal)
//!   vmon replay <file>

mod alloc;
mod conv;
mod ex;
mod gen;
mod guard;
mod keys;
mod layout;
mod m_build;
mod m_check;
mod m_codec;
mod m_conc;
mod m_id;
mod m_misc;
mod m_nostd;
mod m_rcpt;
mod m_text;
mod m_value;
mod model;
mod mutate;
mod plain;
mod refs;
mod rng;
mod stats;

use stats::{Ctx, Stats, Violation};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx, &mut rng::Rng),
    /// counters that must reach a minimum, or the run is inconclusive
    pub req: &'static [(&'static str, u64)],
    pub rule: &'static str,
    pub assume: &'static [&'static str],
}

fn props() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(m_codec::props());
    v.extend(m_id::props());
    v.extend(m_check::props());
    v.extend(m_misc::props());
    v.extend(m_rcpt::props());
    v.extend(m_text::props());
    v.extend(m_build::props());
    v.extend(m_conc::props());
    v.extend(m_nostd::props());
    v.extend(m_value::props());
    v
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// What happened in one case.
pub enum Outcome {
    Held,
    Violated(String),
    Harness(String),
}

pub fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    rng::mix(rng::mix(seed, rng::fnv(id.as_bytes())), i)
}

fn run_case(p: &Prop, cx: &mut Ctx, cseed: u64, index: u64) -> Outcome {
    cx.index = index;
    cx.fails.clear();
    cx.st.cases += 1;
    let mut r = rng::Rng::new(cseed);
    PANIC.with(|p| *p.borrow_mut() = None);
    let res = catch_unwind(AssertUnwindSafe(|| (p.run)(cx, &mut r)));
    match res {
        Ok(()) => match cx.fails.first() {
            None => Outcome::Held,
            Some(_) => Outcome::Violated(cx.fails.join(" || ")),
        },
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if let Some(f) = cx.fails.first() {
                // a comparison had failed already: that is the verdict
                return Outcome::Violated(format!("{f} || then panicked at {loc}: {msg}"));
            }
            if loc.starts_with("src/") {
                Outcome::Harness(format!("harness panic at {loc}: {msg}"))
            } else {
                Outcome::Violated(format!("the library panicked at {loc}: {msg}"))
            }
        }
    }
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
}

fn find(id: &str) -> Prop {
    match props().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {id}");
            std::process::exit(2)
        }
    }
}

fn main() {
    hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2], Args(a.clone())),
        Some("worker") => worker(&a[2], Args(a.clone())),
        Some("one") => {
            let p = find(&a[2]);
            let seed: u64 = a[4].parse().unwrap_or(0);
            let index: u64 = a[5].parse().unwrap_or(0);
            one(&p, a[3] == "thorough", seed, index)
        }
        Some("replay") => {
            let s = std::fs::read_to_string(&a[2]).unwrap_or_default();
            let v: serde_json::Value = serde_json::from_str(&s).unwrap_or_default();
            let p = find(v["property"].as_str().unwrap_or(""));
            println!("recorded: {}", v["message"].as_str().unwrap_or(""));
            one(&p, v["tier"] == "thorough", v["case_seed"].as_str().and_then(|x| x.parse().ok()).unwrap_or(0), v["index"].as_u64().unwrap_or(0))
        }
        Some("list") => {
            for p in props() {
                println!("{}", p.id)
            }
        }
        _ => {
            eprintln!("usage: vmon run|replay|one|list ...");
            std::process::exit(2)
        }
    }
}

fn one(p: &Prop, thorough: bool, seed: u64, index: u64) {
    let mut cx = Ctx { prop: p.id, thorough, index, st: Stats::default(), fails: vec![] };
    match run_case(p, &mut cx, seed, index) {
        Outcome::Held => println!("held: {} case seed {seed}", p.id),
        Outcome::Violated(m) => {
            println!("violated: {m}");
            std::process::exit(1)
        }
        Outcome::Harness(m) => {
            println!("harness error: {m}");
            std::process::exit(2)
        }
    }
}

fn put_index(f: &std::fs::File, i: u64) {
    use std::os::unix::fs::FileExt;
    let _ = f.write_at(&i.to_le_bytes(), 0);
}

fn worker(id: &str, a: Args) {
    let p = find(id);
    let (w, n, cases) = (a.num("--w", 0), a.num("--n", 1), a.num("--cases", 0));
    let seed = a.num("--seed", 1);
    let thorough = a.get("--tier") == Some("thorough");
    let cap = Duration::from_secs(a.num("--cap", 3600));
    let dir = PathBuf::from(a.get("--dir").unwrap_or("."));
    let cur = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(dir.join(format!("cur.{w}"))).expect("cur");
    let t0 = Instant::now();
    let mut cx = Ctx { prop: p.id, thorough, index: 0, st: Stats::default(), fails: vec![] };
    let mut i = w + a.num("--from", 0);
    while i < cases {
        if t0.elapsed() > cap {
            cx.st.capped = true;
            break;
        }
        put_index(&cur, i);
        let cs = case_seed(seed, p.id, i);
        match run_case(&p, &mut cx, cs, i) {
            Outcome::Held => {}
            Outcome::Violated(m) => {
                cx.st.violations.push(Violation { property: p.id.into(), seed: cs, index: i, message: m });
                if cx.st.violations.len() >= 3 {
                    break;
                }
            }
            Outcome::Harness(m) => {
                cx.st.harness_errors.push(format!("case {i} (seed {cs}): {m}"));
                if cx.st.harness_errors.len() >= 3 {
                    break;
                }
            }
        }
        i += n;
    }
    put_index(&cur, u64::MAX);
    let s = serde_json::to_vec(&cx.st).expect("json");
    std::fs::write(dir.join(format!("out.{w}")), s).expect("write");
}

fn read_index(dir: &Path, w: u64) -> Option<u64> {
    let b = std::fs::read(dir.join(format!("cur.{w}"))).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

enum Confirm {
    Crash(String),
    Violation(String),
    Hang,
    Nothing,
}

/// The head of a sanitizer report, if there is one.
fn sanitizer(err: &str) -> Option<String> {
    if !err.contains("Sanitizer: ") {
        return None;
    }
    let m: String = err.lines().skip_while(|l| !l.contains("Sanitizer: ")).filter(|l| l.contains("Sanitizer") || l.trim_start().starts_with('#')).take(12).collect::<Vec<_>>().join(" / ");
    Some(format!("sanitizer report: {}", m.chars().take(1200).collect::<String>()))
}

/// Run one case alone, to tell a crash of the subject from a harness mishap.
fn confirm(p: &Prop, tier: &str, cs: u64, i: u64) -> Confirm {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("exe");
    // a case takes milliseconds: one that runs alone for a minute does not end
    let t0 = Instant::now();
    let o = std::process::Command::new("timeout").args(["-s", "KILL", "60"]).arg(exe).args(["one", p.id, tier, &cs.to_string(), &i.to_string()]).output();
    match o {
        // timeout kills itself along with the command when the signal is KILL
        Ok(o) if (o.status.signal() == Some(9) || o.status.code() == Some(137)) && t0.elapsed() >= Duration::from_secs(59) => Confirm::Hang,
        Ok(o) => match (o.status.code(), o.status.signal()) {
            (Some(1), _) => Confirm::Violation(String::from_utf8_lossy(&o.stdout).trim().to_string()),
            (_, Some(s)) if [4, 6, 7, 8, 11].contains(&s) => {
                let e = String::from_utf8_lossy(&o.stderr);
                let e: String = e.lines().filter(|l| !l.trim().is_empty()).take(12).collect::<Vec<_>>().join(" / ");
                Confirm::Crash(format!("the process died with signal {s}: {}", e.chars().take(800).collect::<String>()))
            }
            // AddressSanitizer and friends exit with their own code
            (Some(c), _) if c != 0 && c != 2 => {
                let e = String::from_utf8_lossy(&o.stderr);
                match sanitizer(&e) {
                    Some(m) => Confirm::Crash(m),
                    None => Confirm::Nothing,
                }
            }
            _ => Confirm::Nothing,
        },
        Err(_) => Confirm::Nothing,
    }
}

fn run(id: &str, a: Args) {
    let t0 = Instant::now();
    let p = find(id);
    let tier = a.get("--tier").unwrap_or("quick").to_string();
    let thorough = tier == "thorough";
    let seed = a.num("--seed", 1);
    let cases = a.num("--cases", if thorough { p.thorough } else { p.quick });
    let workers = a.num("--workers", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 8));
    let cap = a.num("--cap", if thorough { 480 } else { 150 });
    let dir = std::env::temp_dir().join(format!("vmon.{}.{}", std::process::id(), id));
    let _ = std::fs::create_dir_all(&dir);
    let exe = std::env::current_exe().expect("exe");
    let mut total = Stats::default();
    let mut running: Vec<(u64, std::process::Child, u64, Instant)> = Vec::new();
    for w in 0..workers {
        let err = std::fs::File::create(dir.join(format!("err.{w}"))).expect("err file");
        let c = std::process::Command::new(&exe)
            .args(["worker", p.id, "--w", &w.to_string(), "--n", &workers.to_string(), "--cases", &cases.to_string(), "--seed", &seed.to_string()])
            .args(["--tier", &tier, "--cap", &cap.to_string(), "--dir", &dir.to_string_lossy()])
            .stderr(err)
            .spawn()
            .expect("spawn");
        running.push((w, c, u64::MAX, Instant::now()));
    }
    let mut decided: Option<Instant> = None;
    while !running.is_empty() {
        std::thread::sleep(Duration::from_millis(15));
        let mut keep = Vec::new();
        for (w, mut c, mut last, mut since) in running {
            match c.try_wait() {
                Ok(Some(st)) => {
                    let out = std::fs::read(dir.join(format!("out.{w}"))).ok().and_then(|b| serde_json::from_slice::<Stats>(&b).ok());
                    match (st.success(), out) {
                        (true, Some(s)) => total.merge(s),
                        _ => {
                            let i = read_index(&dir, w).unwrap_or(u64::MAX);
                            let cs = case_seed(seed, p.id, i);
                            let err = std::fs::read(dir.join(format!("err.{w}"))).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
                            let verdict = match sanitizer(&err) {
                                Some(m) => Confirm::Crash(m),
                                None if i == u64::MAX || !total.violations.is_empty() => Confirm::Nothing,
                                None => confirm(&p, &tier, cs, i),
                            };
                            match verdict {
                                Confirm::Crash(m) | Confirm::Violation(m) => total.violations.push(Violation { property: p.id.into(), seed: cs, index: i, message: m }),
                                Confirm::Hang | Confirm::Nothing => total.harness_errors.push(format!("worker {w} ended with {st} at case {i} and the case alone does not reproduce it")),
                            }
                        }
                    }
                }
                Ok(None) => {
                    let i = read_index(&dir, w).unwrap_or(u64::MAX);
                    if i != last {
                        last = i;
                        since = Instant::now();
                    }
                    // one violation decides: the other workers get a little more time, to report theirs
                    if !total.violations.is_empty() && decided.get_or_insert_with(Instant::now).elapsed() > Duration::from_secs(20) {
                        let _ = c.kill();
                        let _ = c.wait();
                        continue;
                    }
                    let limit = if thorough { 240 } else { 60 };
                    if since.elapsed() > Duration::from_secs(limit) || t0.elapsed() > Duration::from_secs(cap + 120) {
                        let _ = c.kill();
                        let _ = c.wait();
                        let cs = case_seed(seed, p.id, i);
                        let stuck = since.elapsed() > Duration::from_secs(limit) && i != u64::MAX;
                        match if stuck && total.violations.is_empty() { confirm(&p, &tier, cs, i) } else { Confirm::Nothing } {
                            Confirm::Hang => total.violations.push(Violation { property: p.id.into(), seed: cs, index: i, message: "a call does not return: the case made no progress for a minute, twice".into() }),
                            Confirm::Crash(m) | Confirm::Violation(m) => total.violations.push(Violation { property: p.id.into(), seed: cs, index: i, message: m }),
                            Confirm::Nothing => total.harness_errors.push(format!("watchdog: no progress in case {i} for {limit} s (inconclusive)")),
                        }
                    } else {
                        keep.push((w, c, last, since));
                    }
                }
                Err(e) => total.harness_errors.push(format!("wait: {e}")),
            }
        }
        running = keep;
    }
    let _ = std::fs::remove_dir_all(&dir);

    // findings: listed ones are reported as such, others are violations
    let list = a.get("--known").and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
    let mut findings = Vec::new();
    for (key, n) in &total.known {
        let tag = format!("finding: property={} key={} ", p.id, key);
        match list.lines().find_map(|l| l.strip_prefix(&tag)) {
            Some(text) => findings.push(format!("KNOWN-FINDING: property={} {} [{} observed {n} times]", p.id, text, key)),
            None => total.violations.push(Violation { property: p.id.into(), seed: 0, index: 0, message: format!("failure of class {key}, observed {n} times, not listed in KNOWN_FINDINGS") }),
        }
    }

    // verdict
    total.violations.sort_by_key(|v| v.index);
    let mut missing = Vec::new();
    let full = a.get("--cases").is_none() && !total.capped;
    if full {
        for (k, min) in p.req {
            let have = total.counters.get(*k).copied().unwrap_or(0);
            if have < *min {
                missing.push(format!("{k}: {have} < {min}"));
            }
        }
    }
    if let Some(f) = a.get("--evidence") {
        let mut j = serde_json::json!({
            "property": p.id,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": total.cases,
                "distinct_nontrivial": total.shapes.len(),
                "rule": format!("Case i is generated from a hash of (seed, property, i) by structured generators (valid values, boundary values, mutated values); a case is non-trivial when every operation of the property ran on it, and distinct ones are counted by a hash of their structure (kinds, lengths classes, faults applied, verdicts or interleavings). Decision: {}", p.rule),
                "samples": total.samples,
                "oracle_comparisons": total.counters.get("oracle_checks").copied().unwrap_or(0),
                "observed": total.counters,
                "known_findings_observed": total.known,
                "required_minimum_observations": p.req.iter().map(|(k, n)| format!("{k}>={n}")).collect::<Vec<_>>(),
                "stopped_at_time_cap": total.capped,
                "inconclusive_because": total.harness_errors.iter().cloned().chain(missing.iter().cloned()).collect::<Vec<_>>(),
                "workers": workers,
            },
            "assumptions": p.assume,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": total.violations.len(),
        });
        // other stages of the same check, run before this one
        for (i, x) in a.0.iter().enumerate() {
            if x == "--attach" {
                let Some((name, file)) = a.0.get(i + 1).and_then(|s| s.split_once('=')) else { continue };
                let stage: serde_json::Value = std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
                let n = stage["coverage"]["evaluations"].as_u64().unwrap_or(0);
                j["coverage"]["stages"][name] = serde_json::json!({"coverage": stage["coverage"], "wall_s": stage["wall_s"], "violations": stage["violations"]});
                let total = j["coverage"]["evaluations"].as_u64().unwrap_or(0) + n;
                j["coverage"]["evaluations"] = total.into();
            }
        }
        if let Some(d) = Path::new(f).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(f, serde_json::to_string_pretty(&j).expect("json") + "\n").expect("evidence");
    }
    println!(
        "{}: {} cases, {} oracle comparisons, {} distinct shapes, {:.1}s{}",
        p.id,
        total.cases,
        total.counters.get("oracle_checks").copied().unwrap_or(0),
        total.shapes.len(),
        t0.elapsed().as_secs_f64(),
        if total.capped { " (time cap)" } else { "" }
    );
    if a.get("--verbose").is_some() {
        for (k, v) in &total.counters {
            println!("  {k} = {v}");
        }
    }
    for f in &findings {
        println!("{f}");
    }
    if !total.violations.is_empty() {
        let rd = PathBuf::from(a.get("--replays").unwrap_or("replays"));
        let _ = std::fs::create_dir_all(&rd);
        for v in total.violations.iter().take(5) {
            let f = rd.join(format!("{}-{:016x}.json", p.id, v.seed));
            let j = serde_json::json!({
                "property": p.id, "tier": tier, "verif_seed": seed, "case_seed": v.seed.to_string(), "index": v.index,
                "message": v.message,
                "how": "run.sh builds target/release/vmon; 'vmon replay <this file>' runs the case again",
            });
            let _ = std::fs::write(&f, serde_json::to_string_pretty(&j).unwrap_or_default());
            println!("  case {}: {}", v.index, v.message.chars().take(1500).collect::<String>());
            println!("VIOLATION property={} replay={}", p.id, f.display());
        }
        std::process::exit(1);
    }
    if !total.harness_errors.is_empty() || !missing.is_empty() {
        for e in total.harness_errors.iter().take(5) {
            println!("INCONCLUSIVE {}: {e}", p.id);
        }
        for m in &missing {
            println!("INCONCLUSIVE {}: required observation missing: {m}", p.id);
        }
        std::process::exit(2);
    }
}
