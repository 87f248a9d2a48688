//! Starts the workers of a check, collects what they did, reports and writes the evidence.

use crate::check::Violation;
use crate::{exec, sys, worker};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;

pub fn root() -> String {
    // .../target/sim/release/dynsim
    let p = std::env::current_exe().unwrap_or_default();
    p.ancestors().nth(4).map(|p| p.display().to_string()).unwrap_or_else(|| ".".into())
}

pub fn out_dir() -> String {
    let d = format!("{}/out", root());
    let _ = std::fs::create_dir_all(&d);
    d
}

pub fn seed() -> u64 {
    match std::env::var("VERIF_SEED") {
        Ok(s) => s.trim().parse().unwrap_or_else(|_| crate::rng::hash_bytes(0, s.as_bytes()) >> 1),
        Err(_) => 1,
    }
}

/// finding: property=C01 class=result match=<part of the detail> ## what it is
pub struct Known(Vec<(String, String, String, String)>);

impl Known {
    pub fn read() -> Known {
        let t = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
        let mut v = vec![];
        for l in t.lines() {
            let Some(l) = l.strip_prefix("finding: ") else { continue };
            let field = |k: &str| l.split(' ').find_map(|w| w.strip_prefix(k)).unwrap_or("").to_string();
            let (l2, what) = l.split_once(" ## ").unwrap_or((l, l));
            let m = l2.split_once("match=").map_or("", |x| x.1).to_string();
            v.push((field("property="), field("class="), m, what.to_string()));
        }
        Known(v)
    }
    pub fn matches(&self, prop: &str, x: &Violation) -> bool {
        self.0.iter().any(|k| k.0 == prop && k.1 == x.class && !k.2.is_empty() && x.detail.contains(&k.2))
    }
}

fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap_or_else(|e| crate::harness_error(&format!("own path: {}", e)))
}

/// Does the file show its violation in a new process?
pub fn replays(path: &str) -> bool {
    let st = Command::new(exe()).args(["replay", path]).env_clear().stdout(Stdio::null()).stderr(Stdio::null()).status();
    matches!(st.map(|s| s.code()), Ok(Some(1)))
}

pub fn replay(file: &str) -> i32 {
    worker::prepare();
    if std::env::var_os("DYNSIM_AGAIN").is_none() {
        // the limits hold for the processes started from now on
        let st = Command::new(exe()).args(["replay", file]).env_clear().env("DYNSIM_AGAIN", "1").status();
        return st.ok().and_then(|s| s.code()).unwrap_or(2);
    }
    let t = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => crate::harness_error(&format!("{}: {}", file, e)),
    };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let (prop, class) = (get("PROPERTY "), get("CLASS "));
    if class == "trait" {
        for (p, what, ok) in exec::sync_traits() {
            if p == prop && !ok {
                println!("VIOLATION property={} replay={}\ntrait: not so: {}", prop, file, what);
                return 1;
            }
        }
        println!("no violation");
        return 0;
    }
    let (kind, body) = match (t.find("\nPLAN "), t.find("\nGPLAN ")) {
        (Some(i), _) => ("PLAN", &t[i + 6..]),
        (_, Some(i)) => ("GPLAN", &t[i + 7..]),
        _ => crate::harness_error("no plan in the replay file"),
    };
    match worker::replay(&prop, &class, kind, body) {
        Err(e) => crate::harness_error(&format!("{}: {}", file, e)),
        Ok(None) => {
            println!("no violation");
            0
        }
        Ok(Some(v)) => {
            println!("VIOLATION property={} replay={}\n{}: {}", prop, file, v.class, v.detail);
            if v.class == class {
                1
            } else {
                3
            }
        }
    }
}

#[derive(Default)]
struct All {
    n: BTreeMap<String, u64>,
    max: BTreeMap<String, u64>,
    kinds: BTreeMap<String, u64>,
    ops: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    cov: Vec<u8>,
    pairs: Vec<u8>,
    sigs: HashSet<u64>,
    dist: HashSet<u64>,
    samples: Vec<String>,
    known: BTreeSet<String>,
    violations: Vec<(String, String)>,
    ended: usize,
}

fn or_hex(v: &mut Vec<u8>, s: &str) {
    for (i, c) in s.chars().enumerate() {
        if v.len() <= i {
            v.push(0);
        }
        v[i] |= c.to_digit(16).unwrap_or(0) as u8;
    }
}

fn ones(v: &[u8]) -> u64 {
    v.iter().map(|x| x.count_ones() as u64).sum()
}

impl All {
    fn line(&mut self, prop: &str, l: &str) {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        let pair = || {
            let (a, b) = rest.split_once(' ').unwrap_or((rest, ""));
            (a.to_string(), b.to_string())
        };
        match k {
            "N" => {
                let (a, b) = pair();
                let e = self.n.entry(a).or_default();
                *e = e.saturating_add(b.parse().unwrap_or(0));
            }
            "MAX" => {
                let (a, b) = pair();
                let e = self.max.entry(a).or_default();
                *e = (*e).max(b.parse().unwrap_or(0));
            }
            "KIND" | "OP" | "PROBE" => {
                let (a, b) = pair();
                let m = match k {
                    "KIND" => &mut self.kinds,
                    "OP" => &mut self.ops,
                    _ => &mut self.probes,
                };
                *m.entry(b).or_default() += a.parse::<u64>().unwrap_or(0);
            }
            "COV" => or_hex(&mut self.cov, rest),
            "PAIRS" => or_hex(&mut self.pairs, rest),
            "SIG" => self.sigs.extend(rest.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok())),
            "DIST" => self.dist.extend(rest.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok())),
            "SAMPLE" => self.samples.push(rest.to_string()),
            "KNOWN" => {
                self.known.insert(rest.to_string());
            }
            "VIOLATION" => {
                let (a, b) = pair();
                self.violations.push((a, b));
            }
            "TRAIT" => {
                let path = format!("{}/{}-trait.replay", out_dir(), prop);
                worker::write_file(&path, &format!("# not so any more: {}\nPROPERTY {}\nCLASS trait\n", rest, prop));
                self.violations.push((path, format!("trait not so any more: {}", rest)));
            }
            "END" => self.ended += 1,
            _ => {}
        }
    }
    fn n(&self, k: &str) -> u64 {
        self.n.get(k).copied().unwrap_or(0)
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn map_js(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" | "C02" | "C05" | "C06" | "C07" | "C13" | "C14" => "A run is a seeded plan (rule sets, texts, calls per thread, environment, scheduling policy) executed under the simulator. Non-trivial: at least one thread was suspended inside a library call while another ran, and at least one outcome was compared with the oracle. Distinct: by hash of all scheduling decisions, outcomes and step counts.",
        "C03" => "A run is a seeded history of calls on one or several threads. Non-trivial: some call followed at least one other and was compared with the same call alone in a fresh process. Distinct: by hash of decisions, outcomes and step counts.",
        "C04" => "A run is a seeded plan executed in at least three environments (hash seeds, clocks, allocator layout). Non-trivial: outcomes were compared across environments. Distinct: by hash of decisions, outcomes and step counts.",
        "C08" => "A run is the real generator program under one seeded sequence of write faults. Non-trivial: at least one fault fired. Distinct: by hash of the sequence of writes, fired faults and exit status.",
        "C09" => "A run is a seeded plan in which callers are suspended inside calls, until the others cannot go on or for ever. Non-trivial: at least one caller was stalled and outcomes of others were compared. Distinct: by hash of decisions, outcomes and step counts.",
        "C10" => "A case is a seeded plan with one allocation (or a window of them, or all beyond a limit) failing. Non-trivial: an allocation did fail. Distinct: by hash of decisions, outcomes and step counts.",
        "C11" => "A run is a long seeded history whose retained memory is taken between rounds. Non-trivial: retained memory was compared over at least six rounds. Distinct: by hash of decisions, outcomes and step counts.",
        _ => "A run is a seeded plan with long flat inputs on small stacks, or pairs of inputs of different length whose stack use is measured. Non-trivial: outcomes or stack use were compared. Distinct: by hash of decisions, outcomes and step counts.",
    }
}

fn evidence(prop: &str, tier: &str, a: &All, wall: f64, explored: f64, workers: usize) -> String {
    let mut c: Vec<(String, String)> = vec![];
    let mut put = |k: &str, v: String| c.push((k.to_string(), v));
    let rate = |x: u64| ((x as f64) * 3600.0 / explored.max(0.001)) as u64;
    put("evaluations", a.n("plans").to_string());
    put("distinct_nontrivial", a.dist.len().to_string());
    put("rule", js(rule(prop)));
    put("samples", format!("[{}]", a.samples.iter().take(6).map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    put("simulated_processes", a.n("runs").to_string());
    put("seeds_per_hour", rate(a.n("plans")).to_string());
    put("simulated_runs_per_hour", rate(a.n("runs")).to_string());
    put("workers", workers.to_string());
    put("outcomes_compared", a.n("compared").to_string());
    if prop != "C08" {
        put("library_calls", a.n("calls").to_string());
        put("calls_by_operation", map_js(&a.ops));
        put("runs_by_kind", map_js(&a.kinds));
        put("outcomes", format!("{{\"success\": {}, \"error\": {}, \"of these from error(...)\": {}, \"not judged (too much work for the oracle)\": {}}}", a.n("ok"), a.n("err"), a.n("critical"), a.n("skipped")));
        put("most_threads_in_a_run", a.max.get("threads").copied().unwrap_or(0).to_string());
        put("simulated_steps", a.n("steps").to_string());
        put("simulated_seconds", format!("{:.3}", a.n("sim_ns") as f64 / 1e9));
        put("distinct_interleavings", a.sigs.len().to_string());
        put("distinct_interleavings_measure", js("hash of the sequence of (thread, call, step, next thread) of all switches of a run"));
        put("suspension_pairs_reached", ones(&a.pairs).to_string());
        put("suspension_pairs_measure", js("hashed pairs (edge at which a thread was suspended, edge at which the next one had been)"));
        let mut f: BTreeMap<String, u64> = BTreeMap::new();
        for (k, n) in [
            ("thread suspended inside a call", "preempts"),
            ("switches in all", "switches"),
            ("caller stalled until the others cannot go on", "stalls"),
            ("caller never scheduled again", "forever"),
            ("clock jump", "clock_jumps"),
            ("spurious wakeup", "spurious"),
            ("allocation failed", if prop == "C10" { "fail_fired" } else { "alloc_failed" }),
            ("process aborted on a failed allocation", "aborts"),
            ("memory block reused after release", "reused"),
        ] {
            f.insert(k.into(), a.n(n));
        }
        put("faults_fired", map_js(&f));
        let mut f: BTreeMap<String, u64> = BTreeMap::new();
        for (k, n) in [
            ("clock reads", "clock_reads"),
            ("requests for randomness (hash seeds)", "randoms"),
            ("futex waits", "futex_waits"),
            ("threads started by the library", "threads_made"),
            ("accesses to changing static data", "statics"),
            ("accesses to heap words another thread had used, one of them a write", "conflicts"),
            ("allocations", "allocs"),
        ] {
            f.insert(k.into(), a.n(n));
        }
        put("seams_used", map_js(&f));
    } else {
        put("program_runs", a.n("program_runs").to_string());
        put("writes_seen", a.n("writes").to_string());
        put("faults_fired", map_js(&a.probes));
        put("distinct_write_histories", a.sigs.len().to_string());
        put("texts_read_with_generated_and_own_rules", a.n("texts_compared").to_string());
    }
    put("library_edges", format!("{{\"reached\": {}, \"instrumented\": {}}}", ones(&a.cov), a.max.get("guards").copied().unwrap_or(0)));
    put("repeatability", format!("{{\"runs made twice\": {}, \"of these different\": {}, \"violations that did not occur again\": {}}}", a.n("redone"), a.n("mismatch"), a.n("unreproduced")));
    put("components", if prop == "C08" {
        js("real: the generator program as cargo builds it, the standard library's output buffering, the library under the simulator for the reading comparison; stub: write(2), writev(2) and getrandom(2) of the program (LD_PRELOAD)")
    } else {
        js("real: all of dynparser and idata, compiled from the working tree with callbacks at every edge, load and store; the standard library; threads (one runs at a time); stub: scheduler, futexes, clocks, sleeping, randomness, process id, output, memory allocator, stack placement")
    });
    let cov: Vec<String> = c.iter().map(|(k, v)| format!("    {}: {}", js(k), v)).collect();
    let mut assume = vec![
        "Sampling: what the seeds of this run did not reach is not decided.".to_string(),
    ];
    if prop != "C08" {
        assume.push("Memory is sequentially consistent: one thread runs at a time, so effects of weaker orderings of the hardware are not simulated.".into());
        assume.push("Threads are suspended at edges, loads and stores of dynparser and idata, at allocations and at system calls, not at single instructions of the standard library.".into());
    }
    match prop {
        "C01" | "C02" | "C05" | "C06" | "C13" | "C14" | "C12" => assume.push("The reference model (sim/src/model.rs) states the intended semantics.".into()),
        "C07" | "C08" => assume.push("The reader of generated code (sim/src/gread.rs) reads it as rustc and the crate's macros would.".into()),
        _ => {}
    }
    let assume: Vec<String> = assume.iter().map(|s| format!("    {}", js(s))).collect();
    format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n{}\n  }},\n  \"assumptions\": [\n{}\n  ],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        js(prop), js(tier), seed(), cov.join(",\n"), assume.join(",\n"), wall, a.violations.len()
    )
}

pub fn check(prop: &str) -> i32 {
    let t0 = sys::real_now();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    if !["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"].contains(&prop) {
        crate::harness_error("no such property");
    }
    worker::prepare();
    let cpus = std::thread::available_parallelism().map_or(1, |n| n.get());
    let workers = cpus.clamp(2, 16);
    let (secs, least) = match (tier, prop) {
        ("quick", "C08") => (20.0, 20),
        ("quick", "C12") => (40.0, 20),
        ("quick", _) => (40.0, 40),
        (_, "C08") => (200.0, 500),
        _ => (600.0, 400),
    };
    let secs: f64 = std::env::var("DYNSIM_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(secs);
    let (tx, rx) = mpsc::channel::<Option<String>>();
    let mut kids: Vec<Child> = vec![];
    for w in 0..workers {
        let args = [
            "worker".to_string(),
            prop.to_string(),
            seed().to_string(),
            tier.to_string(),
            w.to_string(),
            workers.to_string(),
            secs.to_string(),
            least.to_string(),
        ];
        let times = std::env::var_os("DYNSIM_TIMES").map(|v| ("DYNSIM_TIMES", v));
        let mut k = match Command::new(exe()).args(args).env_clear().envs(times).stdin(Stdio::null()).stdout(Stdio::piped()).spawn() {
            Ok(k) => k,
            Err(e) => crate::harness_error(&format!("cannot start a worker: {}", e)),
        };
        let o = k.stdout.take().unwrap();
        kids.push(k);
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines() {
                match l {
                    Ok(l) => {
                        let _ = tx.send(Some(l));
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send(None);
        });
    }
    let mut a = All::default();
    let mut open = workers;
    let mut stopped = false;
    while open > 0 {
        match rx.recv() {
            Ok(Some(l)) => {
                let had = a.violations.len();
                a.line(prop, &l);
                if a.violations.len() > had && !l.starts_with("TRAIT") && !stopped {
                    // the others' counts are lost with them
                    stopped = true;
                    for k in &mut kids {
                        let _ = k.kill();
                    }
                }
            }
            Ok(None) => open -= 1,
            Err(_) => break,
        }
    }
    let mut broken = vec![];
    for k in &mut kids {
        if let Ok(s) = k.wait() {
            if s.code() != Some(0) && !stopped {
                broken.push(format!("{}", s));
            }
        }
    }
    let wall = sys::real_now() - t0;
    let ev = evidence(prop, tier, &a, wall, wall, workers);
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    worker::write_file(&format!("{}/{}.json", dir, prop), &ev);
    for k in &a.known {
        println!("KNOWN-FINDING: property={} {}", prop, k);
    }
    if let Some((path, what)) = a.violations.first() {
        println!("VIOLATION property={} replay={}", prop, path);
        println!("{}", what);
        return 1;
    }
    if !broken.is_empty() || a.ended != workers {
        crate::harness_error(&format!("a worker failed: {}", broken.join(", ")));
    }
    if a.n("mismatch") > 0 {
        eprintln!("dynsim: {} of {} repeated runs were different", a.n("mismatch"), a.n("redone"));
    }
    println!(
        "{}: held in {} runs ({} distinct and non-trivial, {} simulated processes, {} outcomes compared) in {:.1} s",
        prop, a.n("plans"), a.dist.len(), a.n("runs"), a.n("compared"), wall
    );
    0
}
