//! Explores a share of the runs of one property.

use crate::check::{op_name, Checker, Violation};
use crate::exec::{self, Res};
use crate::genprog::{self, GPlan};
use crate::model::{self, Map};
use crate::plan::*;
use crate::plans::{self, Mk};
use crate::rng::{hash_bytes, mix, Rng};
use crate::ser::{Rd, Ser};
use crate::{coord, sched, shrink, sys};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;

pub fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(hash_bytes(seed, prop.as_bytes()) ^ mix(i))
}

/// Stack for the model, addresses as alike as possible; for this process and those it starts.
pub fn prepare() {
    unsafe {
        for mb in [2048u64, 1024, 512] {
            if sys::setrlimit(3, &[mb << 20, mb << 20]) == 0 {
                break;
            }
        }
        sys::personality(0x0040000);
    }
}

fn pin(w: usize) {
    unsafe {
        let mut m = [0u8; 128];
        if sys::sched_getaffinity(0, 128, m.as_mut_ptr()) < 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|i| m[i / 8] & (1 << (i % 8)) != 0).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[w % cpus.len()];
        let mut m = [0u8; 128];
        m[c / 8] |= 1 << (c % 8);
        sys::sched_setaffinity(0, 128, m.as_ptr());
    }
}

pub fn make(ck: &mut Checker, prop: &str, seed: u64, thorough: bool) -> Plan {
    let notation: Map = ck.notation.clone();
    let mut mk = Mk { notation: &notation, runner: &mut ck.runner, thorough };
    plans::make(&mut mk, prop, seed)
}

/// Finds out which static data changes, so that accesses to it count as shared from the first
/// one on. A fixed set of runs: what is explored afterwards depends on seed and code only.
pub fn calibrate(ck: &mut Checker, prop: &str) {
    for i in 0..16 {
        let p = make(ck, prop, run_seed(0xCA11B, prop, i), false);
        ck.runner.run(&p);
    }
    ck.runner.freeze();
}

fn nontrivial(p: &Plan, r: &Res, before: u64, after: u64) -> bool {
    let compared = after > before;
    match p.prop.as_str() {
        "C01" | "C02" | "C05" | "C06" | "C07" | "C13" | "C14" => compared && r.st.preempts > 0,
        "C03" => compared && r.recs.len() > 1,
        "C09" => compared && r.st.stalls + r.st.forever > 0,
        "C10" => r.st.alloc_failed > 0 || r.signal != 0,
        _ => compared,
    }
}

pub fn describe(p: &Plan) -> String {
    let mut o = format!("{} kind={} seed={:x}", p.prop, p.kind, p.seed);
    for (i, t) in p.threads.iter().enumerate().take(4) {
        let mut n: BTreeMap<&str, usize> = BTreeMap::new();
        for x in &t.ops {
            *n.entry(op_name(x)).or_default() += 1;
        }
        o.push_str(&format!(" | thread {}", i));
        if let Some(a) = t.after {
            o.push_str(&format!(" (after {})", a));
        }
        for (k, v) in n {
            o.push_str(&format!(" {}x{}", v, k));
        }
    }
    if p.threads.len() > 4 {
        o.push_str(&format!(" | {} more threads", p.threads.len() - 4));
    }
    if let Some(t) = p.texts.iter().find(|t| !t.is_empty()) {
        o.push_str(&format!(" | a text: {:?}", t.chars().take(60).collect::<String>()));
    }
    o
}

fn line(o: &mut impl Write, s: &str) {
    let _ = writeln!(o, "{}", s);
}

fn hex_bits(b: &[u8]) -> String {
    let mut o = String::new();
    for c in b.chunks(4) {
        let mut v = 0;
        for (i, x) in c.iter().enumerate() {
            v |= ((*x != 0) as u8) << i;
        }
        o.push(char::from_digit(v as u32, 16).unwrap());
    }
    o
}

/// args: property, seed, tier, worker, workers, seconds, runs at least
pub fn main(a: &[&str]) -> i32 {
    let [prop, seed, tier, w, n, secs, least] = a else { return 2 };
    let (seed, w, n): (u64, u64, u64) = (seed.parse().unwrap(), w.parse().unwrap(), n.parse().unwrap());
    let secs: f64 = secs.parse().unwrap();
    let least: u64 = least.parse().unwrap();
    let thorough = *tier == "thorough";
    unsafe { sys::prctl(1, 9, 0, 0, 0) };
    pin(w as usize);
    let t0 = sys::real_now();
    if *prop == "C08" {
        return programs(seed, w, n, t0 + secs, least, thorough);
    }
    let mut out = std::io::stdout().lock();
    let mut ck = Checker::new();
    let known = coord::Known::read();
    for (p, what, ok) in exec::sync_traits() {
        if p == *prop && !ok && w == 0 {
            line(&mut out, &format!("TRAIT {}", what));
        }
    }
    calibrate(&mut ck, prop);
    let mut distinct: HashSet<u64> = HashSet::new();
    let (mut checked, mut mismatch, mut unrepro) = (0u64, 0u64, 0u64);
    let mut i = w;
    let mut done = 0;
    let mut maxthr = 0;
    let times = std::env::var_os("DYNSIM_TIMES").is_some();
    while done < least || sys::real_now() - t0 < secs {
        if done > 0 && sys::real_now() - t0 > secs * 3.0 + 60.0 {
            break; // much slower than usual: no answer is worse than fewer runs
        }
        let mut todo = vec![make(&mut ck, prop, run_seed(seed, prop, i), thorough)];
        let mut found = false;
        let mut nth = 0;
        while let Some(p) = todo.pop() {
            maxthr = maxthr.max(p.threads.len());
            let before = ck.tot.compared;
            let start = sys::real_now();
            let (v, res) = ck.check(&p);
            if times {
                eprintln!("TIME {} {} {:.3} steps {}", prop, p.kind.replace(' ', "_"), sys::real_now() - start, res.st.steps);
            }
            if nontrivial(&p, &res, before, ck.tot.compared) {
                distinct.insert(res.log_hash());
            }
            if done < 2 && w < 3 && nth == 0 {
                line(&mut out, &format!("SAMPLE run {}: {}; steps={} switches={} stalls={} allocation failures={}", i, describe(&p), res.st.steps, res.st.switches, res.st.stalls + res.st.forever, res.st.alloc_failed));
            }
            if let Some(v) = v {
                if known.matches(prop, &v) {
                    line(&mut out, &format!("KNOWN {} {}", v.class, v.detail.replace('\n', " ")));
                } else if report(&mut ck, &p, &v, &res, thorough, &mut out) {
                    found = true;
                    break;
                } else {
                    unrepro += 1;
                    eprintln!("dynsim: a violation of {} in run {} did not occur again: {} {}", prop, i, v.class, v.detail);
                }
            } else if done % 29 == 7 && p.prop != "C10" {
                // the same run again
                checked += 1;
                let again = ck.runner.run(&p);
                if again.status != sched::STUCK && again.log_hash() != res.log_hash() {
                    mismatch += 1;
                    eprintln!("dynsim: run {} of {} is not repeatable", i, prop);
                }
            }
            let hots = res.st.hots.max(res.st.statics);
            if nth == 0 && hots > 0 && p.threads.len() > 1 {
                // threads share state: again, with a caller suspended right at such an access
                let mut r = Rng::new(p.seed ^ 0x407);
                for k in 0..hots.min(8) {
                    let mut q = p.clone();
                    q.kind = format!("{}, at shared state", p.kind);
                    q.pol.hot1 = 1 + r.u64() % hots;
                    q.pol.hot2 = if r.chance(50) { q.pol.hot1 + r.logu(hots) } else { 0 };
                    q.pol.pconf = 0;
                    q.pol.pstall = 0;
                    if k % 2 == 0 {
                        q.pol.mean = 0;
                    }
                    todo.push(q);
                }
                for k in 0..(hots / 8).min(8) {
                    // or with many switches there
                    let mut q = p.clone();
                    q.kind = format!("{}, switching at shared state", p.kind);
                    q.pol.hot1 = if k % 4 == 3 { 1 + r.u64() % hots } else { 0 };
                    q.pol.hot2 = 0;
                    q.pol.pconf = *r.pick(&[10u8, 25, 50]);
                    q.pol.mean = 0;
                    todo.push(q);
                }
            }
            nth += 1;
        }
        if found {
            break;
        }
        i += n;
        done += 1;
    }
    let t = &ck.tot;
    let s = &t.st;
    let nums: Vec<(&str, u64)> = vec![
        ("plans", t.plans),
        ("runs", ck.runner.runs),
        ("calls", t.calls),
        ("compared", t.compared),
        ("skipped", t.skipped),
        ("ok", t.ok_outcomes),
        ("err", t.err_outcomes),
        ("critical", t.crit_outcomes),
        ("steps", s.steps),
        ("switches", s.switches),
        ("preempts", s.preempts),
        ("stalls", s.stalls),
        ("forever", s.forever),
        ("clock_jumps", s.clock_jumps),
        ("clock_reads", s.clock_reads),
        ("randoms", s.randoms),
        ("futex_waits", s.futex_waits),
        ("statics", s.statics),
        ("conflicts", s.conflicts),
        ("spurious", s.spurious),
        ("threads_made", s.threads_made),
        ("sim_ns", s.sim_ns),
        ("allocs", s.allocs),
        ("reused", s.reused),
        ("alloc_failed", s.alloc_failed),
        ("fail_fired", t.fail_fired),
        ("aborts", t.aborts),
        ("panics", t.panics),
        ("redone", checked),
        ("mismatch", mismatch),
        ("unreproduced", unrepro),
    ];
    for (k, v) in nums {
        line(&mut out, &format!("N {} {}", k, v));
    }
    line(&mut out, &format!("MAX threads {}", maxthr));
    for (k, v) in &t.kinds {
        line(&mut out, &format!("KIND {} {}", v, k));
    }
    for (k, v) in &t.ops {
        line(&mut out, &format!("OP {} {}", v, k));
    }
    for (k, v) in &t.probes {
        line(&mut out, &format!("PROBE {} {}", v, k));
    }
    let (cov, pairs, guards) = ck.runner.cov();
    line(&mut out, &format!("MAX guards {}", guards));
    line(&mut out, &format!("COV {}", hex_bits(cov)));
    line(&mut out, &format!("PAIRS {}", hex_bits(pairs)));
    hashes(&mut out, "SIG", &t.sigs);
    hashes(&mut out, "DIST", &distinct);
    line(&mut out, "END");
    0
}

fn hashes(out: &mut impl Write, k: &str, s: &HashSet<u64>) {
    let v: Vec<&u64> = s.iter().collect();
    for c in v.chunks(500) {
        let t: Vec<String> = c.iter().map(|x| format!("{:x}", x)).collect();
        line(out, &format!("{} {}", k, t.join(" ")));
    }
}

/// Shrinks, writes the replay file and tries it in a new process.
fn report(ck: &mut Checker, p: &Plan, v: &Violation, res: &Res, thorough: bool, out: &mut impl Write) -> bool {
    let first = format!("{}/{}-{:x}-first.replay", coord::out_dir(), p.prop, p.seed);
    let small = format!("{}/{}-{:x}.replay", coord::out_dir(), p.prop, p.seed);
    // as it was found, by its recorded decisions
    let mut q = p.clone();
    if res.decs.len() < sched::MAXDEC && q.prop != "C04" {
        q.replay = true;
        q.decs = res.decs.clone();
    }
    let again = ck.check(p).0;
    if again.as_ref().map(|a| &a.class) != Some(&v.class) {
        return false;
    }
    let s = shrink::shrink(ck, p, v, res, if thorough { 120.0 } else { 40.0 });
    let mut what = format!("found in run with seed {:x} of kind {}; {} runs to make it smaller", p.seed, p.kind, s.evals);
    if !s.exact {
        what.push_str("; by seed, not by decisions");
    }
    write_replay(&small, &s.plan, &s.violation, &what);
    if coord::replays(&small) {
        line(out, &format!("VIOLATION {} {} {}", small, s.violation.class, s.violation.detail.replace('\n', "\\n")));
        return true;
    }
    for q in [q, p.clone()] {
        write_replay(&first, &q, v, "not made smaller");
        if coord::replays(&first) {
            line(out, &format!("VIOLATION {} {} {}", first, v.class, v.detail.replace('\n', "\\n")));
            return true;
        }
    }
    false
}

fn dec_name(k: u8) -> &'static str {
    match k {
        sched::D_SWITCH => "switch to",
        sched::D_FORCED => "go on with",
        sched::D_STALL => "stalled; go on with",
        sched::D_FOREVER => "never scheduled again; go on with",
        sched::D_CLOCK => "clock jump",
        _ => "spurious wakeup",
    }
}

/// The plan for people, in comment lines.
fn explain(p: &Plan, o: &mut String) {
    for (i, g) in p.grams.iter().enumerate() {
        if !g.rules.is_empty() {
            o.push_str(&format!("# rules {}:\n", i));
            for l in model::render_map(&g.map()).lines() {
                o.push_str(&format!("#   {}\n", l));
            }
        }
    }
    for (i, t) in p.texts.iter().enumerate() {
        if !t.is_empty() {
            o.push_str(&format!("# text {}: {}\n", i, crate::check::cut(&format!("{:?}", t))));
        }
    }
    for (i, t) in p.threads.iter().enumerate() {
        o.push_str(&format!("# thread {}{}:\n", i, t.after.map_or(String::new(), |a| format!(", started when thread {} has ended", a))));
        for (j, x) in t.ops.iter().enumerate().take(60) {
            o.push_str(&format!("#   call {}: {:?}\n", j, x));
        }
        if t.ops.len() > 60 {
            o.push_str(&format!("#   ... {} calls\n", t.ops.len()));
        }
    }
    for d in p.decs.iter().take(200) {
        let op = if d.op == u32::MAX { "-".to_string() } else { d.op.to_string() };
        o.push_str(&format!("# thread {} call {} step {}: {} {}\n", d.thr, op, d.step, dec_name(d.kind), if d.kind == sched::D_CLOCK { d.arg } else { d.target as i64 }));
    }
    for f in &p.fails {
        o.push_str(&format!("# thread {} call {}: allocation {} fails ({} in all)\n", f.thr, f.op, f.k + 1, f.n));
    }
}

fn head(prop: &str, v: &Violation, what: &str) -> String {
    let mut o = String::from("# dynsim replay; run with: /verif/sim/replay.sh FILE\n");
    o.push_str(&format!("# {}\n", what.replace('\n', " ")));
    o.push_str(&format!("# {}\n", v.detail.replace('\n', "\\n")));
    o.push_str(&format!("PROPERTY {}\nCLASS {}\n", prop, v.class));
    o
}

pub fn write_file(path: &str, t: &str) {
    if let Err(e) = std::fs::write(path, t) {
        crate::harness_error(&format!("cannot write {}: {}", path, e));
    }
}

fn write_replay(path: &str, p: &Plan, v: &Violation, what: &str) {
    let mut o = head(&p.prop, v, what);
    explain(p, &mut o);
    o.push_str("PLAN ");
    p.ser(&mut o);
    o.push('\n');
    write_file(path, &o);
}

pub fn show(prop: &str, n: &str) -> i32 {
    let mut ck = Checker::new();
    calibrate(&mut ck, prop);
    let p = make(&mut ck, prop, run_seed(coord::seed(), prop, n.parse().unwrap_or(0)), false);
    let mut o = String::new();
    explain(&p, &mut o);
    println!("{}\n{}{:?}", describe(&p), o, p.pol);
    let (v, res) = ck.check(&p);
    println!("{:?}\n{:?}\n{:?}", v, res.st, res.decs.len());
    0
}

// ------------------------------------------------------------------ the generator program

pub fn program_dir() -> String {
    format!("{}/target/program", coord::root())
}

fn programs(seed: u64, w: u64, n: u64, end: f64, least: u64, thorough: bool) -> i32 {
    let mut out = std::io::stdout().lock();
    let mut runner = exec::Runner::new();
    let mut g = genprog::Gen::new(&program_dir());
    let notation = model::notation();
    let known = coord::Known::read();
    let size = g.size() as u64;
    let mut i = w;
    let mut done = 0;
    let mut redone = 0u64;
    let mut mismatch = 0u64;
    while done < least || sys::real_now() < end {
        let p = genprog::make(run_seed(seed, "C08", i), &notation, size);
        let v = g.check(&p, &mut runner);
        if done < 2 && w < 3 {
            line(&mut out, &format!("SAMPLE run {}: {:?} limit={} ({}) hash seed={} text compared={:?}", i, p.faults, if p.limit == u64::MAX { "none".into() } else { p.limit.to_string() }, p.limit_kind, p.hash_seed, p.text.chars().take(60).collect::<String>()));
        }
        if let Some(v) = v {
            if known.matches("C08", &v) {
                line(&mut out, &format!("KNOWN {} {}", v.class, v.detail.replace('\n', " ")));
            } else {
                let (q, v) = genprog::shrink(&mut g, &mut runner, &p, &v, sys::real_now() + if thorough { 120.0 } else { 40.0 });
                let mut o = head("C08", &v, &format!("found in run with seed {:x}", p.seed));
                o.push_str(&format!("# faults {:?}, limit {} {}\n", q.faults, q.limit, q.limit_kind));
                o.push_str("GPLAN ");
                q.ser(&mut o);
                let path = format!("{}/C08-{:x}.replay", coord::out_dir(), p.seed);
                write_file(&path, &o);
                if coord::replays(&path) {
                    line(&mut out, &format!("VIOLATION {} {} {}", path, v.class, v.detail.replace('\n', "\\n")));
                    break;
                }
                eprintln!("dynsim: a violation of C08 did not occur again: {} {}", v.class, v.detail);
            }
        } else if done % 29 == 7 {
            redone += 1;
            mismatch += !g.repeats(&p) as u64;
        }
        i += n;
        done += 1;
    }
    let (fired, nf): (Vec<_>, u64) = (g.fired.iter().collect(), g.fired.values().sum());
    for (k, v) in [
        ("plans", done),
        ("runs", g.runs + runner.runs),
        ("program_runs", g.runs),
        ("compared", done),
        ("writes", g.writes),
        ("faults", nf),
        ("texts_compared", g.compared_texts),
        ("redone", redone),
        ("mismatch", mismatch),
    ] {
        line(&mut out, &format!("N {} {}", k, v));
    }
    for (k, v) in fired {
        line(&mut out, &format!("PROBE {} write fault: {}", v, k));
    }
    for (k, v) in &g.exits {
        line(&mut out, &format!("PROBE {} program runs with exit status {}", v, k));
    }
    let (cov, pairs, guards) = runner.cov();
    line(&mut out, &format!("MAX guards {}", guards));
    line(&mut out, &format!("COV {}", hex_bits(cov)));
    line(&mut out, &format!("PAIRS {}", hex_bits(pairs)));
    hashes(&mut out, "SIG", &g.distinct);
    hashes(&mut out, "DIST", &g.nontrivial);
    line(&mut out, "END");
    0
}

// ------------------------------------------------------------------ replay

pub fn replay(prop: &str, class: &str, kind: &str, body: &str) -> Result<Option<Violation>, String> {
    let mut r = Rd::new(body);
    let _ = class;
    if kind == "GPLAN" {
        let p = GPlan::de(&mut r)?;
        let mut g = genprog::Gen::new(&program_dir());
        let mut runner = exec::Runner::new();
        return Ok(g.check(&p, &mut runner));
    }
    let p = Plan::de(&mut r)?;
    if p.prop != prop {
        return Err("property and plan differ".into());
    }
    let mut ck = Checker::new();
    if !p.replay {
        calibrate(&mut ck, prop);
    }
    Ok(ck.check(&p).0)
}
