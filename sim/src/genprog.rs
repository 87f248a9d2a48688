//! C08: the generator program, run with its output and randomness behind a seam
//! (preload/preload.c), under seeded sequences of write faults.

use crate::check::{cut, Violation};
use crate::exec::Runner;
use crate::gen;
use crate::model::{Gram, Map};
use crate::plan::{Op, Plan, Thread, STACK};
use crate::rng::{hash_bytes, Rng};
use crate::{gread, ser_struct};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Read;
use std::process::{Command, Stdio};

/// what happens to the `at`-th write to the standard output
#[derive(Clone, Debug, PartialEq)]
pub struct WFault {
    pub at: u64,
    pub kind: String, // short, eintr, eagain, epipe, enospc, eio, zero
    pub arg: u64,
}
ser_struct!(WFault { at, kind, arg });

#[derive(Clone, Debug, PartialEq)]
pub struct GPlan {
    pub seed: u64,
    pub hash_seed: u64,
    pub faults: Vec<WFault>,
    /// bytes after which the output takes no more
    pub limit: u64,
    pub limit_kind: String,
    /// text in the notation, for the question whether the output denotes the library's rules
    pub text: String,
}
ser_struct!(GPlan { seed, hash_seed, faults, limit, limit_kind, text });

fn errno(k: &str) -> i32 {
    match k {
        "eintr" => 4,
        "eio" => 5,
        "eagain" => 11,
        "enospc" => 28,
        "epipe" => 32,
        _ => 0,
    }
}

pub struct Gen {
    pub dir: String,
    pub whole: HashMap<u64, Vec<u8>>,
    pub known: HashMap<u64, Gram>,
    pub runs: u64,
    pub fired: BTreeMap<String, u64>,
    pub writes: u64,
    pub exits: BTreeMap<i32, u64>,
    pub distinct: HashSet<u64>,
    pub compared_texts: u64,
    pub nontrivial: HashSet<u64>,
}

pub struct Run {
    pub out: Vec<u8>,
    pub code: i32,
    pub log: String,
}

impl Gen {
    pub fn new(dir: &str) -> Gen {
        Gen {
            dir: dir.into(),
            whole: HashMap::new(),
            known: HashMap::new(),
            runs: 0,
            fired: BTreeMap::new(),
            writes: 0,
            exits: BTreeMap::new(),
            distinct: HashSet::new(),
            compared_texts: 0,
            nontrivial: HashSet::new(),
        }
    }

    fn exec(&mut self, p: &GPlan) -> Run {
        self.runs += 1;
        let mut script = String::new();
        for f in &p.faults {
            script.push_str(&match f.kind.as_str() {
                "short" => format!("{} s {};", f.at, f.arg),
                "zero" => format!("{} z 0;", f.at),
                k => format!("{} e {};", f.at, errno(k)),
            });
        }
        let mut c = Command::new(format!("{}/generator", self.dir));
        c.env_clear()
            .env("LD_PRELOAD", format!("{}/preload.so", self.dir))
            .env("SIM_SEED", p.hash_seed.to_string())
            .env("SIM_LIMIT", p.limit.to_string())
            .env("SIM_LIMIT_ERRNO", errno(&p.limit_kind).to_string())
            .env("SIM_FAULTS", script)
            .current_dir(&self.dir)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        let mut ch = match c.spawn() {
            Ok(c) => c,
            Err(e) => crate::harness_error(&format!("cannot start the generator: {}", e)),
        };
        let mut out = vec![];
        let mut log = String::new();
        let _ = ch.stdout.take().unwrap().read_to_end(&mut out);
        let _ = ch.stderr.take().unwrap().read_to_string(&mut log);
        let st = ch.wait().unwrap();
        use std::os::unix::process::ExitStatusExt;
        let code = st.code().unwrap_or_else(|| 1000 + st.signal().unwrap_or(0));
        for l in log.lines() {
            if let Some(k) = l.strip_prefix("F ") {
                *self.fired.entry(k.to_string()).or_default() += 1;
            }
            self.writes += l.starts_with("W ") as u64;
        }
        *self.exits.entry(code).or_default() += 1;
        self.distinct.insert(hash_bytes(code as u64, log.as_bytes()));
        Run { out, code, log }
    }

    /// The output without faults and with this randomness.
    fn complete(&mut self, hash_seed: u64) -> Result<Vec<u8>, Violation> {
        if let Some(x) = self.whole.get(&hash_seed) {
            return Ok(x.clone());
        }
        let p = GPlan {
            seed: 0,
            hash_seed,
            faults: vec![],
            limit: u64::MAX,
            limit_kind: "enospc".into(),
            text: String::new(),
        };
        let r = self.exec(&p);
        if r.code != 0 {
            return Err(Violation {
                class: "fails".into(),
                detail: format!("without any fault the program ends with status {}", r.code),
            });
        }
        self.whole.insert(hash_seed, r.out.clone());
        Ok(r.out)
    }

    pub fn size(&mut self) -> usize {
        self.complete(1).map_or(0, |w| w.len())
    }

    /// Does the same happen again?
    pub fn repeats(&mut self, p: &GPlan) -> bool {
        let (a, b) = (self.exec(p), self.exec(p));
        a.out == b.out && a.code == b.code && a.log == b.log
    }

    pub fn check(&mut self, p: &GPlan, runner: &mut Runner) -> Option<Violation> {
        let bad = |c: &str, d: String| Some(Violation { class: c.into(), detail: d });
        let whole = match self.complete(p.hash_seed) {
            Ok(w) => w,
            Err(v) => return Some(v),
        };
        let r = self.exec(p);
        if r.log.contains("F ") {
            self.nontrivial.insert(hash_bytes(r.code as u64, r.log.as_bytes()));
        }
        let harmless = p.limit == u64::MAX && p.faults.iter().all(|f| f.kind == "short" || f.kind == "eintr");
        let show = |b: &[u8]| cut(&String::from_utf8_lossy(b));
        if r.code == 0 && r.out != whole {
            let n = r.out.iter().zip(&whole).take_while(|(a, b)| a == b).count();
            return bad(
                "incomplete",
                format!(
                    "exit status 0, but the output ({} bytes) is not the complete rules ({} bytes); first difference at byte {}; writes: {}",
                    r.out.len(), whole.len(), n, cut(&r.log.replace('\n', " "))
                ),
            );
        }
        if r.code >= 1000 && r.code != 1006 {
            return bad("killed", format!("the program was ended by signal {}", r.code - 1000));
        }
        if r.code != 0 && !whole.starts_with(&r.out) {
            return bad("no prefix", format!("exit status {}, and the output is no prefix of the rules: {}", r.code, show(&r.out)));
        }
        if harmless && r.code != 0 {
            return bad("gives up", format!("exit status {} after short or interrupted writes only: {}", r.code, cut(&r.log.replace('\n', " "))));
        }
        // do the rules denote those with which the library reads grammars?
        let h = hash_bytes(0, &whole);
        if !self.known.contains_key(&h) {
            let t = String::from_utf8_lossy(&whole).into_owned();
            match gread::read(&t) {
                Ok(g) => {
                    self.known.insert(h, g);
                }
                Err(e) => return bad("unreadable", format!("the output is no valid code: {} in {}", e, cut(&t))),
            }
        }
        let g = self.known[&h].clone();
        if g.rules.is_empty() {
            return bad("denotes", "the output holds no rules".into());
        }
        let mut q = Plan::new("C08", "denotes", p.seed);
        q.grams.push(g);
        q.texts.push(p.text.clone());
        q.threads.push(Thread {
            ops: vec![
                Op::Build { slot: 0, g: 0, how: 0, order: 1 },
                Op::Parse { slot: 0, text: 0, debug: false, keep: None },
                Op::Compile { text: 0, slot: None },
            ],
            after: None,
            stack: STACK,
        });
        let res = runner.run(&q);
        if let (Some(a), Some(b)) = (res.get(0, 1), res.get(0, 2)) {
            self.compared_texts += 1;
            let same = if b.text.starts_with("OK") || b.text.starts_with("ERR other") {
                a.text.starts_with("OK")
            } else {
                a.text == b.text
            };
            if !same {
                return bad(
                    "denotes",
                    format!("the generated rules and the library read {} differently: {} and {}", cut(&format!("{:?}", p.text)), cut(&a.text), cut(&b.text)),
                );
            }
        }
        None
    }
}

pub fn make(seed: u64, notation: &Map, size: u64) -> GPlan {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut faults = vec![];
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 5, 9]);
    let swarm: Vec<&str> = match r.below(5) {
        0 => vec!["short"],
        1 => vec!["short", "eintr"],
        2 => vec!["eintr"],
        _ => vec!["short", "short", "short", "eintr", "eagain", "epipe", "enospc", "eio", "zero"],
    };
    let mut at = 0;
    for _ in 0..n {
        let kind = r.pick(&swarm).to_string();
        let arg = if kind == "short" {
            match r.below(3) {
                0 => r.range(1, 8) as u64,
                1 => r.logu(size.max(2)),
                _ => size.saturating_sub(r.logu(size.max(2))).max(1),
            }
        } else {
            0
        };
        faults.push(WFault { at, kind, arg });
        at += r.range(1, 2) as u64;
    }
    let limit = if r.chance(35) {
        match r.below(4) {
            0 => 0,
            1 => size.saturating_sub(r.below(4) as u64),
            _ => r.below(size as usize + 1) as u64,
        }
    } else {
        u64::MAX
    };
    let limit_kind = r.pick(&["enospc", "epipe", "eio", "eagain"]).to_string();
    let text = loop {
        let t = match r.below(8) {
            0..=2 => gen::notation_text(r).0,
            3 => r.pick(&gen::real_grammars()).to_string(),
            4 => {
                let mut t = String::new();
                let d = r.range(3, 12);
                gen::derive(r, notation, &notation["main"], d, &mut t, 150);
                t
            }
            _ => {
                let a: Vec<char> = gen::NOTATION_ALPHA.chars().collect();
                let (t, _) = gen::notation_text(r);
                gen::mutate(r, &t, &a)
            }
        };
        if t.len() < 300 {
            break t;
        }
    };
    GPlan { seed, hash_seed: *r.pick(&[1u64, 2, 3, 77, 1234, 99999]), faults, limit, limit_kind, text }
}

pub fn shrink(g: &mut Gen, runner: &mut Runner, p: &GPlan, v: &Violation, end: f64) -> (GPlan, Violation) {
    let mut best = p.clone();
    let mut bv = v.clone();
    loop {
        let before = best.clone();
        let mut cands: Vec<GPlan> = vec![];
        for i in 0..best.faults.len() {
            let mut q = best.clone();
            q.faults.remove(i);
            cands.push(q);
            let mut q = best.clone();
            q.faults[i].at = i as u64;
            cands.push(q);
        }
        let mut q = best.clone();
        q.limit = u64::MAX;
        cands.push(q);
        let mut q = best.clone();
        q.hash_seed = 1;
        cands.push(q);
        let c: Vec<char> = best.text.chars().collect();
        let mut n = c.len().div_ceil(2);
        while n >= 1 {
            let mut k = 0;
            while k < c.len() {
                let mut q = best.clone();
                q.text = c[..k].iter().chain(&c[(k + n).min(c.len())..]).collect();
                cands.push(q);
                k += n;
            }
            n /= 2;
        }
        for q in cands {
            if q == best || crate::sys::real_now() > end {
                continue;
            }
            if let Some(x) = g.check(&q, runner) {
                if x.class == bv.class {
                    best = q;
                    bv = x;
                    break;
                }
            }
        }
        if best == before {
            return (best, bv);
        }
    }
}
