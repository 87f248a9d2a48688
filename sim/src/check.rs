//! Judges runs: the model replayed over the recorded history, or the same calls alone in fresh
//! processes.

use crate::exec::{Rec, Res, Runner, Stats, K_PANIC, K_SKIP};
use crate::model::{self, COut, Map, POut, Tn};
use crate::plan::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::ser::Ser;
use crate::{gread, sched};
use std::collections::hash_map::Entry;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

fn v(class: &str, detail: String) -> Option<Violation> {
    Some(Violation { class: class.into(), detail })
}

pub fn cut(s: &str) -> String {
    let n = 300;
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let h: String = s.chars().take(n / 2).collect();
        let c = s.chars().count();
        let t: String = s.chars().skip(c - n / 2).collect();
        format!("{} ...[{} chars]... {}", h, c - n, t)
    }
}

fn diff(want: &str, got: &str) -> String {
    // the first difference, with some of what is around it
    let (a, b): (Vec<char>, Vec<char>) = (want.chars().collect(), got.chars().collect());
    let i = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let st = i.saturating_sub(80);
    let part = |v: &[char]| v[st.min(v.len())..(st + 240).min(v.len())].iter().collect::<String>();
    format!("expected ...{}... found ...{}... (difference at character {})", part(&a), part(&b), i)
}

#[derive(Default)]
pub struct Totals {
    pub plans: u64,
    pub runs: u64,
    pub calls: u64,
    pub compared: u64,
    pub skipped: u64,
    pub nontrivial: u64,
    pub st: Stats,
    pub kinds: BTreeMap<String, u64>,
    pub ops: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub aborts: u64,
    pub panics: u64,
    pub fail_fired: u64,
    pub ok_outcomes: u64,
    pub err_outcomes: u64,
    pub crit_outcomes: u64,
    pub probes: BTreeMap<String, u64>,
}

impl Totals {
    pub fn probe(&mut self, s: &str) {
        *self.probes.entry(s.to_string()).or_default() += 1;
    }
    pub fn add(&mut self, s: &Stats) {
        let t = &mut self.st;
        t.steps += s.steps;
        t.switches += s.switches;
        t.preempts += s.preempts;
        t.stalls += s.stalls;
        t.forever += s.forever;
        t.clock_jumps += s.clock_jumps;
        t.clock_reads += s.clock_reads;
        t.randoms += s.randoms;
        t.futex_waits += s.futex_waits;
        t.statics += s.statics;
        t.conflicts += s.conflicts;
        t.spurious += s.spurious;
        t.threads_made += s.threads_made;
        t.sim_ns = t.sim_ns.saturating_add(s.sim_ns);
        t.allocs += s.allocs;
        t.reused += s.reused;
        t.alloc_failed += s.alloc_failed;
    }
}

pub fn op_name(o: &Op) -> &'static str {
    match o {
        Op::Build { .. } => "build",
        Op::Compile { .. } => "compile",
        Op::Add { .. } => "add",
        Op::Merge { .. } => "merge",
        Op::Parse { debug: false, .. } => "parse",
        Op::Parse { .. } => "parse_debug",
        Op::Gen { .. } => "generate",
        Op::Dump { .. } => "dump",
        Op::DropRules { .. } => "drop rules",
        Op::Session { .. } => "session",
        Op::MkTree { .. } => "make tree",
        Op::Tx { .. } => "transform",
        Op::DumpTree { .. } => "dump tree",
        Op::DropTree { .. } => "drop tree",
        Op::Snap {} => "snap",
        Op::Again { .. } => "repeated calls",
    }
}

// ------------------------------------------------------------------ model of a history

/// How a value came to be, for doing it again elsewhere.
pub enum Prov {
    Op(Op),
    Add(Rc<Prov>, usize, usize),
    Merge(Rc<Prov>, Rc<Prov>),
    Parse(Rc<Prov>, usize, bool),
    Tx(Rc<Prov>, Vec<Tx>),
}

fn emit(p: &Prov, slot: usize, next: &mut usize, out: &mut Vec<Op>) {
    match p {
        Prov::Op(Op::Build { g, how, order, .. }) => {
            out.push(Op::Build { slot, g: *g, how: *how, order: *order })
        }
        Prov::Op(Op::Compile { text, .. }) => out.push(Op::Compile { text: *text, slot: Some(slot) }),
        Prov::Op(Op::MkTree { spec, .. }) => out.push(Op::MkTree { tree: slot, spec: *spec }),
        Prov::Op(_) => {}
        Prov::Add(b, g, rule) => {
            emit(b, slot, next, out);
            out.push(Op::Add { slot, g: *g, rule: *rule });
        }
        Prov::Merge(a, b) => {
            emit(a, slot, next, out);
            let s = *next;
            *next += 1;
            emit(b, s, next, out);
            out.push(Op::Merge { dst: slot, src: s });
        }
        Prov::Parse(rules, text, debug) => {
            let s = *next;
            *next += 1;
            emit(rules, s, next, out);
            out.push(Op::Parse { slot: s, text: *text, debug: *debug, keep: Some(slot) });
        }
        Prov::Tx(t, chain) => {
            let s = *next;
            *next += 1;
            emit(t, s, next, out);
            out.push(Op::Tx { tree: s, chain: chain.clone(), dst: Some(slot) });
        }
    }
}

type Rules = Option<(Rc<Map>, Rc<Prov>)>;
type Tree = Option<(Rc<Tn>, Rc<Prov>)>;

pub struct World<'a> {
    p: &'a Plan,
    notation: &'a Map,
    rules: Vec<Rules>,
    trees: Vec<Tree>,
    parses: HashMap<(usize, usize, bool), Rc<POut>>,
    keep: Vec<Rc<Map>>,
    fuel: u64,
    /// no model values are needed
    blind: bool,
}

pub enum Exp {
    Skip,
    Nothing,
    Parse(Rc<POut>),
    Compile(Rc<COut>),
    Gen(Rc<Map>),
    Dump(Rc<Map>),
    Text(String),
    /// the errors' texts are free
    Read(String),
    Unknown,
}

impl<'a> World<'a> {
    fn new(p: &'a Plan, notation: &'a Map, blind: bool) -> World<'a> {
        World {
            p,
            notation,
            rules: vec![None; 32],
            trees: vec![None; 32],
            parses: HashMap::new(),
            keep: vec![],
            fuel: 6_000_000,
            blind,
        }
    }

    fn parse(&mut self, m: &Rc<Map>, text: usize, debug: bool) -> Rc<POut> {
        let k = (Rc::as_ptr(m) as usize, text, debug);
        if let Some(r) = self.parses.get(&k) {
            return r.clone();
        }
        self.keep.push(m.clone());
        let r = Rc::new(model::parse(m, &self.p.texts[text], debug, self.fuel).0);
        self.parses.insert(k, r.clone());
        r
    }

    /// What the call does to the world and what it returns.
    fn step(&mut self, op: &Op) -> Exp {
        match op {
            Op::Build { slot, g, .. } => {
                self.rules[*slot] = Some((Rc::new(self.p.grams[*g].map()), Rc::new(Prov::Op(op.clone()))));
                Exp::Nothing
            }
            Op::Compile { text, slot } => {
                if self.blind && slot.is_none() {
                    return Exp::Unknown;
                }
                let c = model::compile(self.notation, &self.p.texts[*text], self.fuel).0;
                if let Some(s) = slot {
                    self.rules[*s] = match &c {
                        COut::Ok(m) => Some((Rc::new(m.clone()), Rc::new(Prov::Op(op.clone())))),
                        _ => None,
                    };
                }
                match c {
                    COut::Fuel => Exp::Unknown,
                    c => Exp::Compile(Rc::new(c)),
                }
            }
            Op::Add { slot, g, rule } => match self.rules[*slot].take() {
                None => Exp::Skip,
                Some((m, pr)) => {
                    let mut m = (*m).clone();
                    let (n, e) = self.p.grams[*g].rules[*rule].clone();
                    m.insert(n, e);
                    self.rules[*slot] = Some((Rc::new(m), Rc::new(Prov::Add(pr, *g, *rule))));
                    Exp::Nothing
                }
            },
            Op::Merge { dst, src } => {
                if dst == src || self.rules[*dst].is_none() || self.rules[*src].is_none() {
                    return Exp::Skip;
                }
                let (d, dp) = self.rules[*dst].take().unwrap();
                let (s, sp) = self.rules[*src].take().unwrap();
                let mut m = (*s).clone();
                m.extend((*d).clone());
                self.rules[*dst] = Some((Rc::new(m), Rc::new(Prov::Merge(dp, sp))));
                Exp::Nothing
            }
            Op::Parse { slot, text, debug, keep } => match self.rules[*slot].clone() {
                None => Exp::Skip,
                Some((m, pr)) => {
                    if self.blind && keep.is_none() {
                        return Exp::Unknown;
                    }
                    let r = self.parse(&m, *text, *debug);
                    if let Some(k) = keep {
                        self.trees[*k] = match &*r {
                            POut::Ok(t) => {
                                Some((Rc::new(t.clone()), Rc::new(Prov::Parse(pr, *text, *debug))))
                            }
                            _ => None,
                        };
                    }
                    match &*r {
                        POut::Fuel => Exp::Unknown,
                        _ => Exp::Parse(r),
                    }
                }
            },
            Op::Gen { slot } => match &self.rules[*slot] {
                None => Exp::Skip,
                Some((m, _)) => Exp::Gen(m.clone()),
            },
            Op::Dump { slot } => match &self.rules[*slot] {
                None => Exp::Skip,
                Some((m, _)) => Exp::Dump(m.clone()),
            },
            Op::DropRules { slot } => match self.rules[*slot].take() {
                None => Exp::Skip,
                Some(_) => Exp::Nothing,
            },
            Op::Session { g, text, debug, .. } => {
                if self.blind {
                    return Exp::Unknown;
                }
                let m = Rc::new(self.p.grams[*g].map());
                match self.parse(&m, *text, *debug) {
                    r if matches!(*r, POut::Fuel) => Exp::Unknown,
                    r => Exp::Parse(r),
                }
            }
            Op::MkTree { tree, spec } => {
                self.trees[*tree] = Some((Rc::new(self.p.trees[*spec].clone()), Rc::new(Prov::Op(op.clone()))));
                Exp::Nothing
            }
            Op::Tx { tree, chain, dst } => match self.trees[*tree].clone() {
                None => Exp::Skip,
                Some((t, pr)) => {
                    let mut cur = t;
                    let mut any = false;
                    for c in chain {
                        any = true;
                        cur = match c {
                            Tx::Compact {} => Rc::new(model::compact(&cur)),
                            Tx::Prune { names } => Rc::new(model::prune(&cur, names)),
                            Tx::Pass { names } => Rc::new(model::pass(&cur, names)),
                            Tx::Flatten {} => {
                                let mut o = String::new();
                                model::flatten(&cur, &mut o);
                                return Exp::Text(o);
                            }
                            Tx::Read { flat, steps } => {
                                let eof = chain.len() == 1 && matches!(*pr, Prov::Op(Op::MkTree { .. }));
                                let mut rd = model::Reader::new(&cur, *flat, eof);
                                return Exp::Read(steps.iter().map(|s| rd.step(s.f, &s.name)).collect());
                            }
                        };
                    }
                    if !any {
                        return Exp::Skip;
                    }
                    let mut o = String::new();
                    model::render_tree(&cur, &mut o);
                    if let Some(d) = dst {
                        if d != tree {
                            self.trees[*d] = Some((cur, Rc::new(Prov::Tx(pr, chain.clone()))));
                        }
                    }
                    Exp::Text(o)
                }
            },
            Op::DumpTree { tree } => match &self.trees[*tree] {
                None => Exp::Skip,
                Some((t, _)) => {
                    let mut o = String::new();
                    model::render_tree(t, &mut o);
                    Exp::Text(o)
                }
            },
            Op::DropTree { tree } => match self.trees[*tree].take() {
                None => Exp::Skip,
                Some(_) => Exp::Nothing,
            },
            Op::Snap {} | Op::Again { .. } => Exp::Unknown,
        }
    }

    /// The call as the first one of a process, after what makes its arguments.
    fn alone(&self, op: &Op) -> Option<Vec<Op>> {
        let mut out = vec![];
        let mut next = 1;
        match op {
            Op::Compile { text, .. } => out.push(Op::Compile { text: *text, slot: None }),
            Op::Parse { slot, text, debug, .. } => {
                emit(&self.rules[*slot].as_ref()?.1, 0, &mut next, &mut out);
                out.push(Op::Parse { slot: 0, text: *text, debug: *debug, keep: None });
            }
            Op::Gen { slot } => {
                emit(&self.rules[*slot].as_ref()?.1, 0, &mut next, &mut out);
                out.push(Op::Gen { slot: 0 });
            }
            Op::Dump { slot } => {
                emit(&self.rules[*slot].as_ref()?.1, 0, &mut next, &mut out);
                out.push(Op::Dump { slot: 0 });
            }
            Op::Session { .. } => out.push(op.clone()),
            Op::Tx { tree, chain, .. } => {
                emit(&self.trees[*tree].as_ref()?.1, 0, &mut next, &mut out);
                out.push(Op::Tx { tree: 0, chain: chain.clone(), dst: None });
            }
            Op::DumpTree { tree } => {
                emit(&self.trees[*tree].as_ref()?.1, 0, &mut next, &mut out);
                out.push(Op::DumpTree { tree: 0 });
            }
            _ => return None,
        }
        if next > 30 {
            return None;
        }
        Some(out)
    }
}

// ------------------------------------------------------------------ comparing

/// `full`: every field of an error counts, otherwise that it is one.
fn cmp_parse(want: &POut, got: &str, full: bool) -> Option<String> {
    match want {
        POut::Ok(t) => {
            let mut o = String::from("OK ");
            model::render_tree(t, &mut o);
            if o != got {
                return Some(diff(&o, got));
            }
        }
        POut::Err(e) => {
            if !got.starts_with("ERR") {
                return Some(format!("expected {}, found {}", cut(&e.render()), cut(got)));
            }
            if full && e.render() != got {
                return Some(diff(&e.render(), got));
            }
        }
        POut::Fuel => {}
    }
    None
}

fn describe(p: &Plan, r: &Rec, op: &Op) -> String {
    let t = match op {
        Op::Parse { text, .. } | Op::Session { text, .. } | Op::Compile { text, .. } => {
            format!(" of {}", cut(&format!("{:?}", p.texts[*text])))
        }
        Op::Tx { chain, .. } => format!(" {:?}", chain),
        _ => String::new(),
    };
    format!("{}{} (thread {}, call {})", op_name(op), cut(&t), r.thr, r.op)
}

fn ends(p: &Plan, res: &Res) -> Option<Violation> {
    if res.clean() {
        return None;
    }
    let op = p.threads.get(res.at.0).and_then(|t| t.ops.get(res.at.1));
    let at = format!("during {} (thread {}, call {})", op.map_or("?", op_name), res.at.0, res.at.1);
    if res.signal == 24 || res.signal == 14 {
        return v("stuck", format!("no end, and no step made, {}", at));
    }
    if res.signal != 0 {
        return v(
            &format!("signal{}", res.signal),
            format!("the process was ended by signal {} {}", res.signal, at),
        );
    }
    let (c, d) = match res.status {
        sched::DEADLOCK => ("deadlock", res.msg.clone()),
        sched::STUCK => ("stuck", format!("{} {}", res.msg, at)),
        sched::HEAP => ("heap", format!("heap damage: {} {}", res.msg, at)),
        _ => ("lost", format!("the process ended {}", at)),
    };
    v(c, d)
}

pub struct Checker {
    pub runner: Runner,
    pub notation: Map,
    pub tot: Totals,
    pub count: bool,
    /// a run of the present plan was left off, as it would take too long
    too_slow: bool,
    /// a run was found not to end
    endless: bool,
    /// runs found to be slow, and the size of the smallest
    slow: (u64, usize),
    cache: HashMap<u64, Rc<Outcome>>,
}

/// How a call went that was made alone.
#[derive(Clone, Debug)]
struct Outcome {
    kind: u8,
    text: String,
    ended: Option<String>,
}

impl Checker {
    pub fn new() -> Checker {
        Checker {
            runner: Runner::new(),
            notation: model::notation(),
            tot: Totals::default(),
            count: true,
            too_slow: false,
            endless: false,
            slow: (0, 0),
            cache: HashMap::new(),
        }
    }

    pub fn run(&mut self, p: &Plan) -> Res {
        let res = self.to_end(p);
        if self.count {
            self.tot.runs += 1;
            self.tot.calls += res.recs.len() as u64;
            self.tot.add(&res.st);
            self.tot.sigs.insert(res.st.sig);
            for r in &res.recs {
                *self.tot.ops.entry(op_name(&p.threads[r.thr].ops[r.op]).into()).or_default() += 1;
            }
        }
        res
    }

    /// A call over its step bound may just be a slow one: it is endless if it is over many times
    /// the bound as well.
    fn to_end(&mut self, p: &Plan) -> Res {
        let r = self.runner.run(p);
        if r.status != sched::STUCK || self.endless || r.signal != 0 {
            return r;
        }
        let n = p.texts.iter().map(|t| t.len()).sum();
        let slow = |mut r: Res| {
            r.status = sched::SLOW;
            r
        };
        if self.slow.0 >= 3 && n >= self.slow.1 / 2 {
            // known to take long: nothing is learnt from this run
            self.too_slow = true;
            return slow(r);
        }
        let (c, whole) = self.work(p, &r);
        let need = c.saturating_mul(whole).saturating_mul(20);
        if need > self.runner.cap * 50 {
            self.too_slow = true;
            return slow(r);
        }
        let long = self.runner.run_long(p, if need < self.runner.cap * 5 { 10 } else { 50 });
        if long.status == sched::STUCK || long.signal == 24 || long.signal == 14 {
            self.endless = true;
            return r;
        }
        self.slow = (self.slow.0 + 1, if self.slow.0 == 0 { n } else { self.slow.1.min(n) });
        long
    }

    /// The steps the model needs for the call the run ended in, and what each may cost in slow
    /// code, which looks at all of the text.
    fn work(&mut self, p: &Plan, res: &Res) -> (u64, u64) {
        let notation = self.notation.clone();
        let mut w = World::new(p, &notation, true);
        for r in &res.recs {
            w.step(&p.threads[r.thr].ops[r.op]);
        }
        let whole = p.texts.iter().map(|t| t.len()).max().unwrap_or(0) as u64;
        let size = crate::plan::size(p) as u64;
        let cost = |m: &Map, t: usize| model::parse(m, &p.texts[t], false, 300_000).1.steps;
        match p.threads.get(res.at.0).and_then(|t| t.ops.get(res.at.1)) {
            Some(Op::Parse { slot, text, .. }) => {
                (w.rules[*slot].as_ref().map_or(0, |m| cost(&m.0, *text)), whole)
            }
            Some(Op::Session { g, text, .. }) => (cost(&p.grams[*g].map(), *text), whole),
            Some(Op::Compile { text, .. }) => (cost(&notation, *text), whole),
            _ => (size, size),
        }
    }

    fn alone(&mut self, p: &Plan, ops: Vec<Op>, pol: Policy) -> Rc<Outcome> {
        let mut key = String::new();
        for o in &ops {
            o.ser(&mut key);
        }
        let k = mix(hash_bytes(p.seed, key.as_bytes()) ^ pol.hash_seed);
        if let Some(r) = self.cache.get(&k) {
            return r.clone();
        }
        let mut q = Plan::new(&p.prop, "alone", p.seed);
        q.grams = p.grams.clone();
        q.texts = p.texts.clone();
        q.trees = p.trees.clone();
        q.pol = pol;
        let n = ops.len();
        q.threads = vec![Thread { ops, after: None, stack: STACK }];
        let res = self.to_end(&q);
        self.tot.runs += self.count as u64;
        let o = match res.get(0, n - 1) {
            Some(r) if res.clean() => Outcome { kind: r.kind, text: r.text.clone(), ended: None },
            _ => Outcome { kind: 0, text: String::new(), ended: Some(format!("{} {}", res.signal, res.msg)) },
        };
        let o = Rc::new(o);
        self.cache.insert(k, o.clone());
        o
    }

    /// Judge one plan. Returns the violation and the run that shows it.
    pub fn check(&mut self, p: &Plan) -> (Option<Violation>, Res) {
        self.too_slow = false;
        let (v, res) = self.judge(p);
        if self.too_slow {
            self.tot.skipped += 1;
            return (None, res);
        }
        (v, res)
    }

    fn judge(&mut self, p: &Plan) -> (Option<Violation>, Res) {
        self.cache.clear();
        if self.count {
            self.tot.plans += 1;
            *self.tot.kinds.entry(p.kind.clone()).or_default() += 1;
        }
        if p.prop == "C10" {
            return self.check_mem(p);
        }
        let res = self.run(p);
        if self.too_slow {
            return (None, res);
        }
        if let Some(x) = ends(p, &res) {
            if res.status == sched::STUCK && res.signal == 0 && self.excused(p, &res) {
                self.tot.skipped += 1;
                return (None, res);
            }
            return (Some(x), res);
        }
        let r = match p.prop.as_str() {
            "C01" | "C02" | "C05" | "C06" | "C13" | "C14" => self.by_model(p, &res),
            "C03" | "C09" => self.by_baseline(p, &res, Some(p.pol)),
            "C04" => self.by_baseline(p, &res, None).or_else(|| self.other_envs(p, &res)),
            "C07" => self.by_text(p, &res),
            "C11" => self.by_memory(p, &res),
            "C12" => self.by_stack(p, &res),
            _ => None,
        };
        (r, res)
    }

    /// Too much work by itself, as far as the model can tell.
    fn excused(&mut self, p: &Plan, res: &Res) -> bool {
        let Some(op) = p.threads.get(res.at.0).and_then(|t| t.ops.get(res.at.1)) else { return false };
        if !matches!(op, Op::Parse { .. } | Op::Session { .. } | Op::Compile { .. }) {
            return false;
        }
        let (c, whole) = self.work(p, res);
        // each step may cost the length of a line, or, in slow code, that of the text (with all
        // of it looked at several times over)
        if c.saturating_mul(whole) > 300_000_000 {
            return true;
        }
        let line = p.texts.iter().flat_map(|t| t.lines()).map(|l| l.len()).max().unwrap_or(0) as u64;
        let debug = matches!(op, Op::Parse { debug: true, .. } | Op::Session { debug: true, .. });
        c > 100_000 || (debug && c > 6_000) || c.saturating_mul(line) > 10_000_000
    }

    fn note(&mut self, text: &str) {
        if self.count {
            if text.starts_with("OK") {
                self.tot.ok_outcomes += 1;
            } else if text.starts_with("ERR") {
                self.tot.err_outcomes += 1;
                if text.ends_with("critical") {
                    self.tot.crit_outcomes += 1;
                }
            }
            self.tot.compared += 1;
        }
    }

    fn by_model(&mut self, p: &Plan, res: &Res) -> Option<Violation> {
        let notation = self.notation.clone();
        let mut w = World::new(p, &notation, false);
        let prop = p.prop.as_str();
        let mut pairs: HashMap<(usize, usize), (bool, String)> = HashMap::new();
        for r in &res.recs {
            let op = &p.threads[r.thr].ops[r.op];
            let solo = if prop == "C06" || prop == "C14" { w.alone(op) } else { None };
            let exp = w.step(op);
            if r.kind == K_PANIC {
                return v("panic", format!("{} panicked: {}", describe(p, r, op), r.text));
            }
            if matches!(op, Op::Again { .. }) && !r.text.is_empty() {
                return v("again", format!("the same call repeated had another outcome: {}", cut(&r.text)));
            }
            if matches!(exp, Exp::Skip) != (r.kind == K_SKIP) {
                return v("value", format!("{}: value unexpectedly {}", describe(p, r, op), if r.kind == K_SKIP { "missing" } else { "present" }));
            }
            let bad = match &exp {
                Exp::Skip | Exp::Nothing => None,
                Exp::Unknown => {
                    if !matches!(op, Op::Snap {}) {
                        self.tot.skipped += 1;
                    }
                    if matches!(op, Op::Compile { slot: Some(_), .. } | Op::Parse { keep: Some(_), .. }) {
                        return None;
                    }
                    None
                }
                Exp::Parse(want) => {
                    self.note(&r.text);
                    // one property each: which trees are built, and what errors say
                    let d = cmp_parse(want, &r.text, prop == "C02");
                    let d = match (prop, &**want) {
                        ("C02", POut::Ok(_)) if r.text.starts_with("OK") => None,
                        _ => d,
                    };
                    d.map(|d| (if r.text.starts_with("ERR") == matches!(**want, POut::Err(_)) { "result" } else { "accept" }, d))
                        .or_else(|| {
                            if prop != "C02" {
                                return None;
                            }
                            // debug and normal parses of the same
                            if let Op::Parse { slot, text, debug, .. } = op {
                                let strip = |s: &str| match s.rfind(" rules=[") {
                                    Some(i) if s.starts_with("ERR") => {
                                        s[..i].to_string() + s.rsplit(' ').next().unwrap_or("")
                                    }
                                    _ => s.to_string(),
                                };
                                let k = (*slot, *text);
                                let mine = strip(&r.text);
                                match pairs.get(&k) {
                                    Some((d, o)) if d != debug && *o != mine => {
                                        return Some(("debug", format!("normal and debug parse differ: {}", diff(o, &mine))))
                                    }
                                    _ => {
                                        pairs.insert(k, (*debug, mine));
                                    }
                                }
                            }
                            None
                        })
                }
                Exp::Compile(want) => {
                    self.note(&r.text);
                    let d = match &**want {
                        COut::Ok(m) => {
                            let t = format!("OK\n{}", model::render_map(m));
                            if t != r.text {
                                Some(("rules", diff(&t, &r.text)))
                            } else {
                                None
                            }
                        }
                        COut::Err(e) if !r.text.starts_with("ERR") => Some((
                            "accept",
                            format!("expected {}, found {}", cut(&e.render()), cut(&r.text)),
                        )),
                        _ => None,
                    };
                    match (d, solo) {
                        (None, Some(ops)) => {
                            let a = self.alone(p, ops, p_env(&p.pol));
                            if a.ended.is_none() && a.text != r.text {
                                Some(("alone", format!("the same call made alone differs: {}", diff(&a.text, &r.text))))
                            } else {
                                None
                            }
                        }
                        (d, _) => d,
                    }
                }
                Exp::Gen(_) => None,
                Exp::Dump(m) => {
                    self.note("");
                    let t = model::render_map(m);
                    if t != r.text {
                        Some(("rules", diff(&t, &r.text)))
                    } else {
                        None
                    }
                }
                Exp::Read(t) => {
                    self.note("");
                    let got: String = r.text.lines().map(|l| if l.starts_with("ERR ") { "ERR\n".into() } else { format!("{}\n", l) }).collect();
                    if *t != got {
                        Some(("read", diff(t, &got)))
                    } else if let Some(ops) = solo {
                        let a = self.alone(p, ops, p_env(&p.pol));
                        if a.ended.is_none() && a.text != r.text {
                            Some(("alone", format!("the same call made alone differs: {}", diff(&a.text, &r.text))))
                        } else {
                            None
                        }
                    } else {
                        None
                    }
                }
                Exp::Text(t) => {
                    self.note("");
                    if *t != r.text {
                        Some((if matches!(op, Op::DumpTree { .. }) { "tree" } else { "transform" }, diff(t, &r.text)))
                    } else {
                        None
                    }
                }
            };
            if let Some((c, d)) = bad {
                return v(c, format!("{}: {}", describe(p, r, op), d));
            }
        }
        None
    }

    /// Each call again, alone, in a fresh process.
    fn by_baseline(&mut self, p: &Plan, res: &Res, pol: Option<Policy>) -> Option<Violation> {
        let pol = match pol {
            Some(x) => p_env(&x),
            None => Policy::NONE,
        };
        let notation = self.notation.clone();
        let mut w = World::new(p, &notation, true);
        let n = res.recs.len();
        let mut pick = Rng::new(p.seed ^ 0xBA5E);
        let limit = 40usize;
        let mut said: HashMap<u64, usize> = HashMap::new();
        let mut seen = 0;
        for (i, r) in res.recs.iter().enumerate() {
            let op = &p.threads[r.thr].ops[r.op];
            if matches!(op, Op::Again { .. }) {
                if r.kind == K_PANIC || !r.text.is_empty() {
                    return v("again", format!("the same call repeated had another outcome: {}", cut(&r.text)));
                }
                continue;
            }
            // in long histories the last calls and some of the others
            let probe = n <= 60 || i + 12 >= n || (seen < limit && pick.below(n) < limit);
            let solo = w.alone(op);
            // and each with the same one before
            let (mut probe, mut before) = (probe, None);
            if let (Some(ops), true) = (&solo, n > 60 && r.kind != K_PANIC && r.kind != K_SKIP) {
                let mut key = String::new();
                ops.iter().for_each(|o| o.ser(&mut key));
                match said.entry(hash_bytes(7, key.as_bytes())) {
                    Entry::Occupied(e) if res.recs[*e.get()].text != r.text => {
                        probe = true;
                        before = Some(*e.get());
                    }
                    Entry::Occupied(_) => {}
                    Entry::Vacant(e) => {
                        e.insert(i);
                    }
                }
            }
            let solo = if probe { solo } else { None };
            let exp = w.step(op);
            if let (Exp::Unknown, Op::Compile { slot: Some(_), .. } | Op::Parse { keep: Some(_), .. }) = (&exp, op) {
                return None;
            }
            if r.kind == K_PANIC {
                // unless it panics alone too
                let solo = solo.or_else(|| {
                    let mut w = World::new(p, &notation, true);
                    for r in &res.recs[..i] {
                        w.step(&p.threads[r.thr].ops[r.op]);
                    }
                    w.alone(op)
                });
                if let Some(ops) = solo {
                    let a = self.alone(p, ops, pol);
                    if a.kind == K_PANIC && a.text == r.text {
                        continue;
                    }
                }
                return v("panic", format!("{} panicked: {}", describe(p, r, op), r.text));
            }
            let Some(ops) = solo else { continue };
            if r.kind == K_SKIP {
                continue;
            }
            seen += 1;
            let a = self.alone(p, ops, pol);
            self.note(&r.text);
            if let Some(e) = &a.ended {
                return v("alone-ended", format!("{} made alone ended the process: {}", describe(p, r, op), e));
            }
            let r = match before {
                Some(k) if a.text == r.text => &res.recs[k],
                _ => r,
            };
            if a.kind != r.kind || a.text != r.text {
                return v(
                    "differs",
                    format!("{} differs from the same call made first in a fresh process: {}", describe(p, r, op), diff(&a.text, &r.text)),
                );
            }
        }
        None
    }

    /// The whole run once more, elsewhere.
    fn other_envs(&mut self, p: &Plan, res: &Res) -> Option<Violation> {
        let mut r = Rng::new(p.seed ^ 0xE2);
        for k in 0..2 {
            let mut q = p.clone();
            q.pol = Policy::NONE;
            q.decs.retain(|d| d.kind != sched::D_CLOCK);
            if k == 1 {
                crate::gen::environment(&mut r, &mut q.pol);
            } else {
                q.pol.hash_seed = r.u64();
            }
            let other = self.run(&q);
            if let Some(x) = ends(&q, &other) {
                return v(&x.class, format!("in another environment: {}", x.detail));
            }
            for a in &res.recs {
                let op = &p.threads[a.thr].ops[a.op];
                if let Some(b) = other.get(a.thr, a.op) {
                    self.note(&a.text);
                    if (a.kind, &a.text) != (b.kind, &b.text) {
                        return v("environment", format!("{} differs in another environment: {}", describe(p, a, op), diff(&b.text, &a.text)));
                    }
                }
            }
        }
        None
    }

    fn by_text(&mut self, p: &Plan, res: &Res) -> Option<Violation> {
        let notation = self.notation.clone();
        let mut texts: HashMap<Rc<String>, (String, String)> = HashMap::new();
        let mut runs = vec![(p.clone(), res.clone())];
        if !p.replay || p.kind.starts_with("generate") {
            // in another process
            let mut q = p.clone();
            q.pol = Policy::NONE;
            q.pol.hash_seed = mix(p.pol.hash_seed);
            q.decs.clear();
            let other = self.run(&q);
            if let Some(x) = ends(&q, &other) {
                return v(&x.class, format!("in another process: {}", x.detail));
            }
            runs.push((q, other));
        }
        for (q, res) in &runs {
            let mut w = World::new(q, &notation, false);
            for r in &res.recs {
                let op = &q.threads[r.thr].ops[r.op];
                let exp = w.step(op);
                if r.kind == K_PANIC {
                    return v("panic", format!("{} panicked: {}", describe(q, r, op), r.text));
                }
                if let Exp::Unknown = exp {
                    return None;
                }
                if let Exp::Compile(c) = &exp {
                    // what is not in the notation, or denotes something else, is not C07's
                    let same = match &**c {
                        COut::Ok(m) => format!("OK\n{}", model::render_map(m)) == r.text,
                        _ => r.text.starts_with("ERR"),
                    };
                    if !same {
                        self.tot.skipped += 1;
                        return None;
                    }
                }
                let Exp::Gen(m) = exp else { continue };
                if r.kind == K_SKIP {
                    continue;
                }
                self.note(&r.text);
                let key = Rc::new(model::render_map(&m));
                let who = format!("{} [hash seed {}]", describe(q, r, op), q.pol.hash_seed);
                match texts.get(&key) {
                    Some((w0, t0)) => {
                        if *t0 != r.text {
                            return v("differs", format!("{} and {} generate different text for the same rules: {}", w0, who, diff(t0, &r.text)));
                        }
                    }
                    None => {
                        match gread::read(&r.text) {
                            Err(e) => {
                                return v("unreadable", format!("{}: the text is no valid code: {} in {}", who, e, cut(&r.text)))
                            }
                            Ok(g) => {
                                let got = model::render_map(&g.map());
                                if got != *key {
                                    return v("denotes", format!("{}: the text denotes other rules: {}", who, diff(&key, &got)));
                                }
                            }
                        }
                        texts.insert(key, (who, r.text.clone()));
                    }
                }
            }
        }
        None
    }

    fn by_memory(&mut self, p: &Plan, res: &Res) -> Option<Violation> {
        let bad = self.growth(p, res)?;
        if bad.class == "grows" && (p.kind == "sweep" || p.kind.starts_with("doubling")) {
            // more and more often, by far, as something kept for reuse may still fill up
            let times = |p: &Plan| -> u64 {
                p.threads[0].ops.iter().map(|o| if let Op::Again { times, .. } = o { *times } else { 0 }).sum()
            };
            let each = res.st.steps / (times(p) + 1) + 1;
            let mut q = p.clone();
            if p.kind == "sweep" {
                q.kind = "doubling".into();
            }
            crate::plans::rounds(&mut q, (1_000_000_000 / each).clamp(1 << 10, 1 << 13));
            if times(&q) <= times(p) {
                return Some(bad);
            }
            q.decs.clear();
            let res = self.run(&q);
            return if res.clean() { self.growth(&q, &res) } else { None };
        }
        if bad.class == "grows" {
            if let Some(q) = backwards(p) {
                // something kept for reuse, as large as needed so far, does not grow both ways
                let other = self.run(&q);
                if other.clean() && self.growth(&q, &other).is_none() {
                    return None;
                }
            }
        }
        Some(bad)
    }

    fn growth(&mut self, p: &Plan, res: &Res) -> Option<Violation> {
        if let Some(r) = res.recs.iter().find(|r| r.kind == K_PANIC) {
            // only what is kept is of interest; a panic keeps nothing, either
            let _ = r;
            self.tot.panics += 1;
        }
        let snaps: Vec<(u64, u64)> = if p.kind == "rounds" {
            // runs of one, two, ... rounds; compared after the last thread
            let mut v = vec![];
            let mut k = 2;
            while k <= p.threads.len() {
                let mut q = p.clone();
                q.threads.truncate(k);
                q.decs.retain(|d| (d.thr as usize) < k);
                let x = if k == p.threads.len() { res.clone() } else { self.run(&q) };
                if let Some(x) = ends(&q, &x) {
                    return Some(x);
                }
                v.push((x.st.live_bytes, x.st.live_blocks));
                k += 2;
            }
            v
        } else {
            res.recs
                .iter()
                .filter(|r| matches!(p.threads[r.thr].ops[r.op], Op::Snap {}))
                .filter_map(|r| {
                    let (a, b) = r.text.split_once(' ')?;
                    Some((a.parse().ok()?, b.parse().ok()?))
                })
                .collect()
        };
        self.note("");
        if snaps.len() < 6 {
            return None;
        }
        if p.kind == "lineage" {
            // many threads, one after the other, all with the same calls
            let pick: Vec<(u64, u64)> = [4, 8, 16, snaps.len() - 1].iter().filter_map(|k| snaps.get(*k).copied()).collect();
            if snaps.len() > 20 && (pick.windows(2).all(|w| w[1].0 > w[0].0) || pick.windows(2).all(|w| w[1].1 > w[0].1)) {
                return v("grows", format!("memory (bytes, blocks) kept after each of the threads, which all made the same calls and dropped the results: {:?}", snaps));
            }
            return None;
        }
        let last = &snaps[snaps.len() - 6..];
        let grows = last.windows(2).all(|w| w[1].0 > w[0].0);
        let blocks = last.windows(2).all(|w| w[1].1 > w[0].1);
        if grows || blocks {
            return v("grows", format!("memory (bytes, blocks) kept after each round of calls whose results were all dropped: {:?}", snaps));
        }
        None
    }

    fn by_stack(&mut self, p: &Plan, res: &Res) -> Option<Violation> {
        let notation = self.notation.clone();
        let mut w = World::new(p, &notation, false);
        for r in &res.recs {
            let op = &p.threads[r.thr].ops[r.op];
            let exp = w.step(op);
            if r.kind == K_PANIC {
                return v("panic", format!("{} panicked: {}", describe(p, r, op), r.text));
            }
            match &exp {
                Exp::Parse(want) => {
                    self.note(&r.text);
                    if let Some(d) = cmp_parse(want, &r.text, false) {
                        return v("result", format!("{}: {}", describe(p, r, op), d));
                    }
                }
                Exp::Text(t) => {
                    self.note("");
                    if *t != r.text {
                        return v("result", format!("{}: {}", describe(p, r, op), diff(t, &r.text)));
                    }
                }
                _ => {}
            }
        }
        if p.stackcheck {
            let ops = &p.threads[0].ops;
            let h = ops.len() / 2;
            for i in 0..h {
                if matches!(ops[i], Op::Build { .. } | Op::MkTree { .. }) {
                    continue;
                }
                if let (Some(a), Some(b)) = (res.get(0, i), res.get(0, i + h)) {
                    if std::mem::discriminant(&ops[i]) != std::mem::discriminant(&ops[i + h]) {
                        continue;
                    }
                    if std::env::var_os("DYNSIM_STACK").is_some() {
                        eprintln!("{} {} {} -> {}", p.kind, op_name(&ops[i]), a.stack, b.stack);
                    }
                    self.note("");
                    if b.stack > a.stack + STACK_SLACK {
                        return v("stack", format!(
                            "{} used {} bytes of stack, and {} bytes for a longer input of the same depth",
                            op_name(&ops[i]), a.stack, b.stack));
                    }
                }
            }
        }
        None
    }

    fn check_mem(&mut self, p: &Plan) -> (Option<Violation>, Res) {
        let mut last = None;
        let singles: Vec<Vec<Fail>> = if p.fails.is_empty() {
            vec![vec![]]
        } else {
            p.fails.iter().map(|f| vec![f.clone()]).collect()
        };
        for f in singles {
            let mut q = p.clone();
            q.fails = f;
            let res = self.run(&q);
            let fired = res.st.alloc_failed > 0 || res.signal != 0;
            self.tot.fail_fired += fired as u64;
            let mut bad = None;
            match res.signal {
                0 => bad = ends(&q, &res),
                6 | 4 | 5 => self.tot.aborts += 1,
                _ => bad = ends(&q, &res),
            }
            if bad.is_none() {
                bad = self.mem_outcomes(&q, &res);
            }
            if bad.is_some() {
                return (bad, res);
            }
            last = Some(res);
        }
        (None, last.unwrap())
    }

    fn mem_outcomes(&mut self, p: &Plan, res: &Res) -> Option<Violation> {
        let notation = self.notation.clone();
        let mut pol = p_env(&p.pol);
        pol.cap = Policy::NONE.cap;
        pol.fail_min = Policy::NONE.fail_min;
        let mut w = World::new(p, &notation, true);
        // what a panic left behind is not defined
        let mut lost: HashSet<usize> = HashSet::new();
        for r in &res.recs {
            let op = &p.threads[r.thr].ops[r.op];
            let slot = match op {
                Op::Build { slot, .. } | Op::Parse { slot, .. } | Op::Gen { slot } => Some(*slot),
                _ => None,
            };
            if r.kind == K_PANIC {
                let global = p.fails.is_empty();
                let mine = p.fails.iter().any(|f| f.thr as usize == r.thr && f.op as usize == r.op);
                if !global && !mine {
                    return v("panic", format!("{} panicked although no allocation of its own failed: {}", describe(p, r, op), r.text));
                }
                self.tot.panics += 1;
                if let (Op::Build { .. }, Some(s)) = (op, slot) {
                    lost.insert(s);
                }
                w.step(op);
                continue;
            }
            let solo = w.alone(op);
            w.step(op);
            if slot.is_some_and(|s| lost.contains(&s)) || r.kind == K_SKIP {
                continue;
            }
            let Some(ops) = solo else { continue };
            let a = self.alone(p, ops, pol);
            self.note(&r.text);
            if a.ended.is_none() && (a.kind, &a.text) != (r.kind, &r.text) {
                let f = p.fails.first().map(|f| format!("allocation {} of call {} of thread {} failed", f.k + 1, f.op, f.thr));
                return v("differs", format!(
                    "{} returned something else than without the failure ({}): {}",
                    describe(p, r, op), f.unwrap_or("memory is limited".into()), diff(&a.text, &r.text)));
            }
        }
        None
    }
}

/// The rounds of a plan in the opposite order.
fn backwards(p: &Plan) -> Option<Plan> {
    let mut q = p.clone();
    q.decs.clear();
    match p.kind.as_str() {
        "windows" if p.threads.len() == 1 => {
            let ops = &p.threads[0].ops;
            let mut v: Vec<&[Op]> = ops.split_inclusive(|o| matches!(o, Op::Snap {})).collect();
            v.reverse();
            q.threads[0].ops = v.concat();
        }
        "generations" => {
            // each begins with a snapshot, the last one has nothing else
            let n = p.threads.len() - 1;
            for i in 0..n {
                q.threads[i].ops = p.threads[n - 1 - i].ops.clone();
            }
        }
        "rounds" if p.threads.len() % 2 == 0 => {
            let n = p.threads.len() / 2;
            for i in 0..n {
                for k in 0..2 {
                    q.threads[2 * i + k].ops = p.threads[2 * (n - 1 - i) + k].ops.clone();
                }
            }
        }
        _ => return None,
    }
    Some(q)
}

pub const STACK_SLACK: u64 = 32 << 10;

/// The environment of a policy, without its schedule.
fn p_env(p: &Policy) -> Policy {
    Policy {
        mean: 0,
        logu: false,
        pconf: 0,
        pbound: 0,
        pstall: 0,
        max_stalls: 0,
        forever: false,
        mix_forced: false,
        spurious: 0,
        strict: false,
        ..*p
    }
}

