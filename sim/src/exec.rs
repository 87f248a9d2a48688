//! Runs a plan against the real library in a child forked from a process that never called it.

use crate::model::{self, Ex, Map, Tn};
use crate::plan::{Dec, Op, Plan, Step, Tx};
use crate::rng::Rng;
use crate::sched::{self, Shm};
use crate::{arena, sys};
use dynparser::ast::{self, flat, Node};
use dynparser::parser::atom::{Atom, MatchRules};
use dynparser::parser::expression::{Expression, MultiExpr, RepInfo, SetOfRules};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const TREE0: usize = 32; // tree slots follow the rule slots in the table of holds

pub const K_OK: u8 = 0;
pub const K_PANIC: u8 = 1;
pub const K_SKIP: u8 = 2;

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub thr: usize,
    pub op: usize,
    pub kind: u8,
    pub steps: u64,
    pub allocs: u64,
    pub stack: u64,
    pub text: String,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub stalls: u64,
    pub forever: u64,
    pub clock_jumps: u64,
    pub clock_reads: u64,
    pub randoms: u64,
    pub futex_waits: u64,
    pub statics: u64,
    pub hots: u64,
    pub conflicts: u64,
    pub spurious: u64,
    pub threads_made: u64,
    pub sim_ns: u64,
    pub sig: u64,
    pub allocs: u64,
    pub reused: u64,
    pub alloc_failed: u64,
    pub live_bytes: u64,
    pub live_blocks: u64,
}

#[derive(Clone, Debug)]
pub struct Res {
    /// exit: 0 or the signal that ended the run
    pub signal: i32,
    pub status: u32,
    pub msg: String,
    pub at: (usize, usize),
    pub recs: Vec<Rec>,
    pub decs: Vec<Dec>,
    pub st: Stats,
}

impl Res {
    pub fn clean(&self) -> bool {
        self.signal == 0 && self.status == sched::DONE
    }
    pub fn get(&self, thr: usize, op: usize) -> Option<&Rec> {
        self.recs.iter().find(|r| r.thr == thr && r.op == op)
    }
    /// Everything that a repetition of the run has to reproduce.
    pub fn log_hash(&self) -> u64 {
        let mut h = crate::rng::mix(self.status as u64 ^ ((self.signal as u64) << 32) ^ self.st.sig);
        for r in &self.recs {
            h = crate::rng::mix(
                h ^ r.steps ^ (r.allocs << 32) ^ ((r.thr as u64) << 56) ^ ((r.op as u64) << 48),
            );
            h = crate::rng::hash_bytes(h, r.text.as_bytes());
        }
        for d in &self.decs {
            h = crate::rng::mix(h ^ d.step ^ ((d.op as u64) << 32) ^ ((d.thr as u64) << 8) ^ d.target as u64);
        }
        crate::rng::mix(h ^ self.st.steps ^ self.st.switches ^ self.st.allocs)
    }
}

// ------------------------------------------------------------------ conversions

pub fn to_expr(e: &Ex) -> Expression {
    match e {
        Ex::Lit { s } => Expression::Simple(Atom::Literal(s.clone())),
        Ex::Cls { chars, ranges } => {
            Expression::Simple(Atom::Match(MatchRules::init(chars, ranges.clone())))
        }
        Ex::Dot {} => Expression::Simple(Atom::Dot),
        Ex::Eof {} => Expression::Simple(Atom::EOF),
        Ex::Err { s } => Expression::Simple(Atom::Error(s.clone())),
        Ex::Seq { v } => Expression::And(MultiExpr::new(v.iter().map(to_expr).collect())),
        Ex::Alt { v } => Expression::Or(MultiExpr::new(v.iter().map(to_expr).collect())),
        Ex::Not { e } => Expression::Not(Box::new(to_expr(e))),
        Ex::Rep { e, min, max } => {
            Expression::Repeat(RepInfo::new(Box::new(to_expr(e)), *min, *max))
        }
        Ex::Ref { s } => Expression::RuleName(s.clone()),
    }
}

fn from_expr(e: &Expression) -> Ex {
    match e {
        Expression::Simple(Atom::Literal(s)) => Ex::Lit { s: s.clone() },
        Expression::Simple(Atom::Error(s)) => Ex::Err { s: s.clone() },
        Expression::Simple(Atom::Dot) => Ex::Dot {},
        Expression::Simple(Atom::EOF) => Ex::Eof {},
        Expression::Simple(Atom::Match(m)) => {
            Ex::Cls { chars: m.chars().to_string(), ranges: m.ranges().clone() }
        }
        Expression::And(m) => Ex::Seq { v: m.0.iter().map(from_expr).collect() },
        Expression::Or(m) => Ex::Alt { v: m.0.iter().map(from_expr).collect() },
        Expression::Not(e) => Ex::Not { e: Box::new(from_expr(e)) },
        Expression::Repeat(r) => Ex::Rep {
            e: Box::new(from_expr(&r.expression)),
            min: r.min.to_string().parse().unwrap_or(usize::MAX),
            max: r.max.as_ref().map(|m| m.to_string().parse().unwrap_or(usize::MAX)),
        },
        Expression::RuleName(s) => Ex::Ref { s: s.clone() },
    }
}

fn dump(r: &SetOfRules) -> String {
    let m: Map = r.0.iter().map(|(n, e)| (n.clone(), from_expr(e))).collect();
    model::render_map(&m)
}

fn to_node(t: &Tn) -> Node {
    match t {
        Tn::Val { s } => Node::Val(s.clone()),
        Tn::Rule { s, v } => Node::Rule((s.clone(), v.iter().map(to_node).collect())),
        Tn::Eof {} => Node::EOF,
    }
}

fn render_node(t: &Node, o: &mut String) {
    use std::fmt::Write;
    match t {
        Node::Val(s) => write!(o, "{:?}", s).unwrap(),
        Node::Rule((s, v)) => {
            write!(o, "({:?}", s).unwrap();
            for x in v {
                o.push(' ');
                render_node(x, o);
            }
            o.push(')');
        }
        Node::EOF => o.push_str("EOF"),
    }
}

fn render_flat(v: &[flat::Node]) -> String {
    use std::fmt::Write;
    let mut o = String::new();
    for n in v {
        match n {
            flat::Node::Val(s) => write!(o, "V{:?} ", s).unwrap(),
            flat::Node::BeginRule(s) => write!(o, "B{:?} ", s).unwrap(),
            flat::Node::EndRule(s) => write!(o, "E{:?} ", s).unwrap(),
            flat::Node::EOF => o.push_str("EOF "),
        }
    }
    o
}

fn perr(e: &dynparser::parser::Error) -> String {
    use dynparser::parser::ErrPriority;
    model::PErr {
        n: e.pos.n,
        row: e.pos.row,
        col: e.pos.col,
        start_line: e.pos.start_line,
        descr: e.descr.clone(),
        before: e.line_before.clone(),
        after: e.line_after.clone(),
        rules: e.parsing_rules.clone(),
        crit: e.priority == ErrPriority::Critical,
    }
    .render()
}

fn parse_text(r: &Result<Node, dynparser::parser::Error>) -> String {
    match r {
        Ok(n) => {
            let mut o = String::from("OK ");
            render_node(n, &mut o);
            o
        }
        Err(e) => perr(e),
    }
}

fn compile_text(r: &Result<SetOfRules, dynparser::peg::Error>) -> String {
    match r {
        Ok(r) => format!("OK\n{}", dump(r)),
        Err(dynparser::peg::Error::Parser(e)) => perr(e),
        Err(e) => format!("ERR other: {}", e),
    }
}

// ------------------------------------------------------------------ child

struct Global {
    plan: *const Plan,
    shm: *mut Shm,
    // boxed: kept in the arena, where accesses of several threads are seen
    rules: [Option<Box<SetOfRules>>; 32],
    trees: [Option<Box<Node>>; 32],
    /// the flat forms, with end-of-file nodes, of trees not built by the library
    flats: [Option<Box<Vec<flat::Node>>>; 32],
    last_panic: [String; sched::MAXT + 1],
}
static mut G: Global = Global {
    plan: std::ptr::null(),
    shm: std::ptr::null_mut(),
    rules: [const { None }; 32],
    trees: [const { None }; 32],
    flats: [const { None }; 32],
    last_panic: [const { String::new() }; sched::MAXT + 1],
};

// Shared between the simulated threads: exactly what `&T: Send` and `T: Send` promise, and
// deliberately not required of the compiler, so that a change that takes it away still builds
// and is reported by `sync_traits`.
fn g() -> &'static mut Global {
    unsafe { &mut *std::ptr::addr_of_mut!(G) }
}

/// Which of the promises "rule sets and trees can be shared and moved" the types keep.
pub fn sync_traits() -> Vec<(&'static str, &'static str, bool)> {
    struct W<T>(std::marker::PhantomData<T>);
    trait No {
        const SEND: bool = false;
        const SYNC: bool = false;
    }
    impl<T> No for W<T> {}
    struct S<T>(std::marker::PhantomData<T>);
    trait NoS {
        const SEND: bool = false;
    }
    impl<T> NoS for S<T> {}
    impl<T: Sync> W<T> {
        const SYNC: bool = true;
    }
    impl<T: Send> S<T> {
        const SEND: bool = true;
    }
    let _ = <W<u8> as No>::SEND;
    vec![
        ("C01", "a rule set can be shared by threads", W::<SetOfRules>::SYNC),
        ("C05", "a rule set can be moved to another thread", S::<SetOfRules>::SEND),
        ("C05", "an expression can be moved to another thread", S::<Expression>::SEND),
        ("C13", "a tree can be shared by threads", W::<Node>::SYNC),
        ("C14", "a node list can be shared by threads", W::<flat::Node>::SYNC),
        ("C02", "an error can be moved to another thread", S::<dynparser::parser::Error>::SEND),
        ("C06", "a compilation error can be moved to another thread", S::<dynparser::peg::Error>::SEND),
    ]
}

fn put(thr: usize, op: usize, kind: u8, stack: u64, order: u64, text: &str) {
    let h = unsafe { &mut *g().shm };
    let b = text.as_bytes();
    let need = 56 + b.len();
    if h.out_len + need > sched::OUT {
        sched::die(sched::HARNESS, "output area full");
    }
    let mut w = |v: u64| {
        let l = h.out_len;
        h.out[l..l + 8].copy_from_slice(&v.to_le_bytes());
        h.out_len += 8;
    };
    w(thr as u64);
    w(op as u64);
    w(kind as u64);
    w(sched::op_steps());
    w(sched::op_allocs());
    w(stack | order << 32);
    w(b.len() as u64);
    let l = h.out_len;
    h.out[l..l + b.len()].copy_from_slice(b);
    h.out_len += b.len();
}

fn call<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    sched::call(|| catch_unwind(AssertUnwindSafe(f)).map_err(|p| drop(p)))
}

/// One call whose result is shown by `f`, then dropped as part of the call.
fn shown<R>(c: impl FnOnce() -> R, f: impl FnOnce(&R) -> String) -> (u8, String) {
    match call(c) {
        Err(()) => (K_PANIC, String::new()),
        Ok(r) => {
            let t = f(&r);
            match call(move || drop(r)) {
                Ok(()) => (K_OK, t),
                Err(()) => (K_PANIC, String::new()),
            }
        }
    }
}

fn build_order(p: &Plan, gi: usize, order: u64) -> Vec<(String, Ex)> {
    let mut v: Vec<_> = p.grams[gi].map().into_iter().collect();
    Rng::new(order).shuffle(&mut v);
    v
}

fn build(rules: &[(String, Ex)], how: u8) -> SetOfRules {
    match how {
        0 => SetOfRules::new(rules.iter().map(|(n, e)| (n.clone(), to_expr(e))).collect()),
        1 => rules
            .iter()
            .fold(SetOfRules::new(HashMap::new()), |s, (n, e)| s.add(n, to_expr(e))),
        2 => {
            let k = rules.len() / 2;
            build(&rules[..k], 0).merge(build(&rules[k..], 1))
        }
        3 => rules.iter().fold(SetOfRules::new(HashMap::new()), |s, (n, e)| {
            s.add(n, Expression::Simple(Atom::Dot)).add(n, to_expr(e))
        }),
        _ => rules.iter().fold(SetOfRules::new(HashMap::new()), |s, (n, e)| {
            s.merge(SetOfRules::new(HashMap::new()).add(n, to_expr(e)))
        }),
    }
}

/// In memory that is the callers' and used again.
fn owned(v: &[String]) -> Vec<String> {
    sched::uncounted(|| arena::within(|| v.to_vec()))
}

fn names<'a>(v: &'a [String]) -> Vec<&'a str> {
    v.iter().map(|s| s.as_str()).collect()
}

/// In the arena, and no allocation of the library's.
fn boxed<T>(x: T) -> Box<T> {
    sched::uncounted(|| arena::within(|| Box::new(x)))
}

fn do_op(p: &Plan, op: &Op) -> (u8, String) {
    let gl = g();
    let skip = || (K_SKIP, String::new());
    match op {
        Op::Build { slot, g: gi, how, order } => {
            sched::hold(*slot, true);
            let rules = build_order(p, *gi, *order);
            let r = match call(|| {
                let n = build(&rules, *how);
                gl.rules[*slot].replace(boxed(n)).map(drop);
            }) {
                Ok(()) => (K_OK, String::new()),
                Err(()) => (K_PANIC, String::new()),
            };
            sched::release(*slot);
            r
        }
        Op::Compile { text, slot } => {
            if let Some(s) = slot {
                sched::hold(*s, true);
            }
            let t = arena::within(|| p.texts[*text].clone());
            let r = match slot {
                None => shown(|| dynparser::rules_from_peg(&t), compile_text),
                Some(s) => match call(|| dynparser::rules_from_peg(&t)) {
                    Err(()) => (K_PANIC, String::new()),
                    Ok(r) => {
                        let txt = compile_text(&r);
                        let _ = call(|| {
                            gl.rules[*s].take();
                            gl.rules[*s] = r.ok().map(boxed);
                        });
                        (K_OK, txt)
                    }
                },
            };
            drop(t);
            if let Some(s) = slot {
                sched::release(*s);
            }
            r
        }
        Op::Add { slot, g: gi, rule } => {
            sched::hold(*slot, true);
            let r = match gl.rules[*slot].take() {
                None => skip(),
                Some(s) => {
                    let (n, e) = &p.grams[*gi].rules[*rule];
                    match call(|| boxed(s.add(n, to_expr(e)))) {
                        Ok(s) => {
                            gl.rules[*slot] = Some(s);
                            (K_OK, String::new())
                        }
                        Err(()) => (K_PANIC, String::new()),
                    }
                }
            };
            sched::release(*slot);
            r
        }
        Op::Merge { dst, src } => {
            let (a, b) = (*dst.min(src), *dst.max(src));
            sched::hold(a, true);
            if a != b {
                sched::hold(b, true);
            }
            let r = if a == b || gl.rules[*dst].is_none() || gl.rules[*src].is_none() {
                skip()
            } else {
                let d = gl.rules[*dst].take().unwrap();
                let s = gl.rules[*src].take().unwrap();
                match call(|| boxed(d.merge(*s))) {
                    Ok(s) => {
                        gl.rules[*dst] = Some(s);
                        (K_OK, String::new())
                    }
                    Err(()) => (K_PANIC, String::new()),
                }
            };
            sched::release(a);
            if a != b {
                sched::release(b);
            }
            r
        }
        Op::Parse { slot, text, debug, keep } => {
            sched::hold(*slot, false);
            if let Some(k) = keep {
                sched::hold(TREE0 + k, true);
            }
            let r = match &gl.rules[*slot] {
                None => skip(),
                Some(rules) => {
                    let t = arena::within(|| p.texts[*text].clone());
                    let f = || {
                        if *debug {
                            dynparser::parse_debug(&t, rules)
                        } else {
                            dynparser::parse(&t, rules)
                        }
                    };
                    let r = match keep {
                        None => shown(f, parse_text),
                        Some(k) => match call(f) {
                            Err(()) => (K_PANIC, String::new()),
                            Ok(r) => {
                                let txt = parse_text(&r);
                                let _ = call(|| {
                                    gl.flats[*k].take();
                                    gl.trees[*k].take();
                                    gl.trees[*k] = r.ok().map(boxed);
                                });
                                (K_OK, txt)
                            }
                        },
                    };
                    drop(t);
                    r
                }
            };
            if let Some(k) = keep {
                sched::release(TREE0 + k);
            }
            sched::release(*slot);
            r
        }
        Op::Gen { slot } => {
            sched::hold(*slot, false);
            let r = match &gl.rules[*slot] {
                None => skip(),
                Some(rules) => shown(|| dynparser::peg::gcode::rust_from_rules(rules), |s| s.clone()),
            };
            sched::release(*slot);
            r
        }
        Op::Dump { slot } => {
            sched::hold(*slot, false);
            let r = match &gl.rules[*slot] {
                None => skip(),
                Some(rules) => (K_OK, dump(rules)),
            };
            sched::release(*slot);
            r
        }
        Op::DropRules { slot } => {
            sched::hold(*slot, true);
            let r = match gl.rules[*slot].take() {
                None => skip(),
                Some(r) => match call(move || drop(r)) {
                    Ok(()) => (K_OK, String::new()),
                    Err(()) => (K_PANIC, String::new()),
                },
            };
            sched::release(*slot);
            r
        }
        Op::Session { g: gi, text, debug, order } => {
            let rules = build_order(p, *gi, *order);
            let t = arena::within(|| p.texts[*text].clone());
            shown(
                || {
                    let r = build(&rules, (*order % 2) as u8);
                    if *debug {
                        dynparser::parse_debug(&t, &r)
                    } else {
                        dynparser::parse(&t, &r)
                    }
                },
                parse_text,
            )
        }
        Op::MkTree { tree, spec } => {
            sched::hold(TREE0 + tree, true);
            arena::within(|| {
                gl.trees[*tree].take();
                gl.trees[*tree] = Some(Box::new(to_node(&p.trees[*spec])));
                gl.flats[*tree] = None;
                if reads_flat(p) {
                    let mut v = vec![];
                    to_flat(&p.trees[*spec], &mut v);
                    gl.flats[*tree] = Some(Box::new(v));
                }
            });
            sched::release(TREE0 + tree);
            (K_OK, String::new())
        }
        Op::Tx { tree, chain, dst } => {
            // always in the same order
            for k in 0..32 {
                if k == *tree {
                    sched::hold(TREE0 + k, false);
                } else if Some(k) == *dst {
                    sched::hold(TREE0 + k, true);
                }
            }
            let r = match &gl.trees[*tree] {
                None => skip(),
                Some(t) => do_tx(g(), *tree, t, chain, dst.filter(|d| d != tree)),
            };
            if let Some(d) = dst {
                if d != tree {
                    sched::release(TREE0 + d);
                }
            }
            sched::release(TREE0 + tree);
            r
        }
        Op::DumpTree { tree } => {
            sched::hold(TREE0 + tree, false);
            let r = match &gl.trees[*tree] {
                None => skip(),
                Some(t) => {
                    let mut o = String::new();
                    render_node(t, &mut o);
                    (K_OK, o)
                }
            };
            sched::release(TREE0 + tree);
            r
        }
        Op::DropTree { tree } => {
            sched::hold(TREE0 + tree, true);
            arena::within(|| gl.flats[*tree].take());
            let r = match gl.trees[*tree].take() {
                None => skip(),
                Some(r) => match call(move || drop(r)) {
                    Ok(()) => (K_OK, String::new()),
                    Err(()) => (K_PANIC, String::new()),
                },
            };
            sched::release(TREE0 + tree);
            r
        }
        Op::Again { .. } => skip(),
        Op::Snap {} => {
            let a = unsafe { &*std::ptr::addr_of!(arena::A) };
            (K_OK, format!("{} {}", a.live_bytes, a.live_blocks))
        }
    }
}

fn do_tx(gl: &mut Global, slot: usize, t: &Node, chain: &[Tx], dst: Option<usize>) -> (u8, String) {
    let flatten = matches!(chain.last(), Some(Tx::Flatten {}));
    let read = matches!(chain.last(), Some(Tx::Read { .. }));
    let steps = if flatten || read { &chain[..chain.len() - 1] } else { chain };
    let apply = |mut cur: Option<Node>| -> Option<Node> {
        for s in steps {
            let src = cur.as_ref().unwrap_or(t);
            let n = match s {
                Tx::Compact {} => src.compact(),
                Tx::Prune { names: v } => {
                    let v = owned(v);
                    src.prune(&names(&v))
                }
                Tx::Pass { names: v } => {
                    let v = owned(v);
                    src.pass_through_except(&names(&v))
                }
                Tx::Flatten {} | Tx::Read { .. } => continue,
            };
            cur = Some(n);
        }
        cur
    };
    if let Some(Tx::Read { flat, steps: reads }) = chain.last() {
        let Ok(n) = call(|| apply(None)) else { return (K_PANIC, String::new()) };
        let t = n.as_ref().unwrap_or(t);
        let mut o = String::new();
        let r = match &gl.flats[slot] {
            _ if !*flat => read_tree(t, reads, &mut o),
            Some(v) if n.is_none() => read_flat(v, reads, &mut o),
            _ => match call(|| t.flatten()) {
                Err(()) => Err(()),
                Ok(v) => {
                    let r = read_flat(&v, reads, &mut o);
                    let _ = call(move || drop(v));
                    r
                }
            },
        };
        let _ = call(move || drop(n));
        return match r {
            Ok(()) => (K_OK, o),
            Err(()) => (K_PANIC, String::new()),
        };
    }
    if flatten {
        return shown(
            || {
                let n = apply(None);
                n.as_ref().unwrap_or(t).flatten()
            },
            |v| render_flat(v),
        );
    }
    match call(|| apply(None)) {
        Err(()) => (K_PANIC, String::new()),
        Ok(None) => (K_SKIP, String::new()),
        Ok(Some(n)) => {
            let mut o = String::new();
            render_node(&n, &mut o);
            match dst {
                Some(d) => {
                    let _ = call(|| {
                        gl.flats[d].take();
                        gl.trees[d].take();
                        gl.trees[d] = Some(boxed(n));
                    });
                }
                None => {
                    let _ = call(move || drop(n));
                }
            }
            (K_OK, o)
        }
    }
}

fn reads_flat(p: &Plan) -> bool {
    p.threads.iter().any(|t| {
        t.ops.iter().any(|o| matches!(o, Op::Tx { chain, .. } if matches!(chain[..], [Tx::Read { flat: true, .. }])))
    })
}

fn to_flat(t: &Tn, v: &mut Vec<flat::Node>) {
    match t {
        Tn::Val { s } => v.push(flat::Node::Val(s.clone())),
        Tn::Eof {} => v.push(flat::Node::EOF),
        Tn::Rule { s, v: k } => {
            v.push(flat::Node::BeginRule(s.clone()));
            k.iter().for_each(|x| to_flat(x, v));
            v.push(flat::Node::EndRule(s.clone()));
        }
    }
}

fn tag(t: &Node) -> String {
    match t {
        Node::Val(s) => format!("V{:?}", s),
        Node::Rule((s, v)) => format!("R{:?}#{}", s, v.len()),
        Node::EOF => "EOF".into(),
    }
}

fn ftag(t: &flat::Node) -> String {
    match t {
        flat::Node::Val(s) => format!("V{:?}", s),
        flat::Node::BeginRule(s) => format!("B{:?}", s),
        flat::Node::EndRule(s) => format!("E{:?}", s),
        flat::Node::EOF => "EOF".into(),
    }
}

/// One reader called; what it found, if it did.
fn rd<R>(f: impl FnOnce() -> Result<R, ast::Error>, o: &mut String) -> Result<Option<R>, ()> {
    match call(f)? {
        Ok(r) => Ok(Some(r)),
        Err(e) => {
            o.push_str(&format!("ERR {:?} {:?}\n", e.0, e.1));
            call(move || drop(e))?;
            Ok(None)
        }
    }
}

/// `rest` should be what follows the first of `l`.
fn rest<T: PartialEq>(l: &[T], rest: &[T]) -> String {
    if l.is_empty() || (rest.as_ptr() != l[1..].as_ptr() && rest != &l[1..]) || rest.len() + 1 != l.len() {
        return format!("rest {} other nodes", rest.len());
    }
    format!("rest {}", rest.len())
}

fn read_tree(t: &Node, steps: &[Step], o: &mut String) -> Result<(), ()> {
    let mut stack: Vec<&[Node]> = vec![std::slice::from_ref(t)];
    for s in steps {
        let top = stack.len() - 1;
        let own = arena::within(|| s.name.clone());
        let (l, n) = (stack[top], own.as_str());
        match s.f {
            model::UP => {
                if stack.len() > 1 {
                    stack.pop();
                }
                o.push_str("up\n");
            }
            0 => {
                if let Some((x, r)) = rd(|| ast::split_first_nodes(l), o)? {
                    o.push_str(&format!("ok {} {}\n", tag(x), rest(l, r)));
                    stack[top] = r;
                }
            }
            1 => {
                if let Some(x) = rd(|| ast::peek_first_node(l), o)? {
                    o.push_str(&format!("ok {}\n", tag(x)));
                }
            }
            2 => {
                if let Some((x, r)) = rd(|| ast::consume_val(l), o)? {
                    o.push_str(&format!("ok {:?} {}\n", x, rest(l, r)));
                    stack[top] = r;
                }
            }
            3 => {
                if let Some(r) = rd(|| ast::consume_this_value(n, l), o)? {
                    o.push_str(&format!("ok {}\n", rest(l, r)));
                    stack[top] = r;
                }
            }
            4 | 5 => {
                if let Some((r, v)) = rd(|| ast::consume_node_get_subnodes_for_rule_name_is(n, l), o)? {
                    o.push_str(&format!("ok {} nodes {}\n", rest(l, r), v.len()));
                    stack[top] = r;
                    if s.f == 4 {
                        stack.push(v);
                    }
                }
            }
            6 => {
                if rd(|| ast::check_empty_nodes(l), o)?.is_some() {
                    o.push_str("ok empty\n");
                }
            }
            7 => {
                if let Some(x) = rd(|| ast::get_nodes_unique_val(l), o)? {
                    o.push_str(&format!("ok {:?}\n", x));
                }
            }
            _ if l.is_empty() => o.push_str("ok none\n"),
            8 => {
                if let Some(x) = rd(|| ast::get_node_val(&l[0]), o)? {
                    o.push_str(&format!("ok {:?}\n", x));
                }
            }
            _ => {
                if let Some((x, v)) = rd(|| ast::get_nodename_and_nodes(&l[0]), o)? {
                    o.push_str(&format!("ok {:?} nodes {}\n", x, v.len()));
                }
            }
        }
    }
    Ok(())
}

fn read_flat(all: &[flat::Node], steps: &[Step], o: &mut String) -> Result<(), ()> {
    let mut l = all;
    for s in steps {
        let own = arena::within(|| s.name.clone());
        let n = own.as_str();
        match s.f {
            model::UP => o.push_str("up\n"),
            0 => {
                if let Some((x, r)) = rd(|| flat::split_first_nodes(l), o)? {
                    o.push_str(&format!("ok {} {}\n", ftag(x), rest(l, r)));
                    l = r;
                }
            }
            1 => {
                if let Some(x) = rd(|| flat::peek_first_node(l), o)? {
                    o.push_str(&format!("ok {}\n", ftag(x)));
                }
            }
            2 => {
                if let Some((x, r)) = rd(|| flat::consume_val(l), o)? {
                    o.push_str(&format!("ok {:?} {}\n", x, rest(l, r)));
                    l = r;
                }
            }
            3..=5 => {
                let r = match s.f {
                    3 => rd(|| flat::consume_this_value(n, l), o)?,
                    4 => rd(|| flat::consume_node_start_rule_name(n, l), o)?,
                    _ => rd(|| flat::consume_node_end_rule_name(n, l), o)?,
                };
                if let Some(r) = r {
                    o.push_str(&format!("ok {}\n", rest(l, r)));
                    l = r;
                }
            }
            _ if l.is_empty() => o.push_str("ok none\n"),
            6 => {
                if let Some(x) = rd(|| flat::get_node_val(&l[0]), o)? {
                    o.push_str(&format!("ok {:?}\n", x));
                }
            }
            _ => {
                if let Some(x) = rd(|| flat::get_nodename(&l[0]), o)? {
                    o.push_str(&format!("ok {:?}\n", x));
                }
            }
        }
    }
    Ok(())
}

#[inline(never)]
fn paint(lo: usize) {
    let x = 0u8;
    let sp = &x as *const u8 as usize;
    unsafe {
        let n = sp - 1024 - lo;
        std::ptr::write_bytes(lo as *mut u8, 0x77, n);
    }
}

fn high_water(lo: usize, from: usize) -> u64 {
    let mut p = lo;
    unsafe {
        while p < from && *(p as *const u64) == 0x7777_7777_7777_7777 {
            p += 8;
        }
    }
    from.saturating_sub(p) as u64
}

fn body(me: usize) {
    let p = unsafe { &*g().plan };
    let t = &p.threads[me];
    for (i, op) in t.ops.iter().enumerate() {
        sched::op_enter(i as u32);
        let mut used = 0;
        let (k, s) = if let Op::Again { n, times, vary } = op {
            (K_OK, again(p, &t.ops[i.saturating_sub(*n)..i], i, *times, *vary))
        } else if p.stackcheck {
            // the lowest address the thread may use is STACK above its guard
            let x = 0u8;
            let sp = &x as *const u8 as usize;
            let top = (sp / sched::STACK_GAP + 1) * sched::STACK_GAP;
            let lo = top - t.stack + 16;
            paint(lo);
            let r = do_op(p, op);
            used = high_water(lo, sp);
            r
        } else {
            do_op(p, op)
        };
        let s = if k == K_PANIC { g().last_panic[me].clone() } else { s };
        put(me, i, k, used, sched::order(), &s);
    }
}

/// Empty, or which of the calls had another outcome than the same call before.
fn again(p: &Plan, ops: &[Op], at: usize, times: u64, vary: bool) -> String {
    let mut q = p.clone();
    // calls that change nothing have the same outcome each time
    let fixed = !vary
        && ops.iter().all(|o| {
            matches!(
                o,
                Op::Parse { keep: None, .. }
                    | Op::Compile { slot: None, .. }
                    | Op::Gen { .. }
                    | Op::Session { .. }
                    | Op::Tx { dst: None, .. }
            )
        });
    let mut first: Vec<(u8, String)> = vec![];
    let mut mine: Vec<Op> = vec![];
    for k in 0..times {
        if vary {
            // numbers of its own
            q.vary(p, ops, (at as u64) << 32 | k);
            mine = ops.to_vec();
            let to = format!("{}{}", crate::plan::MARK, (at as u64) << 32 | k);
            mine.iter_mut().for_each(|o| o.map_names(&|s| s.replace(crate::plan::MARK, &to)));
        }
        let ops = if vary { &mine[..] } else { ops };
        for (i, o) in ops.iter().enumerate() {
            if matches!(o, Op::Snap {} | Op::Again { .. }) {
                continue;
            }
            sched::op_enter(at as u32);
            let r = do_op(&q, o);
            if !fixed {
                continue;
            }
            if k == 0 {
                first.push(r);
            } else if first[i] != r {
                return format!("call {} of {} times: {:?}\nnow {}\nbefore {}", k + 1, times, o, r.1, first[i].1);
            }
        }
    }
    String::new()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        if !sched::in_child() {
            eprintln!("harness panic: {}", i);
            return;
        }
        sched::quiet(|| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                String::from("?")
            };
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            g().last_panic[sched::me()] = format!("{} at {}", m, l);
        })
    }));
}

// ------------------------------------------------------------------ parent

pub struct Runner {
    shm: *mut Shm,
    pub runs: u64,
    pub cap: u64,
    secs: u32,
    frozen: Option<Vec<u8>>,
}

impl Runner {
    pub fn new() -> Runner {
        unsafe {
            let n = std::mem::size_of::<Shm>();
            let p = sys::mmap(
                std::ptr::null_mut(),
                n,
                sys::PROT_RW,
                sys::MAP_SHARED | sys::MAP_ANON | sys::MAP_NORESERVE,
                -1,
                0,
            );
            if p as isize == -1 {
                crate::harness_error("cannot map the shared area");
            }
            arena::reserve();
            sched::map_stacks();
            Runner { shm: p as *mut Shm, runs: 0, cap: 120_000_000, secs: 40, frozen: None }
        }
    }

    pub fn cov(&self) -> (&[u8], &[u8], u32) {
        unsafe { (&(*self.shm).cov, &(*self.shm).pairs, (*self.shm).nguards) }
    }

    /// From now on, each run starts with the changing static data known so far, and what one
    /// run finds is of no effect on the next.
    pub fn freeze(&mut self) {
        self.frozen = Some(unsafe { (*self.shm).static_mut.to_vec() });
    }

    pub fn run(&mut self, p: &Plan) -> Res {
        let r = self.run_once(p, self.cap, self.secs);
        if r.signal == 24 || r.signal == 14 {
            // without a step: one such run of full length will do
            self.secs = 8;
        }
        r
    }

    /// With a step bound `times` as high.
    pub fn run_long(&mut self, p: &Plan, times: u64) -> Res {
        self.run_once(p, self.cap * times, 8 * times as u32)
    }

    fn run_once(&mut self, p: &Plan, cap: u64, secs: u32) -> Res {
        self.runs += 1;
        let h = unsafe { &mut *self.shm };
        if let Some(f) = &self.frozen {
            h.static_mut.copy_from_slice(f);
        }
        h.status = sched::RUNNING;
        h.msg_len = 0;
        h.out_len = 0;
        h.ndec = 0;
        h.cur_op = 0;
        h.cur_thr = 0;
        unsafe {
            // all counters between `cur_step` and `live_blocks`
            let a = std::ptr::addr_of_mut!(h.cur_step) as *mut u64;
            let b = std::ptr::addr_of_mut!(h.live_blocks) as *mut u64;
            let n = b.offset_from(a) as usize + 1;
            std::ptr::write_bytes(a, 0, n);
        }
        let pid = unsafe { sys::fork() };
        if pid < 0 {
            crate::harness_error("fork failed");
        }
        if pid == 0 {
            unsafe {
                sys::prctl(1, 9, 0, 0, 0); // die with the parent
                sys::setrlimit(0, &[secs as u64, secs as u64 + 1]); // CPU seconds
                sys::setrlimit(4, &[0, 0]); // no core files
                sys::alarm(secs * 2);
                let a = &mut *std::ptr::addr_of_mut!(arena::A);
                a.reuse = p.pol.reuse;
                a.fill = p.pol.fill;
                a.gap = p.pol.gap & !15;
                a.inplace = p.pol.inplace;
                a.odd = p.pol.odd;
                a.cap = p.pol.cap;
                a.fail_min = p.pol.fail_min;
                arena::start_at(p.pol.base_off);
                g().plan = p;
                g().shm = self.shm;
            }
            sched::run(sched::Setup {
                pol: p.pol,
                decs: p.decs.clone(),
                replay: p.replay,
                fails: p.fails.iter().map(|f| (f.thr, f.op, f.k, f.n)).collect(),
                after: p.threads.iter().map(|t| t.after.unwrap_or(usize::MAX)).collect(),
                stack: p.threads.iter().map(|t| t.stack).collect(),
                cap,
                seed: p.seed,
                body,
                shm: h,
            });
        }
        let mut st = 0i32;
        loop {
            let r = unsafe { sys::waitpid(pid, &mut st, 0) };
            if r == pid {
                break;
            }
        }
        let h = unsafe { &mut *self.shm };
        let signal = st & 0x7f;
        if signal == 0 && (st >> 8) != 0 {
            crate::harness_error(&format!("child exit code {}", st >> 8));
        }
        if signal == 0 && h.status == sched::HARNESS {
            let m = String::from_utf8_lossy(&h.msg[..h.msg_len as usize]).to_string();
            crate::harness_error(&m);
        }
        let mut recs = vec![];
        let mut i = 0;
        while i + 56 <= h.out_len {
            let mut v = [0u64; 7];
            for x in v.iter_mut() {
                *x = u64::from_le_bytes(h.out[i..i + 8].try_into().unwrap());
                i += 8;
            }
            let l = v[6] as usize;
            recs.push((
                v[5] >> 32,
                Rec {
                    thr: v[0] as usize,
                    op: v[1] as usize,
                    kind: v[2] as u8,
                    steps: v[3],
                    allocs: v[4],
                    stack: v[5] & 0xffff_ffff,
                    text: String::from_utf8_lossy(&h.out[i..i + l]).into_owned(),
                },
            ));
            i += l;
        }
        // in the order in which the calls got what they use
        recs.sort_by_key(|r| r.0);
        Res {
            signal,
            status: if signal != 0 { sched::RUNNING } else { h.status },
            msg: String::from_utf8_lossy(&h.msg[..h.msg_len as usize]).to_string(),
            at: (h.cur_thr as usize, h.cur_op as usize),
            recs: recs.into_iter().map(|r| r.1).collect(),
            decs: h.decs[..h.ndec as usize].to_vec(),
            st: Stats {
                steps: h.steps,
                switches: h.switches,
                preempts: h.preempts,
                stalls: h.stalls,
                forever: h.forever,
                clock_jumps: h.clock_jumps,
                clock_reads: h.clock_reads,
                randoms: h.randoms,
                futex_waits: h.futex_waits,
                statics: h.statics,
                hots: h.hots,
                conflicts: h.conflicts,
                spurious: h.spurious,
                threads_made: h.threads_made,
                sim_ns: h.sim_ns,
                sig: h.sig,
                allocs: h.allocs,
                reused: h.reused,
                alloc_failed: h.alloc_failed,
                live_bytes: h.live_bytes,
                live_blocks: h.live_blocks,
            },
        }
    }
}
