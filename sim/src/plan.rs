//! What one simulated run does: rule sets, texts, the callers' operations, the environment, the
//! schedule and the faults. A run is a function of its plan and the code.

use crate::model::{Ex, Gram, Tn};
use crate::{ser_enum, ser_struct};

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(C)]
pub struct Dec {
    pub thr: u8,
    pub kind: u8,
    pub target: u8,
    pub op: u32,
    pub step: u64,
    pub arg: i64,
}
ser_struct!(Dec { thr, kind, target, op, step, arg });

/// Environment and scheduling policy.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Policy {
    // schedule
    pub mean: u64, // mean steps between suspensions, 0: none
    pub logu: bool,
    pub pconf: u8,  // % suspensions at accesses to state shared between threads
    pub pbound: u8, // % switches between calls
    pub pstall: u8, // % of such accesses at which a caller is stalled
    pub max_stalls: u8,
    pub forever: bool,
    pub mix_forced: bool,
    pub spurious: u8,
    /// numbers of the accesses to shared state at which the caller is stalled
    pub hot1: u64,
    pub hot2: u64,
    /// a suspended caller is not resumed while another one waits for it
    pub strict: bool,
    // environment
    pub clock0: u64,
    pub wall0: i64,
    pub tick: u64, // simulated ns per step
    pub pid: u32,
    pub cpus: u32,
    pub env: u64,
    pub hash_seed: u64,
    pub reuse: u8,
    pub fill: u8,
    pub gap: usize,
    pub base_off: usize,
    pub inplace: bool,
    /// blocks are aligned as asked for and no better, at seeded places
    pub odd: u64,
    pub cap: usize,
    pub fail_min: usize,
}
ser_struct!(Policy {
    mean, logu, pconf, pbound, pstall, max_stalls, forever, mix_forced, spurious, hot1, hot2, strict, clock0, wall0,
    tick, pid, cpus, env, hash_seed, reuse, fill, gap, base_off, inplace, odd, cap, fail_min
});

impl Policy {
    pub const NONE: Policy = Policy {
        mean: 0,
        logu: false,
        pconf: 0,
        pbound: 0,
        pstall: 0,
        max_stalls: 0,
        forever: false,
        mix_forced: false,
        spurious: 0,
        hot1: 0,
        hot2: 0,
        strict: false,
        clock0: 1_000_000_000_000,
        wall0: 0,
        tick: 7,
        pid: 4242,
        cpus: 4,
        env: 0,
        hash_seed: 1,
        reuse: 1,
        fill: 0xA5,
        gap: 0,
        base_off: 0,
        inplace: false,
        odd: 0,
        cap: 1 << 30,
        fail_min: usize::MAX,
    };
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// build rule set `slot` from grammar `g`; `how`: way of building, `order`: insertion order
    Build { slot: usize, g: usize, how: u8, order: u64 },
    Compile { text: usize, slot: Option<usize> },
    Add { slot: usize, g: usize, rule: usize },
    Merge { dst: usize, src: usize },
    Parse { slot: usize, text: usize, debug: bool, keep: Option<usize> },
    Gen { slot: usize },
    Dump { slot: usize },
    DropRules { slot: usize },
    /// build, parse and drop, all private to the caller
    Session { g: usize, text: usize, debug: bool, order: u64 },
    MkTree { tree: usize, spec: usize },
    Tx { tree: usize, chain: Vec<Tx>, dst: Option<usize> },
    DumpTree { tree: usize },
    DropTree { tree: usize },
    /// note the retained memory
    Snap {},
    /// the `n` calls before it again, `times` times; with `vary`, on texts, names and literals
    /// that differ each time ("zq" gets a number)
    Again { n: usize, times: u64, vary: bool },
}
ser_enum!(Op {
    Build { slot, g, how, order },
    Compile { text, slot },
    Add { slot, g, rule },
    Merge { dst, src },
    Parse { slot, text, debug, keep },
    Gen { slot },
    Dump { slot },
    DropRules { slot },
    Session { g, text, debug, order },
    MkTree { tree, spec },
    Tx { tree, chain, dst },
    DumpTree { tree },
    DropTree { tree },
    Snap {},
    Again { n, times, vary },
});

#[derive(Clone, Debug, PartialEq)]
pub enum Tx {
    Compact {},
    Prune { names: Vec<String> },
    Pass { names: Vec<String> },
    /// only as the last one
    Flatten {},
    /// only as the last one: a walk over the tree, or its flattened form, with the readers
    Read { flat: bool, steps: Vec<Step> },
}
ser_enum!(Tx { Compact {}, Prune { names }, Pass { names }, Flatten {}, Read { flat, steps } });

/// reader `f` for `name`
#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub f: u8,
    pub name: String,
}
ser_struct!(Step { f, name });

#[derive(Clone, Debug, PartialEq)]
pub struct Thread {
    pub ops: Vec<Op>,
    pub after: Option<usize>,
    pub stack: usize,
}
ser_struct!(Thread { ops, after, stack });

/// the `n` allocations after the first `k` ones of that call fail
#[derive(Clone, Debug, PartialEq)]
pub struct Fail {
    pub thr: u8,
    pub op: u32,
    pub k: u64,
    pub n: u64,
}
ser_struct!(Fail { thr, op, k, n });

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub kind: String,
    pub seed: u64,
    pub grams: Vec<Gram>,
    pub texts: Vec<String>,
    pub trees: Vec<Tn>,
    pub threads: Vec<Thread>,
    pub pol: Policy,
    pub replay: bool,
    pub decs: Vec<Dec>,
    pub fails: Vec<Fail>,
    pub stackcheck: bool,
}
ser_struct!(Plan {
    prop, kind, seed, grams, texts, trees, threads, pol, replay, decs, fails, stackcheck
});

impl Plan {
    pub fn new(prop: &str, kind: &str, seed: u64) -> Plan {
        Plan {
            prop: prop.into(),
            kind: kind.into(),
            seed,
            grams: vec![],
            texts: vec![],
            trees: vec![],
            threads: vec![],
            pol: Policy::NONE,
            replay: false,
            decs: vec![],
            fails: vec![],
            stackcheck: false,
        }
    }
    pub fn nops(&self) -> usize {
        self.threads.iter().map(|t| t.ops.len()).sum()
    }
}

use crate::ser::Ser;

pub const STACK: usize = 64 << 20;

pub const MARK: &str = "zq";

impl Op {
    /// Changes the names it looks for.
    pub fn map_names(&mut self, f: &dyn Fn(&str) -> String) {
        if let Op::Tx { chain, .. } = self {
            for c in chain {
                match c {
                    Tx::Prune { names } | Tx::Pass { names } => names.iter_mut().for_each(|n| *n = f(n)),
                    Tx::Read { steps, .. } => steps.iter_mut().for_each(|s| s.name = f(&s.name)),
                    _ => {}
                }
            }
        }
    }
}

impl Plan {
    /// Sets the texts, names and literals of `p` that `ops` use, with a number after each mark.
    pub fn vary(&mut self, p: &Plan, ops: &[Op], k: u64) {
        let to = format!("{}{}", MARK, k);
        let f = |s: &str| s.replace(MARK, &to);
        let (mut texts, mut grams, mut trees) = (vec![], vec![], vec![]);
        for o in ops {
            match o {
                Op::Build { g, .. } | Op::Add { g, .. } => grams.push(*g),
                Op::Compile { text, .. } | Op::Parse { text, .. } => texts.push(*text),
                Op::Session { g, text, .. } => {
                    grams.push(*g);
                    texts.push(*text);
                }
                Op::MkTree { spec, .. } => trees.push(*spec),
                _ => {}
            }
        }
        for v in [&mut texts, &mut grams, &mut trees] {
            v.sort();
            v.dedup();
        }
        for i in texts {
            self.texts[i] = f(&p.texts[i]);
        }
        for i in grams {
            for (x, y) in self.grams[i].rules.iter_mut().zip(&p.grams[i].rules) {
                x.0 = f(&y.0);
                x.1 = y.1.clone();
                map_strings(&mut x.1, &f);
            }
        }
        for i in trees {
            self.trees[i] = p.trees[i].clone();
            map_tree(&mut self.trees[i], &f);
        }
    }
}

pub fn map_strings(e: &mut Ex, f: &dyn Fn(&str) -> String) {
    match e {
        Ex::Lit { s } | Ex::Err { s } | Ex::Ref { s } => *s = f(s),
        Ex::Not { e } | Ex::Rep { e, .. } => map_strings(e, f),
        Ex::Seq { v } | Ex::Alt { v } => v.iter_mut().for_each(|x| map_strings(x, f)),
        _ => {}
    }
}

pub fn map_tree(t: &mut Tn, f: &dyn Fn(&str) -> String) {
    match t {
        Tn::Val { s } => *s = f(s),
        Tn::Rule { s, v } => {
            *s = f(s);
            v.iter_mut().for_each(|x| map_tree(x, f));
        }
        _ => {}
    }
}

/// Of the values a plan is about, as written in it.
pub fn size(p: &Plan) -> usize {
    let mut n = p.texts.iter().map(|t| t.len()).sum();
    for t in &p.trees {
        let mut o = String::new();
        t.ser(&mut o);
        n += o.len();
    }
    for g in &p.grams {
        for r in &g.rules {
            let mut o = String::new();
            r.1.ser(&mut o);
            n += o.len() + r.0.len();
        }
    }
    n
}
