//! Which runs are made for each property.

use crate::exec::Runner;
use crate::gen;
use crate::model::{self, alt, cls, lit, refr, rep, seq, Ex, Gram, Map, Tn};
use crate::plan::{self, *};
use crate::rng::Rng;

pub struct Mk<'a> {
    pub notation: &'a Map,
    pub runner: &'a mut Runner,
    pub thorough: bool,
}

fn thread(ops: Vec<Op>, after: Option<usize>) -> Thread {
    Thread { ops, after, stack: STACK }
}

fn parse(slot: usize, text: usize, debug: bool) -> Op {
    Op::Parse { slot, text, debug, keep: None }
}

fn add_gram(p: &mut Plan, g: Gram) -> usize {
    p.grams.push(g);
    p.grams.len() - 1
}
fn add_text(p: &mut Plan, t: String) -> usize {
    p.texts.push(t);
    p.texts.len() - 1
}

fn build(r: &mut Rng, slot: usize, g: usize) -> Op {
    Op::Build { slot, g, how: r.below(5) as u8, order: r.u64() }
}

/// a text for the rules `m`; most of them fail if `bad`
fn text_for(r: &mut Rng, m: &Map, alpha: &[char], bad: bool, fuel: u64) -> String {
    let t = gen::text(r, m, alpha, fuel);
    if bad && r.chance(60) {
        let mut t = if r.chance(30) { gen::miss(r, &t, m, alpha) } else { gen::mutate(r, &t, alpha) };
        if r.chance(25) {
            // more lines before and after
            let k = r.below(4);
            for _ in 0..k {
                let at = r.below(t.chars().count() + 1);
                t = t
                    .chars()
                    .enumerate()
                    .flat_map(|(i, c)| if i == at { vec!['\n', c] } else { vec![c] })
                    .collect();
            }
        }
        return gen::bounded(t, m, fuel);
    }
    t
}

fn fuel(r: &mut Rng) -> u64 {
    *r.pick(&[600u64, 2_000, 2_000, 8_000])
}

/// Callers that parse with shared rule sets.
fn shared(r: &mut Rng, mk: &Mk, p: &mut Plan, bad: bool) {
    let nslots = r.range(1, 2);
    let mut setup = vec![];
    let mut sets: Vec<(Map, Vec<char>)> = vec![];
    let f = fuel(r);
    let mut given: Vec<String> = vec![]; // texts meant for the last rule set
    for s in 0..nslots {
        given.clear();
        if r.chance(12) {
            // through the notation
            let (t, m) = loop {
                let (t, m) = gen::notation_text(r);
                if !gen::too_heavy(&m, f) && t.len() < 600 {
                    break (t, m);
                }
            };
            let t = add_text(p, t);
            setup.push(Op::Compile { text: t, slot: Some(s) });
            sets.push((m, "ab c\n".chars().collect()));
        } else {
            let (g, a) = if r.chance(7) {
                let (g, a, ts) = gen::special(r);
                let m = g.map();
                given = ts.into_iter().map(|t| gen::bounded(t, &m, f.max(8_000))).collect();
                (g, a)
            } else {
                gen::usable_gram(r, f, mk.notation)
            };
            let m = g.map();
            let g = add_gram(p, g);
            setup.push(build(r, s, g));
            sets.push((m, a));
        }
    }
    let nthr = *r.pick(&[1usize, 2, 2, 3, 3, 4, 6]);
    let mut threads = vec![];
    for _ in 0..nthr {
        let mut ops = vec![];
        for _ in 0..r.range(1, if nthr == 1 { 12 } else { 4 }) {
            let s = r.below(nslots);
            let t = if !p.texts.is_empty() && r.chance(20) && nslots == 1 && !matches!(setup[0], Op::Compile { .. }) {
                r.below(p.texts.len())
            } else {
                let t = if s == nslots - 1 && !given.is_empty() && r.chance(60) {
                    r.pick(&given).clone()
                } else {
                    text_for(r, &sets[s].0, &sets[s].1, bad, f)
                };
                add_text(p, t)
            };
            match r.below(20) {
                0 if !p.grams.is_empty() => {
                    let g = r.below(p.grams.len());
                    let m = p.grams[g].map();
                    let t = text_for(r, &m, &sets[s].1, bad, f);
                    let t = add_text(p, t);
                    ops.push(Op::Session { g, text: t, debug: r.chance(30), order: r.u64() });
                }
                1 if bad => {
                    ops.push(parse(s, t, false));
                    ops.push(parse(s, t, true));
                }
                _ => ops.push(parse(s, t, r.chance(if bad { 50 } else { 15 }))),
            }
        }
        threads.push(ops);
    }
    p.threads.push(thread(setup, None));
    for o in threads {
        p.threads.push(thread(o, Some(0)));
    }
    gen::some_env(r, &mut p.pol);
}

fn bigs(r: &mut Rng, p: &mut Plan) {
    let which = r.below(gen::BIGS);
    p.kind = format!("big{}", which);
    let (g, ts) = gen::big(r, which);
    let g = add_gram(p, g);
    let mut setup = vec![build(r, 0, g)];
    let mut ops = vec![];
    for t in ts {
        let t = add_text(p, t);
        ops.push(parse(0, t, false));
        if r.chance(20) && p.texts[t].len() < 3000 {
            ops.push(parse(0, t, true));
        }
    }
    r.shuffle(&mut ops);
    if r.chance(50) && ops.len() > 1 {
        let b = ops.split_off(ops.len() / 2);
        p.threads = vec![thread(setup, None), thread(ops, Some(0)), thread(b, Some(0))];
        p.pol.mean = 200_000;
    } else {
        setup.extend(ops);
        p.threads = vec![thread(setup, None)];
    }
    if r.chance(50) {
        gen::environment(r, &mut p.pol);
    }
}

// ---------------------------------------------------------------- histories

const TREE_NAMES: &[&str] =
    &["a", "b", "main", "x", "", "é", "a b", "_", "expr", "m.a", "a.b", "aa", "A", "main_x"];
const TREE_VALS: &[&str] =
    &["", "v", "EOF", "é→", "\n", "12", "\"", "long value ", "a", "b", "V", "vv", "012", "v "];

fn names(r: &mut Rng) -> Vec<String> {
    if r.chance(8) {
        // many
        let n = *r.pick(&[7usize, 9, 15, 17, 33, 65, 130]);
        return (0..n)
            .map(|i| if r.chance(30) { r.pick(TREE_NAMES).to_string() } else { format!("n{}", (i * 7) % n) })
            .collect();
    }
    let n = r.below(5);
    (0..n)
        .map(|_| if r.chance(90) { *r.pick(TREE_NAMES) } else { "absent" }.to_string())
        .collect()
}

fn chain(r: &mut Rng) -> Vec<Tx> {
    let n = *r.pick(&[1usize, 1, 1, 2, 3]);
    let mut v: Vec<Tx> = (0..n)
        .map(|_| match r.below(3) {
            0 => Tx::Compact {},
            1 => Tx::Prune { names: names(r) },
            _ => Tx::Pass { names: names(r) },
        })
        .collect();
    if r.chance(35) {
        if r.chance(40) {
            v.clear();
        }
        v.push(Tx::Flatten {});
    } else if r.chance(15) {
        if r.chance(60) {
            v.clear();
        }
        v.push(reads(r, None));
    }
    v
}

/// Names that occur in the tree, or nearly.
fn fit(r: &mut Rng, chain: &mut [Tx], t: &Tn) {
    fn all<'a>(t: &'a Tn, o: &mut Vec<&'a String>) {
        if let Tn::Rule { s, v } = t {
            o.push(s);
            v.iter().take(300).for_each(|x| all(x, o));
        }
    }
    let mut v = vec![];
    all(t, &mut v);
    if v.is_empty() {
        return;
    }
    for c in chain {
        if let Tx::Prune { names } | Tx::Pass { names } = c {
            for _ in 0..r.below(3) {
                let x = (*r.pick(&v)).clone();
                let x = if r.chance(30) { near_name(r, &x) } else { x };
                let at = r.below(names.len() + 1);
                names.insert(at, x);
            }
        }
    }
}

/// A walk over `t`, if it is known.
fn reads(r: &mut Rng, t: Option<(&Tn, bool)>) -> Tx {
    let flat = r.chance(50);
    let any = Tn::Eof {};
    let (t, eof) = t.unwrap_or((&any, false));
    let mut cur = model::Reader::new(t, flat, eof);
    let n = *r.pick(&[1usize, 2, 4, 8, 16, 30, 60]);
    let err = *r.pick(&[2usize, 10, 30, 60]);
    let mut steps = vec![];
    for _ in 0..n {
        let (f, name) = if r.chance(err) {
            let f = r.below((if flat { model::FLAT_READERS } else { model::TREE_READERS }) as usize) as u8;
            let fit = cur.fitting();
            let name = match r.below(4) {
                0 => r.pick(TREE_VALS).to_string(),
                1 => {
                    let x = r.pick(&fit).1.clone();
                    near_name(r, &x)
                }
                2 => r.pick(&fit).1.clone(),
                _ => r.pick(TREE_NAMES).to_string(),
            };
            (f, name)
        } else {
            r.pick(&cur.fitting()).clone()
        };
        cur.step(f, &name);
        steps.push(Step { f, name });
    }
    Tx::Read { flat, steps }
}

fn tree(r: &mut Rng) -> Tn {
    let d = *r.pick(&[0usize, 1, 2, 3, 4, 6]);
    let mut t = gen::tree(r, d, TREE_NAMES, TREE_VALS);
    if r.chance(8) {
        lengthen(r, &mut t);
    }
    match r.below(30) {
        0 => Tn::Eof {},
        1 => Tn::Val { s: "v".into() },
        2 => {
            // wide
            let n = match r.below(30) {
                0 => r.range(65_500, 67_000),
                1..=3 => r.range(3_000, 12_000),
                _ => r.range(200, 3000),
            };
            Tn::Rule {
                s: "w".into(),
                v: (0..n)
                    .map(|i| match r.below(4) {
                        0 => Tn::Rule { s: r.pick(TREE_NAMES).to_string(), v: vec![Tn::Val { s: format!("{}", i) }] },
                        _ => Tn::Val { s: format!("{},", i) },
                    })
                    .collect(),
            }
        }
        3 => {
            // deep
            let n = if r.chance(15) { r.range(300, 1_200) } else { r.range(50, 300) };
            let mut t = t;
            for i in 0..n {
                t = Tn::Rule {
                    s: r.pick(TREE_NAMES).to_string(),
                    v: vec![Tn::Val { s: format!("{}", i) }, t, Tn::Val { s: "e".into() }],
                };
            }
            t
        }
        _ => t,
    }
}

/// All names or values get the same long beginning or end.
fn lengthen(r: &mut Rng, t: &mut Tn) {
    let n = *r.pick(&[7usize, 8, 15, 16, 22, 24, 31, 32, 63, 64, 130, 256, 300]);
    let x = r.pick(&["n", "é", "name "]).repeat(n);
    let (front, both) = (r.chance(70), r.below(3));
    let to = |s: &str| if front { format!("{}{}", x, s) } else { format!("{}{}", s, x) };
    match both {
        0 => plan::map_tree(t, &to),
        k => {
            fn only(t: &mut Tn, rules: bool, f: &dyn Fn(&str) -> String) {
                match t {
                    Tn::Rule { s, v } => {
                        if rules {
                            *s = f(s);
                        }
                        v.iter_mut().for_each(|x| only(x, rules, f));
                    }
                    Tn::Val { s } if !rules => *s = f(s),
                    _ => {}
                }
            }
            only(t, k == 1, &to)
        }
    }
}

/// A tree of the same shape with other names or values, most of them as long as before.
fn resemble(r: &mut Rng, t: &Tn) -> Tn {
    fn all<'a>(t: &'a mut Tn, o: &mut Vec<&'a mut String>) {
        match t {
            Tn::Val { s } => o.push(s),
            Tn::Rule { s, v } => {
                o.push(s);
                v.iter_mut().for_each(|x| all(x, o));
            }
            _ => {}
        }
    }
    let mut t = t.clone();
    match r.below(4) {
        0 => {
            let (a, b) = (r.pick(TREE_NAMES).to_string(), r.pick(TREE_NAMES).to_string());
            plan::map_tree(&mut t, &|s| if s == a { b.clone() } else { s.into() });
        }
        1 => {
            // one name for another, both ways
            let (a, b) = *r.pick(&[("a", "b"), ("main", "expr"), ("x", "_"), ("12", "é"), ("v", "a")]);
            plan::map_tree(&mut t, &|s| if s == a { b.into() } else if s == b { a.into() } else { s.into() });
        }
        _ => {
            let mut v = vec![];
            all(&mut t, &mut v);
            if !v.is_empty() {
                for _ in 0..r.range(1, 3) {
                    let k = if r.chance(30) { 0 } else { r.below(v.len()) };
                    *v[k] = sibling(r, v[k]);
                }
            }
        }
    }
    t
}

/// Trees that resemble each other, one after the other in the same memory, with calls that were
/// meant for one of them.
fn in_turns(r: &mut Rng, p: &mut Plan, readers: bool) {
    p.kind = "in turns".into();
    let d = *r.pick(&[1usize, 1, 2, 3]);
    let first = gen::tree(r, d, TREE_NAMES, TREE_VALS);
    let mut forms = vec![first];
    for _ in 0..r.range(1, 3) {
        let k = r.below(forms.len());
        let x = resemble(r, &forms[k]);
        forms.push(x);
    }
    let mut chains: Vec<Vec<Tx>> = vec![];
    for t in &forms {
        for _ in 0..r.range(1, 2) {
            let mut c = vec![];
            if !readers || r.chance(20) {
                c = chain(r);
                c.retain(|x| !readers || !matches!(x, Tx::Flatten {} | Tx::Read { .. }));
                fit(r, &mut c, t);
            }
            if readers {
                let u = after(t, &c);
                let rd = reads(r, Some((&u, c.is_empty())));
                c.push(rd);
            }
            chains.push(c);
        }
    }
    let at = p.trees.len();
    p.trees.extend(forms.iter().cloned());
    let nthr = *r.pick(&[1usize, 1, 1, 2, 3]);
    for t in 0..nthr {
        let mut ops = vec![];
        for _ in 0..r.range(2, 8) {
            ops.push(Op::MkTree { tree: 8 + t, spec: at + r.below(forms.len()) });
            for _ in 0..r.range(1, 3) {
                ops.push(Op::Tx { tree: 8 + t, chain: r.pick(&chains).clone(), dst: None });
            }
            if r.chance(80) {
                ops.push(Op::DropTree { tree: 8 + t });
            }
        }
        p.threads.push(thread(ops, None));
    }
    gen::some_env(r, &mut p.pol);
    if r.chance(50) {
        p.pol.reuse = 1;
    }
}

/// One operation of a mixed history over a few slots private to the thread (from `s0`).
struct Pool {
    grams: Vec<(usize, Map, Vec<char>)>,
    texts: Vec<Vec<usize>>, // per grammar
    notes: Vec<usize>,
    trees: Vec<usize>,
}

/// As long as `t`, with the same beginning and end as far as possible.
/// Taken for `t` by a reader that looks at a part of it, or not exactly.
fn near_name(r: &mut Rng, t: &str) -> String {
    let seps: Vec<usize> = t.char_indices().filter(|x| "._:- /".contains(x.1)).map(|x| x.0).collect();
    let v: Vec<char> = t.chars().collect();
    let k = r.below(v.len() + 1);
    let add = *r.pick(&["m.", "a.", "_", " ", "\n", "a", "1", ".", "é", "\0"]);
    match r.below(10) {
        0 | 1 if !seps.is_empty() => {
            let at = *r.pick(&seps);
            if r.chance(65) { t[at + 1..].to_string() } else { t[..at].to_string() }
        }
        2 => v[..k].iter().collect(),
        3 => v[k..].iter().collect(),
        4 => format!("{}{}", add, t),
        5 => format!("{}{}", t, add),
        6 => if r.chance(50) { t.to_uppercase() } else { t.to_lowercase() },
        7 => t.trim().to_string(),
        _ => sibling(r, t),
    }
}

fn sibling(r: &mut Rng, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    let n = v.len();
    if n == 0 {
        return "a".into();
    }
    let at = match r.below(4) {
        0 => n - 1,
        1 => n / 2,
        _ => r.below(n),
    };
    if r.chance(25) {
        // the same characters in another order
        let to = if r.chance(50) { (at + 1) % n } else { r.below(n) };
        if v[at] != v[to] {
            v.swap(at, to);
            return v.into_iter().collect();
        }
    }
    let old = v[at];
    let same: Vec<char> = v.iter().copied().filter(|c| c.len_utf8() == old.len_utf8() && *c != old).collect();
    v[at] = if r.chance(50) && !same.is_empty() {
        *r.pick(&same)
    } else if old.is_ascii() {
        *r.pick(&['a', 'b', '(', '\'', '"', ' ', '\n', '0', ']', '*'])
    } else {
        gen::near(r, old)
    };
    v.into_iter().collect()
}

/// Changes something in `e`, keeping its shape.
fn alter(r: &mut Rng, e: &mut Ex, a: &[char]) {
    match e {
        Ex::Lit { s } | Ex::Err { s } => {
            let mut v: Vec<char> = s.chars().collect();
            if v.is_empty() {
                v.push(*r.pick(a));
            } else {
                let k = r.below(v.len());
                v[k] = if r.chance(50) { *r.pick(a) } else { gen::near(r, v[k]) };
            }
            *s = v.into_iter().collect();
        }
        Ex::Cls { chars, ranges } => {
            if ranges.is_empty() || r.chance(50) {
                chars.push(*r.pick(a));
            } else {
                ranges.pop();
            }
        }
        Ex::Dot {} => *e = lit("."),
        Ex::Eof {} => *e = Ex::Dot {},
        Ex::Not { e } => alter(r, e, a),
        Ex::Rep { e, min, max } => match r.below(3) {
            0 => alter(r, e, a),
            1 => *min += 1,
            _ => *max = if max.is_none() { Some(*min + 1) } else { None },
        },
        Ex::Seq { v } | Ex::Alt { v } => {
            if v.len() > 1 && r.chance(30) {
                let k = r.below(v.len() - 1);
                v.swap(k, k + 1);
            } else if !v.is_empty() {
                let k = r.below(v.len());
                alter(r, &mut v[k], a);
            }
        }
        Ex::Ref { .. } => *e = lit("r"),
    }
}

fn pool(r: &mut Rng, mk: &Mk, p: &mut Plan, ng: usize, nt: usize, small: bool) -> Pool {
    let mut po = Pool { grams: vec![], texts: vec![], notes: vec![], trees: vec![] };
    let f = if small { 300 } else { fuel(r) };
    for _ in 0..ng {
        let (g, a) = gen::usable_gram(r, f, mk.notation);
        let m = g.map();
        let gi = add_gram(p, g);
        let mut ts = vec![];
        for _ in 0..nt {
            let bad = r.chance(50);
            let t = text_for(r, &m, &a, bad, f);
            ts.push(add_text(p, t));
        }
        po.texts.push(ts);
        po.grams.push((gi, m, a));
    }
    if r.chance(40) {
        let (g, a, ts) = gen::special(r);
        let m = g.map();
        let ts: Vec<String> = ts.into_iter().map(|t| gen::bounded(t, &m, f.max(8_000))).collect();
        po.grams.push((add_gram(p, g), m, a));
        po.texts.push(ts.into_iter().map(|t| add_text(p, t)).collect());
    }
    if r.chance(40) {
        // the same names and sizes with something else in it
        let k = r.below(ng);
        let (gi, _, a) = &po.grams[k];
        let (mut g, a) = (p.grams[*gi].clone(), a.clone());
        let at = r.below(g.rules.len().max(1));
        if let Some((_, e)) = g.rules.get_mut(at) {
            alter(r, e, &a);
        }
        let m = g.map();
        if !gen::too_heavy(&m, f) && !gen::left_recursive(&[g.clone()], false) {
            let mut ts = po.texts[k].clone();
            ts.retain(|t| !matches!(model::parse(&m, &p.texts[*t], false, f).0, model::POut::Fuel));
            let t = text_for(r, &m, &a, false, f);
            ts.push(add_text(p, t));
            let gi = add_gram(p, g);
            po.grams.push((gi, m, a));
            po.texts.push(ts);
        }
    }
    for (ts, (_, m, _)) in po.texts.iter_mut().zip(&po.grams) {
        if r.chance(30) && !ts.is_empty() {
            let k = *r.pick(ts);
            let t = sibling(r, &p.texts[k].clone());
            let t = gen::bounded(t, m, f);
            ts.push(add_text(p, t));
        }
    }
    for _ in 0..ng.div_ceil(2) {
        let max = if small { 120 } else { 400 };
        let t = note_text(r, mk, max);
        if r.chance(40) {
            let t = sibling(r, &t);
            if !matches!(model::parse(mk.notation, &t, false, 60_000).0, model::POut::Fuel) {
                po.notes.push(add_text(p, t));
            }
        }
        po.notes.push(add_text(p, t));
        let t = tree(r);
        if r.chance(40) && p.trees.len() < 40 {
            p.trees.push(resemble(r, &t));
            po.trees.push(p.trees.len() - 1);
        }
        p.trees.push(t);
        po.trees.push(p.trees.len() - 1);
    }
    po
}

/// a text in the notation, or nearly
fn note_text(r: &mut Rng, mk: &Mk, max: usize) -> String {
    loop {
        let t = match r.below(20) {
            0..=10 => gen::notation_text(r).0,
            11 => r.pick(&gen::real_grammars()).to_string(),
            13 => {
                let a: Vec<char> = gen::NOTATION_ALPHA.chars().collect();
                let n = r.below(30);
                (0..n).map(|_| *r.pick(&a)).collect()
            }
            14 => {
                // strings of the notation itself
                let mut t = String::new();
                let d = r.range(3, 12);
                gen::derive(r, mk.notation, &mk.notation["main"], d, &mut t, 200);
                t
            }
            12 | 15..=17 => {
                let a: Vec<char> = gen::NOTATION_ALPHA.chars().collect();
                let mut t = gen::notation_text(r).0;
                for _ in 0..*r.pick(&[1usize, 1, 1, 2, 3]) {
                    t = gen::graft(r, &t, mk.notation, &a, 60_000);
                }
                t
            }
            _ => {
                let a: Vec<char> = gen::NOTATION_ALPHA.chars().collect();
                let (t, _) = gen::notation_text(r);
                gen::mutate(r, &t, &a)
            }
        };
        if t.len() <= max && !matches!(model::parse(mk.notation, &t, false, 60_000).0, model::POut::Fuel) {
            return t;
        }
    }
}

fn hist_op(r: &mut Rng, po: &Pool, s0: usize, t0: usize, state: &mut [Option<usize>; 4]) -> Op {
    let k = r.below(4);
    let s = s0 + k;
    match r.below(100) {
        0..=17 => {
            let g = r.below(po.grams.len());
            state[k] = Some(g);
            build(r, s, po.grams[g].0)
        }
        18..=52 => {
            if let Some(g) = state[k] {
                let t = *r.pick(&po.texts[g]);
                let keep = if r.chance(20) { Some(t0 + r.below(2)) } else { None };
                Op::Parse { slot: s, text: t, debug: r.chance(30), keep }
            } else {
                let g = r.below(po.grams.len());
                state[k] = Some(g);
                build(r, s, po.grams[g].0)
            }
        }
        53..=64 => {
            let g = r.below(po.grams.len());
            let t = *r.pick(&po.texts[g]);
            Op::Session { g: po.grams[g].0, text: t, debug: r.chance(30), order: r.u64() }
        }
        65..=72 => Op::Compile { text: *r.pick(&po.notes), slot: None },
        73..=76 => {
            state[k] = None;
            Op::Compile { text: *r.pick(&po.notes), slot: Some(s) }
        }
        77..=80 => Op::Gen { slot: s },
        81 => {
            state[k] = None;
            Op::DropRules { slot: s }
        }
        82..=86 => Op::MkTree { tree: t0 + r.below(2), spec: *r.pick(&po.trees) },
        87..=96 => Op::Tx {
            tree: t0 + r.below(2),
            chain: chain(r),
            dst: if r.chance(20) { Some(t0 + 1) } else { None },
        },
        _ => Op::Dump { slot: s },
    }
}

fn history(r: &mut Rng, mk: &Mk, p: &mut Plan) {
    p.kind = "history".into();
    let long = r.chance(8);
    let po = {
        let (ng, nt) = if long { (r.range(6, 14), 6) } else { (r.range(2, 5), 4) };
        pool(r, mk, p, ng, nt, long)
    };
    let gens = *r.pick(&[1usize, 1, 2, 3, 5]);
    let conc = r.chance(15);
    for t in 0..gens {
        let n = if long { r.range(200, 900) } else { r.range(6, 40) };
        let mut st = [None; 4];
        let (s0, t0) = if conc { (t * 4 % 24, t * 2 % 20) } else { (0, 0) };
        let ops: Vec<Op> = (0..n).map(|_| hist_op(r, &po, s0, t0, &mut st)).collect();
        p.threads.push(thread(ops, if conc || t == 0 { None } else { Some(t - 1) }));
    }
    gen::environment(r, &mut p.pol);
    if !r.chance(15) {
        p.pol.reuse = 1;
    }
    if r.chance(70) {
        p.pol.gap = 0;
    }
    if conc {
        gen::schedule(r, &mut p.pol);
    }
}

/// The same call again and again, with few others in between: counters, thresholds.
fn repeats(r: &mut Rng, mk: &Mk, p: &mut Plan) {
    p.kind = "repeats".into();
    let po = pool(r, mk, p, 3, 3, true);
    let mut ops = vec![];
    for (k, g) in po.grams.iter().enumerate() {
        ops.push(build(r, k, g.0));
    }
    ops.push(Op::MkTree { tree: 0, spec: po.trees[0] });
    let n = *r.pick(&[70usize, 140, 300, 600, 1100, 2500]);
    let focus = r.below(6);
    for _ in 0..n {
        let f = if r.chance(90) { focus } else { r.below(6) };
        ops.push(match f {
            0 | 1 => {
                let k = if f == focus && r.chance(85) { focus } else { r.below(3) };
                Op::Parse { slot: k, text: *r.pick(&po.texts[k]), debug: r.chance(10), keep: None }
            }
            2 => {
                let k = r.below(3);
                Op::Session { g: po.grams[k].0, text: *r.pick(&po.texts[k]), debug: false, order: r.below(4) as u64 }
            }
            3 => Op::Gen { slot: r.below(3) },
            4 => Op::Tx { tree: 0, chain: chain(r), dst: None },
            _ => {
                if n > 400 && !r.chance(15) {
                    Op::Parse { slot: 0, text: *r.pick(&po.texts[0]), debug: false, keep: None }
                } else {
                    Op::Compile { text: *r.pick(&po.notes), slot: None }
                }
            }
        });
    }
    p.threads.push(thread(ops, None));
    gen::environment(r, &mut p.pol);
    p.pol.reuse = 1;
}

/// Tens of thousands of small calls, then ordinary ones.
fn very_many(r: &mut Rng, mk: &Mk, p: &mut Plan) {
    p.kind = "tens of thousands".into();
    let mut ops = vec![];
    let mut g = Gram::default();
    let kind = r.below(6);
    let body = match kind {
        0 => lit("a"),
        1 => rep(lit("a"), 0, Some(1)),
        2 => alt(vec![lit("b"), lit("a")]),
        3 => seq(vec![Ex::Not { e: Box::new(lit("b")) }, Ex::Dot {}]),
        4 => refr("b"),
        _ => cls("", &[('a', 'b')]),
    };
    g.rules.push(("main".into(), body));
    if kind == 4 {
        g.rules.push(("b".into(), cls("a", &[])));
    }
    let gi = add_gram(p, g);
    ops.push(build(r, 8, gi));
    let t = add_text(p, r.pick(&["a", "a", "b", "", "aa"]).to_string());
    p.trees.push(Tn::Rule { s: "main".into(), v: vec![Tn::Val { s: "a".into() }, Tn::Val { s: "b".into() }] });
    let spec = p.trees.len() - 1;
    ops.push(Op::MkTree { tree: 8, spec });
    ops.push(match r.below(6) {
        0 => Op::Tx { tree: 8, chain: vec![Tx::Compact {}], dst: None },
        1 => Op::Tx { tree: 8, chain: vec![Tx::Flatten {}], dst: None },
        _ => parse(8, t, r.chance(20)),
    });
    // just below and above powers of two
    let n = *r.pick(&[4_090u64, 9_999, 32_760, 65_530, 66_000]);
    ops.push(Op::Again { n: 1, times: n, vary: false });
    let po = pool(r, mk, p, 2, 3, true);
    for (k, g) in po.grams.iter().enumerate() {
        if k < 4 {
            ops.push(build(r, k, g.0));
        }
    }
    let mut st = [None; 4];
    for _ in 0..r.range(10, 30) {
        ops.push(hist_op(r, &po, 0, 0, &mut st));
    }
    p.threads.push(thread(ops, None));
    gen::environment(r, &mut p.pol);
    p.pol.reuse = 1;
}

/// Two calls with nearly as many others in between as a small counter counts to.
fn wraps(r: &mut Rng, mk: &Mk, p: &mut Plan) {
    p.kind = "wraps".into();
    let po = pool(r, mk, p, 3, 5, true);
    let mut ops = vec![];
    for (k, g) in po.grams.iter().enumerate().take(3) {
        ops.push(build(r, k, g.0));
    }
    // first steps of which one or the other fails
    let mut g = Gram::default();
    let x = *r.pick(&["a", "b"]);
    let one = |r: &mut Rng| match r.below(5) {
        0 => lit(x),
        1 => seq(vec![lit(x), lit("c")]),
        2 => cls(x, &[]),
        3 => refr("r"),
        _ => rep(lit(x), 1, None),
    };
    let look = one(r);
    let body = match r.below(5) {
        0 | 1 => seq(vec![Ex::Not { e: Box::new(look) }, Ex::Dot {}]),
        2 => alt(vec![look, seq(vec![Ex::Dot {}, Ex::Dot {}])]),
        3 => seq(vec![rep(look, 0, Some(1)), Ex::Dot {}]),
        _ => seq(vec![look, rep(Ex::Dot {}, 0, None)]),
    };
    g.rules.push(("main".into(), body));
    g.rules.push(("r".into(), lit(x)));
    let gi = add_gram(p, g);
    ops.push(build(r, 7, gi));
    let short: Vec<usize> = ["a", "b", "ac", "bc", "ab", "c"].iter().map(|t| add_text(p, t.to_string())).collect();
    let mut g = Gram::default();
    g.rules.push(("main".into(), if r.chance(70) { Ex::Dot {} } else { lit("a") }));
    let gi = add_gram(p, g);
    ops.push(build(r, 8, gi));
    ops.push(Op::MkTree { tree: 0, spec: po.trees[0] });
    for _ in 0..r.range(4, 12) {
        let (slot, a, b) = if r.chance(60) {
            (7, *r.pick(&short), *r.pick(&short))
        } else {
            let k = r.below(3);
            (k, *r.pick(&po.texts[k]), *r.pick(&po.texts[k]))
        };
        let debug = r.chance(15);
        ops.push(parse(slot, a, debug));
        ops.push(match r.below(12) {
            0 => Op::Compile { text: *r.pick(&po.notes), slot: None },
            1 => Op::Tx { tree: 0, chain: chain(r), dst: None },
            2 => Op::Gen { slot: 8 },
            _ => parse(8, short[r.below(2)], debug),
        });
        let bits = *r.pick(&[8u32, 8, 8, 8, 8, 4, 5, 6, 7, 10]);
        let far = matches!(ops.last(), Some(Op::Parse { .. })) && r.chance(1);
        let bits = if far { 16 } else { bits };
        let n = (1u64 << bits) - 2 + if r.chance(25) { r.below(3) as u64 } else { 0 };
        ops.push(Op::Again { n: 1, times: n, vary: false });
        ops.push(parse(slot, b, debug));
    }
    p.threads.push(thread(ops, None));
    gen::environment(r, &mut p.pol);
    p.pol.reuse = 1;
}

/// Hundreds of rule names in one process, then the same names with other meanings.
fn many_names(r: &mut Rng, _mk: &Mk, p: &mut Plan) {
    p.kind = "names".into();
    let k = r.range(20, 120);
    let sets = r.range(3, 8);
    let mut ops = vec![];
    for s in 0..sets {
        let mut g = Gram::default();
        let mut v = vec![];
        for i in 0..k {
            let n = if s % 2 == 0 { format!("n{}", i) } else { format!("n{}_{}", s, i) };
            g.rules.push((n.clone(), lit(&format!("{}{};", (b'a' + (s as u8 % 3)) as char, i))));
            v.push(refr(&n));
        }
        g.rules.push(("main".into(), rep(alt(v), 1, None)));
        let gi = add_gram(p, g);
        ops.push(build(r, 0, gi));
        for _ in 0..3 {
            let t: String = (0..3).map(|_| format!("{}{};", ['a', 'b', 'c'][r.below(3)], r.below(k + 2))).collect();
            let t = add_text(p, t);
            ops.push(parse(0, t, r.chance(40)));
        }
        if r.chance(50) {
            ops.push(Op::Gen { slot: 0 });
        }
    }
    p.threads.push(thread(ops, None));
    gen::environment(r, &mut p.pol);
    p.pol.reuse = 1;
}

/// Depth of nesting, long failing parses and abandoned alternatives before ordinary calls.
fn deep_history(r: &mut Rng, mk: &Mk, p: &mut Plan) {
    p.kind = "deep".into();
    let (which, which2) = (r.below(gen::BIGS), 3);
    let mut ops = vec![];
    for w in [which, which2] {
        let (g, ts) = gen::big(r, w);
        let g = add_gram(p, g);
        ops.push(build(r, 0, g));
        for t in ts {
            if t.len() < 20_000 {
                let t = add_text(p, t);
                ops.push(parse(0, t, false));
            }
        }
    }
    let po = pool(r, mk, p, 2, 4, false);
    let mut st = [None; 4];
    for _ in 0..r.range(6, 20) {
        ops.push(hist_op(r, &po, 0, 0, &mut st));
    }
    p.threads.push(thread(ops, None));
    gen::environment(r, &mut p.pol);
}

// ---------------------------------------------------------------- C04

fn envs(r: &mut Rng, mk: &Mk, p: &mut Plan) {
    p.kind = "env".into();
    if r.chance(6) {
        bigs(r, p);
        p.kind = format!("env-{}", p.kind);
        for t in &mut p.threads {
            t.after = None;
        }
        let ops: Vec<Op> = p.threads.drain(..).flat_map(|t| t.ops).collect();
        p.threads = vec![thread(ops, None)];
        p.pol = Policy::NONE;
    } else {
        let po = pool(r, mk, p, 2, 3, false);
        let mut st = [None; 4];
        let n = r.range(5, 18);
        let mut ops: Vec<Op> = (0..n).map(|_| hist_op(r, &po, 0, 0, &mut st)).collect();
        if r.chance(30) {
            // tables large enough for their order to vary
            let mut g = Gram::default();
            for i in 0..r.range(10, 40) {
                g.rules.push((format!("n{}", i), lit(&format!("{}", i))));
            }
            g.rules.push(("main".into(), rep(alt((0..10).map(|i| refr(&format!("n{}", i))).collect()), 0, None)));
            let g = add_gram(p, g);
            let t = add_text(p, "0123456789x".into());
            ops.push(build(r, 0, g));
            ops.push(Op::Gen { slot: 0 });
            ops.push(parse(0, t, true));
        }
        p.threads = vec![thread(ops, None)];
    }
    gen::environment(r, &mut p.pol);
    for _ in 0..r.below(6) {
        let op = r.below(p.threads[0].ops.len()) as u32;
        let arg = match r.below(4) {
            0 => r.logu(1 << 30) as i64,
            1 => r.logu(1 << 60) as i64,
            2 => -(r.logu(1 << 40) as i64),
            _ => -(r.logu(1 << 59) as i64),
        };
        p.decs.push(Dec { thr: 0, op, step: r.logu(300_000), kind: crate::sched::D_CLOCK, target: 0, arg });
    }
}

// ---------------------------------------------------------------- C05

fn mutations(r: &mut Rng, mk: &Mk, p: &mut Plan) {
    p.kind = "mutations".into();
    let notation = r.chance(75);
    let c = loop {
        let c = gen::ctx(r, notation);
        if c.names.len() > 1 {
            break c;
        }
    };
    let ng = r.range(2, 4);
    let mut gs: Vec<Gram> = (0..ng)
        .map(|_| {
            let mut g = Gram::default();
            for n in &c.names {
                if r.chance(75) {
                    let d = r.below(3);
                    g.rules.push((n.clone(), gen::expr(r, &c, d)));
                }
            }
            if r.chance(15) {
                let n = r.pick(&c.names).clone();
                g.rules.push((n, gen::expr(r, &c, 1)));
            }
            if g.rules.is_empty() {
                g.rules.push(("main".into(), gen::expr(r, &c, 1)));
            }
            g
        })
        .collect();
    gen::unloop_all(&mut gs, r, &c);
    // the notation texts hold the same rules (modules add what is missing)
    let mut notes = vec![];
    for g in &gs {
        if notation && r.chance(60) {
            let it = gen::items(r, g);
            let mut t = String::new();
            gen::print_items(r, &it, &mut t);
            if t.len() < 500 {
                notes.push(add_text(p, t));
            }
        }
    }
    let maps: Vec<Map> = gs.iter().map(|g| g.map()).collect();
    for g in gs {
        p.grams.push(g);
    }
    let mut texts = vec![];
    for _ in 0..4 {
        let mut t = String::new();
        let m = r.pick(&maps);
        if let Some(e) = m.get("main") {
            gen::derive(r, m, e, 3, &mut t, 12);
        }
        let t: String = t.chars().take(14).collect();
        texts.push(add_text(p, t));
    }
    let nslots = r.range(1, 3);
    let nthr = *r.pick(&[1usize, 1, 2, 3, 4]);
    for t in 0..nthr {
        let mut ops = vec![];
        if t == 0 || r.chance(50) {
            for s in 0..nslots {
                if t == 0 || r.chance(40) {
                    let g = r.below(ng);
                    ops.push(build(r, s, g));
                }
            }
        }
        for _ in 0..r.range(3, 22 / nthr) {
            let s = r.below(nslots);
            match r.below(100) {
                0..=29 => {
                    let g = r.below(ng);
                    let rule = r.below(p.grams[g].rules.len());
                    ops.push(Op::Add { slot: s, g, rule });
                }
                30..=47 if nslots > 1 => {
                    let d = r.below(nslots);
                    if d != s {
                        ops.push(Op::Merge { dst: d, src: s });
                        ops.push(Op::Dump { slot: d });
                    }
                }
                48..=55 => {
                    let g = r.below(ng);
                    ops.push(build(r, s, g));
                }
                56..=60 if !notes.is_empty() => {
                    ops.push(Op::Compile { text: *r.pick(&notes), slot: Some(s) });
                }
                61..=80 => ops.push(parse(s, *r.pick(&texts), r.chance(20))),
                _ => ops.push(Op::Dump { slot: s }),
            }
        }
        for s in 0..nslots {
            ops.push(Op::Dump { slot: s });
        }
        p.threads.push(thread(ops, if t > 0 && r.chance(30) { Some(t - 1) } else { None }));
    }
    let _ = mk;
    gen::some_env(r, &mut p.pol);
}

/// Rule sets far larger than usual, combined.
fn big_mutations(r: &mut Rng, p: &mut Plan) {
    p.kind = "bigset".into();
    let k = *r.pick(&[33usize, 70, 150, 300, 700]);
    for s in 0..2 {
        let mut g = Gram::default();
        for i in 0..k {
            if s == 0 || r.chance(50) {
                g.rules.push((format!("n{}", i), lit(&format!("{}{}", ['a', 'b'][s], i))));
            } else {
                g.rules.push((format!("o{}", i), lit(&format!("o{}", i))));
            }
        }
        g.rules.push(("main".into(), alt((0..k).map(|i| refr(&format!("n{}", i))).collect())));
        r.shuffle(&mut g.rules);
        p.grams.push(g);
    }
    let mut ops = vec![build(r, 0, 0), build(r, 1, 1)];
    for _ in 0..4 {
        let t = format!("{}{}", ['a', 'b'][r.below(2)], r.below(k));
        let t = add_text(p, t);
        ops.push(parse(0, t, false));
    }
    ops.push(if r.chance(50) { Op::Merge { dst: 0, src: 1 } } else { Op::Merge { dst: 1, src: 0 } });
    for t in 0..4 {
        for s in 0..2 {
            ops.push(parse(s, t, false));
        }
    }
    for _ in 0..20 {
        let g = r.below(2);
        let rule = r.below(p.grams[g].rules.len());
        ops.push(Op::Add { slot: r.below(2), g, rule });
    }
    ops.push(Op::Dump { slot: 0 });
    ops.push(Op::Dump { slot: 1 });
    p.threads.push(thread(ops, None));
    gen::environment(r, &mut p.pol);
}

// ---------------------------------------------------------------- C06

fn compiles(r: &mut Rng, mk: &Mk, p: &mut Plan) {
    p.kind = "compiles".into();
    let nthr = *r.pick(&[1usize, 2, 2, 2, 3, 4]);
    let max = *r.pick(&[40usize, 80, 80, 150, 500]);
    let n = if max < 100 { r.range(2, 8) } else { r.range(1, 3) };
    for t in 0..nthr {
        let mut ops = vec![];
        for _ in 0..r.range(1, n) {
            let text = if !p.texts.is_empty() && r.chance(10) {
                r.below(p.texts.len())
            } else {
                let mut x = note_text(r, mk, max);
                if !p.texts.is_empty() && r.chance(20) {
                    // nearly one of the others
                    let y = r.pick(&p.texts).clone();
                    let y = sibling(r, &y);
                    if !matches!(model::parse(mk.notation, &y, false, 60_000).0, model::POut::Fuel) {
                        x = y;
                    }
                }
                add_text(p, x)
            };
            ops.push(Op::Compile { text, slot: if r.chance(15) { Some(t) } else { None } });
        }
        p.threads.push(thread(ops, None));
    }
    gen::some_env(r, &mut p.pol);
}

/// Short texts with many names and literals, of which more or fewer occur again.
fn compile_names(r: &mut Rng, p: &mut Plan) {
    p.kind = "compiles of many names".into();
    let pool = *r.pick(&[5usize, 12, 20, 40, 80, 300]);
    let name = |r: &mut Rng| match r.below(12) {
        0 => format!("n.{}", r.below(pool)),
        1 => format!("name_{}", r.below(pool)),
        _ => format!("n{}", r.below(pool)),
    };
    let nthr = *r.pick(&[1usize, 2, 2, 2, 3]);
    for t in 0..nthr {
        let mut ops = vec![];
        for _ in 0..r.range(2, 10) {
            let mut x = String::new();
            for _ in 0..r.range(1, 6) {
                let (n, m, k) = (name(r), name(r), r.below(pool));
                x.push_str(&match r.below(7) {
                    0 => format!("{}={}\n", n, m),
                    1 => format!("{}='l{}'\n", n, k),
                    2 => format!("{}={} {}\n", n, m, name(r)),
                    3 => format!("{}=\"l{}\"/{}\n", n, k, m),
                    4 => format!("{}=[{}]\n", n, k),
                    5 => format!("{}={{\n{}='l{}'\n}}\n", n, m, k).replacen('=', "", 1),
                    _ => format!("{}=error('e{}')\n", n, k),
                });
            }
            if r.chance(8) {
                x.push_str(r.pick(&["=", "n", "n=", "n='", "n=)"]));
            }
            ops.push(Op::Compile { text: add_text(p, x), slot: if r.chance(15) { Some(t) } else { None } });
        }
        p.threads.push(thread(ops, None));
    }
    gen::some_env(r, &mut p.pol);
}

/// A long text in the notation, whose names, literals and errors begin with `pre`.
fn big_note(r: &mut Rng, pre: &str) -> String {
    let mut t = String::new();
    match r.below(8) {
        0 => {
            for i in 0..*r.pick(&[20usize, 60, 130, 160, 260, 300]) {
                t.push_str(&format!("{}n{} = 'a{}' {}n{}?\n\n", pre, i, i, pre, i + 1));
            }
        }
        1 => t = format!("main = {}\n", (0..r.range(40, 300)).map(|i| format!("'{}{}'", pre, i)).collect::<Vec<_>>().join(" / ")),
        2 => t = format!("main = {}\n", (0..r.range(40, 300)).map(|i| format!("'{}{}'", pre, i)).collect::<Vec<_>>().join(" ")),
        3 => {
            let d = r.range(10, 60);
            t = format!("main = {}'x{}'{}\n", "(".repeat(d), pre, ")".repeat(d));
        }
        4 => t = format!("main = '{}{}' \"{}\"\n", pre, "l".repeat(r.range(255, 900)), "\\n".repeat(r.range(100, 300))),
        5 => {
            let d = *r.pick(&[3usize, 9, 17, 33, 40, 65, 70]);
            for i in 0..d {
                t.push_str(&format!("{}m{} {{\n {}r{} = 'x{}'\n", pre, i, pre, i, i));
            }
            for _ in 0..d {
                t.push_str("}\n");
            }
        }
        6 => {
            t.push_str("main = ");
            for i in 0..r.range(20, 120) {
                t.push_str(&format!("[{}{}-{}]* !{}a{} ", (b'a' + (i % 20) as u8) as char, '0', '9', pre, i));
            }
            t.push('\n');
        }
        _ => {
            for i in 0..r.range(5, 40) {
                let k = r.below(6);
                t.push_str(&match k {
                    0 => format!("{}n{} = [{}-z]+ / error(\"{}{}\")\n", pre, i, 'a', pre, i),
                    1 => format!("{}m{} {{ {}n{} = \"{}\\n\\0x4{}\" }}\n", pre, i, pre, i, pre, i % 10),
                    2 => format!("{}n{}.x = '{}{}' // {}\n", pre, i, pre, i, i),
                    _ => format!("{}n{} = '{}' {}n{}\n", pre, i, pre, pre, i / 2),
                });
            }
        }
    }
    if r.chance(15) {
        t.push_str("x = (\n");
    }
    t
}

fn big_compile(r: &mut Rng, p: &mut Plan) {
    p.kind = "bignote".into();
    let n = *r.pick(&[1usize, 1, 2, 2, 3]);
    for i in 0..n {
        let pre = ["", "b", "q_"][i];
        let mut ops = vec![];
        for _ in 0..r.range(1, 2) {
            let t = big_note(r, pre);
            let k = add_text(p, t);
            ops.push(Op::Compile { text: k, slot: None });
        }
        p.threads.push(thread(ops, None));
    }
    if r.chance(20) {
        let k2 = add_text(p, "a = 'x'\nm { b = a / error(\"e\") }\n".into());
        p.threads.push(thread(vec![Op::Compile { text: k2, slot: None }; 2], None));
    }
    if p.threads.len() > 1 {
        gen::schedule(r, &mut p.pol);
        if r.chance(40) {
            p.pol.mean = 50_000;
        }
    }
    gen::environment(r, &mut p.pol);
}

// ---------------------------------------------------------------- C07

fn bounds(r: &mut Rng, e: &mut Ex) {
    match e {
        Ex::Rep { e, min, max } => {
            if r.chance(50) {
                *min = *r.pick(&[0usize, 1, 2, 3, 7, 10, 12, 100, 4_294_967_296, usize::MAX]);
                *max = *r.pick(&[None, Some(0), Some(1), Some(5), Some(10), Some(100), Some(usize::MAX)]);
            }
            bounds(r, e)
        }
        Ex::Not { e } => bounds(r, e),
        Ex::Seq { v } | Ex::Alt { v } => v.iter_mut().for_each(|x| bounds(r, x)),
        _ => {}
    }
}

fn rename(e: &mut Ex, old: &str, new: &str) {
    match e {
        Ex::Ref { s } if s == old => *s = new.into(),
        Ex::Not { e } | Ex::Rep { e, .. } => rename(e, old, new),
        Ex::Seq { v } | Ex::Alt { v } => v.iter_mut().for_each(|x| rename(x, old, new)),
        _ => {}
    }
}

/// Many rules, long literals, classes, sequences and names; deep nesting.
fn big_generates(r: &mut Rng, p: &mut Plan) {
    p.kind = "biggen".into();
    let c = gen::ctx(r, true);
    let mut g = Gram::default();
    let n = *r.pick(&[130usize, 260, 300, 520, 1030]);
    let add = |g: &mut Gram, n: &str, e: Ex| g.rules.push((n.to_string(), e));
    match r.below(7) {
        0 => {
            for i in 0..n {
                let d = r.below(2);
                add(&mut g, &format!("{}{}", *r.pick(&["r", "main", "a.b", "x_"]), i), gen::expr(r, &c, d));
            }
        }
        1 => {
            let l = *r.pick(&[260usize, 1_025, 4_100, 33_000, 66_000]);
            let a: Vec<char> = "ab\"\\'\n\té{}#/".chars().collect();
            let s: String = (0..l).map(|_| *r.pick(&a)).collect();
            add(&mut g, "l", lit(&s));
            add(&mut g, "e", Ex::Err { s: s.chars().rev().collect() });
        }
        2 => {
            let cs: String = (0..n as u32).filter_map(|i| char::from_u32(0x20 + i)).collect();
            let rs: Vec<(char, char)> = (0..n as u32)
                .filter_map(|i| Some((char::from_u32(3 * i)?, char::from_u32(3 * i + i % 3)?)))
                .collect();
            add(&mut g, "c", cls(&cs, &rs));
        }
        3 => {
            let v: Vec<Ex> = (0..n).map(|i| if i % 7 == 3 { gen::expr(r, &c, 1) } else { lit(&format!("{}", i)) }).collect();
            add(&mut g, "s", if r.chance(50) { seq(v) } else { alt(v) });
        }
        4 => {
            let mut e = gen::expr(r, &c, 1);
            for i in 0..r.range(20, 120) {
                e = match r.below(4) {
                    0 => Ex::Not { e: Box::new(e) },
                    1 => rep(e, i, None),
                    2 => seq(vec![lit("("), e, lit(")")]),
                    _ => alt(vec![e, lit(&format!("{}", i))]),
                };
            }
            add(&mut g, "deep", e);
        }
        5 => {
            // long names, some with the same beginning
            let l = *r.pick(&[60usize, 130, 260, 1_100, 66_000]);
            let b = "n".repeat(l);
            for i in 0..4 {
                let (a, z) = (format!("{}{}", b, i), format!("{}{}", b, (i + 1) % 4));
                add(&mut g, &a, seq(vec![refr(&z), lit("x")]));
            }
        }
        _ => {
            // counts
            for i in 0..n {
                let (lo, hi) = (i * i % 977, if i % 3 == 0 { None } else { Some(i * 7919) });
                add(&mut g, &format!("k{}", i), rep(lit("a"), lo, hi));
            }
        }
    }
    let gi = add_gram(p, g);
    let mut ops: Vec<Op> = (0..2).map(|s| Op::Build { slot: s, g: gi, how: r.below(5) as u8, order: r.u64() }).collect();
    ops.extend([Op::Gen { slot: 0 }, Op::Gen { slot: 1 }]);
    if r.chance(30) {
        let tail = ops.split_off(2);
        p.threads = vec![thread(ops, None), thread(vec![tail[0].clone()], Some(0)), thread(vec![tail[1].clone()], Some(0))];
        p.pol.mean = 20_000;
    } else {
        p.threads = vec![thread(ops, None)];
    }
    gen::environment(r, &mut p.pol);
}

fn generates(r: &mut Rng, p: &mut Plan) {
    if r.chance(4) {
        return big_generates(r, p);
    }
    p.kind = "generate".into();
    let mut g = loop {
        let mut c = gen::ctx(r, true);
        for _ in 0..3 {
            c.alpha.push(gen::any_char(r));
        }
        if r.chance(30) {
            c.alpha.extend("\"#\\'\n\r\t\0{}]".chars());
        }
        let mut g = Gram::default();
        for n in &c.names {
            let d = r.range(0, 4);
            g.rules.push((n.clone(), gen::expr(r, &c, d)));
        }
        if r.chance(25) {
            for i in 0..r.range(5, 60) {
                g.rules.push((format!("n{}", i), Ex::Lit { s: gen::literal(r, &c) }));
            }
        }
        if r.chance(8) {
            // any text can be a name
            let k = r.below(g.rules.len());
            let old = g.rules[k].0.clone();
            let t = ["\"#", "a\"#b", "\r", "x\r\n", "\\", "'", "\0", "{}", "é\u{202e}", " ", "r#\"", "a\n"];
            let new = format!("{}{}", *r.pick(&["", "", "n"]), *r.pick(&t));
            g.rules.iter_mut().for_each(|x| rename(&mut x.1, &old, &new));
            g.rules[k].0 = new;
        }
        if g.rules.iter().all(|x| !x.0.is_empty()) {
            break g;
        }
    };
    let direct = r.chance(35) || g.rules.iter().any(|x| !x.0.chars().all(|c| c.is_alphanumeric() || "_'\".".contains(c)));
    if direct {
        g.rules.iter_mut().for_each(|x| bounds(r, &mut x.1));
    }
    let gi = add_gram(p, g.clone());
    let nslots = r.range(2, 5);
    let nthr = r.range(1, 3);
    // others of the same shape
    let mut others = vec![gi];
    if r.chance(50) {
        let a: Vec<char> = "ab\"\\'0z\n".chars().collect();
        for _ in 0..r.range(1, 3) {
            let mut o = g.clone();
            for _ in 0..r.range(1, 3) {
                let k = r.below(o.rules.len());
                alter(r, &mut o.rules[k].1, &a);
            }
            others.push(add_gram(p, o));
        }
    }
    if r.chance(35) {
        // each in the place of another one
        for _ in 0..nthr {
            let s = p.threads.len();
            let how = r.below(5) as u8;
            let mut ops = vec![];
            for _ in 0..r.range(2, 7) {
                let how = if r.chance(70) { how } else { r.below(5) as u8 };
                if r.chance(30) {
                    ops.push(Op::DropRules { slot: s });
                }
                ops.push(Op::Build { slot: s, g: *r.pick(&others), how, order: r.u64() });
                ops.push(Op::Gen { slot: s });
            }
            p.threads.push(thread(ops, None));
        }
        gen::some_env(r, &mut p.pol);
        return;
    }
    let mut setup: Vec<Op> = (0..nslots)
        .map(|s| Op::Build { slot: s, g: gi, how: r.below(5) as u8, order: r.u64() })
        .collect();
    if !direct && r.chance(40) {
        let mut t = String::new();
        let it: Vec<gen::Item> = g.map().into_iter().map(|(n, e)| gen::Item::Rule(n, e)).collect();
        gen::print_items(r, &it, &mut t);
        if t.len() < 800 {
            let t = add_text(p, t);
            setup.push(Op::Compile { text: t, slot: Some(nslots) });
            setup.push(Op::Gen { slot: nslots });
        }
    }
    if nthr == 1 {
        setup.extend((0..nslots).map(|s| Op::Gen { slot: s }));
        p.threads = vec![thread(setup, None)];
    } else {
        p.threads = vec![thread(setup, None)];
        for _ in 0..nthr {
            let n = r.range(1, nslots);
            let mut ops: Vec<Op> = (0..n).map(|_| Op::Gen { slot: r.below(nslots) }).collect();
            if others.len() > 1 && r.chance(50) {
                let slot = nslots + p.threads.len();
                ops.insert(0, Op::Build { slot, g: others[1], how: r.below(5) as u8, order: r.u64() });
                ops.push(Op::Gen { slot });
            }
            p.threads.push(thread(ops, Some(0)));
        }
    }
    gen::some_env(r, &mut p.pol);
}

// ---------------------------------------------------------------- C09, C10

/// Callers that only share what they read.
fn mixed(r: &mut Rng, mk: &Mk, p: &mut Plan, nthr: usize, per: usize) {
    let po = pool(r, mk, p, 2, 4, false);
    let second = if r.chance(40) { po.grams.len() - 1 } else { 1 };
    let setup = vec![
        build(r, 0, po.grams[0].0),
        build(r, 1, po.grams[second].0),
        Op::MkTree { tree: 0, spec: po.trees[0] },
    ];
    p.threads = vec![thread(setup, None)];
    let same = r.chance(35);
    let kind = r.below(7);
    for t in 0..nthr {
        let mut ops = vec![];
        let n = r.range(1, per);
        for _ in 0..n {
            let k = if same { kind } else { r.below(7) };
            ops.push(match k {
                0 | 1 => {
                    let s = r.below(2);
                    parse(s, *r.pick(&po.texts[if s == 0 { 0 } else { second }]), r.chance(30))
                }
                2 => Op::Compile { text: *r.pick(&po.notes), slot: None },
                3 => {
                    let g = r.below(po.grams.len());
                    Op::Session { g: po.grams[g].0, text: *r.pick(&po.texts[g]), debug: r.chance(30), order: r.u64() }
                }
                4 => Op::Gen { slot: r.below(2) },
                5 => Op::Tx { tree: 0, chain: chain(r), dst: None },
                _ => {
                    let k = r.below(2);
                    build(r, 4 + t, po.grams[k].0)
                }
            });
        }
        p.threads.push(thread(ops, Some(0)));
    }
}

fn stalls(r: &mut Rng, mk: &Mk, p: &mut Plan) {
    p.kind = "stalls".into();
    let nthr = r.range(2, 5);
    mixed(r, mk, p, nthr, 3);
    gen::environment(r, &mut p.pol);
    p.pol.strict = true;
    p.pol.pbound = *r.pick(&[0u8, 50, 100]);
    p.pol.mix_forced = true;
    p.pol.spurious = *r.pick(&[0u8, 20]);
    match r.below(4) {
        0 => p.pol.mean = 1 << r.range(8, 16),
        1 => {
            p.pol.mean = 20_000;
            p.pol.logu = true
        }
        2 => p.pol.pconf = 20,
        _ => {}
    }
    p.pol.forever = r.chance(60);
    p.pol.pstall = *r.pick(&[5u8, 30, 80]);
    p.pol.max_stalls = r.range(1, nthr - 1) as u8;
    let forever = p.pol.forever;
    let k = r.range(1, nthr);
    for t in 1..=k {
        if t == nthr {
            break; // one caller always goes on
        }
        let op = r.below(p.threads[t].ops.len()) as u32;
        let step = if r.chance(50) { r.logu(400_000) } else { 1 + r.below(30_000) as u64 };
        let kind = if forever { crate::sched::D_FOREVER } else { crate::sched::D_STALL };
        p.decs.push(Dec { thr: t as u8, op, step, kind, target: 0, arg: 0 });
    }
}

fn memory_out(r: &mut Rng, mk: &mut Mk, p: &mut Plan) {
    p.kind = "nomem".into();
    let nthr = *r.pick(&[1usize, 1, 1, 2, 3]);
    mixed(r, mk, p, nthr, 3);
    gen::environment(r, &mut p.pol);
    p.pol.reuse = 1;
    if nthr > 1 {
        gen::schedule(r, &mut p.pol);
    }
    let base = mk.runner.run(p);
    if !base.clean() {
        return;
    }
    let targets: Vec<_> = base.recs.iter().filter(|x| x.allocs > 0 && x.thr > 0).collect();
    for _ in 0..12 {
        if targets.is_empty() {
            break;
        }
        let x = targets[r.below(targets.len())];
        let k = match r.below(4) {
            0 => r.logu(x.allocs) - 1,
            1 => x.allocs - r.logu(x.allocs),
            _ => r.below(x.allocs as usize) as u64,
        };
        let n = *r.pick(&[1u64, 1, 1, 2, 5, u64::MAX]);
        p.fails.push(Fail { thr: x.thr as u8, op: x.op as u32, k, n });
    }
    if r.chance(30) {
        // a limit on the memory of the process, or on single blocks
        if r.chance(50) {
            p.pol.fail_min = *r.pick(&[16usize, 64, 200, 500, 1000, 4000, 20_000]);
        } else {
            p.pol.cap = r.logu(1 << 20) as usize;
        }
        p.fails.clear();
    }
}

// ---------------------------------------------------------------- C11

/// Marks in texts, names and literals, where they change from call to call.
fn mark(r: &mut Rng, p: &mut Plan, notes: &[usize]) {
    for (i, t) in p.texts.iter_mut().enumerate() {
        if notes.contains(&i) {
            *t = t.replace("main", "mainzq").replace("= ", "= 'zq' ");
            t.push_str("\nzq.zq = 'zq' / error(\"zq\")\n");
        } else {
            let mut v: Vec<char> = t.chars().collect();
            let k = r.below(v.len() + 1);
            v.splice(k..k, "zq".chars());
            *t = v.into_iter().collect();
        }
    }
    let add = |s: &str| if s == "main" { s.to_string() } else { format!("{}zq", s) };
    let lits = r.chance(50);
    for g in &mut p.grams {
        for x in &mut g.rules {
            x.0 = add(&x.0);
            crate::plan::map_strings(&mut x.1, &|s| if lits { add(s) } else { s.to_string() });
            if !lits {
                refs(&mut x.1);
            }
        }
    }
    for t in &mut p.trees {
        crate::plan::map_tree(t, &add);
    }
}

fn refs(e: &mut Ex) {
    match e {
        Ex::Ref { s } if s != "main" => s.push_str("zq"),
        Ex::Not { e } | Ex::Rep { e, .. } => refs(e),
        Ex::Seq { v } | Ex::Alt { v } => v.iter_mut().for_each(refs),
        _ => {}
    }
}

/// Many different calls, made again and again all together.
fn sweep(r: &mut Rng, mk: &Mk, p: &mut Plan) {
    p.kind = "sweep".into();
    let small = r.chance(70);
    let po = pool(r, mk, p, 5, 4, small);
    let mut st = [None; 4];
    let mut ops = vec![];
    let mut more = vec![];
    for (g, ts) in po.grams.iter().zip(&po.texts) {
        more.extend(ts.iter().map(|t| Op::Session { g: g.0, text: *t, debug: r.chance(50), order: r.u64() }));
    }
    more.extend(po.notes.iter().map(|t| Op::Compile { text: *t, slot: None }));
    for s in &po.trees {
        let t = p.trees[*s].clone();
        more.push(Op::MkTree { tree: 0, spec: *s });
        more.push(Op::Tx { tree: 0, chain: chain(r), dst: None });
        more.push(Op::Tx { tree: 0, chain: vec![reads(r, Some((&t, false)))], dst: None });
    }
    ops.append(&mut more);
    for _ in 0..r.range(5, 30) {
        ops.push(hist_op(r, &po, 0, 0, &mut st));
    }
    ops.extend((0..4).map(|s| Op::DropRules { slot: s }).chain((0..2).map(|t| Op::DropTree { tree: t })));
    for _ in 0..8 {
        ops.push(Op::Snap {});
        ops.push(Op::Again { n: ops.len(), times: 1, vary: false });
    }
    ops.push(Op::Snap {});
    p.threads.push(thread(ops, None));
    gen::environment(r, &mut p.pol);
}

/// The calls of the plan again: twice, four times, ... and at most `most` times, at least 64.
pub fn rounds(p: &mut Plan, most: u64) {
    let varied = p.kind == "doubling, varied";
    let ops = &mut p.threads[0].ops;
    let n = ops.iter().position(|o| matches!(o, Op::Snap {})).unwrap_or(ops.len());
    ops.truncate(n);
    ops.push(Op::Snap {});
    let mut t = 2;
    while t <= most.max(64) {
        ops.push(Op::Again { n: n.max(1) + ops.len() - n, times: t, vary: varied });
        ops.push(Op::Snap {});
        t *= 2;
    }
}

fn windows(r: &mut Rng, mk: &mut Mk, p: &mut Plan) {
    p.kind = (*r.pick(&["windows", "generations", "rounds", "doubling", "doubling", "doubling, varied", "doubling, varied", "lineage"])).to_string();
    if r.chance(38) {
        return sweep(r, mk, p);
    }
    let many = p.kind.starts_with("doubling") || p.kind == "lineage";
    let w = if many { 1 } else { 7 };
    let n = if many { r.range(1, 5) } else { r.range(2, 14) };
    let mut wins: Vec<Vec<Op>> = vec![];
    let focus = r.below(10);
    for _ in 0..w {
        // every window has inputs of its own
        let small = many || r.chance(60);
        let po = pool(r, mk, p, 2, 3, small);
        let mut st = [None; 4];
        let mut ops = vec![];
        for _ in 0..n {
            let mut o = hist_op(r, &po, 0, 0, &mut st);
            let plain = !matches!(
                o,
                Op::Build { .. } | Op::Compile { slot: Some(_), .. } | Op::DropRules { .. }
            );
            if focus >= 8 && plain && r.chance(80) {
                // walks over a tree, and names that are not there
                let t = *r.pick(&po.trees);
                let mut rd = reads(r, Some((&p.trees[t].clone(), true)));
                if let Tx::Read { flat, steps } = &mut rd {
                    let n = if *flat { model::FLAT_READERS } else { model::TREE_READERS } as usize;
                    for s in steps {
                        if r.chance(40) {
                            *s = Step { f: r.below(n) as u8, name: r.pick(TREE_NAMES).to_string() };
                        }
                    }
                }
                ops.push(Op::MkTree { tree: 0, spec: t });
                o = Op::Tx { tree: 0, chain: vec![rd], dst: None };
            }
            if focus < 5 && plain && r.chance(80) {
                o = match focus {
                    0 => Op::Compile { text: *r.pick(&po.notes), slot: None },
                    1 | 2 => {
                        let g = r.below(po.grams.len());
                        Op::Session { g: po.grams[g].0, text: *r.pick(&po.texts[g]), debug: r.chance(50), order: r.u64() }
                    }
                    3 => Op::Gen { slot: 0 },
                    _ => Op::Tx { tree: 0, chain: chain(r), dst: None },
                };
            }
            ops.push(o);
        }
        if p.kind == "doubling, varied" {
            mark(r, p, &po.notes);
            for o in &mut ops {
                // also of what is looked for
                if r.chance(70) {
                    o.map_names(&|s| if s == "main" { s.to_string() } else { format!("{}zq", s) });
                }
            }
        }
        wins.push(ops);
    }
    let cleanup = || -> Vec<Op> {
        (0..4)
            .map(|s| Op::DropRules { slot: s })
            .chain((0..2).map(|t| Op::DropTree { tree: t }))
            .collect()
    };
    gen::environment(r, &mut p.pol);
    match p.kind.as_str() {
        "windows" => {
            let mut ops = vec![];
            for x in wins {
                ops.extend(x);
                ops.extend(cleanup());
                ops.push(Op::Snap {});
            }
            p.threads.push(thread(ops, None));
        }
        "doubling" | "doubling, varied" => {
            let mut ops = wins.remove(0);
            ops.extend(cleanup());
            p.threads.push(thread(ops, None));
            let base = mk.runner.run(p);
            if !base.clean() {
                return;
            }
            // few at first, in most plans: what grows is looked at for longer
            let most = if !r.chance(25) {
                64
            } else if mk.thorough {
                (300_000_000 / (base.st.steps + 2_000)).min(1 << 13)
            } else {
                (60_000_000 / (base.st.steps + 2_000)).min(1 << 13)
            };
            rounds(p, most);
        }
        "lineage" => {
            let x = wins.remove(0);
            for i in 0..23 {
                let mut ops = vec![Op::Snap {}];
                if i < 22 {
                    ops.extend(x.clone());
                    ops.extend(cleanup());
                }
                p.threads.push(thread(ops, if i > 0 { Some(i - 1) } else { None }));
            }
        }
        "generations" => {
            let mut prev = None;
            for x in wins {
                let mut ops = vec![Op::Snap {}];
                ops.extend(x);
                ops.extend(cleanup());
                p.threads.push(thread(ops, prev));
                prev = Some(p.threads.len() - 1);
            }
            p.threads.push(thread(vec![Op::Snap {}], prev));
        }
        _ => {
            // pairs of concurrent callers, one pair after the other, with private values
            let mut prev: [Option<usize>; 2] = [None, None];
            for (i, x) in wins.into_iter().enumerate() {
                if i == 6 {
                    break;
                }
                let mut ops = vec![];
                let mut other = vec![];
                for o in x {
                    match o {
                        Op::Compile { text, .. } => {
                            ops.push(Op::Compile { text, slot: None });
                            other.push(Op::Compile { text, slot: None });
                        }
                        Op::Session { .. } => {
                            ops.push(o.clone());
                            other.push(o);
                        }
                        o => ops.push(o),
                    }
                }
                ops.extend(cleanup());
                let a = p.threads.len();
                p.threads.push(thread(ops, prev[0]));
                p.threads.push(thread(other, prev[1]));
                prev = [Some(a), Some(a + 1)];
            }
            gen::schedule(r, &mut p.pol);
        }
    }
}

// ---------------------------------------------------------------- C12

fn flat_case(r: &mut Rng, which: usize, n: usize, p: &mut Plan, slot: usize, tr: usize) -> Vec<Op> {
    let mut g = Gram::default();
    let add = |g: &mut Gram, n: &str, e: Ex| g.rules.push((n.to_string(), e));
    let text: String;
    match which {
        0 => {
            add(&mut g, "main", rep(alt(vec![lit("x"), refr("b")]), 0, None));
            add(&mut g, "b", cls("b", &[('c', 'd')]));
            text = (0..n).map(|i| ['b', 'c', 'x'][i % 3]).collect();
        }
        1 => {
            add(&mut g, "main", seq(vec![rep(cls("", &[('a', 'z')]), 1, None), lit("!")]));
            text = "k".repeat(n) + "?";
        }
        2 => {
            add(&mut g, "main", seq((0..n).map(|i| lit(if i % 2 == 0 { "a" } else { "b" })).collect()));
            text = (0..n).map(|i| if i % 2 == 0 { 'a' } else { 'b' }).collect();
        }
        3 => {
            add(&mut g, "main", alt((0..n).map(|i| lit(&format!("a{}.", i))).collect()));
            text = format!("a{}.", n - 1);
        }
        4 => {
            add(&mut g, "main", lit(&"l".repeat(n)));
            text = "l".repeat(n);
        }
        5 => {
            add(&mut g, "main", rep(refr("line"), 0, None));
            add(&mut g, "line", seq(vec![rep(cls("", &[('a', 'z')]), 0, None), alt(vec![lit("\n"), Ex::Err { s: "no newline".into() }])]));
            text = "ab\n".repeat(n / 3) + "zz";
        }
        6 => {
            add(&mut g, "main", rep(lit("a"), n / 2, Some(n)));
            text = "a".repeat(n);
        }
        7 => {
            let cs: String = (0..n as u32).filter_map(|i| char::from_u32(0x4e00 + i % 20_000)).collect();
            let rs: Vec<(char, char)> = (0..n as u32)
                .filter_map(|i| {
                    let c = char::from_u32(0x1_0000 + 2 * i)?;
                    Some((c, c))
                })
                .collect();
            add(&mut g, "main", seq(vec![cls(&cs, &rs), lit("z")]));
            text = format!("{}z", rs.last().unwrap().0);
        }
        8 => {
            add(&mut g, "main", rep(seq(vec![Ex::Not { e: Box::new(lit("q")) }, Ex::Dot {}]), 0, None));
            text = "é.".repeat(n / 2);
        }
        _ => {
            // the same things, some levels deep
            add(&mut g, "main", seq(vec![lit("("), refr("in"), lit(")")]));
            add(&mut g, "in", seq(vec![lit("["), rep(alt(vec![refr("main"), lit("x"), lit("y")]), 0, None), lit("]")]));
            text = format!("([([{}])])", "xy".repeat(n / 2));
        }
    }
    let m = g.map();
    let g = add_gram(p, g);
    let good = add_text(p, text.clone());
    let mut ops = vec![Op::Build { slot, g, how: 0, order: 1 }, Op::Parse { slot, text: good, debug: false, keep: Some(tr) }];
    ops.push(Op::Tx { tree: tr, chain: vec![Tx::Compact {}], dst: None });
    ops.push(Op::Tx { tree: tr, chain: vec![Tx::Pass { names: vec!["in".into(), "line".into()] }], dst: None });
    ops.push(Op::Tx { tree: tr, chain: vec![Tx::Flatten {}], dst: None });
    ops.push(Op::DropTree { tree: tr });
    let mut bad: String = text;
    bad.pop();
    bad.push('#');
    let _ = m;
    let bad = add_text(p, bad);
    ops.push(parse(slot, bad, false));
    // a debug parse notes each rule it enters, and copies the list at each failure
    if which != 4 && (n <= 1500 || !matches!(which, 0 | 5 | 9)) {
        ops.push(parse(slot, bad, true));
    }
    let _ = r;
    ops.push(Op::DropRules { slot });
    ops
}

fn wide_case(r: &mut Rng, seed: u64, n: usize, p: &mut Plan, tr: usize) -> Vec<Op> {
    let mut q = Rng::new(seed);
    let kind = q.below(6);
    let v: Vec<Tn> = (0..n)
        .map(|i| match kind {
            // long runs of the same
            4 => Tn::Rule { s: "a".into(), v: if q.below(2) == 0 { vec![] } else { vec![Tn::Val { s: "x".into() }] } },
            5 => match i * 5 / n {
                0 => Tn::Rule { s: "a".into(), v: vec![] },
                1 => Tn::Val { s: String::new() },
                2 => Tn::Rule { s: "b".into(), v: vec![Tn::Rule { s: "a".into(), v: vec![] }] },
                3 => Tn::Val { s: "p".into() },
                _ => Tn::Rule { s: ["a", "b"][i % 2].into(), v: vec![] },
            },
            0 => Tn::Val { s: "v".into() },
            1 => Tn::Rule { s: ["a", "b"][i % 2].into(), v: vec![] },
            2 if i % 3 == 0 => Tn::Rule { s: "a".into(), v: vec![Tn::Val { s: "x".into() }] },
            2 => Tn::Val { s: "y".into() },
            _ => match q.below(3) {
                0 => Tn::Val { s: "p".into() },
                1 => Tn::Rule { s: "b".into(), v: vec![Tn::Val { s: "x".into() }, Tn::Val { s: "z".into() }] },
                _ => Tn::Rule { s: "a".into(), v: vec![] },
            },
        })
        .collect();
    p.trees.push(Tn::Rule { s: "main".into(), v: vec![Tn::Rule { s: "w".into(), v }] });
    let spec = p.trees.len() - 1;
    let _ = r;
    let w = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    vec![
        Op::MkTree { tree: tr, spec },
        Op::Tx { tree: tr, chain: vec![Tx::Compact {}], dst: None },
        Op::Tx { tree: tr, chain: vec![Tx::Prune { names: w(&["a"]) }], dst: None },
        Op::Tx { tree: tr, chain: vec![Tx::Prune { names: w(&["absent"]) }], dst: None },
        Op::Tx { tree: tr, chain: vec![Tx::Prune { names: w(&["b", "a"]) }], dst: None },
        Op::Tx { tree: tr, chain: vec![Tx::Pass { names: w(&["w", "a"]) }], dst: None },
        Op::Tx { tree: tr, chain: vec![Tx::Pass { names: w(&["w"]) }], dst: None },
        Op::Tx { tree: tr, chain: vec![Tx::Pass { names: w(&[]) }], dst: None },
        Op::Tx { tree: tr, chain: vec![Tx::Flatten {}], dst: None },
        Op::Tx { tree: tr, chain: vec![Tx::Pass { names: w(&["w"]) }, Tx::Compact {}, Tx::Prune { names: w(&["b"]) }, Tx::Flatten {}], dst: None },
        Op::DropTree { tree: tr },
    ]
}

/// Long in one way or another, of elements of a few random kinds; for one seed of the same shape.
fn unit_case(seed: u64, n: usize, p: &mut Plan, slot: usize, tr: usize) -> Vec<Op> {
    let mut q = Rng::new(seed);
    let q = &mut q;
    let mut g = Gram::default();
    let not = |e: Ex| Ex::Not { e: Box::new(e) };
    // what matches, and on which text
    let unit = |q: &mut Rng| -> (Ex, &'static str) {
        match q.below(18) {
            0 => (lit("a"), "a"),
            1 => (lit("éb"), "éb"),
            2 => (cls("xy", &[('c', 'd')]), "c"),
            3 => (Ex::Dot {}, "z"),
            4 => (refr("u"), "u"),
            5 => (refr("v"), "v"),
            6 => (not(lit("q")), ""),
            7 => (not(cls("", &[('0', '9')])), ""),
            8 => (not(not(cls("", &[(' ', '\u{ffff}')]))), ""),
            9 => (rep(lit("b"), 0, Some(1)), ""),
            10 => (rep(lit("b"), 1, Some(2)), "bb"),
            11 => (alt(vec![lit("q"), refr("u")]), "u"),
            12 => (alt(vec![not(Ex::Dot {}), lit("n")]), "n"),
            13 => (seq(vec![lit("s"), not(lit("9"))]), "s"),
            14 => (lit(""), ""),
            15 => (rep(refr("w"), 0, None), ""),
            16 => (alt(vec![seq(vec![lit("l"), lit("8")]), lit("l")]), "l"),
            _ => (not(refr("w")), ""),
        }
    };
    let k = q.range(1, 3);
    let us: Vec<(Ex, &str)> = (0..k).map(|_| unit(q)).collect();
    let each: String = us.iter().map(|u| u.1).collect();
    let els = |n: usize| -> Vec<Ex> { us.iter().cycle().take(n).map(|u| u.0.clone()).collect() };
    // errors cost the length of the line
    let sep = if q.chance(70) { "\n" } else { "r" };
    let (main, text) = match q.below(7) {
        // one long sequence
        0 | 1 => (seq(els(n)), us.iter().cycle().take(n).map(|u| u.1).collect::<String>()),
        // one long choice, the last of which fits
        2 => {
            let mut v: Vec<Ex> = (0..n).map(|i| seq(vec![us[i % k].0.clone(), lit("9")])).collect();
            v.push(seq(els(k)));
            (alt(v), each.clone())
        }
        // repeated
        3 | 4 => (rep(seq([els(k), vec![lit(sep)]].concat()), 0, None), format!("{}{}", each, sep).repeat(n)),
        5 => (rep(rep(seq([els(k), vec![lit(sep)]].concat()), 1, Some(7)), 0, None), format!("{}{}", each, sep).repeat(n)),
        _ => {
            let mut v = els(k);
            v.push(lit(sep));
            g.rules.push(("many".into(), seq(v)));
            (rep(alt(vec![lit("7"), refr("many")]), n / 2, Some(n)), format!("{}{}", each, sep).repeat(n))
        }
    };
    g.rules.push(("main".into(), main));
    g.rules.push(("u".into(), lit("u")));
    g.rules.push(("v".into(), seq(vec![not(lit("0")), Ex::Dot {}])));
    g.rules.push(("w".into(), seq(vec![lit("w"), lit("w")])));
    let g = add_gram(p, g);
    let good = add_text(p, text.clone());
    let bad = add_text(p, text + "#");
    let mut ops = vec![
        Op::Build { slot, g, how: 0, order: 1 },
        Op::Parse { slot, text: good, debug: false, keep: Some(tr) },
        Op::Tx { tree: tr, chain: vec![Tx::Compact {}], dst: None },
        Op::Tx { tree: tr, chain: vec![Tx::Prune { names: vec!["u".into()] }, Tx::Flatten {}], dst: None },
        Op::Tx { tree: tr, chain: vec![Tx::Pass { names: vec!["v".into()] }], dst: None },
        Op::DropTree { tree: tr },
        parse(slot, bad, false),
    ];
    if n <= 1500 {
        ops.push(parse(slot, bad, true));
    }
    ops.push(Op::DropRules { slot });
    ops
}

pub const SMALL_STACK: usize = 256 << 10;

fn flats(r: &mut Rng, p: &mut Plan) {
    let c = r.below(24);
    let limit = |n: usize| match c {
        // quadratic in the present implementation
        4 => n.min(1_500),
        _ => n,
    };
    let a = limit(r.range(300, 900));
    let b = match c {
        4 => 6_000,
        0 | 8 | 9 => *r.pick(&[3_000usize, 3_000, 6_000]),
        16.. => *r.pick(&[1_200usize, 2_000, 2_000, 3_000]),
        _ => *r.pick(&[4_000usize, 4_000, 4_000, 8_000, 8_000, 8_000, 16_000, 16_000, 33_000, 66_000]),
    };
    let case = |r: &mut Rng, n: usize, p: &mut Plan, k: usize| {
        if c < 10 {
            flat_case(r, c, n, p, k, k)
        } else if c >= 16 {
            unit_case(p.seed, n, p, k, k)
        } else {
            let s = p.seed;
            wide_case(r, s, n, p, k)
        }
    };
    if r.chance(60) {
        p.kind = if c < 16 { format!("grow{}", c) } else { "grow, random".into() };
        let mut ops = case(r, a, p, 0);
        let second = case(r, b, p, 1);
        ops.extend(second);
        p.threads = vec![thread(ops, None)];
        // painted before each call
        p.threads[0].stack = 6 << 20;
        p.stackcheck = true;
    } else {
        p.kind = if c < 16 { format!("small{}", c) } else { "small, random".into() };
        let mut ops = case(r, b, p, 0);
        let mut setup = vec![];
        let mut i = 0;
        while i < ops.len() {
            if matches!(ops[i], Op::Build { .. } | Op::MkTree { .. }) {
                setup.push(ops.remove(i));
            } else {
                i += 1;
            }
        }
        p.threads = vec![thread(setup, None), thread(ops, Some(0))];
        p.threads[1].stack = SMALL_STACK;
        if r.chance(30) {
            gen::schedule(r, &mut p.pol);
        }
    }
    gen::environment(r, &mut p.pol);
    p.pol.gap = 0;
}

// ---------------------------------------------------------------- C13

fn transforms(r: &mut Rng, mk: &Mk, p: &mut Plan) {
    if r.chance(20) {
        return in_turns(r, p, false);
    }
    p.kind = "transforms".into();
    let nt = r.range(1, 3);
    let mut setup = vec![];
    for k in 0..nt {
        if r.chance(15) {
            let f = fuel(r);
            let (g, a) = gen::usable_gram(r, f, mk.notation);
            let t = gen::text(r, &g.map(), &a, f);
            let t = add_text(p, t);
            let g = add_gram(p, g);
            setup.push(build(r, 0, g));
            setup.push(Op::Parse { slot: 0, text: t, debug: false, keep: Some(k) });
        } else {
            p.trees.push(tree(r));
            setup.push(Op::MkTree { tree: k, spec: p.trees.len() - 1 });
        }
    }
    let setup_ops: Vec<Op> = setup.iter().filter(|o| !matches!(o, Op::Build { .. })).cloned().collect();
    p.threads.push(thread(setup, None));
    let nthr = *r.pick(&[1usize, 2, 2, 3, 4]);
    for t in 0..nthr {
        let mut ops = vec![];
        for _ in 0..r.range(1, 6) {
            let k = if r.chance(15) { 8 + t } else { r.below(nt) };
            let mut c = chain(r);
            if let (true, Op::MkTree { spec, .. }) = (k < nt && r.chance(50), &setup_ops[k.min(nt - 1)]) {
                fit(r, &mut c, &p.trees[*spec]);
            } else if r.chance(30) {
                // names that occur
                if let Some(Tx::Pass { names } | Tx::Prune { names }) = c.first_mut() {
                    if r.chance(50) {
                        names.push("main".into());
                    } else if !names.is_empty() {
                        let n = names[0].clone();
                        names.push(n);
                    }
                }
            }
            let dst = if r.chance(25) { Some(8 + t) } else { None };
            ops.push(Op::Tx { tree: k, chain: c, dst });
            if r.chance(25) {
                ops.push(Op::DumpTree { tree: if dst.is_some() { 8 + t } else { k } });
            }
        }
        for k in 0..nt {
            ops.push(Op::DumpTree { tree: k });
        }
        p.threads.push(thread(ops, Some(0)));
    }
    gen::some_env(r, &mut p.pol);
}

// ---------------------------------------------------------------- C14

/// The tree after the transformations.
fn after(t: &Tn, chain: &[Tx]) -> Tn {
    let mut t = t.clone();
    for c in chain {
        t = match c {
            Tx::Compact {} => model::compact(&t),
            Tx::Prune { names } => model::prune(&t, names),
            Tx::Pass { names } => model::pass(&t, names),
            _ => t,
        };
    }
    t
}

fn readers(r: &mut Rng, mk: &Mk, p: &mut Plan) {
    if r.chance(25) {
        return in_turns(r, p, true);
    }
    p.kind = "readers".into();
    let nt = r.range(1, 2);
    let mut setup = vec![];
    let mut known: Vec<(Tn, bool)> = vec![];
    for k in 0..nt {
        if r.chance(15) {
            let f = fuel(r);
            let (g, a) = gen::usable_gram(r, f, mk.notation);
            let m = g.map();
            let t = gen::text(r, &m, &a, f);
            known.push((
                match model::parse(&m, &t, false, 100_000).0 {
                    model::POut::Ok(t) => t,
                    _ => Tn::Eof {},
                },
                false,
            ));
            let t = add_text(p, t);
            let g = add_gram(p, g);
            setup.push(build(r, 0, g));
            setup.push(Op::Parse { slot: 0, text: t, debug: false, keep: Some(k) });
        } else {
            let t = tree(r);
            known.push((t.clone(), true));
            p.trees.push(t);
            setup.push(Op::MkTree { tree: k, spec: p.trees.len() - 1 });
        }
    }
    p.threads.push(thread(setup, None));
    let nthr = *r.pick(&[1usize, 2, 2, 3, 4]);
    for _ in 0..nthr {
        let mut ops = vec![];
        for _ in 0..r.range(1, 6) {
            let k = r.below(nt);
            let mut c = vec![];
            if r.chance(25) {
                c = chain(r);
                c.retain(|x| !matches!(x, Tx::Flatten {} | Tx::Read { .. }));
                fit(r, &mut c, &known[k].0);
            }
            let (t, eof) = &known[k];
            let t = after(t, &c);
            let rd = reads(r, Some((&t, *eof && c.is_empty())));
            c.push(rd);
            ops.push(Op::Tx { tree: k, chain: c, dst: None });
        }
        for k in 0..nt {
            ops.push(Op::DumpTree { tree: k });
        }
        p.threads.push(thread(ops, Some(0)));
    }
    gen::some_env(r, &mut p.pol);
}

// ----------------------------------------------------------------

pub fn make(mk: &mut Mk, prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut p = Plan::new(prop, prop, seed);
    p.kind = "shared".into();
    match prop {
        "C01" | "C02" => {
            if r.chance(4) {
                bigs(r, &mut p)
            } else {
                shared(r, mk, &mut p, prop == "C02")
            }
        }
        "C03" => match r.below(20) {
            0 | 1 => repeats(r, mk, &mut p),
            2 | 3 => many_names(r, mk, &mut p),
            4 => deep_history(r, mk, &mut p),
            5 if r.chance(60) => very_many(r, mk, &mut p),
            6 if r.chance(60) => wraps(r, mk, &mut p),
            _ => history(r, mk, &mut p),
        },
        "C04" => envs(r, mk, &mut p),
        "C05" => {
            if r.chance(5) {
                big_mutations(r, &mut p)
            } else {
                mutations(r, mk, &mut p)
            }
        }
        "C06" => {
            if r.chance(4) {
                big_compile(r, &mut p)
            } else if r.chance(15) {
                compile_names(r, &mut p)
            } else {
                compiles(r, mk, &mut p)
            }
        }
        "C07" => generates(r, &mut p),
        "C09" => stalls(r, mk, &mut p),
        "C10" => memory_out(r, mk, &mut p),
        "C11" => windows(r, mk, &mut p),
        "C12" => flats(r, &mut p),
        "C13" => transforms(r, mk, &mut p),
        "C14" => readers(r, mk, &mut p),
        _ => crate::harness_error("no such property"),
    }
    p
}
