//! Makes a failing plan small while the same class of violation stays.

use crate::check::{Checker, Violation};
use crate::exec::Res;
use crate::gen;
use crate::model::{Ex, Tn};
use crate::plan::*;
use crate::sys::real_now;

pub struct Shrunk {
    pub plan: Plan,
    pub violation: Violation,
    pub evals: u32,
    pub exact: bool,
}

struct S<'a> {
    ck: &'a mut Checker,
    class: String,
    best: Plan,
    v: Violation,
    evals: u32,
    end: f64,
    max: u32,
}

fn size_ok(p: &Plan) -> bool {
    p.nops() > 0
}

impl<'a> S<'a> {
    fn over(&self) -> bool {
        self.evals >= self.max || real_now() > self.end
    }

    fn attempt(&mut self, p: &Plan) -> Option<(Violation, Res)> {
        self.evals += 1;
        match self.ck.check(p) {
            (Some(v), res) if v.class == self.class => Some((v, res)),
            _ => None,
        }
    }

    fn offer(&mut self, p: Plan) -> bool {
        if self.over() || p == self.best || !size_ok(&p) {
            return false;
        }
        if let Some((v, _)) = self.attempt(&p) {
            self.best = p;
            self.v = v;
            return true;
        }
        false
    }

    fn decs(&mut self) {
        if !self.best.decs.is_empty() {
            let mut q = self.best.clone();
            q.decs.clear();
            if self.offer(q) {
                return;
            }
        }
        let mut n = self.best.decs.len() / 2;
        while n >= 1 && !self.over() {
            let mut i = 0;
            while i < self.best.decs.len() && !self.over() {
                let mut q = self.best.clone();
                let e = (i + n).min(q.decs.len());
                q.decs.drain(i..e);
                if !self.offer(q) {
                    i += n;
                }
            }
            n /= 2;
        }
    }

    fn threads(&mut self) {
        let mut t = self.best.threads.len();
        while t > 0 && !self.over() {
            t -= 1;
            if self.best.threads.len() < 2 {
                return;
            }
            let mut q = self.best.clone();
            let gone = q.threads.remove(t);
            for x in &mut q.threads {
                x.after = match x.after {
                    Some(a) if a == t => gone.after.map(|g| g - (g > t) as usize),
                    Some(a) if a > t => Some(a - 1),
                    a => a,
                };
            }
            let fix = |x: u8| x - (x as usize > t) as u8;
            q.decs.retain(|d| d.thr as usize != t);
            q.fails.retain(|d| d.thr as usize != t);
            for d in &mut q.decs {
                d.thr = fix(d.thr);
                d.target = if d.target as usize == t { 0 } else { fix(d.target) };
            }
            for f in &mut q.fails {
                f.thr = fix(f.thr);
            }
            self.offer(q);
        }
    }

    fn ops(&mut self) {
        for t in 0..self.best.threads.len() {
            let mut n = self.best.threads[t].ops.len().div_ceil(2);
            while n >= 1 && !self.over() {
                let mut i = 0;
                while i < self.best.threads[t].ops.len() && !self.over() {
                    let mut q = self.best.clone();
                    let len = q.threads[t].ops.len();
                    let e = (i + n).min(len);
                    let keeps = |o: &Op| {
                        matches!(o, Op::Build { .. } | Op::Compile { slot: Some(_), .. } | Op::DropRules { .. })
                    };
                    if self.class == "signal11" && q.threads[t].ops[i..e].iter().any(keeps) {
                        // another rule set, perhaps a left-recursive one, would take its place
                        i += 1;
                        continue;
                    }
                    q.threads[t].ops.drain(i..e);
                    let (lo, hi) = (i as u32, e as u32);
                    q.decs.retain(|d| d.thr as usize != t || d.op == u32::MAX || d.op < lo || d.op >= hi);
                    q.fails.retain(|d| d.thr as usize != t || d.op < lo || d.op >= hi);
                    for d in &mut q.decs {
                        if d.thr as usize == t && d.op != u32::MAX && d.op >= hi {
                            d.op -= hi - lo;
                        }
                    }
                    for d in &mut q.fails {
                        if d.thr as usize == t && d.op >= hi {
                            d.op -= hi - lo;
                        }
                    }
                    if !self.offer(q) {
                        i += n;
                    }
                }
                n /= 2;
            }
        }
    }

    fn fails(&mut self) {
        let mut i = self.best.fails.len();
        while i > 0 && !self.over() {
            i -= 1;
            if self.best.fails.len() < 2 {
                return;
            }
            let mut q = self.best.clone();
            q.fails.remove(i);
            self.offer(q);
        }
    }

    fn policy(&mut self) {
        let d = Policy::NONE;
        let all: Vec<fn(&mut Policy, &Policy)> = vec![
            |p, d| *p = *d,
            |p, d| {
                p.mean = d.mean;
                p.logu = d.logu;
                p.pconf = d.pconf;
                p.pbound = d.pbound;
                p.pstall = d.pstall;
            },
            |p, d| {
                p.clock0 = d.clock0;
                p.wall0 = d.wall0;
                p.tick = d.tick;
                p.pid = d.pid;
                p.cpus = d.cpus;
                p.env = d.env;
            },
            |p, d| p.hash_seed = d.hash_seed,
            |p, d| {
                p.reuse = d.reuse;
                p.fill = d.fill;
                p.inplace = d.inplace;
            },
            |p, d| {
                p.gap = d.gap;
                p.base_off = d.base_off;
            },
            |p, d| p.odd = d.odd,
            |p, d| p.cap = d.cap,
            |p, d| p.fail_min = d.fail_min,
            |p, d| {
                p.spurious = d.spurious;
                p.mix_forced = d.mix_forced;
            },
        ];
        for f in all {
            let mut q = self.best.clone();
            f(&mut q.pol, &d);
            self.offer(q);
        }
        for t in 0..self.best.threads.len() {
            if self.best.threads[t].after.is_some() {
                let mut q = self.best.clone();
                q.threads[t].after = None;
                self.offer(q);
            }
        }
    }

    fn used_texts(&self) -> Vec<bool> {
        let mut u = vec![false; self.best.texts.len()];
        for t in &self.best.threads {
            for o in &t.ops {
                if let Op::Parse { text, .. } | Op::Compile { text, .. } | Op::Session { text, .. } = o {
                    u[*text] = true;
                }
            }
        }
        u
    }

    fn texts(&mut self) {
        let used = self.used_texts();
        for (i, u) in used.into_iter().enumerate() {
            if !u {
                // of no effect
                if !self.best.texts[i].is_empty() {
                    self.best.texts[i].clear();
                }
                continue;
            }
            if self.class == "signal11"
                && self.best.threads.iter().any(|t| {
                    t.ops.iter().any(|o| matches!(o, Op::Compile { text, slot: Some(_) } if *text == i))
                })
            {
                continue; // could become left-recursive
            }
            let mut n = self.best.texts[i].chars().count().div_ceil(2);
            while n >= 1 && !self.over() {
                let mut k = 0;
                loop {
                    let c: Vec<char> = self.best.texts[i].chars().collect();
                    if k >= c.len() || self.over() {
                        break;
                    }
                    let mut q = self.best.clone();
                    q.texts[i] = c[..k].iter().chain(&c[(k + n).min(c.len())..]).collect();
                    if !self.offer(q) {
                        k += n;
                    }
                }
                n /= 2;
            }
        }
    }

    fn grams(&mut self) {
        let mut used = vec![false; self.best.grams.len()];
        let mut by_index = vec![false; self.best.grams.len()];
        for t in &self.best.threads {
            for o in &t.ops {
                match o {
                    Op::Build { g, .. } | Op::Session { g, .. } => used[*g] = true,
                    Op::Add { g, .. } => {
                        used[*g] = true;
                        by_index[*g] = true
                    }
                    _ => {}
                }
            }
        }
        for i in 0..used.len() {
            if !used[i] {
                self.best.grams[i].rules.clear();
                continue;
            }
            if !by_index[i] {
                let mut n = self.best.grams[i].rules.len().div_ceil(2);
                while n >= 1 && !self.over() {
                    let mut k = 0;
                    while k < self.best.grams[i].rules.len() && !self.over() {
                        let mut q = self.best.clone();
                        let e = (k + n).min(q.grams[i].rules.len());
                        q.grams[i].rules.drain(k..e);
                        if !self.offer_gram(q) {
                            k += n;
                        }
                    }
                    n /= 2;
                }
            }
            for k in 0..self.best.grams[i].rules.len() {
                let mut at = 0;
                loop {
                    if self.over() {
                        return;
                    }
                    let alts = simpler(&self.best.grams[i].rules[k].1, at);
                    let Some(alts) = alts else { break };
                    let mut done = false;
                    for a in alts {
                        let mut q = self.best.clone();
                        q.grams[i].rules[k].1 = a;
                        if self.offer_gram(q) {
                            done = true;
                            break;
                        }
                    }
                    if !done {
                        at += 1;
                    }
                }
            }
        }
    }

    fn offer_gram(&mut self, q: Plan) -> bool {
        if gen::left_recursive(&q.grams, q.prop == "C05") {
            return false;
        }
        self.offer(q)
    }

    fn chains(&mut self) {
        for t in 0..self.best.threads.len() {
            for i in 0..self.best.threads[t].ops.len() {
                let mut k = 0;
                loop {
                    let mut q = self.best.clone();
                    let Some(Op::Tx { chain, .. }) = q.threads[t].ops.get_mut(i) else { break };
                    if k + 1 >= chain.len() || self.over() {
                        break;
                    }
                    chain.remove(k);
                    if !self.offer(q) {
                        k += 1;
                    }
                }
                let len = |p: &Plan| match &p.threads[t].ops[i] {
                    Op::Tx { chain, .. } => match chain.last() {
                        Some(Tx::Read { steps, .. }) => steps.len(),
                        _ => 0,
                    },
                    _ => 0,
                };
                let mut n = len(&self.best).div_ceil(2);
                while n >= 1 && !self.over() {
                    let mut k = 0;
                    while k < len(&self.best) && !self.over() {
                        let mut q = self.best.clone();
                        if let Op::Tx { chain, .. } = &mut q.threads[t].ops[i] {
                            if let Some(Tx::Read { steps, .. }) = chain.last_mut() {
                                let e = (k + n).min(steps.len());
                                steps.drain(k..e);
                            }
                        }
                        if !self.offer(q) {
                            k += n;
                        }
                    }
                    n /= 2;
                }
            }
        }
    }

    fn trees(&mut self) {
        for i in 0..self.best.trees.len() {
            let mut at = 0;
            loop {
                if self.over() {
                    return;
                }
                let Some(alts) = simpler_tree(&self.best.trees[i], at) else { break };
                let mut done = false;
                for a in alts {
                    let mut q = self.best.clone();
                    q.trees[i] = a;
                    if self.offer(q) {
                        done = true;
                        break;
                    }
                }
                if !done {
                    at += 1;
                }
            }
        }
    }
}

fn count(e: &Ex) -> usize {
    1 + match e {
        Ex::Seq { v } | Ex::Alt { v } => v.iter().map(count).sum(),
        Ex::Not { e } | Ex::Rep { e, .. } => count(e),
        _ => 0,
    }
}

/// Simpler versions of `e` changed at its `at`-th node.
fn simpler(e: &Ex, at: usize) -> Option<Vec<Ex>> {
    if at >= count(e) {
        return None;
    }
    if at == 0 {
        let mut o = vec![];
        match e {
            Ex::Seq { v } | Ex::Alt { v } => {
                o.extend(v.iter().cloned());
                if v.len() > 3 {
                    let h = v.len() / 2;
                    for part in [v[..h].to_vec(), v[h..].to_vec()] {
                        o.push(if let Ex::Seq { .. } = e { Ex::Seq { v: part } } else { Ex::Alt { v: part } });
                    }
                }
                if v.len() <= 40 {
                    for i in 0..v.len() {
                        let mut w = v.clone();
                        w.remove(i);
                        o.push(if let Ex::Seq { .. } = e { Ex::Seq { v: w } } else { Ex::Alt { v: w } });
                    }
                }
            }
            Ex::Not { e } => o.push((**e).clone()),
            Ex::Rep { e, .. } => o.push((**e).clone()),
            Ex::Lit { s } if s.chars().count() > 1 => {
                o.push(Ex::Lit { s: s.chars().take(1).collect() });
                o.push(Ex::Lit { s: s.chars().take(s.chars().count() / 2).collect() });
            }
            Ex::Cls { chars, ranges } if chars.chars().count() + ranges.len() > 1 => {
                o.push(Ex::Cls { chars: chars.clone(), ranges: vec![] });
                o.push(Ex::Cls { chars: String::new(), ranges: ranges.clone() });
            }
            _ => {}
        }
        return Some(o);
    }
    let mut k = at - 1;
    match e {
        Ex::Seq { v } | Ex::Alt { v } => {
            for (i, x) in v.iter().enumerate() {
                let c = count(x);
                if k < c {
                    return simpler(x, k).map(|o| {
                        o.into_iter()
                            .map(|y| {
                                let mut w = v.clone();
                                w[i] = y;
                                if let Ex::Seq { .. } = e {
                                    Ex::Seq { v: w }
                                } else {
                                    Ex::Alt { v: w }
                                }
                            })
                            .collect()
                    });
                }
                k -= c;
            }
            None
        }
        Ex::Not { e } => {
            simpler(e, k).map(|o| o.into_iter().map(|y| Ex::Not { e: Box::new(y) }).collect())
        }
        Ex::Rep { e, min, max } => simpler(e, k).map(|o| {
            o.into_iter().map(|y| Ex::Rep { e: Box::new(y), min: *min, max: *max }).collect()
        }),
        _ => None,
    }
}

fn count_tree(t: &Tn) -> usize {
    1 + match t {
        Tn::Rule { v, .. } => v.iter().map(count_tree).sum(),
        _ => 0,
    }
}

fn simpler_tree(t: &Tn, at: usize) -> Option<Vec<Tn>> {
    if at >= count_tree(t) {
        return None;
    }
    if at == 0 {
        let mut o = vec![];
        if let Tn::Rule { s, v } = t {
            o.extend(v.iter().filter(|k| matches!(k, Tn::Rule { .. })).take(8).cloned());
            let mut n = v.len().div_ceil(2);
            while n >= 1 {
                let mut i = 0;
                while i < v.len() && o.len() < 200 {
                    let mut w = v.clone();
                    w.drain(i..(i + n).min(v.len()));
                    o.push(Tn::Rule { s: s.clone(), v: w });
                    i += n;
                }
                n /= 2;
            }
        }
        return Some(o);
    }
    let mut k = at - 1;
    if let Tn::Rule { s, v } = t {
        for (i, x) in v.iter().enumerate() {
            let c = count_tree(x);
            if k < c {
                return simpler_tree(x, k).map(|o| {
                    o.into_iter()
                        .map(|y| {
                            let mut w = v.clone();
                            w[i] = y;
                            Tn::Rule { s: s.clone(), v: w }
                        })
                        .collect()
                });
            }
            k -= c;
        }
    }
    None
}

pub fn shrink(ck: &mut Checker, p: &Plan, v: &Violation, res: &Res, seconds: f64) -> Shrunk {
    let old = std::mem::replace(&mut ck.count, false);
    let mut s = S {
        ck,
        class: v.class.clone(),
        best: p.clone(),
        v: v.clone(),
        evals: 0,
        end: real_now() + seconds,
        max: 4000,
    };
    // first: the same by its recorded decisions alone
    let mut q = p.clone();
    q.replay = true;
    q.decs = res.decs.clone();
    let mut exact = false;
    if res.decs.len() < crate::sched::MAXDEC {
        if let Some((v, _)) = s.attempt(&q) {
            s.best = q;
            s.v = v;
            exact = true;
        }
    }
    loop {
        let before = s.best.clone();
        s.decs();
        s.threads();
        s.fails();
        s.ops();
        s.texts();
        s.grams();
        s.trees();
        s.chains();
        s.policy();
        s.decs();
        if s.over() || s.best == before {
            break;
        }
    }
    let (plan, violation, evals) = (s.best, s.v, s.evals);
    ck.count = old;
    Shrunk { plan, violation, evals, exact }
}
