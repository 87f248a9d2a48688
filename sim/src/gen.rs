//! Random rule sets, texts, notation texts, trees and environments.

use crate::model::{self, alt, cls, lit, not, refr, rep, seq, Ex, Gram, Map, Tn};
use crate::plan::Policy;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

const ALPHAS: &[&str] = &[
    "ab",
    "abc",
    "ab ",
    "ab\n",
    "ab\r\n",
    "aé→😀b",
    "a'\"\\#b",
    "a]-[^b",
    "a\t\0\u{7f}\u{85}\u{a0}\u{2028}\u{feff}\u{10ffff}",
    "aAbBzZ09_",
    "ßſKkKİı",
    "abcdefghij0123456789 +-*/()=,;\n",
    "\u{d7ff}\u{e000}\u{ffff}\u{10000}ÿĀ",
];

#[derive(Clone)]
pub struct Ctx {
    pub alpha: Vec<char>,
    pub names: Vec<String>,
    pub notation: bool,
}

const NAMES: &[&str] = &[
    "a", "b", "r", "x1", "A", "a.b", ".x", ".as", "_", "_1", "_eol", "r'", "mAin", "m.main",
    "grammar", "rule", "expr", "EOF", "atom", "or", "_\"", "errors", "0", "R2", "main2",
];
const ODD_NAMES: &[&str] = &["", " ", "é", "a b", "r:a", "\n", "\"q\"", "😀", "main ", "a#\"b"];

pub fn ctx(r: &mut Rng, notation: bool) -> Ctx {
    let alpha: Vec<char> = if r.chance(15) {
        let mut v: Vec<char> = (0..3).flat_map(|_| r.pick(ALPHAS).chars().collect::<Vec<_>>()).collect();
        v.dedup();
        v
    } else if r.chance(45) {
        ALPHAS[r.below(5)].chars().collect()
    } else {
        r.pick(ALPHAS).chars().collect()
    };
    let n = match r.below(10) {
        0 => 0,
        1..=6 => r.range(1, 4),
        _ if r.chance(4) => r.range(20, 120),
        _ => r.range(3, 9),
    };
    let mut names = vec!["main".to_string()];
    for i in 0..n {
        let s = if n >= 20 {
            format!("{}{}", r.pick(&["n", "Rule_", "a.", "n0"]), i)
        } else if !notation && r.chance(10) {
            r.pick(ODD_NAMES).to_string()
        } else if r.chance(3) {
            "n".repeat(r.range(20, 400))
        } else {
            r.pick(NAMES).to_string()
        };
        if !names.contains(&s) {
            names.push(s);
        }
    }
    Ctx { alpha, names, notation }
}

fn word(r: &mut Rng, a: &[char], max: usize) -> String {
    let n = r.below(max + 1);
    (0..n).map(|_| *r.pick(a)).collect()
}

pub fn literal(r: &mut Rng, c: &Ctx) -> String {
    match r.below(20) {
        0 => String::new(),
        1 => {
            let n = if r.chance(8) { 300 } else { *r.pick(&[12usize, 12, 12, 20, 40]) };
            word(r, &c.alpha, n)
        }
        2 => {
            let n = r.range(1, 3);
            (0..n).map(|_| any_char(r)).collect()
        }
        _ => {
            let mut s: String = word(r, &c.alpha, 2);
            s.push(*r.pick(&c.alpha));
            s
        }
    }
}

pub fn any_char(r: &mut Rng) -> char {
    match r.below(4) {
        0 => (r.below(128) as u8) as char,
        1 if r.chance(50) => (r.below(256) as u8) as char,
        1 => char::from_u32(r.logu(0x110000) as u32).unwrap_or('\u{fffd}'),
        _ => {
            let a: Vec<char> = r.pick(ALPHAS).chars().collect();
            *r.pick(&a)
        }
    }
}

pub fn class(r: &mut Rng, c: &Ctx) -> Ex {
    let mut chars = String::new();
    let n = if r.chance(4) { r.range(8, 90) } else { *r.pick(&[0usize, 0, 1, 1, 2, 3]) };
    for _ in 0..n {
        chars.push(if r.chance(85) { *r.pick(&c.alpha) } else { any_char(r) });
    }
    let mut ranges = vec![];
    let m = if n == 0 && (c.notation || r.chance(90)) { 1 } else { 0 };
    let more = if r.chance(3) { r.range(5, 40) } else { *r.pick(&[0usize, 0, 0, 1, 2]) };
    for _ in 0..m + more {
        let a = if r.chance(80) { *r.pick(&c.alpha) } else { any_char(r) };
        let b = if r.chance(80) { *r.pick(&c.alpha) } else { any_char(r) };
        ranges.push(if a <= b || r.chance(8) { (a, b) } else { (b, a) });
    }
    if c.notation {
        // what the notation can write
        let cs: Vec<char> = chars.chars().filter(|c| *c != ']').collect();
        chars = cs.iter().enumerate().filter(|(i, c)| *i == 0 || **c != '-').map(|(_, c)| *c).collect();
        if !chars.is_empty() {
            ranges.retain(|(a, _)| *a != '-');
        }
        if chars.is_empty() && ranges.is_empty() {
            ranges.push(('a', 'b'));
        }
    }
    Ex::Cls { chars, ranges }
}

fn message(r: &mut Rng, c: &Ctx) -> String {
    match r.below(5) {
        0 => String::new(),
        1 => word(r, &c.alpha, 6),
        2 => format!("missing '{}'", r.pick(&c.alpha)),
        3 => "unbalanced".to_string(),
        _ => format!("E{}", r.below(100)),
    }
}

pub fn expr(r: &mut Rng, c: &Ctx, depth: usize) -> Ex {
    let leaf = depth == 0 || r.chance(30);
    if leaf {
        return match r.below(100) {
            0..=39 => Ex::Lit { s: literal(r, c) },
            40..=59 => class(r, c),
            60..=67 => Ex::Dot {},
            68..=70 if !c.notation => Ex::Eof {},
            71..=75 => Ex::Err { s: message(r, c) },
            _ => {
                if r.chance(3) {
                    refr(*r.pick(&["missing", "mian", "Main", "undefined"]))
                } else {
                    refr(r.pick(&c.names))
                }
            }
        };
    }
    match r.below(100) {
        0..=29 => {
            let n = match () {
                _ if depth == 1 && r.chance(2) => r.range(10, 70),
                _ if c.notation => r.range(2, 4),
                _ => *r.pick(&[0usize, 1, 2, 2, 3, 3, 4]),
            };
            seq((0..n).map(|_| expr(r, c, depth - 1)).collect())
        }
        30..=56 => {
            let n = match () {
                _ if depth == 1 && r.chance(2) => r.range(10, 70),
                _ if c.notation => r.range(2, 4),
                _ => *r.pick(&[1usize, 2, 2, 3, 3, 5]),
            };
            alt((0..n).map(|_| expr(r, c, depth - 1)).collect())
        }
        57..=65 => not(expr(r, c, depth - 1)),
        _ => {
            let e = expr(r, c, depth - 1);
            let (min, max) = if c.notation {
                *r.pick(&[(0, None), (1, None), (0, Some(1))])
            } else {
                match r.below(12) {
                    0..=2 => (0, None),
                    3 | 4 => (1, None),
                    5 | 6 => (0, Some(1)),
                    7 => (r.below(4), None),
                    8 => {
                        let n = r.below(4);
                        (n, Some(n))
                    }
                    9 => {
                        let n = r.below(4);
                        (n, Some(n + r.below(4)))
                    }
                    10 => (r.below(4), Some(r.below(4))),
                    _ => (r.below(2), Some(r.range(5, 40))),
                }
            };
            rep(e, min, max)
        }
    }
}

// ---------------------------------------------------------------- left recursion

fn nullable(e: &Ex, nul: &BTreeSet<String>) -> bool {
    match e {
        Ex::Lit { s } => s.is_empty(),
        Ex::Cls { .. } | Ex::Dot {} | Ex::Err { .. } => false,
        Ex::Eof {} | Ex::Not { .. } => true,
        Ex::Seq { v } => v.iter().all(|x| nullable(x, nul)),
        Ex::Alt { v } => v.iter().any(|x| nullable(x, nul)),
        Ex::Rep { e, min, max } => *min == 0 || *max == Some(0) || nullable(e, nul),
        Ex::Ref { s } => nul.contains(s),
    }
}

/// Apply `f` to the references that can be reached without consuming anything.
fn left_refs(e: &mut Ex, nul: &BTreeSet<String>, f: &mut dyn FnMut(&mut Ex)) {
    match e {
        Ex::Ref { .. } => f(e),
        Ex::Seq { v } => {
            for x in v {
                let n = nullable(x, nul);
                left_refs(x, nul, f);
                if !n {
                    break;
                }
            }
        }
        Ex::Alt { v } => v.iter_mut().for_each(|x| left_refs(x, nul, f)),
        Ex::Not { e } | Ex::Rep { e, .. } => left_refs(e, nul, f),
        _ => {}
    }
}

/// Replace references until no rule reaches itself without consuming (such rule sets have no
/// meaning in PEG). Works on every definition of a repeated name.
pub fn unloop(g: &mut Gram, r: &mut Rng, c: &Ctx) {
    unloop_all(std::slice::from_mut(g), r, c)
}

/// The same for rule sets that are going to be combined in any way.
pub fn unloop_all(gs: &mut [Gram], r: &mut Rng, c: &Ctx) {
    loop {
        let mut nul = BTreeSet::new();
        loop {
            let n0 = nul.len();
            for g in gs.iter() {
                for (n, e) in &g.rules {
                    if nullable(e, &nul) {
                        nul.insert(n.clone());
                    }
                }
            }
            if nul.len() == n0 {
                break;
            }
        }
        let mut edges: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for g in gs.iter_mut() {
            for (n, e) in &mut g.rules {
                let set = edges.entry(n.clone()).or_default();
                left_refs(e, &nul, &mut |x| {
                    if let Ex::Ref { s } = x {
                        set.insert(s.clone());
                    }
                });
            }
        }
        let reach = |from: &str, to: &str| {
            let mut seen = BTreeSet::new();
            let mut todo = vec![from.to_string()];
            while let Some(x) = todo.pop() {
                if x == to {
                    return true;
                }
                if seen.insert(x.clone()) {
                    if let Some(s) = edges.get(&x) {
                        todo.extend(s.iter().cloned());
                    }
                }
            }
            false
        };
        let mut changed = false;
        'out: for g in gs.iter_mut() {
            for (n, e) in &mut g.rules {
                let n = n.clone();
                left_refs(e, &nul, &mut |x| {
                    if let Ex::Ref { s } = x {
                        if !changed && reach(s, &n) {
                            *x = Ex::Lit { s: r.pick(&c.alpha).to_string() };
                            changed = true;
                        }
                    }
                });
                if changed {
                    break 'out;
                }
            }
        }
        if !changed {
            return;
        }
    }
}

pub fn gram(r: &mut Rng, c: &Ctx) -> Gram {
    let mut g = Gram::default();
    for n in &c.names {
        let d = if n == "main" { r.range(1, 4) } else { r.range(0, 3) };
        g.rules.push((n.clone(), expr(r, c, d)));
    }
    if r.chance(3) {
        g.rules.remove(0); // no main
    }
    if g.rules.len() > 1 && r.chance(8) {
        let k = r.below(g.rules.len());
        let n = g.rules[k].0.clone();
        g.rules.push((n, expr(r, c, 2)));
    }
    if r.chance(8) {
        echo(r, &mut g, c);
    }
    unloop(&mut g, r, c);
    g
}

fn each(e: &mut Ex, f: &mut dyn FnMut(&mut Ex)) {
    match e {
        Ex::Seq { v } | Ex::Alt { v } => v.iter_mut().for_each(|x| each(x, f)),
        Ex::Not { e } | Ex::Rep { e, .. } => each(e, f),
        _ => {}
    }
    f(e)
}

/// The spelling of a literal in double quotes.
fn spelled(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\\' => o.push_str("\\\\"),
            '"' => o.push_str("\\\""),
            c => o.push(c),
        }
    }
    o
}

/// The same characters in several roles: the value of a literal, its spelling with escapes, the
/// characters of a class, a message, the name of a rule.
fn echo(r: &mut Rng, g: &mut Gram, c: &Ctx) {
    let mut said: Vec<String> = g.rules.iter().map(|(n, _)| n.clone()).collect();
    for (_, e) in g.rules.iter_mut() {
        each(e, &mut |x| match x {
            Ex::Lit { s } | Ex::Err { s } => said.push(s.clone()),
            Ex::Cls { chars, .. } => said.push(chars.clone()),
            _ => {}
        });
    }
    let mut w = word(r, &c.alpha, 3);
    w.push(*r.pick(&['\n', '\t', '"', '\\', '\r', 'n']));
    said.push(w);
    let k = r.range(1, 3);
    let mut words: Vec<String> = vec![];
    for _ in 0..k {
        let s = r.pick(&said).clone();
        words.push(spelled(&s));
        words.push(s);
    }
    let often = *r.pick(&[30, 60, 90]);
    for (_, e) in g.rules.iter_mut() {
        each(e, &mut |x| {
            if !r.chance(often) {
                return;
            }
            match x {
                // not empty, where it was not
                Ex::Lit { s } => {
                    let w = r.pick(&words).clone();
                    if s.is_empty() || !w.is_empty() {
                        *s = w;
                    }
                }
                Ex::Err { s } => *s = r.pick(&words).clone(),
                Ex::Cls { chars, ranges } => {
                    let w = r.pick(&words).clone();
                    if !c.notation || !w.is_empty() && !w.contains(']') && !w.chars().skip(1).any(|c| c == '-') {
                        *chars = w;
                        if c.notation {
                            ranges.retain(|(a, _)| *a != '-');
                        }
                    }
                }
                _ => {}
            }
        });
    }
}

/// Rule sets like those people write.
pub fn real_grammars() -> Vec<&'static str> {
    vec![
        "main = _ expr _\n\nexpr = term (_ ('+' / '-') _ term)*\n\nterm = factor (_ ('*' / '/') _ factor)*\n\nfactor = num / '(' _ expr _ (')' / error(\"unbalanced parenthesis: missing ')'\"))\n\nnum = [0-9]+ ('.' [0-9]+)?\n\n_ = (' ' / \"\\n\")*\n\n",
        "main = letter letter_or_num+\n\nletter = [a-zA-Z]\n\nletter_or_num = letter / number\n\nnumber = [0-9]\n\n",
        "main = '(' main ( ')' / error(\"unbalanced parenthesys\") )\n / 'hello'\n\n",
        "main = value\n\nvalue = _ (object / array / string / number / 'true' / 'false' / 'null') _\n\nobject = '{' _ (pair (',' pair)*)? '}'\n\npair = _ string _ (':' / error('colon')) value\n\narray = '[' (value (',' value)* / _) (']' / error('unclosed array'))\n\nstring = '\"' (!'\"' .)* '\"'\n\nnumber = '-'? [0-9]+ ('.' [0-9]+)?\n\n_ = (' ' / \"\\n\" / \"\\t\")*\n\n",
        "main = line (nl line)*\n\nline = cell (',' cell)*\n\ncell = quoted / plain\n\nquoted = '\"' ('\"\"' / !'\"' .)* '\"'\n\nplain = (![,\"] !nl .)*\n\nnl = \"\\r\\n\" / \"\\n\" / \"\\r\"\n\n",
        "main = stmt+\n\nstmt = _ id _ '=' _ expr _ ';' _ / block\n\nblock = _ '{' _ stmt* ('}' / error(\"missing }\")) _\n\nexpr = id / num / '(' _ expr _ ')'\n\nid = [a-z] ([a-z0-9] / '_')*\n\nnum = [0-9]+\n\n_ = (' ' / \"\\n\" / comment)*\n\ncomment = '//' (!\"\\n\" .)* \"\\n\"\n\n",
        "main = 'a' b c !.\n\nb = 'b'* c?\n\nc = 'c' / \"\\0x43\"\n\n",
        "main = tag*\n\ntag = '<' name '>' tag* '</' name ( '>' / error(\"tag not closed\") )\n / text\n\nname = [a-z]+\n\ntext = (!'<' .)+\n\n",
    ]
}

pub fn real(r: &mut Rng, notation: &Map) -> Gram {
    let t = real_grammars();
    let k = r.below(t.len() + 1);
    if k == t.len() {
        return Gram { rules: notation.clone().into_iter().collect() };
    }
    match model::compile(notation, t[k], u64::MAX).0 {
        model::COut::Ok(m) => Gram { rules: m.into_iter().collect() },
        model::COut::Err(e) => crate::harness_error(&format!("a built-in grammar does not compile: {} {}", t[k], e.render())),
        _ => crate::harness_error("a built-in grammar takes too long"),
    }
}

// ---------------------------------------------------------------- texts

pub fn derive(r: &mut Rng, m: &Map, e: &Ex, depth: usize, out: &mut String, max: usize) {
    if out.len() > max {
        return;
    }
    match e {
        Ex::Lit { s } => out.push_str(s),
        Ex::Cls { chars, ranges } => {
            let cs: Vec<char> = chars.chars().collect();
            let k = cs.len() + ranges.len();
            if k == 0 {
                return;
            }
            let i = r.below(k);
            if i < cs.len() {
                out.push(cs[i]);
            } else {
                let (a, b) = ranges[i - cs.len()];
                if a <= b {
                    let x = match r.below(5) {
                        0 => a as u32,
                        1 => b as u32,
                        _ => (a as u32) + r.below((b as u32 - a as u32) as usize + 1) as u32,
                    };
                    out.push(char::from_u32(x).unwrap_or(a));
                } else {
                    out.push(a);
                }
            }
        }
        Ex::Dot {} => out.push(any_char(r)),
        Ex::Eof {} | Ex::Err { .. } | Ex::Not { .. } => {}
        Ex::Seq { v } => v.iter().for_each(|x| derive(r, m, x, depth, out, max)),
        Ex::Alt { v } => {
            if v.is_empty() {
                return;
            }
            let mut k = r.below(v.len());
            if depth == 0 {
                k = (0..v.len()).find(|&i| !has_ref(&v[i])).unwrap_or(k);
            }
            derive(r, m, &v[k], depth, out, max)
        }
        Ex::Rep { e, min, max: mx } => {
            let extra = if depth == 0 {
                0
            } else if r.chance(5) {
                r.below(30)
            } else {
                r.below(4)
            };
            let mut n = (*min).min(400) + extra;
            if let Some(x) = mx {
                n = n.min(*x + r.chance(10) as usize);
            }
            if r.chance(4) && n > 0 {
                n -= 1;
            }
            for _ in 0..n {
                derive(r, m, e, depth, out, max);
            }
        }
        Ex::Ref { s } => {
            if depth > 0 {
                if let Some(e) = m.get(s) {
                    derive(r, m, e, depth - 1, out, max);
                }
            }
        }
    }
}

fn has_ref(e: &Ex) -> bool {
    match e {
        Ex::Ref { .. } => true,
        Ex::Seq { v } | Ex::Alt { v } => v.iter().any(has_ref),
        Ex::Not { e } | Ex::Rep { e, .. } => has_ref(e),
        _ => false,
    }
}

pub fn mutate(r: &mut Rng, s: &str, alpha: &[char]) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..*r.pick(&[1usize, 1, 1, 2, 3]) {
        let n = v.len();
        let at = r.below(n + 1);
        match r.below(10) {
            0 if n > 0 => {
                v.remove(at.min(n - 1));
            }
            1 => v.insert(at, *r.pick(alpha)),
            2 if n > 0 => v[at.min(n - 1)] = *r.pick(alpha),
            3 => v.truncate(at),
            4 => v.push(*r.pick(alpha)),
            5 if n > 0 => {
                let a = r.below(n);
                let b = (a + r.range(1, 5)).min(n);
                let part: Vec<char> = v[a..b].to_vec();
                for (i, c) in part.into_iter().enumerate() {
                    v.insert(at + i, c);
                }
            }
            6 => v.insert(at, any_char(r)),
            7 => v.insert(at, '\n'),
            8 if n > 1 => {
                let a = r.below(n - 1);
                v.swap(a, a + 1);
            }
            9 if n > 0 => {
                let a = at.min(n - 1);
                v[a] = near(r, v[a]);
                if r.chance(20) {
                    for i in 0..n {
                        v[i] = near(r, v[i]);
                    }
                }
            }
            _ => {}
        }
    }
    v.into_iter().collect()
}

/// Something in the text that is a literal of the rules becomes nearly that literal.
pub fn miss(r: &mut Rng, s: &str, m: &Map, alpha: &[char]) -> String {
    fn lits<'a>(e: &'a Ex, o: &mut Vec<&'a str>) {
        match e {
            Ex::Lit { s } if s.len() > 1 => o.push(s),
            Ex::Not { e } | Ex::Rep { e, .. } => lits(e, o),
            Ex::Seq { v } | Ex::Alt { v } => v.iter().for_each(|x| lits(x, o)),
            _ => {}
        }
    }
    let mut all = vec![];
    m.values().for_each(|e| lits(e, &mut all));
    all.retain(|l| s.contains(*l));
    all.sort_by_key(|l| l.len());
    if all.is_empty() {
        return mutate(r, s, alpha);
    }
    let l = if r.chance(50) { all[all.len() - 1] } else { *r.pick(&all) };
    let found: Vec<usize> = s.match_indices(l).map(|x| x.0).collect();
    let at = *r.pick(&found);
    let mut v: Vec<char> = l.chars().collect();
    let k = if r.chance(60) { v.len() - 1 } else { r.below(v.len()) };
    v[k] = if r.chance(50) { *r.pick(alpha) } else { near(r, v[k]) };
    let v: String = v.into_iter().collect();
    format!("{}{}{}", &s[..at], v, &s[at + l.len()..])
}

/// The same expression with one thing changed: a bound, a border of a class, an element
/// left out, doubled, or in another place.
fn perturb(r: &mut Rng, e: &mut Ex, alpha: &[char]) {
    match e {
        Ex::Lit { s } => {
            let mut v: Vec<char> = s.chars().collect();
            match r.below(4) {
                0 if !v.is_empty() => {
                    let k = r.below(v.len());
                    v.remove(k);
                }
                1 => v.extend(v.clone()),
                2 if !v.is_empty() => {
                    let k = r.below(v.len());
                    v[k] = near(r, v[k]);
                }
                _ => {
                    let k = r.below(v.len() + 1);
                    v.insert(k, *r.pick(alpha));
                }
            }
            *s = v.into_iter().collect();
        }
        Ex::Cls { chars, ranges } => {
            // what is next to its borders
            let mut all: Vec<char> = chars.chars().collect();
            for (a, b) in ranges.iter() {
                all.push(*a);
                all.push(*b);
            }
            let c = if all.is_empty() { *r.pick(alpha) } else { *r.pick(&all) };
            let d = r.range(1, 3) as u32;
            let x = [c as u32 + d, (c as u32).wrapping_sub(d), near(r, c) as u32][r.below(3)];
            *e = Ex::Cls { chars: char::from_u32(x).unwrap_or(c).to_string(), ranges: vec![] };
        }
        Ex::Rep { e: _, min, max } => match r.below(5) {
            0 => {
                *min = min.saturating_sub(1);
                *max = Some(*min);
            }
            1 => *max = Some(0),
            2 => {
                *min = max.map_or(*min, |m| m + 1);
                *max = Some(*min);
            }
            3 => {
                *min += r.range(1, 3);
                *max = max.map(|m| m.max(*min));
            }
            _ => {
                if let Ex::Rep { e, .. } = e {
                    perturb(r, e, alpha)
                }
            }
        },
        Ex::Not { e: x } => {
            if r.chance(50) {
                *e = (**x).clone();
            } else {
                perturb(r, x, alpha);
            }
        }
        Ex::Seq { v } | Ex::Alt { v } if !v.is_empty() => {
            let k = r.below(v.len());
            match r.below(6) {
                0 if v.len() > 1 => {
                    v.remove(k);
                }
                1 => v.insert(k, v[k].clone()),
                2 if k > 0 => v.swap(k - 1, k),
                3 => v.truncate(k),
                _ => perturb(r, &mut v[k], alpha),
            }
        }
        _ => {
            let c = e.clone();
            *e = match r.below(4) {
                0 => Ex::Seq { v: vec![] },
                1 => Ex::Seq { v: vec![c.clone(), c] },
                2 => lit(&r.pick(alpha).to_string()),
                _ => Ex::Rep { e: Box::new(c), min: 0, max: Some(2) },
            };
        }
    }
}

/// A part of the text that a rule matched is replaced by something that the rule matches as
/// well, or that it would match if it were a little different.
pub fn graft(r: &mut Rng, s: &str, m: &Map, alpha: &[char], fuel: u64) -> String {
    fn parts<'a>(t: &'a Tn, at: &mut usize, o: &mut Vec<(&'a str, usize, usize)>) {
        match t {
            Tn::Val { s } => *at += s.len(),
            Tn::Rule { s, v } => {
                let a = *at;
                v.iter().for_each(|x| parts(x, at, o));
                o.push((s, a, *at));
            }
            Tn::Eof {} => {}
        }
    }
    let model::POut::Ok(t) = model::parse(m, s, false, fuel).0 else {
        return mutate(r, s, alpha);
    };
    let (mut at, mut all) = (0, vec![]);
    parts(&t, &mut at, &mut all);
    if at != s.len() || all.is_empty() {
        return mutate(r, s, alpha);
    }
    // each rule as often as any other
    let mut names: Vec<&str> = all.iter().map(|x| x.0).collect();
    names.sort();
    names.dedup();
    for _ in 0..6 {
        let name = *r.pick(&names);
        let of: Vec<_> = all.iter().filter(|x| x.0 == name).collect();
        let (_, a, b) = **r.pick(&of);
        let Some(e) = m.get(name) else { continue };
        let mut e = e.clone();
        if r.chance(85) {
            perturb(r, &mut e, alpha);
        }
        let mut o = String::new();
        derive(r, m, &e, 4, &mut o, 60);
        if o != s[a..b] {
            return format!("{}{}{}", &s[..a], o, &s[b..]);
        }
    }
    mutate(r, s, alpha)
}

/// A character that code may take for `c`: equal in some bits, in another case, next to it.
pub fn near(r: &mut Rng, c: char) -> char {
    let x = c as u32;
    let y = match r.below(12) {
        0 => x + 1,
        1 => x.wrapping_sub(1),
        2 => x ^ 0x20,
        3 => x + 0x100,
        4 => (x & 0xff) + 0x100 * (1 + r.below(0x10ff) as u32),
        5 => (x & 0x7f) + 0x80 * (1 + r.below(0x200) as u32),
        6 => x + 0x10000 * (1 + r.below(16) as u32),
        7 => return c.to_uppercase().next().unwrap_or(c),
        8 => return c.to_lowercase().next().unwrap_or(c),
        9 => x & 0xff,
        10 if (0x21..0x7f).contains(&x) => x - 0x21 + 0xff01,
        10 => x & 0xffff,
        _ => x ^ (1 << r.below(20)),
    };
    char::from_u32(y).unwrap_or(c)
}

/// A text for these rules whose evaluation stays within `fuel` steps.
pub fn text(r: &mut Rng, m: &Map, alpha: &[char], fuel: u64) -> String {
    let mut t = String::new();
    match r.below(20) {
        0 => t = word(r, alpha, 12),
        1 => {}
        _ => {
            let max = *r.pick(&[20usize, 60, 60, 200]);
            if let Some(e) = m.get("main") {
                let d = r.range(1, 6);
                derive(r, m, e, d, &mut t, max);
            }
            if r.chance(50) {
                t = if r.chance(25) { graft(r, &t, m, alpha, fuel) } else { mutate(r, &t, alpha) };
            }
            if r.chance(5) {
                // a long rest of the line, or a long line
                let n = *r.pick(&[20usize, 63, 64, 65, 130, 255, 256, 300, 600]) + r.below(3);
                let one = any_char(r);
                let kind = r.below(3);
                let long: String = (0..n)
                    .map(|i| match kind {
                        0 => one,
                        1 => alpha[i % alpha.len()],
                        _ => any_char(r),
                    })
                    .collect();
                if r.chance(70) {
                    t.push_str(&long);
                } else {
                    t = long + &t;
                }
            }
        }
    }
    bounded(t, m, fuel)
}

pub fn bounded(mut t: String, m: &Map, fuel: u64) -> String {
    loop {
        if !matches!(model::parse(m, &t, false, fuel).0, model::POut::Fuel) {
            return t;
        }
        if t.is_empty() {
            return t;
        }
        let n = t.chars().count() / 2;
        t = t.chars().take(n).collect();
    }
}

/// Rule sets for which even the empty text is too much work are of no use.
pub fn too_heavy(m: &Map, fuel: u64) -> bool {
    matches!(model::parse(m, "", false, fuel).0, model::POut::Fuel)
}

pub fn usable_gram(r: &mut Rng, fuel: u64, notation: &Map) -> (Gram, Vec<char>) {
    loop {
        let c = ctx(r, false);
        let g = if r.chance(12) { real(r, notation) } else { gram(r, &c) };
        if !too_heavy(&g.map(), fuel) {
            let mut a = c.alpha.clone();
            if r.chance(20) {
                a.extend(['(', ')', '1', '+', '{', '}', '<', '>', '"', ',']);
            }
            return (g, a);
        }
    }
}

// ---------------------------------------------------------------- notation texts

pub enum Item {
    Rule(String, Ex),
    Module(String, Vec<Item>),
}

pub fn items(r: &mut Rng, g: &Gram) -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    for (n, e) in &g.rules {
        v.push(Item::Rule(n.clone(), e.clone()));
    }
    for _ in 0..r.below(3) {
        if v.len() > 1 && r.chance(60) {
            let a = r.below(v.len());
            let b = r.range(a + 1, v.len());
            let part: Vec<Item> = v.drain(a..b).collect();
            let name = r.pick(&["m", "mod_a", "_m", "M1", "main", "x'"]).to_string();
            v.insert(a, Item::Module(name, part));
        }
    }
    v
}

/// What the items denote: a rule replaces, a module adds what is not there yet.
pub fn denote(v: &[Item]) -> Map {
    let mut m = Map::new();
    for i in v {
        match i {
            Item::Rule(n, e) => {
                m.insert(n.clone(), e.clone());
            }
            Item::Module(_, v) => {
                for (n, e) in denote(v) {
                    if !m.contains_key(&n) {
                        m.insert(n, e);
                    }
                }
            }
        }
    }
    m
}

fn comment(r: &mut Rng, line: bool) -> String {
    let body = r.pick(&["", " c ", "a = 'b'", " * ", " 'x", "é", " / ", "**"]).to_string();
    if line {
        format!("//{}{}", body, r.pick(&["\n", "\r\n", "\n", "\r"]))
    } else {
        format!("/*{} */", body)
    }
}

/// optional space
fn ws(r: &mut Rng, o: &mut String) {
    match r.below(12) {
        0..=5 => o.push(' '),
        6 => {}
        7 => o.push_str("   "),
        8 => o.push_str(r.pick(&["\n", "\r\n", "\n  ", "\r"])),
        9 => {
            o.push(' ');
            o.push_str(&comment(r, false));
            o.push(' ');
        }
        10 => {
            o.push(' ');
            o.push_str(&comment(r, true));
        }
        _ => o.push(' '),
    }
}

/// space of at least one character
fn ws1(r: &mut Rng, o: &mut String) {
    o.push_str(r.pick(&[" ", " ", " ", "\n", "\r\n"]));
    if r.chance(30) {
        ws(r, o);
    }
}

pub fn print_lit(r: &mut Rng, s: &str, o: &mut String) {
    if !s.contains('\'') && r.chance(50) {
        o.push('\'');
        o.push_str(s);
        o.push('\'');
        return;
    }
    o.push('"');
    let cs: Vec<char> = s.chars().collect();
    let mut lone = false;
    for (i, &c) in cs.iter().enumerate() {
        // not after a backslash that stands for itself
        let hex = !lone && (c as u32) < 256 && r.chance(15);
        lone = false;
        if hex {
            o.push_str(&format!("\\0x{:02X}", c as u32));
            continue;
        }
        match c {
            '"' => o.push_str("\\\""),
            '\\' => {
                // a backslash that starts no escape stands for itself
                let plain = matches!(cs.get(i + 1), Some(n) if n.is_alphabetic() && !"rnt".contains(*n));
                lone = plain && r.chance(50);
                o.push_str(if lone { "\\" } else { "\\\\" });
            }
            '\n' => o.push_str(if r.chance(70) { "\\n" } else { "\n" }),
            '\r' => o.push_str(if r.chance(70) { "\\r" } else { "\r" }),
            '\t' => o.push_str(if r.chance(70) { "\\t" } else { "\t" }),
            c => o.push(c),
        }
    }
    o.push('"');
}

fn print_atom(r: &mut Rng, e: &Ex, o: &mut String) {
    match e {
        Ex::Lit { s } => print_lit(r, s, o),
        Ex::Ref { s } => o.push_str(s),
        Ex::Dot {} => o.push('.'),
        Ex::Cls { chars, ranges } => {
            o.push('[');
            o.push_str(chars);
            for (a, b) in ranges {
                o.push(*a);
                o.push('-');
                o.push(*b);
            }
            o.push(']');
        }
        _ => {
            o.push('(');
            ws(r, o);
            print_alt(r, e, o);
            ws(r, o);
            o.push(')');
        }
    }
}

fn print_elem(r: &mut Rng, e: &Ex, o: &mut String) {
    match e {
        Ex::Rep { e, min, max } => {
            print_atom(r, e, o);
            o.push(match (min, max) {
                (0, None) => '*',
                (1, None) => '+',
                _ => '?',
            });
        }
        Ex::Not { e } => {
            o.push('!');
            print_atom(r, e, o);
        }
        e => {
            if r.chance(6) && !matches!(e, Ex::Seq { .. } | Ex::Alt { .. } | Ex::Err { .. }) {
                o.push('(');
                ws(r, o);
                print_atom(r, e, o);
                ws(r, o);
                o.push(')');
            } else {
                print_atom(r, e, o)
            }
        }
    }
}

fn print_err(r: &mut Rng, s: &str, o: &mut String) {
    o.push_str("error");
    ws(r, o);
    o.push('(');
    ws(r, o);
    print_lit(r, s, o);
    ws(r, o);
    o.push(')');
}

fn print_seq(r: &mut Rng, e: &Ex, o: &mut String) {
    match e {
        Ex::Seq { v } => {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    ws1(r, o);
                }
                match x {
                    Ex::Err { s } if i > 0 => print_err(r, s, o),
                    x => print_elem(r, x, o),
                }
            }
        }
        Ex::Err { s } => print_err(r, s, o),
        e => print_elem(r, e, o),
    }
}

fn print_alt(r: &mut Rng, e: &Ex, o: &mut String) {
    match e {
        Ex::Alt { v } => {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    ws(r, o);
                    o.push('/');
                    ws(r, o);
                }
                if matches!(x, Ex::Alt { .. }) {
                    print_atom(r, x, o)
                } else {
                    print_seq(r, x, o)
                }
            }
        }
        e => print_seq(r, e, o),
    }
}

fn eol(r: &mut Rng, o: &mut String) {
    if r.chance(10) {
        o.push_str(&format!(" {} ", comment(r, false)));
    }
    if r.chance(8) {
        // a line comment takes its own end of line
        o.push(' ');
        o.push_str(&comment(r, true));
    }
    let e = *r.pick(&["\n", "\n", "\n\n", "\r\n", "\r", " \n"]);
    // which must not become part of that end of line
    o.push_str(if o.ends_with('\r') { "\r" } else { e });
}

pub fn print_items(r: &mut Rng, v: &[Item], o: &mut String) {
    for i in v {
        if r.chance(30) {
            ws(r, o);
        }
        match i {
            Item::Rule(n, e) => {
                o.push_str(n);
                ws(r, o);
                o.push('=');
                ws(r, o);
                print_alt(r, e, o);
                eol(r, o);
            }
            Item::Module(n, v) => {
                o.push_str(n);
                ws(r, o);
                o.push('{');
                ws(r, o);
                print_items(r, v, o);
                ws(r, o);
                o.push('}');
                eol(r, o);
            }
        }
    }
}

pub fn notation_text(r: &mut Rng) -> (String, Map) {
    let c = ctx(r, true);
    let mut g = gram(r, &c);
    if r.chance(25) {
        // definitions repeated inside and outside of modules
        let k = r.below(g.rules.len().max(1));
        if k < g.rules.len() {
            let n = g.rules[k].0.clone();
            g.rules.push((n, expr(r, &c, 1)));
        }
    }
    if g.rules.is_empty() {
        g.rules.push(("main".into(), lit("x")));
    }
    if r.chance(12) {
        echo(r, &mut g, &c);
    }
    let it = items(r, &g);
    let mut o = String::new();
    print_items(r, &it, &mut o);
    (o, denote(&it))
}

pub const NOTATION_ALPHA: &str = "ab =/()[]{}'\"\\.!*+?\n\r-_0xF#é,error";

// ---------------------------------------------------------------- trees

pub fn tree(r: &mut Rng, depth: usize, names: &[&str], vals: &[&str]) -> Tn {
    let n = match r.below(8) {
        0 => 0,
        1..=5 => r.range(1, 4),
        _ => r.range(3, 9),
    };
    let v = (0..n)
        .map(|_| {
            if depth > 0 && r.chance(45) {
                tree(r, depth - 1, names, vals)
            } else if r.chance(4) {
                Tn::Eof {}
            } else {
                Tn::Val { s: r.pick(vals).to_string() }
            }
        })
        .collect();
    Tn::Rule { s: r.pick(names).to_string(), v }
}

// ---------------------------------------------------------------- environments

pub fn environment(r: &mut Rng, p: &mut Policy) {
    p.hash_seed = r.u64();
    p.clock0 = r.logu(1 << 62);
    p.wall0 = if r.chance(50) { 0 } else { r.u64() as i64 >> r.range(4, 40) };
    p.tick = *r.pick(&[0u64, 1, 7, 100, 10_000, 1_000_000, 50_000_000]);
    p.pid = r.range(2, 4_000_000) as u32;
    p.cpus = *r.pick(&[1u32, 1, 2, 3, 4, 4, 5, 8, 16, 24]);
    p.env = if r.chance(30) { r.u64() } else { 0 };
    p.reuse = *r.pick(&[0u8, 1, 1, 1, 2]);
    p.fill = *r.pick(&[0u8, 0xff, 0xA5, 0x20, 0x61, 1]);
    p.gap = *r.pick(&[0usize, 0, 16, 48, 4096, 65536]);
    p.base_off = *r.pick(&[0usize, 0, 16, 4096, 1 << 20, (1 << 32) - 64, 1 << 33]);
    p.inplace = r.chance(50);
    p.odd = if r.chance(40) { r.u64() } else { 0 };
}

pub fn schedule(r: &mut Rng, p: &mut Policy) {
    match r.below(12) {
        0 => {}
        1 => p.mean = 40,
        2 => p.mean = 300,
        3 => p.mean = 3_000,
        4 => p.mean = 30_000,
        5 | 6 => {
            p.mean = 1 << r.range(6, 20);
            p.logu = true;
        }
        7..=9 => {
            p.pconf = *r.pick(&[3u8, 20, 60]);
            if r.chance(50) {
                p.mean = 5_000;
                p.logu = true;
            }
        }
        _ => {}
    }
    p.pbound = *r.pick(&[0u8, 20, 60, 100]);
    p.mix_forced = r.chance(80);
    p.spurious = *r.pick(&[0u8, 0, 20]);
    if r.chance(10) {
        p.pstall = *r.pick(&[2u8, 30]);
        p.max_stalls = 2;
    }
}

pub fn some_env(r: &mut Rng, p: &mut Policy) {
    if r.chance(70) {
        environment(r, p);
    }
    schedule(r, p);
}

// ---------------------------------------------------------------- sizes beyond the usual

/// One dimension of the input taken far beyond the usual size.
pub fn big(r: &mut Rng, which: usize) -> (Gram, Vec<String>) {
    let n = match r.below(20) {
        0..=10 => r.range(250, 1100),
        11..=15 => r.range(4_000, 33_000),
        // beyond 16 bits
        _ => r.range(65_500, 80_000),
    };
    let mut g = Gram::default();
    let mut texts: Vec<String> = vec![];
    let add = |g: &mut Gram, n: &str, e: Ex| g.rules.push((n.to_string(), e));
    match which {
        0 => {
            // long flat text; each failing alternative costs the library the length of the line
            let n = n.min(2500);
            add(&mut g, "main", rep(alt(vec![lit("a"), refr("b")]), 0, None));
            add(&mut g, "b", cls("b", &[('c', 'd')]));
            let t: String = (0..n).map(|_| *r.pick(&['a', 'b', 'c', 'd'])).collect();
            texts.push(format!("{}x", t));
            texts.push(t);
        }
        1 => {
            // many lines, failing near the end
            add(&mut g, "main", seq(vec![rep(refr("line"), 0, None), not(Ex::Dot {})]));
            add(
                &mut g,
                "line",
                seq(vec![rep(cls("", &[('a', 'z')]), 0, None), alt(vec![lit("\n"), lit("\r\n")])]),
            );
            let t: String = (0..n).map(|i| if i % 7 == 0 { "ab\n" } else { "\n" }).collect();
            texts.push(format!("{}zz1y\nq", t));
            texts.push(t);
        }
        2 => {
            // a long line
            add(&mut g, "main", seq(vec![rep(cls("é", &[('a', 'z')]), 1, None), lit("!")]));
            let t: String = (0..n).map(|i| if i % 5 == 0 { 'é' } else { 'k' }).collect();
            texts.push(format!("{}?{}\nnext", t, t));
            texts.push(format!("{}!", t));
        }
        3 => {
            // deep nesting
            let d = r.range(100, 700);
            add(
                &mut g,
                "main",
                alt(vec![
                    seq(vec![lit("("), refr("main"), alt(vec![lit(")"), Ex::Err { s: "unbalanced".into() }])]),
                    lit("x"),
                ]),
            );
            texts.push(format!("{}x{}", "(".repeat(d), ")".repeat(d)));
            texts.push(format!("{}x{}", "(".repeat(d), ")".repeat(d - 1)));
            texts.push(format!("{}y{}", "(".repeat(d), ")".repeat(d)));
        }
        4 => {
            // many rules
            let k = r.range(200, 700);
            let mut v = vec![];
            for i in 0..k {
                let nm = format!("r{}", i);
                add(&mut g, &nm, seq(vec![lit(&format!("{};", i)), rep(lit("a"), 0, Some(1))]));
                v.push(refr(&nm));
            }
            add(&mut g, "main", rep(alt(v), 1, None));
            for _ in 0..2 {
                let t: String = (0..4).map(|_| format!("{};a", r.below(k))).collect();
                texts.push(if r.chance(50) { t } else { format!("{}{};", t, k + 3) });
            }
        }
        5 => {
            // a long literal
            let l: String = (0..n.min(9000)).map(|i| if i % 11 == 3 { 'é' } else { 'l' }).collect();
            add(&mut g, "main", alt(vec![lit(&l), lit("z"), lit(&format!("{}z", l))]));
            texts.push(l.clone());
            let mut bad = l.clone();
            bad.pop();
            texts.push(format!("{}#", bad));
        }
        6 => {
            // high counts
            let m = r.range(250, 1300);
            add(&mut g, "main", seq(vec![rep(lit("a"), m, Some(m + 3)), rep(lit("b"), 0, None)]));
            for k in [m - 1, m, m + 3, m + 4] {
                texts.push(format!("{}b", "a".repeat(k)));
            }
        }
        7 => {
            // many alternatives, many elements
            let k = r.range(250, 900);
            let mut alts: Vec<Ex> = (0..k).map(|i| lit(&format!("k{}.", i))).collect();
            r.shuffle(&mut alts);
            let els: Vec<Ex> = (0..k).map(|i| if i % 3 == 0 { rep(lit("b"), 0, Some(1)) } else { lit("e") }).collect();
            add(&mut g, "main", alt(vec![seq(vec![lit("s"), seq(els)]), alt(alts)]));
            texts.push(format!("k{}.", r.below(k)));
            texts.push(format!("k{}.", k));
            texts.push(format!("s{}", (0..k).filter(|i| i % 3 != 0).map(|_| 'e').collect::<String>()));
        }
        8 => {
            // big classes
            let cs: String = (0..500u32).filter_map(|i| char::from_u32(0x400 + 2 * i)).collect();
            let rs: Vec<(char, char)> = (0..300u32)
                .filter_map(|i| Some((char::from_u32(0x4e00 + 10 * i)?, char::from_u32(0x4e00 + 10 * i + 4)?)))
                .collect();
            let m: Vec<char> = cs.chars().collect();
            add(&mut g, "main", rep(cls(&cs, &rs), 1, None));
            let good: String = (0..30).map(|i| if i % 2 == 0 { *r.pick(&m) } else { r.pick(&rs).1 }).collect();
            texts.push(format!("{}{}", good, '\u{4e05}'));
            texts.push(good);
        }
        9 => {
            // long and very long counts
            let (lo, hi) = *r.pick(&[(0, None), (n - 10, None), (n, Some(n)), (0, Some(n)), (n - 1, Some(n + 1))]);
            let e = match r.below(4) {
                0 => lit("a"),
                1 => cls("", &[('a', 'b')]),
                2 => Ex::Dot {},
                _ => lit("aa"),
            };
            let w = if e == lit("aa") { 2 } else { 1 };
            add(&mut g, "main", seq(vec![rep(e, lo, hi), lit("\n.")]));
            for k in [n - 1, n, n + 2] {
                texts.push(format!("{}\n.", "a".repeat(k * w)));
            }
            texts.push(format!("{}\n?", "a".repeat(n * w)));
        }
        _ => {
            // a chain of rules, long names
            let d = r.range(100, 400);
            let nm = |i: usize| {
                if i == 0 {
                    "main".to_string()
                } else {
                    format!("{}{}", "name_".repeat(20), i)
                }
            };
            for i in 0..d {
                add(&mut g, &nm(i), seq(vec![rep(lit("p"), 0, Some(1)), refr(&nm(i + 1))]));
            }
            add(&mut g, &nm(d), alt(vec![lit("end"), Ex::Err { s: "no end".into() }]));
            texts.push("ppend".into());
            texts.push("ppenx".into());
        }
    }
    (g, texts)
}
pub const BIGS: usize = 11;

/// Long literals that are alike, and texts of them and of nearly them.
pub fn likes(r: &mut Rng) -> (Gram, Vec<char>, Vec<String>) {
    let a: Vec<char> = r.pick(&["ab", "abc ", "é→x", "0123456789", "aA_", "\u{80}\u{ff}\u{100}"]).chars().collect();
    let n = *r.pick(&[4usize, 8, 9, 15, 16, 17, 31, 32, 33, 47, 64, 65, 130]) + r.below(8);
    let base: String = (0..n).map(|_| *r.pick(&a)).collect();
    let mut v = vec![base.clone()];
    for _ in 0..r.below(4) {
        let mut c: Vec<char> = base.chars().collect();
        match r.below(4) {
            0 => c.truncate(n - 1 - r.below(3)),
            1 => c.push(*r.pick(&a)),
            _ => {
                let at = if r.chance(50) { n - 1 - r.below(3) } else { r.below(n) };
                c[at] = *r.pick(&a);
            }
        }
        v.push(c.into_iter().collect());
    }
    let mut g = Gram::default();
    let mut alts: Vec<Ex> = v.iter().map(|s| lit(s)).collect();
    if r.chance(50) {
        alts = alts.into_iter().enumerate().map(|(i, e)| {
            let n = format!("r{}", i);
            g.rules.push((n.clone(), e));
            refr(&n)
        }).collect();
    }
    let (lo, hi) = *r.pick(&[(1, None), (0, None), (1, Some(3)), (2, Some(2))]);
    g.rules.push(("main".into(), rep(alt(alts), lo, hi)));
    let m = g.map();
    let texts = (0..4)
        .map(|_| {
            let t: String = (0..r.range(1, 3)).map(|_| r.pick(&v).clone()).collect();
            if r.chance(70) { miss(r, &t, &m, &a) } else { t }
        })
        .collect();
    (g, a, texts)
}

/// A choice of many alternatives that begin differently, mostly.
pub fn choices(r: &mut Rng) -> (Gram, Vec<char>, Vec<String>) {
    let n = *r.pick(&[3usize, 4, 5, 8, 9, 12, 16, 17, 24, 33, 40]);
    let from = *r.pick(&['a', 'A', '0', ' ', '\u{e0}', '\u{3b1}', '\u{1f600}']) as u32;
    let a: Vec<char> = (0..n as u32).filter_map(|i| char::from_u32(from + i)).collect();
    let tail = r.pick(&["", "x", "yz", "abc", "\n"]).to_string();
    let mut v: Vec<String> = a
        .iter()
        .map(|c| {
            let mut s = c.to_string();
            s.push_str(if r.chance(50) { &tail } else { "" });
            s
        })
        .collect();
    match r.below(4) {
        0 => v.reverse(),
        1 => {
            let k = v.len() / 2;
            v.rotate_left(k)
        }
        _ => {}
    }
    if r.chance(25) {
        // one that is hidden by another, or goes on where another ends
        let mut s = r.pick(&v).clone();
        s.push(*r.pick(&a));
        v.insert(r.below(v.len() + 1), s);
    }
    let mut g = Gram::default();
    let kind = r.below(5);
    let mut alts: Vec<Ex> = v
        .iter()
        .map(|s| match kind {
            0 if s.chars().count() == 1 => cls(s, &[]),
            1 if r.chance(30) => seq(vec![lit(s), rep(lit(&tail), 0, Some(1))]),
            _ => lit(s),
        })
        .collect();
    if r.chance(25) {
        alts = alts.into_iter().enumerate().map(|(i, e)| {
            let n = format!("k{}", i);
            g.rules.push((n.clone(), e));
            refr(&n)
        }).collect();
    }
    if r.chance(20) {
        alts.push(Ex::Err { s: "none of them".into() });
    }
    let one = if r.chance(30) {
        // one choice inside another
        let k = r.range(1, alts.len() - 1);
        let rest = alts.split_off(k);
        alts.push(alt(rest));
        alt(alts)
    } else {
        alt(alts)
    };
    let main = match r.below(4) {
        0 => one,
        1 => seq(vec![one.clone(), lit(","), one]),
        2 => rep(one, r.below(3), None),
        _ => {
            g.rules.push(("one".into(), one));
            rep(seq(vec![refr("one"), rep(lit(","), 0, Some(1))]), 0, None)
        }
    };
    g.rules.push(("main".into(), main));
    let m = g.map();
    let texts = (0..4)
        .map(|_| {
            let sep = *r.pick(&["", ","]);
            let k = *r.pick(&[1usize, 2, 3, 10, 25]);
            let t: Vec<String> = (0..k).map(|_| r.pick(&v).clone()).collect();
            let t = t.join(sep);
            if r.chance(40) { miss(r, &t, &m, &a) } else { t }
        })
        .collect();
    (g, a, texts)
}

/// Many rules, each of which is used.
fn many(r: &mut Rng) -> (Gram, Vec<char>, Vec<String>) {
    let k = *r.pick(&[6usize, 14, 17, 24, 33, 50]);
    let from = r.below(40);
    let mut g = Gram::default();
    let mut v = vec![];
    for i in from..from + k {
        let n = format!("{}{}", r.pick(&["n", "n", "n", "rule"]), i);
        g.rules.push((n.clone(), match r.below(4) {
            0 => seq(vec![lit(&i.to_string()), lit(";")]),
            1 => seq(vec![rep(cls("x", &[]), 0, Some(1)), lit(&format!("{};", i))]),
            _ => lit(&format!("{};", i)),
        }));
        v.push(refr(&n));
    }
    g.rules.push(("main".into(), rep(alt(v), r.below(2), None)));
    let texts = (0..4)
        .map(|_| (0..r.range(1, 6)).map(|_| format!("{};", from + r.below(k + 1))).collect())
        .collect();
    (g, "0123456789;x".chars().collect(), texts)
}

/// A rule set of one of the shapes that random ones do not have, with texts for it.
pub fn special(r: &mut Rng) -> (Gram, Vec<char>, Vec<String>) {
    match r.below(8) {
        0 | 1 => likes(r),
        2 | 3 => choices(r),
        4 => many(r),
        _ => nested(r),
    }
}

/// Some rule reaches itself without consuming anything, in one of the rule sets or (`together`)
/// in a combination of them.
pub fn left_recursive(gs: &[Gram], together: bool) -> bool {
    let c = Ctx { alpha: vec!['a'], names: vec![], notation: false };
    let mut r = Rng::new(1);
    let mut w = gs.to_vec();
    if together {
        unloop_all(&mut w, &mut r, &c);
    } else {
        w.iter_mut().for_each(|g| unloop(g, &mut r, &c));
    }
    w != gs
}

/// Rules that nest, with texts that nest deeply.
pub fn nested(r: &mut Rng) -> (Gram, Vec<char>, Vec<String>) {
    let (open, close) = *r.pick(&[("(", ")"), ("<é", ">"), ("[", "]"), ("a", ""), ("\n{", "}\n")]);
    let k = r.range(1, 4);
    let mut g = Gram::default();
    for i in 0..k {
        let next = if i + 1 < k { format!("n{}", i + 1) } else { "main".to_string() };
        let mut v = vec![lit(open), refr(&next)];
        if !close.is_empty() {
            v.push(match r.below(5) {
                0 => alt(vec![lit(close), Ex::Err { s: format!("missing {}", close) }]),
                _ => lit(close),
            });
        }
        let mut e = seq(v);
        if r.chance(20) {
            e = rep(e, 1, if r.chance(50) { Some(2) } else { None });
        }
        let mut alts = vec![e, lit("x")];
        if r.chance(20) {
            alts.insert(r.below(3), seq(vec![not(lit("y")), cls("xyz", &[])]));
        }
        if r.chance(15) {
            alts.push(Ex::Err { s: "nothing here".into() });
        }
        g.rules.push((if i == 0 { "main".into() } else { format!("n{}", i) }, alt(alts)));
    }
    let texts = (0..4)
        .map(|_| {
            let d = *r.pick(&[2usize, 7, 9, 15, 17, 18, 31, 33, 40, 63, 65, 66, 100, 130]);
            let c = match r.below(6) {
                0 => 0,
                1 => d - 1,
                2 => d + 1,
                3 => r.below(d),
                _ => d,
            };
            let x = *r.pick(&["x", "x", "x", "y", "", "q"]);
            let t = format!("{}{}{}", open.repeat(d), x, close.repeat(c));
            if r.chance(30) {
                mutate(r, &t, &['(', ')', 'x', 'a', '\n'])
            } else {
                t
            }
        })
        .collect();
    (g, vec!['(', ')', 'x', 'a', 'y'], texts)
}
