//! Executable reference model: PEG semantics, the grammar notation and the tree
//! transformations, written from the documentation, sharing no code with dynparser.

use crate::{ser_enum, ser_struct};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ex {
    Lit { s: String },
    Cls { chars: String, ranges: Vec<(char, char)> },
    Dot {},
    Eof {},
    Err { s: String },
    Seq { v: Vec<Ex> },
    Alt { v: Vec<Ex> },
    Not { e: Box<Ex> },
    Rep { e: Box<Ex>, min: usize, max: Option<usize> },
    Ref { s: String },
}
ser_enum!(Ex {
    Lit { s }, Cls { chars, ranges }, Dot {}, Eof {}, Err { s }, Seq { v }, Alt { v },
    Not { e }, Rep { e, min, max }, Ref { s }
});

/// Rules in definition order; a later rule replaces an earlier one of the same name.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Gram {
    pub rules: Vec<(String, Ex)>,
}
ser_struct!(Gram { rules });

pub type Map = BTreeMap<String, Ex>;

impl Gram {
    pub fn map(&self) -> Map {
        self.rules.iter().cloned().collect()
    }
}

pub fn render_ex(e: &Ex, o: &mut String) {
    use std::fmt::Write;
    match e {
        Ex::Lit { s } => write!(o, "{:?}", s).unwrap(),
        Ex::Cls { chars, ranges } => write!(o, "[{:?} {:?}]", chars, ranges).unwrap(),
        Ex::Dot {} => o.push('.'),
        Ex::Eof {} => o.push('$'),
        Ex::Err { s } => write!(o, "error({:?})", s).unwrap(),
        Ex::Seq { v } | Ex::Alt { v } => {
            o.push_str(if matches!(e, Ex::Seq { .. }) { "seq(" } else { "alt(" });
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(' ');
                }
                render_ex(x, o);
            }
            o.push(')');
        }
        Ex::Not { e } => {
            o.push('!');
            render_ex(e, o);
        }
        Ex::Rep { e, min, max } => {
            write!(o, "rep({},{:?} ", min, max).unwrap();
            render_ex(e, o);
            o.push(')');
        }
        Ex::Ref { s } => write!(o, "<{:?}>", s).unwrap(),
    }
}

pub fn render_map(m: &Map) -> String {
    let mut o = String::new();
    for (n, e) in m {
        o.push_str(&format!("{:?} = ", n));
        render_ex(e, &mut o);
        o.push('\n');
    }
    o
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tn {
    Val { s: String },
    Rule { s: String, v: Vec<Tn> },
    Eof {},
}
ser_enum!(Tn { Val { s }, Rule { s, v }, Eof {} });

pub fn render_tree(t: &Tn, o: &mut String) {
    use std::fmt::Write;
    match t {
        Tn::Val { s } => write!(o, "{:?}", s).unwrap(),
        Tn::Rule { s, v } => {
            write!(o, "({:?}", s).unwrap();
            for x in v {
                o.push(' ');
                render_tree(x, o);
            }
            o.push(')');
        }
        Tn::Eof {} => o.push_str("EOF"),
    }
}

// ------------------------------------------------------------------ PEG interpreter

#[derive(Clone, Debug)]
enum Descr<'g> {
    Lit(&'g str),
    Cls(&'g str, &'g [(char, char)]),
    Dot,
    Not,
    Eof,
    Missing(&'g str),
    Custom(&'g str),
    Full,
    EmptyAlt,
}

struct Walk {
    name: String,
    up: Option<Rc<Walk>>,
}

#[derive(Clone)]
struct MErr<'g> {
    n: usize,
    d: Descr<'g>,
    crit: bool,
    walk: Option<Rc<Walk>>,
}

#[derive(Clone)]
struct St<'g> {
    n: usize,
    pot: Option<Rc<MErr<'g>>>,
    walk: Option<Rc<Walk>>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PErr {
    pub n: usize,
    pub row: usize,
    pub col: usize,
    pub start_line: usize,
    pub descr: String,
    pub before: String,
    pub after: String,
    pub rules: Vec<String>,
    pub crit: bool,
}

impl PErr {
    pub fn render(&self) -> String {
        format!(
            "ERR at {}:{} n={} line={} {:?} before={:?} after={:?} rules={:?} {}",
            self.row,
            self.col,
            self.n,
            self.start_line,
            self.descr,
            self.before,
            self.after,
            self.rules,
            if self.crit { "critical" } else { "normal" }
        )
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum POut {
    Ok(Tn),
    Err(PErr),
    Fuel,
}

struct Interp<'g> {
    rules: HashMap<&'g str, &'g Ex>,
    text: &'g [char],
    fuel: Cell<u64>,
    depth: Cell<u32>,
    max_depth: Cell<u32>,
    dead: Cell<bool>,
    debug: bool,
}

pub const MAX_DEPTH: u32 = 6000;

impl<'g> Interp<'g> {
    fn err(&self, n: usize, st: &St<'g>, d: Descr<'g>, crit: bool) -> MErr<'g> {
        MErr { n, d, crit, walk: st.walk.clone() }
    }

    fn rule(&self, name: &'g str, st: St<'g>, out: &mut Vec<Tn>) -> Result<St<'g>, MErr<'g>> {
        let st = if self.debug {
            St {
                walk: Some(Rc::new(Walk { name: format!("r:{}", name), up: st.walk.clone() })),
                ..st
            }
        } else {
            st
        };
        match self.rules.get(name) {
            None => Err(self.err(st.n, &st, Descr::Missing(name), true)),
            Some(e) => {
                let mut v = vec![];
                let st = self.ev(e, st, &mut v)?;
                out.push(Tn::Rule { s: name.to_string(), v });
                Ok(st)
            }
        }
    }

    fn ev(&self, e: &'g Ex, st: St<'g>, out: &mut Vec<Tn>) -> Result<St<'g>, MErr<'g>> {
        if self.fuel.get() == 0 || self.depth.get() > MAX_DEPTH {
            self.dead.set(true);
            self.fuel.set(0);
            return Err(self.err(st.n, &st, Descr::Full, true));
        }
        self.fuel.set(self.fuel.get() - 1);
        self.depth.set(self.depth.get() + 1);
        if self.depth.get() > self.max_depth.get() {
            self.max_depth.set(self.depth.get());
        }
        let r = self.ev1(e, st, out);
        self.depth.set(self.depth.get() - 1);
        r
    }

    fn ev1(&self, e: &'g Ex, mut st: St<'g>, out: &mut Vec<Tn>) -> Result<St<'g>, MErr<'g>> {
        match e {
            Ex::Lit { s } => {
                for c in s.chars() {
                    match self.text.get(st.n) {
                        None => return Err(self.err(st.n, &st, Descr::Lit(s), false)),
                        Some(t) => {
                            st.n += 1;
                            if *t != c {
                                return Err(self.err(st.n, &st, Descr::Lit(s), false));
                            }
                        }
                    }
                }
                out.push(Tn::Val { s: s.clone() });
                Ok(st)
            }
            Ex::Cls { chars, ranges } => match self.text.get(st.n) {
                None => Err(self.err(st.n, &st, Descr::Cls(chars, ranges), false)),
                Some(&c) => {
                    st.n += 1;
                    if chars.chars().any(|x| x == c)
                        || ranges.iter().any(|&(a, b)| (a..=b).contains(&c))
                    {
                        out.push(Tn::Val { s: c.to_string() });
                        Ok(st)
                    } else {
                        Err(self.err(st.n, &st, Descr::Cls(chars, ranges), false))
                    }
                }
            },
            Ex::Dot {} => match self.text.get(st.n) {
                None => Err(self.err(st.n, &st, Descr::Dot, false)),
                Some(c) => {
                    st.n += 1;
                    out.push(Tn::Val { s: c.to_string() });
                    Ok(st)
                }
            },
            Ex::Eof {} => {
                if st.n == self.text.len() {
                    out.push(Tn::Val { s: "EOF".to_string() });
                    Ok(st)
                } else {
                    st.n += 1;
                    Err(self.err(st.n, &st, Descr::Eof, false))
                }
            }
            Ex::Err { s } => Err(self.err(st.n, &st, Descr::Custom(s), true)),
            Ex::Ref { s } => self.rule(s, st, out),
            Ex::Seq { v } => {
                for x in v {
                    st = self.ev(x, st, out)?;
                }
                Ok(st)
            }
            Ex::Alt { v } => {
                let mut best: Option<MErr> = None;
                let base = out.len();
                for x in v {
                    match self.ev(x, st.clone(), out) {
                        Ok(st) => return Ok(st),
                        Err(e) => {
                            out.truncate(base);
                            if e.crit {
                                return Err(e);
                            }
                            best = match best {
                                Some(b) if b.n > e.n => Some(b),
                                _ => Some(e),
                            };
                        }
                    }
                }
                Err(best.unwrap_or_else(|| self.err(st.n, &st, Descr::EmptyAlt, false)))
            }
            Ex::Not { e } => {
                let mut tmp = vec![];
                let r = self.ev(e, st.clone(), &mut tmp);
                if self.dead.get() {
                    return Err(self.err(st.n, &st, Descr::Full, true));
                }
                match r {
                    Ok(_) => Err(self.err(st.n, &st, Descr::Not, false)),
                    Err(_) => Ok(st),
                }
            }
            Ex::Rep { e, min, max } => {
                let mut count = 0usize;
                // a maximum below the minimum still stops the repetition when it is reached
                while Some(count) != *max {
                    let base = out.len();
                    match self.ev(e, st.clone(), out) {
                        Err(er) => {
                            out.truncate(base);
                            if er.crit || count < *min {
                                return Err(er);
                            }
                            st.pot = Some(Rc::new(er));
                            return Ok(st);
                        }
                        Ok(nst) => {
                            if max.is_none() && count >= *min && nst.n == st.n {
                                out.truncate(base);
                                return Ok(nst);
                            }
                            st = nst;
                            count += 1;
                        }
                    }
                }
                Ok(st)
            }
        }
    }

    fn perr(&self, e: &MErr) -> PErr {
        let head = &self.text[..e.n];
        let row = head.iter().filter(|c| **c == '\n').count();
        let start_line = head.iter().rposition(|c| *c == '\n').map_or(0, |i| i + 1);
        let col = e.n - head.iter().rposition(|c| *c == '\n' || *c == '\r').map_or(0, |i| i + 1);
        let mut rules = vec![];
        let mut w = &e.walk;
        while let Some(x) = w {
            rules.push(x.name.clone());
            w = &x.up;
        }
        rules.reverse();
        PErr {
            n: e.n,
            row,
            col,
            start_line,
            descr: match &e.d {
                Descr::Lit(s) => format!("expected literal: <{}>", s),
                Descr::Cls(s, r) => format!("match. expected {} {:?}", s, r),
                Descr::Dot => "dot".into(),
                Descr::Not => "not".into(),
                Descr::Eof => "expected EOF".into(),
                Descr::Missing(s) => format!("Missing rule: {}", s),
                Descr::Custom(s) => s.to_string(),
                Descr::Full => "not consumed full input".into(),
                Descr::EmptyAlt => "empty choice".into(),
            },
            before: head[start_line..].iter().collect(),
            after: self.text[e.n..].iter().take_while(|c| **c != '\n' && **c != '\r').collect(),
            rules,
            crit: e.crit,
        }
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    pub steps: u64,
    pub depth: u32,
}

/// Parse `text` from rule `main` with these rules; `fuel` bounds the evaluation steps.
pub fn parse(rules: &Map, text: &str, debug: bool, fuel: u64) -> (POut, Cost) {
    let chars: Vec<char> = text.chars().collect();
    let it = Interp {
        rules: rules.iter().map(|(k, v)| (k.as_str(), v)).collect(),
        text: &chars,
        fuel: Cell::new(fuel),
        depth: Cell::new(0),
        max_depth: Cell::new(0),
        dead: Cell::new(false),
        debug,
    };
    let mut out = vec![];
    let r = it.rule("main", St { n: 0, pot: None, walk: None }, &mut out);
    let cost = Cost { steps: fuel - it.fuel.get(), depth: it.max_depth.get() };
    if it.dead.get() {
        return (POut::Fuel, cost);
    }
    let res = match r {
        Err(e) => POut::Err(it.perr(&e)),
        Ok(st) if st.n == chars.len() => POut::Ok(out.pop().unwrap()),
        Ok(st) => match &st.pot {
            Some(e) => POut::Err(it.perr(e)),
            None => POut::Err(it.perr(&it.err(st.n, &st, Descr::Full, false))),
        },
    };
    // long `walk` chains must not be dropped recursively
    (res, cost)
}

impl Drop for Walk {
    fn drop(&mut self) {
        let mut up = self.up.take();
        while let Some(rc) = up {
            match Rc::try_unwrap(rc) {
                Ok(mut w) => up = w.up.take(),
                Err(_) => break,
            }
        }
    }
}

// ------------------------------------------------------------------ grammar notation

pub fn lit(s: &str) -> Ex {
    Ex::Lit { s: s.into() }
}
pub fn refr(s: &str) -> Ex {
    Ex::Ref { s: s.into() }
}
pub fn seq(v: Vec<Ex>) -> Ex {
    Ex::Seq { v }
}
pub fn alt(v: Vec<Ex>) -> Ex {
    Ex::Alt { v }
}
pub fn not(e: Ex) -> Ex {
    Ex::Not { e: Box::new(e) }
}
pub fn rep(e: Ex, min: usize, max: Option<usize>) -> Ex {
    Ex::Rep { e: Box::new(e), min, max }
}
pub fn cls(chars: &str, r: &[(char, char)]) -> Ex {
    Ex::Cls { chars: chars.into(), ranges: r.to_vec() }
}
fn many(e: Ex) -> Ex {
    rep(e, 0, None)
}
fn opt(e: Ex) -> Ex {
    rep(e, 0, Some(1))
}

/// The grammar notation, as documented, as rules of the notation itself.
pub fn notation() -> Map {
    let r = refr;
    let dot = || Ex::Dot {};
    let symc = [('a', 'z'), ('A', 'Z'), ('0', '9')];
    let rules: Vec<(&str, Ex)> = vec![
        ("main", r("grammar")),
        ("grammar", rep(alt(vec![r("rule"), r("module")]), 1, None)),
        (
            "module",
            seq(vec![
                r("_"), r("mod_name"), r("_"), lit("{"), r("_"), r("grammar"), r("_"), lit("}"),
                r("_eol"), r("_"),
            ]),
        ),
        ("mod_name", r("symbol")),
        ("symbol", seq(vec![cls("_", &symc), many(cls("_'\"", &symc))])),
        (
            "rule",
            seq(vec![
                r("_"), r("rule_name"), r("_"), lit("="), r("_"), r("expr"), r("_eol"), r("_"),
            ]),
        ),
        (
            "rule_name",
            seq(vec![opt(lit(".")), r("symbol"), many(seq(vec![lit("."), r("symbol")]))]),
        ),
        ("expr", r("or")),
        ("or", seq(vec![r("and"), opt(seq(vec![r("_"), lit("/"), r("_"), r("or")]))])),
        (
            "error",
            seq(vec![
                lit("error"), r("_"), lit("("), r("_"), r("literal"), r("_"), lit(")"),
            ]),
        ),
        (
            "and",
            alt(vec![
                r("error"),
                seq(vec![
                    r("rep_or_neg"),
                    many(seq(vec![
                        r("_1"),
                        r("_"),
                        not(seq(vec![r("rule_name"), r("_"), alt(vec![lit("="), lit("{")])])),
                        r("and"),
                    ])),
                ]),
            ]),
        ),
        ("_1", alt(vec![lit(" "), r("eol")])),
        (
            "rep_or_neg",
            alt(vec![
                seq(vec![r("atom_or_par"), opt(alt(vec![lit("*"), lit("+"), lit("?")]))]),
                seq(vec![lit("!"), r("atom_or_par")]),
            ]),
        ),
        ("atom_or_par", alt(vec![r("atom"), r("parenth")])),
        (
            "parenth",
            seq(vec![
                lit("("), r("_"), r("expr"), r("_"),
                alt(vec![
                    lit(")"),
                    Ex::Err { s: "unbalanced parethesis: missing ')'".into() },
                ]),
            ]),
        ),
        ("atom", alt(vec![r("literal"), r("match"), r("rule_name"), r("dot")])),
        ("literal", alt(vec![r("lit_noesc"), r("lit_esc")])),
        (
            "lit_noesc",
            seq(vec![r("_'"), many(seq(vec![not(r("_'")), dot()])), r("_'")]),
        ),
        ("_'", lit("'")),
        (
            "lit_esc",
            seq(vec![
                r("_\""),
                many(alt(vec![
                    r("esc_char"), r("hex_char"), seq(vec![not(r("_\"")), dot()]),
                ])),
                r("_\""),
            ]),
        ),
        ("_\"", lit("\"")),
        (
            "esc_char",
            alt(vec![lit("\\r"), lit("\\n"), lit("\\t"), lit("\\\\"), lit("\\\"")]),
        ),
        (
            "hex_char",
            seq(vec![
                lit("\\0x"),
                cls("", &[('0', '9'), ('A', 'F')]),
                cls("", &[('0', '9'), ('A', 'F')]),
            ]),
        ),
        ("eol", alt(vec![lit("\r\n"), lit("\n"), lit("\r")])),
        ("_eol", seq(vec![many(alt(vec![lit(" "), r("comment")])), r("eol")])),
        (
            "match",
            seq(vec![
                lit("["),
                alt(vec![
                    seq(vec![r("mchars"), many(r("mbetween"))]),
                    rep(r("mbetween"), 1, None),
                ]),
                lit("]"),
            ]),
        ),
        (
            "mchars",
            rep(
                seq(vec![not(lit("]")), not(seq(vec![dot(), lit("-")])), dot()]),
                1,
                None,
            ),
        ),
        ("mbetween", seq(vec![dot(), lit("-"), dot()])),
        ("dot", lit(".")),
        ("_", many(alt(vec![lit(" "), r("eol"), r("comment")]))),
        ("comment", alt(vec![r("line_comment"), r("mline_comment")])),
        (
            "line_comment",
            seq(vec![lit("//"), many(seq(vec![not(r("eol")), dot()])), r("eol")]),
        ),
        (
            "mline_comment",
            seq(vec![lit("/*"), many(seq(vec![not(lit("*/")), dot()])), lit("*/")]),
        ),
    ];
    rules.into_iter().map(|(n, e)| (n.to_string(), e)).collect()
}

pub enum COut {
    Ok(Map),
    Err(PErr),
    Fuel,
}

/// What the notation text denotes.
pub fn compile(notation: &Map, text: &str, fuel: u64) -> (COut, Cost) {
    let (r, c) = parse(notation, text, false, fuel);
    let o = match r {
        POut::Fuel => COut::Fuel,
        POut::Err(e) => COut::Err(e),
        POut::Ok(t) => COut::Ok(den_grammar(only(&t, "grammar"))),
    };
    (o, c)
}

fn name(t: &Tn) -> &str {
    match t {
        Tn::Rule { s, .. } => s,
        _ => "",
    }
}
fn kids(t: &Tn) -> &[Tn] {
    match t {
        Tn::Rule { v, .. } => v,
        _ => &[],
    }
}
fn only<'a>(t: &'a Tn, n: &str) -> &'a Tn {
    kids(t).iter().find(|k| name(k) == n).expect("model tree")
}
fn text_of(t: &Tn) -> String {
    match t {
        Tn::Val { s } => s.clone(),
        Tn::Eof {} => String::new(),
        Tn::Rule { v, .. } => v.iter().map(text_of).collect(),
    }
}

fn den_grammar(t: &Tn) -> Map {
    let mut m = Map::new();
    for k in kids(t) {
        match name(k) {
            "rule" => {
                m.insert(text_of(only(k, "rule_name")), den_or(only(only(k, "expr"), "or")));
            }
            "module" => {
                for (n, e) in den_grammar(only(k, "grammar")) {
                    m.entry(n).or_insert(e);
                }
            }
            _ => {}
        }
    }
    m
}

fn one_or(mut v: Vec<Ex>, f: fn(Vec<Ex>) -> Ex) -> Ex {
    if v.len() == 1 {
        v.pop().unwrap()
    } else {
        f(v)
    }
}

fn den_or(t: &Tn) -> Ex {
    let mut v = vec![];
    let mut t = Some(t);
    while let Some(o) = t {
        let mut a = vec![];
        den_and(only(o, "and"), &mut a);
        v.push(one_or(a, seq));
        t = kids(o).iter().find(|k| name(k) == "or");
    }
    one_or(v, alt)
}

fn den_and(t: &Tn, out: &mut Vec<Ex>) {
    for k in kids(t) {
        match name(k) {
            "error" => out.push(Ex::Err { s: den_lit(only(k, "literal")) }),
            "rep_or_neg" => {
                let e = den_atom_or_par(only(k, "atom_or_par"));
                let sym: String = kids(k)
                    .iter()
                    .filter_map(|x| match x {
                        Tn::Val { s } => Some(s.as_str()),
                        _ => None,
                    })
                    .collect();
                out.push(match sym.as_str() {
                    "!" => not(e),
                    "*" => rep(e, 0, None),
                    "+" => rep(e, 1, None),
                    "?" => rep(e, 0, Some(1)),
                    _ => e,
                });
            }
            "and" => den_and(k, out),
            _ => {}
        }
    }
}

fn den_atom_or_par(t: &Tn) -> Ex {
    let k = &kids(t)[0];
    if name(k) == "parenth" {
        return den_or(only(only(k, "expr"), "or"));
    }
    let a = &kids(k)[0];
    match name(a) {
        "literal" => Ex::Lit { s: den_lit(a) },
        "rule_name" => Ex::Ref { s: text_of(a) },
        "dot" => Ex::Dot {},
        _ => {
            let mut chars = String::new();
            let mut ranges = vec![];
            for x in kids(a) {
                match name(x) {
                    "mchars" => chars = text_of(x),
                    "mbetween" => {
                        let c: Vec<char> = text_of(x).chars().collect();
                        ranges.push((c[0], c[2]));
                    }
                    _ => {}
                }
            }
            Ex::Cls { chars, ranges }
        }
    }
}

fn den_lit(t: &Tn) -> String {
    let l = &kids(t)[0];
    let v = kids(l);
    let mut s = String::new();
    for x in &v[1..v.len() - 1] {
        match name(x) {
            "esc_char" => s.push_str(match text_of(x).as_str() {
                "\\r" => "\r",
                "\\n" => "\n",
                "\\t" => "\t",
                "\\\\" => "\\",
                _ => "\"",
            }),
            "hex_char" => {
                let h = text_of(x);
                s.push(u8::from_str_radix(&h[3..], 16).unwrap() as char);
            }
            _ => s.push_str(&text_of(x)),
        }
    }
    s
}

// ------------------------------------------------------------------ trees

pub fn prune(t: &Tn, names: &[String]) -> Tn {
    match t {
        Tn::Rule { s, v } => Tn::Rule {
            s: s.clone(),
            v: v.iter()
                .filter(|k| !matches!(k, Tn::Rule { s, .. } if names.contains(s)))
                .map(|k| prune(k, names))
                .collect(),
        },
        _ => t.clone(),
    }
}

pub fn pass(t: &Tn, keep: &[String]) -> Tn {
    fn list(v: &[Tn], keep: &[String], out: &mut Vec<Tn>) {
        for k in v {
            match k {
                Tn::Rule { s, v } if !keep.contains(s) => list(v, keep, out),
                _ => out.push(pass(k, keep)),
            }
        }
    }
    match t {
        Tn::Rule { s, v } => {
            let mut out = vec![];
            list(v, keep, &mut out);
            Tn::Rule { s: s.clone(), v: out }
        }
        _ => t.clone(),
    }
}

pub fn compact(t: &Tn) -> Tn {
    match t {
        Tn::Rule { s, v } => {
            let mut out: Vec<Tn> = vec![];
            for k in v {
                if let (Some(Tn::Val { s: a }), Tn::Val { s: b }) = (out.last_mut(), k) {
                    a.push_str(b);
                    continue;
                }
                out.push(compact(k));
            }
            Tn::Rule { s: s.clone(), v: out }
        }
        _ => t.clone(),
    }
}

/// `B"name"`, `V"text"`, `E"name"` lines in document order.
pub fn flatten(t: &Tn, o: &mut String) {
    use std::fmt::Write;
    match t {
        Tn::Eof {} => {}
        Tn::Val { s } => write!(o, "V{:?} ", s).unwrap(),
        Tn::Rule { s, v } => {
            write!(o, "B{:?} ", s).unwrap();
            for k in v {
                flatten(k, o);
            }
            write!(o, "E{:?} ", s).unwrap();
        }
    }
}

// ------------------------------------------------------------------ readers

pub enum Ft<'a> {
    Val(&'a str),
    Begin(&'a str),
    End(&'a str),
    Eof,
}

/// Readers over the nodes of a tree, and over its flattened form.
pub const TREE_READERS: u8 = 10;
pub const FLAT_READERS: u8 = 8;
/// back to the list in which the present one was found; no call
pub const UP: u8 = 200;

pub struct Reader<'a> {
    stack: Vec<&'a [Tn]>,
    flat: Option<(Vec<Ft<'a>>, usize)>,
}

fn tag(t: &Tn) -> String {
    match t {
        Tn::Val { s } => format!("V{:?}", s),
        Tn::Rule { s, v } => format!("R{:?}#{}", s, v.len()),
        Tn::Eof {} => "EOF".into(),
    }
}

fn ftag(t: &Ft) -> String {
    match t {
        Ft::Val(s) => format!("V{:?}", s),
        Ft::Begin(s) => format!("B{:?}", s),
        Ft::End(s) => format!("E{:?}", s),
        Ft::Eof => "EOF".into(),
    }
}

impl<'a> Reader<'a> {
    /// `eof`: end-of-file nodes are in the flat list too.
    pub fn new(t: &'a Tn, flat: bool, eof: bool) -> Reader<'a> {
        fn list<'a>(t: &'a Tn, eof: bool, o: &mut Vec<Ft<'a>>) {
            match t {
                Tn::Val { s } => o.push(Ft::Val(s)),
                Tn::Eof {} => {
                    if eof {
                        o.push(Ft::Eof)
                    }
                }
                Tn::Rule { s, v } => {
                    o.push(Ft::Begin(s));
                    v.iter().for_each(|x| list(x, eof, o));
                    o.push(Ft::End(s));
                }
            }
        }
        let mut v = vec![];
        if flat {
            list(t, eof, &mut v);
        }
        Reader { stack: vec![std::slice::from_ref(t)], flat: if flat { Some((v, 0)) } else { None } }
    }

    /// What the reader finds, one line.
    pub fn step(&mut self, f: u8, name: &str) -> String {
        if f == UP {
            if self.stack.len() > 1 {
                self.stack.pop();
            }
            return "up\n".into();
        }
        let r = if self.flat.is_some() { self.flat_step(f, name) } else { self.tree_step(f, name) };
        match r {
            Some(s) => format!("ok {}\n", s),
            None => "ERR\n".into(),
        }
    }

    fn tree_step(&mut self, f: u8, name: &str) -> Option<String> {
        let l = *self.stack.last().unwrap();
        let first = l.first();
        let top = self.stack.len() - 1;
        match f {
            0 => {
                let t = first?;
                self.stack[top] = &l[1..];
                Some(format!("{} rest {}", tag(t), l.len() - 1))
            }
            1 => Some(tag(first?)),
            2 => match first? {
                Tn::Val { s } => {
                    self.stack[top] = &l[1..];
                    Some(format!("{:?} rest {}", s, l.len() - 1))
                }
                _ => None,
            },
            3 => match first? {
                Tn::Val { s } if s == name => {
                    self.stack[top] = &l[1..];
                    Some(format!("rest {}", l.len() - 1))
                }
                _ => None,
            },
            4 | 5 => match first? {
                Tn::Rule { s, v } if s == name => {
                    self.stack[top] = &l[1..];
                    if f == 4 {
                        self.stack.push(v);
                    }
                    Some(format!("rest {} nodes {}", l.len() - 1, v.len()))
                }
                _ => None,
            },
            6 => match first {
                None => Some("empty".into()),
                Some(_) => None,
            },
            7 => match (first?, l.len()) {
                (Tn::Val { s }, 1) => Some(format!("{:?}", s)),
                _ => None,
            },
            8 => match first {
                None => Some("none".into()),
                Some(Tn::Val { s }) => Some(format!("{:?}", s)),
                _ => None,
            },
            _ => match first {
                None => Some("none".into()),
                Some(Tn::Rule { s, v }) => Some(format!("{:?} nodes {}", s, v.len())),
                _ => None,
            },
        }
    }

    fn flat_step(&mut self, f: u8, name: &str) -> Option<String> {
        let (v, at) = self.flat.as_mut().unwrap();
        let l = &v[*at..];
        let rest = l.len().saturating_sub(1);
        let first = l.first();
        let out = match f {
            0 => format!("{} rest {}", ftag(first?), rest),
            1 => return Some(ftag(first?)),
            2 => match first? {
                Ft::Val(s) => format!("{:?} rest {}", s, rest),
                _ => return None,
            },
            3 => match first? {
                Ft::Val(s) if *s == name => format!("rest {}", rest),
                _ => return None,
            },
            4 => match first? {
                Ft::Begin(s) if *s == name => format!("rest {}", rest),
                _ => return None,
            },
            5 => match first? {
                Ft::End(s) if *s == name => format!("rest {}", rest),
                _ => return None,
            },
            6 => {
                return match first {
                    None => Some("none".into()),
                    Some(Ft::Val(s)) => Some(format!("{:?}", s)),
                    _ => None,
                }
            }
            _ => {
                return match first {
                    None => Some("none".into()),
                    Some(Ft::Begin(s)) | Some(Ft::End(s)) => Some(format!("{:?}", s)),
                    _ => None,
                }
            }
        };
        *at += 1;
        Some(out)
    }

    /// Reads that find something here.
    pub fn fitting(&self) -> Vec<(u8, String)> {
        let mut o = vec![];
        let none = String::new;
        match &self.flat {
            None => match self.stack.last().unwrap().first() {
                None => o.extend([(6, none()), (UP, none())]),
                Some(Tn::Val { s }) => o.extend([(2, none()), (3, s.clone()), (3, s.clone()), (0, none()), (8, none()), (7, none())]),
                Some(Tn::Rule { s, .. }) => o.extend([(4, s.clone()), (4, s.clone()), (5, s.clone()), (0, none()), (9, none())]),
                Some(Tn::Eof {}) => o.extend([(0, none()), (1, none())]),
            },
            Some((v, at)) => match v.get(*at) {
                None => o.push((0, none())),
                Some(Ft::Val(s)) => o.extend([(2, none()), (3, s.to_string()), (3, s.to_string()), (0, none()), (6, none())]),
                Some(Ft::Begin(s)) => o.extend([(4, s.to_string()), (4, s.to_string()), (7, none()), (0, none())]),
                Some(Ft::End(s)) => o.extend([(5, s.to_string()), (5, s.to_string()), (7, none()), (0, none())]),
                Some(Ft::Eof) => o.extend([(0, none()), (1, none())]),
            },
        }
        o
    }
}
