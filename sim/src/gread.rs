//! Reads generated rule code (the construction macros' language) back into rules.

use crate::model::{Ex, Gram};

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Str(String),
    Chr(char),
    Num(String),
    P(char),
    Arrow,
}

fn lex(s: &str) -> Result<Vec<T>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() {
            i += 1;
        } else if x == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == 'r' && matches!(c.get(i + 1), Some('"') | Some('#')) {
            let mut h = 0;
            i += 1;
            while c.get(i) == Some(&'#') {
                h += 1;
                i += 1;
            }
            if c.get(i) != Some(&'"') {
                return Err("bad raw string".into());
            }
            i += 1;
            let st = i;
            loop {
                match c.get(i) {
                    None => return Err("unterminated raw string".into()),
                    Some('"') if c[i + 1..].iter().take_while(|x| **x == '#').count() >= h => break,
                    // what rustc does with them
                    Some('\r') if c.get(i + 1) != Some(&'\n') => {
                        return Err("bare CR in a raw string".into())
                    }
                    _ => i += 1,
                }
            }
            let t: String = c[st..i].iter().collect();
            v.push(T::Str(t.replace("\r\n", "\n")));
            i += 1 + h;
        } else if x == '"' || x == '\'' {
            i += 1;
            let mut o = String::new();
            loop {
                match c.get(i) {
                    None => return Err("unterminated literal".into()),
                    Some(&y) if y == x => {
                        i += 1;
                        break;
                    }
                    Some('\r') if c.get(i + 1) != Some(&'\n') => return Err("bare CR in a literal".into()),
                    Some('\r') => i += 1,
                    Some('\\') => {
                        let e = *c.get(i + 1).ok_or("unterminated escape")?;
                        i += 2;
                        match e {
                            'n' => o.push('\n'),
                            'r' => o.push('\r'),
                            't' => o.push('\t'),
                            '0' => o.push('\0'),
                            '\\' => o.push('\\'),
                            '\'' => o.push('\''),
                            '"' => o.push('"'),
                            'x' => {
                                let h: String = c[i.min(c.len())..(i + 2).min(c.len())].iter().collect();
                                let n = u8::from_str_radix(&h, 16).map_err(|_| "bad \\x escape")?;
                                if n > 127 {
                                    return Err("\\x escape above 7f".into());
                                }
                                o.push(n as char);
                                i += 2;
                            }
                            'u' => {
                                if c.get(i) != Some(&'{') {
                                    return Err("bad \\u escape".into());
                                }
                                let e = c[i..].iter().position(|x| *x == '}').ok_or("bad \\u escape")?;
                                let h: String = c[i + 1..i + e].iter().filter(|c| **c != '_').collect();
                                let n = u32::from_str_radix(&h, 16).map_err(|_| "bad \\u escape")?;
                                o.push(char::from_u32(n).ok_or("bad \\u escape")?);
                                i += e + 1;
                            }
                            '\n' if x == '"' => {
                                while c.get(i).is_some_and(|c| c.is_whitespace()) {
                                    i += 1;
                                }
                            }
                            _ => return Err(format!("unknown escape \\{}", e)),
                        }
                    }
                    Some(&y) => {
                        o.push(y);
                        i += 1;
                    }
                }
            }
            if x == '"' {
                v.push(T::Str(o));
            } else {
                let mut k = o.chars();
                match (k.next(), k.next()) {
                    (Some(a), None) => v.push(T::Chr(a)),
                    _ => return Err("bad character literal".into()),
                }
            }
        } else if x.is_ascii_digit() {
            let st = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            v.push(T::Num(c[st..i].iter().collect()));
        } else if x.is_alphabetic() || x == '_' {
            let st = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            v.push(T::Id(c[st..i].iter().collect()));
        } else if x == '=' && c.get(i + 1) == Some(&'>') {
            v.push(T::Arrow);
            i += 2;
        } else if "!(),[]".contains(x) {
            v.push(T::P(x));
            i += 1;
        } else {
            return Err(format!("unexpected character {:?}", x));
        }
    }
    Ok(v)
}

struct P {
    t: Vec<T>,
    i: usize,
}

type R<X> = Result<X, String>;

impl P {
    fn is(&self, x: char) -> bool {
        self.t.get(self.i) == Some(&T::P(x))
    }
    fn p(&mut self, x: char) -> R<()> {
        if self.is(x) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("{:?} expected, found {:?}", x, self.t.get(self.i)))
        }
    }
    fn id(&mut self) -> R<String> {
        match self.t.get(self.i) {
            Some(T::Id(s)) => {
                self.i += 1;
                Ok(s.clone())
            }
            x => Err(format!("name expected, found {:?}", x)),
        }
    }
    fn str(&mut self) -> R<String> {
        match self.t.get(self.i) {
            Some(T::Str(s)) => {
                self.i += 1;
                Ok(s.clone())
            }
            x => Err(format!("string expected, found {:?}", x)),
        }
    }
    fn chr(&mut self) -> R<char> {
        match self.t.get(self.i) {
            Some(T::Chr(s)) => {
                self.i += 1;
                Ok(*s)
            }
            x => Err(format!("character expected, found {:?}", x)),
        }
    }
    fn num(&mut self) -> R<usize> {
        match self.t.get(self.i) {
            Some(T::Num(s)) => {
                self.i += 1;
                let s = s.trim_end_matches("usize").replace('_', "");
                s.parse().map_err(|_| format!("bad number {}", s))
            }
            x => Err(format!("number expected, found {:?}", x)),
        }
    }
    fn list(&mut self) -> R<Vec<Ex>> {
        let mut v = vec![];
        while !self.is(')') {
            if !v.is_empty() {
                self.p(',')?;
                if self.is(')') {
                    break;
                }
            }
            v.push(self.expr()?);
        }
        Ok(v)
    }
    fn expr(&mut self) -> R<Ex> {
        let n = self.id()?;
        self.p('!')?;
        self.p('(')?;
        let e = match n.as_str() {
            "lit" => Ex::Lit { s: self.str()? },
            "error" => Ex::Err { s: self.str()? },
            "ref_rule" => Ex::Ref { s: self.str()? },
            "dot" => Ex::Dot {},
            "eof" => Ex::Eof {},
            "and" => Ex::Seq { v: self.list()? },
            "or" => Ex::Alt { v: self.list()? },
            "not" => Ex::Not { e: Box::new(self.expr()?) },
            "rep" => {
                let e = Box::new(self.expr()?);
                self.p(',')?;
                let min = self.num()?;
                let mut max = None;
                if self.is(',') {
                    self.i += 1;
                    max = Some(self.num()?);
                }
                Ex::Rep { e, min, max }
            }
            "ematch" => {
                if self.id()? != "chlist" {
                    return Err("chlist expected".into());
                }
                let chars = self.str()?;
                let mut ranges = vec![];
                self.p(',')?;
                loop {
                    match self.id()?.as_str() {
                        "from" => {
                            let a = self.chr()?;
                            self.p(',')?;
                            if self.id()? != "to" {
                                return Err("to expected".into());
                            }
                            ranges.push((a, self.chr()?));
                            if !self.is(',') {
                                break;
                            }
                            self.p(',')?;
                        }
                        "from2" if ranges.is_empty() => {
                            if self.id()? != "vec" {
                                return Err("vec expected".into());
                            }
                            self.p('!')?;
                            self.p('[')?;
                            while !self.is(']') {
                                self.p('(')?;
                                let a = self.chr()?;
                                self.p(',')?;
                                ranges.push((a, self.chr()?));
                                self.p(')')?;
                                if self.is(',') {
                                    self.i += 1;
                                }
                            }
                            self.p(']')?;
                            break;
                        }
                        x => return Err(format!("unexpected {} in a class", x)),
                    }
                }
                Ex::Cls { chars, ranges }
            }
            x => return Err(format!("unknown construction {}", x)),
        };
        self.p(')')?;
        Ok(e)
    }
}

/// The rules that the text denotes, in its order.
pub fn read(s: &str) -> Result<Gram, String> {
    let mut p = P { t: lex(s)?, i: 0 };
    let mut g = Gram::default();
    while p.i < p.t.len() {
        if !g.rules.is_empty() {
            p.p(',')?;
        }
        let n = p.str()?;
        if p.t.get(p.i) != Some(&T::Arrow) {
            return Err(format!("=> expected after {:?}", n));
        }
        p.i += 1;
        let e = p.expr()?;
        if g.rules.iter().any(|r| r.0 == n) {
            return Err(format!("rule {:?} is given twice", n));
        }
        g.rules.push((n, e));
    }
    Ok(g)
}
