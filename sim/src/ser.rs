//! Plain text (de)serialisation of plans: replay files.

pub struct Rd<'a> {
    s: &'a str,
    i: usize,
}

impl<'a> Rd<'a> {
    pub fn new(s: &'a str) -> Self {
        Rd { s, i: 0 }
    }
    pub fn tok(&mut self) -> Result<&'a str, String> {
        let b = self.s.as_bytes();
        while self.i < b.len() && b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
        let st = self.i;
        if st >= b.len() {
            return Err("unexpected end of replay file".into());
        }
        if b[st] == b'"' {
            self.i += 1;
            while self.i < b.len() && b[self.i] != b'"' {
                if b[self.i] == b'\\' {
                    self.i += 1;
                }
                self.i += 1;
            }
            self.i += 1;
            return self.s.get(st..self.i).ok_or_else(|| "unterminated string".to_string());
        }
        while self.i < b.len() && !b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
        Ok(&self.s[st..self.i])
    }
}

pub trait Ser: Sized {
    fn ser(&self, o: &mut String);
    fn de(r: &mut Rd) -> Result<Self, String>;
}

macro_rules! ser_int {
    ($($t:ty),*) => {$(
        impl Ser for $t {
            fn ser(&self, o: &mut String) { o.push_str(&self.to_string()); o.push(' '); }
            fn de(r: &mut Rd) -> Result<Self, String> {
                let t = r.tok()?;
                t.parse().map_err(|_| format!("number expected: {}", t))
            }
        }
    )*};
}
ser_int!(u8, u16, u32, u64, i64, usize, bool);

impl Ser for char {
    fn ser(&self, o: &mut String) {
        (*self as u32).ser(o)
    }
    fn de(r: &mut Rd) -> Result<Self, String> {
        char::from_u32(u32::de(r)?).ok_or_else(|| "bad char".to_string())
    }
}

impl Ser for String {
    fn ser(&self, o: &mut String) {
        o.push('"');
        for c in self.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 32 || (c as u32) > 126 => {
                    o.push_str(&format!("\\u{{{:x}}}", c as u32))
                }
                c => o.push(c),
            }
        }
        o.push_str("\" ");
    }
    fn de(r: &mut Rd) -> Result<Self, String> {
        let t = r.tok()?;
        if !t.starts_with('"') || t.len() < 2 {
            return Err(format!("string expected: {}", t));
        }
        let mut out = String::new();
        let mut it = t[1..t.len() - 1].chars();
        while let Some(c) = it.next() {
            if c != '\\' {
                out.push(c);
                continue;
            }
            match it.next() {
                Some('n') => out.push('\n'),
                Some('u') => {
                    it.next();
                    let mut v = 0u32;
                    for h in it.by_ref() {
                        if h == '}' {
                            break;
                        }
                        v = v * 16 + h.to_digit(16).ok_or("bad escape")?;
                    }
                    out.push(char::from_u32(v).ok_or("bad escape")?);
                }
                Some(c) => out.push(c),
                None => return Err("bad escape".into()),
            }
        }
        Ok(out)
    }
}

impl<T: Ser> Ser for Vec<T> {
    fn ser(&self, o: &mut String) {
        o.push('#');
        self.len().ser(o);
        for x in self {
            x.ser(o);
        }
    }
    fn de(r: &mut Rd) -> Result<Self, String> {
        let t = r.tok()?;
        let n: usize = t
            .strip_prefix('#')
            .and_then(|t| t.parse().ok())
            .ok_or_else(|| format!("list expected: {}", t))?;
        (0..n).map(|_| T::de(r)).collect()
    }
}

impl<T: Ser> Ser for Option<T> {
    fn ser(&self, o: &mut String) {
        match self {
            None => o.push_str("- "),
            Some(x) => {
                o.push_str("+ ");
                x.ser(o)
            }
        }
    }
    fn de(r: &mut Rd) -> Result<Self, String> {
        match r.tok()? {
            "-" => Ok(None),
            "+" => Ok(Some(T::de(r)?)),
            t => Err(format!("option expected: {}", t)),
        }
    }
}

impl<T: Ser> Ser for Box<T> {
    fn ser(&self, o: &mut String) {
        (**self).ser(o)
    }
    fn de(r: &mut Rd) -> Result<Self, String> {
        Ok(Box::new(T::de(r)?))
    }
}

impl<A: Ser, B: Ser> Ser for (A, B) {
    fn ser(&self, o: &mut String) {
        self.0.ser(o);
        self.1.ser(o);
    }
    fn de(r: &mut Rd) -> Result<Self, String> {
        Ok((A::de(r)?, B::de(r)?))
    }
}

#[macro_export]
macro_rules! ser_struct {
    ($n:ident { $($f:ident),* $(,)? }) => {
        impl $crate::ser::Ser for $n {
            fn ser(&self, o: &mut String) {
                o.push_str(concat!("\n", stringify!($n), " "));
                $( o.push_str(concat!(stringify!($f), " ")); self.$f.ser(o); )*
            }
            fn de(r: &mut $crate::ser::Rd) -> Result<Self, String> {
                let t = r.tok()?;
                if t != stringify!($n) { return Err(format!("{} expected: {}", stringify!($n), t)); }
                $(
                    let t = r.tok()?;
                    if t != stringify!($f) { return Err(format!("{} expected: {}", stringify!($f), t)); }
                    let $f = $crate::ser::Ser::de(r)?;
                )*
                Ok($n { $($f),* })
            }
        }
    };
}

#[macro_export]
macro_rules! ser_enum {
    ($n:ident { $( $v:ident { $($f:ident),* } ),* $(,)? }) => {
        impl $crate::ser::Ser for $n {
            fn ser(&self, o: &mut String) {
                match self { $(
                    $n::$v { $($f),* } => {
                        o.push_str(concat!(stringify!($v), " "));
                        $( $f.ser(o); )*
                    }
                )* }
            }
            fn de(r: &mut $crate::ser::Rd) -> Result<Self, String> {
                let t = r.tok()?;
                $(
                    if t == stringify!($v) {
                        $( let $f = $crate::ser::Ser::de(r)?; )*
                        return Ok($n::$v { $($f),* });
                    }
                )*
                Err(format!("{} expected: {}", stringify!($n), t))
            }
        }
    };
}
