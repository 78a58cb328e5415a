//! Minimal JSON (no dependency outside the repository's own lock file).
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn obj() -> J {
        J::Obj(BTreeMap::new())
    }
    pub fn with(mut self, k: &str, v: impl Into<J>) -> J {
        if let J::Obj(m) = &mut self {
            m.insert(k.to_string(), v.into());
        }
        self
    }
    pub fn set(&mut self, k: &str, v: impl Into<J>) {
        if let J::Obj(m) = self {
            m.insert(k.to_string(), v.into());
        }
    }
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        !matches!(self.get(k), J::Null)
    }
    pub fn s(&self, k: &str) -> &str {
        match self.get(k) {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn n(&self, k: &str) -> i64 {
        match self.get(k) {
            J::Num(n) => *n,
            J::Bool(b) => *b as i64,
            _ => 0,
        }
    }
    pub fn n_or(&self, k: &str, d: i64) -> i64 {
        match self.get(k) {
            J::Num(n) => *n,
            _ => d,
        }
    }
    pub fn b(&self, k: &str) -> bool {
        match self.get(k) {
            J::Bool(b) => *b,
            J::Num(n) => *n != 0,
            _ => false,
        }
    }
    pub fn arr(&self, k: &str) -> &[J] {
        match self.get(k) {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn as_arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn as_str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn as_num(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            J::Bool(b) => *b as i64,
            _ => panic!("number expected: {self:?}"),
        }
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => write!(o, "{b}").unwrap(),
            J::Num(n) => write!(o, "{n}").unwrap(),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::Str(k.clone()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let mut p = Parser { c: s.chars().collect(), i: 0 };
        let v = p.value()?;
        p.ws();
        if p.i != p.c.len() {
            return Err(format!("trailing data at {}", p.i));
        }
        Ok(v)
    }
}

struct Parser {
    c: Vec<char>,
    i: usize,
}
impl Parser {
    fn ws(&mut self) {
        while self.i < self.c.len() && self.c[self.i].is_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&self) -> char {
        *self.c.get(self.i).unwrap_or(&'\0')
    }
    fn eat(&mut self, ch: char) -> Result<(), String> {
        self.ws();
        if self.peek() != ch {
            return Err(format!("expected {ch:?} at {}", self.i));
        }
        self.i += 1;
        Ok(())
    }
    fn lit(&mut self, w: &str, v: J) -> Result<J, String> {
        for ch in w.chars() {
            if self.peek() != ch {
                return Err("bad literal".into());
            }
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat('"')?;
        let mut s = String::new();
        loop {
            let ch = *self.c.get(self.i).ok_or("unterminated string")?;
            self.i += 1;
            match ch {
                '"' => return Ok(s),
                '\\' => {
                    let e = self.peek();
                    self.i += 1;
                    match e {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        'r' => s.push('\r'),
                        'b' => s.push('\u{8}'),
                        'f' => s.push('\u{c}'),
                        'u' => {
                            let h: String = self.c[self.i..self.i + 4].iter().collect();
                            self.i += 4;
                            let n = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                            s.push(char::from_u32(n).unwrap_or('\u{fffd}'));
                        }
                        c => s.push(c),
                    }
                }
                c => s.push(c),
            }
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match self.peek() {
            'n' => self.lit("null", J::Null),
            't' => self.lit("true", J::Bool(true)),
            'f' => self.lit("false", J::Bool(false)),
            '"' => Ok(J::Str(self.string()?)),
            '[' => {
                self.i += 1;
                let mut a = Vec::new();
                self.ws();
                if self.peek() == ']' {
                    self.i += 1;
                    return Ok(J::Arr(a));
                }
                loop {
                    a.push(self.value()?);
                    self.ws();
                    match self.peek() {
                        ',' => self.i += 1,
                        ']' => {
                            self.i += 1;
                            return Ok(J::Arr(a));
                        }
                        _ => return Err(format!("bad array at {}", self.i)),
                    }
                }
            }
            '{' => {
                self.i += 1;
                let mut m = BTreeMap::new();
                self.ws();
                if self.peek() == '}' {
                    self.i += 1;
                    return Ok(J::Obj(m));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.eat(':')?;
                    let v = self.value()?;
                    m.insert(k, v);
                    self.ws();
                    match self.peek() {
                        ',' => self.i += 1,
                        '}' => {
                            self.i += 1;
                            return Ok(J::Obj(m));
                        }
                        _ => return Err(format!("bad object at {}", self.i)),
                    }
                }
            }
            _ => {
                let st = self.i;
                while matches!(self.peek(), '-' | '0'..='9') {
                    self.i += 1;
                }
                let t: String = self.c[st..self.i].iter().collect();
                t.parse().map(J::Num).map_err(|e| format!("{e}: {t:?} at {st}"))
            }
        }
    }
}

impl From<i64> for J {
    fn from(n: i64) -> J {
        J::Num(n)
    }
}
impl From<i32> for J {
    fn from(n: i32) -> J {
        J::Num(n as i64)
    }
}
impl From<u32> for J {
    fn from(n: u32) -> J {
        J::Num(n as i64)
    }
}
impl From<u64> for J {
    fn from(n: u64) -> J {
        J::Num(n as i64)
    }
}
impl From<usize> for J {
    fn from(n: usize) -> J {
        J::Num(n as i64)
    }
}
impl From<bool> for J {
    fn from(b: bool) -> J {
        J::Bool(b)
    }
}
impl From<&str> for J {
    fn from(s: &str) -> J {
        J::Str(s.to_string())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::Str(s)
    }
}
impl From<Vec<J>> for J {
    fn from(a: Vec<J>) -> J {
        J::Arr(a)
    }
}
