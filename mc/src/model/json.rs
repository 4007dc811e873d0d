//! Checks that a text is exactly one JSON document, laid out as specified, denoting a value.
use super::value::V;

struct Rd<'a> {
    t: &'a str,
    b: &'a [u8],
    i: usize,
    ind: usize,
}
type R = Result<(), String>;

/// `ind` = 0: compact; otherwise one element per line.
pub fn check(text: &str, v: &V, ind: usize) -> R {
    let mut r = Rd { t: text, b: text.as_bytes(), i: 0, ind };
    r.value(v, 0)?;
    if r.i != text.len() { Err(format!("text after the document at byte {}", r.i)) } else { Ok(()) }
}

impl Rd<'_> {
    fn lit(&mut self, t: &str) -> R {
        if self.b[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            return Ok(());
        }
        let end = (self.i + 20).min(self.b.len());
        Err(format!("expected {t:?} at byte {}, found {:?}", self.i, String::from_utf8_lossy(&self.b[self.i..end])))
    }
    fn nl(&mut self, depth: usize) -> R {
        if self.ind == 0 { Ok(()) } else { self.lit(&format!("\n{}", " ".repeat(depth * self.ind))) }
    }
    fn value(&mut self, v: &V, depth: usize) -> R {
        match v {
            V::Null => self.lit("null"),
            V::Bool(true) => self.lit("true"),
            V::Bool(false) => self.lit("false"),
            V::Num(n) if !n.is_finite() => self.lit("null"),
            V::Num(n) => {
                let st = self.i;
                while self.i < self.b.len() && b"+-.0123456789eE".contains(&self.b[self.i]) {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.b[st..self.i]).unwrap();
                if !json_number_grammar(t) {
                    return Err(format!("not a JSON number: {t:?}"));
                }
                let got: f64 = t.parse().map_err(|_| format!("unreadable number {t:?}"))?;
                if got.to_bits() != n.to_bits() {
                    return Err(format!("number {t:?} is not {n:?}"));
                }
                Ok(())
            }
            V::Str(s) => self.string(s),
            V::Arr(a) if a.is_empty() => self.lit("[]"),
            V::Arr(a) => {
                self.lit("[")?;
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        self.lit(",")?;
                    }
                    self.nl(depth + 1)?;
                    self.value(x, depth + 1)?;
                }
                self.nl(depth)?;
                self.lit("]")
            }
            V::Obj(m) if m.is_empty() => self.lit("{}"),
            V::Obj(m) => {
                self.lit("{")?;
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        self.lit(",")?;
                    }
                    self.nl(depth + 1)?;
                    self.string(k)?;
                    self.lit(if self.ind == 0 { ":" } else { ": " })?;
                    self.value(x, depth + 1)?;
                }
                self.nl(depth)?;
                self.lit("}")
            }
        }
    }
    fn string(&mut self, want: &str) -> R {
        self.lit("\"")?;
        let mut got = String::new();
        loop {
            let rest = self.t.get(self.i..).ok_or("cut inside a character")?;
            let mut it = rest.chars();
            let c = it.next().ok_or("unterminated string")?;
            self.i += c.len_utf8();
            match c {
                '"' => break,
                '\u{0}'..='\u{1f}' => return Err(format!("raw control character {:#x}", c as u32)),
                '\\' => {
                    let e = it.next().ok_or("unterminated escape")?;
                    self.i += 1;
                    got.push(match e {
                        '"' | '\\' | '/' => e,
                        'b' => '\u{8}',
                        'f' => '\u{c}',
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        'u' => {
                            let a = self.hex()?;
                            let cp = if (0xd800..0xdc00).contains(&a) {
                                self.lit("\\u")?;
                                let b = self.hex()?;
                                if !(0xdc00..0xe000).contains(&b) {
                                    return Err("bad surrogate pair".into());
                                }
                                0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)
                            } else {
                                a
                            };
                            char::from_u32(cp).ok_or("lone surrogate")?
                        }
                        _ => return Err(format!("bad escape \\{e}")),
                    });
                }
                c => got.push(c),
            }
        }
        if got == want { Ok(()) } else { Err(format!("string {got:?} is not {want:?}")) }
    }
    fn hex(&mut self) -> Result<u32, String> {
        let t = self.b.get(self.i..self.i + 4).ok_or("short \\u escape")?;
        self.i += 4;
        let t = std::str::from_utf8(t).map_err(|_| "bad \\u escape")?;
        if !t.bytes().all(|c| c.is_ascii_hexdigit()) {
            return Err("bad \\u escape".into());
        }
        u32::from_str_radix(t, 16).map_err(|e| e.to_string())
    }
}

pub fn json_number_grammar(t: &str) -> bool {
    let b = t.as_bytes();
    let mut i = usize::from(b.first() == Some(&b'-'));
    let run = |mut i: usize| {
        let st = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        (i > st).then_some(i)
    };
    let st = i;
    let Some(n) = run(i) else { return false };
    if b[st] == b'0' && n > st + 1 {
        return false;
    }
    i = n;
    if b.get(i) == Some(&b'.') {
        let Some(n) = run(i + 1) else { return false };
        i = n;
    }
    if matches!(b.get(i), Some(b'e' | b'E')) {
        i += 1;
        if matches!(b.get(i), Some(b'+' | b'-')) {
            i += 1;
        }
        let Some(n) = run(i) else { return false };
        i = n;
    }
    i == b.len()
}

/// A plain JSON writer used to build inputs (compact, minimal escapes).
pub fn write(v: &V, out: &mut String) {
    match v {
        V::Null => out.push_str("null"),
        V::Bool(b) => out.push_str(&b.to_string()),
        V::Num(n) => out.push_str(&format!("{n:?}")),
        V::Str(s) => wstr(s, out),
        V::Arr(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write(x, out);
            }
            out.push(']');
        }
        V::Obj(m) => {
            out.push('{');
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                wstr(k, out);
                out.push(':');
                write(x, out);
            }
            out.push('}');
        }
    }
}
fn wstr(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        if c == '"' || c == '\\' {
            out.push('\\');
            out.push(c);
        } else if (c as u32) < 0x20 {
            out.push_str(&format!("\\u{:04x}", c as u32));
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

/// What a JSON text denotes.
pub struct Doc {
    pub value: V,
    /// Deepest nesting of containers.
    pub depth: usize,
    /// A number is written with more digits or a larger exponent than every parser reads exactly.
    pub long: bool,
    /// A number is at the edge of the range of a double, where parsers differ.
    pub edge: bool,
}
/// A strict JSON reader.  A repeated member keeps its first place and takes the last value.
pub fn parse(text: &str) -> Result<Doc, String> {
    let mut p = Parse { t: text, i: 0, doc: Doc { value: V::Null, depth: 0, long: false, edge: false } };
    p.blank();
    p.doc.value = p.value(0)?;
    p.blank();
    if p.i != text.len() { Err(format!("text after the document at byte {}", p.i)) } else { Ok(p.doc) }
}
struct Parse<'a> {
    t: &'a str,
    i: usize,
    doc: Doc,
}
impl Parse<'_> {
    fn peek(&self) -> Option<u8> {
        self.t.as_bytes().get(self.i).copied()
    }
    fn blank(&mut self) {
        while matches!(self.peek(), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.i += 1;
        }
    }
    fn take(&mut self, c: u8) -> bool {
        let yes = self.peek() == Some(c);
        self.i += usize::from(yes);
        yes
    }
    fn value(&mut self, depth: usize) -> Result<V, String> {
        self.doc.depth = self.doc.depth.max(depth);
        for (w, v) in [("null", V::Null), ("true", V::Bool(true)), ("false", V::Bool(false))] {
            if self.t[self.i..].starts_with(w) {
                self.i += w.len();
                return Ok(v);
            }
        }
        match self.peek() {
            Some(b'"') => Ok(V::Str(self.string()?)),
            Some(b'[') => {
                self.doc.depth = self.doc.depth.max(depth + 1);
                self.i += 1;
                let mut out = vec![];
                self.blank();
                if self.take(b']') {
                    return Ok(V::Arr(out));
                }
                loop {
                    self.blank();
                    out.push(self.value(depth + 1)?);
                    self.blank();
                    if self.take(b']') {
                        return Ok(V::Arr(out));
                    }
                    if !self.take(b',') {
                        return Err(format!("no comma at byte {}", self.i));
                    }
                }
            }
            Some(b'{') => {
                self.doc.depth = self.doc.depth.max(depth + 1);
                self.i += 1;
                let mut out: Vec<(String, V)> = vec![];
                self.blank();
                if self.take(b'}') {
                    return Ok(V::Obj(out));
                }
                loop {
                    self.blank();
                    let k = self.string()?;
                    self.blank();
                    if !self.take(b':') {
                        return Err(format!("no colon at byte {}", self.i));
                    }
                    self.blank();
                    let v = self.value(depth + 1)?;
                    match out.iter_mut().find(|x| x.0 == k) {
                        Some(x) => x.1 = v,
                        None => out.push((k, v)),
                    }
                    self.blank();
                    if self.take(b'}') {
                        return Ok(V::Obj(out));
                    }
                    if !self.take(b',') {
                        return Err(format!("no comma at byte {}", self.i));
                    }
                }
            }
            Some(b'-' | b'0'..=b'9') => {
                let st = self.i;
                while self.peek().is_some_and(|c| b"+-.0123456789eE".contains(&c)) {
                    self.i += 1;
                }
                let t = &self.t[st..self.i];
                if !json_number_grammar(t) {
                    return Err(format!("not a number: {t}"));
                }
                let x: f64 = t.parse().map_err(|e| format!("{e}"))?;
                let (man, exp) = t.split_once(['e', 'E']).unwrap_or((t, "0"));
                let digits = man.bytes().filter(u8::is_ascii_digit).count();
                let whole = !t.contains(['.', 'e', 'E']);
                self.doc.long |= !(whole && digits < 20) && (digits > 15 || exp.parse::<i32>().map_or(true, |e| e.abs() > 22 - digits as i32));
                self.doc.edge |= x.abs() > f64::MAX / 2.0 && x.abs() != f64::INFINITY || x.is_infinite() && digits + exp.len() < 400 && exp.parse::<i32>().is_ok_and(|e| (e + man.split('.').next().unwrap().len() as i32) < 312);
                if x.is_infinite() && !self.doc.edge {
                    return Err(format!("number out of range: {t}"));
                }
                Ok(V::Num(x))
            }
            _ => Err(format!("no value at byte {}", self.i)),
        }
    }
    fn string(&mut self) -> Result<String, String> {
        if !self.take(b'"') {
            return Err(format!("no string at byte {}", self.i));
        }
        let mut out = String::new();
        loop {
            let c = self.t[self.i..].chars().next().ok_or("unterminated string")?;
            self.i += c.len_utf8();
            match c {
                '"' => return Ok(out),
                '\u{0}'..='\u{1f}' => return Err("raw control character".into()),
                '\\' => {
                    let e = self.peek().ok_or("unterminated escape")?;
                    self.i += 1;
                    out.push(match e {
                        b'"' | b'\\' | b'/' => e as char,
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let mut cp = self.hex()?;
                            if (0xd800..0xdc00).contains(&cp) {
                                if !(self.take(b'\\') && self.take(b'u')) {
                                    return Err("lone surrogate".into());
                                }
                                let low = self.hex()?;
                                if !(0xdc00..0xe000).contains(&low) {
                                    return Err("lone surrogate".into());
                                }
                                cp = 0x10000 + ((cp - 0xd800) << 10) + (low - 0xdc00);
                            }
                            char::from_u32(cp).ok_or("lone surrogate")?
                        }
                        _ => return Err("bad escape".into()),
                    });
                }
                c => out.push(c),
            }
        }
    }
    fn hex(&mut self) -> Result<u32, String> {
        let t = self.t.as_bytes().get(self.i..self.i + 4).ok_or("short \\u escape")?;
        if !t.iter().all(u8::is_ascii_hexdigit) {
            return Err("bad \\u escape".into());
        }
        self.i += 4;
        Ok(t.iter().fold(0, |a, c| a * 16 + (*c as char).to_digit(16).unwrap()))
    }
}
