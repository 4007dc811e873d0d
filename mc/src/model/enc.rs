//! Reference encoder.
use super::value::{E, V};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct EncOpt {
    pub indent: usize,
    pub delim: char,
    pub fold: bool,
    pub flatten: usize,
}
impl EncOpt {
    pub const DEFAULT: EncOpt = EncOpt { indent: 2, delim: ',', fold: false, flatten: usize::MAX };
    pub fn to_real(self) -> toon::EncodeOptions {
        toon::EncodeOptions {
            indent: Some(self.indent),
            delimiter: Some(self.delim),
            key_folding: Some(if self.fold {
                toon::options::KeyFoldingMode::Safe
            } else {
                toon::options::KeyFoldingMode::Off
            }),
            flatten_depth: Some(self.flatten),
            replacer: None,
        }
    }
}

/// Plain decimal spelling of a number, from its shortest digits and exponent.
pub fn number(n: f64) -> String {
    if !n.is_finite() {
        return "null".into();
    }
    if n == 0.0 {
        return "0".into();
    }
    let sci = format!("{:e}", n.abs());
    let (mant, exp) = sci.split_once('e').unwrap();
    let exp: i32 = exp.parse().unwrap();
    let digits: String = mant.chars().filter(|c| *c != '.').collect();
    let len = digits.len() as i32;
    let body = if exp < 0 {
        format!("0.{}{}", "0".repeat((-exp - 1) as usize), digits)
    } else if exp + 1 >= len {
        format!("{}{}", digits, "0".repeat((exp + 1 - len) as usize))
    } else {
        let (a, b) = digits.split_at((exp + 1) as usize);
        format!("{a}.{b}")
    };
    if n < 0.0 { format!("-{body}") } else { body }
}

/// `^-?\d+(\.\d+)?(e[+-]?\d+)?$` (either case), the documented test for "looks like a number"
/// (it subsumes the leading-zero form `^0\d+$`).
pub fn looks_numeric(t: &str) -> bool {
    fn digits(c: &[char], mut i: usize) -> Option<usize> {
        let st = i;
        while i < c.len() && c[i].is_ascii_digit() {
            i += 1;
        }
        (i > st).then_some(i)
    }
    let c: Vec<char> = t.chars().collect();
    let mut i = usize::from(c.first() == Some(&'-'));
    let Some(n) = digits(&c, i) else { return false };
    i = n;
    if i < c.len() && c[i] == '.' {
        let Some(n) = digits(&c, i + 1) else { return false };
        i = n;
    }
    if i < c.len() && (c[i] == 'e' || c[i] == 'E') {
        i += 1;
        if i < c.len() && (c[i] == '+' || c[i] == '-') {
            i += 1;
        }
        let Some(n) = digits(&c, i) else { return false };
        i = n;
    }
    i == c.len()
}

pub fn needs_quotes(t: &str, delim: char) -> bool {
    let special = [':', '"', '\\', '[', ']', '{', '}', '\n', '\r', '\t', delim];
    t.is_empty()
        || t.trim().len() != t.len()
        || t == "true"
        || t == "false"
        || t == "null"
        || looks_numeric(t)
        || t.chars().any(|c| special.contains(&c))
        || t.starts_with('-')
}

pub fn quote(t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn plain_key(k: &str) -> bool {
    let mut c = k.chars();
    matches!(c.next(), Some('a'..='z' | 'A'..='Z' | '_'))
        && c.all(|c| matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9' | '_' | '.'))
}
pub fn identifier(k: &str) -> bool {
    plain_key(k) && !k.contains('.')
}
pub fn key(k: &str) -> String {
    if plain_key(k) { k.to_string() } else { quote(k) }
}
pub fn prim(v: &V, d: char) -> String {
    match v {
        V::Null => "null".into(),
        V::Bool(b) => if *b { "true" } else { "false" }.into(),
        V::Num(n) => number(*n),
        V::Str(t) if needs_quotes(t, d) => quote(t),
        V::Str(t) => t.clone(),
        _ => unreachable!(),
    }
}

struct Enc {
    o: EncOpt,
    out: Vec<String>,
}

/// Literal dotted keys of the root object; only they restrict folding below the root.
type RootLits<'a> = Option<&'a [String]>;

pub fn encode_lines(v: &V, o: EncOpt) -> Vec<String> {
    let v = v.normal();
    let mut e = Enc { o, out: vec![] };
    match &v {
        V::Obj(m) => {
            let lits: Vec<String> =
                m.iter().map(|(k, _)| k.clone()).filter(|k| k.contains('.')).collect();
            e.object(m, m, 0, Some(&lits), &[], o.flatten);
        }
        V::Arr(a) => e.array("", String::new(), a, 0, 1),
        p => {
            let t = prim(p, o.delim);
            e.out.push(t);
        }
    }
    e.out
}
pub fn encode(v: &V, o: EncOpt) -> String {
    encode_lines(v, o).join("\n")
}

/// The field list if the array is tabular: non-empty objects, same key set, primitive values.
pub fn table_fields(a: &[V]) -> Option<Vec<String>> {
    let V::Obj(first) = a.first()? else { return None };
    if first.is_empty() {
        return None;
    }
    let fields: Vec<String> = first.iter().map(|(k, _)| k.clone()).collect();
    for r in a {
        let V::Obj(m) = r else { return None };
        if m.len() != fields.len()
            || m.iter().any(|(_, v)| !v.is_prim())
            || !fields.iter().all(|f| m.iter().any(|(k, _)| k == f))
        {
            return None;
        }
    }
    Some(fields)
}

impl Enc {
    fn line(&mut self, depth: usize, t: String) {
        self.out.push(format!("{}{}", " ".repeat(depth * self.o.indent), t));
    }
    fn head(&self, n: usize) -> String {
        if self.o.delim == ',' { format!("[{n}]") } else { format!("[{n}{}]", self.o.delim) }
    }
    fn join(&self, a: &[&V]) -> String {
        a.iter().map(|v| prim(v, self.o.delim)).collect::<Vec<_>>().join(&self.o.delim.to_string())
    }

    /// Array with `lead` ("" or "- ") and encoded key on a line at `depth`; its rows or items are
    /// indented `below` levels deeper.
    fn array(&mut self, lead: &str, key_text: String, a: &[V], depth: usize, below: usize) {
        let h = self.head(a.len());
        if a.iter().all(V::is_prim) {
            let vals: Vec<&V> = a.iter().collect();
            let t = if a.is_empty() { String::new() } else { format!(" {}", self.join(&vals)) };
            return self.line(depth, format!("{lead}{key_text}{h}:{t}"));
        }
        // A table needs a line of its own: an array that is itself a list item (no key) is
        // always written as a list.
        let table = if lead.is_empty() || !key_text.is_empty() { table_fields(a) } else { None };
        if let Some(f) = table {
            let d = self.o.delim.to_string();
            let names = f.iter().map(|k| key(k)).collect::<Vec<_>>().join(&d);
            self.line(depth, format!("{lead}{key_text}{h}{{{names}}}:"));
            for r in a {
                let V::Obj(m) = r else { unreachable!() };
                let cells: Vec<&V> =
                    f.iter().map(|f| &m.iter().find(|(k, _)| k == f).unwrap().1).collect();
                let t = self.join(&cells);
                self.line(depth + below, t);
            }
            return;
        }
        self.line(depth, format!("{lead}{key_text}{h}:"));
        for x in a {
            self.item(x, depth + below);
        }
    }

    fn item(&mut self, v: &V, depth: usize) {
        match v {
            V::Arr(a) => self.array("- ", String::new(), a, depth, 1),
            V::Obj(m) if m.is_empty() => self.line(depth, "-".into()),
            V::Obj(m) => {
                let (k, first) = &m[0];
                match first {
                    V::Arr(a) => self.array("- ", key(k), a, depth, 2),
                    V::Obj(inner) => {
                        self.line(depth, format!("- {}:", key(k)));
                        self.object(inner, inner, depth + 2, None, &[], self.o.flatten);
                    }
                    p => {
                        let t = prim(p, self.o.delim);
                        self.line(depth, format!("- {}: {t}", key(k)));
                    }
                }
                self.object(&m[1..], m, depth + 1, None, &[], self.o.flatten);
            }
            p => {
                let t = prim(p, self.o.delim);
                self.line(depth, format!("- {t}"));
            }
        }
    }

    /// `entries` are the members to write, `all` every member of the same object.
    fn object(
        &mut self,
        entries: &[(String, V)],
        all: &[(String, V)],
        depth: usize,
        lits: RootLits,
        path: &[String],
        budget: usize,
    ) {
        for (k, v) in entries {
            // Longest single-member chain within the budget.
            let mut chain = vec![k.clone()];
            let mut end = v;
            while chain.len() < budget {
                match end {
                    V::Obj(m) if m.len() == 1 => {
                        chain.push(m[0].0.clone());
                        end = &m[0].1;
                    }
                    _ => break,
                }
            }
            let joined = chain.join(".");
            let mut abs = path.to_vec();
            abs.push(joined.clone());
            let fold = self.o.fold
                && chain.len() >= 2
                && chain.iter().all(|c| identifier(c))
                && !all.iter().any(|(s, _)| *s == joined)
                && !lits.is_some_and(|l| l.contains(&abs.join(".")));
            let (name, val, used) = if fold { (joined, end, chain.len()) } else { (k.clone(), v, 0) };
            match val {
                V::Arr(a) => self.array("", key(&name), a, depth, 1),
                V::Obj(m) => {
                    self.line(depth, format!("{}:", key(&name)));
                    let mut p = path.to_vec();
                    p.push(name);
                    self.object(m, m, depth + 1, lits, &p, budget - used);
                }
                x => {
                    let t = prim(x, self.o.delim);
                    self.line(depth, format!("{}: {t}", key(&name)));
                }
            }
        }
    }
}

/// The event traversal of a value.
pub fn events(v: &V, out: &mut Vec<E>) {
    match v {
        V::Arr(a) => {
            out.push(E::SA(a.len()));
            a.iter().for_each(|x| events(x, out));
            out.push(E::EA);
        }
        V::Obj(m) => {
            out.push(E::SO);
            for (k, x) in m {
                out.push(E::Key(k.clone(), !plain_key(k)));
                events(x, out);
            }
            out.push(E::EO);
        }
        p => out.push(E::Prim(p.normal())),
    }
}

/// What a value looks like after a round trip: normalised, and the rows of a table with their
/// members in the order of the header.  `item`: the value is an element of a list.
pub fn round_tripped(v: &V, item: bool) -> V {
    match v {
        V::Arr(a) => {
            if !item && let Some(f) = table_fields(a) {
                return V::Arr(
                    a.iter()
                        .map(|r| {
                            let V::Obj(m) = r else { unreachable!() };
                            let get = |k: &String| m.iter().find(|x| x.0 == *k).unwrap().1.normal();
                            V::Obj(f.iter().map(|k| (k.clone(), get(k))).collect())
                        })
                        .collect(),
                );
            }
            V::Arr(a.iter().map(|x| round_tripped(x, true)).collect())
        }
        V::Obj(m) => {
            V::Obj(m.iter().map(|(k, x)| (k.clone(), round_tripped(x, false))).collect())
        }
        p => p.normal(),
    }
}
