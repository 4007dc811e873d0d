//! Reference decoder: text lines to events.
use super::value::{E, V};

/// A rejection; the line number when the documented error carries one.
#[derive(Clone, Debug, PartialEq)]
pub struct Bad(pub Option<usize>, pub &'static str);
type R<T> = Result<T, Bad>;
fn bad<T>(why: &'static str) -> R<T> {
    Err(Bad(None, why))
}

pub const MAX_DECLARED: usize = 100_000_000;

#[derive(Clone, Debug)]
pub struct Line {
    pub no: usize,
    pub depth: usize,
    pub text: String,
}

/// Physical lines to (content lines, numbers of blank lines).
pub fn scan<S: AsRef<str>>(src: &[S], indent: usize, strict: bool) -> R<(Vec<Line>, Vec<usize>)> {
    let (mut lines, mut blanks) = (vec![], vec![]);
    for (i, raw) in src.iter().enumerate() {
        let (raw, no) = (raw.as_ref(), i + 1);
        if raw.trim().is_empty() {
            blanks.push(no);
            continue;
        }
        let spaces = raw.chars().take_while(|c| *c == ' ').count();
        if strict {
            if raw.chars().take_while(|c| *c == ' ' || *c == '\t').any(|c| c == '\t') {
                return Err(Bad(Some(no), "tab in indentation"));
            }
            let partial = if indent == 0 { spaces > 0 } else { spaces % indent != 0 };
            if partial {
                return Err(Bad(Some(no), "indentation not a multiple"));
            }
        }
        let depth = if indent == 0 { 0 } else { spaces / indent };
        lines.push(Line { no, depth, text: raw[spaces..].to_string() });
    }
    Ok((lines, blanks))
}

// ---------------------------------------------------------------- tokens

/// Position of the quote closing the one at `open`.
fn closing_quote(c: &[char], open: usize) -> Option<usize> {
    let mut i = open + 1;
    while i < c.len() {
        match c[i] {
            '\\' => i += 2,
            '"' => return Some(i),
            _ => i += 1,
        }
    }
    None
}
/// First occurrence of `t` at or after `from` outside quotes (quoting state starts at `from`).
fn outside_quotes(c: &[char], t: char, from: usize) -> Option<usize> {
    let (mut i, mut inq) = (from, false);
    while i < c.len() {
        if inq && c[i] == '\\' {
            i += 2;
            continue;
        }
        if c[i] == '"' {
            inq = !inq;
        } else if c[i] == t && !inq {
            return Some(i);
        }
        i += 1;
    }
    None
}
fn find(c: &[char], t: char, from: usize) -> Option<usize> {
    (from..c.len()).find(|i| c[*i] == t)
}
fn text(c: &[char]) -> String {
    c.iter().collect()
}

pub fn unescape(t: &str) -> R<String> {
    let mut o = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('r') => o.push('\r'),
            Some('\\') => o.push('\\'),
            Some('"') => o.push('"'),
            _ => return bad("bad escape"),
        }
    }
    Ok(o)
}

/// A token that must be a whole quoted string, or plain text.
fn literal(t: &str) -> R<String> {
    let c: Vec<char> = t.trim().chars().collect();
    if c.first() != Some(&'"') {
        return Ok(text(&c));
    }
    match closing_quote(&c, 0) {
        None => bad("unterminated string"),
        Some(q) if q + 1 != c.len() => bad("text after closing quote"),
        Some(q) => unescape(&text(&c[1..q])),
    }
}

/// JSON number grammar.
pub fn json_number(t: &str) -> Option<f64> {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let run = |mut i: usize| {
        let st = i;
        while i < c.len() && c[i].is_ascii_digit() {
            i += 1;
        }
        (i > st).then_some(i)
    };
    if c.first() == Some(&'-') {
        i = 1;
    }
    let int_start = i;
    i = run(i)?;
    if c[int_start] == '0' && i > int_start + 1 {
        return None;
    }
    if c.get(i) == Some(&'.') {
        i = run(i + 1)?;
    }
    if matches!(c.get(i), Some('e' | 'E')) {
        i += 1;
        if matches!(c.get(i), Some('+' | '-')) {
            i += 1;
        }
        i = run(i)?;
    }
    if i != c.len() {
        return None;
    }
    let n: f64 = t.parse().ok()?;
    n.is_finite().then_some(if n == 0.0 { 0.0 } else { n })
}

pub fn primitive(t: &str) -> R<V> {
    let t = t.trim();
    Ok(match t {
        "true" => V::Bool(true),
        "false" => V::Bool(false),
        "null" => V::Null,
        _ if t.starts_with('"') => V::Str(literal(t)?),
        _ => json_number(t).map_or_else(|| V::Str(t.to_string()), V::Num),
    })
}

pub fn split(t: &str, d: char) -> Vec<String> {
    if t.is_empty() {
        return vec![];
    }
    let c: Vec<char> = t.chars().collect();
    let mut out = vec![];
    let mut at = 0;
    while let Some(i) = outside_quotes(&c, d, at) {
        out.push(text(&c[at..i]).trim().to_string());
        at = i + 1;
    }
    out.push(text(&c[at..]).trim().to_string());
    out
}

#[derive(Clone, Debug)]
pub struct Head {
    pub key: Option<(String, bool)>,
    pub len: usize,
    pub delim: char,
    pub fields: Option<Vec<(String, bool)>>,
    pub inline: Option<String>,
}

/// `key[N<delim>]{fields}: inline`.  Text between `]` and `{` or `:` is skipped.
pub fn header(t: &str) -> R<Option<Head>> {
    let c: Vec<char> = t.chars().collect();
    let lead = c.iter().take_while(|x| x.is_whitespace()).count();
    let b = if c.get(lead) == Some(&'"') {
        let Some(q) = closing_quote(&c, lead) else { return bad("unterminated string") };
        if c.get(q + 1) != Some(&'[') {
            return Ok(None);
        }
        q + 1
    } else {
        let Some(b) = find(&c, '[', 0) else { return Ok(None) };
        // an unquoted key ends at the first colon
        if c[..b].contains(&':') {
            return Ok(None);
        }
        b
    };
    let Some(e) = find(&c, ']', b) else { return Ok(None) };
    let mut after = e + 1;
    let mut span = None;
    if let (Some(o), Some(colon)) = (find(&c, '{', e + 1), find(&c, ':', e + 1))
        && o < colon
        && let Some(q) = outside_quotes(&c, '}', o).or_else(|| find(&c, '}', o))
    {
        after = q + 1;
        span = Some(text(&c[o + 1..q]));
    }
    let Some(colon) = find(&c, ':', after) else { return Ok(None) };

    let raw_key = text(&c[..b]).trim().to_string();
    let key = if raw_key.is_empty() {
        None
    } else {
        let q = raw_key.starts_with('"');
        Some((literal(&raw_key)?, q))
    };
    let mut n = text(&c[b + 1..e]);
    let mut delim = ',';
    if n.ends_with(['\t', '|']) {
        delim = n.pop().unwrap();
    }
    let digits = n.strip_prefix('+').unwrap_or(&n);
    if digits.is_empty() || !digits.chars().all(|x| x.is_ascii_digit()) {
        return Ok(None);
    }
    let sig = digits.trim_start_matches('0');
    let len: usize = if sig.is_empty() { 0 } else { sig.parse().unwrap_or(usize::MAX) };
    if len > MAX_DECLARED {
        return bad("declared length above the maximum");
    }
    let fields = match span {
        None => None,
        Some(s) => {
            let mut f = vec![];
            for x in split(&s, delim) {
                f.push((literal(&x)?, x.starts_with('"')));
            }
            Some(f)
        }
    };
    let rest = text(&c[colon + 1..]).trim().to_string();
    Ok(Some(Head { key, len, delim, fields, inline: (!rest.is_empty()).then_some(rest) }))
}

/// A key up to its colon; returns (key, was quoted, text after the colon).
fn key_token(t: &str) -> R<(String, bool, String)> {
    let c: Vec<char> = t.chars().collect();
    if c.first() == Some(&'"') {
        let Some(q) = closing_quote(&c, 0) else { return bad("unterminated key") };
        let k = unescape(&text(&c[1..q]))?;
        if c.get(q + 1) != Some(&':') {
            return bad("missing colon");
        }
        return Ok((k, true, text(&c[q + 2..])));
    }
    match find(&c, ':', 0) {
        None => bad("missing colon"),
        Some(i) => Ok((text(&c[..i]).trim().to_string(), false, text(&c[i + 1..]))),
    }
}
fn has_colon_outside_quotes(t: &str) -> bool {
    let c: Vec<char> = t.chars().collect();
    outside_quotes(&c, ':', 0).is_some()
}
fn starts_header(t: &str) -> bool {
    t.trim_start().starts_with('[') && has_colon_outside_quotes(t)
}

// ---------------------------------------------------------------- structure

struct D<'a> {
    lines: &'a [Line],
    blanks: &'a [usize],
    at: usize,
    strict: bool,
    ev: Vec<E>,
}

pub fn decode_events<S: AsRef<str>>(src: &[S], indent: usize, strict: bool) -> R<Vec<E>> {
    let (lines, blanks) = scan(src, indent, strict)?;
    let mut d = D { lines: &lines, blanks: &blanks, at: 0, strict, ev: vec![] };
    let Some(first) = lines.first() else { return Ok(vec![E::SO, E::EO]) };
    if starts_header(&first.text)
        && let Some(h) = header(&first.text)?
    {
        d.at = 1;
        d.array(h, 0)?;
    } else if lines.len() == 1 && !root_key_value(&first.text) {
        d.at = 1;
        d.ev.push(E::Prim(primitive(&first.text)?));
    } else {
        d.ev.push(E::SO);
        d.at = 1;
        d.member(&first.text, 0)?;
        while d.at < lines.len() && lines[d.at].depth == 0 {
            d.at += 1;
            d.member(&lines[d.at - 1].text, 0)?;
        }
        d.ev.push(E::EO);
    }
    if strict && d.at < lines.len() {
        return Err(Bad(Some(lines[d.at].no), "line fits no open structure"));
    }
    Ok(d.ev)
}

fn root_key_value(t: &str) -> bool {
    let c: Vec<char> = t.chars().collect();
    if c.first() == Some(&'"') {
        closing_quote(&c, 0).is_some_and(|q| c[q + 1..].contains(&':'))
    } else {
        c.contains(&':')
    }
}

impl<'a> D<'a> {
    fn peek(&self) -> Option<&'a Line> {
        self.lines.get(self.at)
    }

    /// One object member whose first line has content `t` at `depth` (already consumed).
    fn member(&mut self, t: &str, depth: usize) -> R<()> {
        if let Some(h) = header(t)?
            && let Some((k, q)) = h.key.clone()
        {
            self.ev.push(E::Key(k, q));
            return self.array(h, depth);
        }
        let (k, q, rest) = key_token(t)?;
        self.ev.push(E::Key(k, q));
        if !rest.trim().is_empty() {
            let v = primitive(&rest)?;
            self.ev.push(E::Prim(v));
            return Ok(());
        }
        self.ev.push(E::SO);
        // The first deeper line fixes the depth of all members of this object.
        if let Some(n) = self.peek()
            && n.depth > depth
        {
            let d = n.depth;
            while let Some(l) = self.peek()
                && l.depth == d
            {
                self.at += 1;
                self.member(&l.text, d)?;
            }
        }
        self.ev.push(E::EO);
        Ok(())
    }

    fn count(&self, got: usize, want: usize) -> R<()> {
        if self.strict && got != want { bad("count mismatch") } else { Ok(()) }
    }
    fn no_blanks(&self, first: usize, last: usize) -> R<()> {
        if self.strict
            && let Some(b) = self.blanks.iter().find(|b| **b > first && **b < last)
        {
            return Err(Bad(Some(*b), "blank line in array"));
        }
        Ok(())
    }

    /// The elements of an array whose header line sits at `depth`.
    fn array(&mut self, h: Head, depth: usize) -> R<()> {
        self.ev.push(E::SA(h.len));
        if let Some(t) = &h.inline {
            let mut vals = vec![];
            for x in split(t, h.delim) {
                vals.push(primitive(&x)?);
            }
            self.count(vals.len(), h.len)?;
            self.ev.extend(vals.into_iter().map(E::Prim));
        } else if let Some(f) = h.fields.as_ref().filter(|f| !f.is_empty()) {
            self.rows(&h, f, depth + 1)?;
        } else {
            self.items(&h, depth + 1)?;
        }
        self.ev.push(E::EA);
        Ok(())
    }

    fn rows(&mut self, h: &Head, fields: &[(String, bool)], depth: usize) -> R<()> {
        let first = self.peek().map_or(0, |l| l.no);
        let mut last = first;
        let mut n = 0;
        while n < h.len
            && let Some(l) = self.peek()
            && l.depth == depth
        {
            last = l.no;
            self.at += 1;
            let cells = split(&l.text, h.delim);
            self.count(cells.len(), fields.len())?;
            let mut vals = vec![];
            for x in &cells {
                vals.push(primitive(x)?);
            }
            self.ev.push(E::SO);
            for (i, (k, q)) in fields.iter().enumerate() {
                self.ev.push(E::Key(k.clone(), *q));
                self.ev.push(E::Prim(vals.get(i).cloned().unwrap_or(V::Null)));
            }
            self.ev.push(E::EO);
            n += 1;
        }
        self.count(n, h.len)?;
        self.no_blanks(first, last)?;
        if self.strict
            && let Some(l) = self.peek()
            && l.depth == depth
            && !l.text.starts_with("- ")
        {
            let c: Vec<char> = l.text.chars().collect();
            let colon = outside_quotes(&c, ':', 0);
            let delim = outside_quotes(&c, h.delim, 0);
            let row = match (colon, delim) {
                (None, _) => true,
                (Some(x), Some(y)) => y < x,
                _ => false,
            };
            if row {
                return bad("too many rows");
            }
        }
        Ok(())
    }

    fn items(&mut self, h: &Head, depth: usize) -> R<()> {
        let first = self.peek().map_or(0, |l| l.no);
        let mut last = first;
        let mut n = 0;
        while n < h.len
            && let Some(l) = self.peek()
            && l.depth == depth
            && (l.text == "-" || l.text.starts_with("- "))
        {
            self.at += 1;
            self.item(&l.text, depth)?;
            last = self.lines[self.at - 1].no;
            n += 1;
        }
        self.count(n, h.len)?;
        if n > 0 {
            self.no_blanks(first, last)?;
        }
        if self.strict
            && let Some(l) = self.peek()
            && l.depth == depth
            && l.text.starts_with("- ")
        {
            return bad("too many items");
        }
        Ok(())
    }

    /// One list item whose line (at `depth`) is consumed.
    fn item(&mut self, t: &str, depth: usize) -> R<()> {
        let t = t.strip_prefix("- ").unwrap_or("");
        if t.trim().is_empty() {
            self.ev.extend([E::SO, E::EO]);
            return Ok(());
        }
        let h = header(t)?;
        if starts_header(t)
            && let Some(h) = &h
        {
            return self.array(h.clone(), depth);
        }
        let keyed_table = h.as_ref().is_some_and(|h| h.key.is_some() && h.fields.is_some());
        if keyed_table || has_colon_outside_quotes(t) {
            // An object; its first member is on the hyphen line, as if one level deeper.
            self.ev.push(E::SO);
            self.member(t, depth + 1)?;
            while let Some(l) = self.peek()
                && l.depth == depth + 1
                && !l.text.starts_with("- ")
            {
                self.at += 1;
                self.member(&l.text, depth + 1)?;
            }
            self.ev.push(E::EO);
            return Ok(());
        }
        let v = primitive(t)?;
        self.ev.push(E::Prim(v));
        Ok(())
    }
}
