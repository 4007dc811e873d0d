//! Exhaustive families of TOON texts.
use crate::engine::{Ctx, pow, tokens, word};
use crate::gen_values as gv;
use crate::model::enc::{self, EncOpt};
use crate::model::value::{V, obj, s};

/// A text with the indentation setting it is read with.
pub type Visit<'a> = &'a (dyn Fn(&str, usize) + Sync);

#[derive(Clone, Copy)]
pub struct Size {
    pub broad: usize,
    pub structural: usize,
    pub narrow: usize,
    pub chars: usize,
    pub neighbours: usize,
}
impl Size {
    pub fn of(ctx: &Ctx) -> Size {
        if ctx.thorough {
            Size { broad: 3, structural: 5, narrow: 7, chars: 6, neighbours: 6 }
        } else {
            Size { broad: 3, structural: 4, narrow: 6, chars: 5, neighbours: 5 }
        }
    }
    pub fn small(ctx: &Ctx) -> Size {
        if ctx.thorough {
            Size { broad: 3, structural: 4, narrow: 6, chars: 5, neighbours: 5 }
        } else {
            Size { broad: 2, structural: 3, narrow: 5, chars: 4, neighbours: 4 }
        }
    }
}

pub const BROAD: [&str; 34] = [
    "a:", "b: 1", "a: x y", "\"a\": 1", "\"a:b\":", "a[2]: 1,2", "a[1]:", "a[2]:", "a[0]:", "[2]:", "[1]: 5", "[2]: 1,2",
    "a[2|]: 1|2,3", "a[2\t]: 1\tx", "a[1]{b}:", "a[2]{b,c}:", "[1]{b}:", "\"a b\"[1]{\"c d\"}:", "1", "1,2", "\"x,y\",2",
    "x:1,2", "- 1", "-", "- b: 1", "- a:", "- [1]: 1", "- [1]:", "- a[1]:", "- a[1]{b}:", "true", "\"q", "a.b: 2", "",
];
pub const STRUCTURAL: [&str; 14] = [
    "a:", "b: 1", "a[1]:", "a[2]:", "[1]:", "a[1]{b}:", "1", "- 1", "-", "- a:", "- a: 1", "- [1]:", "- a[1]:", "",
];
pub const NARROW: [(&str, &[&str]); 5] = [
    ("nested lists", &["[2]:", "  - [2]:", "    - 1", "      - 2", "  - 3", ""]),
    ("objects in lists", &["a[2]:", "  - b: 1", "    c: 2", "  -", "    d:", "      e: 3", "f: 4"]),
    ("tables", &["a[2]{b,c}:", "  1,2", "  x: 1,2", "    3,4", "", "d: 5", "  e: 6"]),
    ("tables in lists", &["[2]:", "  - a[1]{b}:", "      1", "    c: 2", "  - a[1]:", "      - 3", ""]),
    ("object nesting", &["a:", "  b:", "    c: 1", "  d: 2", "      e: 3", "f: 4", ""]),
];
pub const LINE_CHARS: [char; 14] = ['a', '1', '"', '\\', ':', '[', ']', '{', '}', ',', ' ', '-', '|', '.'];
pub const LINE_TOKENS: [&str; 20] = [
    "a", "1", "\"a\"", "\"", "\\n", "\\x", ":", ": ", "[", "]", "[1]", "[2|]", "[1\t]", "{b}", "{b,\"c}\"}", ",", "|", "\t", "- ",
    "\u{a0}\u{e9}",
];

pub fn lines_family(ctx: &Ctx, name: &str, alphabet: &[String], depth: usize, indent: usize, f: Visit) {
    ctx.family(name, &format!("all texts of at most {depth} lines over {} lines, indent {indent}", alphabet.len()), || {
        for len in 1..=depth {
            ctx.par(pow(alphabet.len(), len), |mut i| {
                let k = alphabet.len() as u64;
                let mut t = String::new();
                for j in 0..len {
                    if j > 0 {
                        t.push('\n');
                    }
                    t.push_str(&alphabet[(i % k) as usize]);
                    i /= k;
                }
                f(&t, indent);
            });
        }
    });
}
pub fn indented(contents: &[&str], spaces: &[usize]) -> Vec<String> {
    let mut out = vec![];
    for c in contents {
        for n in spaces {
            if c.is_empty() && *n > 0 {
                continue;
            }
            out.push(format!("{}{c}", " ".repeat(*n)));
        }
    }
    out
}

pub fn line_docs(ctx: &Ctx, z: Size, f: Visit) {
    lines_family(ctx, "broad lines", &indented(&BROAD, &[0, 2, 4]), z.broad, 2, f);
    lines_family(ctx, "structural lines", &indented(&STRUCTURAL, &[0, 2, 4]), z.structural, 2, f);
    for (name, l) in NARROW {
        let l: Vec<String> = l.iter().map(|s| s.to_string()).collect();
        lines_family(ctx, name, &l, z.narrow, 2, f);
    }
    // odd indentation, tabs, other settings
    let mut odd = indented(&["a:", "b: 1", "- 1", "a[1]:", "- c: 2", "1"], &[0, 1, 2, 3, 4]);
    odd.extend(["\tb: 1", "  \tb: 1", "", "   ", "\t", " \u{a0}", "\u{a0}b: 1", "b: 1  ", "- ", "-  1"].map(String::from));
    for indent in [0, 1, 2, 3, 4] {
        let d = if indent == 2 || ctx.thorough { z.broad } else { z.broad.min(2) };
        lines_family(ctx, "odd indentation", &odd, d, indent, f);
    }
}

/// Surroundings into which a generated line is put.
pub fn frames() -> Vec<(String, String)> {
    [
        ("", ""),
        ("k:\n  ", ""),
        ("k:\n  ", "\n  z: 1"),
        ("", "\nz: 1"),
        ("", "\n  z: 1"),
        ("", "\n  - 1"),
        ("", "\n  1"),
        ("k[1]:\n  ", ""),
        ("k[1]:\n  - ", ""),
        ("k[1]:\n  - ", "\n    z: 1"),
        ("k[1]:\n  - ", "\n      1"),
        ("k[1]:\n  - ", "\n    - 1"),
        ("k[1]{f}:\n  ", ""),
        ("k[1|]{f,g}:\n  ", ""),
        ("k[1]{f}:\n  1\n  ", ""),
        ("k[1]: ", ""),
        ("k[2|]: ", ""),
        ("k: ", ""),
        ("k", ""),
        ("[1]", "\n  - 1"),
        ("k[1]", "\n  1"),
    ]
    .map(|(a, b)| (a.to_string(), b.to_string()))
    .to_vec()
}
pub fn char_docs(ctx: &Ctx, z: Size, f: Visit) {
    let fr = frames();
    ctx.family("character lines", &format!("all lines of at most {} characters over {} syntax characters alone, one shorter in {} frames", z.chars, LINE_CHARS.len(), fr.len()), || {
        for len in 0..=z.chars {
            ctx.par(pow(LINE_CHARS.len(), len), |i| {
                let w = word(&LINE_CHARS, len, i);
                if len == z.chars {
                    f(&w, 2);
                } else {
                    for (a, b) in &fr {
                        f(&format!("{a}{w}{b}"), 2);
                    }
                }
            });
        }
    });
    let k = z.chars.min(5) - 1;
    ctx.family("token lines", &format!("all lines of at most {k} of {} tokens, in {} frames", LINE_TOKENS.len(), fr.len()), || {
        for len in 1..=k {
            ctx.par(pow(LINE_TOKENS.len(), len), |i| {
                let w = tokens(&LINE_TOKENS, len, i);
                let fr = if len == 4 && !ctx.thorough { &fr[..1] } else { &fr[..] };
                for (a, b) in fr {
                    f(&format!("{a}{w}{b}"), 2);
                }
            });
        }
    });
}

/// Small values whose canonical texts are edited.
pub fn seeds() -> Vec<V> {
    let row = |a: f64, b: &str| obj(vec![("a", V::Num(a)), ("b c", s(b))]);
    let t = V::Arr(vec![row(1.0, "x"), row(2.0, "y,z"), row(3.0, "")]);
    vec![
        t.clone(),
        obj(vec![("t", t.clone()), ("u", V::Num(1.0))]),
        obj(vec![("l", V::Arr(vec![V::Num(10.0), V::Arr(vec![V::Num(20.0), s("3")]), V::Obj(vec![])])), ("m", s("k: v"))]),
        V::Arr(vec![obj(vec![("t", t.clone()), ("n", V::Num(12.0))]), obj(vec![("x", V::Arr(vec![V::Num(1.0), V::Num(2.0)]))])]),
        obj(vec![("a", obj(vec![("b", obj(vec![("c", V::Arr(vec![V::Arr(vec![]), V::Arr(vec![s("q\"r"), V::Null])]))])), ("d", V::Bool(true))]))]),
        V::Arr(vec![V::Arr(vec![V::Arr(vec![obj(vec![("k", V::Num(1.0)), ("t", t)])])]), s("- x")]),
    ]
}
/// Every single edit of a line, and every prefix, of a text.
pub fn edits(text: &str, indent: usize, f: &dyn Fn(&str, usize)) {
    f(text, indent);
    for (i, _) in text.char_indices() {
        f(&text[..i], indent);
    }
    let l: Vec<&str> = text.split('\n').collect();
    let join = |v: &[String]| v.join("\n");
    let own: Vec<String> = l.iter().map(|s| s.to_string()).collect();
    let sp = " ".repeat(indent);
    for i in 0..l.len() {
        let mut v = own.clone();
        v.remove(i);
        f(&join(&v), indent);
        let mut v = own.clone();
        v.insert(i, own[i].clone());
        f(&join(&v), indent);
        for j in i + 1..l.len() {
            let mut v = own.clone();
            v.swap(i, j);
            f(&join(&v), indent);
            let mut v = own.clone();
            let x = v.remove(i);
            v.insert(j, x);
            f(&join(&v), indent);
        }
        for ins in ["", "  ", "- 9", "z: 9", "9", "9,9"] {
            let mut v = own.clone();
            let lead = l[i].len() - l[i].trim_start_matches(' ').len();
            v.insert(i, if ins.trim().is_empty() { ins.to_string() } else { format!("{}{ins}", " ".repeat(lead)) });
            f(&join(&v), indent);
        }
        let mut v = own.clone();
        v[i] = format!("{sp}{}", l[i]);
        f(&join(&v), indent);
        let mut v = own.clone();
        v[i] = format!(" {}", l[i]);
        f(&join(&v), indent);
        if let Some(r) = l[i].strip_prefix(sp.as_str()) {
            let mut v = own.clone();
            v[i] = r.to_string();
            f(&join(&v), indent);
        }
        // one character removed, doubled, or a digit changed
        for (b, c) in l[i].char_indices() {
            let mut v = own.clone();
            v[i].remove(b);
            f(&join(&v), indent);
            let mut v = own.clone();
            v[i].insert(b, c);
            f(&join(&v), indent);
            if c.is_ascii_digit() {
                for d in ['0', '1', '2', '3', '4', '9'] {
                    let mut v = own.clone();
                    v[i].replace_range(b..=b, &d.to_string());
                    f(&join(&v), indent);
                }
            }
        }
    }
    f(&format!("{text}\n"), indent);
    f(&format!("\n{text}\n\n"), indent);
}
pub fn neighbours(ctx: &Ctx, z: Size, f: Visit) {
    let t = crate::engine::Trees::new(vec![V::Num(1.0), s("x,y")], &["a", "b"], z.neighbours);
    ctx.family("edited encodings", &format!("every prefix and single edit of the encodings of all values with at most {} nodes and of {} larger ones", z.neighbours, seeds().len()), || {
        for size in 1..=z.neighbours {
            ctx.par_grain(t.count(size), 16, |i| {
                let v = t.get(size, i);
                let text = enc::encode(&v, EncOpt::DEFAULT);
                if size == z.neighbours && z.neighbours > 4 {
                    light_edits(&text, 2, f);
                } else {
                    edits(&text, 2, &|t, n| f(t, n));
                }
            });
        }
        let sd = seeds();
        let combos: Vec<(usize, char, &V)> =
            [1usize, 2, 3, 4, 5, 7, 8, 16].iter().flat_map(|i| [',', '|', '\t'].map(|d| (*i, d))).flat_map(|(i, d)| sd.iter().map(move |v| (i, d, v))).collect();
        ctx.par_grain(combos.len() as u64, 1, |i| {
            let (indent, delim, v) = combos[i as usize];
            let text = enc::encode(v, EncOpt { indent, delim, ..EncOpt::DEFAULT });
            edits(&text, indent, &|t, n| f(t, n));
        });
    });
}
/// Line deletions, duplications, swaps and blank lines only.
fn light_edits(text: &str, indent: usize, f: Visit) {
    f(text, indent);
    let own: Vec<&str> = text.split('\n').collect();
    for i in 0..own.len() {
        let mut v = own.clone();
        v.remove(i);
        f(&v.join("\n"), indent);
        let mut v = own.clone();
        v.insert(i, own[i]);
        f(&v.join("\n"), indent);
        let mut v = own.clone();
        v.insert(i, "");
        f(&v.join("\n"), indent);
        if i > 0 {
            let mut v = own.clone();
            v.swap(i - 1, i);
            f(&v.join("\n"), indent);
        }
        let shifted = format!("  {}", own[i]);
        let mut v = own.clone();
        v[i] = &shifted;
        f(&v.join("\n"), indent);
    }
}
/// Characters other than the newline at the ends of lines.
pub fn endings(ctx: &Ctx, f: Visit) {
    const ENDS: [&str; 12] = ["\n", "\r\n", "\r", "\n\r", "\r\r\n", " \r\n", "\t\n", "\u{b}\n", "\u{c}", "\u{85}\n", "\u{2028}", "\u{feff}\n"];
    let l = ["a:", "  b: 1", "  c: \"x\"", "d[2]: 1,2", "e[1]:", "  - 3", "  -", "  - f: 4", "g[1]{h}:", "  5", "", "\"q r\": x", "[2]:", "word"];
    let n = l.len() as u64;
    let k = ENDS.len() as u64;
    let top = if ctx.thorough { 4 } else { 3 };
    ctx.family("line ends", &format!("all texts of at most {top} of {n} lines, every line ended by each of {k} characters or pairs, and with two kinds of end in one text"), || {
        for len in 1..=top {
            ctx.par(n.pow(len) * k, |mut i| {
                let e = ENDS[(i % k) as usize];
                i /= k;
                let v: Vec<&str> = (0..len).map(|_| { let x = l[(i % n) as usize]; i /= n; x }).collect();
                let all = v.join(e);
                f(&all, 2);
                f(&format!("{all}{e}"), 2);
                if len == 2 {
                    for e2 in ENDS {
                        f(&format!("{}{e}{}{e2}", v[0], v[1]), 2);
                        f(&format!("{e2}{}{e}{}", v[0], v[1]), 2);
                    }
                }
                if len == 3 {
                    f(&format!("{}\n{}{e}{}", v[0], v[1], v[2]), 2);
                    f(&format!("{}{e}{}\n{}", v[0], v[1], v[2]), 2);
                }
            });
        }
        // a carriage return or feed anywhere in a text
        let sd = seeds();
        ctx.par_grain(sd.len() as u64 * 3, 1, |i| {
            let v = &sd[i as usize / 3];
            let text = enc::encode(v, EncOpt { delim: [',', '|', '\t'][i as usize % 3], ..EncOpt::DEFAULT });
            for (p, c) in text.char_indices() {
                for x in ["\r", "\u{c}", "\u{b}", "\t", "\u{a0}", "\u{feff}", "\u{0}"] {
                    f(&format!("{}{x}{}", &text[..p], &text[p..]), 2);
                    if c == '\n' {
                        f(&format!("{}{x}{}", &text[..p], &text[p + 1..]), 2);
                    }
                }
            }
            for x in ["\r\n", "\r"] {
                f(&text.replace('\n', x), 2);
                f(&format!("{}{x}", text.replace('\n', x)), 2);
            }
        });
    });
}
/// Opening line with the length, element, lines that may follow, part or replace the elements.
type Run = (&'static str, &'static str, &'static [&'static str]);
const RUNS: [Run; 9] = [
    ("a[@]:", "  - 1", &["  - x: 2", "  -", "  2", "    - 3", "", "  - [1]: 4", "  - \"q", "  - - 5", "\t- 6", "- 7"]),
    ("[@]:", "  - k: 1", &["    m: 2", "      n: 3", "  - 4", "  k: 5", "", "    - 6", "  - k:", "   - k: 7"]),
    ("[@]{f,g}:", "  1,2", &["  3", "  3,4,5", "  x: 3,4", "    3,4", "", "  \"3,4", "  - 3,4", "  3,\"x: 4\"", "  3|4", "  ,"]),
    ("k:\n  t[@|]{f|\"g h\"}:", "    1|2", &["    3", "    3|4|5", "    x: 3|4", "  3|4", "  u: 5", "", "      6|7"]),
    ("a[@]:", "  - [1]: 1", &["  - [2]: 1", "  - [1]:", "  - 2", "    - 3", ""]),
    ("[1]:\n  - t[@]{f}:", "      1", &["      1,2", "    u: 3", "    4", "  - 5", "", "      \"x"]),
    ("a:", "  b: 1", &["  c:", "    d: 2", "  e", "  - 3", "f: 4", "", "   g: 5", "  \"h: 6"]),
    ("a:", "", &["  b: 1", "c: 2", "    d: 3", "\te: 4", "f"]),
    ("a: 1", "b: 2", &["  c: 3", "- 4", "d", "e:", "", "\"f: 5", "[1]: 6"]),
];
/// Long arrays, objects and rows with something else at any one place.
pub fn odd_lines(ctx: &Ctx, big: bool, f: Visit) {
    let top = if ctx.thorough { 100u64 } else { 40 };
    let sizes: Vec<u64> = if big { (13..=top).collect() } else { vec![17, 33] };
    ctx.family("odd lines", &format!("arrays, tables and objects of 13..{top} elements (all of them or two) with one of 5..10 other lines between two elements at every place, declared with and without it; rows with an odd cell at every place"), || {
        ctx.par_grain(sizes.len() as u64, 1, |i| {
            let n = sizes[sizes.len() - 1 - i as usize] as usize;
            for (head, elem, odd) in RUNS {
                let run = |k: usize| -> String { (0..k).map(|_| format!("\n{elem}")).collect() };
                for p in 0..=n {
                    let (a, b) = (run(p), run(n - p));
                    for o in odd {
                        f(&format!("{}{a}\n{o}{b}", head.replace('@', &(n + 1).to_string())), 2);
                        if head.contains('@') {
                            f(&format!("{}{a}\n{o}{b}\nz: 1", head.replace('@', &n.to_string())), 2);
                        }
                    }
                }
            }
            for x in ["", "\"q,r\"", "\"q", "x y", " ", "5 ", "\"\"", "[", "x: 1", "- 1", "2,3", "\"a\"b", "|", "01"] {
                for p in 0..=n {
                    let row = [vec!["1"; p], vec![x], vec!["1"; n - p]].concat().join(",");
                    let names = (0..=n).map(|j| format!("k{j}")).collect::<Vec<_>>().join(",");
                    f(&format!("a[{}]: {row}", n + 1), 2);
                    f(&format!("[1]{{{names}}}:\n  {row}\nz: 1"), 2);
                    f(&format!("[1]{{{}}}:\n  {}", row.replace(',', "_,"), vec!["1"; n + 1].join(",")), 2);
                }
            }
        });
    });
}
/// Long arrays, objects and rows with something else at their end.
pub fn late(ctx: &Ctx, big: bool, f: Visit) {
    let sizes = gv::size_steps(if ctx.thorough { 140 } else { 66 }, big);
    let kinds = RUNS;
    ctx.family("late lines", &format!("arrays, tables and objects of every length up to {} with 5..10 lines after or in place of the last element, declared exactly, one short and one over", sizes[sizes.len() - 1]), || {
        ctx.par_grain(sizes.len() as u64, 1, |i| {
            let n = sizes[sizes.len() - 1 - i as usize];
            for (head, elem, odd) in kinds {
                let body = |k: usize| -> String { (0..k).map(|_| format!("\n{elem}")).collect() };
                let full = body(n);
                let declared: &[isize] = if head.contains('@') { &[0, 1, -1] } else { &[0] };
                for d in declared {
                    let Some(len) = n.checked_add_signed(*d) else { continue };
                    let h = head.replace('@', &len.to_string());
                    f(&format!("{h}{full}"), 2);
                    f(&format!("{h}{full}\nz: 1"), 2);
                    for o in odd {
                        f(&format!("{h}{full}\n{o}"), 2);
                        if *d == 1 || n < 70 {
                            f(&format!("{h}{full}\n{o}\n{elem}"), 2);
                            f(&format!("{h}{full}\n{o}\nz: 1"), 2);
                        }
                        if n > 0 && *d <= 0 && n < 300 {
                            f(&format!("{h}{}\n{o}\n{elem}", body(n - 1)), 2);
                        }
                    }
                }
            }
            // inline arrays and rows with one odd cell
            for x in ["", "\"q,r\"", "\"q", "x y", " ", "5 ", "\"\"", "[", "x: 1", "- 1"] {
                let cells = vec!["1"; n].join(",");
                let sep = if n > 0 { "," } else { "" };
                for len in [n, n + 1, n + 2] {
                    f(&format!("a[{len}]: {cells}{sep}{x}"), 2);
                    f(&format!("a[{len}]: {x}{sep}{cells}"), 2);
                }
                let names = (0..=n).map(|j| format!("k{j}")).collect::<Vec<_>>().join(",");
                f(&format!("[1]{{{names}}}:\n  {cells}{sep}{x}"), 2);
                f(&format!("[1]{{{names}}}:\n  {x}{sep}{cells}\nz: 1"), 2);
            }
        });
    });
}
/// Keys, strings, numbers and blanks of every length.
pub fn lengths(ctx: &Ctx, f: Visit) {
    let sizes = gv::size_steps(if ctx.thorough { 300 } else { 150 }, true);
    ctx.family("token lengths", &format!("words, quoted strings, escapes, digits, blanks and keys of every length up to {} in 16 positions", sizes[sizes.len() - 1]), || {
        ctx.par_grain(sizes.len() as u64, 1, |i| {
            let n = sizes[sizes.len() - 1 - i as usize];
            for u in ["x", "\u{e9}", "\u{1f600}", "1", "\\n", "\\\\", "\\\"", " ", ",", "|", ":", ".", "a.", "-", "["] {
                let w = u.repeat(n);
                for t in [
                    format!("k: {w}"), format!("k: \"{w}\""), format!("k: \"{w}"), format!("k: a{w}b"), format!("{w}: 1"), format!("\"{w}\": 1"), format!("a{w}: 1\nb: 2"),
                    format!("k[2]: \"{w}\",{w}"), format!("k[1]{{\"{w}\"}}:\n  \"{w}\""), format!("k[1]:\n  - \"{w}\": \"{w}\""), format!("k[1]:\n  - {w}"), format!("\"{w}\""), w.clone(),
                    format!("k:\n{w}b: 1"), format!("k:{w}1"), format!("k[2]: 1{w},2"),
                ] {
                    f(&t, 2);
                }
            }
        });
    });
}
/// Tokens that are, or nearly are, numbers and literals, wherever a token can stand.
pub fn literals(ctx: &Ctx, f: Visit) {
    const ALPHA: [char; 9] = ['0', '1', '-', '.', 'e', '+', 'E', '5', ' '];
    const AT: [(&str, &str); 9] = [
        ("k: ", ""), ("", ""), ("[2]: ", ",x"), ("[2|]: x|", ""), ("k[1]{a,b}:\n  ", ",2"), ("[2]:\n  - ", "\n  - y"), ("[1]:\n  - k: ", ""), ("", ": 1"), ("[", "]: 1"),
    ];
    let top = if ctx.thorough { 7 } else { 6 };
    ctx.family("number words", &format!("all words of at most {top} characters over {} in {} positions (the longest in 2)", ALPHA.len(), AT.len()), || {
        for len in 1..=top {
            ctx.par(pow(ALPHA.len(), len), |i| {
                let w = word(&ALPHA, len, i);
                for (a, b) in &AT[..if len + 1 > top { 2 } else if len + 2 > top { 5 } else { 9 }] {
                    f(&format!("{a}{w}{b}"), 2);
                }
            });
        }
    });
    let stems = [
        "true", "false", "null", "nil", "none", "undefined", "NaN", "nan", "inf", "Infinity", "infinity", "0x1F", "0b1", "0o7", "1_000", "1,000", "1e400", "1e308", "1.8e308", "1e-400", "5e-324", "2e-324",
        "9007199254740993", "18446744073709551616", "1e", "1e+", ".5", "5.", "1.5.2", "--1", "1-", "00", "01", "-01", "0.10", "1.0", "-0", "-0.0", "-0e5", "0e0", "0.0e-5", "1E5", "1e05", "1e-05", "1e+05", "1f", "1d", "1u8",
        "\u{661}", "\u{ff11}", "\u{2212}1", "1\u{a0}", "yes", "no", "on", "off", "y", "n", "~", "@", "$a", "%b", "&c", "*d", "!e", "#f", "// g", "/* h */", "-", "--", "---", "...", "?", "'x'", "'", "`", "<", ">", "=", "()", ";",
    ];
    ctx.family("literal words", &format!("{} words, in 4 spellings, alone, prefixed and suffixed by 11 characters, in {} positions", stems.len(), AT.len()), || {
        let around = ["", "\"", "\\", " ", "\t", "\r", "\u{a0}", "x", "1", ".", "-"];
        ctx.par_grain(stems.len() as u64, 1, |i| {
            let w = stems[i as usize];
            let mut cs = w.chars();
            let cap: String = cs.next().map(|c| c.to_uppercase().chain(cs).collect()).unwrap_or_default();
            for w in [w.to_string(), w.to_uppercase(), cap, w.to_lowercase()] {
                for p in around {
                    for q in around {
                        for (a, b) in AT {
                            f(&format!("{a}{p}{w}{q}{b}"), 2);
                        }
                    }
                }
            }
        });
    });
}
/// Texts of sizes around 2^16 and beyond, whole, one line short and one line over.
pub fn huge(ctx: &Ctx, few: bool, f: Visit) {
    let mut sizes = gv::huge_sizes(ctx);
    if !ctx.thorough {
        sizes.retain(|n| !few && (8192..=10_000).contains(n) || (65_535..=65_537).contains(n));
    }
    ctx.family("huge", &format!("encodings of arrays, tables, lists, strings, keys and objects of {} sizes up to {}, whole, with the last element missing, doubled or broken, and behind blank lines", sizes.len(), sizes[sizes.len() - 1]), || {
        ctx.par_grain(sizes.len() as u64 * gv::HUGE_KINDS, 1, |i| {
            let (kind, len) = (i % gv::HUGE_KINDS, sizes[sizes.len() - 1 - (i / gv::HUGE_KINDS) as usize]);
            let t = enc::encode(&gv::huge_value(kind, len), enc::EncOpt::DEFAULT);
            f(&t, 2);
            let l: Vec<&str> = t.split('\n').collect();
            let n = l.len();
            if n > 100 {
                let short = |k: usize| l[..k].join("\n");
                f(&short(n - 1), 2);
                f(&format!("{}\n{}", short(n - 1), l[n - 2]), 2);
                f(&format!("{t}\n   x"), 2);
                f(&format!("{}\n{}\"\n{}", short(n - 3), l[n - 3], l[n - 1]), 2);
                f(&format!("{t}\n\n{}", l[n - 1]), 2);
            } else {
                f(&t.replacen(':', "", 1), 2);
                f(&format!("{t}\"\nq"), 2);
            }
            f(&format!("{}a: 1\n   x", "\n".repeat(len)), 2);
            f(&format!("a[{len}]: 1"), 2);
        });
    });
}
/// Tables with rows of every width, and rows and inline arrays with every kind of cell.
pub fn cells(ctx: &Ctx, f: Visit) {
    // what comes before a header, the indentation of its lines, and what follows
    const AT: [(&str, &str, &str); 6] =
        [("", "  ", ""), ("k", "  ", "\nz: 1"), ("o:\n  k", "    ", "\n  z: 1"), ("[1]:\n  - ", "    ", ""), ("[2]:\n  - k", "      ", "\n    z: 1\n  - 2"), ("l[1]:\n  - y: 0\n    k", "      ", "\nz: 1")];
    const NAMES: [&str; 6] = ["a", "b", "\"c d\"", "e.f", "g", "h"];
    let top = if ctx.thorough { 6 } else { 5 };
    ctx.family("row widths", &format!("tables of 1..{top} fields with up to 3 rows of 1 to two more cells than fields, declared one short, right and one over, 2 delimiters, in {} places", AT.len()), || {
        for fields in 1..=top {
            let wide = fields as u64 + 2;
            for rows in 0..=3u32 {
                ctx.par(wide.pow(rows), |i| {
                    for (d, mark) in [(",", ""), ("|", "|")] {
                        let names = NAMES[..fields].join(d);
                        for (head, ind, tail) in AT {
                            let mut body = String::new();
                            let mut k = i;
                            for r in 0..rows {
                                let cells: Vec<String> = (0..=k % wide).map(|c| format!("{}", r as u64 * 10 + c)).collect();
                                k /= wide;
                                body += &format!("\n{ind}{}", cells.join(d));
                            }
                            for n in [rows.wrapping_sub(1), rows, rows + 1] {
                                if n < 9 {
                                    f(&format!("{head}[{n}{mark}]{{{names}}}:{body}{tail}"), 2);
                                }
                            }
                        }
                    }
                });
            }
        }
    });
    const CELLS: [&str; 9] = ["1", "", "\"\"", "\"q,r|s\"", "x y", "a: b", "- c", "\"d\"e", "null"];
    let len = if ctx.thorough { 4 } else { 3 };
    let k = CELLS.len() as u64;
    ctx.family("cell kinds", &format!("all rows of 1..{len} of {k} kinds of cell, inline and in the first and the last row of a table, 2 delimiters, in {} places", AT.len()), || {
        for n in 1..=len {
            ctx.par(k.pow(n), |mut i| {
                let row: Vec<&str> = (0..n).map(|_| {
                    let c = CELLS[(i % k) as usize];
                    i /= k;
                    c
                }).collect();
                for (d, mark) in [(",", ""), ("|", "|")] {
                    let (cells, plain, names) = (row.join(d), vec!["7"; n as usize].join(d), NAMES[..n as usize].join(d));
                    for (head, ind, tail) in AT {
                        f(&format!("{head}[{n}{mark}]: {cells}{tail}"), 2);
                        f(&format!("{head}[{}{mark}]: {cells}{tail}", n + 1), 2);
                        f(&format!("{head}[2{mark}]{{{names}}}:\n{ind}{cells}\n{ind}{plain}{tail}"), 2);
                        f(&format!("{head}[2{mark}]{{{names}}}:\n{ind}{plain}\n{ind}{cells}{tail}"), 2);
                        f(&format!("{head}[1{mark}]{{{names}}}:\n{ind}{plain}\n{ind}{cells}{tail}"), 2);
                    }
                }
            });
        }
    });
}
/// Every kind of array header under every kind of key at every place.
pub fn headers(ctx: &Ctx, f: Visit) {
    const KEYS: [&str; 7] = ["", "k", "\"k\"", "a.b", "\"a.b\"", "\"c d\"", "\"\""];
    const FIELDS: [&str; 6] = ["", "{x}", "{\"x\"}", "{x,\"y.z\"}", "{y.z,x}", "{\"p q\",\"\"}"];
    const BODY: [&str; 12] = ["", " 1", " 1,2", " \"\"", "\n@1", "\n@1,2", "\n@- 1", "\n@- 1\n@- 2", "\n@- x: 1\n@  \"y\": 2", "\n@1,2\n@3,4", "\n@- \"x\": 1\n@- y[0]:", "\n@x: 1"];
    // what comes before, the indentation of what follows, and what comes after
    const AT: [(&str, &str, &str); 9] = [
        ("", "  ", ""), ("", "  ", "\nz: 1"), ("y: 0\n", "  ", ""), ("o:\n  ", "    ", "\n\"z\": 1"), ("[1]:\n  - ", "    ", ""), ("[1]:\n  - ", "      ", "\n    z: 1"),
        ("[2]:\n  - ", "    ", "\n  - \"z\": 1"), ("l[1]:\n  - \"y\": 0\n    ", "      ", "\nz: 1"), ("\"l\"[1]:\n  - [1]:\n    - ", "        ", "\n      \"z\": 1"),
    ];
    let n = KEYS.len() * FIELDS.len() * BODY.len() * AT.len();
    ctx.family("headers", &format!("{} keys x {} field lists x {} bodies x {} places x lengths 0..3", KEYS.len(), FIELDS.len(), BODY.len(), AT.len()), || {
        ctx.par(n as u64, |i| {
            let i = i as usize;
            let (k, fi, b, (pre, ind, post)) = (KEYS[i % 7], FIELDS[i / 7 % 6], BODY[i / 42 % 12], AT[i / 42 / 12]);
            for len in 0..=3 {
                f(&format!("{pre}{k}[{len}]{fi}:{}{post}", b.replace('@', ind)), 2);
            }
        });
    });
}
/// Encodings of chains with an odd level, with one line moved by a step, doubled or left out.
pub fn odd_depths(ctx: &Ctx, f: Visit) {
    gv::odd_levels(ctx, &|v| {
        let text = enc::encode(v, EncOpt::DEFAULT);
        f(&text, 2);
        let l: Vec<&str> = text.split('\n').collect();
        // every line of every text is edited in one of 6 ways; the way goes with the line and the text
        let turn = text.len();
        for i in 0..l.len() {
            let mut e: Vec<String> = l.iter().map(|s| s.to_string()).collect();
            match (turn + i) % 6 {
                0 => e[i] = format!("  {}", l[i]),
                1 => e[i] = l[i].strip_prefix("  ").unwrap_or(l[i]).to_string(),
                2 => drop(e.remove(i)),
                3 => e.insert(i, l[i].to_string()),
                4 => e.insert(i, String::new()),
                _ => e.insert(i, format!("{}z: 9", " ".repeat(l[i].len() - l[i].trim_start().len()))),
            }
            f(&e.join("\n"), 2);
        }
    });
}
/// Runs of blank lines of every length around arrays with and without a blank line inside.
pub fn blanks(ctx: &Ctx, big: bool, f: Visit) {
    // `@` is a blank line or nothing
    const DOCS: [&str; 7] = [
        "a[3]:\n  - 1@\n  - 2\n  - 3",
        "[3]{f,g}:\n  1,2\n  3,4@\n  5,6",
        "k:\n  t[2]{f}:@\n    1\n    2",
        "a[2]:\n  - [2]:\n    - 1@\n    - 2\n  - 3",
        "a[1]:\n  - k: 1@\n    l: 2",
        "k: 1@\nl:\n  m: 2",
        "a[2]:\n  - t[2]{f}:\n      1@\n      2\n    u: 3\n  - 4",
    ];
    let sizes = gv::size_steps(if ctx.thorough { 300 } else if big { 140 } else { 20 }, big);
    ctx.family("blank runs", &format!("{} texts with and without a blank line in one place, with runs of every length up to {} of blank lines or lines of blanks before, after, between and inside", DOCS.len(), sizes[sizes.len() - 1]), || {
        ctx.par_grain(sizes.len() as u64, 1, |i| {
            let n = sizes[sizes.len() - 1 - i as usize];
            for (line, many) in ["\n", "\n  ", "\n      "].iter().map(|b| (*b, b.repeat(n))) {
                for d in DOCS {
                    for inner in ["", line] {
                        let d = d.replace('@', inner);
                        f(&format!("{}\n{d}", &many.get(1..).unwrap_or("")), 2);
                        f(&format!("{d}{many}"), 2);
                        if !d.starts_with('[') {
                            f(&format!("{d}{many}\nz: 1"), 2);
                            f(&format!("y[2]:\n  - 1\n  - 2{many}\n{d}"), 2);
                            f(&format!("{d}\ny[2]:\n  - 1{many}\n  - 2"), 2);
                        }
                    }
                    f(&d.replace('@', &many), 2);
                }
            }
        });
    });
}
pub fn more(ctx: &Ctx, big: bool, f: Visit) {
    blanks(ctx, big, f);
    headers(ctx, f);
    cells(ctx, f);
    literals(ctx, f);
    endings(ctx, f);
    late(ctx, big, f);
    odd_lines(ctx, big, f);
    lengths(ctx, f);
    if big {
        huge(ctx, false, f);
    }
}
pub fn all(ctx: &Ctx, z: Size, f: Visit) {
    more(ctx, true, f);
    line_docs(ctx, z, f);
    char_docs(ctx, z, f);
    neighbours(ctx, z, f);
    odd_depths(ctx, f);
    let _ = gv::n(0.0);
}
