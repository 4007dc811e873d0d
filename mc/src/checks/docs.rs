//! Checks over texts: the decoder.
use crate::engine::{Ctx, guard, jstr, pow, word};
use crate::gen_docs as gd;
use crate::gen_values as gv;
use crate::model::dec::{self, Bad};
use crate::model::enc::{self, EncOpt};
use crate::model::value::{E, V, s, show_events};
use crate::model::{events, expand};
use crate::real;

pub fn case(text: &str, indent: usize, strict: bool) -> String {
    format!("{{\"text\":{},\"indent\":{indent},\"strict\":{strict}}}", jstr(text))
}

/// C03 and C04: one mode of the decoder against the reference decoder.
fn decode_case(ctx: &Ctx, text: &str, indent: usize, strict: bool) {
    let lines = real::split(text);
    let want = dec::decode_events(&lines, indent, strict);
    let got = real::decode(text, indent, strict, false);
    ctx.add(1, lines.len() as u64, 1);
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            let w = events::build(w).map(|n| n.value());
            if w.as_ref() != Some(g) {
                ctx.fail(&case(text, indent, strict), &format!("decoded to {}, the format says {}", g.show(), w.map_or("(model error)".into(), |w| w.show())));
            }
        }
        (Err(_), Err(f)) if !f.panic => {}
        (Ok(w), Err(f)) => ctx.fail(&case(text, indent, strict), &format!("rejected ({}), the format says {}", f.msg, show_events(w))),
        (Err(b), Ok(g)) => ctx.fail(&case(text, indent, strict), &format!("accepted as {}, but: {} (line {:?})", g.show(), b.1, b.0)),
        (Err(_), Err(f)) => ctx.fail(&case(text, indent, strict), &format!("panicked: {}", f.msg)),
    }
    if !strict
        && let Ok(s) = real::decode(text, indent, true, false)
        && Some(&s) != got.as_ref().ok()
    {
        ctx.fail(&case(text, indent, strict), &format!("strict gives {}, lenient {:?}", s.show(), got.map(|g| g.show())));
    }
    ctx.tally(match (&want, strict) {
        (Ok(_), _) => "accepted",
        (Err(b), _) => b.1,
    });
}
pub fn c03(ctx: &Ctx) {
    gd::all(ctx, gd::Size::of(ctx), &|t, i| decode_case(ctx, t, i, true));
}
pub fn c04(ctx: &Ctx) {
    gd::all(ctx, gd::Size::of(ctx), &|t, i| decode_case(ctx, t, i, false));
}

// ---------------------------------------------------------------- C05

/// Whether `r` is `o` cut short: arrays complete, objects a prefix of their members.
fn cut_of(r: &V, o: &V, chars: bool) -> bool {
    match (r, o) {
        (V::Arr(a), V::Arr(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).enumerate().all(|(i, (x, y))| if i + 1 == a.len() { cut_of(x, y, chars) } else { x == y })
        }
        (V::Obj(a), V::Obj(b)) => {
            a.len() <= b.len()
                && a.iter().zip(b).enumerate().all(|(i, (x, y))| {
                    x.0 == y.0 && if i + 1 == a.len() { cut_of(&x.1, &y.1, chars) } else { x.1 == y.1 }
                })
        }
        (V::Arr(_), _) => false,
        (V::Obj(m), _) => m.is_empty() && chars,
        _ if chars => true,
        _ => r == o,
    }
}
fn complete_arrays(ctx: &Ctx, text: &str, indent: usize) {
    let lines = real::split(text);
    ctx.add(1, lines.len() as u64, 1);
    match real::events(&lines, indent, true) {
        Ok(ev) => {
            ctx.tally("accepted");
            if events::build(&ev).is_none() || !events::lengths_match(&ev) {
                ctx.fail(&case(text, indent, true), &format!("accepted with a declared length that is not the number of elements: {}", show_events(&ev)));
            } else if let Err(b) = dec::decode_events(&lines, indent, true)
                && matches!(b.1, "count mismatch" | "too many rows" | "too many items")
            {
                ctx.fail(&case(text, indent, true), &format!("accepted in spite of: {}", b.1));
            }
        }
        Err(f) if f.panic => ctx.fail(&case(text, indent, true), &f.msg),
        Err(_) => ctx.tally("rejected"),
    }
}
fn cuts(ctx: &Ctx, v: &V, o: EncOpt) {
    let Ok(text) = real::encode(v, o) else { return };
    let full = enc::round_tripped(v, false);
    let check = |t: &str, chars: bool| {
        ctx.add(1, 1, 1);
        match real::decode(t, o.indent, true, false) {
            Ok(r) => {
                ctx.tally("cut accepted");
                let blank = t.trim().is_empty() && r == V::Obj(vec![]);
                if !blank && !cut_of(&r, &full, chars) {
                    ctx.fail(&case(t, o.indent, true), &format!("cut from {text:?}, decodes to {}", r.show()));
                }
            }
            Err(_) => ctx.tally("cut rejected"),
        }
    };
    for (i, c) in text.char_indices() {
        if c == '\n' {
            check(&text[..i], false);
            check(&text[..=i], false);
        } else if i > 0 {
            check(&text[..i], true);
        }
    }
    check(&text, false);
}
pub fn c05(ctx: &Ctx) {
    let z = gv::Size::of(ctx);
    let some = |v: &V| {
        for (indent, delim) in [(2, ','), (1, '|'), (4, '\t')] {
            cuts(ctx, v, EncOpt { indent, delim, ..EncOpt::DEFAULT });
        }
    };
    gv::trees(ctx, z.tree - 1, &[gv::n(12.0), s("a,b")], &["a", "b c"], &some);
    gv::trees(ctx, z.tree, &[gv::n(12.0)], &["a", "b"], &|v| cuts(ctx, v, EncOpt::DEFAULT));
    gv::layouts(ctx, &|v| cuts(ctx, v, EncOpt::DEFAULT));
    let f = |t: &str, i: usize| complete_arrays(ctx, t, i);
    let d = gd::Size::of(ctx);
    gd::more(ctx, true, &f);
    gd::neighbours(ctx, d, &f);
    gd::line_docs(ctx, d, &f);
    gd::char_docs(ctx, gd::Size::small(ctx), &f);
    // every count against every declared length, in every array form
    ctx.family("count sweep", "declared lengths 0..=40 and around 100/256/1000 against actual counts, 6 array forms", || {
        let mut sizes: Vec<usize> = (0..=40).collect();
        sizes.extend([99, 100, 101, 255, 256, 257, 999, 1000, 1001]);
        let n = sizes.len() as u64;
        ctx.par(n * n, |i| {
            let (want, got) = (sizes[(i % n) as usize], sizes[(i / n) as usize]);
            let rep = |lead: &str, x: &str, sep: &str| {
                let v: Vec<String> = (0..got).map(|_| x.to_string()).collect();
                if got == 0 { String::new() } else { format!("{lead}{}", v.join(sep)) }
            };
            for t in [
                format!("a[{want}]:{}", rep(" ", "1", ",")),
                format!("[{want}|]:{}", rep(" ", "1", "|")),
                format!("a[{want}]:{}", rep("\n  - ", "1", "\n  - ")),
                format!("a[{want}]{{f,g}}:{}\nb: 1", rep("\n  ", "1,2", "\n  ")),
                format!("[1]:\n  - [{want}]:{}", rep("\n    - ", "k: 1", "\n    - ")),
                format!("[1]:\n  - x[{want}]{{f}}:{}", rep("\n      ", "7", "\n      ")),
                format!("[1]{{{}}}:\n  {}", rep("", "f", ","), (0..want).map(|_| "1").collect::<Vec<_>>().join(",")),
            ] {
                complete_arrays(ctx, &t, 2);
                if want != got && !(t.starts_with("[1]{") && (want == 0 || got == 0))
                    && real::decode(&t, 2, true, false).is_ok()
                {
                    ctx.fail(&case(&t, 2, true), &format!("declared {want}, present {got}, accepted"));
                }
            }
        });
    });
}

// ---------------------------------------------------------------- C08

fn expand_case(ctx: &Ctx, text: &str, indent: usize) {
    let lines = real::split(text);
    // the documented bound on the depth of expansion is C06's and C23's matter
    if text.len() > 60 && lines.iter().any(|l| l.bytes().filter(|b| *b == b'.').count() > 59) {
        return;
    }
    for strict in [true, false] {
        let node = dec::decode_events(&lines, indent, strict).ok().and_then(|e| events::build(&e));
        for on in [true, false] {
            ctx.add(1, lines.len() as u64, 1);
            let want = match &node {
                None => Err("malformed text"),
                Some(n) if on => expand::expand(n, strict).map_err(|_| "conflicting paths"),
                Some(n) => Ok(n.value()),
            };
            let got = real::decode(text, indent, strict, on);
            let c = || format!("{{\"text\":{},\"indent\":{indent},\"strict\":{strict},\"expand\":{on}}}", jstr(text));
            match (&want, &got) {
                (Ok(w), Ok(g)) if w == g => ctx.tally(if on { "expanded" } else { "plain" }),
                (Err(w), Err(f)) if !f.panic => ctx.tally(w),
                (Ok(w), Ok(g)) => ctx.fail(&c(), &format!("gives {}, documented {}", g.show(), w.show())),
                (Ok(w), Err(f)) => ctx.fail(&c(), &format!("fails ({}), documented {}", f.msg, w.show())),
                (Err(w), Ok(g)) => ctx.fail(&c(), &format!("gives {}, should fail: {w}", g.show())),
                (Err(_), Err(f)) => ctx.fail(&c(), &format!("panicked: {}", f.msg)),
            }
        }
    }
}
pub fn c08(ctx: &Ctx) {
    let t = ctx.thorough;
    let lines = gd::indented(
        &["a:", "b: 1", "a.b: 2", "a.b.c: 3", "\"a.b\": 4", "a.b:", "a: 5", "c: 6", "a.b[1]: 7", "a[1]{b.c}:", "a[1]:", "- a.b: 8", "9", "b.c:", "c.d: 0", "\"a\": 1", "-"],
        &[0, 2, 4],
    );
    gd::more(ctx, false, &|t, i| expand_case(ctx, t, i));
    gd::lines_family(ctx, "dotted lines", &lines, 3, 2, &|t, i| expand_case(ctx, t, i));
    let roots = ["a: 1", "a.b: 2", "a.b.c: 3", "a.c: 4", "\"a.b\": 5", "a:", "  b: 6", "  b.c: 7", "  b:", "    c: 8", "    d: 9", "b.a: 0", "a.b[2]: 1,2", "a.b:", "a[0]:"].map(String::from);
    gd::lines_family(ctx, "path merges", &roots, if t { 6 } else { 5 }, 2, &|t, i| expand_case(ctx, t, i));
    // every short key
    let ka = ['a', 'b', '.', '1', '_', '-', ' ', '\u{e9}', 'Z', '"'];
    ctx.family("key words", "all keys of at most 6 characters over 10, alone and before and after a dotted key", || {
        for len in 1..=(if t { 7 } else { 6 }) {
            ctx.par(pow(ka.len(), len), |i| {
                let w = word(&ka, len, i);
                for (a, b) in [("", ": 1"), ("a.b: 0\n", ": 1"), ("", ": 1\na.b: 0"), ("", "[1]: 1\na: 2"), ("x[1]{", "}:\n  1")] {
                    expand_case(ctx, &format!("{a}{w}{b}"), 2);
                    if len > 4 {
                        break;
                    }
                }
            });
        }
    });
    // pairs and triples of paths with every kind of value
    let paths = ["a", "a.b", "a.b.c", "a.c", "b", "a.b.c.d", "\"a.b\"", "\"a\"", "a.1", "a."];
    let vals = [": 1", ": x", ":", ":\n@  b: 2", ":\n@  b.c: 3", ":\n@  c:\n@    d: 4", "[1]: 5", "[1]{b.c}:\n@  6", "[1]:\n@  - b.c: 7"];
    let one: Vec<String> = paths.iter().flat_map(|p| vals.iter().map(move |v| format!("@{p}{v}"))).collect();
    let n = one.len() as u64;
    ctx.family("path triples", "all sequences of 1..3 members over 10 paths and 9 kinds of value, at the root, nested and in a list item", || {
        for len in 1..=3u32 {
            ctx.par(n.pow(len), |mut i| {
                let mut m = vec![];
                for _ in 0..len {
                    m.push(one[(i % n) as usize].as_str());
                    i /= n;
                }
                let m = m.join("\n");
                expand_case(ctx, &m.replace('@', ""), 2);
                if len < 3 || t {
                    expand_case(ctx, &format!("r.s:\n{}", m.replace('@', "  ")), 2);
                    expand_case(ctx, &format!("[1]:\n  - z: 0\n{}", m.replace('@', "    ")), 2);
                }
            });
        }
    });
    // every kind of value an expanded path can end in, alone and before a path that needs it
    let ends = [": 1", ": null", ": \"\"", ": \"x.y\"", ":", "[0]:", "[1]: 0", "[2]: 1,2", "[1]:\n@  - []", "[1]:\n@  - [0]:", "[1]:\n@  -", "[1]:\n@  - p.q: 1", "[1]:\n@  - p.q[0]:", "[1]:\n@  - [1]: 1", "[1]{p.q}:\n@  1", "[0]{p.q}:", ":\n@  p[0]:", ":\n@  p.q[0]:", ":\n@  p.q:", ":\n@  p:\n@    q.r: 1"];
    let ps = ["a", "a.b", "a.b.c", "\"a.b\"", "a.c", "\"a\".b", "a.b.p", "_.b", "a1.b2"];
    let one: Vec<String> = ps.iter().flat_map(|p| ends.iter().map(move |v| format!("@{p}{v}"))).collect();
    let n = one.len() as u64;
    ctx.family("path ends", &format!("all sequences of 1..2 members over {} paths and {} kinds of value, at the root, nested, in list items and beside a third member", ps.len(), ends.len()), || {
        for len in 1..=2u32 {
            ctx.par(n.pow(len), |mut i| {
                let mut m = vec![];
                for _ in 0..len {
                    m.push(one[(i % n) as usize].as_str());
                    i /= n;
                }
                let m = m.join("\n");
                for (lead, ind) in [("", ""), ("r.s:\n", "  "), ("r:\n", "  "), ("[1]:\n  - z: 0\n", "    "), ("[2]:\n  - z: 0\n  - y: 1\n", "    "), ("a.b.c.d: 9\n", ""), ("k[1]:\n  - r.s:\n", "      ")] {
                    expand_case(ctx, &format!("{lead}{}", m.replace('@', ind)), 2);
                }
            });
        }
    });
    // dotted keys at every place of every small document
    let (small, leaf) = (if t { 8 } else { 7 }, [gv::n(1.0)]);
    let mut keysets = vec![(small, vec!["x.y", "x"]), (small - 1, vec!["a.b", "a", "a.b.c"])];
    if t {
        keysets.push((7, vec!["a.b", "a.c", "a", "a.b.c.d"]));
    }
    for (n, keys) in &keysets {
        gv::trees(ctx, *n, &leaf, keys, &|v| expand_case(ctx, &enc::encode(v, EncOpt::DEFAULT), 2));
    }
    let top = if t { 9 } else { 8 };
    let fo = gv::Forests::new(top);
    ctx.family("folded nestings", &format!("the folded texts of every nesting of objects with at most {top} members, flatten depths 2, 3 and unlimited, whole and with any two lines exchanged"), || {
        for n in 1..=top {
            ctx.par(fo.count(n), |i| {
                let v = fo.get(n, i, &gv::n(1.0));
                for flatten in [2, 3, usize::MAX] {
                    let text = enc::encode(&v, EncOpt { fold: true, flatten, ..EncOpt::DEFAULT });
                    expand_case(ctx, &text, 2);
                    if n < top || t {
                        let l: Vec<&str> = text.split('\n').collect();
                        for p in 0..l.len() {
                            for q in p + 1..l.len() {
                                let mut l = l.clone();
                                l.swap(p, q);
                                expand_case(ctx, &l.join("\n"), 2);
                            }
                        }
                    }
                }
            });
        }
    });
    let forms = ["a: @", "a.b: @", "a.b.c: @", "a:\n  b: @", "a:\n  b.c: @", "a:\n  b:\n    c: @", "a.b:\n  c: @", "a:\n  d: 0\n  b: @", "a.d: 0\na.b: @", "a[1]{b}:\n  @", "\"a\": @", "a:\n  \"b\": @", "a:\n  b: @\n  b: @", "[1]:\n  - a.b: @"];
    let vals = ["null", "\"\"", "0", "x", "", "false", "true", "-0", "\"null\"", "1", "[", "\"a.b\""];
    let of = |vals: &[&str]| -> Vec<String> { forms.iter().flat_map(|f| vals.iter().filter_map(|v| if v.is_empty() && f.contains('{') { None } else { Some(f.replace('@', v)) }).collect::<Vec<_>>()).chain(["a.b[0]:", "a:\n  b[0]:", "a[0]:", "a:\n  b[1]: null", "a.b[1]: 1"].map(String::from)).collect() };
    let many = if t { 12 } else { 5 };
    ctx.family("merged values", &format!("all sequences of 1..2 members over {} forms with {} values each, of 3 members with {many} values each", forms.len(), vals.len()), || {
        for len in 1..=3u32 {
            let one = of(&vals[..if len == 3 { many } else { vals.len() }]);
            let m = one.len() as u64;
            ctx.par(m.pow(len), |mut i| {
                let mut d: Vec<&str> = vec![];
                for _ in 0..len {
                    d.push(&one[(i % m) as usize]);
                    i /= m;
                }
                expand_case(ctx, &d.join("\n"), 2);
                if len < 3 || t {
                    expand_case(ctx, &format!("r:\n  {}", d.join("\n").replace('\n', "\n  ")), 2);
                }
            });
        }
    });
    let keys = if t { 4 } else { 3 };
    let mut sets: Vec<Vec<(usize, usize)>> = vec![];
    let mut grow: Vec<Vec<(usize, usize)>> = vec![vec![]];
    for _ in 0..keys {
        grow = grow.iter().flat_map(|m| (0..keys * 3).filter(|c| m.iter().all(|x| x.0 != c / 3)).map(|c| [&m[..], &[(c / 3, c % 3)]].concat()).collect::<Vec<_>>()).collect();
        sets.extend(grow.iter().cloned());
    }
    let m = sets.len() as u64;
    ctx.family("merged objects", &format!("all pairs of objects of 1..{keys} members in every order, values a number or one of two objects, put under one name by nesting, dotted keys, or a dotted name"), || {
        ctx.par(m * m, |i| {
            let (x, y) = (&sets[(i / m) as usize], &sets[(i % m) as usize]);
            let inner = ["", "p", "q"];
            let lines = |v: &[(usize, usize)], pre: &str, nested: bool, num: usize| -> String {
                v.iter()
                    .map(|(k, what)| {
                        let k = ["x", "y", "z", "w"][*k];
                        match (inner[*what], nested) {
                            ("", _) => format!("{pre}{k}: {num}\n"),
                            (q, true) => format!("{pre}{k}:\n{}{q}: {num}\n", " ".repeat(pre.len() - pre.trim_start().len() + 2)),
                            (q, false) => format!("{pre}{k}.{q}: {num}\n"),
                        }
                    })
                    .collect()
            };
            let forms = [
                format!("{}a:\n{}", lines(x, "a.", false, 1), lines(y, "  ", true, 2)),
                format!("a:\n{}a:\n{}", lines(x, "  ", true, 1), lines(y, "  ", false, 2)),
                format!("a.b:\n{}a:\n{}", lines(x, "  ", false, 1), lines(y, "  b.", false, 2)),
                format!("a:\n{}{}", lines(x, "  ", true, 1), lines(y, "a.", true, 2)),
            ];
            let pick = i as usize % 4;
            expand_case(ctx, forms[pick].trim_end(), 2);
            if x.len() + y.len() < 6 {
                expand_case(ctx, forms[(pick + 1 + (i / m) as usize % 3) % 4].trim_end(), 2);
            }
        });
    });
    let sizes = gv::size_steps(if t { 140 } else { 66 }, true);
    ctx.family("wide merges", &format!("pairs of members over {} paths and {} kinds of value (all pairs up to 9, then a fixed subset) with up to {} plain, dotted or quoted members before, between or after them", ps.len(), ends.len(), sizes[sizes.len() - 1]), || {
        ctx.par_grain(sizes.len() as u64, 1, |i| {
            let w = sizes[sizes.len() - 1 - i as usize];
            let fill: Vec<String> = ["e#: 1", "e.f#: 1", "e#.f: 1", "\"e.f#\": 1", "e#:"].iter().map(|f| (0..w).map(|j| format!("{}\n", f.replace('#', &j.to_string()))).collect()).collect();
            let some = if w < 70 && (w % 8 < 3 || t) { 1 } else if w < 300 { 5 } else { 17 };
            for x in (0..n).step_by(some) {
                for y in (x % 7..n).step_by(if w < 10 { some } else { 7 * some }) {
                    let (p, q) = (one[x as usize].replace('@', ""), one[y as usize].replace('@', ""));
                    let g = &fill[((x + y) % 5) as usize];
                    match (x + y / 7) % 3 {
                        0 => expand_case(ctx, &format!("{p}\n{g}{q}"), 2),
                        1 => expand_case(ctx, &format!("{g}{p}\n{q}"), 2),
                        _ => expand_case(ctx, &format!("{p}\n{q}\n{}", g.trim_end()), 2),
                    }
                }
            }
        });
    });
    ctx.family("path lengths", "chains of 1..60 segments merged with a sibling at every prefix", || {
        ctx.par(60, |d| {
            let d = d as usize + 1;
            for k in 1..=d {
                let p = |n: usize, last: &str| (0..n).map(|i| if i + 1 == n { last.into() } else { format!("k{i}") }).collect::<Vec<_>>().join(".");
                expand_case(ctx, &format!("{}: 1\n{}: 2", p(d, "x"), p(k, "y")), 2);
                expand_case(ctx, &format!("{}: 1\n{}: 2", p(d, "x"), p(k, "x")), 2);
            }
        });
    });
}

// ---------------------------------------------------------------- C09

fn stream_case(ctx: &Ctx, text: &str, indent: usize) {
    let lines = real::split(text);
    for strict in [true, false] {
        ctx.add(1, lines.len() as u64, 1);
        let c = || case(text, indent, strict);
        let ev = real::events(&lines, indent, strict);
        let direct = real::decode(text, indent, strict, false);
        match (ev, direct) {
            (Ok(ev), Ok(d)) => match events::build(&ev) {
                None => ctx.fail(&c(), &format!("not a well-formed traversal: {}", show_events(&ev))),
                Some(n) if n.value() != d => ctx.fail(&c(), &format!("events denote {}, decoding gives {}", n.value().show(), d.show())),
                Some(n) => {
                    if let Ok(w) = dec::decode_events(&lines, indent, strict)
                        && quotes(&w) != quotes(&ev)
                    {
                        ctx.fail(&c(), &format!("keys marked as quoted or not as {:?}, written as {:?}", quotes(&ev), quotes(&w)));
                    }
                    if strict && !events::lengths_match(&ev) {
                        ctx.fail(&c(), &format!("array start without the number of its elements: {}", show_events(&ev)));
                    }
                    if !strict && let Ok(w) = dec::decode_events(&lines, indent, strict) && lengths(&w) != lengths(&ev) {
                        ctx.fail(&c(), &format!("declared lengths {:?}, announced {:?}", lengths(&w), lengths(&ev)));
                    }
                    let re: Vec<_> = ev.iter().map(E::to_real).collect();
                    match real::call(|| toon::decode::event_builder::build_node_from_events(re).map(toon::decode::event_builder::node_to_json)) {
                        Ok(b) if V::from_real(&b) == n.value() => {}
                        other => ctx.fail(&c(), &format!("building from the events gives {other:?}")),
                    }
                }
            },
            (Err(a), Err(b)) if !a.panic && !b.panic => {}
            (a, b) => ctx.fail(&c(), &format!("events: {:?}, value: {:?}", a.map(|e| show_events(&e)), b.map(|v| v.show()))),
        }
    }
}
fn quotes(ev: &[E]) -> Vec<(&str, bool)> {
    ev.iter().filter_map(|e| if let E::Key(k, q) = e { Some((k.as_str(), *q)) } else { None }).collect()
}
fn lengths(ev: &[E]) -> Vec<usize> {
    ev.iter().filter_map(|e| if let E::SA(n) = e { Some(*n) } else { None }).collect()
}
fn both_ways(ctx: &Ctx, v: &V, o: EncOpt) {
    ctx.add(1, 1, 1);
    let c = || super::values::case(v, o);
    let mut want = vec![];
    enc::events(v, &mut want);
    let r = v.to_real();
    match guard(|| toon::encode_stream_events(r, Some(o.to_real()))) {
        Ok(e) => {
            let e: Vec<E> = e.iter().map(E::from_real).collect();
            if e != want {
                return ctx.fail(&c(), &format!("events {}, the value is {}", show_events(&e), show_events(&want)));
            }
        }
        Err(p) => return ctx.fail(&c(), &format!("panicked: {p}")),
    }
    // decoding sees table rows in header order
    let mut want = vec![];
    enc::events(&enc::round_tripped(v, false), &mut want);
    let Ok(t) = real::encode(v, o) else { return ctx.fail(&c(), "encoder panicked") };
    match real::events(&real::split(&t), o.indent, true) {
        Ok(e) if e == want => {}
        other => ctx.fail(&c(), &format!("decoding the encoding gives {:?}, the value is {}", other.map(|e| show_events(&e)), show_events(&want))),
    }
}
pub fn c09(ctx: &Ctx) {
    gd::all(ctx, gd::Size::small(ctx), &|t, i| stream_case(ctx, t, i));
    let z = gv::Size::of(ctx);
    let all = |v: &V| {
        for (indent, delim) in [(2, ','), (1, '|'), (3, '\t')] {
            both_ways(ctx, v, EncOpt { indent, delim, ..EncOpt::DEFAULT });
        }
    };
    gv::trees(ctx, z.tree, &gv::basic_leaves(), &["a", "b c"], &all);
    gv::strings(ctx, gv::Size { tok: 3, ..z }, &|t| both_ways(ctx, &gv::everywhere(t), EncOpt::DEFAULT));
    gv::layouts(ctx, &|v| both_ways(ctx, v, EncOpt::DEFAULT));
    gv::sweeps(ctx, z, &|v| both_ways(ctx, v, EncOpt::DEFAULT));
    gv::deviants(ctx, true, &|v| both_ways(ctx, v, EncOpt::DEFAULT));
    gv::single_deviants(ctx, &|v| both_ways(ctx, v, EncOpt::DEFAULT));
    gv::odd_levels(ctx, &|v| both_ways(ctx, v, EncOpt::DEFAULT));
    gv::huge(ctx, &|v| both_ways(ctx, v, EncOpt::DEFAULT));
}

// ---------------------------------------------------------------- C20

fn all_lines_used(ctx: &Ctx, text: &str, indent: usize) {
    let lines = real::split(text);
    ctx.add(1, lines.len() as u64, 1);
    let c = || case(text, indent, true);
    let v = match real::decode(text, indent, true, false) {
        Ok(v) => v,
        Err(f) if f.panic => return ctx.fail(&c(), &f.msg),
        Err(_) => return ctx.tally("rejected"),
    };
    ctx.tally("accepted");
    if let Err(b) = dec::decode_events(&lines, indent, true)
        && b.1 == "line fits no open structure"
    {
        return ctx.fail(&c(), &format!("accepted as {}, but line {} belongs to nothing", v.show(), b.0.unwrap_or(0)));
    }
    // leaving out any used line changes what is decoded
    for (i, l) in lines.iter().enumerate() {
        if l.trim().is_empty() || lines.len() > 40 && i > 2 && i + 4 < lines.len() && i % (lines.len() / 8) != 3 {
            continue;
        }
        let mut cut = lines.clone();
        cut.remove(i);
        if real::decode(&cut.join("\n"), indent, true, false).as_ref() == Ok(&v) {
            return ctx.fail(&c(), &format!("accepted as {}, the same as without line {}", v.show(), i + 1));
        }
        ctx.add(0, 1, 1);
    }
}
pub fn c20(ctx: &Ctx) {
    gd::all(ctx, gd::Size::of(ctx), &|t, i| all_lines_used(ctx, t, i));
}

// ---------------------------------------------------------------- C21

fn repeats_key(v: &V) -> bool {
    match v {
        V::Arr(a) => a.iter().any(repeats_key),
        V::Obj(m) => {
            let mut ks: Vec<&str> = m.iter().map(|x| x.0.as_str()).collect();
            ks.sort_unstable();
            ks.windows(2).any(|w| w[0] == w[1]) || m.iter().any(|x| repeats_key(&x.1))
        }
        _ => false,
    }
}
fn rewrite(ctx: &Ctx, text: &str, indent: usize, opts: &[EncOpt]) {
    let mut seen: Vec<V> = vec![];
    for (strict, expand) in [(true, false), (false, false), (false, true)] {
        let Ok(v) = real::decode(text, indent, strict, expand) else {
            ctx.tally("rejected");
            continue;
        };
        if seen.contains(&v) || repeats_key(&v) {
            ctx.tally("same value or repeated key");
            continue;
        }
        for o in opts {
            ctx.add(1, 2, 1);
            let c = || format!("{{\"text\":{},\"indent\":{indent},\"strict\":{strict},\"expand\":{expand},\"to_indent\":{},\"to_delimiter\":{}}}", jstr(text), o.indent, jstr(&o.delim.to_string()));
            let once = match real::encode(&v, *o) {
                Ok(t) => t,
                Err(p) => return ctx.fail(&c(), &format!("cannot encode {}: {p}", v.show())),
            };
            match real::decode(&once, o.indent, true, false) {
                Ok(b) if b == enc::round_tripped(&v, false) => match real::encode(&b, *o) {
                    Ok(t) if t == once => {}
                    other => return ctx.fail(&c(), &format!("{once:?} re-encodes as {other:?}")),
                },
                other => return ctx.fail(&c(), &format!("{} rewritten as {once:?} gives {:?}", v.show(), other.map(|v| v.show()))),
            }
        }
        ctx.tally("rewritten");
        seen.push(v);
    }
}
pub fn c21(ctx: &Ctx) {
    let o: Vec<EncOpt> = [(2, ','), (1, '|'), (4, '\t')].map(|(indent, delim)| EncOpt { indent, delim, ..EncOpt::DEFAULT }).to_vec();
    gd::all(ctx, gd::Size::of(ctx), &|t, i| rewrite(ctx, t, i, &o));
    // quoted strings that need their quotes, and some that do not
    let quoted = |x: &str| {
        let q = enc::quote(x);
        rewrite(ctx, &format!("k: {q}\n{q}: 1\nl[2]: {q},x\nt[1|]{{f|{q}}}:\n  {q}|{q}\nm[3]:\n  - {q}\n  - {q}: {q}\n  - [1]: {q}"), 2, &o[..2]);
        rewrite(ctx, &q, 2, &o[..1]);
    };
    gv::strings(ctx, gv::Size::of(ctx), &quoted);
    let num = ['0', '1', '5', '-', '+', '.', 'e', 'E', ' '];
    let top = if ctx.thorough { 7 } else { 6 };
    ctx.family("quoted numbers", &format!("all strings of at most {top} of 9 characters of numbers, quoted"), || {
        for len in 1..=top {
            ctx.par(pow(num.len(), len), |i| {
                let w = word(&num, len, i);
                if len < 6 {
                    quoted(&w);
                } else {
                    rewrite(ctx, &format!("k: {}\nl[1]: {w}", enc::quote(&w)), 2, &o[..1]);
                }
            });
        }
    });
    let top = if ctx.thorough { 5000 } else { 1300 };
    ctx.family("long quoted numbers", &format!("14 forms of number with every length up to {top}, quoted"), || {
        ctx.par_grain(top, 4, |n| {
            let d = "1".repeat(n as usize);
            let z = "0".repeat(n as usize);
            for w in [format!("{d}"), format!("-{d}"), format!("0.{d}"), format!("{d}.5"), format!("1e{d}"), format!("-1.5E-{d}"), format!("{z}1"), format!("1{z}"), format!("0.{z}1"), format!("{d}e1"), format!("1e+{z}"), format!("{d}."), format!("{d}x"), format!("{d}-")] {
                rewrite(ctx, &format!("k: {q}\n{q}: 1\nl[2]: {q},x\nt[1]{{f}}:\n  {q}", q = enc::quote(&w)), 2, &o[..1]);
            }
        });
    });
    gv::scalars(ctx, &|c| {
        let q = enc::quote(&c.to_string());
        rewrite(ctx, &format!("k[2]: {q},{c}\n{q}: {q}\nu: x{c}"), 2, &o[..1]);
    });
    // odd but accepted spellings in every position
    let spell = ["\u{a0}x", "x\u{a0}", "\u{feff}", "\u{2028}", "01", "1.", ".5", "+1", "1e5", "1E+2", "-0", "-0.0", "1e400", "0x1", "\"\"", "\"a\\tb\"", "TRUE", "nullx", "-", "--", "- a", "a b", "#c", "'q'", "\u{7f}", "\u{85}", "[a", "{a}", "a\"b", "\r", "x\r"];
    let fr = gd::frames();
    ctx.family("spellings", "all pairs of 31 unusual tokens joined by nothing, comma, colon or pipe, in every frame", || {
        let n = spell.len() as u64;
        ctx.par(n * n * 4, |i| {
            let w = format!("{}{}{}", spell[(i % n) as usize], ["", ",", ": ", "|"][(i / n / n) as usize], spell[(i / n % n) as usize]);
            for (a, b) in &fr {
                rewrite(ctx, &format!("{a}{w}{b}"), 2, &o);
            }
        });
    });
}

// ---------------------------------------------------------------- C22

fn named_line(ctx: &Ctx, text: &str, indent: usize) {
    let lines = real::split(text);
    ctx.add(1, lines.len() as u64, 1);
    let want = match dec::decode_events(&lines, indent, true) {
        Err(Bad(Some(n), _)) => n,
        Err(_) => return ctx.tally("rejected without a line"),
        Ok(_) => return ctx.tally("accepted"),
    };
    ctx.tally("rejected with a line");
    let l = lines.clone();
    let o = real::dopt(indent, true, false);
    let (o2, o3, o4) = (o.clone(), o.clone(), real::dopt(indent, true, true));
    let l2 = lines.clone();
    let so = toon::DecodeStreamOptions { indent: Some(indent), strict: Some(true) };
    let mut all: Vec<(&str, Option<real::Fault>)> = vec![
        ("try_decode", real::call(|| toon::try_decode(text, Some(o))).err()),
        ("try_decode_from_lines", real::call(|| toon::try_decode_from_lines(l, Some(o2))).err()),
        ("try_decode_stream_sync", real::call(|| toon::try_decode_stream_sync(l2, Some(so))).err()),
        ("decode_to_json_chunks", real::call(|| toon::cli::conversion::decode_to_json_chunks(text, Some(o3))).err()),
        ("decode_to_json_chunks expanding", real::call(|| toon::cli::conversion::decode_to_json_chunks(text, Some(o4))).err()),
    ];
    if indent == 2 {
        all.push(("toon_to_json", real::call(|| toon::toon_to_json(text)).err()));
    }
    for (name, f) in all {
        match f {
            Some(f) if f.line == Some(want) => {}
            Some(f) => ctx.fail(&case(text, indent, true), &format!("{name} names line {:?} ({}), at fault is {want}", f.line, f.msg)),
            None => ctx.fail(&case(text, indent, true), &format!("{name} accepts, line {want} is at fault")),
        }
    }
}
pub fn c22(ctx: &Ctx) {
    let d = gd::Size::of(ctx);
    let f = |t: &str, i: usize| named_line(ctx, t, i);
    gd::more(ctx, true, &f);
    gd::line_docs(ctx, d, &f);
    gd::neighbours(ctx, d, &f);
    let bad = ["\tx: 1", " x: 1", "   x: 1", "  \tx: 1", "\t", "", "  ", " \t y: 2", "      z: 1"];
    let bodies: Vec<Vec<&str>> = vec![
        vec!["a: 1", "b:", "  c: 2", "  d: 3"],
        vec!["t[3]{a,b}:", "  1,2", "  3,4", "  5,6", "z: 1"],
        vec!["l[3]:", "  - 1", "  - k: 2", "    m: 3", "  - [1]: 4", "z: 1"],
        vec!["[2]:", "  - [2]:", "    - 1", "    - t[2]{a}:", "        1", "        2", "  - x"],
    ];
    ctx.family("faults at every line", "1 or 2 of 9 faulty lines at every position of 4 bodies, behind 0..3 blank lines", || {
        let n = bad.len();
        ctx.par((bodies.len() * n * n * 4) as u64, |i| {
            let i = i as usize;
            let (b, x, y, pad) = (&bodies[i % 4], bad[i / 4 % n], bad[i / 4 / n % n], i / 4 / n / n);
            for p in 0..=b.len() {
                for q in p..=b.len() {
                    let mut l: Vec<&str> = vec![""; pad];
                    for (j, t) in b.iter().enumerate() {
                        if j == p {
                            l.push(x);
                        }
                        if j == q && q > p {
                            l.push(y);
                        }
                        l.push(t);
                    }
                    if p == b.len() {
                        l.push(x);
                    }
                    named_line(ctx, &l.join("\n"), 2);
                    if pad == 0 {
                        named_line(ctx, &l.join("\r\n"), 2);
                    }
                }
            }
        });
    });
    ctx.family("line number sweep", "a faulty line after 0..2000 good or blank lines", || {
        ctx.par(2001, |n| {
            for (lead, badl) in [("a: 1\n", " x: 1"), ("\n", "\tx: 1"), ("a: 1\n\n", "  \tx: 1"), ("a:\n", "    x: 1\n  y: 2")] {
                if n > 300 && n % 97 != 0 && !n.is_power_of_two() {
                    continue;
                }
                named_line(ctx, &format!("{}{badl}\nz: 1", lead.repeat(n as usize)), 2);
            }
            if n <= 300 && n > 0 {
                let k = n as usize;
                let mut t = format!("a[{k}]:");
                for i in 0..k {
                    t.push_str(if i == k - 1 && k > 1 { "\n\n  - 1" } else { "\n  - 1" });
                }
                named_line(ctx, &t, 2);
                named_line(ctx, &t.replace("]:", "]{f}:").replace("- ", ""), 2);
            }
        });
    });
}

// ---------------------------------------------------------------- C23

fn memory(ctx: &Ctx, text: &str, indent: usize) {
    for strict in [true, false] {
        for expand in [false, true] {
            ctx.add(1, 1, 1);
            let o = real::dopt(indent, strict, expand);
            let (r, peak) = crate::alloc::peak(|| real::call(|| toon::try_decode(text, Some(o))).map(|v| size(&v)));
            let out = r.as_ref().copied().unwrap_or(0);
            let bound = 65536 + 400 * (text.len() + out);
            if peak > bound {
                ctx.fail(&case(text, indent, strict), &format!("{peak} bytes for {} bytes of text and a value of {out} bytes (bound {bound})", text.len()));
            }
            if let Err(f) = &r && f.panic {
                ctx.fail(&case(text, indent, strict), &f.msg);
            }
        }
    }
}
fn size(v: &toon::JsonValue) -> usize {
    match v {
        toon::JsonValue::Array(a) => 32 + a.iter().map(size).sum::<usize>(),
        toon::JsonValue::Object(m) => 32 + m.iter().map(|(k, v)| 24 + k.len() + size(v)).sum::<usize>(),
        toon::JsonValue::Primitive(toon::JsonPrimitive::String(s)) => 32 + s.len(),
        toon::JsonValue::Primitive(_) => 32,
    }
}
pub fn c23(ctx: &Ctx) {
    // declared lengths: every digit count, powers of two and ten and their neighbours, the maximum
    let mut lens: Vec<String> = (0..=1100u64).map(|n| n.to_string()).collect();
    for e in 10..64 {
        lens.extend([(1u64 << e) - 1, 1u64 << e, (1u64 << e) + 1].map(|n| n.to_string()));
    }
    for d in 3..=40usize {
        let ten = format!("1{}", "0".repeat(d));
        lens.extend([ten.clone(), "9".repeat(d), format!("{}1", &ten[..d])]);
    }
    let m = dec::MAX_DECLARED as u64;
    lens.extend([m - 1, m, m + 1, m * 10, u64::MAX - 1, u64::MAX].map(|n| n.to_string()));
    lens.extend(["18446744073709551616", "36893488147419103232", "340282366920938463463374607431768211456"].map(String::from));
    for i in 0..lens.len() {
        if i % 7 == 0 || i > 1100 {
            let l = lens[i].clone();
            lens.extend([format!("0{l}"), format!("000{l}"), format!("+{l}"), format!("-{l}"), format!(" {l}"), format!("{l} "), format!("{l}.0"), format!("{l}e1")]);
        }
    }
    let forms = [
        "a[@]:", "a[@]: 1,2", "[@]:", "[@]: 1,2", "a[@|]: 1|2", "a[@\t]: 1", "a[@]:\n  - 1\n  - 2", "[@]:\n  - x: 1", "a[@]{b,c}:\n  1,2\n  3,4",
        "[@]{b}:\n  1", "\"a\"[@]{\"b\"}:\n  1", "[1]:\n  - [@]:\n    - 1", "[1]:\n  - [@]: 1", "[1]:\n  - a[@]{b}:\n      1", "[1]:\n  - a[@]:\n      - 1\n    c: 2",
        "x:\n  y:\n    a[@]{b}:\n      1\n  z: 1", "a[@]{b}:", "a[2]:\n  - b[@]: 1\n  - c[@]:",
    ];
    ctx.family("declared lengths", &format!("{} spellings of lengths in {} array forms, strict and lenient, with and without expansion", lens.len(), forms.len()), || {
        ctx.par(lens.len() as u64, |i| {
            let l = &lens[i as usize];
            let value: Option<u128> = l.strip_prefix('+').unwrap_or(l).parse().ok().filter(|_| l.chars().all(|c| c.is_ascii_digit()));
            for f in forms {
                let t = f.replace('@', l);
                memory(ctx, &t, 2);
                for strict in [true, false] {
                    let got = real::decode(&t, 2, strict, false);
                    let want = dec::decode_events(&real::split(&t), 2, strict);
                    ctx.add(1, 1, 1);
                    if got.is_ok() != want.is_ok() {
                        ctx.fail(&case(&t, 2, strict), &format!("{:?}, the documented answer is {:?}", got.as_ref().map(|v| v.show()), want.as_ref().map(|e| show_events(e))));
                    }
                    if let Some(n) = value {
                        ctx.tally(if n > m as u128 { "above the maximum" } else { "up to the maximum" });
                        if n > m as u128 && got.is_ok() {
                            ctx.fail(&case(&t, 2, strict), "a length above the maximum was accepted");
                        }
                        if n <= m as u128 && !strict && got.is_err() {
                            ctx.fail(&case(&t, 2, strict), "a length up to the maximum was rejected in lenient mode");
                        }
                    }
                }
            }
        });
    });
    gd::all(ctx, gd::Size { broad: 3, structural: 4, chars: 4, ..gd::Size::small(ctx) }, &|t, i| memory(ctx, t, i));
    let d = gd::Size::small(ctx);
    gd::neighbours(ctx, d, &|t, i| memory(ctx, t, i));
    ctx.family("large texts", "texts of up to 64 KB of each repeated line, with small, right and huge declared lengths", || {
        let reps = [1usize, 10, 100, 1000, 3000];
        let bodies = ["\n  - 1", "\n  1,2", "\n  - a: 1\n    b: 2", "\n\n", "\n  x: \"\\\\\\\\\"", "\n  - [1]: 1"];
        ctx.par_grain((reps.len() * bodies.len() * 3) as u64, 1, |i| {
            let i = i as usize;
            let (r, b, k) = (reps[i % 5], bodies[i / 5 % 6], i / 30);
            let n = [2, r, 99_999_999][k];
            for h in ["a[@]:", "a[@]{b,c}:", "[@]:"] {
                memory(ctx, &format!("{}{}", h.replace('@', &n.to_string()), b.repeat(r)), 2);
            }
        });
    });
    let cells = ["1", "", "a", "\"a\"", "\"\"", "\"\\\\\"", "\"\\n\"", " x ", " \"x\" ", "\"x,y|z\"", "é", "\"é\"", "true", "-1.50", "\"a", "a.b", "\"a.b\""];
    let counts: &[usize] = if ctx.thorough { &[2, 10, 50, 300, 2000, 10_000, 40_000] } else { &[2, 50, 2000, 8000] };
    ctx.family("long rows", &format!("rows, field lists and lines of up to {} cells, every ordered pair of {} cells in turns, every delimiter", counts[counts.len() - 1], cells.len()), || {
        let k = cells.len();
        ctx.par_grain((k * k * counts.len()) as u64, 1, |i| {
            let i = i as usize;
            let (a, b, n) = (cells[i % k], cells[i / k % k], counts[i / k / k]);
            for d in [",", "|", "\t"] {
                let row = (0..n).map(|j| if j % 2 == 0 { a } else { b }).collect::<Vec<_>>().join(d);
                let m = if d == "," { "" } else { d };
                memory(ctx, &format!("[{n}{m}]: {row}"), 2);
                if a == b || n <= 2000 {
                    memory(ctx, &format!("k[2{m}]{{{}}}:\n  {row}\n  {row}", (0..n).map(|j| format!("f{j}")).collect::<Vec<_>>().join(d)), 2);
                    memory(ctx, &format!("k[1{m}]{{{row}}}:\n  {row}"), 2);
                }
            }
            if i / k % k == 0 {
                for line in [format!("{a}: {a}"), format!("- {a}"), format!("- {a}: {a}"), format!("  {a}[1]: {a}"), format!("k{a}: {a}"), a.to_string()] {
                    for head in ["", "k:\n", "[@]:\n", "k[@]{b}:\n", "k[@]:\n"] {
                        let t = format!("{}{}", head.replace('@', &n.to_string()), vec![format!("{}{line}", if head.is_empty() { "" } else { "  " }); n].join("\n"));
                        memory(ctx, &t, 2);
                    }
                }
            }
        });
    });
    // many things at every one of many levels: blank lines before, in and after, elements, and fields
    let depths: &[usize] = if ctx.thorough { &[1, 2, 5, 10, 25, 50, 75, 100, 150, 200] } else { &[1, 10, 50, 100] };
    let counts: &[usize] = if ctx.thorough { &[100, 1000, 5000, 20_000, 60_000] } else { &[1000, 20_000] };
    ctx.family("deep and long", &format!("{} nestings of depths up to {} with up to {} blank lines, elements, cells or members around or at the innermost level", 6, depths[depths.len() - 1], counts[counts.len() - 1]), || {
        ctx.par_grain((6 * 7 * depths.len() * counts.len()) as u64, 1, |i| {
            let i = i as usize;
            let (open, fill, d, n) = (i % 6, i / 6 % 7, depths[i / 42 % depths.len()], counts[i / 42 / depths.len()]);
            let mut t = String::new();
            for k in 0..d {
                let ind = "  ".repeat(k);
                t += &match open {
                    0 if k == 0 => "[1]:\n".into(),
                    0 => format!("{ind}- [1]:\n"),
                    1 => format!("{ind}k:\n"),
                    2 if k % 2 == 0 => format!("{ind}k[1]:\n"),
                    2 => format!("{ind}- a: 1\n{ind}  "),
                    3 => format!("{}k.l:\n", ind),
                    4 if k == 0 => "k[2]:\n".into(),
                    4 => format!("{ind}- 1\n{ind}- [2]:\n"),
                    5 => format!("{ind}k:\n{ind}  j: 1\n"),
                    _ => String::new(),
                };
                if open == 2 && k % 2 == 1 {
                    t.truncate(t.len() - 2);
                }
            }
            let ind = "  ".repeat(d);
            match fill {
                0 => t += &format!("{ind}x: 1\n{}", "\n".repeat(n)),
                1 => t = format!("{}{t}{ind}x: 1", "\n".repeat(n)),
                2 => t += &format!("{}{ind}x: 1", "\n".repeat(n)),
                3 => t += &format!("{ind}- 1\n{}{ind}- 1", "\n".repeat(n)),
                4 => t += &format!("{ind}x[{n}]: {}", vec!["1"; n].join(",")),
                5 => t += &format!("{ind}x[2]{{a,b}}:\n{ind}  1,{}\n{}{ind}  3,4", "z".repeat(n), "\n".repeat(n / 2)),
                _ => t += &(0..n.min(2000)).map(|j| format!("{ind}m{j}: 1\n")).collect::<String>(),
            }
            memory(ctx, &t, 2);
        });
    });
}
