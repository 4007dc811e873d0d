//! C06: no input and no setting makes a fallible entry point panic.
use super::docs::case;
use super::stream::block;
use crate::engine::{Ctx, SCALARS, guard, jstr, pow, word};
use crate::gen_docs as gd;
use crate::gen_values::{self as gv, Size};
use crate::model::value::{V, obj, s};
use std::sync::Arc;
use toon::cli::conversion;
use toon::options::{DecodeStreamOptions, EncodeOptions, KeyFoldingMode};

type Show = Result<(), String>;
fn shown<T>(r: toon::error::Result<T>) -> Show {
    match r {
        Ok(_) => Ok(()),
        Err(e) => {
            if e.to_string().is_empty() || format!("{e:?}").is_empty() {
                return Err("an error without text".into());
            }
            Ok(())
        }
    }
}
fn one(ctx: &Ctx, case: impl Fn() -> String, name: &str, f: impl FnOnce() -> Show) {
    match guard(f) {
        Ok(Ok(())) => {}
        Ok(Err(m)) => ctx.fail(&case(), &format!("{name} gives {m}")),
        Err(m) => ctx.fail(&case(), &format!("{name} panicked: {m}")),
    }
}
/// Decoding with all combinations of strictness and expansion.
fn core(ctx: &Ctx, text: &str, indent: usize) {
    ctx.add(1, 4, 4);
    for strict in [true, false] {
        for expand in [false, true] {
            let c = || format!("{{\"input\":{},\"expand\":{expand}}}", case(text, indent, strict));
            one(ctx, c, "try_decode", || shown(toon::try_decode(text, Some(crate::real::dopt(indent, strict, expand)))));
        }
    }
}
/// Every entry point that takes TOON text or lines.
fn text_calls(ctx: &Ctx, text: &str, indent: usize) {
    core(ctx, text, indent);
    let lines = crate::real::split(text);
    for strict in [true, false] {
        ctx.add(0, 5, 5);
        let c = || case(text, indent, strict);
        let so = || Some(DecodeStreamOptions { indent: Some(indent), strict: Some(strict) });
        let d = |x| Some(crate::real::dopt(indent, strict, x));
        one(ctx, c, "try_decode_from_lines", || shown(toon::try_decode_from_lines(lines.clone(), d(true))));
        one(ctx, c, "try_decode_stream_sync", || shown(toon::try_decode_stream_sync(lines.clone(), so())));
        one(ctx, c, "try_decode_stream", || shown(block(toon::try_decode_stream(lines.clone(), so()))));
        if indent <= 64 {
            one(ctx, c, "decode_to_json_chunks", || shown(conversion::decode_to_json_chunks(text, d(false))));
            one(ctx, c, "decode_to_json_chunks with expansion", || shown(conversion::decode_to_json_chunks(text, d(true))));
        }
        #[cfg(feature = "async-stream")]
        {
            use toon::decode::{AsyncDecodeStream, try_decode_async, try_decode_stream_async};
            one(ctx, c, "try_decode_async", || shown(block(try_decode_async(text, d(true)))));
            one(ctx, c, "try_decode_stream_async", || shown(block(try_decode_stream_async(lines.clone(), so()))));
            one(ctx, c, "AsyncDecodeStream", || {
                let mut st = AsyncDecodeStream::new(lines.clone().into_iter(), so());
                let mut n = 0;
                while let Some(x) = super::stream::full::poll(&mut st) {
                    shown(x)?;
                    n += 1;
                    if n > 100 * (text.len() + 10) {
                        return Err("no end of items".into());
                    }
                }
                Ok(())
            });
        }
    }
    if indent == 2 {
        ctx.add(0, 3, 3);
        let c = || case(text, indent, true);
        one(ctx, c, "toon_to_json", || shown(toon::toon_to_json(text)));
        one(ctx, c, "json_to_toon", || shown(toon::json_to_toon(text)));
        one(ctx, c, "encode_to_toon_lines", || shown(conversion::encode_to_toon_lines(text, None)));
        #[cfg(feature = "jsmock")]
        {
            one(ctx, c, "wasm decode", || toon::wasm::decode(text).map(drop).or(Ok(())));
            one(ctx, c, "wasm decode_pretty", || toon::wasm::decode_pretty(text).map(drop).or(Ok(())));
            one(ctx, c, "wasm encode", || toon::wasm::encode(text).map(drop).or(Ok(())));
        }
    }
}
fn eopt(indent: usize, delim: char, fold: bool, flatten: usize) -> EncodeOptions {
    EncodeOptions {
        indent: Some(indent),
        delimiter: Some(delim),
        key_folding: Some(if fold { KeyFoldingMode::Safe } else { KeyFoldingMode::Off }),
        flatten_depth: Some(flatten),
        replacer: None,
    }
}
/// Every entry point that takes a value.
fn value_calls(ctx: &Ctx, v: &V, indent: usize, delim: char, fold: bool, flatten: usize) {
    ctx.add(1, 4, 4);
    let c = || {
        let t: String = v.show().chars().take(3000).collect();
        format!("{{\"value\":{},\"indent\":{indent},\"delimiter\":{},\"fold\":{fold},\"flatten\":\"{flatten}\"}}", jstr(&t), jstr(&delim.to_string()))
    };
    let o = || eopt(indent, delim, fold, flatten);
    one(ctx, c, "encode", || {
        toon::encode(v.to_real(), Some(o()));
        Ok(())
    });
    one(ctx, c, "encode_lines", || {
        toon::encode_lines(v.to_real(), Some(o()));
        Ok(())
    });
    one(ctx, c, "encode_stream_events", || {
        toon::encode_stream_events(v.to_real(), Some(o()));
        Ok(())
    });
    one(ctx, c, "encode with replacer", || {
        let r = EncodeOptions { replacer: Some(Arc::new(|_, v, _| Some(v.clone()))), ..o() };
        toon::encode(v.to_real(), Some(r));
        Ok(())
    });
    one(ctx, c, "json writer", || {
        toon::cli::json_stringify::json_stringify_lines(&v.to_real(), indent.min(64));
        Ok(())
    });
}

const WIDE: [char; 24] = [
    'a', '1', '"', '\\', ':', '[', ']', '{', '}', ',', ' ', '-', '|', '.', '\t', '\r', '\0', '\u{e9}', '\u{a0}', '\u{85}', '\u{2028}',
    '\u{feff}', '\u{6f22}', '\u{1f600}',
];
const JSON_CHARS: [char; 16] = ['{', '}', '[', ']', '"', ':', ',', '\\', 'u', '1', '-', '.', 'e', 'd', '\u{e9}', ' '];
const READ_INDENTS: [usize; 9] = [0, 1, 3, 7, 64, 1 << 31, 1 << 32, usize::MAX / 2, usize::MAX];

fn small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, f).expect("thread").join().expect("small-stack thread")
    })
}
fn deep_texts(d: usize) -> Vec<String> {
    let sp = |n: usize| "  ".repeat(n);
    let chain = |f: &dyn Fn(usize) -> String| (0..d).map(|i| format!("{}{}", sp(i), f(i))).collect::<Vec<_>>().join("\n");
    let mut v = vec![
        chain(&|_| "a:".into()) + &format!("\n{}b: 1", sp(d)),
        chain(&|i| if i == 0 { "[1]:".into() } else { "- [1]:".into() }) + &format!("\n{}- 1", sp(d)),
        chain(&|i| if i == 0 { "a[1]:".into() } else { "- a[1]:".into() }) + &format!("\n{}- 1", sp(d)),
        // list items whose first member holds the next list
        (0..d).map(|i| if i == 0 { "a[1]:".to_string() } else { format!("{}- a[1]:", "    ".repeat(i - 1) + "  ") }).collect::<Vec<_>>().join("\n"),
        (0..d).map(|i| if i == 0 { "a[1]:".to_string() } else { format!("{}- b:\n{}a[1]:", "    ".repeat(i - 1) + "  ", "    ".repeat(i - 1) + "      ") }).collect::<Vec<_>>().join("\n"),
        chain(&|i| if i == 0 { "[1]:".into() } else { "-".into() }),
        chain(&|i| if i == 0 { "[1]:".into() } else { "- a:".into() }),
        format!("{}: 1", vec!["a"; d.max(1)].join(".")),
        format!("a:\n  {}: 1\n{}.b: 2", vec!["b"; d.max(1)].join("."), vec!["a"; d.max(1)].join(".")),
        format!("[1]: {}1", "- ".repeat(d)),
        format!("{}1", "- ".repeat(d)),
        format!("[1]:\n  {}1", "- ".repeat(d)),
        format!("{}1", "[1]: ".repeat(d)),
        format!("[1]:\n  {}1", "- [1]: ".repeat(d)),
        format!("[1]:\n{}", "  - a[1]{b}:\n".repeat(d)),
    ];
    for unit in ["[", "{", "\"", "\\", ":", ",", "[1]", "{a}", "\"a\"", "[1]{a}:", "\u{e9}", "\u{1f600}", "\\\"", " ", "\t", "\n", "1", "-", "a: ", "[\"", "\\n"] {
        v.push(unit.repeat(d));
        v.push(format!("a{}", unit.repeat(d)));
        v.push(format!("\"{}", unit.repeat(d)));
        v.push(format!("\"{}\": 1", unit.repeat(d)));
        v.push(format!("a[2]: {}", unit.repeat(d)));
        v.push(format!("a[{}]: x", unit.repeat(d)));
        v.push(format!("a[1]{{{}}}:\n  1", unit.repeat(d)));
    }
    for (a, b) in [("[", "]"), ("{\"a\":", "}"), ("[{\"a\":", "}]"), ("[[],", "]")] {
        v.push(format!("{}1{}", a.repeat(d), b.repeat(d)));
    }
    v
}
fn deep_values(d: usize) -> Vec<V> {
    (0..8)
        .map(|kind| {
            let mut v = match kind {
                4 => V::Arr(vec![]),
                5 => V::Obj(vec![]),
                _ => gv::n(1.0),
            };
            for l in 0..d {
                v = match kind {
                    0 | 5 => obj(vec![("a", v)]),
                    1 | 4 => V::Arr(vec![v]),
                    2 if l % 2 == 0 => obj(vec![("a", v), ("b", gv::n(2.0))]),
                    2 => V::Arr(vec![v, gv::n(3.0)]),
                    6 => V::Arr(vec![obj(vec![("a", v)])]),
                    7 => V::Arr(vec![obj(vec![("b", V::Null), ("a", v)]), V::Null]),
                    _ if l % 3 == 0 => obj(vec![("b", gv::n(2.0)), ("a", v)]),
                    _ => V::Arr(vec![v]),
                };
            }
            v
        })
        .collect()
}

pub fn c06(ctx: &Ctx) {
    let t = ctx.thorough;
    let fr = gd::frames();
    let len_alone = if t { 5 } else { 4 };
    ctx.family("characters", &format!("all texts of at most {len_alone} of {} characters (syntax, controls, multi-byte), one shorter in {} frames", WIDE.len(), fr.len()), || {
        for len in 0..=len_alone {
            ctx.par(pow(WIDE.len(), len), |i| {
                let w = word(&WIDE, len, i);
                ctx.note(|| jstr(&w));
                if len <= 3 {
                    text_calls(ctx, &w, 2);
                } else {
                    core(ctx, &w, 2);
                }
                if len < len_alone {
                    for (a, b) in &fr[1..] {
                        core(ctx, &format!("{a}{w}{b}"), 2);
                    }
                }
            });
        }
    });
    const TEMPLATES: [(&str, &str); 12] = [
        ("", ""), ("\"\\", "\": 1"), ("a[1", "]: x"), ("a[1]{b", "}:\n  1"), ("a[1]: \"", "\"x"), ("k: ", ""), ("- ", "a"), (" ", "a: 1"),
        ("a[1]", ": 1"), ("\"a\"", ": 1"), ("a[1]:\n  -", "x"), ("a", ".b: 1"),
    ];
    ctx.family("scalars", &format!("every Unicode scalar value in {} texts", TEMPLATES.len()), || {
        ctx.par(SCALARS, |i| {
            let Some(c) = char::from_u32(i as u32) else { return };
            for (a, b) in &TEMPLATES[..if t { 12 } else { 6 + (i as usize % 7) }] {
                let x = format!("{a}{c}{b}");
                ctx.add(1, 1, 1);
                one(ctx, || case(&x, 2, true), "try_decode", || shown(toon::try_decode(&x, None)));
            }
        });
    });
    let z = gd::Size::small(ctx);
    wide_text(ctx);
    gd::more(ctx, false, &|x, n| text_calls(ctx, x, n));
    gd::line_docs(ctx, gd::Size { broad: z.broad, structural: z.structural, narrow: z.narrow - 1, ..z }, &|x, n| text_calls(ctx, x, n));
    let zz = gd::Size::of(ctx);
    gd::line_docs(ctx, zz, &|x, n| core(ctx, x, n));
    gd::char_docs(ctx, zz, &|x, n| core(ctx, x, n));
    gd::neighbours(ctx, zz, &|x, n| core(ctx, x, n));
    gd::lines_family(ctx, "token lines", &gd::LINE_TOKENS.map(|x| format!("k{x}")), if t { 4 } else { 3 }, 2, &|x, n| core(ctx, x, n));
    ctx.family("reading indentations", &format!("texts of at most 3 lines over 16 lines, read with indentations {READ_INDENTS:?}"), || {
        let lines = gd::indented(&["a:", "- 1", "a[1]:", "- b: 1"], &[0, 1, 2, 64]);
        for len in 1..=3 {
            ctx.par(pow(lines.len(), len) * READ_INDENTS.len() as u64, |i| {
                let n = READ_INDENTS[(i % READ_INDENTS.len() as u64) as usize];
                let mut i = i / READ_INDENTS.len() as u64;
                let mut v = vec![];
                for _ in 0..len {
                    v.push(lines[(i % lines.len() as u64) as usize].as_str());
                    i /= lines.len() as u64;
                }
                let x = v.join("\n");
                if len < 3 { text_calls(ctx, &x, n) } else { core(ctx, &x, n) }
            });
        }
    });
    ctx.family("declared lengths", "around every power of two and ten up to 10^45, with signs, zeros, blanks and other digits, in 8 header forms", || {
        let mut l: Vec<String> = vec![];
        for e in 0..64 {
            let b = 1u128 << e;
            l.extend([b - 1, b, b + 1].map(|x| x.to_string()));
        }
        for e in 1..46 {
            l.extend([format!("{}", "9".repeat(e)), format!("1{}", "0".repeat(e)), format!("1{}1", "0".repeat(e - 1))]);
        }
        for x in l.clone().iter().step_by(9) {
            l.extend([format!("-{x}"), format!("+{x}"), format!("0{x}"), format!(" {x}"), format!("{x} "), format!("{x}.0"), format!("{x}e1"), format!("#{x}"), format!("\u{663}{x}")]);
        }
        ctx.par(l.len() as u64, |i| {
            let x = &l[i as usize];
            for form in ["a[@]: 1,2", "a[@]:", "a[@]:\n  - 1", "[@]:\n  - 1", "a[@]{b}:\n  1", "[@|]{b|c}:\n  1|2", "[@]:\n  - [@]: 1", "[1]:\n  - a[@]{b}:\n      1"] {
                text_calls(ctx, &form.replace('@', x), 2);
            }
        });
    });
    let depths: Vec<usize> = if t { (0..=300).collect() } else { (0..24).chain((24..300).step_by(12)).chain([63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257, 299, 300]).collect() };
    ctx.family("depths", "nested, repeated and dotted texts and values of depths up to 300, on threads with 2 MB of stack", || {
        ctx.par_grain(depths.len() as u64, 1, |i| {
            let d = depths[depths.len() - 1 - i as usize];
            ctx.note(|| format!("depth {d}"));
            for x in deep_texts(d) {
                small_stack(|| text_calls(ctx, &x, 2));
            }
            for v in deep_values(d) {
                small_stack(|| {
                    value_calls(ctx, &v, 2, ',', false, usize::MAX);
                    value_calls(ctx, &v, 1, '|', true, usize::MAX);
                    value_calls(ctx, &v, 0, '\t', true, 5);
                    value_calls(ctx, &v, 64, '\t', true, 2);
                });
            }
        });
    });
    // texts that do not nest, however long their lines
    let longs: &[usize] = if t { &[511, 1000, 1024, 2047, 4096, 10_000, 30_000, 65_535, 100_000, 300_000] } else { &[600, 2048, 20_000, 100_000] };
    let dotted = |n: usize| -> Vec<String> {
        let p = vec!["a"; n].join(".");
        vec![
            format!("{p}: 1"), format!("{p}:"), format!("{p}: 1\n{p}: 2"), format!("{p}.b: 1\n{p}.c: 2"), format!("a: 0\n{p}: 1"), format!("{p}: 1\na: 0"), format!("a:\n  a: 1\n{p}: 2"), format!("{p}[1]: 1"),
            format!("{p}[1]{{{p}}}:\n  1"), format!("[1]:\n  - {p}: 1"), format!("x:\n  {p}:\n    {p}: 1"), format!("\"{p}\": 1\n{p}: 2"), format!("a.{}: 1", ".".repeat(n)), format!("{p}.: 1"), format!("{p}:\n  {p}.b: 1\n{p}.{p}.c: 1"),
        ]
    };
    ctx.family("long paths", &format!("dotted keys of up to {} segments in 15 texts, on threads with 2 MB of stack", longs[longs.len() - 1]), || {
        ctx.par_grain(longs.len() as u64 * 15, 1, |i| {
            let i = i as usize;
            let x = dotted(longs[longs.len() - 1 - i / 15]).swap_remove(i % 15);
            ctx.note(|| format!("dotted text {} of {} segments", i % 15, longs[longs.len() - 1 - i / 15]));
            small_stack(|| text_calls(ctx, &x, 2));
        });
    });
    let units = ["[", "{", "\"", "\\", ":", ",", "[1]", "{a}", "\"a\"", "[1]{a}:", "\u{e9}", "\u{1f600}", "\\\"", " ", "\t", "\n", "1", "-", "- ", "a: ", "[\"", "\\n", "1,", "a|", "- a\n", "k: v\n", "[0]:\n"];
    let reps: &[usize] = if t { &[1000, 4096, 20_000, 65_536] } else { &[1000, 10_000] };
    ctx.family("long lines", &format!("{} units repeated up to {} times in 9 places, on threads with 2 MB of stack", units.len(), reps[reps.len() - 1]), || {
        ctx.par_grain((units.len() * reps.len() * 9) as u64, 1, |i| {
            let i = i as usize;
            let u = units[i % units.len()].repeat(reps[reps.len() - 1 - i / units.len() % reps.len()]);
            let x = match i / units.len() / reps.len() {
                0 => u,
                1 => format!("a{u}"),
                2 => format!("\"{u}"),
                3 => format!("\"{u}\": 1"),
                4 => format!("a[2]: {u}"),
                5 => format!("a[{u}]: x"),
                6 => format!("a[1]{{{u}}}:\n  1"),
                7 => format!("[2]:\n  - {u}\n  - {u}"),
                _ => format!("[1]{{a,b}}:\n  {u}"),
            };
            ctx.note(|| format!("unit {:?}, place {}", units[i % units.len()], i / units.len() / reps.len()));
            small_stack(|| text_calls(ctx, &x, 2));
        });
    });
    // encoding
    let zs = Size::of(ctx);
    let odd = [V::Null, gv::n(1.0), s("s"), gv::n(f64::NAN), gv::n(-0.0), gv::n(f64::INFINITY), gv::n(f64::MIN_POSITIVE), gv::n(f64::MAX)];
    gv::trees(ctx, zs.tree - 2, &odd, &["a", "a.b", ""], &|v| {
        value_calls(ctx, v, 2, ',', true, usize::MAX);
        value_calls(ctx, v, 0, '|', true, 0);
        value_calls(ctx, v, 64, '\t', false, 3);
    });
    ctx.family("repeated keys", "objects and tables of up to 3 members or rows whose keys repeat", || {
        let leaves = [gv::n(1.0), V::Obj(vec![]), V::Arr(vec![gv::n(1.0)]), obj(vec![("a", gv::n(2.0))])];
        ctx.par(8 * 64, |i| {
            let key = |b: u64| if i >> b & 1 == 1 { "a" } else { "b" };
            let j = (i / 8) as usize;
            let o = V::Obj(vec![(key(0).into(), leaves[j % 4].clone()), (key(1).into(), leaves[j / 4 % 4].clone()), (key(2).into(), leaves[j / 16].clone())]);
            for v in gv::contexts(&o).iter().chain(&gv::contexts(&V::Arr(vec![o.clone(), o.clone()]))) {
                value_calls(ctx, v, 2, ',', true, usize::MAX);
                value_calls(ctx, v, 2, ',', false, usize::MAX);
            }
        });
    });
    gv::strings(ctx, Size { word: 2, tok: 3, ..zs }, &|x| value_calls(ctx, &gv::everywhere(x), 2, '|', true, 3));
    ctx.family("delimiters", "every Unicode scalar value as delimiter and inside strings", || {
        ctx.par(SCALARS, |i| {
            let Some(c) = char::from_u32(i as u32) else { return };
            let v = obj(vec![("a", V::Arr(vec![s(&format!("x{c}y")), gv::n(1.0)])), ("t", V::Arr(vec![obj(vec![("b", s(&c.to_string())), ("c", V::Null)])]))]);
            ctx.add(1, 1, 1);
            one(ctx, || format!("{{\"delimiter\":\"{:04x}\"}}", i), "encode", || {
                let t = toon::encode(v.to_real(), Some(eopt(2, c, true, 3)));
                shown(toon::try_decode(&t, None))
            });
        });
    });
    ctx.family("JSON texts", &format!("all texts of at most {} of {} JSON characters", if t { 6 } else { 5 }, JSON_CHARS.len()), || {
        for len in 0..=(if t { 6 } else { 5 }) {
            ctx.par(pow(JSON_CHARS.len(), len), |i| {
                let w = word(&JSON_CHARS, len, i);
                ctx.add(1, 1, 1);
                one(ctx, || jstr(&w), "json_to_toon", || shown(toon::json_to_toon(&w)));
            });
        }
    });
    
}

/// Texts and values in which a run of wide characters starts at every byte offset.
fn wide_text(ctx: &Ctx) {
    const SITES: [&str; 44] = [
        "@", "k: @", "@: 1", "k@: 1\n@", "\"@", "\"@\": 1", "\"@\"@", "k: \"@", "k: \"a\"@", "k: \"@\"@", "k: \"\\@", "k: \"a\\@\"", "k: \"\\u00@\"", "\"a\"@: 1", "\"a\\@\": 1", "k[@]: 1", "k[1@]: 1",
        "k[1]@: 1", "k[1]: @", "k[1]: 1@,2", "k[2]: \"@", "k[2]: \"a\"@,2", "k[1]{@}:\n  1", "k[1]{@", "k[1]{\"@}:\n  1", "k[1]{f}@:\n  1", "k[1]{f}:\n  @", "k[1]{f}:\n  1,@", "k[1]{f}:\n  \"@", "k[1]{f}:\n  1\n  @",
        "k[1]:\n  - @", "k[1]:\n  - @: 1", "k[1]:\n  - \"@", "k[2]:\n  - 1\n  @", "k[1]:\n  - [@]: 1", "k[1]:\n  - a[1]{@}:\n      1", "k:\n  @", "k:\n   @: 1", "k:\n\t@: 1", "a.@: 1\na: 2", "@.b: 1\n@: 2", "a.b: 1\na.b.@: 2",
        "k[1]:\n\n  - @", "[@]: 1",
    ];
    const WIDE: [&str; 5] = ["\u{e9}", "\u{20ac}", "\u{1f600}", "e\u{301}", "\u{a0}"];
    let t = ctx.thorough;
    let mut reps: Vec<usize> = if t { (0..=140).collect() } else { vec![1, 2, 3, 4, 6, 7, 8, 12, 13, 30, 50, 90] };
    reps.extend([170, 300]);
    let sites = SITES.len();
    ctx.family("wide characters in errors", &format!("runs of {} lengths of 5 wide characters behind 0..4 narrow ones, in {sites} places of good and faulty texts", reps.len()), || {
        ctx.par((reps.len() * 5 * sites) as u64, |i| {
            let i = i as usize;
            let w = WIDE[i % 5].repeat(reps[i / 5 % reps.len()]);
            let site = SITES[i / 5 / reps.len()];
            for pre in ["", "x", "xx", "xxx", "1"] {
                for post in ["", " y"] {
                    text_calls(ctx, &site.replace('@', &format!("{pre}{w}{post}")), 2);
                }
            }
        });
    });
    let sd = gd::seeds();
    ctx.family("wide characters anywhere", &format!("one, 3 or 60 of 3 wide characters behind 0..2 narrow ones, at every position of the encodings of {} values", sd.len()), || {
        ctx.par_grain((sd.len() * 3) as u64, 1, |i| {
            let text = crate::model::enc::encode(&sd[i as usize / 3], crate::model::enc::EncOpt { delim: [',', '|', '\t'][i as usize % 3], ..crate::model::enc::EncOpt::DEFAULT });
            for p in 0..=text.len() {
                for c in &WIDE[..3] {
                    for r in [1, 3, 60] {
                        for pre in ["", "x", "xx"] {
                            core(ctx, &format!("{}{pre}{}{}", &text[..p], c.repeat(r), &text[p..]), 2);
                        }
                    }
                }
            }
        });
    });
    let top = if t { 300 } else { 140 };
    ctx.family("wide characters in values", &format!("strings and keys of 0..3 narrow and up to {top} wide characters, and JSON texts cut anywhere around them"), || {
        ctx.par(top * 5, |i| {
            let w = WIDE[i as usize % 5].repeat(i as usize / 5);
            for pre in ["", "x", "xx", "xxx", "\"", "1", "- "] {
                let x = format!("{pre}{w}");
                let v = obj(vec![("k", s(&x)), ("l", V::Arr(vec![s(&x), V::Arr(vec![]), V::Obj(vec![(x.clone(), s(&x))])])), ("t", V::Arr(vec![V::Obj(vec![(x.clone(), s(&x))])]))]);
                value_calls(ctx, &v, 2, '|', true, 3);
                for bad in [format!("{{\"a\":\"{w}"), format!("[\"{w}\" 1"), format!("{{\"{w}\" 1}}"), format!("{pre}{w}"), format!("[\"\\{w}\"]"), format!("[1]{w}")] {
                    ctx.add(1, 1, 1);
                    one(ctx, || jstr(&bad), "json_to_toon", || shown(toon::json_to_toon(&bad)));
                }
            }
        });
    });
}
