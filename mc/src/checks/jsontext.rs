//! JSON text through TOON and back.
use crate::engine::{Ctx, Trees, jstr, pow, tokens, word};
use crate::gen_values as gv;
use crate::model::enc;
use crate::model::json;
use crate::model::value::V;
use crate::real;
use toon::cli::conversion;

/// The parser's limit on nesting.
const DEEP: usize = 127;

fn same(a: &V, b: &V, long: bool) -> bool {
    match (a, b) {
        (V::Num(x), V::Num(y)) if long => {
            let key = |x: f64| if x.to_bits() >> 63 == 1 { -((x.to_bits() << 1 >> 1) as i128) } else { x.to_bits() as i128 };
            (key(*x) - key(*y)).abs() <= 4
        }
        (V::Arr(x), V::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y, long)),
        (V::Obj(x), V::Obj(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.0 == y.0 && same(&x.1, &y.1, long)),
        _ => a == b,
    }
}
fn one(ctx: &Ctx, text: &str) {
    ctx.add(1, 4, 1);
    let case = || {
        let t: String = text.chars().take(3000).collect();
        format!("{{\"json\":{},\"length\":{}}}", jstr(&t), text.len())
    };
    let want = json::parse(text);
    let toon = real::call(|| toon::json_to_toon(text));
    let lines = real::call(|| conversion::encode_to_toon_lines(text, None));
    if toon.is_ok() != lines.is_ok() || lines.as_ref().is_ok_and(|l| toon.as_ref().ok() != Some(&l.join("\n"))) {
        return ctx.fail(&case(), &format!("json_to_toon gives {toon:?}, encode_to_toon_lines {lines:?}"));
    }
    let (doc, toon) = match (want, toon) {
        (_, Err(f)) if f.panic => return ctx.fail(&case(), &format!("panicked: {}", f.msg)),
        (Err(_), Err(_)) => return ctx.tally("rejected"),
        (Ok(d), Err(_)) if d.depth > DEEP || d.edge => return ctx.tally("beyond the parser"),
        (Err(e), Ok(t)) => return ctx.fail(&case(), &format!("not JSON ({e}), but converted to {t:?}")),
        (Ok(_), Err(f)) => return ctx.fail(&case(), &format!("rejected: {}", f.msg)),
        (Ok(d), Ok(t)) => (d, t),
    };
    ctx.tally("converted");
    if doc.edge {
        return;
    }
    let back = match real::call(|| toon::toon_to_json(&toon)) {
        Ok(b) => b,
        Err(f) => return ctx.fail(&case(), &format!("TOON text {toon:?} does not convert back: {}", f.msg)),
    };
    let expect = enc::round_tripped(&doc.value, false);
    match json::parse(&back) {
        Ok(b) if same(&b.value, &expect, doc.long) => {
            if let Err(e) = json::check(&back, &b.value, 0) {
                ctx.fail(&case(), &format!("came back as {back:?}, not compact: {e}"));
            }
        }
        Ok(_) => return ctx.fail(&case(), &format!("came back as {back}")),
        Err(e) => return ctx.fail(&case(), &format!("came back as {back:?}, which is not JSON: {e}")),
    }
    match real::call(|| conversion::decode_to_json_chunks(&toon, None)) {
        Ok(c) => {
            let c = c.concat();
            if !json::parse(&c).is_ok_and(|b| same(&b.value, &expect, doc.long)) {
                ctx.fail(&case(), &format!("the command's conversion gives {c:?}"));
            }
        }
        Err(f) => ctx.fail(&case(), &format!("the command's conversion of {toon:?} fails: {}", f.msg)),
    }
}
/// Every spelling of a value: compact, spaced, every character escaped.
fn spellings(v: &V) -> [String; 3] {
    fn w(v: &V, k: usize, depth: usize, out: &mut String) {
        let st = |t: &str, out: &mut String| {
            if k < 2 {
                return json::write(&V::Str(t.to_string()), out);
            }
            out.push('"');
            let mut b = [0; 2];
            for (i, u) in t.chars().flat_map(|c| c.encode_utf16(&mut b).to_vec()).enumerate() {
                out.push_str(&if i % 2 == 0 { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") });
            }
            out.push('"');
        };
        let gap = |d: usize, out: &mut String| match k {
            1 => {
                out.push_str("\r\n");
                (0..d).for_each(|_| out.push_str(" \t"));
            }
            2 => out.push(' '),
            _ => {}
        };
        match v {
            V::Str(t) => st(t, out),
            V::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    gap(depth + 1, out);
                    w(x, k, depth + 1, out);
                }
                gap(depth, out);
                out.push(']');
            }
            V::Obj(m) => {
                out.push('{');
                for (i, (key, x)) in m.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    gap(depth + 1, out);
                    st(key, out);
                    gap(0, out);
                    out.push(':');
                    gap(0, out);
                    w(x, k, depth + 1, out);
                }
                gap(depth, out);
                out.push('}');
            }
            V::Num(x) if k == 1 && x.is_finite() => out.push_str(&format!("{x:e}")),
            V::Num(x) if x.is_finite() && x.fract() == 0.0 && x.abs() < 1e15 && k == 2 => out.push_str(&format!("{}", *x as i64)),
            V::Num(x) if !x.is_finite() => out.push_str("null"),
            x => json::write(x, out),
        }
    }
    [0, 1, 2].map(|k| {
        let mut t = String::new();
        w(v, k, 0, &mut t);
        t
    })
}
pub fn c25(ctx: &Ctx) {
    let big = usize::from(ctx.thorough);
    const TOK: [&str; 10] = ["{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", "null"];
    let n = 6 + big;
    ctx.family("token sequences", &format!("all sequences of at most {n} of the {} tokens {}, alone and as a member", TOK.len(), TOK.join(" ")), || {
        for len in 0..=n {
            ctx.par(pow(TOK.len(), len), |i| {
                let t = tokens(&TOK, len, i);
                one(ctx, &t);
                if len < n {
                    one(ctx, &format!("[{{\"k\": {t} , \"z\":[]}}]"));
                }
            });
        }
    });
    const NUM: [char; 9] = ['0', '1', '9', '.', 'e', 'E', '+', '-', ' '];
    let n = 6 + big;
    ctx.family("number words", &format!("all words of at most {n} of the {} characters {NUM:?} as document, element and member", NUM.len()), || {
        for len in 1..=n {
            ctx.par(pow(NUM.len(), len), |i| {
                let t = word(&NUM, len, i);
                one(ctx, &t);
                one(ctx, &format!("[{t}]"));
                one(ctx, &format!("{{\"a\":{t},\"b\":-{t}}}"));
            });
        }
    });
    const STR: [char; 14] = ['"', '\\', 'u', 'd', '8', 'D', 'C', '0', 'n', '/', 'b', '\u{1}', '\u{e9}', '\n'];
    let n = 5 + big;
    ctx.family("string words", &format!("all words of at most {n} of the {} characters {STR:?} between quotes, as document and as key", STR.len()), || {
        for len in 0..=n {
            ctx.par(pow(STR.len(), len), |i| {
                let t = word(&STR, len, i);
                one(ctx, &format!("\"{t}\""));
                if len < n {
                    one(ctx, &format!("{{\"{t}\":\"{t}\"}}"));
                }
            });
        }
    });
    ctx.family("escapes", "every \\uXXXX in both cases, every high surrogate x 5 followers, every low surrogate x 3 leaders, every \\x, every raw scalar", || {
        ctx.par(0x1_0000, |i| {
            one(ctx, &format!("[\"\\u{i:04x}\",\"a\\u{i:04X}b\"]"));
            one(ctx, &format!("{{\"\\u{i:04x}\":\"\\u{i:04x}\"}}"));
            if (0xd800..0xdc00).contains(&i) {
                for f in ["\\udc00", "\\uDFFF", "\\ud800", "x", "\\n"] {
                    one(ctx, &format!("\"\\u{i:04x}{f}\""));
                }
            }
            if (0xdc00..0xe000).contains(&i) {
                for l in ["\\ud800", "\\uDBFF", "\\ue000"] {
                    one(ctx, &format!("[\"{l}\\u{i:04x}\"]"));
                }
            }
        });
        ctx.par(crate::engine::SCALARS, |i| {
            if let Some(c) = char::from_u32(i as u32) {
                one(ctx, &format!("[\"{c}\",{{\"a{c}\":\"\\{c}\"}}]"));
                one(ctx, &format!("{{\"{c}\":\"{c}{c}\"}}"));
            }
        });
    });
    let seeds = [
        "null", "[]", "{}", "1", "\"a\"", "[1,2]", "{\"a\":1}", "[{\"a\":1,\"b\":\"x\"},{\"b\":true,\"a\":null}]", "{\"a\":{\"b\":[1.5,-2e3,\"\\u00e9\\n\"]},\"c.d\":[[],{}]}",
        "{\"a\":1,\"b\":{\"a\":2},\"a\":3}",
    ];
    ctx.family("blanks", "each kind of blank and of other characters at every place of 10 texts", || {
        const X: [&str; 22] = [" ", "\t", "\n", "\r", "\r\n", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\u{2028}", "\u{0}", "//", "/**/", "#", ",", "'", "\"", "\\", "0", "-", "}", "]"];
        ctx.par_grain((seeds.len() * X.len()) as u64, 1, |i| {
            let (t, x) = (seeds[i as usize / X.len()], X[i as usize % X.len()]);
            for p in 0..=t.len() {
                one(ctx, &format!("{}{x}{}", &t[..p], &t[p..]));
                one(ctx, &format!("{}{x}{x}{}", &t[..p], &t[p..]));
                one(ctx, &t[..p]);
                for q in p..t.len() {
                    one(ctx, &format!("{}{x}{}", &t[..p], &t[q..]));
                }
            }
        });
    });
    ctx.family("numbers", "numbers of up to 20 digits with the point anywhere x exponents around 0 and the ends of the range; every integer around a power of two or ten", || {
        ctx.par(20 * 21, |i| {
            let (d, p) = (i as usize / 21 + 1, i as usize % 21);
            for pat in ["1234567890", "9", "10", "1", "5"] {
                let m: String = pat.chars().cycle().take(d).collect();
                let m = if p == 0 || p >= d { m } else { format!("{}.{}", &m[..p], &m[p..]) };
                for e in ["", "e0", "E5", "e-5", "e+15", "e22", "e-22", "e30", "e-30", "e290", "e-300", "e-325", "e400", "e-400", "e99999999999", "e-99999999999999999999"] {
                    one(ctx, &format!("[{m}{e},-{m}{e}]"));
                    one(ctx, &format!("{m}{e}"));
                }
            }
        });
        ctx.par(65 * 9 + 20 * 9, |i| {
            let (k, d) = (i / 9, i as i128 % 9 - 4);
            let b = if k < 65 { 1i128 << k } else { 10i128.pow(k as u32 - 64) };
            one(ctx, &format!("[{},{},{}.0,{}e0]", b + d, -b - d, b + d, b + d));
        });
    });
    ctx.family("repeated members", "all objects of up to 5 members over 3 keys, nested or plain, and repeats far apart", || {
        for len in 1..=5 {
            ctx.par(pow(6, len), |i| {
                let mut m = String::new();
                for p in 0..len {
                    let x = i / pow(6, p) % 6;
                    m.push_str(&format!("{}\"{}\":{}", if p > 0 { "," } else { "" }, ["a", "\\u0061", "c.d"][x as usize % 3], if x < 3 { p.to_string() } else { format!("{{\"x\":{p},\"x\":[{p}]}}") }));
                }
                one(ctx, &format!("{{{m}}}"));
                one(ctx, &format!("[{{{m}}},{{{m}}}]"));
            });
        }
        ctx.par_grain(120, 1, |i| {
            let m: Vec<String> = (0..=i).chain([0, i / 2]).map(|k| format!("\"k{k}\":{k}")).collect();
            one(ctx, &format!("{{{}}}", m.join(",")));
        });
    });
    ctx.family("nesting", "depths 1..200 of 6 kinds of nesting", || {
        ctx.par_grain(200, 4, |i| {
            let d = i as usize + 1;
            for (a, m, b) in [("[", "1", "]"), ("{\"a\":", "1", "}"), ("[", "", "]"), ("{\"a\":[", "null", "]}"), ("[[],", "1", "]"), ("{\"b\":1,\"a\":", "{}", ",\"c\":2}")] {
                one(ctx, &format!("{}{m}{}", a.repeat(d), b.repeat(d)));
                one(ctx, &format!("{}{m}{}", a.repeat(d), b.repeat(d - 1)));
            }
        });
    });
    let all = |v: &V| spellings(v).iter().for_each(|t| one(ctx, t));
    let t = Trees::new(gv::basic_leaves(), &["a", "b c"], 4);
    ctx.family("spelled trees", &format!("all values with at most {} nodes in 3 spellings", 4 + big), || {
        let t = if big > 0 { Trees::new(gv::basic_leaves(), &["a", "b c"], 5) } else { t };
        for size in 1..=4 + big {
            ctx.par(t.count(size), |i| all(&t.get(size, i)));
        }
    });
    gv::layouts(ctx, &all);
    gv::sweeps(ctx, gv::Size::of(ctx), &all);
    gv::deviants(ctx, false, &all);
    ctx.family("spelled strings", "all strings of up to 3 syntax characters everywhere, in 3 spellings", || {
        let a = gv::SYNTAX;
        for len in 0..=2 + big {
            ctx.par(pow(a.len(), len), |i| all(&gv::everywhere(&word(&a, len, i))));
        }
    });
    ctx.family("long texts", "documents of 2^k elements, members, characters, blanks and escapes, k to 16", || {
        ctx.par_grain(17 * 6, 1, |i| {
            let (k, n) = (i % 6, 1usize << (i / 6));
            one(ctx, &match k {
                0 => format!("[{}1]", "1,".repeat(n)),
                1 => format!("{{{}\"z\":1}}", (0..n.min(4096)).map(|i| format!("\"k{i}\":{i},")).collect::<String>()),
                2 => format!("\"{}\"", "a".repeat(n)),
                3 => format!("[{}1]", " \n\t".repeat(n)),
                4 => format!("{{\"{}\":0}}", "\\u00e9\\n".repeat(n)),
                _ => format!("[{}{{\"a\":1,\"b\":2}}]", "{\"b\":2,\"a\":\"x\"},".repeat(n)),
            });
        });
    });

}
