//! Checks over single numbers and strings.
use super::docs;
use super::values::DELIMS;
use crate::engine::{Ctx, jstr, pow, word};
use crate::gen_values::{self as gv, Size};
use crate::model::dec;
use crate::model::enc::{self, EncOpt};
use crate::model::value::{V, obj, s};
use crate::real;

/// Finite numbers: every exponent with boundary significands, every short decimal, powers.
pub fn numbers(ctx: &Ctx, f: &(dyn Fn(f64) + Sync)) {
    ctx.family("binary numbers", "every exponent of a double with 134 significands (all with at most 2 bits set or clear around the ends)", || {
        let mut sig: Vec<u64> = vec![0, (1 << 52) - 1, 0x5_5555_5555_5555, 0xa_aaaa_aaaa_aaaa];
        for b in 0..52 {
            sig.extend([1u64 << b, ((1u64 << 52) - 1) ^ (1 << b)]);
        }
        for b in 0..13 {
            sig.extend([(1u64 << 51) | (1 << (b * 4)), (1 << (b * 4)) | 1]);
        }
        ctx.par(2047, |e| {
            for m in &sig {
                f(f64::from_bits(e << 52 | m));
            }
        });
    });
    let (top, exps) = if ctx.thorough { (100_000u64, 340) } else { (10_000, 330) };
    ctx.family("decimals", &format!("every integer below {top} times every power of ten down to 1e-{exps} and up to 1e308 (every tenth exponent beyond 25)"), || {
        ctx.par(top, |n| {
            for e in -exps..=308i32 {
                if e.abs() > 25 && e % 10 != (n % 10) as i32 {
                    continue;
                }
                if let Ok(x) = format!("{n}e{e}").parse::<f64>()
                    && x.is_finite()
                {
                    f(x);
                }
            }
        });
    });
    ctx.family("integers", "integers around every power of two and ten up to 2^70 and 1e25, offsets -40..40", || {
        ctx.par(96, |i| {
            let base: f64 = if i < 70 { 2f64.powi(i as i32) } else { format!("1e{}", i - 70).parse().unwrap() };
            for d in -40..=40 {
                f(base + f64::from(d));
                f(base + f64::from(d) / 8.0);
                f(base + f64::from(d) / 100.0);
            }
        });
    });
}

// ---------------------------------------------------------------- C14

fn number_out(ctx: &Ctx, x: f64) {
    ctx.add(1, 3, 1);
    let c = || format!("{{\"number\":\"{x:e}\",\"bits\":\"{:016x}\"}}", x.to_bits());
    let v = obj(vec![("a", V::Arr(vec![gv::n(x), gv::n(1.0)])), ("b", gv::n(x)), ("t", V::Arr(vec![obj(vec![("f", gv::n(x))])])), ("l", V::Arr(vec![gv::n(x), V::Arr(vec![])]))]);
    let t = enc::number(x);
    let text = format!("a[2]: {t},1\nb: {t}\nt[1]{{f}}:\n  {t}\nl[2]:\n  - {t}\n  - [0]:");
    match real::encode(&v, EncOpt::DEFAULT) {
        Ok(g) if g == text => {}
        Ok(g) => return ctx.fail(&c(), &format!("written {g:?}, plain decimal is {t}")),
        Err(p) => return ctx.fail(&c(), &format!("panicked: {p}")),
    }
    if real::encode(&gv::n(x), EncOpt { delim: '\t', ..EncOpt::DEFAULT }).ok().as_deref() != Some(&t) {
        ctx.fail(&c(), "written differently as the root value");
    }
    let b = t.as_bytes();
    let d = t.strip_prefix('-').unwrap_or(&t);
    let plain = t == "null" && !x.is_finite()
        || b.iter().all(|c| c.is_ascii_digit() || *c == b'.' || *c == b'-')
            && !(d.len() > 1 && d.starts_with('0') && !d.starts_with("0."))
            && !t.ends_with('.')
            && !(t.contains('.') && t.ends_with('0'))
            && t != "-0";
    if !plain {
        ctx.fail(&c(), &format!("{t} is not plain decimal"));
    }
    match real::decode(&text, 2, true, false) {
        Ok(g) if g == v.normal() => {}
        Ok(g) => ctx.fail(&c(), &format!("{t} came back as {}", g.show())),
        Err(f) => ctx.fail(&c(), &format!("{t} rejected: {}", f.msg)),
    }
}
/// A token as root value, member, inline element, cell and list item.
fn token_in(ctx: &Ctx, t: &str) {
    ctx.add(1, 5, 1);
    let want = dec::json_number(t).map(|n| gv::n(if n == 0.0 { 0.0 } else { n }));
    ctx.tally(if want.is_some() { "number" } else { "string" });
    let want = want.unwrap_or_else(|| s(t));
    for (doc, v) in [
        (t.to_string(), want.clone()),
        (format!("k: {t}"), obj(vec![("k", want.clone())])),
        (format!("k[2|]: {t}|{t}"), obj(vec![("k", V::Arr(vec![want.clone(), want.clone()]))])),
        (format!("[1]{{f}}:\n  {t}"), V::Arr(vec![obj(vec![("f", want.clone())])])),
        (format!("[1]:\n  - {t}"), V::Arr(vec![want.clone()])),
        (format!("[1]:\n  - k: {t}"), V::Arr(vec![obj(vec![("k", want.clone())])])),
        (format!("k: \"{t}\""), obj(vec![("k", s(t))])),
    ] {
        for strict in [true, false] {
            match real::decode(&doc, 2, strict, false) {
                Ok(g) if g == v => {}
                Ok(g) => ctx.fail(&docs::case(&doc, 2, strict), &format!("read as {}, {t:?} is {}", g.show(), want.show())),
                Err(f) => ctx.fail(&docs::case(&doc, 2, strict), &format!("rejected: {}", f.msg)),
            }
        }
    }
    string_out(ctx, t, ',');
}
fn string_out(ctx: &Ctx, t: &str, delim: char) {
    let want = if enc::needs_quotes(t, delim) { enc::quote(t) } else { t.to_string() };
    let o = EncOpt { delim, ..EncOpt::DEFAULT };
    match real::encode(&s(t), o) {
        Ok(g) if g == want => {}
        g => ctx.fail(&format!("{{\"string\":{},\"delimiter\":{}}}", jstr(t), jstr(&delim.to_string())), &format!("written {g:?}, rule says {want}")),
    }
}
pub fn c14(ctx: &Ctx) {
    let t = ctx.thorough;
    numbers(ctx, &|x| {
        number_out(ctx, x);
        if x.to_bits() % 3 == 0 {
            number_out(ctx, -x);
        }
    });
    ctx.family("special numbers", "zeros, infinities, not-a-numbers with every single payload bit", || {
        ctx.par(52, |b| {
            for sign in [0u64, 1 << 63] {
                number_out(ctx, f64::from_bits(sign | 0x7ff << 52 | 1 << b));
                number_out(ctx, f64::from_bits(sign | 0x7ff << 52));
                number_out(ctx, f64::from_bits(sign));
                number_out(ctx, f64::from_bits(sign | 1 << b));
            }
        });
    });
    let al = ['0', '1', '9', '-', '+', '.', 'e', 'E'];
    let top = if t { 8 } else { 7 };
    ctx.family("numeric tokens", &format!("all tokens of at most {top} characters over {al:?}"), || {
        for len in 1..=top {
            ctx.par(pow(al.len(), len), |i| token_in(ctx, &word(&al, len, i)));
        }
    });
    let al = ['0', '1', '-', '.', 'e', '_', 'x', 'a', '\u{661}', '\u{ff11}', '\u{2212}', 'f', 'n', 'i'];
    ctx.family("near-numeric tokens", "all tokens of at most 4 characters over 14, including other digits and signs", || {
        for len in 1..=(if t { 5 } else { 4 }) {
            ctx.par(pow(al.len(), len), |i| token_in(ctx, &word(&al, len, i)));
        }
    });
    ctx.family("number words", "NaN, Infinity, hexadecimal, underscores, fractions, huge and tiny exponents, long digits", || {
        let mut w: Vec<String> = [
            "NaN", "nan", "inf", "-inf", "Infinity", "-Infinity", "infinity", "0x10", "1_000", "1f64", "1.0f", "1e309", "-1e309", "1e400", "2e308", "1.7976931348623157e308",
            "1.7976931348623159e308", "4.9e-324", "1e-400", "2.2250738585072011e-308", "9007199254740993", "0.1e1", "1E+05", "1e05", "1e-05", "01e5", "-01", "00", "-00", "-0", "-0.0", "0e0", "-0e0", "0.0",
            "True", "FALSE", "Null", "none", "0b1", "0o7", "1 2", "1,2x", "\u{ff11}2",
        ].map(String::from).to_vec();
        for n in 1..=420usize {
            let d: String = (0..n).map(|i| char::from(b'1' + (i % 9) as u8)).collect();
            w.extend([d.clone(), format!("-{d}"), format!("0.{d}"), format!("0.{}1", "0".repeat(n)), format!("{d}.5"), format!("1{}", "0".repeat(n)), format!("0{d}"), format!("1e{n}"), format!("1e-{n}"), format!("{d}e-{n}"), format!("1e{}{n}", "0".repeat(n % 7))]);
        }
        ctx.par(w.len() as u64, |i| {
            let t = &w[i as usize];
            if !t.contains(',') && !["true", "false", "null"].contains(&t.as_str()) {
                token_in(ctx, t);
            }
        });
    });
}

// ---------------------------------------------------------------- C15

/// `t` in every position, encoded exactly as the rules say and read back exactly.
fn survives(ctx: &Ctx, t: &str, v: &V, o: EncOpt) {
    ctx.add(1, 1, 1);
    let c = || format!("{{\"string\":{},\"indent\":{},\"delimiter\":{}}}", jstr(t), o.indent, jstr(&o.delim.to_string()));
    let want = enc::encode(v, o);
    match real::encode(v, o) {
        Ok(g) if g == want => {}
        Ok(g) => {
            let (a, b): (Vec<_>, Vec<_>) = (g.split('\n').collect(), want.split('\n').collect());
            let i = (0..).find(|i| a.get(*i) != b.get(*i)).unwrap_or(0);
            return ctx.fail(&c(), &format!("written {:?}, rules say {:?}", a.get(i), b.get(i)));
        }
        Err(p) => return ctx.fail(&c(), &format!("panicked: {p}")),
    }
    match real::decode(&want, o.indent, true, false) {
        Ok(g) if g == enc::round_tripped(v, false) => {}
        Ok(g) => ctx.fail(&c(), &format!("came back as {}", g.show())),
        Err(f) => ctx.fail(&c(), &format!("rejected: {}", f.msg)),
    }
}
/// Text between two quotes in every position: accepted exactly with the five escapes.
fn quoted_in(ctx: &Ctx, body: &str) {
    let want = dec::unescape(body).ok().filter(|_| closed(body));
    ctx.tally(if want.is_some() { "escapes accepted" } else { "escapes rejected" });
    let q = format!("\"{body}\"");
    for (doc, v) in [
        (q.clone(), want.as_deref().map(s)),
        (format!("k: {q}"), want.as_deref().map(|w| obj(vec![("k", s(w))]))),
        (format!("{q}: 1"), want.as_deref().map(|w| obj(vec![(w, gv::n(1.0))]))),
        (format!("{q}[1]: {q}"), want.as_deref().map(|w| obj(vec![(w, V::Arr(vec![s(w)]))]))),
        (format!("k[2]: {q},x"), want.as_deref().map(|w| obj(vec![("k", V::Arr(vec![s(w), s("x")]))]))),
        (format!("[1|]{{{q}|g}}:\n  {q}|{q}"), want.as_deref().map(|w| V::Arr(vec![V::Obj(vec![(w.into(), s(w)), ("g".into(), s(w))])]))),
        (format!("[2]:\n  - {q}\n  - {q}: {q}"), want.as_deref().map(|w| V::Arr(vec![s(w), obj(vec![(w, s(w))])]))),
    ] {
        for strict in [true, false] {
            ctx.add(1, 1, 1);
            match (real::decode(&doc, 2, strict, false), &v) {
                (Ok(g), Some(w)) if g == *w => {}
                (Err(f), None) if !f.panic => {}
                (Ok(g), Some(w)) => ctx.fail(&docs::case(&doc, 2, strict), &format!("read as {}, denotes {}", g.show(), w.show())),
                (Ok(g), None) if closed(body) => ctx.fail(&docs::case(&doc, 2, strict), &format!("bad escape accepted as {}", g.show())),
                (Ok(_), None) => {}
                (Err(f), _) => ctx.fail(&docs::case(&doc, 2, strict), &format!("rejected: {}", f.msg)),
            }
        }
    }
}
/// No quote inside that would end the string early, and the last one not escaped.
fn closed(body: &str) -> bool {
    let mut esc = false;
    for c in body.chars() {
        match c {
            _ if esc => esc = false,
            '\\' => esc = true,
            '"' | '\n' => return false,
            _ => {}
        }
    }
    !esc
}
pub fn c15(ctx: &Ctx) {
    let z = Size::of(ctx);
    let opts = [(2, ','), (1, '|'), (4, '\t')].map(|(indent, delim)| EncOpt { indent, delim, ..EncOpt::DEFAULT });
    gv::strings(ctx, z, &|t| {
        let v = gv::everywhere(t);
        opts.iter().for_each(|o| survives(ctx, t, &v, *o));
    });
    gv::strings(ctx, Size { word: 3, tok: 3, ..z }, &|t| {
        for v in gv::root_forms(t) {
            opts.iter().for_each(|o| survives(ctx, t, &v, *o));
        }
        DELIMS.iter().for_each(|d| string_out(ctx, t, *d));
    });
    gv::scalars(ctx, &|c| {
        let all = [c.to_string(), format!("{c}a"), format!("a{c}"), format!("a{c}b")];
        let many = ctx.thorough || (c as u32) < 0x3100 || c as u32 & 0xff > 0xfc;
        for t in if many { &all[..] } else { &all[..1] } {
            let t = t.clone();
            survives(ctx, &t, &gv::everywhere(&t), opts[(c as usize) % 3]);
        }
        for v in gv::root_forms(&c.to_string()).into_iter().take(if many { 9 } else { 1 }) {
            survives(ctx, &c.to_string(), &v, opts[(c as usize / 3) % 3]);
        }
    });
    ctx.family("escapes", "a backslash with every Unicode scalar; all quoted texts of at most 5 characters over 10", || {
        ctx.par(crate::engine::SCALARS, |i| {
            if let Some(c) = char::from_u32(i as u32)
                && c != '\n'
            {
                quoted_in(ctx, &format!("\\{c}"));
                if i < 0x3000 {
                    quoted_in(ctx, &format!("{c}"));
                    quoted_in(ctx, &format!("a\\{c}\\n"));
                }
            }
        });
        let al = ['\\', 'n', 't', 'r', '"', 'u', '0', ' ', ':', ','];
        for len in 0..=(if ctx.thorough { 6 } else { 5 }) {
            ctx.par(pow(al.len(), len), |i| {
                let b = word(&al, len, i);
                if closed(&b) {
                    quoted_in(ctx, &b);
                }
            });
        }
    });
    ctx.family("long strings", "strings of every length up to 300 with a special character at every third position (beyond 60 fewer, and all of the last 20)", || {
        ctx.par(301, |n| {
            let n = n as usize;
            for (j, c) in ['"', '\\', '\n', ',', ':', '\u{1f600}', '\t', ' ', '#', '-'].into_iter().enumerate() {
                for p in (0..=n).filter(|p| p % (3 * (1 + n / 60)) == j % 3 || p + 20 > n) {
                    let t = format!("{}{c}{}", "x".repeat(p), "y".repeat(n - p));
                    survives(ctx, &t, &gv::everywhere(&t), opts[j % 3]);
                }
            }
        });
    });
    let marks = ["", "\"", "\\", "\n", "\r", "\t", ",", ":", ": ", "|", "[", "]", "[1]", "]:", "{", "}", "{a}:", "#", "- ", "-", " ", "0", "1.5", "e", ".", "\u{0}", "\u{1b}", "\u{7f}", "\u{85}", "\u{a0}", "\u{2028}", "\u{1f600}", "true"];
    let m = marks.len();
    let mut sizes = gv::size_steps(if ctx.thorough { 300 } else { 130 }, true);
    sizes.extend(gv::huge_sizes(ctx));
    ctx.family("marked long strings", &format!("strings of every length up to 130 and around powers up to {}, 5 kinds of filling, with one of {m} marks at the start, middle or end, and every pair of marks at start and end (the largest with some)", sizes[sizes.len() - 1]), || {
        ctx.par_grain((sizes.len() * m) as u64, 1, |i| {
            let (n, a) = (sizes[sizes.len() - 1 - i as usize / m], marks[i as usize % m]);
            for (j, u) in ["x", "1", "\u{e9}", "x y ", "\\"].into_iter().enumerate() {
                let w = u.repeat(n / u.len());
                let (p, q) = w.split_at((0..=w.len() / 2).rev().find(|k| w.is_char_boundary(*k)).unwrap_or(0));
                let o = opts[(i as usize / 3 + j) % 3];
                let put = |t: String| {
                    let forms = gv::root_forms(&t);
                    if n < 5000 {
                        forms.iter().for_each(|v| survives(ctx, &t, v, o));
                    } else {
                        survives(ctx, &t, &forms[(i as usize + j) % forms.len()], o);
                    }
                };
                put(format!("{a}{w}"));
                put(format!("{w}{a}"));
                put(format!("{p}{a}{q}"));
                if (n < 40 || n % 64 == 0) && n < 5000 && j < 3 {
                    marks.iter().for_each(|b| put(format!("{a}{w}{b}")));
                }
            }
        });
    });
}
