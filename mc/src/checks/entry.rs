//! C17: all entry points for one operation agree.
use super::docs::case;
use super::stream::block;
use crate::engine::{Ctx, guard, jstr, pow};
use crate::gen_docs as gd;
use crate::gen_values::{self as gv, Size};
use crate::model::enc::EncOpt;
use crate::model::value::{E, V, obj, s};
use crate::real::{self, Fault, R};
use std::sync::Arc;
use toon::JsonValue;
use toon::cli::conversion;
use toon::cli::json_stringify::json_stringify_lines;
use toon::options::{DecodeOptions, DecodeStreamOptions, EncodeOptions, ExpandPathsMode, KeyFoldingMode};

fn same<T: PartialEq>(a: &R<T>, b: &R<T>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => a.panic == b.panic && a.msg == b.msg,
        _ => false,
    }
}
fn show<T: std::fmt::Debug>(r: &R<T>) -> String {
    let t = match r {
        Ok(v) => format!("{v:?}"),
        Err(f) => format!("{}: {}", if f.panic { "panic" } else { "error" }, f.msg),
    };
    t.chars().take(300).collect()
}
/// A panicking variant returns the value, and panics exactly on errors.
fn panicking<T: PartialEq>(want: &R<T>, got: &Result<T, String>) -> bool {
    match (want, got) {
        (Ok(a), Ok(b)) => a == b,
        (Err(f), Err(_)) => !f.panic,
        _ => false,
    }
}
fn repeats(v: &V) -> bool {
    match v {
        V::Arr(a) => a.iter().any(repeats),
        V::Obj(m) => m.iter().enumerate().any(|(i, (k, x))| m[..i].iter().any(|y| y.0 == *k) || repeats(x)),
        _ => false,
    }
}
fn decoding(ctx: &Ctx, text: &str, indent: usize, panics: bool) {
    let lines = real::split(text);
    for strict in [true, false] {
        let c = || case(text, indent, strict);
        let so = || Some(DecodeStreamOptions { indent: Some(indent), strict: Some(strict) });
        let events = real::call(|| toon::try_decode_stream_sync(lines.clone(), so()));
        for expand in [false, true] {
            ctx.add(1, 4, 1);
            let o = || Some(real::dopt(indent, strict, expand));
            let want = real::call(|| toon::try_decode(text, o()));
            let diff = |name: &str, got: String| ctx.fail(&c(), &format!("{name} (expand {expand}) gives {got}, try_decode {}", show(&want)));
            let g = real::call(|| toon::try_decode_from_lines(lines.clone(), o()));
            if !same(&g, &want) {
                diff("try_decode_from_lines", show(&g));
            }
            if panics {
                let g = guard(|| toon::decode(text, o()));
                if !panicking(&want, &g) {
                    diff("decode", format!("{g:?}"));
                }
                let g = guard(|| toon::decode_from_lines(lines.clone(), o()));
                if !panicking(&want, &g) {
                    diff("decode_from_lines", format!("{g:?}"));
                }
            }
            if !expand {
                let g = match &events {
                    Ok(e) => real::call(|| toon::decode::event_builder::build_node_from_events(e.clone()).map(toon::decode::event_builder::node_to_json)),
                    Err(f) => Err(f.clone()),
                };
                if !same(&g, &want) {
                    diff("building the events of try_decode_stream_sync", show(&g));
                }
            }
            // the command layer
            let json = real::call(|| conversion::decode_to_json_chunks(text, o())).map(|c| c.concat());
            let printed: R<String> = match &want {
                Ok(v) => guard(|| json_stringify_lines(v, indent).concat()).map_err(|msg| Fault { panic: true, line: None, msg }),
                Err(f) => Err(f.clone()),
            };
            if !same(&json, &printed) {
                diff("decode_to_json_chunks", format!("{} where printing the value gives {}", show(&json), show(&printed)));
            }
            if indent == 2 && strict && !expand {
                let want_json = match &want {
                    Ok(v) => Ok(serde_json::to_string(&serde_json::Value::from(v.clone())).unwrap()),
                    Err(f) => Err(f.clone()),
                };
                let g = real::call(|| toon::toon_to_json(text));
                if !same(&g, &want_json) {
                    diff("toon_to_json", show(&g));
                }
                if let (Ok(j), Ok(v)) = (&g, &want)
                    && !repeats(&V::from_real(v))
                {
                    if let Err(m) = crate::model::json::check(j, &V::from_real(v), 0) {
                        diff("toon_to_json", format!("{j}: {m:?}"));
                    }
                }
                // left-out settings
                for (name, g) in [
                    ("try_decode without options", real::call(|| toon::try_decode(text, None))),
                    ("try_decode with empty options", real::call(|| toon::try_decode(text, Some(DecodeOptions { indent: None, strict: None, expand_paths: None })))),
                    ("try_decode_from_lines without options", real::call(|| toon::try_decode_from_lines(lines.clone(), None))),
                ] {
                    if !same(&g, &want) {
                        diff(name, show(&g));
                    }
                }
                #[cfg(feature = "jsmock")]
                {
                    let err = |e: wasm_bindgen::JsError| Fault { panic: false, line: None, msg: e.0 };
                    let g = guard(|| toon::wasm::decode(text)).map_err(|msg| Fault { panic: true, line: None, msg }).and_then(|r| r.map_err(err));
                    if !agree(&g, &want_json) {
                        diff("wasm decode", show(&g));
                    }
                    let g = guard(|| toon::wasm::decode_pretty(text)).map_err(|msg| Fault { panic: true, line: None, msg }).and_then(|r| r.map_err(err));
                    let pretty = match &want {
                        Ok(v) => Ok(serde_json::to_string_pretty(&serde_json::Value::from(v.clone())).unwrap()),
                        Err(f) => Err(f.clone()),
                    };
                    if !agree(&g, &pretty) {
                        diff("wasm decode_pretty", show(&g));
                    }
                }
            }
        }
        // streams
        let want = events.map(|v| v.iter().map(E::from_real).collect::<Vec<_>>());
        let g = real::call(|| block(toon::try_decode_stream(lines.clone(), so()))).map(|v| v.iter().map(E::from_real).collect());
        if !same(&g, &want) {
            ctx.fail(&c(), &format!("try_decode_stream gives {}, try_decode_stream_sync {}", show(&g), show(&want)));
        }
        if panics {
            let g = guard(|| toon::decode_stream_sync(lines.clone(), so()).iter().map(E::from_real).collect::<Vec<_>>());
            if !panicking(&want, &g) {
                ctx.fail(&c(), &format!("decode_stream_sync gives {g:?}, try_decode_stream_sync {}", show(&want)));
            }
            let g = guard(|| block(toon::decode_stream(lines.clone(), so())).iter().map(E::from_real).collect::<Vec<_>>());
            if !panicking(&want, &g) {
                ctx.fail(&c(), &format!("decode_stream gives {g:?}, try_decode_stream_sync {}", show(&want)));
            }
        }
        if indent == 2 && strict {
            for o in [None, Some(DecodeStreamOptions { indent: None, strict: None }), Some(DecodeStreamOptions::default())] {
                let g = real::call(|| toon::try_decode_stream_sync(lines.clone(), o)).map(|v| v.iter().map(E::from_real).collect());
                if !same(&g, &want) {
                    ctx.fail(&c(), &format!("try_decode_stream_sync without settings gives {}, with the defaults {}", show(&g), show(&want)));
                }
            }
        }
    }
}
/// Agreement up to the wording of errors.
#[cfg(feature = "jsmock")]
fn agree<T: PartialEq>(a: &R<T>, b: &R<T>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => a.panic == b.panic,
        _ => false,
    }
}
fn encoding(ctx: &Ctx, v: &V, o: EncOpt) {
    ctx.add(1, 6, 1);
    let c = || super::values::case(v, o);
    let r = || v.to_real();
    let opt = || Some(o.to_real());
    let text = guard(|| toon::encode(r(), opt()));
    let lines = guard(|| toon::encode_lines(r(), opt()));
    let diff = |name: &str, got: String| ctx.fail(&c(), &format!("{name} gives {got}, encode {text:?}"));
    if lines.clone().map(|l| l.join("\n")) != text {
        diff("encode_lines", format!("{lines:?}"));
    }
    if let Ok(l) = &lines
        && l.iter().any(|x| x.contains('\n'))
    {
        diff("encode_lines", format!("a line with a newline in it: {l:?}"));
    }
    // through JSON, where the value can be written in it
    let real_v = r();
    let sv = serde_json::Value::from(real_v.clone());
    if JsonValue::from(sv.clone()) == real_v {
        let g = guard(|| toon::encode(sv.clone(), opt()));
        if g != text {
            diff("encode of a serde_json value", format!("{g:?}"));
        }
        let json = serde_json::to_string(&sv).unwrap();
        // serde_json's own reading of its own text may move a number by an ulp
        if let Ok(back) = serde_json::from_str::<serde_json::Value>(&json)
            && JsonValue::from(back.clone()) == real_v
        {
            let g = real::call(|| conversion::encode_to_toon_lines(&json, opt()));
            if g.as_ref().ok() != lines.as_ref().ok() {
                diff("encode_to_toon_lines", show(&g));
            }
            if o == EncOpt::DEFAULT {
                let g = real::call(|| toon::json_to_toon(&json));
                if g.as_ref().ok() != text.as_ref().ok() {
                    diff("json_to_toon", show(&g));
                }
                let g = real::call(|| conversion::encode_to_toon_lines(&json, None));
                if g.as_ref().ok() != lines.as_ref().ok() {
                    diff("encode_to_toon_lines without options", show(&g));
                }
                #[cfg(feature = "jsmock")]
                {
                    let g = guard(|| toon::wasm::encode(&json)).map_err(|m| m.to_string()).and_then(|x| x.map_err(|e| e.0));
                    if g != text {
                        diff("wasm encode", format!("{g:?}"));
                    }
                }
            }
        }
    }
    if o == EncOpt::DEFAULT {
        let none = || EncodeOptions { indent: None, delimiter: None, key_folding: None, flatten_depth: None, replacer: None };
        for (name, g) in [("encode without options", guard(|| toon::encode(r(), None))), ("encode with empty options", guard(|| toon::encode(r(), Some(none()))))] {
            if g != text {
                diff(name, format!("{g:?}"));
            }
        }
        if guard(|| toon::encode_lines(r(), None)) != lines {
            diff("encode_lines without options", String::new());
        }
    }
}
/// Every combination of settings, each left out, at its default or elsewhere.
fn subsets(ctx: &Ctx) {
    let row = |x: f64| obj(vec![("p", gv::n(x)), ("q r", s("u,v|w"))]);
    let vals = vec![
        obj(vec![("a", obj(vec![("b", obj(vec![("c", V::Arr(vec![gv::n(1.0), s("x|y")]))]))])), ("t", V::Arr(vec![row(1.0), row(2.0)]))]),
        V::Arr(vec![obj(vec![("a", obj(vec![("b", obj(vec![("c", gv::n(1.0))]))]))]), V::Arr(vec![s("p,q"), s("\t")])]),
        obj(vec![("a", obj(vec![("b", obj(vec![("c", obj(vec![("d", V::Obj(vec![]))]))]))])), ("a.b", gv::n(2.0))]),
        V::Arr(vec![gv::n(1.0), gv::n(2.0)]),
        s("a|b"),
        // longer than any likely built-in limit
        (0..120).fold(gv::n(1.0), |v, i| obj(vec![(["a", "b", "c"][i % 3], v)])),
        V::Arr((0..140).map(|i| row(i as f64)).collect()),
        V::Arr((0..300).map(|i| gv::n(i as f64)).collect()),
    ];
    ctx.family("encoder settings", "each of the 5 settings left out, at its default, or at 1-2 other values", || {
        let keep: toon::EncodeReplacer = Arc::new(|_, v, _| Some(v.clone()));
        let drop_c: toon::EncodeReplacer = Arc::new(|k, v, _| if k == "c" { None } else { Some(v.clone()) });
        let ind = [None, Some(2), Some(0), Some(5)];
        let del = [None, Some(','), Some('|'), Some('\t')];
        let fol = [None, Some(KeyFoldingMode::Off), Some(KeyFoldingMode::Safe)];
        let fla = [None, Some(usize::MAX), Some(2), Some(0)];
        let rep = [None, Some(keep), Some(drop_c)];
        ctx.par(4 * 4 * 3 * 4 * 3, |i| {
            let i = i as usize;
            let o = EncodeOptions {
                indent: ind[i % 4],
                delimiter: del[i / 4 % 4],
                key_folding: fol[i / 16 % 3],
                flatten_depth: fla[i / 48 % 4],
                replacer: rep[i / 192].clone(),
            };
            let full = EncodeOptions {
                indent: Some(o.indent.unwrap_or(2)),
                delimiter: Some(o.delimiter.unwrap_or(',')),
                key_folding: Some(o.key_folding.unwrap_or(KeyFoldingMode::Off)),
                flatten_depth: Some(o.flatten_depth.unwrap_or(usize::MAX)),
                replacer: o.replacer.clone().or_else(|| rep[1].clone()),
            };
            let name = || format!("{{\"indent\":\"{:?}\",\"delimiter\":\"{:?}\",\"fold\":\"{:?}\",\"flatten\":\"{:?}\",\"replacer\":{}}}", o.indent, o.delimiter, o.key_folding, o.flatten_depth, i / 192);
            for v in &vals {
                ctx.add(1, 4, 1);
                let (a, b) = (guard(|| toon::encode(v.to_real(), Some(o.clone()))), guard(|| toon::encode(v.to_real(), Some(full.clone()))));
                if a != b {
                    ctx.fail(&name(), &format!("{} gives {a:?}, with the defaults written out {b:?}", v.show()));
                }
                // No limit means no limit, not a large one.
                if full.flatten_depth == Some(usize::MAX) {
                    let deep = EncodeOptions { flatten_depth: Some(1_000_000), ..full.clone() };
                    let b = guard(|| toon::encode(v.to_real(), Some(deep)));
                    if a != b {
                        ctx.fail(&name(), &format!("{} gives {a:?}, with a depth limit beyond it {b:?}", v.show()));
                    }
                }
                let (a, b) = (guard(|| toon::encode_lines(v.to_real(), Some(o.clone()))), guard(|| toon::encode_lines(v.to_real(), Some(full.clone()))));
                if a != b {
                    ctx.fail(&name(), &format!("lines of {}: {a:?}, with the defaults written out {b:?}", v.show()));
                }
                let (a, b) = (guard(|| toon::encode_stream_events(v.to_real(), Some(o.clone()))), guard(|| toon::encode_stream_events(v.to_real(), Some(full.clone()))));
                if a != b {
                    ctx.fail(&name(), &format!("events of {}: {a:?}, with the defaults written out {b:?}", v.show()));
                }
                let json = serde_json::to_string(&serde_json::Value::from(v.to_real())).unwrap();
                let (a, b) = (real::call(|| conversion::encode_to_toon_lines(&json, Some(o.clone()))), real::call(|| conversion::encode_to_toon_lines(&json, Some(full.clone()))));
                if !same(&a, &b) || a.ok() != guard(|| toon::encode_lines(v.to_real(), Some(o.clone()))).ok() {
                    ctx.fail(&name(), &format!("encode_to_toon_lines of {json} differs"));
                }
            }
        });
    });
    let texts = ["a:\n  b: 1", "a:\n    b: 1", "a: 1\n\nb: 2", "a[2]: 1", "a.b: 1\na.c: 2", "a.b: 1\na: 2", "a[1]:\n\n  - 1", "a:\n\tb: 1", "[2]:\n   - 1", "a[1]{b}:\n  1\n\n  2", "\"x", "", "x y"];
    ctx.family("decoder settings", &format!("each of the 3 settings left out, at its default, or elsewhere, for {} texts and every entry point", texts.len()), || {
        let ind = [None, Some(2), Some(0), Some(1), Some(4)];
        let st = [None, Some(true), Some(false)];
        let ex = [None, Some(ExpandPathsMode::Off), Some(ExpandPathsMode::Safe)];
        ctx.par_grain(45, 1, |i| {
            let i = i as usize;
            let o = || DecodeOptions { indent: ind[i % 5], strict: st[i / 5 % 3], expand_paths: ex[i / 15] };
            let full = || real::dopt(ind[i % 5].unwrap_or(2), st[i / 5 % 3].unwrap_or(true), ex[i / 15] == Some(ExpandPathsMode::Safe));
            let so = || Some(DecodeStreamOptions { indent: o().indent, strict: o().strict });
            let sfull = || Some(DecodeStreamOptions { indent: full().indent, strict: full().strict });
            for t in texts {
                ctx.add(1, 6, 1);
                let c = || format!("{{\"text\":{},\"options\":{}}}", jstr(t), jstr(&format!("{:?}", o())));
                let l = || real::split(t);
                let check = |name: &str, ok: bool, got: String| {
                    if !ok {
                        ctx.fail(&c(), &format!("{name}: {got}"));
                    }
                };
                let (a, b) = (real::call(|| toon::try_decode(t, Some(o()))), real::call(|| toon::try_decode(t, Some(full()))));
                check("try_decode", same(&a, &b), format!("{} / {}", show(&a), show(&b)));
                let (a, b) = (real::call(|| toon::try_decode_from_lines(l(), Some(o()))), real::call(|| toon::try_decode_from_lines(l(), Some(full()))));
                check("try_decode_from_lines", same(&a, &b), format!("{} / {}", show(&a), show(&b)));
                let (a, b) = (real::call(|| conversion::decode_to_json_chunks(t, Some(o()))), real::call(|| conversion::decode_to_json_chunks(t, Some(full()))));
                check("decode_to_json_chunks", same(&a, &b), format!("{} / {}", show(&a), show(&b)));
                let (a, b) = (real::call(|| toon::try_decode_stream_sync(l(), so())), real::call(|| toon::try_decode_stream_sync(l(), sfull())));
                check("try_decode_stream_sync", same(&a, &b), format!("{} / {}", show(&a), show(&b)));
                let (a, b) = (real::call(|| block(toon::try_decode_stream(l(), so()))), real::call(|| toon::try_decode_stream_sync(l(), sfull())));
                check("try_decode_stream", same(&a, &b), format!("{} / {}", show(&a), show(&b)));
                #[cfg(feature = "async-stream")]
                {
                    let (a, b) = (real::call(|| block(toon::decode::try_decode_async(t, Some(o())))), real::call(|| toon::try_decode(t, Some(full()))));
                    check("try_decode_async", same(&a, &b), format!("{} / {}", show(&a), show(&b)));
                }
            }
        });
    });
}
/// Conversions into the value type.
fn conversions(ctx: &Ctx) {
    ctx.family("conversions", "native values and their JsonValue and serde_json forms", || {
        ctx.par_grain(1, 1, |_| {
            let check = |name: &str, a: JsonValue, b: V| {
                ctx.add(1, 1, 1);
                if V::from_real(&a) != b || guard(|| toon::encode(a.clone(), None)) != real::encode(&b, EncOpt::DEFAULT) {
                    ctx.fail(&jstr(name), &format!("converts to {a:?}, want {}", b.show()));
                }
            };
            for t in ["", "x", "1", "a\"b\n", "\u{1f600}"] {
                check("&str", t.into(), s(t));
                check("String", t.to_string().into(), s(t));
                check("serde string", serde_json::json!(t).into(), s(t));
            }
            for b in [true, false] {
                check("bool", b.into(), V::Bool(b));
                check("serde bool", serde_json::json!(b).into(), V::Bool(b));
            }
            for f in [0.0, 1.0, -1.5, 1e300, 5e-324, f64::MAX, f64::MIN_POSITIVE, -1e-7] {
                check("f64", f.into(), V::Num(f));
                check("serde f64", serde_json::json!(f).into(), V::Num(f));
            }
            check("negative zero", (-0.0).into(), V::Num(0.0));
            check("serde negative zero", serde_json::json!(-0.0).into(), V::Num(0.0));
            for f in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
                check("not finite", f.into(), V::Null);
            }
            for e in 0..64 {
                for d in [-1i64, 0, 1] {
                    let i = (1i64 << e.min(62)).wrapping_add(d);
                    for i in [i, -i] {
                        check("i64", i.into(), V::Num(i as f64));
                        check("serde i64", serde_json::json!(i).into(), V::Num(i as f64));
                    }
                    let u = (1u64 << e).wrapping_add_signed(d);
                    check("serde u64", serde_json::json!(u).into(), V::Num(u as f64));
                }
            }
            check("serde null", serde_json::Value::Null.into(), V::Null);
            check("Vec", vec![JsonValue::from(1i64), JsonValue::from("a")].into(), V::Arr(vec![gv::n(1.0), s("a")]));
            check("object", vec![("b".to_string(), JsonValue::from(1i64)), ("a".to_string(), JsonValue::from("a"))].into(), obj(vec![("b", gv::n(1.0)), ("a", s("a"))]));
            check("serde nested", serde_json::json!({"z": [1, {"y": null}], "a": {}}).into(), obj(vec![("z", V::Arr(vec![gv::n(1.0), obj(vec![("y", V::Null)])])), ("a", V::Obj(vec![]))]));
        });
    });
    let z = Size::of(ctx);
    gv::trees(ctx, z.tree - 1, &[V::Null, V::Bool(true), gv::n(-1.5), s("s\n")], &["b", "a"], &|v| {
        ctx.add(1, 2, 1);
        let there = serde_json::Value::from(v.to_real());
        let back = JsonValue::from(there.clone());
        if V::from_real(&back) != *v {
            ctx.fail(&jstr(&v.show()), &format!("becomes {there} and then {back:?}"));
        }
    });
}
pub fn c17(ctx: &Ctx) {
    let z = gd::Size::small(ctx);
    let f = |t: &str, i: usize| decoding(ctx, t, i, t.len() < 14);
    gd::more(ctx, false, &f);
    gd::line_docs(ctx, gd::Size { narrow: z.narrow - 1, ..z }, &f);
    gd::char_docs(ctx, gd::Size { chars: z.chars - 1, ..z }, &f);
    gd::neighbours(ctx, gd::Size { neighbours: z.neighbours - 1, ..z }, &f);
    let dotted = gd::indented(&["a.b: 1", "a: 2", "a.b.c:", "\"a.b\": 3", "a[1]{b.c}:", "- a.b: 4", "a:", "1"], &[0, 2]);
    gd::lines_family(ctx, "dotted lines", &dotted, if ctx.thorough { 4 } else { 3 }, 2, &f);
    let zs = Size::of(ctx);
    let e = |v: &V| {
        encoding(ctx, v, EncOpt::DEFAULT);
        encoding(ctx, v, EncOpt { indent: 1, delim: '|', fold: true, flatten: 3 });
    };
    gv::trees(ctx, zs.tree - 1, &gv::basic_leaves(), &["a", "b c"], &e);
    gv::strings(ctx, Size { word: 2, tok: 3, ..zs }, &|t| e(&gv::everywhere(t)));
    gv::layouts(ctx, &|v| encoding(ctx, v, EncOpt::DEFAULT));
    gv::sweeps(ctx, Size { sweep: 120, ..zs }, &|v| encoding(ctx, v, EncOpt::DEFAULT));
    gv::deviants(ctx, false, &|v| encoding(ctx, v, EncOpt::DEFAULT));
    gv::huge(ctx, &|v| encoding(ctx, v, EncOpt::DEFAULT));
    gd::huge(ctx, true, &|t, i| decoding(ctx, t, i, false));
    subsets(ctx);
    conversions(ctx);
    // invalid JSON text is an error of every function that takes it
    const BAD: [&str; 14] = ["{", "}", "[", "]", "\"a\"", ":", ",", "1", "null", "tru", " ", "\\", "-", "1e999"];
    let n = if ctx.thorough { 5 } else { 4 };
    ctx.family("JSON texts", &format!("all texts of at most {n} of {} JSON tokens", BAD.len()), || {
        for len in 0..=n {
            ctx.par(pow(BAD.len(), len), |i| {
                let t = crate::engine::tokens(&BAD, len, i);
                ctx.add(1, 2, 1);
                let want = serde_json::from_str::<serde_json::Value>(&t).map(|v| toon::encode(v, None)).ok();
                ctx.tally(if want.is_some() { "valid JSON" } else { "invalid JSON" });
                let a = real::call(|| toon::json_to_toon(&t));
                let b = real::call(|| conversion::encode_to_toon_lines(&t, None)).map(|l| l.join("\n"));
                for (name, g) in [("json_to_toon", a), ("encode_to_toon_lines", b)] {
                    if g.as_ref().ok() != want.as_ref() || matches!(&g, Err(f) if f.panic) {
                        ctx.fail(&jstr(&t), &format!("{name} gives {}, parsing and encoding {want:?}", show(&g)));
                    }
                }
                #[cfg(feature = "jsmock")]
                {
                    let g = guard(|| toon::wasm::encode(&t).ok());
                    if g != Ok(want.clone()) {
                        ctx.fail(&jstr(&t), &format!("wasm encode gives {g:?}, parsing and encoding {want:?}"));
                    }
                }
            });
        }
    });
}
