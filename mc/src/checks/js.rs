//! C24: JavaScript option objects, on the real bindings over a stand-in JavaScript host.
#[cfg(not(feature = "jsmock"))]
pub fn c24(_: &crate::engine::Ctx) {
    eprintln!("harness error: built without the JavaScript stand-in");
    std::process::exit(3);
}
#[cfg(feature = "jsmock")]
pub use mock::c24;

#[cfg(feature = "jsmock")]
mod mock {
    use crate::engine::{Ctx, guard, jstr};
    use crate::gen_docs as gd;
    use crate::gen_values::{self as gv, Size};
    use crate::model::value::{V, obj, s};
    use crate::real;
    use toon::options::{EncodeOptions, KeyFoldingMode};
    use wasm_bindgen::JsValue;

    #[derive(Clone, Debug, PartialEq)]
    enum J {
        Absent,
        Undefined,
        Null,
        Num(f64),
        Str(String),
        Bool(bool),
        Object,
        Array,
        Function,
        /// Throws when it is read.
        Throws,
    }
    use J::{Absent, Array, Bool, Function, Null, Num, Object, Str, Throws, Undefined};
    fn js(x: &J) -> Option<JsValue> {
        Some(match x {
            Absent | Undefined => JsValue::UNDEFINED,
            Null => JsValue::NULL,
            Num(n) => JsValue::from_f64(*n),
            Str(t) => JsValue::from_str(t),
            Bool(b) => JsValue::from_bool(*b),
            Object => JsValue::mock_object(vec![]),
            Array => JsValue::mock_array(vec![JsValue::from_f64(4.0)]),
            Function => JsValue(wasm_bindgen::Js::Function),
            Throws => return None,
        })
    }
    fn t(x: &str) -> J {
        Str(x.to_string())
    }
    fn object(props: &[(&str, &J)]) -> JsValue {
        JsValue::mock_object(props.iter().filter(|p| *p.1 != Absent).map(|(n, v)| (n.to_string(), js(v))).collect())
    }
    fn with(v: Vec<J>) -> Vec<J> {
        [Absent, Undefined, Null].into_iter().chain(v).collect()
    }
    fn num(p: &J) -> Option<usize> {
        if let Num(n) = p { Some(*n as usize) } else { None }
    }
    fn word(p: &J) -> Option<&str> {
        if let Str(t) = p { Some(t) } else { None }
    }
    type Got<T> = Result<Result<T, String>, String>;
    fn enc_js(json: &str, o: JsValue) -> Got<String> {
        guard(|| toon::wasm::encode_with_options(json, o).map_err(|e| e.0))
    }
    fn dec_js(text: &str, o: JsValue) -> Got<String> {
        guard(|| toon::wasm::decode_with_options(text, o).map_err(|e| e.0))
    }
    fn value_of(json: &str) -> Option<serde_json::Value> {
        serde_json::from_str(json).ok()
    }
    fn dec_native(text: &str, indent: usize, strict: bool, expand: bool) -> Option<String> {
        toon::try_decode(text, Some(real::dopt(indent, strict, expand))).ok().map(|v| serde_json::to_string(&serde_json::Value::from(v)).unwrap())
    }
    fn agrees(got: &Got<String>, want: &Option<String>) -> bool {
        match (got, want) {
            (Ok(Ok(a)), Some(b)) => a == b,
            (Ok(Err(_)), None) => true,
            _ => false,
        }
    }
    fn short(x: &impl std::fmt::Debug) -> String {
        format!("{x:?}").chars().take(300).collect()
    }
    fn encoding(ctx: &Ctx, json: &str, val: &Option<serde_json::Value>, [i, d, f, l]: [&J; 4], order: usize) {
        ctx.add(1, 1, 1);
        let o = EncodeOptions {
            indent: Some(num(i).unwrap_or(2)),
            delimiter: Some(word(d).and_then(|w| w.chars().next()).unwrap_or(',')),
            key_folding: Some(if word(f) == Some("safe") { KeyFoldingMode::Safe } else { KeyFoldingMode::Off }),
            flatten_depth: Some(num(l).unwrap_or(usize::MAX)),
            replacer: None,
        };
        let want = val.clone().map(|v| toon::encode(v, Some(o)));
        let mut props = [("indent", i), ("delimiter", d), ("keyFolding", f), ("flattenDepth", l)];
        props.rotate_left(order % 4);
        let got = enc_js(json, object(&props));
        if !agrees(&got, &want) {
            ctx.fail(&jstr(&format!("{json} {props:?}")), &format!("gives {}, the native call {}", short(&got), short(&want)));
        }
    }
    fn decoding(ctx: &Ctx, text: &str, [i, st, e]: [&J; 3], order: usize) {
        ctx.add(1, 1, 1);
        let strict = if let Bool(x) = st { *x } else { true };
        let want = guard(|| dec_native(text, num(i).unwrap_or(2), strict, word(e) == Some("safe"))).unwrap_or(None);
        let mut props = [("indent", i), ("strict", st), ("expandPaths", e)];
        props.rotate_left(order % 3);
        let got = dec_js(text, object(&props));
        if !agrees(&got, &want) {
            ctx.fail(&jstr(&format!("{text} {props:?}")), &format!("gives {}, the native call {}", short(&got), short(&want)));
        }
    }

    pub fn c24(ctx: &Ctx) {
        let indents = with([2, 0, 1, 3, 4, 8].map(|x| Num(x as f64)).into());
        let delims = with(vec![t(","), t("|"), t("\t")]);
        let folds = with(vec![t("off"), t("safe")]);
        let depths = with([0, 1, 2, 3, 4, 100].map(|x| Num(x as f64)).into());
        let stricts = with(vec![Bool(true), Bool(false)]);
        let jsons = [
            r#"{"a":{"b":{"c":[1,"x|y",{"d":2}]}},"t":[{"p":1,"q":"u,v"},{"p":2,"q":"\t"}]}"#,
            r#"{"a":{"b":{"c":{"d":{"e":1}}}},"f":{"g":[]}}"#,
            r#"[1,"a,b","c|d"]"#,
            r#"{"a":"#,
            "\"x\"",
            r#"[{"a":{"b":{"c":1}}},[{"x":"p|q","y":"r\ts"}]]"#,
        ];
        let vals: Vec<_> = jsons.iter().map(|j| value_of(j)).collect();
        ctx.family("encoder option objects", "every documented value of every property, absent, undefined and null, in every order", || {
            let (a, b, c, d) = (indents.len(), delims.len(), folds.len(), depths.len());
            ctx.par((a * b * c * d) as u64, |i| {
                let i = i as usize;
                for (k, j) in jsons.iter().enumerate() {
                    for order in 0..4 {
                        encoding(ctx, j, &vals[k], [&indents[i % a], &delims[i / a % b], &folds[i / a / b % c], &depths[i / a / b / c]], order);
                    }
                }
            });
        });
        let texts = ["a.b: 1\na.c: 2", "a:\n    b: 1", "a[2]: 1", "a.b: 1\na: 2", "a[1]:\n\n  - 1", "a:\n  b: 1", "a: \"x", "", "a:\n   b: 1\n      c: 2", "a[1]{b.c}:\n    1\n  2"];
        ctx.family("decoder option objects", "every documented value of every property, absent, undefined and null, in every order", || {
            let (a, b, c) = (indents.len(), stricts.len(), folds.len());
            ctx.par((a * b * c) as u64, |i| {
                let i = i as usize;
                for text in texts {
                    for order in 0..3 {
                        decoding(ctx, text, [&indents[i % a], &stricts[i / a % b], &folds[i / a / b]], order);
                    }
                }
            });
        });
        // numbers of spaces and depths one by one
        let big = [100.0, 127.0, 128.0, 129.0, 255.0, 256.0, 257.0, 300.0, 1000.0, 1024.0];
        let huge = [65535.0, 65536.0, 65537.0, 2_147_483_647.0, 2_147_483_648.0, 4_294_967_295.0, 4_294_967_296.0, 4_294_967_297.0, 9_007_199_254_740_991.0];
        ctx.family("numbers", "every indentation up to 66 and some larger, every flatten depth up to 66 and some up to 2^53, with every other setting", || {
            let deep = obj(vec![("p", (0..70).fold(gv::n(1.0), |v, _| obj(vec![("a", v)]))), ("q", obj(vec![("b", obj(vec![("c", V::Arr(vec![gv::n(1.0), gv::n(2.0)]))]))]))]);
            let deep = serde_json::to_string(&serde_json::Value::from(deep.to_real())).unwrap();
            let dv = value_of(&deep);
            let ns: Vec<f64> = (0..=66).map(f64::from).chain(big).chain(huge).collect();
            ctx.par_grain(ns.len() as u64, 1, |i| {
                let n = Num(ns[i as usize]);
                for d in &delims {
                    for f in &folds {
                        for (j, v) in jsons.iter().zip(&vals).chain([(&deep.as_str(), &dv)]) {
                            encoding(ctx, j, v, [&Absent, d, f, &n], 0);
                            if ns[i as usize] < 2000.0 {
                                encoding(ctx, j, v, [&n, d, f, &Absent], 0);
                            }
                        }
                    }
                }
                if ns[i as usize] < 2000.0 {
                    let w = ns[i as usize] as usize;
                    for st in &stricts {
                        for e in &folds {
                            for text in texts {
                                decoding(ctx, text, [&n, st, e], 0);
                            }
                            for by in [w.saturating_sub(1), w, w + 1, w * 2] {
                                let p = " ".repeat(by);
                                decoding(ctx, &format!("a.b:\n{p}c: 1\n{p}d[1]:\n{p}{p}- x"), [&n, st, e], 0);
                            }
                        }
                    }
                }
            });
        });
        ctx.family("delimiters", "every Unicode scalar value as delimiter, alone and before another character", || {
            let j = r#"{"a":[1,"x,y","p|q","r\ts"],"t":[{"p":1,"q":"u,v"},{"p":2,"q":"|"}]}"#;
            let v = value_of(j);
            ctx.par(crate::engine::SCALARS, |i| {
                let Some(c) = char::from_u32(i as u32) else { return };
                for d in [c.to_string(), format!("{c}|")] {
                    encoding(ctx, j, &v, [&Absent, &Str(d), &Absent, &Absent], 0);
                }
            });
        });
        // all values and texts, settings chosen to differ from the defaults
        let z = Size::of(ctx);
        let of_value = |v: &V| {
            let json = serde_json::to_string(&serde_json::Value::from(v.to_real())).unwrap();
            let val = value_of(&json);
            encoding(ctx, &json, &val, [&Absent, &Absent, &Absent, &Absent], 0);
            encoding(ctx, &json, &val, [&Num(4.0), &t("|"), &t("safe"), &Absent], 0);
            encoding(ctx, &json, &val, [&Num(1.0), &t("\t"), &t("safe"), &Num(2.0)], 1);
        };
        gv::trees(ctx, z.tree - 1, &gv::basic_leaves(), &["a", "b", "c d"], &of_value);
        gv::strings(ctx, Size { word: 2, tok: 3, ..z }, &|t| of_value(&gv::everywhere(t)));
        gv::scalars(ctx, &|c| of_value(&V::Obj(vec![(format!("{c}"), s(&format!("{c}")))])));
        gv::sweeps(ctx, Size { sweep: 70, ..z }, &of_value);
        let of_text = |text: &str, indent: usize| {
            let n = Num(indent as f64);
            decoding(ctx, text, [&n, &Bool(true), &Absent], 0);
            decoding(ctx, text, [&n, &Bool(false), &t("safe")], 1);
            decoding(ctx, text, [&n, &Absent, &t("safe")], 2);
        };
        let zd = gd::Size::small(ctx);
        gd::line_docs(ctx, zd, &of_text);
        gd::literals(ctx, &of_text);
        let dotted = gd::indented(&["a.b: 1", "a: 2", "a.b.c:", "\"a.b\": 3", "a[1]{b.c}:", "- a.b: 4", "a:", "1"], &[0, 2]);
        gd::lines_family(ctx, "dotted lines", &dotted, if ctx.thorough { 4 } else { 3 }, 2, &of_text);

        ctx.family("no option object", "undefined, null, arrays, functions and values that are no objects", || {
            ctx.par_grain(1, 1, |_| {
                for x in [Undefined, Null, Num(1.0), Num(0.0), t("indent"), t(""), t("x"), Bool(true), Bool(false), Array, Function, Object] {
                    let val = || js(&x).unwrap();
                    for (j, v) in jsons.iter().zip(&vals) {
                        ctx.add(1, 1, 1);
                        let got = enc_js(j, val());
                        let want = if matches!(x, Undefined | Null | Object | Array | Function) { v.clone().map(|v| toon::encode(v, None)) } else { None };
                        if !agrees(&got, &want) && !(matches!(x, Array | Function) && matches!(got, Ok(Err(_)))) {
                            ctx.fail(&jstr(&format!("{j} {x:?}")), &format!("gives {got:?}, wanted {want:?}"));
                        }
                    }
                    for text in texts {
                        ctx.add(1, 1, 1);
                        let got = dec_js(text, val());
                        let want = if matches!(x, Undefined | Null | Object | Array | Function) { dec_native(text, 2, true, false) } else { None };
                        if !agrees(&got, &want) && !(matches!(x, Array | Function) && matches!(got, Ok(Err(_)))) {
                            ctx.fail(&jstr(&format!("{text} {x:?}")), &format!("gives {got:?}, wanted {want:?}"));
                        }
                    }
                }
            });
        });
        // a value that is not documented is rejected or counts as left out, whatever else is set
        let words = ["", " ", "Safe", "SAFE", "safe ", " safe", "saf", "safer", "sAfe", "Off", "OFF", "on", "true", "false", "yes", "1", "0", "4", "none", "comma", "tab", "\u{17f}afe", "safe\0", "unsafe", "null", "strict"];
        let odd: Vec<J> = [Throws, Undefined, Null, Object, Array, Function, Bool(true), Bool(false), Num(0.0), Num(1.0), Num(3.0), Num(f64::NAN), Num(f64::INFINITY)].into_iter().chain(words.iter().map(|w| t(w))).collect();
        let fine = |name: &str, x: &J| match name {
            "indent" | "flattenDepth" => matches!(x, Num(_)),
            "strict" => matches!(x, Bool(_)),
            "delimiter" => matches!(x, Str(w) if !w.is_empty()),
            _ => word(x).is_some_and(|w| w == "off" || w == "safe"),
        };
        let base: [(&str, Vec<J>); 4] = [
            ("indent", vec![Absent, Num(4.0)]),
            ("delimiter", vec![Absent, t("|")]),
            ("keyFolding", vec![Absent, t("safe"), t("off")]),
            ("flattenDepth", vec![Absent, Num(2.0)]),
        ];
        let dbase: [(&str, Vec<J>); 3] = [("indent", vec![Absent, Num(4.0)]), ("strict", vec![Absent, Bool(false), Bool(true)]), ("expandPaths", vec![Absent, t("safe"), t("off")])];
        let same = |got: &Got<String>, want: &Got<String>| match (got, want) {
            (Ok(Err(_)), _) => true,
            (Ok(Ok(a)), Ok(Ok(b))) => a == b,
            _ => false,
        };
        let combos = |b: &[(&'static str, Vec<J>)], f: &mut dyn FnMut(&[(&str, &J)])| {
            let n: usize = b.iter().map(|x| x.1.len()).product();
            for mut i in 0..n {
                let mut p: Vec<(&str, &J)> = vec![];
                for (name, v) in b {
                    p.push((name, &v[i % v.len()]));
                    i /= v.len();
                }
                f(&p);
            }
        };
        ctx.family("undocumented values", &format!("each property of a wrong type, unknown word, or throwing ({} values), beside every combination of the others", odd.len()), || {
            ctx.par_grain(odd.len() as u64, 1, |i| {
                let bad = &odd[i as usize];
                combos(&base, &mut |p| {
                    for q in 0..p.len() {
                        if *p[q].1 != Absent || fine(p[q].0, bad) {
                            continue;
                        }
                        let mut with = p.to_vec();
                        with[q].1 = bad;
                        for j in jsons {
                            ctx.add(1, 1, 1);
                            let (got, want) = (enc_js(j, object(&with)), enc_js(j, object(p)));
                            if !same(&got, &want) {
                                ctx.fail(&jstr(&format!("{j} {with:?}")), &format!("gives {got:?}, without it {want:?}"));
                            }
                        }
                    }
                });
                combos(&dbase, &mut |p| {
                    for q in 0..p.len() {
                        if *p[q].1 != Absent || fine(p[q].0, bad) {
                            continue;
                        }
                        let mut with = p.to_vec();
                        with[q].1 = bad;
                        for text in texts {
                            ctx.add(1, 1, 1);
                            let (got, want) = (dec_js(text, object(&with)), dec_js(text, object(p)));
                            if !same(&got, &want) {
                                ctx.fail(&jstr(&format!("{text} {with:?}")), &format!("gives {got:?}, without it {want:?}"));
                            }
                        }
                    }
                });
            });
        });
        // names that are no property of the object, among them those of the other direction and other spellings
        let others = ["Indent", "indentSize", "indentation", "key_folding", "keyfolding", "KeyFolding", "flatten_depth", "flattendepth", "delim", "Delimiter", "replacer", "expand_paths", "expandpaths", "Strict", "lenient", "", "length", "toString", "__proto__"];
        ctx.family("other properties", &format!("{} names that mean nothing or belong to the other direction, with {} values, beside every combination of properties", others.len(), odd.len()), || {
            ctx.par_grain(odd.len() as u64, 1, |i| {
                let x = &odd[i as usize];
                combos(&base, &mut |p| {
                    for name in others.iter().chain(&["strict", "expandPaths"]) {
                        let mut with = p.to_vec();
                        with.insert(i as usize % 5, (name, x));
                        for j in jsons {
                            ctx.add(1, 1, 1);
                            let (got, want) = (enc_js(j, object(&with)), enc_js(j, object(p)));
                            if !same(&got, &want) {
                                ctx.fail(&jstr(&format!("{j} {with:?}")), &format!("gives {got:?}, without it {want:?}"));
                            }
                        }
                    }
                });
                combos(&dbase, &mut |p| {
                    for name in others.iter().chain(&["delimiter", "keyFolding", "flattenDepth"]) {
                        let mut with = p.to_vec();
                        with.insert(i as usize % 4, (name, x));
                        for text in texts {
                            ctx.add(1, 1, 1);
                            let (got, want) = (dec_js(text, object(&with)), dec_js(text, object(p)));
                            if !same(&got, &want) {
                                ctx.fail(&jstr(&format!("{text} {with:?}")), &format!("gives {got:?}, without it {want:?}"));
                            }
                        }
                    }
                });
            });
        });
        if guard(toon::wasm::version) != Ok(version()) {
            ctx.fail("\"version\"", "version() is not the crate's version");
        }
    }
    fn version() -> String {
        let t = std::fs::read_to_string("/repo/Cargo.toml").unwrap_or_default();
        t.lines().find_map(|l| l.strip_prefix("version = \"")).and_then(|l| l.split('"').next()).unwrap_or("").to_string()
    }
}
