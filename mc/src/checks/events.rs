//! Checks over event sequences, JSON writers and replacers.
use super::values::case;
use crate::engine::{Ctx, guard, jstr, pow};
use crate::gen_values::{self as gv, Size};
use crate::model::enc::{self, EncOpt};
use crate::model::events::{self, N};
use crate::model::repl::{self, Seg, Visit};
use crate::model::value::{E, V, obj, s, show_events};
use crate::model::json;
use crate::real;
use std::sync::{Arc, Mutex};
use toon::JsonStreamEvent;
use toon::cli::json_stream::json_stream_from_events;
use toon::cli::json_stringify::json_stringify_lines;
use toon::decode::event_builder::{NodeValue, build_node_from_events};
use toon::options::PathSegment;

// ---------------------------------------------------------------- C11

fn from_node(n: &NodeValue) -> N {
    match n {
        NodeValue::Primitive(p) => N::P(V::from_prim(p)),
        NodeValue::Array(a) => N::A(a.iter().map(from_node).collect()),
        NodeValue::Object(o) => {
            N::O(o.entries.iter().map(|(k, v)| (k.clone(), from_node(v))).collect(), o.quoted_keys.clone())
        }
    }
}
fn consume(ctx: &Ctx, ev: &[E], indents: &[usize]) {
    ctx.add(1, ev.len() as u64, 1);
    let c = || format!("{{\"events\":{}}}", jstr(&show_events(ev)));
    let want = events::build(ev);
    ctx.tally(if want.is_some() { "well-formed" } else { "malformed" });
    let re = || ev.iter().map(E::to_real).collect::<Vec<JsonStreamEvent>>();
    match (real::call(|| build_node_from_events(re())), &want) {
        (Ok(n), Some(w)) if from_node(&n) == *w => {}
        (Ok(n), Some(w)) => ctx.fail(&c(), &format!("built {}, denotes {}", from_node(&n).value().show(), w.value().show())),
        (Ok(n), None) => ctx.fail(&c(), &format!("malformed, yet built {}", from_node(&n).value().show())),
        (Err(f), Some(_)) => ctx.fail(&c(), &format!("well-formed, yet: {}", f.msg)),
        (Err(f), None) if f.panic => ctx.fail(&c(), &format!("panicked: {}", f.msg)),
        (Err(_), None) => {}
    }
    for &i in indents {
        match (real::call(|| json_stream_from_events(re(), i)), &want) {
            (Ok(t), Some(w)) => {
                let t = t.concat();
                if let Err(m) = json::check(&t, &w.value(), i) {
                    ctx.fail(&c(), &format!("indent {i}: wrote {t:?}: {m}"));
                }
            }
            (Ok(t), None) => ctx.fail(&c(), &format!("malformed, yet written as {:?}", t.concat())),
            (Err(f), Some(_)) => ctx.fail(&c(), &format!("indent {i}: well-formed, yet: {}", f.msg)),
            (Err(f), None) if f.panic => ctx.fail(&c(), &format!("panicked: {}", f.msg)),
            (Err(_), None) => {}
        }
    }
}
fn sequences(ctx: &Ctx, name: &str, alphabet: &[E], depth: usize) {
    ctx.family(name, &format!("all event sequences of at most {depth} events over {}", alphabet.len()), || {
        for len in 0..=depth {
            ctx.par(pow(alphabet.len(), len), |mut i| {
                let k = alphabet.len() as u64;
                let mut ev = Vec::with_capacity(len);
                for _ in 0..len {
                    ev.push(alphabet[(i % k) as usize].clone());
                    i /= k;
                }
                consume(ctx, &ev, if len < depth { &[0, 1, 3] } else { &[2] });
            });
        }
    });
}
pub fn c11(ctx: &Ctx) {
    let t = ctx.thorough;
    let k = |x: &str, q| E::Key(x.into(), q);
    let small = [E::SO, E::EO, E::SA(1), E::EA, k("a", false), E::Prim(s("v"))];
    sequences(ctx, "six kinds", &small, if t { 9 } else { 8 });
    let broad = [
        E::SO, E::EO, E::SA(0), E::SA(usize::MAX), E::EA, k("a", false), k("a", true), k("b\"\n", true), k("", false),
        E::Prim(V::Null), E::Prim(gv::n(-1.5)), E::Prim(s("x\\")),
    ];
    sequences(ctx, "varied events", &broad, if t { 6 } else { 5 });
    // every edit of the traversal of every small value
    let tr = crate::engine::Trees::new(vec![gv::n(1.0), s("x")], &["a", "b"], 6);
    let top = if t { 6 } else { 5 };
    ctx.family("edited traversals", &format!("every deletion, insertion, replacement, swap and cut of one event in the traversal of all values with at most {top} nodes"), || {
        for size in 1..=top {
            ctx.par(tr.count(size), |i| {
                let mut ev = vec![];
                enc::events(&tr.get(size, i), &mut ev);
                consume(ctx, &ev, &[0, 1, 2, 5]);
                for p in 0..ev.len() {
                    let mut e = ev.clone();
                    e.remove(p);
                    consume(ctx, &e, &[2]);
                    consume(ctx, &ev[..p], &[2]);
                    consume(ctx, &ev[p + 1..], &[2]);
                    if p > 0 {
                        let mut e = ev.clone();
                        e.swap(p - 1, p);
                        consume(ctx, &e, &[2]);
                    }
                }
                for p in 0..=ev.len() {
                    for x in &small {
                        let mut e = ev.clone();
                        e.insert(p, x.clone());
                        consume(ctx, &e, &[0]);
                        if p < ev.len() {
                            let mut e = ev.clone();
                            e[p] = x.clone();
                            consume(ctx, &e, &[0]);
                        }
                    }
                }
            });
        }
    });
    ctx.family("deep and wide", "chains and rows of every length up to 300, complete, cut short by one and with one end too many", || {
        ctx.par(301, |d| {
            let d = d as usize;
            for kind in 0..4 {
                let mut ev = vec![];
                let obj_at = |l: usize| match kind { 0 => true, 1 => false, _ => l % 2 == 0 };
                if kind < 3 {
                    for l in 0..d {
                        if obj_at(l) { ev.extend([E::SO, k("a", l % 3 == 0)]) } else { ev.push(E::SA(1)) }
                    }
                    ev.push(E::Prim(V::Bool(true)));
                    for l in (0..d).rev() {
                        ev.push(if obj_at(l) { E::EO } else { E::EA });
                    }
                } else {
                    ev.push(E::SO);
                    for j in 0..d {
                        ev.extend([E::Key(format!("k{j}"), false), E::SA(1), E::Prim(gv::n(j as f64)), E::EA]);
                    }
                    ev.push(E::EO);
                }
                consume(ctx, &ev, &[0, 1, 2]);
                consume(ctx, &ev[..ev.len() - 1], &[0]);
                ev.push(E::EA);
                consume(ctx, &ev, &[0]);
                ev.pop();
                ev.push(E::EO);
                consume(ctx, &ev, &[0]);
            }
        });
    });
    deep_faults(ctx);
}

/// Deep traversals with one event that does not fit.
fn deep_faults(ctx: &Ctx) {
    let top = if ctx.thorough { 300usize } else { 140 };
    ctx.family("deep faults", &format!("nestings of every depth up to {top} in 5 mixtures of objects and arrays, one event at every place left out, doubled, or put for another kind"), || {
        ctx.par_grain(top as u64, 1, |i| {
            let d = top - i as usize;
            for kind in 0..5 {
                let obj_at = |l: usize| match kind { 0 => true, 1 => false, 2 => l % 2 == 0, 3 => l == 0, _ => l % 3 == 0 };
                let mut ev = vec![];
                for l in 0..d {
                    if obj_at(l) { ev.extend([E::SO, E::Key("a".into(), false)]) } else { ev.push(E::SA(1)) }
                }
                ev.push(E::Prim(V::Null));
                ev.extend((0..d).rev().map(|l| if obj_at(l) { E::EO } else { E::EA }));
                // all places up to 70 deep, beyond that those around the ends and the multiples of 64
                let places: Vec<usize> = (0..ev.len()).filter(|p| d <= 70 || ctx.thorough || *p < 8 || *p + 8 > ev.len() || (*p % 64) < 3 || (ev.len() - *p) % 64 < 3 || p.abs_diff(ev.len() / 2) < 4).collect();
                for p in places {
                    let mut e = ev.clone();
                    let x = e.remove(p);
                    consume(ctx, &e, &[0]);
                    let other = match &x {
                        E::SO => E::SA(1),
                        E::SA(_) => E::SO,
                        E::EO => E::EA,
                        E::EA => E::EO,
                        E::Key(..) => E::Prim(V::Null),
                        E::Prim(_) => E::Key("b".into(), false),
                    };
                    e.insert(p, other);
                    consume(ctx, &e, &[0]);
                    e[p] = x.clone();
                    e.insert(p, x);
                    consume(ctx, &e, &[0]);
                }
            }
        });
    });
}

// ---------------------------------------------------------------- C12

fn from_serde(v: &serde_json::Value) -> V {
    use serde_json::Value as J;
    match v {
        J::Null => V::Null,
        J::Bool(b) => V::Bool(*b),
        J::Number(n) => V::Num(n.as_f64().unwrap_or(f64::NAN)),
        J::String(t) => V::Str(t.clone()),
        J::Array(a) => V::Arr(a.iter().map(from_serde).collect()),
        J::Object(m) => V::Obj(m.iter().map(|(k, v)| (k.clone(), from_serde(v))).collect()),
    }
}
/// Equal but for the last bits of numbers: serde_json's default number reader is not exact.
fn close(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Num(x), V::Num(y)) => x.to_bits().abs_diff(y.to_bits()) <= 2,
        (V::Arr(x), V::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| close(x, y)),
        (V::Obj(x), V::Obj(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.0 == y.0 && close(&x.1, &y.1)),
        _ => a == b,
    }
}
fn written(ctx: &Ctx, v: &V, indents: &[usize]) {
    // the event writer sees what an event stream can carry: no -0, no infinities
    let v = v.normal();
    let mut ev = vec![];
    enc::events(&v, &mut ev);
    for &i in indents {
        ctx.add(1, ev.len() as u64, 2);
        let c = || format!("{{\"value\":{},\"indent\":{i}}}", jstr(&v.show()));
        let r = v.to_real();
        let a = match guard(|| json_stringify_lines(&r, i).concat()) {
            Ok(a) => a,
            Err(p) => {
                ctx.fail(&c(), &format!("panicked: {p}"));
                continue;
            }
        };
        if let Err(m) = json::check(&a, &v, i) {
            ctx.fail(&c(), &format!("wrote {a:?}: {m}"));
        }
        let re: Vec<JsonStreamEvent> = ev.iter().map(E::to_real).collect();
        match real::call(|| json_stream_from_events(re, i)) {
            Ok(b) if b.concat() == a => {}
            Ok(b) => ctx.fail(&c(), &format!("from the value {a:?}, from its events {:?}", b.concat())),
            Err(f) => ctx.fail(&c(), &format!("from its events: {}", f.msg)),
        }
        if i == indents[0] && v.depth() < 120 {
            match serde_json::from_str::<serde_json::Value>(&a) {
                Ok(j) if close(&from_serde(&j), &v) => {}
                Ok(j) => ctx.fail(&c(), &format!("serde_json reads {} from {a:?}", from_serde(&j).show())),
                Err(e) => ctx.fail(&c(), &format!("serde_json rejects {a:?}: {e}")),
            }
        }
    }
}
pub fn c12(ctx: &Ctx) {
    let z = Size::of(ctx);
    gv::trees(ctx, z.tree, &[V::Null, gv::n(1.0), s("s"), V::Bool(true)], &["a", "b\""], &|v| written(ctx, v, &[2, 0, 1]));
    gv::strings(ctx, z, &|t| written(ctx, &obj(vec![("v", V::Arr(vec![s(t), V::Obj(vec![(t.to_string(), s(t))])]))]), &[0, 2]));
    gv::scalars(ctx, &|c| {
        for t in [c.to_string(), format!("a{c}b"), format!("{c}{c}1")] {
            written(ctx, &V::Obj(vec![(t.clone(), s(&t))]), &[0]);
        }
    });
    ctx.family("control pairs", "all pairs of the first 256 characters and 12 others", || {
        let mut a: Vec<char> = (0..=255u32).filter_map(char::from_u32).collect();
        a.extend(['\u{2028}', '\u{2029}', '\u{fffe}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{10000}', '\u{1f600}', '\u{feff}', '\u{200b}', '\u{301}']);
        let n = a.len() as u64;
        ctx.par(n * n, |i| written(ctx, &s(&[a[(i % n) as usize], a[(i / n) as usize]].iter().collect::<String>()), &[2]));
    });
    super::strings::numbers(ctx, &|x| written(ctx, &V::Arr(vec![gv::n(x), gv::n(-x)]), &[0]));
    gv::layouts(ctx, &|v| written(ctx, v, &[4, 0, 2, 16]));
    gv::sweeps(ctx, z, &|v| written(ctx, v, &[2, 0, 3]));
    gv::deviants(ctx, true, &|v| written(ctx, v, &[2, 0]));
    gv::single_deviants(ctx, &|v| written(ctx, v, &[0]));
    gv::odd_levels(ctx, &|v| written(ctx, v, &[0, 3]));
    gv::spotted(ctx, &|t| {
        written(ctx, &V::Arr(vec![s(t)]), &[0]);
        written(ctx, &V::Obj(vec![(t.to_string(), V::Null)]), &[1]);
    });
    gv::huge(ctx, &|v| written(ctx, v, &[2, 0]));
    ctx.family("indents", "every indentation up to 40 on nested values up to depth 40", || {
        ctx.par_grain(41 * 41, 8, |i| {
            let (ind, d) = ((i % 41) as usize, i / 41);
            let mut v = V::Arr(vec![V::Obj(vec![]), V::Arr(vec![]), gv::n(1.0)]);
            for l in 0..d {
                v = if l % 2 == 0 { obj(vec![("a", v), ("b", V::Arr(vec![]))]) } else { V::Arr(vec![V::Obj(vec![]), v]) };
            }
            written(ctx, &v, &[ind]);
        });
    });
}

// ---------------------------------------------------------------- C13

/// The answers a replacer can give.
const ANSWERS: usize = 9;
fn answer(k: usize, v: &V) -> Option<V> {
    match k {
        0 => Some(v.clone()),
        1 => None,
        2 => Some(gv::n(7.0)),
        3 => Some(V::Arr(vec![])),
        4 => Some(obj(vec![("n", gv::n(-0.0))])),
        5 => Some(V::Arr(vec![gv::n(f64::NAN), V::Arr(vec![s("q")])])),
        6 => Some(V::Arr(vec![v.clone()])),
        7 => Some(obj(vec![("a", v.clone()), ("", gv::n(f64::INFINITY))])),
        _ => Some(V::Arr(vec![obj(vec![("p", gv::n(1.0)), ("q", s("x"))]), obj(vec![("p", gv::n(2.0)), ("q", s(""))])])),
    }
}
fn from_path(p: &[PathSegment]) -> Vec<Seg> {
    p.iter()
        .map(|x| match x {
            PathSegment::Key(k) => Seg::K(k.clone()),
            PathSegment::Index(i) => Seg::I(*i),
        })
        .collect()
}
fn real_replacer(choices: Arc<Vec<usize>>, log: Arc<Mutex<Vec<Visit>>>) -> toon::EncodeReplacer {
    Arc::new(move |k, v, p| {
        let v = V::from_real(v);
        let mut l = log.lock().unwrap();
        let n = l.len();
        l.push((k.to_string(), v.clone(), from_path(p)));
        answer(choices.get(n).copied().unwrap_or(0), &v).map(|v| v.to_real())
    })
}
fn show_visits(l: &[Visit]) -> String {
    l.iter().map(|(k, v, p)| format!("{k:?}@{p:?}={}", v.show())).collect::<Vec<_>>().join(" ; ")
}
fn replaced(ctx: &Ctx, v: &V, choices: &[usize], o: EncOpt) -> Vec<bool> {
    let mut log: Vec<Visit> = vec![];
    let want = repl::apply(v, &mut |k, x, p| {
        let n = log.len();
        log.push((k.to_string(), x.clone(), p.to_vec()));
        answer(choices.get(n).copied().unwrap_or(0), x)
    });
    ctx.add(1, log.len() as u64, 1);
    let c = || format!("{{\"value\":{},\"answers\":{choices:?},\"fold\":{},\"indent\":{}}}", jstr(&v.show()), o.fold, o.indent);
    let arc = Arc::new(choices.to_vec());
    let run = |what: usize| -> Result<(Option<Vec<String>>, Option<Vec<E>>, Vec<Visit>), String> {
        let l = Arc::new(Mutex::new(vec![]));
        let mut opt = o.to_real();
        opt.replacer = Some(real_replacer(arc.clone(), l.clone()));
        let r = v.to_real();
        let out = guard(|| match what {
            0 => (Some(toon::encode_lines(r, Some(opt))), None),
            1 => (Some(vec![toon::encode(r, Some(opt))]), None),
            _ => (None, Some(toon::encode_stream_events(r, Some(opt)).iter().map(E::from_real).collect())),
        })?;
        let l = l.lock().unwrap().clone();
        Ok((out.0, out.1, l))
    };
    let lines = enc::encode_lines(&want, o);
    let mut ev = vec![];
    enc::events(&want, &mut ev);
    for what in 0..3 {
        match run(what) {
            Err(p) => ctx.fail(&c(), &format!("panicked: {p}")),
            Ok((t, e, l)) => {
                if l != log {
                    ctx.fail(&c(), &format!("visits {}; documented {}", show_visits(&l), show_visits(&log)));
                }
                let ok = match what {
                    0 => t.as_ref() == Some(&lines),
                    1 => t.as_ref().is_some_and(|t| t[0] == lines.join("\n")),
                    _ => e.as_ref() == Some(&ev),
                };
                if !ok {
                    ctx.fail(&c(), &format!("gives {t:?} {:?}, transformed value is {}", e.map(|e| show_events(&e)), want.show()));
                }
            }
        }
    }
    log.iter().map(|_| true).collect()
}
/// All answer sequences with at most `budget` answers other than "keep".
fn all_answers(ctx: &Ctx, v: &V, budget: usize, o: EncOpt) {
    let mut choices: Vec<usize> = vec![];
    loop {
        let visits = replaced(ctx, v, &choices, o).len();
        // next sequence: change the last visit that can still change
        choices.resize(visits, 0);
        let mut i = visits;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            let used = choices[..i].iter().filter(|c| **c != 0).count();
            if used < budget && choices[i] + 1 < ANSWERS {
                choices[i] += 1;
                choices.truncate(i + 1);
                break;
            }
        }
    }
}
pub fn c13(ctx: &Ctx) {
    let t = ctx.thorough;
    let tr = crate::engine::Trees::new(vec![gv::n(1.0), s("x")], &["a", "0"], 6);
    let fold = EncOpt { fold: true, indent: 1, ..EncOpt::DEFAULT };
    for (top, budget) in if t { [(6, 1), (5, 2), (4, 3)] } else { [(5, 1), (4, 2), (3, 3)] } {
        ctx.family("decision trees", &format!("every sequence of answers with at most {budget} other than keep ({ANSWERS} kinds), for all values with at most {top} nodes"), || {
            for size in 1..=top {
                ctx.par_grain(tr.count(size), 4, |i| {
                    let v = tr.get(size, i);
                    all_answers(ctx, &v, budget, if i % 2 == 0 { EncOpt::DEFAULT } else { fold });
                });
            }
        });
    }
    let keep = |v: &V| {
        replaced(ctx, v, &[], EncOpt::DEFAULT);
        let plain = real::encode(v, fold);
        let mut o = fold.to_real();
        o.replacer = Some(Arc::new(|_, v, _| Some(v.clone())));
        let r = v.to_real();
        if guard(|| toon::encode(r, Some(o))) != plain {
            ctx.fail(&case(v, fold), "a replacer that keeps everything changes the output");
        }
    };
    gv::layouts(ctx, &|v| {
        keep(v);
        let steps = [(0, 1), (1, 1), (2, 6), (1, 7), (3, 8), (4, 1), (6, 5), (7, 1), (9, 3)];
        let one = v.show().len() % steps.len();
        for (i, k) in if t { steps.to_vec() } else { vec![steps[one]] } {
            let mut ch = vec![0; i];
            ch.push(k);
            replaced(ctx, v, &ch, EncOpt::DEFAULT);
        }
    });
    gv::strings(ctx, Size { word: 2, tok: 3, ..Size::of(ctx) }, &|x| keep(&gv::everywhere(x)));
    gv::sweeps(ctx, Size { sweep: 150, ..Size::of(ctx) }, &keep);
    gv::deviants(ctx, false, &keep);
    gv::huge(ctx, &keep);
    ctx.family("drops", "every subset of dropped members and elements of rows of up to 12", || {
        for len in 0..=12u32 {
            ctx.par_grain(2 << len, 16, |m| {
                let (isarr, m) = (m & 1 == 1, m >> 1);
                let n = len as usize;
                let v = if isarr {
                    V::Arr((0..n).map(|j| if j % 3 == 2 { obj(vec![("k", gv::n(j as f64))]) } else { gv::n(j as f64) }).collect())
                } else {
                    V::Obj((0..n).map(|j| (format!("k{j}"), gv::n(j as f64))).collect())
                };
                // children of kept objects shift the visit numbers
                let mut ch = vec![0];
                for j in 0..n {
                    let drop = m >> j & 1 == 1;
                    ch.push(usize::from(drop));
                    if isarr && j % 3 == 2 && !drop {
                        ch.push(0);
                    }
                }
                replaced(ctx, &v, &ch, EncOpt::DEFAULT);
            });
        }
    });
}
