//! C07: key folding and path expansion.
use super::values::{DELIMS, case};
use crate::engine::Ctx;
use crate::gen_values::{self as gv, Size};
use crate::model::enc::{self, EncOpt};
use crate::model::value::{V, obj, s};
use crate::real;

/// Whether `p`, the plain reading of a folded text, is `v` with single-key chains merged.
/// `lits`: dotted root keys, while below the root through objects only.
/// `max`: segments that may be joined in all on the way down; `top`: the same inside an array.
fn folding(v: &V, p: &V, max: usize, top: usize, lits: Option<&[&str]>, path: &str) -> Result<(), String> {
    match (v, p) {
        (V::Obj(m), V::Obj(f)) => {
            if m.len() != f.len() {
                return Err(format!("{} members became {}", m.len(), f.len()));
            }
            for (i, (k, _)) in f.iter().enumerate() {
                if f[..i].iter().any(|(x, _)| x == k) {
                    return Err(format!("key {k:?} appears twice"));
                }
            }
            for ((k, x), (g, y)) in m.iter().zip(f) {
                let abs = if path.is_empty() { g.clone() } else { format!("{path}.{g}") };
                let mut at = x;
                let mut left = max;
                if g != k {
                    let mut rest = g.strip_prefix(k.as_str()).ok_or_else(|| format!("key {k:?} became {g:?}"))?;
                    let mut n = 1;
                    while !rest.is_empty() {
                        let V::Obj(one) = at else { return Err(format!("{g:?} goes beyond a chain")) };
                        let [(next, val)] = &one[..] else { return Err(format!("{g:?} merges an object with {} members", one.len())) };
                        rest = rest
                            .strip_prefix('.')
                            .and_then(|r| r.strip_prefix(next.as_str()))
                            .ok_or_else(|| format!("{g:?} does not spell the chain at {next:?}"))?;
                        at = val;
                        n += 1;
                    }
                    if n > max {
                        return Err(format!("{g:?} joins {n} segments, at most {max} allowed"));
                    }
                    left = max - n;
                    if !g.split('.').all(enc::identifier) {
                        return Err(format!("{g:?} has a segment that is no identifier"));
                    }
                    if lits.is_some_and(|l| l.contains(&abs.as_str())) {
                        return Err(format!("{abs:?} is also a literal key of the root"));
                    }
                    if m.iter().any(|(o, _)| o == g) {
                        return Err(format!("{g:?} is also a key of the same object"));
                    }
                }
                folding(at, y, left, top, lits, &abs)?;
            }
            Ok(())
        }
        (V::Arr(a), V::Arr(b)) if a.len() == b.len() => {
            a.iter().zip(b).try_for_each(|(x, y)| folding(x, y, top, top, None, ""))
        }
        (a, b) if a == b => Ok(()),
        (a, b) => Err(format!("{} became {}", a.show(), b.show())),
    }
}
fn has_dots(v: &V) -> bool {
    match v {
        V::Arr(a) => a.iter().any(has_dots),
        V::Obj(m) => m.iter().any(|(k, x)| k.contains('.') || has_dots(x)),
        _ => false,
    }
}
fn fold_case(ctx: &Ctx, v: &V, o: EncOpt) {
    ctx.add(1, 3, 1);
    let c = || case(v, o);
    let want = enc::round_tripped(v, false);
    let text = match real::encode(v, o) {
        Ok(t) => t,
        Err(p) => return ctx.fail(&c(), &format!("panicked: {p}")),
    };
    match real::decode(&text, o.indent, true, false) {
        Err(f) => ctx.fail(&c(), &format!("folded text {text:?} rejected: {}", f.msg)),
        Ok(p) => {
            let lits: Vec<&str> = match &want {
                V::Obj(m) => m.iter().map(|x| x.0.as_str()).filter(|k| k.contains('.')).collect(),
                _ => vec![],
            };
            ctx.tally(if p == want { "nothing folded" } else { "folded" });
            if let Err(m) = folding(&want, &p, o.flatten, o.flatten, Some(&lits), "") {
                ctx.fail(&c(), &format!("folded text {text:?}: {m}"));
            }
        }
    }
    if !has_dots(v) {
        match real::decode(&text, o.indent, true, true) {
            Ok(g) if g == want => {}
            Ok(g) => ctx.fail(&c(), &format!("{text:?} expands to {}", g.show())),
            Err(f) => ctx.fail(&c(), &format!("{text:?} does not expand: {}", f.msg)),
        }
    }
}
pub fn c07(ctx: &Ctx) {
    let t = ctx.thorough;
    let z = Size::of(ctx);
    const DEPTHS: [usize; 7] = [usize::MAX, 2, 3, 0, 1, 4, 5];
    let with = |v: &V, n: usize| {
        for (i, flatten) in DEPTHS[..n].iter().enumerate() {
            fold_case(ctx, v, EncOpt { indent: 1 + i % 3, delim: DELIMS[i % 3], fold: true, flatten: *flatten });
        }
    };
    gv::trees(ctx, z.tree, &[gv::n(1.0)], &["a", "b", "c_1"], &|v| with(v, 7));
    gv::trees(ctx, z.tree, &[V::Null], &["a", "x y", "1"], &|v| with(v, 3));
    gv::odd_levels(ctx, &|v| with(v, 3));
    gv::trees(ctx, z.tree - 1, &[gv::n(1.0)], &["a", "b", "a.b", "b.a", "a.b.a"], &|v| with(v, 4));
    // chains with every key order of siblings that may collide
    let ks = ["a", "b", "a.b", "a.a", "a.b.a", "b.a"];
    let one = |k: &str, v: V| obj(vec![(k, v)]);
    let vals: Vec<V> = vec![
        gv::n(1.0), V::Obj(vec![]), one("b", gv::n(2.0)), one("b", one("a", gv::n(3.0))), one("a", V::Arr(vec![gv::n(4.0)])), one("a.b", gv::n(5.0)),
        one("b", V::Arr(vec![one("a", one("b", gv::n(6.0)))])), one("b", obj(vec![("a", one("b", gv::n(7.0))), ("b", gv::n(8.0))])),
    ];
    let members: Vec<(String, V)> = ks.iter().flat_map(|k| vals.iter().map(|v| (k.to_string(), v.clone()))).collect();
    let n = members.len() as u64;
    ctx.family("collisions", "all objects of 1..3 members with distinct keys out of 6 (dotted and not) and 8 values, as root, member, list item and table neighbour", || {
        for len in 1..=3u32 {
            ctx.par(n.pow(len), |mut i| {
                let mut m: Vec<(String, V)> = vec![];
                for _ in 0..len {
                    let x = &members[(i % n) as usize];
                    i /= n;
                    if m.iter().any(|y| y.0 == x.0) {
                        return;
                    }
                    m.push(x.clone());
                }
                let v = V::Obj(m);
                with(&v, if len < 3 || t { 4 } else { 2 });
                for c in [
                    obj(vec![("a", v.clone())]),
                    V::Arr(vec![v.clone(), gv::n(1.0)]),
                    obj(vec![("a.a", gv::n(1.0)), ("a", v.clone()), ("a.b", gv::n(2.0))]),
                    obj(vec![("q", V::Arr(vec![obj(vec![("h", v.clone()), ("a", v.clone())])]))]),
                ] {
                    with(&c, if len < 3 || t { 3 } else { 1 });
                }
            });
        }
    });
    let top = if t { 10 } else { 9 };
    let fo = gv::Forests::new(top);
    const SOME: [usize; 6] = [2, 3, usize::MAX, 4, 5, 1];
    ctx.family("nested objects", &format!("every nesting of objects with at most {top} members in all, 4 kinds of leaf, flatten depths {SOME:?}, 3 surroundings"), || {
        let leaves = [gv::n(1.0), V::Obj(vec![]), V::Arr(vec![]), V::Arr(vec![one("a", one("b", gv::n(1.0))), one("a", gv::n(2.0))])];
        for n in 1..=top {
            ctx.par(fo.count(n), |i| {
                for (j, leaf) in leaves.iter().enumerate() {
                    let v = fo.get(n, i, leaf);
                    for flatten in SOME {
                        fold_case(ctx, &v, EncOpt { fold: true, flatten, indent: 1 + j % 3, ..EncOpt::DEFAULT });
                    }
                    if n < top || t {
                        with(&V::Arr(vec![v.clone()]), 2);
                        with(&obj(vec![("r", V::Arr(vec![obj(vec![("f", v.clone()), ("g", v)])]))]), 2);
                    }
                }
            });
        }
    });
    let top = if t { 8 } else { 7 };
    ctx.family("dotted keys beside nesting", &format!("every nesting of objects with at most {top} members in all and one dotted key that spells any path or part of one, extended or not, first or last at the root, in a member or in a list"), || {
        for n in 2..=top {
            ctx.par(fo.count(n), |i| {
                let v = fo.get(n, i, &gv::n(1.0));
                let V::Obj(m) = &v else { unreachable!() };
                let mut ks: Vec<String> = vec![];
                for p in gv::paths(&v) {
                    for from in 0..p.len().saturating_sub(1) {
                        ks.push(p[from..].join("."));
                    }
                    ks.push(format!("{}.x", p.join(".")));
                }
                ks.sort();
                ks.dedup();
                for k in ks.iter().filter(|k| k.contains('.')) {
                    for first in [true, false] {
                        let mut m = m.clone();
                        m.insert(if first { 0 } else { m.len() }, (k.clone(), gv::n(2.0)));
                        let w = V::Obj(m);
                        with(&w, 3);
                        if n < top {
                            with(&obj(vec![("a", w.clone())]), 2);
                            with(&V::Arr(vec![w]), 1);
                        }
                        // one level down
                        if let V::Obj(mut r) = v.clone() {
                            for j in 0..r.len() {
                                let mut q = r.clone();
                                if let V::Obj(x) = &mut q[j].1 {
                                    x.insert(if first { 0 } else { x.len() }, (k.clone(), gv::n(2.0)));
                                    with(&V::Obj(q), 2);
                                }
                            }
                            r.clear();
                        }
                    }
                }
            });
        }
    });
    let sizes = gv::size_steps(if t { 140 } else { 66 }, true);
    ctx.family("wide collisions", &format!("every nesting of objects with at most 4 members and one dotted key that spells a path, with up to {} further members before, between and after, at the root, in a member and in a list", sizes[sizes.len() - 1]), || {
        ctx.par_grain(sizes.len() as u64, 1, |i| {
            let w = sizes[sizes.len() - 1 - i as usize];
            let filler = |p: &str, n: usize| (0..n).map(|j| (format!("{p}{j}"), gv::n(1.0))).collect::<Vec<_>>();
            for n in 2..=if w < 300 { 4 } else { 3 } {
                for x in 0..fo.count(n) {
                    let v = fo.get(n, x, &gv::n(1.0));
                    let V::Obj(m) = &v else { continue };
                    for p in gv::paths(&v) {
                        if p.len() < 2 {
                            continue;
                        }
                        for from in 0..p.len() - 1 {
                            let k = (p[from..].join("."), gv::n(2.0));
                            for arrangement in 0..4 {
                                let mut o = vec![];
                                let (a, b) = [(0, w), (w, 0), (w / 2, w - w / 2), (0, 0)][arrangement];
                                o.extend(filler("e", a));
                                if arrangement == 2 {
                                    o.push(k.clone());
                                }
                                o.extend(m.iter().cloned());
                                if arrangement == 3 {
                                    // the nested objects are wide
                                    for (_, x) in &mut o {
                                        if let V::Obj(y) = x {
                                            y.extend(filler("g", w));
                                        }
                                    }
                                }
                                o.extend(filler("f", b));
                                if arrangement != 2 {
                                    o.push(k.clone());
                                }
                                let o = V::Obj(o);
                                fold_case(ctx, &o, EncOpt { fold: true, ..EncOpt::DEFAULT });
                                if w < 70 {
                                    fold_case(ctx, &V::Arr(vec![o.clone()]), EncOpt { fold: true, ..EncOpt::DEFAULT });
                                    fold_case(ctx, &obj(vec![("a", o)]), EncOpt { fold: true, flatten: 2, ..EncOpt::DEFAULT });
                                }
                            }
                        }
                    }
                }
            }
        });
    });
    gv::layouts(ctx, &|v| with(v, if t { 7 } else { 2 }));
    let chain = |keys: &[String], end: V| keys.iter().rev().fold(end, |v, k| V::Obj(vec![(k.clone(), v)]));
    ctx.family("chains", "chains of 1..60 keys with 8 endings and a sibling at any level, every flatten depth up to the length", || {
        ctx.par_grain(60, 1, |d| {
            let d = d as usize + 1;
            let keys: Vec<String> = (0..d).map(|i| format!("k{i}")).collect();
            let ends = [
                gv::n(1.0), V::Arr(vec![]), V::Obj(vec![]), V::Arr(vec![gv::n(1.0), s("x")]), V::Arr(vec![one("t", gv::n(1.0)), one("t", gv::n(2.0))]),
                V::Arr(vec![V::Arr(vec![]), one("p", one("q", gv::n(1.0)))]), obj(vec![("y", gv::n(1.0)), ("z", one("u", one("w", V::Null)))]), one("no id", gv::n(1.0)),
            ];
            for (j, e) in ends.iter().enumerate() {
                let v = chain(&keys, e.clone());
                for flatten in (0..=d + 2).chain([usize::MAX]) {
                    if flatten > 6 && flatten < d.saturating_sub(1) && flatten % 7 != j && !t {
                        continue;
                    }
                    fold_case(ctx, &v, EncOpt { fold: true, flatten, indent: 1, ..EncOpt::DEFAULT });
                }
                for l in 1..d {
                    let inner = chain(&keys[l..], e.clone());
                    let V::Obj(mut m) = inner else { unreachable!() };
                    m.insert(j % 2, ("sib".into(), gv::n(9.0)));
                    with(&chain(&keys[..l], V::Obj(m)), 2);
                }
            }
        });
    });
    let seg = |x: &str| {
        if x.contains('.') {
            return;
        }
        let k = x.to_string();
        let mk = |a: Vec<String>| chain(&a, gv::n(1.0));
        for v in [
            mk(vec!["a".into(), k.clone(), "b".into()]),
            mk(vec![k.clone(), "a".into()]),
            mk(vec!["a".into(), k.clone()]),
            V::Arr(vec![mk(vec!["h".into(), k.clone()]), mk(vec![k.clone(), k.clone()])]),
        ] {
            with(&v, 2);
        }
    };
    gv::strings(ctx, z, &seg);
    gv::scalars(ctx, &|c| {
        let mk = |a: &[&str]| chain(&a.iter().map(|x| x.to_string()).collect::<Vec<_>>(), gv::n(1.0));
        if c == '.' {
            return;
        }
        let (k, l) = (c.to_string(), format!("a{c}"));
        let v = V::Obj(vec![
            ("P1".into(), mk(&[&k, "b"])),
            ("P2".into(), mk(&["a", &l])),
            (k.clone(), mk(&["a"])),
            (l.clone(), mk(&[&l, "b"])),
            ("P3".into(), V::Arr(vec![mk(&[&k, &l]), mk(&["h", &k])])),
        ]);
        fold_case(ctx, &v, EncOpt { fold: true, ..EncOpt::DEFAULT });
        if t {
            seg(&k);
            seg(&l);
            fold_case(ctx, &v, EncOpt { fold: true, flatten: 2, ..EncOpt::DEFAULT });
        }
    });
}
