//! Exhaustive families of JSON values.
use crate::engine::{Ctx, SCALARS, Trees, pow, tokens, word};
use crate::model::value::{V, obj, s};

/// How much of each family a check explores.
#[derive(Clone, Copy)]
pub struct Size {
    pub tree: usize,
    pub word: usize,
    pub tok: usize,
    pub scalars: bool,
    pub shapes: bool,
    pub sweep: usize,
}
impl Size {
    pub fn of(ctx: &Ctx) -> Size {
        if ctx.thorough {
            Size { tree: 7, word: 4, tok: 5, scalars: true, shapes: true, sweep: 320 }
        } else {
            Size { tree: 6, word: 3, tok: 4, scalars: true, shapes: true, sweep: 270 }
        }
    }
}

pub fn n(x: f64) -> V {
    V::Num(x)
}

/// One value holding `t` in every position a string can take.
pub fn everywhere(t: &str) -> V {
    let v = || s(t);
    let one = || V::Obj(vec![(t.to_string(), n(1.0))]);
    obj(vec![
        ("p", v()),
        ("o", one()),
        ("e", V::Obj(vec![(t.to_string(), V::Obj(vec![]))])),
        ("c", V::Obj(vec![(t.to_string(), V::Arr(vec![v(), s("x")]))])),
        ("i", V::Arr(vec![s("x"), v()])),
        ("j", V::Arr(vec![v()])),
        ("t", V::Arr(vec![obj(vec![("f", v()), ("g", s("y"))]), obj(vec![("g", v()), ("f", s("z"))])])),
        ("u", V::Arr(vec![V::Obj(vec![(t.to_string(), v()), (format!("{t}x"), n(2.0))])])),
        ("w", V::Obj(vec![(t.to_string(), V::Arr(vec![V::Obj(vec![(t.to_string(), n(3.0))])]))])),
        (
            "l",
            V::Arr(vec![
                v(),
                V::Obj(vec![(t.to_string(), v()), ("q".into(), v())]),
                V::Obj(vec![(t.to_string(), V::Arr(vec![v()])), (format!("q{t}"), V::Obj(vec![]))]),
                V::Obj(vec![(t.to_string(), V::Arr(vec![one(), one()]))]),
                V::Obj(vec![(t.to_string(), V::Arr(vec![one(), s("x")]))]),
                V::Obj(vec![(t.to_string(), one())]),
                V::Arr(vec![v(), one()]),
                V::Arr(vec![v()]),
            ]),
        ),
    ])
}
pub fn root_forms(t: &str) -> Vec<V> {
    vec![
        s(t),
        V::Arr(vec![s(t)]),
        V::Arr(vec![s(t), V::Arr(vec![])]),
        V::Obj(vec![(t.to_string(), s(t))]),
        V::Obj(vec![(t.to_string(), V::Arr(vec![s(t)]))]),
        V::Arr(vec![V::Obj(vec![(t.to_string(), s(t))])]),
        V::Arr(vec![V::Obj(vec![(t.to_string(), V::Arr(vec![n(1.0)]))])]),
    ]
}

pub const SYNTAX: [char; 24] = [
    'a', '1', '0', '-', '.', '+', 'e', '"', '\\', ':', ',', '|', '\t', '[', ']', '{', '}', ' ', '\n', '\r',
    '#', '_', '\u{e9}', '\u{a0}',
];
pub const TOKENS: [&str; 17] = [
    "a", "[2]", "[1|]", "{b}", "{a,b}", ":", ": ", "- ", "\"", "\\", ",", "|", " ", "\n", "true", "null", "05",
];

/// Values used as members: every way a member can be laid out.
pub fn shapes() -> Vec<V> {
    let row = |x: f64| obj(vec![("a", n(x)), ("b", s("t"))]);
    vec![
        n(7.0),
        s("x"),
        s("a: b"),
        V::Null,
        V::Arr(vec![]),
        V::Obj(vec![]),
        V::Arr(vec![n(1.0), s("q,r|s")]),
        V::Arr(vec![row(1.0), row(2.0)]),
        V::Arr(vec![row(1.0), V::Null]),
        V::Arr(vec![V::Obj(vec![]), V::Obj(vec![])]),
        V::Arr(vec![V::Arr(vec![n(1.0)]), V::Arr(vec![])]),
        V::Arr(vec![V::Arr(vec![row(3.0), row(4.0)])]),
        V::Arr(vec![obj(vec![("a", V::Arr(vec![row(5.0)])), ("b", n(1.0))])]),
        obj(vec![("a", n(1.0))]),
        obj(vec![("a", n(1.0)), ("b", s("x"))]),
        obj(vec![("a", obj(vec![("b", n(2.0))]))]),
        obj(vec![("a", V::Arr(vec![row(1.0)]))]),
        obj(vec![("x y", V::Arr(vec![obj(vec![("k", V::Obj(vec![]))])]))]),
    ]
}
/// `v` put into each of the surroundings that change its layout.
pub fn contexts(v: &V) -> Vec<V> {
    let c = || v.clone();
    vec![
        c(),
        obj(vec![("k", c())]),
        V::Arr(vec![c()]),
        obj(vec![("k", V::Arr(vec![c(), n(1.0)]))]),
        obj(vec![("h", n(1.0)), ("k", obj(vec![("m", c()), ("z", n(2.0))])), ("t", n(3.0))]),
        V::Arr(vec![obj(vec![("f", c()), ("g", n(1.0))])]),
        V::Arr(vec![obj(vec![("f", n(1.0)), ("g", c()), ("h", n(2.0))]), c()]),
        V::Arr(vec![V::Arr(vec![c(), V::Arr(vec![c()])])]),
        obj(vec![("k", V::Arr(vec![obj(vec![("f", obj(vec![("g", c())])), ("h", n(1.0))])]))]),
    ]
}
/// Objects over ordered subsets of two keys, for near-tabular arrays.
pub fn small_objects() -> Vec<V> {
    let vals = [n(1.0), s("x,y"), V::Arr(vec![]), V::Obj(vec![])];
    let mut out = vec![V::Obj(vec![])];
    for k in ["a", "b"] {
        for v in &vals {
            out.push(obj(vec![(k, v.clone())]));
        }
    }
    for (k, l) in [("a", "b"), ("b", "a")] {
        for v in &vals {
            for w in &vals {
                out.push(obj(vec![(k, v.clone()), (l, w.clone())]));
            }
        }
    }
    out
}

pub fn trees(ctx: &Ctx, max: usize, leaves: &[V], keys: &[&str], f: &(dyn Fn(&V) + Sync)) {
    let t = Trees::new(leaves.to_vec(), keys, max);
    ctx.family("trees", &format!("all values with at most {max} nodes, {} leaf values, keys {keys:?}", leaves.len() + 2), || {
        for size in 1..=max {
            ctx.par(t.count(size), |i| {
                let v = t.get(size, i);
                ctx.sample_every(i, 9973, || v.show());
                f(&v);
            });
        }
    });
}
pub fn strings(ctx: &Ctx, z: Size, f: &(dyn Fn(&str) + Sync)) {
    ctx.family("strings", &format!("all strings of at most {} characters over {} syntax characters", z.word, SYNTAX.len()), || {
        for len in 0..=z.word {
            ctx.par(pow(SYNTAX.len(), len), |i| f(&word(&SYNTAX, len, i)));
        }
    });
    ctx.family("token strings", &format!("all strings of at most {} of {} syntax tokens", z.tok, TOKENS.len()), || {
        for len in 2..=z.tok {
            ctx.par(pow(TOKENS.len(), len), |i| f(&tokens(&TOKENS, len, i)));
        }
    });
}
pub fn scalars(ctx: &Ctx, f: &(dyn Fn(char) + Sync)) {
    ctx.family("scalars", "every Unicode scalar value", || {
        ctx.par(SCALARS, |i| {
            if let Some(c) = char::from_u32(i as u32) {
                f(c);
            }
        });
    });
}
pub fn layouts(ctx: &Ctx, f: &(dyn Fn(&V) + Sync)) {
    let sh = shapes();
    let k = sh.len() as u64;
    ctx.family("layouts", &format!("objects and arrays of up to 3 of {k} member shapes in 9 surroundings"), || {
        ctx.par(k * k * k + k * k + k, |mut i| {
            let pick: Vec<V> = if i < k {
                vec![sh[i as usize].clone()]
            } else if i < k + k * k {
                i -= k;
                vec![sh[(i % k) as usize].clone(), sh[(i / k) as usize].clone()]
            } else {
                i -= k + k * k;
                vec![sh[(i % k) as usize].clone(), sh[(i / k % k) as usize].clone(), sh[(i / k / k) as usize].clone()]
            };
            let keys = ["a", "two w", "c"];
            let o = V::Obj(keys.iter().map(|s| s.to_string()).zip(pick.clone()).collect());
            for v in [o, V::Arr(pick)] {
                for c in contexts(&v) {
                    f(&c);
                }
            }
        });
    });
    let so = small_objects();
    let k = so.len() as u64;
    ctx.family("near tables", &format!("arrays of up to 3 of {k} small objects in 9 surroundings"), || {
        for len in 1..=3u32 {
            ctx.par(k.pow(len), |mut i| {
                let mut a = vec![];
                for _ in 0..len {
                    a.push(so[(i % k) as usize].clone());
                    i /= k;
                }
                let v = V::Arr(a);
                if len < 3 || ctx.thorough {
                    for c in contexts(&v) {
                        f(&c);
                    }
                } else {
                    f(&obj(vec![("k", V::Arr(vec![obj(vec![("f", v), ("g", n(1.0))])]))]));
                }
            });
        }
    });
    arranged_rows(ctx, f);
}
/// Every arrangement of up to `max` of the given keys.
pub fn arrangements(keys: &[&'static str], max: usize) -> Vec<Vec<&'static str>> {
    let mut out = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for i in from..to {
            for k in keys {
                if !out[i].contains(k) {
                    let mut next = out[i].clone();
                    next.push(*k);
                    out.push(next);
                }
            }
        }
        from = to;
    }
    out
}
/// Rows that hold the same members in other orders, some of them, or one that is no primitive.
pub fn arranged_rows(ctx: &Ctx, f: &(dyn Fn(&V) + Sync)) {
    let four = arrangements(&["a", "b", "c d", "e"], 4);
    let three = arrangements(&["a", "b", "c"], 3);
    let row = |keys: &[&str], base: usize, odd: usize| {
        V::Obj(keys.iter().enumerate().map(|(j, k)| (k.to_string(), if j + 1 == odd { V::Arr(vec![n(j as f64)]) } else { n((base + j) as f64) })).collect())
    };
    let (p, q) = (four.len() as u64, three.len() as u64);
    ctx.family("arranged rows", &format!("pairs of rows over all {p} arrangements of up to 4 keys, triples over {q} of up to 3, all primitive or one member of the last row not"), || {
        ctx.par(p * p, |i| {
            let (x, y) = (&four[(i % p) as usize], &four[(i / p) as usize]);
            for odd in 0..=y.len() {
                let v = V::Arr(vec![row(x, 10, 0), row(y, 20, odd)]);
                if odd == 0 {
                    contexts(&v).iter().for_each(f);
                } else {
                    f(&obj(vec![("k", v), ("z", n(2.0))]));
                }
            }
        });
        ctx.par(q * q * q, |i| {
            let (x, y, z) = (&three[(i % q) as usize], &three[(i / q % q) as usize], &three[(i / q / q) as usize]);
            for odd in 0..=z.len() {
                let v = V::Arr(vec![row(x, 10, 0), row(y, 20, 0), row(z, 30, odd)]);
                f(&obj(vec![("k", v.clone()), ("z", n(2.0))]));
                f(&V::Arr(vec![obj(vec![("k", v), ("z", n(2.0))])]));
            }
        });
    });
}
/// Wide and deep values around every size up to a bound.
pub fn sweeps(ctx: &Ctx, z: Size, f: &(dyn Fn(&V) + Sync)) {
    ctx.family("widths", &format!("arrays, tables, lists, objects, rows and strings of every length up to {} and around powers of two and ten", z.sweep), || {
        let mut lens: Vec<usize> = (0..=z.sweep).collect();
        lens.extend([511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097]);
        ctx.par_grain(lens.len() as u64, 1, |i| {
            let len = lens[i as usize];
            let key = |j: usize| format!("k{j}");
            let nums: Vec<V> = (0..len).map(|j| n(j as f64)).collect();
            f(&V::Arr(nums.clone()));
            f(&obj(vec![("a", V::Arr(nums.clone())), ("b", n(1.0))]));
            f(&V::Arr((0..len).map(|j| obj(vec![("a", n(j as f64)), ("b", s("x"))])).collect()));
            f(&obj(vec![("a", V::Arr((0..len).map(|j| obj(vec![("a", n(j as f64))])).collect())), ("b", n(1.0))]));
            f(&V::Arr((0..len).map(|j| V::Arr(vec![n(j as f64)])).collect()));
            f(&V::Arr((0..len).map(|j| V::Obj(vec![(key(j), n(j as f64))])).collect()));
            let wide = V::Obj((0..len).map(|j| (key(j), n(j as f64))).collect());
            f(&V::Arr(vec![wide.clone(), wide.clone()]));
            f(&wide);
            for c in ["x", "\u{e9}", "\u{1f600}", "\"", "\\", ",", " ", "\n", "1", "-", "."] {
                let t = c.repeat(len);
                f(&V::Obj(vec![(t.clone(), V::Arr(vec![s(&t), V::Obj(vec![(t.clone(), s(&t))])]))]));
                f(&V::Arr(vec![s(&t), s("y")]));
            }
        });
    });
    ctx.family("depths", &format!("chains of objects, arrays and alternations of every depth up to {}", z.sweep), || {
        ctx.par_grain(z.sweep as u64 + 1, 1, |d| {
            for kind in 0..6 {
                let mut v = match kind {
                    4 => V::Arr(vec![]),
                    5 => V::Obj(vec![]),
                    _ => n(1.0),
                };
                for l in 0..d {
                    v = match kind {
                        0 | 5 => obj(vec![("a", v)]),
                        1 | 4 => V::Arr(vec![v]),
                        2 if l % 2 == 0 => obj(vec![("a", v), ("b", n(2.0))]),
                        2 => V::Arr(vec![v, n(3.0)]),
                        _ if l % 3 == 0 => obj(vec![("b", n(2.0)), ("a", v)]),
                        _ => V::Arr(vec![v]),
                    };
                }
                f(&v);
            }
        });
    });
}
pub fn basic_leaves() -> Vec<V> {
    vec![V::Null, n(1.0), s("s")]
}

/// The sizes at which implementations tend to change their ways.
pub fn size_steps(max_each: usize, big: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=max_each).collect();
    for b in [100usize, 128, 200, 256, 300, 400, 500, 512] {
        v.extend([b - 1, b, b + 1]);
    }
    if big {
        for b in [1000usize, 1024, 2000, 2048, 4096] {
            v.extend([b - 1, b, b + 1]);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}
/// Sizes beyond those the other sweeps reach, around limits of counters and buffers.
pub fn huge_sizes(ctx: &Ctx) -> Vec<usize> {
    let mut v = vec![];
    for b in [8192usize, 10_000, 32_768, 65_536, 100_000] {
        v.extend([b - 1, b, b + 1]);
    }
    if ctx.thorough {
        for b in [16_384usize, 50_000, 131_072, 262_144, 500_000, 1_000_000, 1_048_576] {
            v.extend([b - 1, b, b + 1]);
        }
    }
    v
}
pub const HUGE_KINDS: u64 = 10;
pub fn huge_value(kind: u64, len: usize) -> V {
    let after = |v: V| obj(vec![("a", v), ("z", n(1.0))]);
    match kind {
        0 => after(V::Arr((0..len).map(|j| n(j as f64)).collect())),
        1 => V::Arr((0..len).map(|j| obj(vec![("a", n(j as f64)), ("b", s("x"))])).collect()),
        2 => after(V::Arr((0..len).map(|j| if j + 1 == len { V::Arr(vec![V::Null]) } else { n(j as f64) }).collect())),
        3 => V::Arr((0..len).map(|j| obj(vec![("a", n(j as f64)), ("b", V::Arr(vec![]))])).collect()),
        4 => V::Arr(vec![after(V::Arr(vec![V::Null; len])), n(2.0)]),
        5 => after(s(&"x".repeat(len))),
        6 => after(s(&"\u{e9}\\".repeat(len / 3))),
        7 => V::Obj(vec![("k".repeat(len), V::Arr(vec![n(1.0), s("x")])), ("z".into(), n(1.0))]),
        8 => obj(vec![("t", V::Arr(vec![obj(vec![("f", s(&"x y".repeat(len / 3))), ("g", n(1.0))]), obj(vec![("f", n(2.0)), ("g", V::Null)])]))]),
        _ if len < 20_000 => after(V::Obj((0..len).map(|j| (format!("k{j}"), n(j as f64))).collect())),
        _ => V::Arr((0..len / 100).map(|_| V::Arr((0..100).map(|j| n(j as f64)).collect())).collect()),
    }
}
/// Arrays, tables, lists, objects, strings and keys of sizes around 2^16 and beyond.
pub fn huge(ctx: &Ctx, f: &(dyn Fn(&V) + Sync)) {
    let sizes = huge_sizes(ctx);
    ctx.family("huge", &format!("arrays, tables, lists, strings, keys and objects of {} sizes up to {}", sizes.len(), sizes[sizes.len() - 1]), || {
        ctx.par_grain(sizes.len() as u64 * HUGE_KINDS, 1, |i| f(&huge_value(i % HUGE_KINDS, sizes[sizes.len() - 1 - (i / HUGE_KINDS) as usize])));
    });
}
/// A run of elements that look alike, with the elements that break the pattern.
fn runs() -> Vec<(fn(usize) -> V, Vec<V>)> {
    let row = |j: usize| obj(vec![("a", n(j as f64)), ("b", s("x"))]);
    let odd_rows = || {
        vec![
            obj(vec![("b", s("y")), ("a", n(0.5))]),
            obj(vec![("a", n(0.5))]),
            obj(vec![("a", n(0.5)), ("b", s("y")), ("c", V::Null)]),
            obj(vec![("a", n(0.5)), ("c", s("y"))]),
            obj(vec![("a", n(0.5)), ("b", V::Arr(vec![]))]),
            obj(vec![("a", V::Obj(vec![])), ("b", s("y"))]),
            obj(vec![("a", s("p,q|r\ts")), ("b", s(""))]),
            V::Obj(vec![]),
            V::Null,
            V::Arr(vec![n(1.0)]),
            V::Arr(vec![]),
        ]
    };
    let odd = || {
        vec![s("y,z|w\tv"), s(""), s("true"), s("- x"), s("p\nq"), V::Null, n(-0.5), V::Arr(vec![]), V::Obj(vec![]), V::Arr(vec![n(1.0), V::Null]), obj(vec![("a", n(1.0))])]
    };
    vec![
        (|j| obj(vec![("a", n(j as f64)), ("b", s("x"))]), odd_rows()),
        (|j| n(j as f64), odd()),
        (|_| s("w"), odd()),
        (|j| V::Arr(vec![n(j as f64), s("x")]), odd().into_iter().chain([V::Arr(vec![n(1.0), V::Arr(vec![])]), V::Arr(vec![s("q,r"), V::Null])]).collect()),
        (|j| obj(vec![("a", n(j as f64)), ("b", V::Arr(vec![]))]), vec![row(1), V::Null, obj(vec![("a", V::Obj(vec![])), ("b", V::Arr(vec![n(1.0)]))]), V::Obj(vec![])]),
        (|_| V::Obj(vec![]), vec![row(1), V::Null, V::Arr(vec![])]),
        (|_| V::Arr(vec![]), vec![row(1), V::Null, V::Arr(vec![V::Arr(vec![])])]),
    ]
}
/// Long runs of like elements with one that differs, and values after the run.
pub fn deviants(ctx: &Ctx, big: bool, f: &(dyn Fn(&V) + Sync)) {
    let kinds = runs();
    let sizes = size_steps(if ctx.thorough { 140 } else { 70 }, big);
    let n_odd: usize = kinds.iter().map(|k| k.1.len()).sum();
    ctx.family("late deviations", &format!("runs of like elements of every length up to {} and around powers, {n_odd} deviating elements at the end, in the middle or at the start, 3 surroundings; the same for members and cells", sizes[sizes.len() - 1]), || {
        ctx.par_grain(sizes.len() as u64, 1, |i| {
            let len = sizes[sizes.len() - 1 - i as usize];
            for (mk, odd) in &kinds {
                for (k, d) in odd.iter().enumerate() {
                    let at: Vec<usize> = if len <= 12 { (0..=len).collect() } else if len < 300 { vec![len, len - 1, len / 2] } else { vec![len] };
                    for (q, p) in at.into_iter().enumerate() {
                        let mut a: Vec<V> = (0..len).map(mk).collect();
                        a.insert(p, d.clone());
                        let a = V::Arr(a);
                        match (q + k) % 3 {
                            0 => f(&a),
                            1 => f(&obj(vec![("k", a), ("z", n(1.0))])),
                            _ => f(&V::Arr(vec![obj(vec![("k", a), ("z", n(1.0))]), n(2.0)])),
                        }
                    }
                }
            }
            // members of an object, cells of a row
            for d in shapes() {
                let mut m: Vec<(String, V)> = (0..len).map(|j| (format!("k{j}"), n(j as f64))).collect();
                m.push(("dev x".into(), d.clone()));
                let o = V::Obj(m.clone());
                f(&o);
                if len < 300 {
                    f(&V::Arr(vec![o.clone(), o.clone()]));
                    m.insert(len / 2, ("mid".into(), d));
                    f(&obj(vec![("o", V::Obj(m)), ("z", n(1.0))]));
                }
            }
        });
    });
}
/// Runs of like elements with one that differs, at every place.
pub fn single_deviants(ctx: &Ctx, f: &(dyn Fn(&V) + Sync)) {
    let kinds = runs();
    let top = if ctx.thorough { 100 } else { 44 };
    ctx.family("single deviations", &format!("runs of 13..{top} like elements of {} kinds with one deviating element at every place, within an array of arrays and in 3 other surroundings in turns", kinds.len()), || {
        ctx.par_grain(top - 12, 1, |i| {
            let len = (top - i) as usize;
            for (mk, odd) in &kinds {
                let run: Vec<V> = (0..len).map(mk).collect();
                for (k, d) in odd.iter().enumerate() {
                    for p in 0..=len {
                        let mut a = run.clone();
                        a.insert(p, d.clone());
                        let a = V::Arr(a);
                        match (p + k + len) % 3 {
                            0 => f(&a),
                            1 => f(&obj(vec![("k", a.clone()), ("z", n(1.0))])),
                            _ => f(&V::Arr(vec![obj(vec![("k", a.clone()), ("z", n(1.0))]), n(2.0)])),
                        }
                        f(&V::Arr(if (p + k) % 2 == 0 { vec![a, V::Arr(vec![n(1.0)])] } else { vec![V::Arr(vec![s("x"), V::Null]), a] }));
                    }
                }
            }
        });
    });
}
/// Chains of one kind of level with one level of another kind at every place.
pub fn odd_levels(ctx: &Ctx, f: &(dyn Fn(&V) + Sync)) {
    const KINDS: usize = 9;
    let level = |k: usize, v: V| match k {
        0 => obj(vec![("a", v)]),
        1 => V::Arr(vec![v]),
        2 => obj(vec![("a", v), ("b", n(2.0))]),
        3 => V::Arr(vec![s("x"), v]),
        4 => obj(vec![("p", n(1.0)), ("a", v), ("q r", V::Arr(vec![]))]),
        5 => V::Arr(vec![obj(vec![("a", v)]), n(3.0)]),
        6 => V::Arr(vec![obj(vec![("f", n(1.0)), ("a", v)])]),
        7 => obj(vec![("t", V::Arr(vec![obj(vec![("f", n(1.0))]), obj(vec![("f", n(2.0))])])), ("a.b", v)]),
        _ => V::Arr(vec![V::Arr(vec![]), v, V::Obj(vec![])]),
    };
    let leaves = [n(1.0), V::Arr(vec![obj(vec![("a", n(1.0)), ("b", s("x"))])]), V::Obj(vec![]), V::Arr(vec![V::Arr(vec![n(1.0)]), V::Arr(vec![])])];
    let top = if ctx.thorough { 60 } else { 26 };
    ctx.family("odd levels", &format!("chains of up to {top} levels of each of {KINDS} kinds with one level of every other kind at every place, {} innermost values in turns", leaves.len()), || {
        ctx.par_grain((top * KINDS) as u64, 1, |i| {
            let (d, base) = (top - i as usize / KINDS, i as usize % KINDS);
            for odd in (0..KINDS).filter(|o| *o != base) {
                for p in 0..d {
                    let mut v = leaves[(d + p + odd) % leaves.len()].clone();
                    for l in 0..d {
                        v = level(if l == p { odd } else { base }, v);
                    }
                    f(&v);
                }
            }
        });
    });
}
/// Shapes in surroundings, for checks that go through all settings.
pub fn furniture(ctx: &Ctx, settings: &str, f: &(dyn Fn(&V) + Sync)) {
    let sh = shapes();
    let k = sh.len();
    ctx.family("all settings", &format!("pairs of {k} member shapes in 9 surroundings x {settings}"), || {
        ctx.par_grain((k * k) as u64, 1, |i| {
            let (a, b) = (&sh[i as usize % k], &sh[i as usize / k]);
            for v in [obj(vec![("a", a.clone()), ("two w", b.clone())]), V::Arr(vec![a.clone(), b.clone()])] {
                contexts(&v).iter().for_each(f);
            }
        });
    });
}
/// Long strings with one character to treat specially at every place.
pub fn spotted(ctx: &Ctx, f: &(dyn Fn(&str) + Sync)) {
    let sizes = size_steps(if ctx.thorough { 300 } else { 150 }, true);
    let spots = ['"', '\\', '\n', '\r', '\t', '\u{1}', '\u{8}', '\u{c}', '\u{1f}', '\u{7f}', '\u{e9}', ','];
    ctx.family("spotted strings", &format!("strings of every length up to {} and around powers with one of {} characters at every place (first, middle and last 40 beyond 200), two kinds of filling", sizes[sizes.len() - 1], spots.len()), || {
        ctx.par_grain((sizes.len() * spots.len()) as u64, 1, |i| {
            let (len, c) = (sizes[sizes.len() - 1 - i as usize / spots.len()], spots[i as usize % spots.len()]);
            for p in 0..=len {
                if len < 200 || p < 40 || p + 40 > len || p.abs_diff(len / 2) < 20 {
                    let w = if p % 5 == 4 { "\u{e9}" } else { "x" };
                    f(&format!("{}{c}{}", w.repeat(p), "y".repeat(len - p)));
                }
            }
        });
    });
}
/// The forests of `n` nodes, as objects; every leaf is `leaf`, siblings are named a, b, c...
pub struct Forests {
    counts: Vec<u64>,
}
impl Forests {
    pub fn new(max: usize) -> Forests {
        let mut c = vec![1u64];
        for n in 1..=max {
            // the first tree has 1 + i nodes
            c.push((0..n).map(|i| c[i] * c[n - 1 - i]).sum());
        }
        Forests { counts: c }
    }
    pub fn count(&self, n: usize) -> u64 {
        self.counts[n]
    }
    pub fn get(&self, n: usize, i: u64, leaf: &V) -> V {
        V::Obj(self.members(n, i, leaf, 0))
    }
    fn members(&self, n: usize, mut i: u64, leaf: &V, named: usize) -> Vec<(String, V)> {
        if n == 0 {
            return vec![];
        }
        for inner in 0..n {
            let rest = self.counts[n - 1 - inner];
            let c = self.counts[inner] * rest;
            if i < c {
                let head = if inner == 0 { leaf.clone() } else { V::Obj(self.members(inner, i / rest, leaf, 0)) };
                let mut m = vec![(char::from(b'a' + named as u8).to_string(), head)];
                m.extend(self.members(n - 1 - inner, i % rest, leaf, named + 1));
                return m;
            }
            i -= c;
        }
        unreachable!()
    }
}
/// All paths of a value through objects.
pub fn paths(v: &V) -> Vec<Vec<String>> {
    let mut out = vec![];
    if let V::Obj(m) = v {
        for (k, x) in m {
            out.push(vec![k.clone()]);
            for mut p in paths(x) {
                p.insert(0, k.clone());
                out.push(p);
            }
        }
    }
    out
}
