//! C16: results depend on the arguments alone.
use super::stream::block;
use crate::alloc;
use crate::engine::{Ctx, guard, jstr, pow};
use crate::model::enc::{self, EncOpt};
use crate::model::value::V;
use crate::model::{dec, events, expand};
use crate::real;
use crate::step;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;
use toon::options::{DecodeStreamOptions, EncodeOptions, KeyFoldingMode};
use toon::{JsonValue, cli::conversion};

thread_local! {
    /// What user code does when the library calls it.
    static USER: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}
thread_local! {
    /// What the callbacks of the running operation were given.
    static SEEN_BY_USER: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Called by every callback and iterator of the operations.
fn user_point() {
    let f = USER.with(|u| u.borrow_mut().take());
    if let Some(mut f) = f {
        f();
        USER.with(|u| *u.borrow_mut() = Some(f));
    }
}
fn val(json: &str) -> JsonValue {
    serde_json::from_str::<serde_json::Value>(json).expect("literal").into()
}
fn eo(indent: usize, delim: char, fold: bool) -> EncodeOptions {
    EncodeOptions {
        indent: Some(indent),
        delimiter: Some(delim),
        key_folding: Some(if fold { KeyFoldingMode::Safe } else { KeyFoldingMode::Off }),
        flatten_depth: None,
        replacer: None,
    }
}
fn with(o: EncodeOptions, f: impl Fn(&str, &JsonValue) -> Option<JsonValue> + Send + Sync + 'static) -> Option<EncodeOptions> {
    Some(EncodeOptions {
        replacer: Some(Arc::new(move |k, v, p| {
            SEEN_BY_USER.with(|s| s.borrow_mut().push_str(&format!("{k} {v:?} {p:?};")));
            user_point();
            f(k, v)
        })),
        ..o
    })
}
fn dec(text: &str, indent: usize, strict: bool, expand: bool) -> String {
    let r = toon::try_decode(text, Some(real::dopt(indent, strict, expand)));
    format!("{:?}", r.map_err(|e| e.to_string()))
}
/// Lines handed out one by one.
fn feed(text: &'static str) -> impl Iterator<Item = String> {
    text.split('\n').map(|l| {
        user_point();
        l.to_string()
    })
}
type Op = (&'static str, fn() -> String);
/// Small operations first (`SMALL` of them): their points are explored pairwise.
const SMALL: usize = 12;
fn ops() -> Vec<Op> {
    vec![
        ("encode object", || toon::encode(val(r#"{"a":1}"#), None)),
        ("encode, tab, indent 4", || toon::encode(val(r#"{"b":{"c":["x",1]}}"#), Some(eo(4, '\t', false)))),
        ("encode folded", || toon::encode(val(r#"{"a":{"b":{"c":1}}}"#), Some(eo(2, '|', true)))),
        ("encode quoted", || toon::encode(val(r#"["a,b","c\"d\n"]"#), None)),
        ("encode with replacer", || toon::encode(val(r#"{"a":1,"b":[2]}"#), with(eo(2, ',', false), |k, v| if k == "a" { None } else { Some(v.clone()) }))),
        ("decode", || dec("a: 1\nb:\n  c: x", 2, true, false)),
        ("decode, indent 4", || dec("a:\n    b: \"x\\n\"", 4, true, false)),
        ("decode lenient", || dec("a[2]: 1\n   b: 2", 2, false, false)),
        ("decode error on line 2", || dec("a:\n\tb: 1", 2, true, false)),
        ("expand", || dec("a.b: 1\na.c: 2", 2, true, true)),
        ("expand conflict", || dec("a.b: 1\na: 2", 2, true, true)),
        ("decode lines", || format!("{:?}", toon::try_decode_from_lines(feed("a[2]:\n  - 1\n  - x"), None).map_err(|e| e.to_string()))),
        // larger or nested ones
        ("replacer panics", || {
            let n = Cell::new(0);
            let n = Mutex::new(n);
            format!("{:?}", guard(|| toon::encode(val(r#"{"a":1,"b":[2,3]}"#), with(eo(1, '|', true), move |_, v| {
                let g = n.lock().unwrap();
                g.set(g.get() + 1);
                let i = g.get();
                drop(g);
                assert!(i < 4, "callback");
                Some(v.clone())
            }))).is_err())
        }),
        ("replacer substitutes", || toon::encode(val(r#"{"a":1,"b":{"c":2}}"#), with(eo(3, ',', true), |k, v| Some(if k == "b" { val(r#"[{"x":1},{"x":2}]"#) } else { v.clone() })))),
        ("replacer calls the library", || toon::encode(val(r#"{"a":[1],"b":"x"}"#), with(eo(2, '|', false), |k, v| Some(if k == "b" { JsonValue::from(format!("{}{}", toon::encode(v.clone(), None), dec("p:\n q: 1", 1, true, false))) } else { v.clone() })))),
        ("iterator panics", || format!("{:?}", guard(|| toon::try_decode_from_lines("a:\n  b: 1\nc: 2".split('\n').enumerate().map(|(i, l)| { user_point(); assert!(i < 2, "iterator"); l.to_string() }), None).is_ok()).is_err())),
        ("blank line in array", || dec("\na[2]:\n  - 1\n\n  - 2", 2, true, false)),
        ("unterminated", || dec("a: \"x", 2, true, false)),
        ("count mismatch", || dec("a:\n  b[3]: 1,2", 2, true, false)),
        ("wrong indent", || dec("a:\n   b: 1", 2, true, false)),
        ("length too large", || dec("a[99999999999]: 1", 2, true, false)),
        ("table", || dec("t[2|]{a|\"b c\"}:\n  1|x\n  2|\"y|z\"\nu: true", 2, true, false)),
        ("expand lenient", || dec("a.b: 1\na: 2\n\"c.d\": 3\nc.d: 4", 2, false, true)),
        ("events", || format!("{:?}", toon::try_decode_stream_sync(feed("\"k\": 1\nl[1]:\n  - m: 2"), Some(DecodeStreamOptions { indent: Some(2), strict: Some(true) })).map_err(|e| e.to_string()))),
        ("events of a value", || format!("{:?}", toon::encode_stream_events(val(r#"{"a":[{"b":1},{"b":null}]}"#), None))),
        ("to JSON", || format!("{:?}", toon::toon_to_json("a: 1.5\nb[1]: \"x\\\"\"").map_err(|e| e.to_string()))),
        ("from JSON", || format!("{:?}", toon::json_to_toon(r#"{"t":[{"a":1,"b":"05"},{"a":2,"b":""}]}"#).map_err(|e| e.to_string()))),
        ("bad JSON", || format!("{:?}", toon::json_to_toon(r#"{"t":[{"a":1,"b""#).map_err(|e| e.to_string()))),
        ("JSON chunks", || format!("{:?}", conversion::decode_to_json_chunks("a:\n    b[2]: 1,2\n    c:", Some(real::dopt(4, true, false))).map_err(|e| e.to_string()))),
        ("encode table, pipe", || toon::encode(val(r#"[{"a":1,"b":"x|y"},{"b":"z","a":2}]"#), Some(eo(2, '|', false)))),
        ("encode lists", || toon::encode(val(r#"{"l":[[1,2],{"a":[{"b":1}],"c":{}},[],"- x"]}"#), Some(eo(1, ',', false)))),
        ("stream dropped", || {
            #[cfg(feature = "async-stream")]
            {
                let mut st = toon::decode::AsyncDecodeStream::new(feed("a: 1\nb: 2\nc[1]: x"), None);
                let a = super::stream::full::poll(&mut st).map(|x| x.map_err(|e| e.to_string()));
                let b = super::stream::full::poll(&mut st).map(|x| x.map_err(|e| e.to_string()));
                format!("{a:?} {b:?}")
            }
            #[cfg(not(feature = "async-stream"))]
            String::new()
        }),
        ("stream", || format!("{:?}", block(toon::try_decode_stream(feed("a: 1\nb[1]:\n  - 2"), Some(DecodeStreamOptions { indent: Some(2), strict: Some(false) }))).map_err(|e| e.to_string()))),
        ("wide", || {
            let rows = (0..200).map(|i| format!("{{\"a\":{i},\"b\":\"r{i}\"}}")).collect::<Vec<_>>().join(",");
            let t = toon::encode(val(&format!("{{\"t\":[{rows}]}}")), Some(eo(3, '\t', false)));
            dec(&t, 3, true, false).len().to_string() + &t[t.len() - 12..]
        }),
        ("deep", || {
            let v = (0..40).fold(val("1"), |v, i| if i % 2 == 0 { JsonValue::Object(vec![("k".into(), v)]) } else { JsonValue::Array(vec![v, val("2")]) });
            let t = toon::encode(v, Some(eo(2, '|', true)));
            t.len().to_string() + &dec(&t, 2, true, true)
        }),
    ]
}
fn outcome(op: fn() -> String) -> String {
    let outer = SEEN_BY_USER.with(|s| std::mem::take(&mut *s.borrow_mut()));
    let r = guard(op).unwrap_or_else(|m| format!("panic: {}", m.lines().next_back().unwrap_or("")));
    let seen = SEEN_BY_USER.with(|s| std::mem::replace(&mut *s.borrow_mut(), outer));
    if seen.is_empty() { r } else { format!("{r} [{seen}]") }
}
/// Prints one operation's result: the first call of a fresh process.
pub fn op_in_process(i: usize) {
    print!("{}", outcome(ops()[i].1));
}

/// `step every <a> <all others?> <core>` or `step one <a> <b> <share> <of> <core>`: explores, prints what it found.
/// The expected results come in on standard input.
pub fn step_in_process(args: &[String]) {
    let num = |i: usize| args[i].parse::<usize>().expect("number");
    let all = ops();
    let want: Vec<String> = std::io::read_to_string(std::io::stdin()).expect("results").split('\0').map(str::to_string).collect();
    let report = |a: usize, b: usize, at: u64, o: &step::Outcome| {
        let mut bad = false;
        if o.first != want[a] {
            println!("bad\0{a}\0{b}\0{at}\0the stopped call gives {:?} instead of {:?}", o.first, want[a]);
            bad = true;
        }
        for r in &o.second {
            println!("bad\0{a}\0{b}\0{at}\0the other call gives {r:?} instead of {:?}", want[b]);
            bad = true;
        }
        bad
    };
    match args[0].as_str() {
        "every" => {
            let (a, core) = (num(1), num(3));
            let wide = num(2) == 1;
            let m = all.len() - 2;
            let others: Vec<usize> = if wide { (0..m).collect() } else { (0..m).filter(|b| *b < SMALL || b % 4 == 0).collect() };
            for b in others {
                let o = step::at_every(|| outcome(all[a].1), &|| outcome(all[b].1), &want[b], core);
                report(a, b, step::EVERY, &o);
                println!("ran\0{}\0{}\0{}", o.points, o.runs, o.waits);
            }
        }
        "one" => {
            let (a, b, share, of, core) = (num(1), num(2), num(3), num(4), num(5));
            let g: &'static (dyn Fn() -> String + Sync) = Box::leak(Box::new(move || outcome(ops()[b].1)));
            let want_b: &'static str = Box::leak(want[b].clone().into_boxed_str());
            let (n, copies, end) = step::at_each(|| outcome(all[a].1), g, want_b, share as u64, of as u64, core, |at, o| {
                let bad = report(a, b, at, o);
                if bad { 8 } else { 0 }
            });
            if let Some((at, st)) = end
                && st != 8 << 8
            {
                println!("bad\0{a}\0{b}\0{at}\0the process ends with wait status {st}");
            }
            println!("ran\0{n}\0{copies}\00");
        }
        _ => {}
    }
}

// ------------ threads

/// Runs threads one at a time, switching where the plan says.
struct Sched {
    st: Mutex<St>,
    cv: Condvar,
    beat: AtomicU64,
}
struct St {
    plan: Vec<(usize, u64)>,
    at: usize,
    done: Vec<bool>,
    turn: usize,
    budget: u64,
    forced: u64,
}
thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
    static SCHED: Cell<*const Sched> = const { Cell::new(std::ptr::null()) };
}
impl Sched {
    fn new(n: usize, plan: Vec<(usize, u64)>) -> Sched {
        let (turn, budget) = plan[0];
        Sched { st: Mutex::new(St { plan, at: 0, done: vec![false; n], turn, budget, forced: 0 }), cv: Condvar::new(), beat: AtomicU64::new(0) }
    }
    fn wait(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        let (mut last, mut same) = (self.beat.load(Relaxed), 0);
        while g.turn != me {
            let (h, t) = self.cv.wait_timeout(g, Duration::from_millis(50)).unwrap();
            g = h;
            if t.timed_out() {
                let b = self.beat.load(Relaxed);
                same = if b == last { same + 1 } else { 0 };
                last = b;
                // the running thread waits for something this one holds
                if same > 20 && g.turn != me {
                    g.turn = me;
                    g.budget = u64::MAX;
                    g.forced += 1;
                }
            }
        }
        LEFT.set(g.budget);
    }
    fn next(&self, g: &mut St) {
        loop {
            g.at += 1;
            let (t, b) = match g.plan.get(g.at) {
                Some(x) => *x,
                None => match g.done.iter().position(|d| !d) {
                    Some(t) => (t, u64::MAX),
                    None => (usize::MAX, 0),
                },
            };
            if t == usize::MAX || !g.done[t] {
                g.turn = t;
                g.budget = b;
                break;
            }
        }
        self.cv.notify_all();
    }
    fn point(&self) {
        self.beat.fetch_add(1, Relaxed);
        SEEN.set(SEEN.get() + 1);
        let l = LEFT.get();
        if l > 0 {
            LEFT.set(if l == u64::MAX { l } else { l - 1 });
            return;
        }
        let me = ME.get();
        let mut g = self.st.lock().unwrap();
        if g.turn == me {
            self.next(&mut g);
        }
        drop(g);
        self.wait(me);
        // the point itself counts as the first step of the new turn
        let l = LEFT.get();
        LEFT.set(if l == u64::MAX { l } else { l.saturating_sub(1) });
    }
}
fn here() {
    let p = SCHED.get();
    if !p.is_null() {
        unsafe { &*p }.point();
    }
}
/// Runs the operations on threads of their own under a plan; results and points passed.
fn threads(ops: &[fn() -> String], plan: Vec<(usize, u64)>, at_allocs: bool) -> (Vec<String>, Vec<u64>, u64) {
    let sch = Sched::new(ops.len(), plan);
    let r: Vec<(String, u64)> = std::thread::scope(|s| {
        let h: Vec<_> = ops
            .iter()
            .enumerate()
            .map(|(i, op)| {
                let sch = &sch;
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn_scoped(s, move || {
                        ME.set(i);
                        SCHED.set(sch);
                        if !at_allocs {
                            USER.with(|u| *u.borrow_mut() = Some(Box::new(here)));
                        }
                        sch.wait(i);
                        if at_allocs {
                            alloc::at_points(Some(here));
                        }
                        let out = outcome(*op);
                        alloc::at_points(None);
                        SCHED.set(std::ptr::null());
                        let mut g = sch.st.lock().unwrap();
                        g.done[i] = true;
                        if g.turn == i {
                            sch.next(&mut g);
                        }
                        (out, SEEN.get())
                    })
                    .expect("thread")
            })
            .collect();
        h.into_iter().map(|h| h.join().expect("operation thread")).collect()
    });
    let forced = sch.st.lock().unwrap().forced;
    let (a, b) = r.into_iter().unzip();
    (a, b, forced)
}

pub fn c16(ctx: &Ctx) {
    let t = ctx.thorough;
    let all = ops();
    let n = all.len();
    let exe = std::env::current_exe().expect("own path");
    let mut want: Vec<String> = vec![];
    ctx.family("fresh processes", &format!("each of {n} operations as the first call of a process, twice"), || {
        for i in 0..n {
            let run = || {
                let o = std::process::Command::new(&exe).args(["C16", "op", &i.to_string()]).output().expect("own program");
                if !o.status.success() {
                    eprintln!("harness error: operation {i} ended with {}", o.status);
                    std::process::exit(3);
                }
                String::from_utf8_lossy(&o.stdout).into_owned()
            };
            let a = run();
            ctx.add(1, 2, 2);
            ctx.sample(|| format!("{}: {}", all[i].0, a.chars().take(120).collect::<String>()));
            if a != run() {
                ctx.fail(&jstr(all[i].0), "differs between two fresh processes");
            }
            want.push(a);
        }
    });
    let names = |h: &[usize]| format!("[{}]", h.iter().map(|i| jstr(all[*i].0)).collect::<Vec<_>>().join(","));
    let run = |h: &[usize], how: &str| {
        ctx.add(1, h.len() as u64, 1);
        for (j, i) in h.iter().enumerate() {
            let got = outcome(all[*i].1);
            if got != want[*i] {
                ctx.fail(&format!("{{\"history\":{},\"on\":\"{how}\"}}", names(&h[..=j])), &format!("{got:?} instead of {:?}", want[*i]));
                return;
            }
        }
    };
    let digits = |mut i: u64, len: usize| {
        (0..len)
            .map(|_| {
                let d = (i % n as u64) as usize;
                i /= n as u64;
                d
            })
            .collect::<Vec<_>>()
    };
    ctx.family("histories on a new thread", "all sequences of 2 operations, each on a thread of its own", || {
        ctx.par_grain(pow(n, 2), 8, |i| {
            let h = digits(i, 2);
            std::thread::scope(|s| {
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || run(&h, "a new thread")).expect("thread");
            });
        });
    });
    let len = if t { 4 } else { 3 };
    ctx.family("histories", &format!("all sequences of {len} operations on long-lived threads, 8 of them at a time"), || {
        ctx.par(pow(n, len), |i| run(&digits(i, len), "a reused thread"));
    });
    ctx.family("repetitions", "each operation 70000 times on end (large ones 300), then every operation once", || {
        ctx.par_grain(n as u64, 1, |i| {
            let i = i as usize;
            let times = if i >= n - 2 { 300 } else { 70_000 };
            for k in 0..times {
                let got = outcome(all[i].1);
                if got != want[i] {
                    return ctx.fail(&format!("{{\"operation\":{},\"repetition\":{k}}}", jstr(all[i].0)), &format!("{got:?} instead of {:?}", want[i]));
                }
            }
            ctx.add(1, times, 1);
            run(&(0..n).collect::<Vec<_>>(), "the thread of the repetition");
        });
    });
    // every operation inside every callback of every operation
    let outer: Vec<usize> = (0..n)
        .filter(|i| {
            let c = Arc::new(AtomicU64::new(0));
            let d = c.clone();
            USER.with(|u| *u.borrow_mut() = Some(Box::new(move || drop(d.fetch_add(1, Relaxed)))));
            outcome(all[*i].1);
            USER.with(|u| *u.borrow_mut() = None);
            c.load(Relaxed) > 0
        })
        .collect();
    ctx.family("calls from callbacks", &format!("every operation made at every callback or iterator step of {} operations", outer.len()), || {
        ctx.par_grain((outer.len() * n * 8) as u64, 4, |k| {
            let k = k as usize;
            let (o, inner, at) = (outer[k % outer.len()], k / outer.len() % n, k / outer.len() / n);
            let seen = Arc::new(Mutex::new((0usize, None::<String>)));
            let (s2, f) = (seen.clone(), all[inner].1);
            USER.with(|u| {
                *u.borrow_mut() = Some(Box::new(move || {
                    let i = {
                        let mut g = s2.lock().unwrap();
                        g.0 += 1;
                        g.0 - 1
                    };
                    if i == at {
                        let r = outcome(f);
                        s2.lock().unwrap().1 = Some(r);
                    }
                }));
            });
            let got = outcome(all[o].1);
            USER.with(|u| *u.borrow_mut() = None);
            let Some(r) = seen.lock().unwrap().1.take() else { return };
            ctx.add(1, 2, 1);
            let c = || format!("{{\"operation\":{},\"from\":{},\"callback\":{at}}}", jstr(all[inner].0), jstr(all[o].0));
            if r != want[inner] {
                ctx.fail(&c(), &format!("the inner call gives {r:?} instead of {:?}", want[inner]));
            }
            if got != want[o] {
                ctx.fail(&c(), &format!("the outer call gives {got:?} instead of {:?}", want[o]));
            }
        });
    });
    ctx.family("panicking callbacks", &format!("a panic at every callback or iterator step of {} operations, then every operation, and the same nested in a callback of another", outer.len()), || {
        ctx.par_grain((outer.len() * 8) as u64, 1, |k| {
            let (o, at) = (outer[k as usize % outer.len()], k as usize / outer.len());
            let fall = move |at: usize| {
                let mut i = 0;
                USER.with(|u| {
                    *u.borrow_mut() = Some(Box::new(move || {
                        i += 1;
                        assert!(i != at + 1, "user code");
                    }));
                });
            };
            for next in 0..n {
                fall(at);
                let broken = outcome(all[o].1);
                USER.with(|u| *u.borrow_mut() = None);
                let got = outcome(all[next].1);
                ctx.add(1, 2, 1);
                if got != want[next] {
                    ctx.fail(&format!("{{\"operation\":{},\"after a panic in\":{},\"callback\":{at}}}", jstr(all[next].0), jstr(all[o].0)), &format!("{got:?} instead of {:?} (the panicking call: {broken})", want[next]));
                }
            }
            // the panicking call is made from a callback of another call
            for &host in &outer {
                for when in 0..4 {
                    let mut i = 0;
                    let f = all[o].1;
                    USER.with(|u| {
                        *u.borrow_mut() = Some(Box::new(move || {
                            i += 1;
                            if i == when + 1 {
                                fall(at);
                                outcome(f);
                                USER.with(|u| *u.borrow_mut() = None);
                            }
                        }));
                    });
                    let got = outcome(all[host].1);
                    USER.with(|u| *u.borrow_mut() = None);
                    ctx.add(1, 2, 1);
                    if got != want[host] {
                        ctx.fail(&format!("{{\"operation\":{},\"a panic in\":{},\"callback\":{at},\"made from its callback\":{when}}}", jstr(all[host].0), jstr(all[o].0)), &format!("{got:?} instead of {:?}", want[host]));
                    }
                }
            }
        });
    });
    related(ctx);
    stepping(ctx, &exe, &all, &want);
    // interleavings where user code runs
    let check = |who: &[usize], plan: &[(usize, u64)], at_allocs: bool| {
        let f: Vec<fn() -> String> = who.iter().map(|i| all[*i].1).collect();
        let (got, _, forced) = threads(&f, plan.to_vec(), at_allocs);
        ctx.add(1, plan.len() as u64, 1);
        if forced > 0 {
            ctx.tally("schedule with a thread waiting for another");
        }
        for (g, i) in got.iter().zip(who) {
            if *g != want[*i] {
                ctx.fail(
                    &format!("{{\"threads\":{},\"schedule\":{},\"points\":\"{}\"}}", names(who), jstr(&format!("{plan:?}")), if at_allocs { "allocations" } else { "user code" }),
                    &format!("{} gives {g:?} instead of {:?}", all[*i].0, want[*i]),
                );
            }
        }
    };
    let points = |i: usize, at_allocs: bool| threads(&[all[i].1], vec![(0, u64::MAX)], at_allocs).1[0];
    ctx.family("interleavings at user code", &format!("all interleavings of every two of {} operations at their callback and iterator steps", outer.len()), || {
        let k = outer.len();
        ctx.par_grain((k * k) as u64, 1, |p| {
            let (a, b) = (outer[p as usize % k], outer[p as usize / k]);
            let (na, nb) = (points(a, false), points(b, false));
            // a schedule is the order of na+1 and nb+1 steps
            fn go(x: u64, y: u64, plan: &mut Vec<(usize, u64)>, f: &dyn Fn(&[(usize, u64)])) {
                if x == 0 || y == 0 {
                    return f(plan);
                }
                for (t, (dx, dy)) in [(0, (1, 0)), (1, (0, 1))] {
                    let merge = plan.last().is_some_and(|l| l.0 == t);
                    if merge {
                        plan.last_mut().unwrap().1 += 1;
                    } else {
                        plan.push((t, 0));
                    }
                    go(x - dx, y - dy, plan, f);
                    if merge {
                        plan.last_mut().unwrap().1 -= 1;
                    } else {
                        plan.pop();
                    }
                }
            }
            go(na + 1, nb + 1, &mut vec![], &|plan| check(&[a, b], plan, false));
        });
    });
    // preemption anywhere the library allocates
    let pts: Vec<u64> = (0..n - 2).map(|i| points(i, true)).collect();
    ctx.family("one preemption", &format!("every two of {} operations, the first stopped at each of its allocations and releases while the second runs", n - 2), || {
        let m = n - 2;
        ctx.par_grain((m * m) as u64, 1, |p| {
            let (a, b) = (p as usize % m, p as usize / m);
            for i in 0..pts[a] {
                check(&[a, b], &[(0, i), (1, u64::MAX), (0, u64::MAX)], true);
            }
        });
    });
    let m = if t { n - 2 } else { SMALL };
    ctx.family("two preemptions", &format!("every two of {m} operations, each stopped at each of its first {} allocations and releases", if t { 400 } else { 40 }), || {
        let cap = if t { 400 } else { 40 };
        ctx.par_grain((m * m) as u64, 1, |p| {
            let (a, b) = (p as usize % m, p as usize / m);
            for i in 0..pts[a].min(cap) {
                ctx.note(|| format!("{a} {b} {i}"));
                for j in 0..pts[b].min(cap) {
                    check(&[a, b], &[(0, i), (1, j), (0, u64::MAX), (1, u64::MAX)], true);
                }
            }
        });
    });
}

/// Preemption at machine instructions, in processes of their own.
fn stepping(ctx: &Ctx, exe: &std::path::Path, all: &[Op], want: &[String]) {
    let m = all.len() - 2;
    let input = want.join("\0");
    let core = Mutex::new((0..8usize).collect::<Vec<_>>());
    let child = |args: &[String]| {
        let c = core.lock().unwrap().pop().unwrap_or(0);
        let mut p = std::process::Command::new("timeout")
            .arg("600")
            .arg(exe)
            .args(["C16", "step"])
            .args(args)
            .arg(c.to_string())
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .spawn()
            .expect("own program");
        {
            use std::io::Write;
            let _ = p.stdin.take().unwrap().write_all(input.as_bytes());
        }
        let o = p.wait_with_output().expect("own program");
        core.lock().unwrap().push(c);
        let name = |i: &str| i.parse::<usize>().ok().and_then(|i| all.get(i)).map_or("", |o| o.0);
        let mut last = String::new();
        for l in String::from_utf8_lossy(&o.stdout).split('\n') {
            let w: Vec<&str> = l.split('\0').collect();
            match w[0] {
                "ran" => {
                    let n = |i: usize| w[i].parse::<u64>().unwrap_or(0);
                    ctx.add(n(2), n(1), n(2));
                    if n(3) > 0 {
                        ctx.tally("preemption where the other call has to wait");
                    }
                    last = format!("{args:?}: {} instructions, {} calls", n(1), n(2));
                }
                "bad" => {
                    let at = if w[3] == step::EVERY.to_string() { "every instruction".to_string() } else { format!("instruction {}", w[3]) };
                    ctx.fail(&format!("{{\"stopped\":{},\"meanwhile\":{},\"at\":{}}}", jstr(name(w[1])), jstr(name(w[2])), jstr(&at)), w[4]);
                }
                _ => {}
            }
        }
        if !o.status.success() {
            ctx.fail(&format!("{{\"stepping\":{}}}", jstr(&format!("{args:?}"))), &format!("the process ends with {:?}", o.status));
        }
        ctx.sample(|| last.clone());
    };
    let at_once = |n: usize, f: &(dyn Fn(usize) + Sync)| {
        let next = AtomicU64::new(0);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| {
                    loop {
                        let i = next.fetch_add(1, Relaxed) as usize;
                        if i >= n || ctx.stopped() {
                            break;
                        }
                        f(i);
                    }
                });
            }
        });
    };
    ctx.family("a call at every instruction", &format!("{m} operations and {} others, run in full by another thread at each machine instruction of the first", if ctx.thorough { m } else { (0..m).filter(|b| *b < SMALL || b % 4 == 0).count() }), || {
        at_once(m, &|a| child(&["every".into(), a.to_string(), u8::from(ctx.thorough).to_string()]));
    });
    let (k, others): (usize, Vec<usize>) = if ctx.thorough { (m, (0..m).collect()) } else { (SMALL, vec![1, 3, 6, 9]) };
    let mut pairs: Vec<(usize, usize)> = (0..k).flat_map(|a| others.iter().map(move |b| (a, *b))).collect();
    // and another call like it
    pairs.extend((0..k).filter(|a| !others.contains(a)).map(|a| (a, a)));
    ctx.family("a first call at one instruction", &format!("{} pairs of operations, the first of a fresh process stopped at each of its machine instructions in turn while the second runs", pairs.len()), || {
        let of = 8;
        at_once(pairs.len() * of, &|i| {
            let (a, b) = pairs[i / of];
            child(&["one".into(), a.to_string(), b.to_string(), (i % of).to_string(), of.to_string()]);
        });
    });
}

/// A replacer's answer to one visit, by the way it is asked to behave.
fn answer(mode: usize, k: &str, v: &V, depth: usize) -> Option<V> {
    match mode {
        0 => Some(v.clone()),
        1 => (k != "a").then(|| v.clone()),
        2 => (depth == 0).then(|| v.clone()),
        3 => Some(if depth == 0 { V::Arr(vec![V::Obj(vec![("r".into(), v.clone())])]) } else { v.clone() }),
        4 => Some(if matches!(v, V::Num(_)) { V::Str("n".into()) } else { v.clone() }),
        5 => Some(if k == "b" { V::Obj(vec![("a".into(), V::Num(7.0))]) } else { v.clone() }),
        6 => (depth > 0).then(|| v.clone()),
        7 => Some(if depth == 2 { V::Null } else { v.clone() }),
        _ => (!matches!(v, V::Num(_) | V::Null)).then(|| v.clone()),
    }
}
/// Replacers and buffers that look like those of the call before.
fn answers(ctx: &Ctx) {
    use crate::model::repl;
    use std::sync::atomic::AtomicUsize;
    const MODES: usize = 9;
    let values: Vec<V> = super::super::gen_docs::seeds()
        .into_iter()
        .chain([r#"{"a":1,"b":[1,{"a":null}]}"#, r#"[1,2,{"a":1}]"#, r#"[{"a":1,"b":2},{"a":3,"b":4}]"#, "5", r#"{"b":{"b":{"b":1}}}"#, "[]", "{}"].iter().map(|j| V::from_real(&val(j))))
        .collect();
    // the library's replacer around `answer`
    let real_of = |mode: Arc<AtomicUsize>, log: Arc<Mutex<Vec<String>>>| -> toon::options::EncodeReplacer {
        Arc::new(move |k, v, p| {
            let v = V::from_real(v);
            log.lock().unwrap().push(format!("{k:?} {} {}", v.show(), p.len()));
            answer(mode.load(Relaxed), k, &v, p.len()).map(|v| v.to_real())
        })
    };
    let one = |ctx: &Ctx, v: &V, fold: bool, mode: usize, r: toon::options::EncodeReplacer, log: &Mutex<Vec<String>>, before: &str| {
        let o = EncOpt { indent: 2, delim: ',', fold, flatten: usize::MAX };
        log.lock().unwrap().clear();
        let got = guard(|| {
            let mut p = o.to_real();
            p.replacer = Some(r);
            toon::encode(v.to_real(), Some(p))
        });
        let mut seen = vec![];
        let w = repl::apply(v, &mut |k, v, p| {
            seen.push(format!("{k:?} {} {}", v.show(), p.len()));
            answer(mode, k, v, p.len())
        });
        let want = enc::encode(&w, o);
        ctx.add(1, 1, 1);
        if got.as_ref() != Ok(&want) || *log.lock().unwrap() != seen {
            ctx.fail(
                &format!("{{\"value\":{},\"fold\":{fold},\"answers\":{mode},\"before\":{}}}", jstr(&v.show()), jstr(before)),
                &format!("gives {got:?} after asking {:?}, alone {want:?} after {seen:?}", log.lock().unwrap()),
            );
        }
    };
    ctx.family("like replacers", &format!("{} values encoded with every ordered pair of {MODES} ways to answer: by one replacer that changes its mind, by a new one in place of a freed one, by two alive at once; also with another value in between", values.len()), || {
        ctx.par_grain((values.len() * MODES * MODES) as u64, 4, |i| {
            let i = i as usize;
            let (v, a, b) = (&values[i / MODES / MODES], i / MODES % MODES, i % MODES);
            let other = &values[(i / MODES / MODES + 1) % values.len()];
            let (mode, log) = (Arc::new(AtomicUsize::new(a)), Arc::new(Mutex::new(vec![])));
            let set = |m: usize| {
                mode.store(m, Relaxed);
                m
            };
            for fold in [false, true] {
                let r = real_of(mode.clone(), log.clone());
                for m in [a, b, a, a, b] {
                    one(ctx, v, fold, set(m), r.clone(), &log, &format!("the same replacer answering as {a} or {b}"));
                }
                one(ctx, other, fold, set(a), r.clone(), &log, "the same replacer");
                one(ctx, v, fold, set(b), r.clone(), &log, "the same replacer with another value");
                one(ctx, other, fold, set(b), r.clone(), &log, "the same replacer with another value");
                drop(r);
                for m in [a, b, a] {
                    let (mine, log) = (Arc::new(AtomicUsize::new(m)), Arc::new(Mutex::new(vec![])));
                    let r = real_of(mine, log.clone());
                    one(ctx, v, fold, m, r, &log, "a replacer freed since");
                }
                let (ma, mb) = (Arc::new(AtomicUsize::new(a)), Arc::new(AtomicUsize::new(b)));
                let (ra, rb) = (real_of(ma, log.clone()), real_of(mb, log.clone()));
                for (m, r) in [(a, &ra), (b, &rb), (a, &ra)] {
                    one(ctx, v, !fold, m, r.clone(), &log, "another replacer alive");
                }
            }
        });
    });
    // texts and names that come one after another in the same memory
    const PARTS: [&str; 14] = ["1", "x", "\"", ":", ",", " ", "\n", "-", "[", "]", "a", "0", "{", "}"];
    let frames = ["k: @", "a[3]: @", "a[1]:\n  - @", "@: 1", "[1]{f}:\n  @", "k:\n  @: 1"];
    let n = PARTS.len();
    ctx.family("one buffer", &format!("all ordered pairs of 3-character words over {n} characters that differ in one of them, in {} texts read from one reused buffer, forwards and backwards", frames.len()), || {
        ctx.par_grain(pow(n, 3), 16, |i| {
            let i = i as usize;
            let base = [i % n, i / n % n, i / n / n];
            let mut buf = String::with_capacity(64);
            let mut read = |fr: &str, w: [usize; 3]| {
                buf.clear();
                buf.push_str(&fr.replace('@', &w.map(|x| PARTS[x]).concat()));
                let want = dec::decode_events(&real::split(&buf), 2, true).ok().and_then(|e| events::build(&e)).map(|n| n.value());
                let got = real::decode(&buf, 2, true, false);
                ctx.add(1, 1, 1);
                if got.as_ref().ok() != want.as_ref() {
                    ctx.fail(&format!("{{\"text\":{},\"before\":\"a like one in the same buffer\"}}", jstr(&buf)), &format!("gives {:?}, alone {:?}", got.map(|v| v.show()), want.map(|v| v.show())));
                }
            };
            for fr in frames {
                for place in 0..3 {
                    for x in 0..n {
                        let mut w = base;
                        w[place] = x;
                        read(fr, base);
                        read(fr, w);
                    }
                }
            }
        });
    });
}

/// Calls whose arguments are alike, one after the other: what one leaves behind may fit the next.
fn related(ctx: &Ctx) {
    let t = ctx.thorough;
    let mut sizes: Vec<usize> = (0..=40).collect();
    sizes.extend([47, 48, 49, 62, 63, 64, 65, 66, 70, 79, 80, 81, 95, 96, 97, 99, 100, 101, 120, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025]);
    const MARKS: [&str; 12] = ["", ",", "|", "\t", ":", "\"", "\\", ".", " ", "-", "1", "\u{e9}"];
    // a string of the size with a mark at its start, in its middle or at its end
    let make = |size: usize, mark: &str, place: usize, fill: &str| {
        let mut w: Vec<&str> = vec![fill; size];
        if size > 0 && !mark.is_empty() {
            w[[0, size / 2, size - 1][place]] = mark;
        }
        w.concat()
    };
    let settings: Vec<EncOpt> = [(2, ',', false, 9), (1, '|', false, 9), (4, '\t', false, 9), (2, ',', true, usize::MAX), (3, '|', true, 2), (2, '|', false, 9), (2, ',', true, 3)]
        .map(|(indent, delim, fold, flatten)| EncOpt { indent, delim, fold, flatten })
        .to_vec();
    let encode = |v: &V, o: EncOpt, before: &str| {
        ctx.add(1, 1, 1);
        let (got, want) = (real::encode(v, o), enc::encode(v, o));
        if got.as_ref() != Ok(&want) {
            ctx.fail(&format!("{{\"before\":{},\"then\":{}}}", jstr(before), super::values::case(v, o)), &format!("gives {got:?}, alone {want:?}"));
        }
    };
    let values = |x: &str| -> Vec<V> {
        vec![
            V::Arr(vec![V::Str(x.into()), V::Obj(vec![(x.to_string(), V::Str(x.into()))])]),
            V::Obj(vec![("t".into(), V::Arr(vec![V::Obj(vec![("f".into(), V::Str(x.into())), (x.to_string(), V::Null)])])), ("w".into(), V::Obj(vec![(format!("k{x}"), V::Obj(vec![("u".into(), V::Str(x.into()))]))]))]),
        ]
    };
    ctx.family("same value, other settings", &format!("strings and keys of {} lengths with one of 12 marks in 3 places, encoded with every ordered pair of {} settings", sizes.len(), settings.len()), || {
        ctx.par(sizes.len() as u64 * 36, |i| {
            let i = i as usize;
            let x = make(sizes[i / 36], MARKS[i % 12], i / 12 % 3, "x");
            for v in values(&x) {
                for a in &settings {
                    for b in &settings {
                        encode(&v, *a, "");
                        encode(&v, *b, "the same value with other settings");
                    }
                }
            }
        });
    });
    ctx.family("like values, same settings", "every ordered pair of strings of one length that differ in one mark", || {
        ctx.par(sizes.len() as u64 * 36, |i| {
            let i = i as usize;
            let size = sizes[i / 36];
            let x = make(size, MARKS[i % 12], i / 12 % 3, "x");
            for (j, m) in MARKS.iter().enumerate() {
                for place in 0..3 {
                    let y = make(size, m, place, "x");
                    for (k, o) in settings.iter().enumerate().skip((i + j) % 2).step_by(if t { 1 } else { 2 }) {
                        encode(&values(&x)[k % 2], *o, "");
                        encode(&values(&y)[k % 2], *o, &x);
                    }
                }
            }
        });
    });
    let decode = |text: &str, indent: usize, strict: bool, on: bool, before: &str| {
        ctx.add(1, 1, 1);
        let want = dec::decode_events(&real::split(text), indent, strict).ok().and_then(|e| events::build(&e)).and_then(|n| if on { expand::expand(&n, strict).ok() } else { Some(n.value()) });
        let got = real::decode(text, indent, strict, on);
        if got.as_ref().ok() != want.as_ref() {
            let c: String = text.chars().take(3000).collect();
            ctx.fail(
                &format!("{{\"before\":{},\"text\":{},\"indent\":{indent},\"strict\":{strict},\"expand\":{on}}}", jstr(before), jstr(&c)),
                &format!("gives {:?}, alone {:?}", got.map(|v| v.show()), want.map(|v| v.show())),
            );
        }
    };
    let texts = |x: &str| -> Vec<String> {
        vec![
            format!("k: {x}\n{x}: 1"),
            format!("l[2]: {x},{x}\n\"{x}\":\n  m: \"{x}\""),
            format!("t[1|]{{f|\"{x}\"}}:\n  {x}|1"),
            format!("a:\n    p{x}: {x}\n    q: 2"),
            format!("a:\n  - {x}\n  k{x}:\n    q: 2"),
        ]
    };
    const READ: [(usize, bool, bool); 6] = [(2, true, false), (4, true, false), (2, false, false), (2, true, true), (2, false, true), (1, false, true)];
    ctx.family("same text, other settings", &format!("5 texts with strings and keys of {} lengths with one of 12 marks, read with every ordered pair of 6 settings", sizes.len()), || {
        ctx.par(sizes.len() as u64 * 36, |i| {
            let i = i as usize;
            // path expansion has a documented bound
            let size = if MARKS[i % 12] == "." { sizes[i / 36].min(100) } else { sizes[i / 36] };
            let x = make(size, MARKS[i % 12], i / 12 % 3, "x");
            for text in texts(&x) {
                for a in READ {
                    for b in READ {
                        decode(&text, a.0, a.1, a.2, "");
                        decode(&text, b.0, b.1, b.2, "the same text with other settings");
                    }
                }
            }
        });
    });
    ctx.family("like texts, same settings", "every ordered pair of texts whose strings of one length differ in one mark", || {
        ctx.par(sizes.len() as u64 * 36, |i| {
            let i = i as usize;
            let x = make(sizes[i / 36], MARKS[i % 12], i / 12 % 3, "x");
            let tx = texts(&x);
            for (j, m) in MARKS.iter().enumerate() {
                for place in 0..3 {
                    let y = make(sizes[i / 36], m, place, "x");
                    let k = (i + j + place) % 5;
                    let s = READ[(i / 5 + j) % 6];
                    decode(&tx[k], s.0, s.1, s.2, "");
                    decode(&texts(&y)[k], s.0, s.1, s.2, &tx[k]);
                }
            }
        });
    });
    // tables found again by a hash, pools that fill up: very many names, one after another on one thread
    let many: u64 = if t { 1 << 22 } else { 1 << 19 };
    let pre = "prefix_of_some_length_";
    let forms: Vec<(&str, Box<dyn Fn(&str) -> (Result<String, String>, String) + Sync>)> = {
        let safe = EncOpt { indent: 2, delim: ',', fold: true, flatten: usize::MAX };
        let off = EncOpt { fold: false, ..safe };
        let one = |n: &str, v: V| V::Obj(vec![(n.to_string(), v)]);
        let num = |n: &str| V::Num(n.chars().filter(char::is_ascii_digit).collect::<String>().parse::<f64>().unwrap_or(0.0) / 8.0);
        let show = |r: real::R<V>| r.map(|v| v.show()).map_err(|f| f.msg);
        let spelled = |x: f64| if x.fract() == 0.0 { format!("{}", x as i64) } else { format!("{x}") };
        vec![
            ("encoded keys", Box::new(move |n: &str| (real::encode(&one(n, V::Null), off), format!("{n}: null")))),
            ("encoded quoted keys and strings", Box::new(move |n: &str| (real::encode(&one(&format!("{n} "), V::Str(format!("{n}:"))), off), format!("\"{n} \": \"{n}:\"")))),
            ("encoded strings", Box::new(move |n: &str| (real::encode(&V::Arr(vec![V::Str(n.into()), V::Str(format!("{n},")), num(n)]), off), format!("[3]: {n},\"{n},\",{}", spelled(if let V::Num(x) = num(n) { x } else { 0.0 }))))),
            ("encoded tables", Box::new(move |n: &str| (real::encode(&one("t", V::Arr(vec![one(n, V::Str(n.into()))])), off), format!("t[1]{{{n}}}:\n  {n}")))),
            ("folded chains", Box::new(move |n: &str| (real::encode(&one(n, one("m", one(n, V::Null))), safe), format!("{n}.m.{n}: null")))),
            ("decoded keys", Box::new(move |n: &str| (show(real::decode(&format!("{n}: {n}"), 2, true, false)), one(n, V::Str(n.into())).show()))),
            ("decoded quoted keys and strings", Box::new(move |n: &str| (show(real::decode(&format!("\"{n} \": \"{n}\\n\""), 2, true, false)), one(&format!("{n} "), V::Str(format!("{n}\n"))).show()))),
            ("decoded arrays", Box::new(move |n: &str| {
                let x = num(n);
                let V::Num(f) = x else { unreachable!() };
                (show(real::decode(&format!("{n}[2]: {n},{}", spelled(f)), 2, true, false)), one(n, V::Arr(vec![V::Str(n.into()), x])).show())
            })),
            ("decoded tables", Box::new(move |n: &str| (show(real::decode(&format!("[1]{{{n},\"{n} \"}}:\n  {n},1"), 2, false, false)), V::Arr(vec![V::Obj(vec![(n.to_string(), V::Str(n.into())), (format!("{n} "), V::Num(1.0))])]).show()))),
            ("expanded paths", Box::new(move |n: &str| (show(real::decode(&format!("{n}.m: 1\nl.{n}: 2"), 2, true, true)), V::Obj(vec![(n.to_string(), one("m", V::Num(1.0))), ("l".into(), one(n, V::Num(2.0)))]).show()))),
            ("JSON text", Box::new(move |n: &str| (guard(|| conversion::decode_to_json_chunks(&format!("{n}: {n}"), Some(real::dopt(0, true, false))).map_or_else(|e| e.to_string(), |c| c.concat())), format!("{{\"{n}\":\"{n}\"}}")))),
            ("rejected texts", Box::new(move |n: &str| (show(real::decode(&format!("{n}: 1\n{n}"), 2, true, false)).map_err(|_| String::new()), "rejected".into()))),
        ]
    };
    ctx.family("very many names", &format!("{} operations, each over {many} different names of one length, in two lengths, one after another on one thread, the first thousand again at the end", forms.len()), || {
        ctx.par_grain(forms.len() as u64 * 2, 1, |i| {
            let (what, f) = &forms[i as usize / 2];
            for k in (0..many).chain(0..1000) {
                let name = if i % 2 == 0 { format!("k{k:07}") } else { format!("{pre}{k:07}_{pre}") };
                let (got, want) = f(&name);
                ctx.add(1, 1, 1);
                if got.as_deref().unwrap_or("rejected") != want {
                    ctx.fail(&format!("{{\"operation\":{},\"name\":{},\"before\":\"all smaller ones on this thread\"}}", jstr(what), jstr(&name)), &format!("gives {got:?}, alone {want:?}"));
                    return;
                }
            }
        });
    });
    answers(ctx);
    // what any call leaves behind, seen by calls that cover many lines and every form
    const WITNESS: [&str; 5] = [
        "a[5]:\n  - 1\n  - 2\n  - 3\n  - 4\n  - 5",
        "[4]{a,\"b c\"}:\n  1,x\n  2,\"y,z\"\n  3,\n  \"\",true",
        "a:\n  b:\n    c[3]: 1,x,\"y\"\n  d:\ne.f: 1\ne.g: 2",
        "- x",
        "t[1]:\n  - a[1|]{x}:\n      1\n    b[2|]: p|q\nu[0]:\n\"k\": \"\\n\"",
    ];
    let lines: Vec<String> = ["", "a: 1", "a:", "  b: 1", "   c: 1", "\tb: 1", "a[2]:", "  - 1", "  - d: 2", "t[2|]{x|y}:", "  1|2", "k: \"x", "p.q: 1", "p: 1"].map(str::to_string).to_vec();
    let len = if t { 5 } else { 4 };
    super::super::gen_docs::lines_family(ctx, "any text before a witness", &lines, len, 2, &|text, indent| {
        let h = text.len() + text.matches('\n').count();
        let split = real::split(text);
        for (j, w) in WITNESS.iter().chain(&WITNESS).chain(&WITNESS).enumerate() {
            let k = j / 5 + j % 5;
            let s = READ[[0, 2, 3][j / 5]];
            // the first call: accepted or rejected, through one of the entry points
            match (h / 3 + k) % 4 {
                0 => drop(real::decode(text, indent, s.1, s.2)),
                1 => drop(real::call(|| toon::try_decode_stream_sync(split.iter().cloned(), Some(DecodeStreamOptions { indent: Some(indent), strict: Some(s.1) })))),
                2 => drop(guard(|| conversion::decode_to_json_chunks(text, Some(real::dopt(indent, s.1, s.2))).is_ok())),
                _ => drop(real::call(|| toon::try_decode_from_lines(split.iter().cloned(), Some(real::dopt(indent, s.1, s.2))))),
            }
            decode(w, 2, s.1, s.2, text);
        }
    });
    let witness: Vec<V> = super::super::gen_docs::seeds();
    super::super::gen_values::trees(ctx, if t { 6 } else { 5 }, &super::super::gen_values::basic_leaves(), &["a", "b.c", "x y"], &|v| {
        let size = v.show().len();
        for (k, w) in witness.iter().enumerate() {
            drop(real::encode(v, settings[(k + size) % settings.len()]));
            encode(w, settings[size % settings.len()], &v.show());
        }
    });
}
