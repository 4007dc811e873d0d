//! C10: asynchronous streams and functions.
use super::docs::case;
use crate::engine::{Ctx, guard};
use crate::gen_docs as gd;
use crate::model::value::{E, show_events};
use crate::real::{self, R};
use std::future::Future;
use std::pin::pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::task::{Context, Poll, Wake, Waker};
use toon::options::DecodeStreamOptions;

pub struct Count(pub AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}
/// Polls to completion; a future that is pending without having arranged a wake-up never ends.
pub fn block<T>(f: impl Future<Output = T>) -> T {
    let n = Arc::new(Count(AtomicUsize::new(0)));
    let w = Waker::from(n.clone());
    let mut f = pin!(f);
    loop {
        let before = n.0.load(SeqCst);
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(t) => return t,
            Poll::Pending if n.0.load(SeqCst) == before => panic!("pending and never woken"),
            Poll::Pending => {}
        }
    }
}
fn sopt(indent: usize, strict: bool) -> DecodeStreamOptions {
    DecodeStreamOptions { indent: Some(indent), strict: Some(strict) }
}
fn same(a: &R<Vec<E>>, b: &R<Vec<E>>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => a.panic == b.panic && a.msg == b.msg,
        _ => false,
    }
}
fn show(r: &R<Vec<E>>) -> String {
    match r {
        Ok(e) => show_events(e),
        Err(f) => format!("{}: {}", if f.panic { "panic" } else { "error" }, f.msg),
    }
}
/// The asynchronous functions that exist with and without the feature.
fn functions(ctx: &Ctx, text: &str, indent: usize) {
    let lines = real::split(text);
    for strict in [true, false] {
        ctx.add(1, lines.len() as u64, 1);
        let want = real::events(&lines, indent, strict);
        let got = real::call(|| block(toon::try_decode_stream(lines.clone(), Some(sopt(indent, strict)))))
            .map(|v| v.iter().map(E::from_real).collect());
        if !same(&got, &want) {
            ctx.fail(&case(text, indent, strict), &format!("try_decode_stream gives {}, the synchronous call {}", show(&got), show(&want)));
        }
        if lines.len() <= 2 {
            let got = guard(|| block(toon::decode_stream(lines.clone(), Some(sopt(indent, strict)))));
            let ok = match (&got, &want) {
                (Ok(g), Ok(w)) => g.iter().map(E::from_real).collect::<Vec<_>>() == *w,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            if !ok {
                ctx.fail(&case(text, indent, strict), &format!("decode_stream gives {got:?}, the synchronous call {}", show(&want)));
            }
        }
    }
}

#[cfg(feature = "async-stream")]
pub mod full {
    use super::*;
    use crate::engine::{jstr, pow};
    use crate::gen_values::{self as gv, Size};
    use crate::model::enc::EncOpt;
    use crate::model::events;
    use crate::model::value::{V, obj, s};
    use asupersync::stream::{Stream, StreamExt};
    use std::pin::Pin;
    use toon::JsonStreamEvent;
    use toon::decode::{AsyncDecodeStream, decode_stream_async, try_decode_async, try_decode_stream_async};
    use toon::encode::async_encode as ae;
    use toon::encode::{AsyncEncodeEventStream, AsyncEncodeStream};

    /// A line source that counts requests and, asked again after its end, goes on with junk.
    struct Source {
        lines: Vec<String>,
        at: Arc<AtomicUsize>,
    }
    impl Iterator for Source {
        type Item = String;
        fn next(&mut self) -> Option<String> {
            let i = self.at.fetch_add(1, SeqCst);
            match i.cmp(&self.lines.len()) {
                std::cmp::Ordering::Less => Some(self.lines[i].clone()),
                std::cmp::Ordering::Equal => None,
                std::cmp::Ordering::Greater => Some("junk: 1".into()),
            }
        }
    }
    pub fn poll<S: Stream + Unpin>(st: &mut S) -> Option<S::Item> {
        let n = Arc::new(Count(AtomicUsize::new(0)));
        let w = Waker::from(n.clone());
        loop {
            let before = n.0.load(SeqCst);
            match Pin::new(&mut *st).poll_next(&mut Context::from_waker(&w)) {
                Poll::Ready(x) => return x,
                Poll::Pending if n.0.load(SeqCst) == before => panic!("pending and never woken"),
                Poll::Pending => {}
            }
        }
    }
    type Item = R<E>;
    fn item(x: toon::error::Result<JsonStreamEvent>) -> Item {
        match x {
            Ok(e) => Ok(E::from_real(&e)),
            Err(e) => Err(real::fault(&e)),
        }
    }

    /// The decode stream against the synchronous decoder on one text.
    pub fn stream(ctx: &Ctx, text: &str, indent: usize) {
        let lines = real::split(text);
        for strict in [true, false] {
            ctx.add(1, lines.len() as u64, 1);
            let c = || case(text, indent, strict);
            let want = real::events(&lines, indent, strict);
            let at = Arc::new(AtomicUsize::new(0));
            let mut st = AsyncDecodeStream::new(Source { lines: lines.clone(), at: at.clone() }, Some(sopt(indent, strict)));
            let mut got: Vec<E> = vec![];
            let mut err = None;
            let limit = 1000 + 40 * text.len();
            let r = guard(|| {
                loop {
                    match poll(&mut st).map(item) {
                        None => return Ok(()),
                        Some(Ok(e)) => got.push(e),
                        Some(Err(f)) => {
                            err = Some(f);
                            return Ok(());
                        }
                    }
                    if got.len() > limit {
                        return Err("endless");
                    }
                }
            });
            if r != Ok(Ok(())) {
                ctx.fail(&c(), &format!("{r:?} after {}", show_events(&got)));
                continue;
            }
            let asked = at.load(SeqCst);
            match (&want, &err) {
                (Ok(w), None) if *w == got => ctx.tally("delivered"),
                (Err(w), Some(f)) if w.msg == f.msg => {
                    ctx.tally("error delivered");
                    // what came before the error is the beginning of a shorter document's events
                    let ok = got.is_empty()
                        || (1..=lines.len()).rev().any(|k| real::events(&lines[..k], indent, strict).is_ok_and(|e| e.starts_with(&got)));
                    if !ok {
                        ctx.fail(&c(), &format!("before its error the stream delivers {}", show_events(&got)));
                    }
                }
                _ => ctx.fail(&c(), &format!("stream delivers {} {:?}, the synchronous call {}", show_events(&got), err.map(|f| f.msg), show(&want))),
            }
            for _ in 0..3 {
                match guard(|| poll(&mut st)) {
                    Ok(None) => {}
                    other => ctx.fail(&c(), &format!("after its end the stream reports {other:?}")),
                }
            }
            if at.load(SeqCst) != asked || asked > lines.len() + 1 {
                ctx.fail(&c(), &format!("asked for {} lines of {} (at its end: {asked})", at.load(SeqCst), lines.len()));
            }
        }
    }
    /// All asynchronous decoding functions on one text.
    pub fn more_functions(ctx: &Ctx, text: &str, indent: usize) {
        let lines = real::split(text);
        for strict in [true, false] {
            ctx.add(1, lines.len() as u64, 1);
            let c = || case(text, indent, strict);
            let want = real::events(&lines, indent, strict);
            let got = real::call(|| block(try_decode_stream_async(lines.clone(), Some(sopt(indent, strict)))))
                .map(|v| v.iter().map(E::from_real).collect());
            if !same(&got, &want) {
                ctx.fail(&c(), &format!("try_decode_stream_async gives {}, the synchronous call {}", show(&got), show(&want)));
            }
            for expand in [false, true] {
                let want = real::decode(text, indent, strict, expand);
                let got = real::call(|| block(try_decode_async(text, Some(real::dopt(indent, strict, expand))))).map(|v| V::from_real(&v));
                if want != got {
                    ctx.fail(&c(), &format!("try_decode_async (expand {expand}) gives {got:?}, the synchronous call {want:?}"));
                }
            }
            if lines.len() <= 2 {
                let got = guard(|| block(decode_stream_async(lines.clone(), Some(sopt(indent, strict)))));
                match (&got, &want) {
                    (Ok(g), Ok(w)) if g.iter().map(E::from_real).collect::<Vec<_>>() == *w => {}
                    (Err(_), Err(_)) => {}
                    _ => ctx.fail(&c(), &format!("decode_stream_async gives {got:?}, the synchronous call {}", show(&want))),
                }
            }
        }
    }
    /// All asynchronous encoders on one value.
    fn encoders(ctx: &Ctx, v: &V, o: EncOpt, drop_k: bool) {
        ctx.add(1, 4, 1);
        let opt = || {
            let mut p = o.to_real();
            if drop_k {
                p.replacer = Some(Arc::new(|k, v, _| if k == "a" { None } else { Some(v.clone()) }));
            }
            Some(p)
        };
        let c = || super::super::values::case(v, o);
        let r = || v.to_real();
        let lines = guard(|| toon::encode_lines(r(), opt()));
        let ev = guard(|| toon::encode_stream_events(r(), opt()));
        let check = |name: &str, ok: bool, what: String| {
            if !ok {
                ctx.fail(&c(), &format!("{name} gives {what}, the synchronous call {lines:?} / {ev:?}"));
            }
        };
        let a = guard(|| block(ae::encode_lines_async(r(), opt())));
        check("encode_lines_async", a == lines, format!("{a:?}"));
        let a = guard(|| block(ae::try_encode_lines_async(r(), opt())).map_err(|e| e.to_string()));
        check("try_encode_lines_async", a == lines.clone().map(Ok), format!("{a:?}"));
        let text = lines.clone().map(|l| l.join("\n"));
        let a = guard(|| block(ae::encode_async(r(), opt())));
        check("encode_async", a == text, format!("{a:?}"));
        let a = guard(|| block(ae::try_encode_async(r(), opt())).map_err(|e| e.to_string()));
        check("try_encode_async", a == text.clone().map(Ok), format!("{a:?}"));
        let a = guard(|| block(ae::encode_events_async(r(), opt())));
        check("encode_events_async", a == ev, format!("{a:?}"));
        let a = guard(|| block(ae::try_encode_events_async(r(), opt())).map_err(|e| e.to_string()));
        check("try_encode_events_async", a == ev.clone().map(Ok), format!("{a:?}"));
        let a = guard(|| {
            let mut st = AsyncEncodeStream::new(r(), opt());
            let (n, e) = (st.len(), st.is_empty());
            let mut out = vec![];
            while let Some(l) = poll(&mut st) {
                out.push(l);
            }
            assert!(poll(&mut st).is_none() && poll(&mut st).is_none(), "item after the end");
            assert!(n == out.len() && e == out.is_empty(), "len() is {n}, {} lines", out.len());
            out
        });
        check("AsyncEncodeStream", a == lines, format!("{a:?}"));
        let a = guard(|| {
            let mut st = AsyncEncodeEventStream::new(r(), opt());
            let mut out = vec![];
            while let Some(l) = poll(&mut st) {
                out.push(l);
            }
            assert!(poll(&mut st).is_none() && poll(&mut st).is_none(), "item after the end");
            out
        });
        check("AsyncEncodeEventStream", a == ev, format!("{a:?}"));
        // through the runtime's own combinators
        let a = guard(|| {
            let mut st = AsyncEncodeEventStream::new(r(), opt());
            block(async {
                let mut out = vec![];
                while let Some(l) = st.next().await {
                    out.push(l);
                }
                out
            })
        });
        check("AsyncEncodeEventStream::next", a == ev, format!("{a:?}"));
    }

    /// A stream of any kind, delivering printable items.
    type Any = Box<dyn FnMut() -> Option<String>>;
    fn kinds() -> Vec<(&'static str, Box<dyn Fn() -> Any + Sync>)> {
        fn dec(t: &'static str, strict: bool) -> Box<dyn Fn() -> Any + Sync> {
            Box::new(move || {
                let mut st = AsyncDecodeStream::new(real::split(t).into_iter(), Some(sopt(2, strict)));
                Box::new(move || poll(&mut st).map(|x| format!("{:?}", item(x))))
            })
        }
        fn lines(v: V) -> Box<dyn Fn() -> Any + Sync> {
            Box::new(move || {
                let mut st = AsyncEncodeStream::new(v.to_real(), None);
                Box::new(move || poll(&mut st))
            })
        }
        fn evs(v: V) -> Box<dyn Fn() -> Any + Sync> {
            Box::new(move || {
                let mut st = AsyncEncodeEventStream::new(v.to_real(), None);
                Box::new(move || poll(&mut st).map(|e| E::from_real(&e).show()))
            })
        }
        vec![
            ("a: 1", dec("a: 1", true)),
            ("a: 1/b[1]: 2", dec("a: 1\nb[1]: 2", true)),
            ("[1]: x", dec("[1]: x", true)),
            ("a:/  b: 1", dec("a:\n  b: 1", true)),
            ("a: 1//  c", dec("a: 1\n\n  c", true)),
            ("word", dec("word", false)),
            ("[2]: 1 (error)", dec("[2]: 1", true)),
            ("a: 1/\tb (error)", dec("a: 1\n\tb: 2", true)),
            ("lines", lines(obj(vec![("a", gv::n(1.0)), ("b", V::Arr(vec![s("x")]))]))),
            ("events", evs(V::Arr(vec![gv::n(1.0), V::Obj(vec![])]))),
            ("event", evs(s("x"))),
            ("table", lines(V::Arr(vec![obj(vec![("a", gv::n(1.0))]), obj(vec![("a", gv::n(2.0))])]))),
        ]
    }
    const ENDED: &str = "end";
    fn solo(k: &(dyn Fn() -> Any + Sync)) -> Vec<String> {
        let mut st = k();
        let mut out = vec![];
        for _ in 0..40 {
            out.push(st().unwrap_or_else(|| ENDED.into()));
        }
        // keep two reports of the end
        let first = out.iter().position(|x| x == ENDED).unwrap_or(38);
        out.truncate(first + 2);
        out
    }
    /// Depth-first over all schedules of polls and drops.
    struct Sched<'a> {
        ctx: &'a Ctx,
        kinds: Vec<&'a (dyn Fn() -> Any + Sync)>,
        want: Vec<Vec<String>>,
        names: String,
        with_drops: bool,
    }
    impl Sched<'_> {
        /// Re-executes `path` (a stream index per poll, index+n per drop); the last step is new.
        fn run(&self, path: &[usize]) -> bool {
            let n = self.kinds.len();
            let mut st: Vec<Option<Any>> = self.kinds.iter().map(|k| Some(k())).collect();
            let mut at = vec![0; n];
            for &p in path {
                if p >= n {
                    st[p - n] = None;
                    continue;
                }
                let got = guard(|| st[p].as_mut().unwrap()());
                let got = match got {
                    Ok(x) => x.unwrap_or_else(|| ENDED.into()),
                    Err(m) => format!("panic {m}"),
                };
                if got != self.want[p][at[p]] {
                    self.ctx.fail(
                        &format!("{{\"streams\":{},\"schedule\":{path:?}}}", jstr(&self.names)),
                        &format!("stream {p} delivers {got} as its item {}, alone {}", at[p], self.want[p][at[p]]),
                    );
                    return false;
                }
                at[p] += 1;
            }
            true
        }
        fn explore(&self, path: &mut Vec<usize>, left: &mut Vec<Option<usize>>) {
            let n = self.kinds.len();
            let mut leaf = true;
            for p in 0..n {
                let Some(k) = left[p] else { continue };
                if k == 0 {
                    continue;
                }
                leaf = false;
                path.push(p);
                left[p] = Some(k - 1);
                self.explore(path, left);
                left[p] = Some(k);
                path.pop();
                // dropping it now, if some other stream still runs
                if self.with_drops && (0..n).any(|q| q != p && left[q].is_some_and(|x| x > 0)) && path.last() != Some(&(p + n)) {
                    path.push(p + n);
                    left[p] = None;
                    self.explore(path, left);
                    left[p] = Some(k);
                    path.pop();
                }
            }
            if leaf {
                self.ctx.add(1, path.len() as u64, 1);
                self.run(path);
            }
        }
    }
    pub fn schedules(ctx: &Ctx) {
        let ks = kinds();
        let n = ks.len();
        let go = |pick: &[usize], drops: bool, cap: usize| {
            let kinds: Vec<&(dyn Fn() -> Any + Sync)> = pick.iter().map(|i| &*ks[*i].1).collect();
            let want: Vec<Vec<String>> = kinds.iter().map(|k| solo(*k)).collect();
            let mut left = want.iter().map(|w| Some(w.len().min(cap))).collect();
            let names = pick.iter().map(|i| ks[*i].0).collect::<Vec<_>>().join(" | ");
            Sched { ctx, kinds, want, names, with_drops: drops }.explore(&mut vec![], &mut left);
        };
        ctx.family("pairs of streams", &format!("all interleavings of the polls of every pair of {n} streams, each dropped at every point or polled past its end"), || {
            ctx.par_grain((n * n) as u64, 1, |i| {
                let (a, b) = ((i as usize) % n, (i as usize) / n);
                go(&[a, b], true, if ctx.thorough { 9 } else { 6 });
            });
        });
        ctx.family("triples of streams", &format!("all interleavings of the first {} polls of every three of {n} streams", if ctx.thorough { 4 } else { 3 }), || {
            ctx.par_grain(pow(n, 3), 1, |i| {
                let i = i as usize;
                go(&[i % n, i / n % n, i / n / n], false, if ctx.thorough { 4 } else { 3 });
            });
        });
    }
    pub fn run(ctx: &Ctx) {
        let small = gd::Size::small(ctx);
        let both = |t: &str, i: usize| {
            stream(ctx, t, i);
            if t.len() < 40 {
                more_functions(ctx, t, i);
            }
        };
        let members = ["a: 1", "b: x,y", "\"c d\": 2", "e:", "  f: 3", "g[2]: 1,2", "h[1]:", "  - 4", "", "\tz: 1", "word", "- k: 1", "[1]: 5", " i: 6", "x: \"q", "k[1]{m}:"].map(String::from);
        gd::lines_family(ctx, "member lines", &members, if ctx.thorough { 5 } else { 4 }, 2, &both);
        gd::more(ctx, false, &both);
        gd::line_docs(ctx, small, &both);
        gd::char_docs(ctx, small, &both);
        gd::neighbours(ctx, small, &both);
        let z = Size::of(ctx);
        let enc = |v: &V| {
            encoders(ctx, v, EncOpt::DEFAULT, false);
            encoders(ctx, v, EncOpt { indent: 1, delim: '|', fold: true, flatten: 3 }, true);
        };
        gv::trees(ctx, z.tree - 1, &gv::basic_leaves(), &["a", "b c"], &enc);
        gv::strings(ctx, Size { word: 2, tok: 2, ..z }, &|t| enc(&gv::everywhere(t)));
        gv::layouts(ctx, &|v| encoders(ctx, v, EncOpt { fold: true, ..EncOpt::DEFAULT }, false));
        gv::sweeps(ctx, Size { sweep: 60, ..z }, &enc);
        gv::deviants(ctx, false, &|v| encoders(ctx, v, EncOpt::DEFAULT, false));
        gv::huge(ctx, &|v| encoders(ctx, v, EncOpt::DEFAULT, false));
        gd::huge(ctx, false, &both);
        schedules(ctx);
        let _ = events::lengths_match(&[]);
        without_feature(ctx);
    }
    /// The same check in the build without the feature, as a child process.
    fn without_feature(ctx: &Ctx) {
        let Ok(dir) = std::env::var("MC_BASE") else { return };
        ctx.family("without the feature", "the functions of the default build, in a process of their own", || {
            let root = std::env::var("MC_ROOT").unwrap_or_else(|_| ".".into());
            let out = std::process::Command::new(format!("{dir}/mc"))
                .args(["C10", if ctx.thorough { "thorough" } else { "quick" }])
                .env("MC_ROOT", format!("{root}/.build/c10-base"))
                .env_remove("MC_PROGRESS")
                .output();
            let out = match out {
                Ok(o) => o,
                Err(e) => {
                    eprintln!("harness error: cannot run the default build: {e}");
                    std::process::exit(3);
                }
            };
            let text = String::from_utf8_lossy(&out.stdout);
            let num = |w: &str| -> u64 {
                let i = text.find(w).unwrap_or(0);
                text[..i].trim_end().rsplit(' ').next().and_then(|n| n.parse().ok()).unwrap_or(0)
            };
            ctx.add(num(" states"), num(" transitions"), num(" executions"));
            match out.status.code() {
                Some(0) => {}
                Some(1) => {
                    for l in text.lines().filter(|l| l.starts_with("  ")) {
                        ctx.fail(&format!("{{\"default build\":{}}}", jstr(l)), l);
                    }
                }
                other => {
                    eprintln!("harness error: the default build's check ended with {other:?}");
                    std::process::exit(3);
                }
            }
        });
    }
}

/// Very many members that can be delivered early, then one that cannot.
fn members(ctx: &Ctx, f: &(dyn Fn(&str) + Sync)) {
    let mut sizes: Vec<usize> = (0..=70).collect();
    for b in [100usize, 127, 128, 200, 255, 256, 500, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32767, 32768, 65535, 65536].iter().chain(if ctx.thorough { &[131_072usize, 262_144][..] } else { &[] }) {
        sizes.extend([b - 1, *b, b + 1]);
    }
    const FORMS: [&str; 4] = ["k: 1", "\"k l\": x", "k: \"a b\"", "k: \"\""];
    const ENDS: [&str; 10] = ["", "z", "a[1]: 2", "a:\n  b: 1", "a:", "  b: 1", "a[2]:\n  - 1", "\"q: 1", "\nz: 1", "- 1"];
    ctx.family("many members", &format!("{} counts of members of {} kinds up to {}, followed by {} other ends", sizes.len(), FORMS.len(), sizes.iter().max().unwrap(), ENDS.len()), || {
        ctx.par_grain((sizes.len() * ENDS.len()) as u64, 1, |i| {
            let i = i as usize;
            let n = sizes[sizes.len() - 1 - i / ENDS.len()];
            let end = ENDS[i % ENDS.len()];
            for (j, m) in FORMS.iter().enumerate() {
                // the largest in one form per end
                if n > 3000 && (i + j) % FORMS.len() != 0 {
                    continue;
                }
                let mut t = format!("{m}\n").repeat(n);
                t.push_str(end);
                f(&t);
            }
        });
    });
}

pub fn c10(ctx: &Ctx) {
    #[cfg(feature = "async-stream")]
    full::run(ctx);
    let f = |t: &str, i: usize| functions(ctx, t, i);
    let small = gd::Size::small(ctx);
    members(ctx, &|t| {
        f(t, 2);
        #[cfg(feature = "async-stream")]
        full::stream(ctx, t, 2);
    });
    gd::line_docs(ctx, gd::Size { broad: 2, structural: 3, ..small }, &f);
    gd::char_docs(ctx, gd::Size { chars: 3, ..small }, &f);
}
