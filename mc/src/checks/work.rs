//! C26: how the work of a call grows with its input, counted in executed instructions.
use super::stream::block;
use crate::engine::{Ctx, jstr};
use crate::model::value::{V, obj, s};
use crate::{alloc, real};
use std::hint::black_box;
use std::process::Command;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use toon::cli::{conversion, json_stream, json_stringify};
use toon::options::{DecodeStreamOptions, EncodeOptions, KeyFoldingMode};

/// How the work may grow with the number of parts.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Grow {
    Linear,
    Square,
}
use Grow::{Linear, Square};

struct Text {
    name: &'static str,
    grow: Grow,
    /// When dotted keys are expanded, where members of an object are looked up.
    expanded: Grow,
    make: fn(usize) -> String,
}
fn many(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect()
}
fn texts() -> Vec<Text> {
    let mut v = vec![];
    let mut t = |name, grow, expanded, make| v.push(Text { name, grow, expanded, make });
    t("rows of one cell", Linear, Linear, |n| format!("t[{n:04}]{{a}}:{}", "\n  12".repeat(n)));
    t("rows of five cells", Linear, Linear, |n| format!("t[{n:04}]{{a,\"b\",c,d,e}}:{}", "\n  12,\"x\\ny\",true,,w w".repeat(n)));
    t("rows of a root table", Linear, Linear, |n| format!("[{n:04}|]{{a|b}}:{}", "\n  12|x".repeat(n)));
    t("inline elements", Linear, Linear, |n| format!("t[{n:04}]: 1{}", ",22".repeat(n - 1)));
    t("inline strings", Linear, Linear, |n| format!("t[{n:04}]: 1{}", ",\"a,b\\\"\"".repeat(n - 1)));
    t("elements of a list", Linear, Linear, |n| format!("t[{n:04}]:{}", "\n  - 12".repeat(n)));
    t("elements of a root list", Linear, Linear, |n| format!("[{n:04}]:{}", "\n  - x y".repeat(n)));
    t("objects in a list", Linear, Linear, |n| format!("t[{n:04}]:{}", "\n  - a: 1\n    b: 2".repeat(n)));
    t("nested objects in a list", Linear, Linear, |n| format!("t[{n:04}]:{}", "\n  - a:\n      b: 2\n    c: 3".repeat(n)));
    t("arrays in a list", Linear, Linear, |n| format!("t[{n:04}]:{}", "\n  - [2]: 1,2".repeat(n)));
    t("lists in a list", Linear, Linear, |n| format!("t[{n:04}]:{}", "\n  - [1]:\n    - a: 1".repeat(n)));
    t("tables in a list", Linear, Linear, |n| format!("t[{n:04}]:{}", "\n  - r[1]{x}:\n      1\n    z: 2".repeat(n)));
    t("empty items", Linear, Linear, |n| format!("t[{n:04}]:{}", "\n  -".repeat(n)));
    t("members", Linear, Square, |n| many(n, |i| format!("k{i:04}: 1\n")));
    t("members with quoted keys", Linear, Square, |n| many(n, |i| format!("\"k {i:04}\": \"1\"\n")));
    t("objects in an object", Linear, Square, |n| many(n, |i| format!("k{i:04}:\n  a: 1\n")));
    t("arrays in an object", Linear, Square, |n| many(n, |i| format!("k{i:04}[2]: 1,2\n")));
    t("lists in an object", Linear, Square, |n| many(n, |i| format!("k{i:04}[1]:\n  - 1\n")));
    t("tables in an object", Linear, Square, |n| many(n, |i| format!("k{i:04}[1]{{a}}:\n  1\n")));
    t("empty objects", Linear, Square, |n| many(n, |i| format!("k{i:04}:\n")));
    t("one key repeated", Linear, Square, |n| "k: 1\n".repeat(n));
    t("nested objects", Square, Square, |n| many(n, |i| format!("{}a:\n", "  ".repeat(i))));
    t("nested lists", Square, Square, |n| format!("[1]:{}", many(n, |i| format!("\n{}- [1]:", "  ".repeat(i + 1)))) + &format!("\n{}- 1", "  ".repeat(n + 1)));
    t("nested lists of objects", Square, Square, |n| format!("a[1]:{}", many(n, |i| format!("\n{}- a[1]:", "    ".repeat(i) + "  "))) + &format!("\n{}- 1", "    ".repeat(n) + "  "));
    t("nested objects and lists", Square, Square, |n| many(n, |i| format!("{0}a:\n{0}  b[1]:\n{0}    - c:\n", "        ".repeat(i))));
    t("blank lines before", Linear, Linear, |n| "\n".repeat(n) + "a: 1");
    t("blank lines after", Linear, Linear, |n| "a: 1".to_string() + &"\n  ".repeat(n));
    t("blank lines between members", Linear, Square, |n| many(n, |i| format!("k{i:04}: 1\n\n")));
    t("blank lines after arrays", Square, Square, |n| many(n, |i| format!("k{i:04}[1]:\n  - 1\n\n")));
    t("characters of a word", Linear, Linear, |n| format!("a: {}", "abcdefgh".repeat(n)));
    t("characters of a quoted string", Linear, Linear, |n| format!("a: \"{}\"", "ab cdefg".repeat(n)));
    t("escapes", Linear, Linear, |n| format!("a: \"{}\"", "\\n\\\"\\\\\\t".repeat(n)));
    t("wide characters", Linear, Linear, |n| format!("a: {}", "\u{e9}\u{4e16}\u{1f600}".repeat(n)));
    t("characters of a key", Linear, Linear, |n| format!("{}: 1", "abcdefgh".repeat(n)));
    t("characters of a quoted key", Linear, Linear, |n| format!("\"{}\": 1", "ab\\ncdef".repeat(n)));
    t("zeros", Linear, Linear, |n| format!("a: {}", "00000000".repeat(n)));
    t("blanks in a line", Linear, Linear, |n| format!("a: {}x{}", "        ".repeat(n), "        ".repeat(n)));
    t("fields", Linear, Square, |n| format!("t[1]{{{}}}:\n  1{}", many(n, |i| format!("{}f{i:04}", if i > 0 { "," } else { "" })), ",1".repeat(n - 1)));
    t("quoted fields", Linear, Square, |n| format!("t[1]{{{}}}:\n  1{}", many(n, |i| format!("{}\"f {i:04}\"", if i > 0 { "," } else { "" })), ",\"1\"".repeat(n - 1)));
    t("colons", Linear, Linear, |n| format!("a: {}", ": b: c: ".repeat(n)));
    t("brackets", Linear, Linear, |n| format!("a: {}", "[1]: [2]".repeat(n)));
    t("opening brackets", Linear, Linear, |n| "[[[[[[[[".repeat(n) + ": 1");
    t("braces", Linear, Linear, |n| format!("a[1]{}: 1", "{{{{{{{{".repeat(n)));
    t("quotes", Linear, Linear, |n| format!("a: {}", "\"\" \"\" \"".repeat(n)));
    t("quotes in a key", Linear, Linear, |n| "\"\"\"\"\"\"\"\"".repeat(n) + ": 1");
    t("backslashes", Linear, Linear, |n| format!("a: \"{}", "\\\\\\\\\\\\\\\\".repeat(n)));
    t("hyphens", Linear, Linear, |n| format!("[1]:\n  {}", "- - - - ".repeat(n)));
    t("commas", Linear, Linear, |n| format!("a[3]: {}", ",,,,,,,,".repeat(n)));
    t("surplus items", Linear, Linear, |n| format!("a[1]:{}", "\n  - 1".repeat(n)));
    t("surplus rows", Linear, Linear, |n| format!("a[1]{{x}}:{}", "\n  1".repeat(n)));
    t("a fault at the end", Linear, Linear, |n| format!("{}\"x", "k:\n  a: 1\n".repeat(n)));
    t("line ends of DOS", Linear, Linear, |n| "k: 1\r\n".repeat(n));
    t("dotted keys", Linear, Square, |n| many(n, |i| format!("a.k{i:04}: 1\n")));
    t("dotted keys apart", Linear, Square, |n| many(n, |i| format!("k{i:04}.a: 1\n")));
    t("one dotted key repeated", Linear, Square, |n| "a.b: 1\n".repeat(n));
    t("segments", Linear, Square, |n| "a.".repeat(n) + "b: 1");
    t("dotted keys in items", Linear, Linear, |n| format!("t[{n:04}]:{}", "\n  - a.b: 1\n    a.c: 2".repeat(n)));
    t("dotted fields", Linear, Linear, |n| format!("t[{n:04}]{{a.b,a.c}}:{}", "\n  1,2".repeat(n)));
    v
}
struct Value {
    name: &'static str,
    grow: Grow,
    folded: Grow,
    make: fn(usize) -> V,
}
fn values() -> Vec<Value> {
    let mut v = vec![];
    let mut t = |name, grow, folded, make| v.push(Value { name, grow, folded, make });
    fn nest(n: usize, f: impl Fn(V) -> V) -> V {
        (0..n).fold(V::Num(1.0), |v, _| f(v))
    }
    fn row(n: f64) -> V {
        obj(vec![("a", V::Num(n)), ("b c", s("x,y"))])
    }
    fn keys(n: usize, f: impl Fn(usize) -> V) -> V {
        V::Obj((0..n).map(|i| (format!("k{i:04}"), f(i))).collect())
    }
    t("numbers", Linear, Linear, |n| V::Arr(vec![V::Num(12.5); n]));
    t("strings", Linear, Linear, |n| V::Arr(vec![s("a\"b\n"); n]));
    t("words", Linear, Linear, |n| obj(vec![("a", V::Arr(vec![s("abc def"); n]))]));
    t("rows", Linear, Linear, |n| V::Arr(vec![row(12.0); n]));
    t("rows as a member", Linear, Linear, |n| obj(vec![("t", V::Arr(vec![row(12.0); n]))]));
    t("rows and an odd one", Linear, Linear, |n| V::Arr((0..n).map(|i| if i + 1 < n { row(1.0) } else { V::Null }).collect()));
    t("rows in items", Linear, Linear, |n| V::Arr(vec![obj(vec![("t", V::Arr(vec![row(1.0), row(2.0)])), ("u", V::Null)]); n]));
    t("rows of an item", Linear, Linear, |n| V::Arr(vec![obj(vec![("t", V::Arr(vec![row(1.0); n]))])]));
    t("fields", Square, Square, |n| V::Arr(vec![keys(n, |_| V::Num(12.0)), keys(n, |_| V::Num(12.0))]));
    t("objects of different keys", Linear, Linear, |n| V::Arr((0..n).map(|i| V::Obj(vec![(format!("k{i:04}"), V::Num(1.0))])).collect()));
    t("members", Linear, Square, |n| keys(n, |_| V::Num(12.0)));
    t("object members", Linear, Square, |n| keys(n, |_| obj(vec![("a", V::Null), ("b", V::Null)])));
    t("chain members", Linear, Square, |n| keys(n, |_| obj(vec![("a", obj(vec![("b", V::Null)]))])));
    t("array members", Linear, Square, |n| keys(n, |_| V::Arr(vec![V::Null, s("x")])));
    t("table members", Linear, Square, |n| keys(n, |_| V::Arr(vec![row(1.0)])));
    t("empty arrays", Linear, Linear, |n| V::Arr(vec![V::Arr(vec![]); n]));
    t("empty objects", Linear, Linear, |n| V::Arr(vec![V::Obj(vec![]); n]));
    t("arrays", Linear, Linear, |n| V::Arr(vec![V::Arr(vec![V::Num(12.0); 3]); n]));
    t("mixed elements", Linear, Linear, |n| V::Arr((0..n).map(|i| [V::Null, V::Arr(vec![V::Null, V::Arr(vec![])]), obj(vec![("a", V::Null), ("b", obj(vec![("c", V::Null)]))])][i % 3].clone()).collect()));
    t("nested objects", Square, Square, |n| nest(n, |v| obj(vec![("a", v)])));
    t("nested objects with siblings", Square, Square, |n| nest(n, |v| obj(vec![("s", V::Null), ("a", v), ("t", V::Null)])));
    t("nested arrays", Square, Square, |n| nest(n, |v| V::Arr(vec![v])));
    t("nested arrays with siblings", Square, Square, |n| nest(n, |v| V::Arr(vec![V::Null, v, V::Null])));
    t("nested both", Square, Square, |n| nest(n, |v| obj(vec![("a", V::Arr(vec![v]))])));
    t("nested both with siblings", Square, Square, |n| nest(n, |v| V::Arr(vec![obj(vec![("a", V::Arr(vec![v, V::Null])), ("b", V::Null)])])));
    t("characters", Linear, Linear, |n| s(&"abcdefgh".repeat(n)));
    t("quoted characters", Linear, Linear, |n| obj(vec![("a", s(&"a:\"\n\\,\té".repeat(n)))]));
    t("characters of a key", Linear, Linear, |n| V::Obj(vec![("a:\"\n\\bcd".repeat(n), V::Null)]));
    t("digits in a string", Linear, Linear, |n| s(&"12345678".repeat(n)));
    t("dots in keys", Linear, Square, |n| V::Obj((0..n).map(|i| (format!("a.k{i:04}"), V::Num(12.0))).collect()));
    v
}
/// A request to valgrind (nothing when the process does not run under it).
fn request(code: u64, arg: *const u8) {
    let args: [u64; 6] = [code, arg as u64, 0, 0, 0, 0];
    unsafe {
        std::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") 0u64 => _, out("rdi") _);
    }
}
const ZERO: u64 = (b'C' as u64) << 24 | (b'T' as u64) << 16 | 1;
const DUMP: u64 = (b'C' as u64) << 24 | (b'T' as u64) << 16 | 3;
/// The instructions `f` executes in the program and in copying, as callgrind counts them, and a
/// part of the bytes it allocates.  What the allocator itself does depends on what was there before.
fn cost<T>(f: impl FnOnce() -> T) -> u64 {
    static NEXT: AtomicU64 = AtomicU64::new(1);
    request(ZERO, std::ptr::null());
    let (r, bytes) = alloc::total(f);
    request(DUMP, c"cost".as_ptr().cast());
    drop(black_box(r));
    let path = format!("{}.{}", std::env::var("MC_CALLGRIND").expect("MC_CALLGRIND"), NEXT.fetch_add(1, SeqCst));
    let text = std::fs::read_to_string(&path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let _ = std::fs::remove_file(&path);
    // names are given once and numbered
    let mut names = std::collections::HashMap::new();
    let mut resolve = |t: &str| -> String {
        let (id, name) = t.split_once(')').expect("number");
        if !name.is_empty() {
            names.insert(id.to_string(), name.trim().to_string());
        }
        names.get(id).cloned().unwrap_or_default()
    };
    let (mut own, mut counts, mut called) = (false, false, false);
    let mut sum = 0;
    for l in text.lines() {
        if let Some(o) = l.strip_prefix("ob=") {
            own = resolve(&format!("o{o}")).ends_with("/mc");
        } else if let Some(o) = l.strip_prefix("cob=") {
            resolve(&format!("o{o}"));
        } else if let Some(f) = l.strip_prefix("fn=") {
            let f = resolve(&format!("f{f}"));
            counts = own || ["memcpy", "memmove", "memset", "memcmp", "memchr", "bcmp"].iter().any(|m| f.contains(m));
        } else if let Some(f) = l.strip_prefix("cfn=") {
            resolve(&format!("f{f}"));
        } else if l.starts_with("calls=") {
            called = true;
        } else if l.starts_with(|c: char| c.is_ascii_digit() || "+-*".contains(c)) {
            if counts && !called {
                sum += l.split(' ').nth(1).map_or(0, |x| x.parse::<u64>().expect("cost"));
            }
            called = false;
        }
    }
    assert!(sum > 0, "nothing counted in {path}");
    sum + bytes / 8
}
/// What remains of the costs at n, 2n, 4n, 8n without their constant and linear parts, as a share
/// of what a square alone would leave.
fn square_share(c: &[u64; 4]) -> f64 {
    let [a, b, c, d] = c.map(|x| x as f64);
    ((d - 3.0 * c + 2.0 * b) / d / (6.0 / 16.0)).min((c - 3.0 * b + 2.0 * a) / c / (6.0 / 16.0))
}
/// The exponent of the last doubling.
fn exponent(c: &[u64; 4]) -> f64 {
    (c[3] as f64 / c[2] as f64).log2()
}
const OPS: [&str; 7] = ["strict decoding", "lenient decoding", "strict decoding with expansion", "conversion to JSON", "asynchronous decoding", "the decoding stream", "building from events"];
const CALLS: [&str; 8] = ["encoding", "encoding with folding", "encoding with a replacer", "the events", "the JSON text", "the stream of lines", "the stream of events", "the JSON text of the events"];
#[cfg(feature = "async-stream")]
fn drain<T>(mut st: impl asupersync::stream::Stream<Item = T> + Unpin) -> Vec<T> {
    use std::task::{Context, Poll, Waker};
    let mut out = vec![];
    loop {
        match std::pin::Pin::new(&mut st).poll_next(&mut Context::from_waker(Waker::noop())) {
            Poll::Ready(Some(x)) => out.push(x),
            Poll::Ready(None) => return out,
            Poll::Pending => {}
        }
    }
}


/// All measured calls: what, how it may grow, the number of parts to start with, the cost of n parts.
fn calls(thorough: bool) -> Vec<(String, Grow, usize, Box<dyn Fn(usize) -> u64>)> {
    let mut out: Vec<(String, Grow, usize, Box<dyn Fn(usize) -> u64>)> = vec![];
    // nesting has limits, and recursion a stack
    let base = |g: Grow, name: &str| if g == Square && name.starts_with("nested") { 16 } else if thorough { 256 } else { 48 };
    for t in texts() {
        for (op, what) in OPS.iter().enumerate() {
            let so = || DecodeStreamOptions { indent: Some(2), strict: Some(true) };
            let grow = if op == 2 { t.expanded } else { t.grow };
            out.push((format!("{what} of {}", t.name), grow, base(t.grow, t.name), Box::new(move |n| {
                let text = (t.make)(n);
                let lines = real::split(&text);
                match op {
                    0..=2 => {
                        let o = real::dopt(2, op != 1, op == 2);
                        cost(|| toon::try_decode(&text, Some(o)))
                    }
                    3 => cost(|| conversion::decode_to_json_chunks(&text, None)),
                    4 => cost(|| block(toon::try_decode_stream(lines, Some(so())))),
                    5 => {
                        #[cfg(feature = "async-stream")]
                        return cost(|| drain(toon::decode::AsyncDecodeStream::new(lines.into_iter(), Some(so()))));
                        #[cfg(not(feature = "async-stream"))]
                        return cost(|| lines.len());
                    }
                    _ => {
                        let ev = toon::try_decode_stream_sync(lines, Some(so())).unwrap_or_default();
                        cost(|| toon::decode::event_builder::build_node_from_events(ev))
                    }
                }
            })));
        }
    }
    for v in values() {
        for (op, what) in CALLS.iter().enumerate() {
            let grow = if op == 1 { v.folded } else { v.grow };
            out.push((format!("{what} of {}", v.name), grow, base(v.grow, v.name), Box::new(move |n| {
                let x = (v.make)(n).to_real();
                let o = EncodeOptions { indent: None, delimiter: None, key_folding: None, flatten_depth: None, replacer: None };
                match op {
                    0 => cost(|| toon::encode(x, None)),
                    1 => {
                        let o = EncodeOptions { key_folding: Some(KeyFoldingMode::Safe), ..o };
                        cost(|| toon::encode(x, Some(o)))
                    }
                    2 => {
                        let keep: toon::EncodeReplacer = Arc::new(|_, v, _| Some(v.clone()));
                        let o = EncodeOptions { replacer: Some(keep), ..o };
                        cost(|| toon::encode(x, Some(o)))
                    }
                    3 => cost(|| toon::encode_stream_events(x, None)),
                    4 => cost(|| json_stringify::json_stringify_lines(&x, 2)),
                    #[cfg(feature = "async-stream")]
                    5 => cost(|| drain(toon::encode::AsyncEncodeStream::new(x, None))),
                    #[cfg(feature = "async-stream")]
                    6 => cost(|| drain(toon::encode::AsyncEncodeEventStream::new(x, None))),
                    _ => {
                        let ev = toon::encode_stream_events(x, None);
                        cost(|| json_stream::json_stream_from_events(ev, 2))
                    }
                }
            })));
        }
    }
    out
}
/// Every `of`-th call, measured in this process, which runs under callgrind.
pub fn measure(a: &[String]) {
    alloc::MOVES.store(true, SeqCst);
    let n = |i: usize| a[i].parse::<usize>().unwrap();
    for (i, c) in calls(a[2] == "1").iter().enumerate().filter(|x| x.0 % n(1) == n(0)) {
        println!("start {i}");
        let k: Vec<String> = [1, 2, 4, 8].iter().map(|m| c.3(c.2 * m).to_string()).collect();
        println!("cost {i} {}", k.join(" "));
    }
}
pub fn c26(ctx: &Ctx) {
    let all = calls(ctx.thorough);
    let of = 8;
    let exe = std::env::current_exe().expect("exe");
    let dir = std::env::temp_dir().join(format!("mc-work-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let seen = std::sync::Mutex::new(std::collections::HashMap::<usize, [u64; 4]>::new());
    let hung = std::sync::Mutex::new(vec![]);
    ctx.family("growth", &format!("{} kinds of part of a text x {} calls and {} kinds of part of a value x {} calls, each repeated n, 2n, 4n and 8n times (n = 16 for nesting, {} otherwise)",
        texts().len(), OPS.len(), values().len(), CALLS.len(), if ctx.thorough { 256 } else { 48 }), || {
        std::thread::scope(|sc| {
            for share in 0..of {
                let (exe, dir, seen, hung) = (&exe, &dir, &seen, &hung);
                sc.spawn(move || {
                    let out = dir.join(format!("out.{share}"));
                    let secs = if ctx.thorough { "6000" } else { "500" };
                    let got = Command::new("timeout")
                        .args([secs, "valgrind", "--tool=callgrind", "-q", "--main-stacksize=64000000"])
                        .arg(format!("--callgrind-out-file={}", out.display()))
                        .arg(exe)
                        .args(["C26", "measure", &share.to_string(), &of.to_string(), if ctx.thorough { "1" } else { "0" }])
                        .env("MC_CALLGRIND", &out)
                        .output()
                        .expect("valgrind");
                    let text = String::from_utf8_lossy(&got.stdout);
                    let mut last = None;
                    for l in text.lines() {
                        let w: Vec<&str> = l.split(' ').collect();
                        let i: usize = w[1].parse().expect("index");
                        match w[0] {
                            "start" => last = Some(i),
                            _ => {
                                last = None;
                                seen.lock().unwrap().insert(i, [2, 3, 4, 5].map(|k| w[k].parse().expect("cost")));
                            }
                        }
                    }
                    if !got.status.success() {
                        hung.lock().unwrap().push((last, format!("{}: {}", got.status, String::from_utf8_lossy(&got.stderr).chars().take(2000).collect::<String>())));
                    }
                });
            }
        });
        let _ = std::fs::remove_dir_all(&dir);
        for (last, why) in hung.lock().unwrap().iter() {
            match last {
                Some(i) => ctx.fail(&format!("{{\"call\":{}}}", jstr(&all[*i].0)), &format!("no end of the measurement: {why}")),
                None => {
                    eprintln!("harness error: callgrind: {why}");
                    std::process::exit(3);
                }
            }
        }
        let seen = seen.lock().unwrap();
        for (i, (what, grow, base, _)) in all.iter().enumerate() {
            let Some(c) = seen.get(&i) else { continue };
            ctx.add(4, c.iter().sum(), 4);
            let (e, p) = (square_share(c), exponent(c));
            ctx.sample_every(i as u64, 40, || format!("{what}: {c:?} instructions"));
            if std::env::var("MC_WORK").is_ok() {
                println!("{:7} {e:7.3} {p:7.3} {what} {c:?}", format!("{grow:?}"));
            }
            let bad = match grow {
                Linear => e > SHARE && p > 1.02,
                Square => p > EXPONENT,
            };
            if bad {
                let how = if *grow == Linear { "in proportion to their number" } else { "with the square of their number" };
                ctx.fail(&format!("{{\"call\":{},\"parts\":[{base},{},{},{}]}}", jstr(what), base * 2, base * 4, base * 8), &format!("the work {c:?} grows faster than {how} (share of a square {e:.3}, exponent {p:.2})"));
            }
        }
    });
}
/// More than rounding up to the next capacity leaves.
const SHARE: f64 = 0.1;
const EXPONENT: f64 = 2.2;
