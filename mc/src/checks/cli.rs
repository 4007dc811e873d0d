//! C18: the command.  C19: the command under I/O faults.
use crate::engine::{Ctx, guard, jstr};
use crate::model::enc::EncOpt;
use crate::real;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use toon::JsonValue;

static NEXT: AtomicU64 = AtomicU64::new(0);
fn base_dir() -> PathBuf {
    std::env::temp_dir().join(format!("mc-cli-{}", std::process::id()))
}
/// A scratch directory, removed when dropped.
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let d = base_dir().join(NEXT.fetch_add(1, Relaxed).to_string());
        fs::create_dir_all(&d).expect("scratch directory");
        Dir(d)
    }
    fn clear(&self) {
        for e in fs::read_dir(&self.0).expect("scratch directory").flatten() {
            let p = e.path();
            let _ = if e.file_type().is_ok_and(|t| t.is_dir()) { fs::remove_dir_all(&p) } else { fs::remove_file(&p) };
        }
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
thread_local! {
    static DIR: Dir = Dir::new();
}
fn binary() -> PathBuf {
    let p = std::env::current_exe().expect("own path").parent().unwrap().join("toon");
    if !p.exists() {
        eprintln!("harness error: no {}", p.display());
        std::process::exit(3);
    }
    p
}
enum Stdin<'a> {
    Null,
    File(&'a str),
    Pipe(&'a [u8]),
}
struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: Vec<u8>,
}
fn run(dir: &Path, args: &[String], stdin: Stdin, env: &[(&str, String)]) -> Ran {
    use std::io::Write;
    let mut c = Command::new(binary());
    c.args(args).current_dir(dir).env_clear().stdout(Stdio::piped()).stderr(Stdio::piped());
    for (k, v) in env {
        c.env(k, v);
    }
    match stdin {
        Stdin::Null => c.stdin(Stdio::null()),
        Stdin::File(f) => c.stdin(fs::File::open(dir.join(f)).expect("stdin file")),
        Stdin::Pipe(_) => c.stdin(Stdio::piped()),
    };
    let mut ch = c.spawn().expect("start the command");
    if let Stdin::Pipe(b) = stdin {
        // the command may end without reading
        let _ = ch.stdin.take().unwrap().write_all(b);
    }
    let o = ch.wait_with_output().expect("run the command");
    Ran { code: o.status.code(), out: o.stdout, err: o.stderr }
}
fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(200).collect()
}

// ------------------------------------------------------------- the model

#[derive(Clone, Debug)]
struct Line {
    mode: Vec<&'static str>,
    opts: Vec<(&'static str, Option<&'static str>)>,
}
struct Settings {
    enc: EncOpt,
    strict: bool,
    expand: bool,
    stats: bool,
}
/// What the flags mean; `None` when they are invalid.
fn settings(l: &Line) -> Option<Settings> {
    let mut s = Settings { enc: EncOpt { fold: false, ..EncOpt::DEFAULT }, strict: true, expand: false, stats: false };
    for (k, v) in &l.opts {
        let v = v.unwrap_or("");
        match *k {
            "--delimiter" => {
                s.enc.delim = match v {
                    "," | "comma" => ',',
                    "|" | "pipe" => '|',
                    "\t" | "\\t" | "tab" => '\t',
                    _ => return None,
                }
            }
            "--indent" => s.enc.indent = v.parse().ok().filter(|n| *n <= 16)?,
            "--key-folding" => {
                s.enc.fold = match v {
                    "off" => false,
                    "safe" => true,
                    _ => return None,
                }
            }
            "--flatten-depth" => s.enc.flatten = v.parse().ok()?,
            "--expand-paths" => {
                s.expand = match v {
                    "off" => false,
                    "safe" => true,
                    _ => return None,
                }
            }
            "--no-strict" => s.strict = false,
            "--stats" => s.stats = true,
            _ => return None,
        }
    }
    Some(s)
}
fn encodes(l: &Line, input: Option<&str>) -> Option<bool> {
    let e = l.mode.iter().any(|m| matches!(*m, "-e" | "--encode"));
    let d = l.mode.iter().any(|m| matches!(*m, "-d" | "--decode"));
    if l.mode.len() > 1 {
        // both, or one of them twice
        return None;
    }
    if e || d {
        return Some(e);
    }
    let name = input.unwrap_or("").rsplit('/').next().unwrap();
    let ext = match name.rfind('.') {
        Some(i) if i > 0 => name[i + 1..].to_ascii_lowercase(),
        _ => String::new(),
    };
    Some(ext != "toon")
}
/// The text the command writes, without the final newline.
fn converted(l: &Line, encode: bool, input: &[u8]) -> Option<String> {
    let s = settings(l)?;
    let t = std::str::from_utf8(input).ok()?;
    if encode {
        let v: serde_json::Value = serde_json::from_str(t).ok()?;
        let v = crate::model::value::V::from_real(&JsonValue::from(v));
        Some(crate::model::enc::encode(&v, s.enc))
    } else {
        let v = guard(|| toon::try_decode(t, Some(real::dopt(s.enc.indent, s.strict, s.expand)))).ok()?.ok()?;
        Some(toon::cli::json_stringify::json_stringify_lines(&v, s.enc.indent).concat())
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    Stdout,
    New,
    Existing,
    SameAsInput,
    MissingDir,
    Directory,
}
fn case(args: &[String], content: &[u8], piped: bool) -> String {
    format!("{{\"args\":{},\"input\":{},\"piped\":{piped}}}", jstr(&format!("{args:?}")), jstr(&String::from_utf8_lossy(content)))
}
/// One run compared with the model.
fn one(ctx: &Ctx, l: &Line, name: Option<&str>, content: &[u8], out: Out, order: usize, piped: bool) {
    DIR.with(|dir| {
        dir.clear();
        let d = &dir.0;
        let old = b"previous content that is longer than most outputs, kept when nothing is written: 0123456789\n";
        let made = TARGETS[order / 3 % TARGETS.len()];
        let mut args: Vec<String> = vec![];
        let mut flags: Vec<String> = l.mode.iter().map(|s| s.to_string()).collect();
        for (i, (k, v)) in l.opts.iter().enumerate() {
            match v {
                None => flags.push(k.to_string()),
                Some(v) if (i + order) % 2 == 0 => flags.extend([k.to_string(), v.to_string()]),
                Some(v) => flags.push(format!("{k}={v}")),
            }
        }
        let exists = name.is_some_and(|n| n != "-" && n != "missing.json" && n != "dir.toon");
        if let Some(n) = name
            && exists
        {
            if let Some((p, _)) = n.rsplit_once('/') {
                fs::create_dir_all(d.join(p)).unwrap();
            }
            fs::write(d.join(n), content).unwrap();
        }
        fs::create_dir(d.join("dir.toon")).unwrap();
        let target = match out {
            Out::Stdout => None,
            Out::New | Out::Existing => Some(made),
            Out::SameAsInput => name,
            Out::MissingDir => Some("nowhere/out"),
            Out::Directory => Some("dir.toon"),
        };
        if out == Out::Existing {
            fs::write(d.join(made), old).unwrap();
        }
        if let Some(t) = target {
            match order % 3 {
                0 => flags.extend(["-o".into(), t.into()]),
                1 => flags.extend(["--output".into(), t.into()]),
                _ => flags.push(format!("--output={t}")),
            }
        }
        match name {
            Some(n) if order % 2 == 0 => {
                args.push(n.into());
                args.extend(flags);
            }
            Some(n) => {
                args.extend(flags);
                args.push(n.into());
            }
            None => args.extend(flags),
        }
        let from_stdin = matches!(name, None | Some("-"));
        fs::write(d.join("stdin.data"), if from_stdin { content } else { b"{\"not\":\"this\"}" }).unwrap();
        let c = || case(&args, content, piped);
        ctx.note(c);
        let stdin = if piped && content.len() < 60_000 { Stdin::Pipe(if from_stdin { content } else { b"{\"not\":\"this\"}" }) } else { Stdin::File("stdin.data") };
        let r = run(d, &args, stdin, &[]);
        ctx.add(1, args.len() as u64 + 1, 1);
        let enc = encodes(l, name);
        let readable = from_stdin || exists;
        let want = enc.filter(|_| readable).and_then(|e| converted(l, e, content));
        let ok = want.is_some() && !matches!(out, Out::MissingDir | Out::Directory);
        let fail = |m: String| ctx.fail(&c(), &m);
        if (r.code == Some(0)) != ok {
            return fail(format!("exit status {:?}, stdout {:?}, stderr {:?}, expected {}", r.code, show(&r.out), show(&r.err), if ok { "success" } else { "failure" }));
        }
        let text = want.map(|t| t + "\n").unwrap_or_default();
        if ok {
            ctx.tally("success");
            if let Some(t) = target {
                if !r.out.is_empty() {
                    return fail(format!("stdout has {:?}", show(&r.out)));
                }
                let got = fs::read(d.join(t)).unwrap_or_default();
                if got != text.as_bytes() {
                    return fail(format!("wrote {:?}, expected {text:?}", show(&got)));
                }
            } else if r.out != text.as_bytes() {
                return fail(format!("stdout is {:?}, expected {text:?}", show(&r.out)));
            }
            let stats = settings(l).unwrap().stats && enc == Some(true);
            if target.is_none() && !stats && !r.err.is_empty() {
                return fail(format!("stderr has {:?}", show(&r.err)));
            }
            if (stats || target.is_some()) && r.err.is_empty() {
                return fail("no statistics or notice on stderr".into());
            }
            let err = String::from_utf8_lossy(&r.err);
            if stats {
                let tokens = |t: &str| (t.chars().filter(|c| !c.is_whitespace()).count() / 4).max(t.split_whitespace().count()).max(1);
                let (json, toon) = (tokens(std::str::from_utf8(content).unwrap()), tokens(&text));
                let mut want = vec![json.to_string(), toon.to_string()];
                if json > toon {
                    want.push((json - toon).to_string());
                    want.push(format!("{:.1}%", (json - toon) as f64 / json as f64 * 100.0));
                }
                // the estimates are marked by ~, the share saved ends in %
                let notice = err.find('`').unwrap_or(err.len());
                let got: Vec<String> = err[..notice]
                    .split(|c: char| !(c.is_ascii_digit() || matches!(c, '.' | '%' | '~')))
                    .filter_map(|w| w.strip_prefix('~').map(str::to_string).or_else(|| w.ends_with('%').then(|| w.to_string())))
                    .collect();
                if got != want {
                    return fail(format!("the statistics say {err:?}, expected {want:?}"));
                }
            }
            if let Some(t) = target
                && !(err.contains(t) && err.contains(name.filter(|n| *n != "-").unwrap_or("stdin")))
            {
                return fail(format!("the notice is {err:?}"));
            }
        } else {
            ctx.tally("failure");
            if r.code.is_none_or(|c| c == 101) {
                return fail(format!("exit status {:?}, stderr {:?}", r.code, show(&r.err)));
            }
            if !r.out.is_empty() {
                return fail(format!("fails with {:?} on stdout", show(&r.out)));
            }
            if r.err.is_empty() {
                return fail("fails without a message".into());
            }
            match out {
                Out::Existing if fs::read(d.join(made)).unwrap_or_default() != old => return fail("the existing output file changed".into()),
                Out::New if d.join(made).exists() => return fail("an output file was made".into()),
                _ => {}
            }
        }
        // inputs stay as they were
        if exists && (out != Out::SameAsInput || !ok) && fs::read(d.join(name.unwrap())).unwrap_or_default() != content {
            fail("the input file changed".into());
        }
    });
}

const CONTENTS: [&[u8]; 16] = [
    b"{\"a\":{\"b\":{\"c\":1}},\"t\":[{\"x\":1,\"y\":\"p|q\"},{\"x\":2,\"y\":\"r,s\\t\"}]}",
    b"a.b.c: 1\nt[2|]{x|y}:\n  1|\"p|q\"\n  2|r\n",
    b"[1, \"two\", null, {\"k\": []}]\n",
    b"a:\n    b: 1\nc[3]: 1,2\n",
    b"",
    b"{\"a\":",
    b"\"x",
    b"42",
    b"{\"k\xff\":1}",
    b"a.b: 1\na: 2",
    b"a[1]:\n\n  - x\n",
    b"\xef\xbb\xbf{\"a\":1}",
    "{\"\u{e9}\u{1f600}\":\"\u{6f22}\\u0000\\n\"}\r\n".as_bytes(),
    b"\n\n",
    b"a:\n  b: 1\r\n",
    b"{\"a.b\":1,\"a\":{\"b\":2,\"c\":{\"d\":[]}}}",
];
const NAMES: [Option<&str>; 16] = [
    None, Some("-"), Some("in.json"), Some("in.toon"), Some("in.JSON"), Some("IN.Toon"), Some("in.txt"), Some("in"), Some("in.json.toon"),
    Some("in.toon.json"), Some(".toon"), Some("sub.toon/in"), Some("missing.json"), Some("dir.toon"), Some("in.toon "), Some("a b.toon"),
];
const MODES: [&[&str]; 7] = [&[], &["-e"], &["-d"], &["--encode"], &["--decode"], &["-e", "-d"], &["--decode", "--encode"]];
const OUTS: [Out; 6] = [Out::Stdout, Out::New, Out::Existing, Out::SameAsInput, Out::MissingDir, Out::Directory];

/// Names of output files.
const TARGETS: [&str; 8] = ["out.file", "out.json", "out.toon", "out", "out.txt", "OUT.JSON", "out.json.toon", "out .toon"];

pub fn c18(ctx: &Ctx) {
    let t = ctx.thorough;
    let (m, n, c, o) = (MODES.len(), NAMES.len(), CONTENTS.len(), OUTS.len());
    ctx.family("modes, sources and targets", &format!("all of {m} mode flags x {n} sources x {c} inputs x {o} targets"), || {
        ctx.par_grain((m * n * c * o) as u64, 4, |i| {
            let i = i as usize;
            let (name, out) = (NAMES[i / m % n], OUTS[i / m / n / c]);
            if out == Out::SameAsInput && matches!(name, None | Some("-" | "missing.json" | "dir.toon")) {
                return;
            }
            let content = CONTENTS[i / m / n % c];
            if !t && i / m / n % c >= 8 && (i + i / m + i / m / n / c) % 4 != 0 {
                return;
            }
            one(ctx, &Line { mode: MODES[i % m].to_vec(), opts: vec![] }, name, content, out, i / 3, i % 5 == 0);
        });
    });
    ctx.family("names of targets", &format!("all of {m} mode flags x 3 sources x {c} inputs x {} target names x missing and existing", TARGETS.len()), || {
        let k = TARGETS.len();
        ctx.par_grain((m * 3 * c * k * 2) as u64, 4, |i| {
            let i = i as usize;
            let out = if i / m / 3 / c / k == 0 { Out::New } else { Out::Existing };
            let (name, content) = ([Some("in.toon"), Some("in.json"), None][i / m % 3], i / m / 3 % c);
            if !t && content >= 8 && (i + i / m + i / m / 3 / c) % 4 != 0 {
                return;
            }
            one(ctx, &Line { mode: MODES[i % m].to_vec(), opts: vec![] }, name, CONTENTS[content], out, 3 * (i / m / 3 / c % k) + i % 3, false);
        });
    });
    type Alt = &'static [Option<(&'static str, Option<&'static str>)>];
    const VALID: [Alt; 7] = [
        &[None, Some(("--delimiter", Some("|"))), Some(("--delimiter", Some("tab"))), Some(("--delimiter", Some(",")))],
        &[None, Some(("--indent", Some("4"))), Some(("--indent", Some("0"))), Some(("--indent", Some("1"))), Some(("--indent", Some("16")))],
        &[None, Some(("--no-strict", None))],
        &[None, Some(("--key-folding", Some("safe"))), Some(("--key-folding", Some("off")))],
        &[None, Some(("--flatten-depth", Some("2"))), Some(("--flatten-depth", Some("0"))), Some(("--flatten-depth", Some("1")))],
        &[None, Some(("--expand-paths", Some("safe"))), Some(("--expand-paths", Some("off")))],
        &[None, Some(("--stats", None))],
    ];
    let total: usize = VALID.iter().map(|a| a.len()).product();
    let picks: &[usize] = if t { &[0, 1, 3, 9, 10, 15, 2, 5] } else { &[0, 1, 3, 9] };
    ctx.family("all options", &format!("all {total} combinations of valid options x encoding and decoding of {} inputs", picks.len()), || {
        ctx.par_grain((total * picks.len()) as u64, 4, |i| {
            let mut k = i as usize % total;
            let which = i as usize / total;
            let mut opts = vec![];
            for a in VALID {
                if let Some(x) = a[k % a.len()] {
                    opts.push(x);
                }
                k /= a.len();
            }
            let content = CONTENTS[picks[which]];
            let encode = matches!(content.first(), Some(b'{' | b'['));
            let (mode, name) = match i % 4 {
                0 => (vec![if encode { "-e" } else { "-d" }], None),
                1 => (vec![if encode { "--encode" } else { "--decode" }], Some(if encode { "x.toon" } else { "x.json" })),
                _ => (vec![], Some(if encode { "x.json" } else { "x.toon" })),
            };
            let out = if i % 3 == 0 { Out::Existing } else { Out::Stdout };
            one(ctx, &Line { mode, opts }, name, content, out, i as usize / 2, i % 7 == 0);
        });
    });
    const VALUES: [(&str, &[&str]); 5] = [
        ("--delimiter", &[",", "|", "\t", "\\t", "comma", "pipe", "tab", ";", "", " ", "Tab", ",,", "semicolon", "\\n", "x"]),
        ("--indent", &["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "255", "256", "-1", "x", "", "1.5", " 2"]),
        ("--key-folding", &["off", "safe", "Safe", "on", ""]),
        ("--flatten-depth", &["0", "1", "2", "3", "100", "18446744073709551615", "18446744073709551616", "-1", "x", ""]),
        ("--expand-paths", &["off", "safe", "SAFE", "on", ""]),
    ];
    let singles: Vec<(&str, &str)> = VALUES.iter().flat_map(|(k, vs)| vs.iter().map(move |v| (*k, *v))).collect();
    ctx.family("option values", &format!("each of {} valid and invalid option values with each of the inputs, alone and with a second option", singles.len()), || {
        let k = singles.len();
        ctx.par_grain((k * c * 2) as u64, 4, |i| {
            let i = i as usize;
            let (opt, v) = singles[i % k];
            let content = CONTENTS[i / k % c];
            let mut opts = vec![(opt, Some(v))];
            let second = match opt {
                "--flatten-depth" => ("--key-folding", Some("safe")),
                "--key-folding" => ("--flatten-depth", Some("3")),
                "--expand-paths" => ("--no-strict", None),
                _ => ("--key-folding", Some("safe")),
            };
            if i / k / c == 1 {
                opts.push(second);
            }
            let encode = matches!(content.first(), Some(b'{' | b'[' | b'4'));
            // values that start with a dash or are empty are given with =
            one(ctx, &Line { mode: vec![], opts }, Some(if encode { "x.json" } else { "x.toon" }), content, OUTS[i % 3], 1, false);
        });
        // every pair of values of two different options
        ctx.par_grain((k * k) as u64, 4, |i| {
            let (a, b) = (singles[i as usize % k], singles[i as usize / k]);
            if a.0 >= b.0 {
                return;
            }
            let opts = vec![(a.0, Some(a.1)), (b.0, Some(b.1))];
            let content = CONTENTS[i as usize % 2];
            one(ctx, &Line { mode: vec![], opts }, Some(if i % 2 == 0 { "x.json" } else { "x.toon" }), content, Out::Stdout, if a.1.starts_with('-') || a.1.is_empty() { 1 } else { 0 }, false);
        });
    });
    // every option, and every two options, with every way to choose the mode, and the shortest inputs
    const SHORT: [&[u8]; 10] = [b"{}", b"[]", b"\"\"", b"[{}]", b"{\"a\":{}}", b"null", b"", b"a.b: 1\na.b.c: 2", b"x[2]{a}:\n  1", b"{\"\":\"\"}"];
    let each: Vec<(usize, (&str, Option<&str>))> = VALID.iter().enumerate().flat_map(|(g, a)| a.iter().flatten().map(move |x| (g, *x))).collect();
    let k = each.len();
    let (ms, os) = (if t { 5 } else { 3 }, if t { 3 } else { 2 });
    let rest = ms * os * n * SHORT.len();
    ctx.family("options and modes", &format!("each of {k} options x {ms} mode flags x {n} sources x {os} targets x {} short inputs", SHORT.len()), || {
        ctx.par_grain((k * rest) as u64, 8, |i| {
            let i = i as usize;
            let (m, o, name, content) = (i % ms, i / ms % os, NAMES[i / ms / os % n], SHORT[i / ms / os / n % SHORT.len()]);
            one(ctx, &Line { mode: MODES[m].to_vec(), opts: vec![each[i / rest].1] }, name, content, OUTS[o], i / 7, i % 11 == 0);
        });
    });
    const FROM: [Option<&str>; 6] = [None, Some("in.json"), Some("in.toon"), Some("in.txt"), Some("in"), Some("IN.Toon")];
    let few = if t { SHORT.len() } else { 4 };
    let rest = FROM.len() * few * 2;
    ctx.family("option pairs", &format!("all pairs of options of two kinds x {} sources x 2 targets x {few} short inputs, without a mode flag", FROM.len()), || {
        ctx.par_grain((k * k * rest) as u64, 512, |i| {
            let i = i as usize;
            let (p, q) = (each[i / rest / k], each[i / rest % k]);
            if p.0 < q.0 {
                let content = [0, 1, 7, 8, 2, 3, 4, 5, 6, 9][i / FROM.len() / 2 % few];
                one(ctx, &Line { mode: vec![], opts: vec![p.1, q.1] }, FROM[i % FROM.len()], SHORT[content], OUTS[i / FROM.len() % 2], i / 7, i % 11 == 0);
            }
        });
    });
    let (words, lens) = (9, if t { 60 } else { 24 });
    ctx.family("statistics", &format!("values of 0..{words} words of 0..{lens} characters, written with 3 kinds of spacing, with several indentations"), || {
        ctx.par_grain((words * lens * 9) as u64, 8, |i| {
            let i = i as usize;
            let (w, l, space, form) = (i % words, i / words % lens, i / words / lens % 3, i / words / lens / 3);
            let gap = ["", " ", "\n\t"][space];
            let word = if l % 2 == 0 { "x" } else { "\u{e9}" }.repeat(l);
            let list = (0..w).map(|k| format!("{gap}{}\"{word}{}\"", if form == 1 { format!("\"k{k}\":{gap}") } else { String::new() }, if l % 3 == 0 { " ." } else { "" })).collect::<Vec<_>>().join(",");
            let json = match form {
                0 => format!("[{list}{gap}]"),
                1 => format!("{{{list}{gap}}}"),
                _ => format!("[{}{gap}]", (0..w).map(|_| format!("{gap}{{\"ab\":{gap}\"{word}\"}}")).collect::<Vec<_>>().join(",")),
            };
            let mut opts = vec![("--stats", None)];
            if i % 2 == 1 {
                opts.push(("--indent", Some(["0", "8"][i / 2 % 2])));
            }
            one(ctx, &Line { mode: vec!["-e"], opts }, None, json.as_bytes(), OUTS[i % 2], 1, false);
        });
    });
    let big = big_inputs();
    ctx.family("large inputs", "inputs and outputs of 1 to 200 KB around the buffer sizes, every source and target", || {
        ctx.par_grain((big.len() * 2 * 3 * 2) as u64, 1, |i| {
            let i = i as usize;
            let (json, toon) = &big[i % big.len()];
            let (encode, out, file) = (i / big.len() % 2 == 0, OUTS[i / big.len() / 2 % 3], i / big.len() / 6 == 0);
            let content = if encode { json } else { toon };
            let name = if file { Some(if encode { "x.json" } else { "x.toon" }) } else { None };
            for opts in [vec![], vec![("--stats", None)], vec![("--indent", Some("0"))]] {
                if opts == [("--indent", Some("0"))] && !encode {
                    continue;
                }
                one(ctx, &Line { mode: vec![if encode { "-e" } else { "-d" }], opts }, name, content.as_bytes(), out, i, false);
            }
        });
    });
    let _ = fs::remove_dir_all(base_dir());
}
/// JSON and TOON of about the given sizes: many lines, and one long line.
fn big_inputs() -> Vec<(String, String)> {
    let mut v = vec![];
    for n in [1000, 1023, 1024, 1025, 4096, 8190, 8191, 8192, 8193, 16384, 65_536, 200_000] {
        let rows = n / 16;
        let r = |f: &dyn Fn(usize) -> String, sep: &str| (0..rows).map(f).collect::<Vec<_>>().join(sep);
        v.push((
            format!("{{\"t\":[{}]}}", r(&|i| format!("{{\"a\":{i},\"b\":\"r{}\"}}", i % 97), ",")),
            format!("t[{rows}]{{a,b}}:\n{}", r(&|i| format!("  {i},r{}", i % 97), "\n")),
        ));
        let word = "0123456789abcdef".repeat(n / 16) + &"x".repeat(n % 16);
        v.push((format!("[\"{word}\"]"), format!("[1]: {word}")));
    }
    v
}

// ------------------------------------------------------------- faults

const SHIM: &str = include_str!("../../shim/faults.c");

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    /// Fails with this error number.
    Errno(i32),
    /// Transfers at most so many bytes.
    Short(u64),
}
const EINTR: i32 = 4;
const EIO: i32 = 5;
const EAGAIN: i32 = 11;
const EACCES: i32 = 13;
const EMFILE: i32 = 24;
const ENOSPC: i32 = 28;
const EPIPE: i32 = 32;
const EDQUOT: i32 = 122;
fn benign(a: Act) -> bool {
    matches!(a, Act::Errno(EINTR) | Act::Short(_))
}
fn actions(kind: u8, size: u64, full: bool) -> Vec<Act> {
    let shorts = |v: &mut Vec<Act>| {
        for n in [1, size / 2, size.saturating_sub(1)] {
            if n > 0 && n < size && !v.contains(&Act::Short(n)) {
                v.push(Act::Short(n));
            }
        }
    };
    let mut v = match (kind, full) {
        (b'r', true) => vec![Act::Errno(EINTR), Act::Errno(EIO), Act::Errno(EAGAIN)],
        (b'r', false) => vec![Act::Errno(EINTR), Act::Errno(EIO)],
        (b'o', _) => vec![Act::Errno(EINTR), Act::Errno(EACCES), Act::Errno(EMFILE)],
        (_, true) => vec![Act::Errno(EINTR), Act::Errno(EIO), Act::Errno(ENOSPC), Act::Errno(EPIPE), Act::Errno(EAGAIN), Act::Errno(EDQUOT)],
        (_, false) => vec![Act::Errno(EINTR), Act::Errno(ENOSPC)],
    };
    if kind != b'o' {
        if full {
            shorts(&mut v);
        } else if size > 1 {
            v.push(Act::Short(1));
        }
    }
    v
}
struct Scenario {
    name: String,
    args: Vec<String>,
    input: String,
    stdin: bool,
    out: bool,
    want: String,
}
fn scenarios(t: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let many = |n: usize| (0..n).map(|i| format!("{{\"a\":{i},\"b\":\"{}\"}}", format!("row {i} ").repeat(if n < 100 { 150 } else { 1 }))).collect::<Vec<_>>().join(",");
    let mut docs: Vec<(&str, String)> = vec![
        ("one line", "{\"a\":1}".into()),
        ("empty object", "{}".into()),
        ("small", "{\"a\":1,\"b\":{\"c\":[1,2]},\"d\":\"x y\"}".into()),
        ("several buffers", format!("{{\"t\":[{}],\"z\":{{\"k\":true}}}}", many(20))),
        ("one long line", format!("[\"{}\"]", "0123456789".repeat(2000))),
        ("buffer plus one", format!("[\"{}\"]", "x".repeat(8192 - 5))),
    ];
    if t {
        docs.push(("many buffers", format!("{{\"t\":[{}]}}", many(300))));
        docs.push(("exactly a buffer", format!("[\"{}\"]", "x".repeat(8192 - 6))));
        docs.push(("exactly a line buffer", format!("[\"{}\"]", "x".repeat(1024 - 6))));
    }
    for (dn, json) in docs {
        let value: serde_json::Value = serde_json::from_str(&json).expect("literal");
        let toon = toon::encode(value.clone(), None);
        for encode in [true, false] {
            for stdin in [true, false] {
                for out in [false, true] {
                    for stats in [false, true] {
                        if stats && !encode {
                            continue;
                        }
                        let mut args = vec![(if encode { "-e" } else { "-d" }).to_string()];
                        if !stdin {
                            args.push("in.data".into());
                        }
                        if out {
                            args.extend(["-o".into(), "out.data".into()]);
                        }
                        if stats {
                            args.push("--stats".into());
                        }
                        let l = Line { mode: vec![if encode { "-e" } else { "-d" }], opts: vec![] };
                        let input = if encode { json.clone() } else { toon.clone() };
                        let want = converted(&l, encode, input.as_bytes()).expect("valid input") + "\n";
                        v.push(Scenario { name: format!("{dn}: toon {}", args.join(" ")), args, input, stdin, out, want });
                    }
                }
            }
        }
    }
    v
}
/// Observed calls: kind, requested size.
type Calls = Vec<(u8, u64)>;
struct Faults<'a> {
    ctx: &'a Ctx,
    shim: PathBuf,
}
impl Faults<'_> {
    /// Runs a scenario under faults at the given calls; the calls it made, or `None` after a violation.
    fn go(&self, s: &Scenario, plan: &[(usize, Act)]) -> Option<Calls> {
        DIR.with(|dir| {
            let d = &dir.0;
            let old = b"previous content\n";
            fs::write(d.join("in.data"), &s.input).unwrap();
            fs::write(d.join("out.data"), old).unwrap();
            let log = d.join("calls.log");
            let _ = fs::remove_file(&log);
            let spec = plan
                .iter()
                .map(|(i, a)| match a {
                    Act::Errno(e) => format!("{i}:e:{e}"),
                    Act::Short(n) => format!("{i}:s:{n}"),
                })
                .collect::<Vec<_>>()
                .join(",");
            self.ctx.note(|| format!("{} {spec}", s.name));
            let env = [
                ("LD_PRELOAD", self.shim.display().to_string()),
                ("MC_FAULTS", spec.clone()),
                ("MC_CALLS", log.display().to_string()),
            ];
            let r = run(d, &s.args, if s.stdin { Stdin::File("in.data") } else { Stdin::Null }, &env);
            let text = fs::read_to_string(&log).unwrap_or_default();
            let calls: Calls = text
                .lines()
                .filter_map(|l| {
                    let (k, n) = l.split_once(' ')?;
                    Some((k.as_bytes()[0], n.parse().ok()?))
                })
                .collect();
            self.ctx.add(1, calls.len() as u64, 1);
            let hit = plan.iter().filter(|(i, _)| *i < calls.len()).count();
            if !plan.is_empty() && hit == plan.len() {
                self.ctx.nontrivial.fetch_add(1, Relaxed);
            }
            let fail = |m: String| {
                self.ctx.fail(&format!("{{\"run\":{},\"faults\":{},\"calls\":{}}}", jstr(&s.name), jstr(&spec), jstr(&calls.iter().map(|c| format!("{}{}", c.0 as char, c.1)).collect::<Vec<_>>().join(" "))), &m);
            };
            if calls.is_empty() {
                fail("no call was observed".into());
                return None;
            }
            let file = fs::read(d.join("out.data")).unwrap_or_default();
            let (got, other): (&[u8], &[u8]) = if s.out { (&file, &r.out) } else { (&r.out, &file) };
            let complete = got == s.want.as_bytes();
            let idle: &[u8] = if s.out { b"" } else { old };
            if other != idle {
                fail(format!("wrote {:?} where nothing belongs", show(other)));
                return None;
            }
            if r.code == Some(0) && !complete {
                fail(format!("exits 0 with {} of {} bytes: {:?}", got.len(), s.want.len(), show(got)));
                return None;
            }
            if plan.iter().all(|p| benign(p.1)) && r.code != Some(0) {
                fail(format!("exit status {:?}, {:?}, after short transfers and interruptions only", r.code, show(&r.err)));
                return None;
            }
            if !s.want.as_bytes().starts_with(got) && got != (if s.out { &old[..] } else { &b""[..] }) {
                fail(format!("the output {:?} is not a beginning of the right one", show(got)));
                return None;
            }
            if plan.iter().any(|(i, a)| calls.get(*i).is_some_and(|c| c.0 == b'r') && !benign(*a)) {
                let untouched = if s.out { &old[..] } else { &b""[..] };
                if r.code == Some(0) || got != untouched {
                    fail(format!("a read failed, yet exit status {:?} and output {:?}", r.code, show(got)));
                    return None;
                }
                self.ctx.tally("read failed, no output");
            } else if r.code == Some(0) {
                self.ctx.tally("success with the complete output");
            } else {
                self.ctx.tally("failure reported");
            }
            Some(calls)
        })
    }
}
pub fn c19(ctx: &Ctx) {
    let t = ctx.thorough;
    let dir = base_dir();
    fs::create_dir_all(&dir).expect("scratch directory");
    let (src, shim) = (dir.join("faults.c"), dir.join("faults.so"));
    fs::write(&src, SHIM).expect("shim source");
    let built = ["cc", "gcc", "clang"].iter().any(|c| {
        Command::new(c).args(["-O1", "-shared", "-fPIC", "-o"]).arg(&shim).arg(&src).arg("-ldl").status().is_ok_and(|s| s.success())
    });
    if !built {
        eprintln!("harness error: cannot compile the fault shim");
        std::process::exit(3);
    }
    let f = Faults { ctx, shim };
    let sc = scenarios(t);
    ctx.family("single faults", &format!("{} runs, every fault at every read, write and open call", sc.len()), || {
        ctx.par_grain(sc.len() as u64, 1, |i| {
            let s = &sc[i as usize];
            let Some(calls) = f.go(s, &[]) else { return };
            ctx.sample(|| format!("{}: {} calls: {}", s.name, calls.len(), calls.iter().take(20).map(|c| format!("{}{}", c.0 as char, c.1)).collect::<Vec<_>>().join(" ")));
            for (k, c) in calls.iter().enumerate() {
                for a in actions(c.0, c.1, true) {
                    f.go(s, &[(k, a)]);
                }
            }
        });
    });
    ctx.family("double faults", &format!("{} runs, every pair of {} faults at two calls", sc.len(), if t { "all" } else { "the main" }), || {
        // first faults are the unit of work
        let mut firsts = vec![];
        for (i, s) in sc.iter().enumerate() {
            let Some(calls) = f.go(s, &[]) else { return };
            for (k, c) in calls.iter().enumerate() {
                for a in actions(c.0, c.1, t) {
                    firsts.push((i, k, a));
                }
            }
        }
        ctx.par_grain(firsts.len() as u64, 1, |x| {
            let (i, k, a) = firsts[x as usize];
            let Some(calls) = f.go(&sc[i], &[(k, a)]) else { return };
            let far = if t { usize::MAX } else { 12 };
            let last = calls.len() - 1;
            for (l, c) in calls.iter().enumerate().skip(k + 1) {
                // between two far-apart calls the program is doing the same thing again
                if l - k > far && last - l > 2 {
                    continue;
                }
                for b in actions(c.0, c.1, t) {
                    f.go(&sc[i], &[(k, a), (l, b)]);
                }
            }
        });
    });
    ctx.family("persistent faults", "every call from the k-th on of one kind interrupted once, shortened, or failing", || {
        ctx.par_grain(sc.len() as u64, 1, |i| {
            let s = &sc[i as usize];
            let Some(calls) = f.go(s, &[]) else { return };
            for k in 0..calls.len() {
                // ENOSPC for good from call k on
                if calls[k].0 == b'w' {
                    f.go(s, &(k..k + 40).map(|j| (j, Act::Errno(ENOSPC))).collect::<Vec<_>>());
                }
                // every other call interrupted
                f.go(s, &(k..calls.len() * 2).step_by(2).map(|j| (j, Act::Errno(EINTR))).collect::<Vec<_>>());
                // many short transfers
                f.go(s, &(k..k + 60).map(|j| (j, Act::Short(7))).collect::<Vec<_>>());
            }
        });
    });
    ctx.family("real devices", "/dev/full and closed pipes as output", || {
        ctx.par_grain(sc.len() as u64, 1, |i| {
            let s = &sc[i as usize];
            DIR.with(|dir| {
                fs::write(dir.0.join("in.data"), &s.input).unwrap();
                let mut c = Command::new(binary());
                let args: Vec<&str> = s.args.iter().map(|a| if a == "out.data" { "/dev/full" } else { a.as_str() }).collect();
                c.args(&args).current_dir(&dir.0).env_clear().stderr(Stdio::null());
                c.stdin(fs::File::open(dir.0.join("in.data")).unwrap());
                c.stdout(if s.out { Stdio::null() } else { Stdio::from(fs::File::options().write(true).open("/dev/full").unwrap()) });
                let st = c.status().expect("run the command");
                ctx.add(1, 1, 1);
                ctx.nontrivial.fetch_add(1, Relaxed);
                if st.success() {
                    ctx.fail(&format!("{{\"run\":{},\"output\":\"/dev/full\"}}", jstr(&s.name)), "exits 0 though nothing was written");
                }
                if !s.out {
                    // a reader that goes away at once
                    let mut c = Command::new(binary());
                    c.args(&s.args).current_dir(&dir.0).env_clear().stderr(Stdio::null());
                    c.stdin(fs::File::open(dir.0.join("in.data")).unwrap()).stdout(closed_pipe());
                    let st = c.status().expect("run the command");
                    ctx.add(1, 1, 1);
                    ctx.nontrivial.fetch_add(1, Relaxed);
                    if st.success() {
                        ctx.fail(&format!("{{\"run\":{},\"output\":\"closed pipe\"}}", jstr(&s.name)), "exits 0 though nobody read the output");
                    }
                }
            });
        });
    });
    let _ = fs::remove_dir_all(&dir);
}
fn closed_pipe() -> Stdio {
    let (r, w) = std::io::pipe().expect("pipe");
    drop(r);
    w.into()
}
