//! C27: the install script under every answer of the commands it calls, and under signals.
//! The script runs unprivileged in a scratch directory; every command it may call is a stand-in (this
//! program under another name) that answers by a plan, or a harmless utility.
use crate::engine::{Ctx, guard, jstr};
use std::collections::BTreeSet;
use std::fs;
use std::io::Write;
use std::os::unix::fs::{PermissionsExt, chown, symlink};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const SCRIPT: &str = "/repo/install.sh";
const NOBODY: u32 = 65534;
const REPO: &str = "https://github.com/Dicklesworthstone/toon_rust";
const STAND_INS: [&str; 14] = ["uname", "mkdir", "mktemp", "rm", "curl", "wget", "tar", "unzip", "install", "cp", "chmod", "cargo", "sleep", "sudo"];
const HARMLESS: [&str; 48] = [
    "cat", "basename", "dirname", "head", "tail", "sed", "grep", "awk", "tr", "cut", "wc", "ls", "test", "true", "false", "date", "id", "mv", "stat", "env", "printf", "sha256sum",
    "find", "readlink", "realpath", "ln", "sort", "bash", "sh", "expr", "tee", "rmdir", "file",
    "uniq", "seq", "nl", "od", "touch", "xargs", "paste", "timeout", "sync", "nproc", "arch", "which", "logname", "whoami", "cmp",
];
const OLD: &[u8] = b"the binary installed before\n";
/// What a complete download for a URL holds.
fn payload(url: &str) -> Vec<u8> {
    format!("binary from {url}\n").repeat(200).into_bytes()
}
unsafe extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn flock(fd: i32, op: i32) -> i32;
}
fn lock(f: &fs::File, op: i32) {
    use std::os::fd::AsRawFd;
    unsafe { flock(f.as_raw_fd(), op) };
}

// ------------------------------------------------------------ the stand-ins

/// When this program was started under another name: the answer of that command.
pub fn stand_in() -> Option<i32> {
    let me = std::env::args_os().next()?;
    let name = Path::new(&me).file_name()?.to_str()?.to_string();
    if !STAND_INS.contains(&name.as_str()) {
        return None;
    }
    let dir = PathBuf::from(std::env::var_os("MC_STANDIN")?);
    Some(answer(&name, &std::env::args().skip(1).collect::<Vec<_>>(), &dir))
}
/// Only inside the scratch directory (as far as the names tell).
fn inside(p: &str, dir: &Path) -> bool {
    let q = if p.starts_with('/') { PathBuf::from(p) } else { std::env::current_dir().unwrap_or_default().join(p) };
    q.starts_with(dir) && q != dir && !p.contains("..")
}
fn choices(name: &str) -> usize {
    match name {
        "curl" | "wget" => 7,
        "uname" | "mkdir" | "mktemp" | "tar" | "unzip" | "install" | "cp" | "chmod" | "cargo" => 2,
        _ => 1,
    }
}
fn answer(name: &str, args: &[String], dir: &Path) -> i32 {
    let live = fs::OpenOptions::new().read(true).open(dir.join("live")).expect("live");
    lock(&live, 1);
    let read = |f: &str| fs::read_to_string(dir.join(f)).unwrap_or_default();
    let setting = |k: &str| read("settings").lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix('=')).map(str::to_string)).unwrap_or_default();
    // the number of this call, and the state of the target before it
    let mut log = fs::OpenOptions::new().read(true).append(true).open(dir.join("log")).expect("log");
    lock(&log, 2);
    let past: Vec<String> = read("log").lines().map(str::to_string).collect();
    let plan: Vec<usize> = read("plan").split_whitespace().map(|w| w.parse().unwrap()).collect();
    let same = past.iter().rev().find_map(|l| {
        let w: Vec<&str> = l.split('\t').collect();
        (w[0] == name).then(|| w[1].parse::<usize>().unwrap() % 100)
    });
    // a command that failed goes on failing in the same manner unless the plan says otherwise
    let default = if matches!(name, "curl" | "wget") { same.unwrap_or(0) } else { 0 };
    let code = plan.get(past.len()).copied().filter(|c| *c != 99).unwrap_or(default);
    let state = target_state(&PathBuf::from(setting("target")), &setting("url"));
    writeln!(log, "{name}\t{code}\t{}\t{state}\t{}", choices(name), args.join(" ").replace(['\n', '\t'], " ")).expect("log");
    drop(log);
    let signal = code / 100;
    let result = act(name, args, dir, code % 100, past.len());
    // the signal comes when the command has done its work
    let sig = [0, 15, 2, 1, 9][signal.min(4)];
    if sig != 0 {
        // the script itself: the ancestor started by the explorer
        let top: i32 = setting("explorer").parse().unwrap_or(0);
        let mut p = std::os::unix::process::parent_id() as i32;
        loop {
            let stat = fs::read_to_string(format!("/proc/{p}/stat")).unwrap_or_default();
            let up: i32 = stat.rsplit(')').next().and_then(|r| r.split_whitespace().nth(1)).and_then(|w| w.parse().ok()).unwrap_or(0);
            if up == top || up <= 1 {
                if up == top {
                    unsafe { kill(p, sig) };
                }
                break;
            }
            p = up;
        }
    }
    result
}
fn act(name: &str, args: &[String], dir: &Path, code: usize, past: usize) -> i32 {
    let read = |f: &str| fs::read_to_string(dir.join(f)).unwrap_or_default();
    let setting = |k: &str| read("settings").lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix('=')).map(str::to_string)).unwrap_or_default();
    let value = |short: &str, long: &str| {
        args.iter().enumerate().find_map(|(i, a)| {
            if let Some(v) = a.strip_prefix(long).and_then(|r| r.strip_prefix('=')) {
                return Some(v.to_string());
            }
            let cluster = a.len() >= 2 && a.starts_with('-') && !a.starts_with("--") && a.ends_with(short);
            (cluster || a == long).then(|| args.get(i + 1).cloned()).flatten()
        })
    };
    let plain: Vec<&String> = args.iter().filter(|a| !a.starts_with('-')).collect();
    let has = |c: char, long: &str| args.iter().any(|a| a == long || (a.starts_with('-') && !a.starts_with("--") && a[1..].contains(c)));
    let write = |path: &str, data: &[u8]| {
        if path == "-" {
            std::io::stdout().write_all(data).is_ok()
        } else {
            inside(path, dir) && fs::write(path, data).is_ok()
        }
    };
    match name {
        "uname" => {
            if code == 1 {
                eprintln!("uname: failed");
                return 1;
            }
            let (s, m) = (setting("system"), setting("machine"));
            match args.first().map_or("-s", String::as_str) {
                "-m" | "--machine" | "-p" => println!("{m}"),
                "-sm" => println!("{s} {m}"),
                _ => println!("{s}"),
            }
            0
        }
        "mkdir" => {
            if code == 1 {
                eprintln!("mkdir: cannot create directory");
                return 1;
            }
            for p in plain {
                if !inside(p, dir) || (if has('p', "--parents") { fs::create_dir_all(p) } else { fs::create_dir(p) }).is_err() {
                    return 1;
                }
            }
            0
        }
        "mktemp" => {
            if code == 1 {
                eprintln!("mktemp: failed");
                return 1;
            }
            let p = dir.join("t m p").join(format!("tmp.{past}"));
            let ok = if has('d', "--directory") { fs::create_dir(&p).is_ok() } else { fs::write(&p, "").is_ok() };
            println!("{}", p.display());
            i32::from(!ok)
        }
        "rm" => {
            let mut bad = 0;
            for p in plain {
                if !inside(p, dir) {
                    eprintln!("rm: outside: {p}");
                    bad = 1;
                } else if Path::new(p).is_dir() && has('r', "--recursive") {
                    bad |= i32::from(fs::remove_dir_all(p).is_err());
                } else {
                    bad |= i32::from(fs::remove_file(p).is_err() && !has('f', "--force"));
                }
            }
            bad
        }
        "curl" | "wget" => {
            let url = args.iter().find(|a| a.starts_with("http")).cloned().unwrap_or_default();
            let out = if name == "curl" { value("o", "--output") } else { value("O", "--output-document") };
            let out = out.unwrap_or_else(|| if name == "curl" { "-".into() } else { url.rsplit('/').next().unwrap_or("x").into() });
            let good = [b"ARCHIVE ".to_vec(), url.clone().into_bytes(), b"\n".to_vec(), payload(&url)].concat();
            let page = b"<html>not found</html>";
            if url != setting("url") && matches!(code, 0 | 4 | 5 | 6) {
                if name == "curl" && !has('f', "--fail") {
                    return i32::from(!write(&out, page));
                }
                return 22;
            }
            if name == "curl" && !has('L', "--location") {
                return i32::from(!write(&out, b""));
            }
            let ok = match code {
                0 => write(&out, &good),
                1 if name == "curl" && !has('f', "--fail") => write(&out, page),
                1 => return if name == "curl" { 22 } else { 8 },
                2 => {
                    write(&out, &good[..good.len() / 2]);
                    return if name == "curl" { 18 } else { 4 };
                }
                3 => write(&out, b""),
                4 => write(&out, &good[..good.len() / 2]),
                5 => write(&out, b"ARCHIVE of other files\n"),
                _ => write(&out, page),
            };
            if ok { 0 } else { 23 }
        }
        "tar" | "unzip" => {
            let zip = name == "unzip";
            let archive = if zip { plain.first().map(|s| s.to_string()) } else { value("f", "--file") };
            let to = if zip { value("d", "-d") } else { value("C", "--directory") }.unwrap_or_else(|| ".".into());
            // tar's first argument may come without a dash
            let archive = archive.or_else(|| plain.get(1).map(|s| s.to_string())).unwrap_or_default();
            let data = fs::read(&archive).unwrap_or_default();
            let url = setting("url");
            let whole = [b"ARCHIVE ".to_vec(), url.clone().into_bytes(), b"\n".to_vec(), payload(&url)].concat();
            let fits = url.ends_with(".zip") == zip && !(name == "tar" && (has('z', "--gzip") || has('j', "--bzip2")));
            let file = format!("{to}/{}", if url.ends_with(".zip") { "toon.exe" } else { "toon" });
            if data.starts_with(b"ARCHIVE of other") {
                write(&format!("{to}/README"), b"x");
                return 0;
            }
            if !fits || data.is_empty() || !whole.starts_with(&data) {
                eprintln!("{name}: not an archive of this kind");
                return 2;
            }
            let body = &data[data.iter().position(|b| *b == b'\n').map_or(data.len(), |i| i + 1)..];
            if code == 1 || data.len() < whole.len() {
                write(&file, &body[..body.len() / 2]);
                eprintln!("{name}: unexpected end");
                return 2;
            }
            i32::from(!write(&file, body))
        }
        "install" | "cp" => {
            let mode = value("m", "--mode");
            let paths: Vec<&String> = plain.into_iter().filter(|p| Some(*p) != mode.as_ref()).collect();
            if has('d', "--directory") && name == "install" {
                return i32::from(code == 1 || paths.iter().any(|p| !inside(p, dir) || fs::create_dir_all(p).is_err()));
            }
            let (Some(from), Some(to)) = (paths.first(), paths.last()) else { return 1 };
            if code == 1 {
                eprintln!("{name}: cannot write");
                if name == "cp" {
                    write(to, b"cut");
                }
                return 1;
            }
            let to = if Path::new(to).is_dir() { format!("{to}/{}", from.rsplit('/').next().unwrap()) } else { (*to).clone() };
            let Ok(data) = fs::read(from.as_str()) else { return 1 };
            if !write(&to, &data) {
                return 1;
            }
            let bits = match &mode {
                Some(m) => u32::from_str_radix(m, 8).unwrap_or(0o755),
                None if name == "install" => 0o755,
                None => return 0,
            };
            i32::from(fs::set_permissions(&to, fs::Permissions::from_mode(bits)).is_err())
        }
        "chmod" => {
            if code == 1 {
                eprintln!("chmod: failed");
                return 1;
            }
            let (Some(m), Some(p)) = (args.iter().find(|a| !a.starts_with('-')), plain.last()) else { return 1 };
            if !inside(p, dir) {
                return 1;
            }
            let bits = u32::from_str_radix(m, 8).unwrap_or(0o755);
            i32::from(fs::set_permissions(p.as_str(), fs::Permissions::from_mode(bits)).is_err())
        }
        "cargo" => {
            let line = args.join(" ");
            let right = args.first().is_some_and(|a| a == "install") && value("-git", "--git").is_some_and(|u| u.trim_end_matches(".git") == REPO) && value("-bin", "--bin").is_none_or(|b| b == "toon");
            if !right {
                eprintln!("cargo: nothing to install with {line}");
                return 101;
            }
            if code == 1 {
                eprintln!("error: could not compile");
            }
            code as i32 * 101
        }
        _ => 0,
    }
}
/// What is at the target: nothing, the old binary, the complete new one, or something else.
fn target_state(p: &Path, url: &str) -> char {
    match fs::read(p) {
        Err(_) => '-',
        Ok(d) if d == OLD => 'o',
        Ok(d) if d == payload(url) => 'n',
        Ok(_) => 'x',
    }
}

// ------------------------------------------------------------ the explorer

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Setup {
    system: &'static str,
    machine: &'static str,
    /// commands that are missing
    without: Vec<&'static str>,
    /// INSTALL_DIR given
    given: bool,
    /// read from standard input, as the README has it
    piped: bool,
    old: bool,
}
#[derive(Clone)]
struct Call {
    name: String,
    code: usize,
    choices: usize,
    state: char,
}
fn platform(s: &Setup) -> Option<(&'static str, &'static str)> {
    let os = match s.system {
        "Linux" => "linux",
        "Darwin" => "darwin",
        w if w.starts_with("MINGW") || w.starts_with("MSYS") || w.starts_with("CYGWIN") || w == "Windows_NT" => "windows",
        _ => return None,
    };
    let arch = match s.machine {
        "x86_64" | "amd64" => "amd64",
        "arm64" | "aarch64" => "arm64",
        _ => return None,
    };
    Some((os, arch))
}
/// Seconds until a run is ended and made again; a run takes some tens of milliseconds.
const LIMIT: u64 = 25;
static NEXT: AtomicU64 = AtomicU64::new(0);
fn base_dir() -> PathBuf {
    std::env::temp_dir().join(format!("mc-install-{}", std::process::id()))
}
fn own(p: &Path) {
    chown(p, Some(NOBODY), Some(NOBODY)).expect("chown");
}
struct Ran {
    calls: Vec<Call>,
    code: Option<i32>,
    signal: Option<i32>,
    err: String,
}
/// The directory of the commands there are.
fn commands(without: &[&'static str]) -> PathBuf {
    static MADE: Mutex<BTreeSet<PathBuf>> = Mutex::new(BTreeSet::new());
    let mut made = MADE.lock().unwrap();
    let bin = base_dir().join(format!("bin-{}", without.join("-")));
    if made.insert(bin.clone()) {
        fs::create_dir(&bin).expect("scratch");
        for n in STAND_INS {
            if !without.contains(&n) {
                symlink(base_dir().join("standin"), bin.join(n)).expect("stand-in");
            }
        }
        for n in HARMLESS {
            let p = Path::new("/usr/bin").join(n);
            if p.exists() {
                symlink(p, bin.join(n)).expect("utility");
            }
        }
    }
    bin
}
/// One run of the script; the violation if there is one.
fn one(ctx: &Ctx, s: &Setup, plan: &[usize], again: usize) -> Ran {
    let d = base_dir().join(NEXT.fetch_add(1, Relaxed).to_string());
    let (home, tmp, bin) = (d.join("ho me"), d.join("t m p"), commands(&s.without));
    for p in [&d, &home, &tmp] {
        fs::create_dir(p).expect("scratch");
        own(p);
    }
    let to = if s.given { d.join("chosen").join("di r") } else { home.join(".local/bin") };
    let plat = platform(s);
    let (os, arch) = plat.unwrap_or(("linux", "amd64"));
    let (file, ext) = if os == "windows" { ("toon.exe", "zip") } else { ("toon", "tar.xz") };
    let url = format!("{REPO}/releases/latest/download/toon-{os}-{arch}.{ext}");
    let target = to.join(file);
    if s.old {
        fs::create_dir_all(&to).expect("scratch");
        fs::write(&target, OLD).expect("scratch");
        fs::set_permissions(&target, fs::Permissions::from_mode(0o755)).expect("scratch");
        for p in to.ancestors().take_while(|p| *p != d) {
            own(p);
        }
        own(&target);
    }
    let me = std::process::id();
    fs::write(d.join("settings"), format!("system={}\nmachine={}\ntarget={}\nurl={url}\nexplorer={me}\n", s.system, s.machine, target.display())).expect("scratch");
    fs::write(d.join("plan"), plan.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")).expect("scratch");
    for f in ["log", "live"] {
        fs::write(d.join(f), "").expect("scratch");
        own(&d.join(f));
    }
    let script = d.join("install.sh");
    fs::copy(SCRIPT, &script).expect("the script");
    fs::set_permissions(&script, fs::Permissions::from_mode(0o644)).expect("scratch");
    let mut c = Command::new("/bin/bash");
    if s.piped {
        c.stdin(fs::File::open(&script).expect("script"));
    } else {
        c.arg(&script).stdin(Stdio::null());
    }
    c.current_dir(&home).env_clear().env("PATH", &bin).env("HOME", &home).env("TMPDIR", &tmp).env("MC_STANDIN", &d);
    if s.given {
        c.env("INSTALL_DIR", &to);
    }
    let err = fs::File::create(d.join("err")).expect("scratch");
    c.stdout(Stdio::null()).stderr(err).uid(NOBODY).gid(NOBODY).process_group(0);
    let mut status = None;
    match c.spawn() {
        Ok(mut ch) => {
            let started = std::time::Instant::now();
            while status.is_none() && started.elapsed().as_secs() < LIMIT {
                status = ch.try_wait().expect("wait");
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
            if status.is_none() {
                unsafe { kill(-(ch.id() as i32), 9) };
                let _ = ch.wait();
            }
        }
        Err(e) => {
            eprintln!("harness error: the script cannot be run as an unprivileged user: {e}");
            std::process::exit(3);
        }
    }
    lock(&fs::File::open(d.join("live")).expect("live"), 2);
    let Some(status) = status else {
        if again > 0 {
            let _ = fs::remove_dir_all(&d);
            return one(ctx, s, plan, again - 1);
        }
        ctx.fail(&format!("{{\"setup\":{},\"answers\":{}}}", jstr(&format!("{s:?}")), jstr(&format!("{plan:?}"))), "the script does not end");
        return Ran { calls: vec![], code: None, signal: None, err: String::new() };
    };
    let calls: Vec<Call> = fs::read_to_string(d.join("log"))
        .expect("log")
        .lines()
        .map(|l| {
            let w: Vec<&str> = l.split('\t').collect();
            Call { name: w[0].into(), code: w[1].parse().unwrap(), choices: w[2].parse().unwrap(), state: w[3].chars().next().unwrap() }
        })
        .collect();
    let r = Ran { calls, code: status.code(), signal: status.signal(), err: String::from_utf8_lossy(&fs::read(d.join("err")).unwrap_or_default()).into_owned() };
    ctx.add(1, r.calls.len() as u64, 1);
    let names = |r: &Ran| r.calls.iter().map(|c| format!("{} {}", c.name, c.code)).collect::<Vec<_>>();
    ctx.sample(|| format!("{s:?}: {} -> {:?}", names(&r).join(", "), r.code));
    if let Err(what) = guard(|| judge(s, &r, plat.is_some(), &d, &tmp, &to, &target, &url)).unwrap_or_else(Err) {
        let short: String = r.err.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
        ctx.fail(
            &format!("{{\"setup\":{},\"answers\":{}}}", jstr(&format!("{s:?}")), jstr(&names(&r).join(", "))),
            &format!("{what}; exit {:?} signal {:?}; messages {short:?}", r.code, r.signal),
        );
    }
    let _ = fs::remove_dir_all(&d);
    r
}
fn files(d: &Path) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    for e in fs::read_dir(d).into_iter().flatten().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        if e.file_type().is_ok_and(|t| t.is_dir()) {
            v.extend(files(&e.path()).into_iter().map(|f| format!("{n}/{f}")));
        } else {
            v.insert(n);
        }
    }
    v
}
#[allow(clippy::too_many_arguments)]
fn judge(s: &Setup, r: &Ran, supported: bool, d: &Path, tmp: &Path, to: &Path, target: &Path, url: &str) -> Result<(), String> {
    let is = |c: &&Call, n: &str| c.name == n;
    let answers = |n: &'static str| r.calls.iter().filter(move |c| is(c, n)).map(|c| c.code % 100).collect::<Vec<_>>();
    let signals = r.calls.iter().any(|c| c.code >= 100);
    let killed = r.calls.iter().any(|c| c.code >= 400);
    let state = target_state(target, url);
    let before = if s.old { 'o' } else { '-' };
    let copy_failed = ["install", "cp", "chmod"].iter().any(|n| answers(n).contains(&1));
    // at every step of the script the target is the old binary or the complete new one
    if let Some(c) = r.calls.iter().find(|c| c.state != before && c.state != 'n' && !copy_failed) {
        return Err(format!("before the call of {} the target holds neither the old nor the new binary", c.name));
    }
    if state != before && state != 'n' && !copy_failed {
        return Err("the target holds neither the old nor the new binary".into());
    }
    // nothing is left behind
    let since = r.calls.iter().position(|c| is(&c, "mktemp") && c.code == 0).unwrap_or(usize::MAX);
    let early = r.calls.iter().position(|c| c.code >= 100).is_some_and(|i| i <= since);
    let left: Vec<String> = files(tmp).into_iter().chain(fs::read_dir(tmp).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().into_owned())).collect();
    if !killed && !early && !left.is_empty() {
        return Err(format!("the temporary directory still holds {left:?}"));
    }
    let own = ["settings", "plan", "log", "live", "err", "install.sh"];
    let shown = target.strip_prefix(d).unwrap().to_string_lossy().into_owned();
    if !signals
        && let Some(f) = files(d).iter().find(|f| !own.contains(&f.as_str()) && **f != shown)
    {
        return Err(format!("{f} is left behind"));
    }
    let _ = to;
    let got: Vec<usize> = answers("curl").into_iter().chain(answers("wget")).collect();
    // a download that ended well and is not empty
    let arrived = got.iter().any(|a| matches!(a, 0 | 4 | 5 | 6));
    let cargo_ok = answers("cargo").contains(&0);
    let mode = fs::metadata(target).map_or(0, |m| m.permissions().mode());
    let installed = state == 'n' && mode & 0o755 == 0o755;
    if r.code == Some(0) && !(installed || cargo_ok) {
        return Err("reports success without an installed binary".into());
    }
    if signals {
        return Ok(());
    }
    if r.code.is_none() {
        return Err("ends by a signal".into());
    }
    if r.code != Some(0) && r.err.trim().is_empty() {
        return Err("fails without a message".into());
    }
    if !supported {
        if r.code == Some(0) || !got.is_empty() || !answers("cargo").is_empty() || state != before {
            return Err("goes on on an unsupported platform".into());
        }
        return Ok(());
    }
    let failed = |n: &'static str| answers(n).contains(&1);
    let prepared = !failed("uname") && !failed("mkdir") && (answers("mktemp").contains(&0));
    let tools = |n: &str| !s.without.contains(&n);
    let extractor = s.system == "Linux" || s.system == "Darwin" || tools("unzip");
    if prepared && got.contains(&0) && extractor && !failed("tar") && !failed("unzip") && !copy_failed && !got.iter().any(|a| matches!(a, 4..=6)) {
        if r.code != Some(0) || !installed {
            return Err("a download that arrived complete is not installed".into());
        }
    }
    if prepared && !arrived {
        for n in ["curl", "wget"] {
            if tools(n) && answers(n).len() < 3 {
                return Err(format!("gives up after {} tries with {n}", answers(n).len()));
            }
        }
        if tools("cargo") && answers("cargo").is_empty() {
            return Err("does not fall back to cargo".into());
        }
        if cargo_ok != (r.code == Some(0)) {
            return Err("the result of cargo is not the result of the script".into());
        }
    }
    if r.code != Some(0) && state != before && !copy_failed {
        return Err("fails and yet replaces the binary".into());
    }
    Ok(())
}
/// All plans that deviate in at most `max` places from what a setup does by itself.
fn explore(ctx: &Ctx, roots: Vec<Setup>, max: usize, signals: bool) {
    let mut level: Vec<(Setup, Vec<usize>)> = roots.into_iter().map(|s| (s, vec![])).collect();
    for depth in 0..=max {
        let next = Mutex::new(vec![]);
        ctx.par_grain(level.len() as u64, 1, |i| {
            let (s, plan) = &level[i as usize];
            let r = one(ctx, s, plan, 2);
            if depth == max {
                return;
            }
            let mut more = vec![];
            for k in plan.len()..r.calls.len() {
                let mut alternatives: Vec<usize> = (0..r.calls[k].choices).filter(|c| *c != r.calls[k].code).collect();
                if signals {
                    alternatives = [100, 200, 300, 400].iter().map(|x| x + r.calls[k].code % 100).collect();
                }
                for a in alternatives {
                    let mut p = plan.clone();
                    p.resize(k, 99);
                    p.push(a);
                    more.push((s.clone(), p));
                }
            }
            next.lock().unwrap().extend(more);
        });
        level = next.into_inner().unwrap();
        level.sort();
    }
}
pub fn c27(ctx: &Ctx) {
    let t = ctx.thorough;
    let _ = fs::remove_dir_all(base_dir());
    fs::create_dir(base_dir()).expect("scratch");
    let copy = base_dir().join("standin");
    fs::copy(std::env::current_exe().expect("own path"), &copy).expect("stand-in");
    fs::set_permissions(&copy, fs::Permissions::from_mode(0o755)).expect("stand-in");
    const SYSTEMS: [&str; 8] = ["Linux", "Darwin", "MINGW64_NT-10.0", "MSYS_NT-10.0", "CYGWIN_NT-10.0", "Windows_NT", "FreeBSD", ""];
    const MACHINES: [&str; 8] = ["x86_64", "amd64", "arm64", "aarch64", "i686", "armv7l", "riscv64", ""];
    let base = Setup { system: "Linux", machine: "x86_64", without: vec![], given: false, piped: true, old: true };
    let mut every = vec![];
    for system in SYSTEMS {
        for machine in MACHINES {
            for i in 0..8 {
                every.push(Setup { system, machine, given: i & 1 == 1, piped: i & 2 == 2, old: i & 4 == 4, ..base.clone() });
            }
        }
    }
    let n = every.len();
    ctx.family("platforms", &format!("{n} setups: 8 systems x 8 machines x target given or not x read from a pipe or a file x an older binary or none, each answer of each command changed once"), || explore(ctx, every, 1, false));
    const OPTIONAL: [&str; 5] = ["curl", "wget", "unzip", "install", "cargo"];
    let mut missing = vec![];
    for mask in 0..32usize {
        for (system, machine) in [("Linux", "x86_64"), ("MINGW64_NT-10.0", "aarch64")] {
            let without = (0..5).filter(|b| mask >> b & 1 == 1).map(|b| OPTIONAL[b]).collect();
            missing.push(Setup { system, machine, without, given: mask % 2 == 0, piped: mask % 3 > 0, old: mask % 5 > 0 });
        }
    }
    let d = if t { 3 } else { 2 };
    ctx.family("missing commands", &format!("every subset of {OPTIONAL:?} missing, on two platforms, up to {d} changed answers"), || explore(ctx, missing.clone(), d, false));
    let d = if t { 4 } else { 3 };
    ctx.family("changed answers", &format!("up to {d} changed answers (a download that fails goes on failing unless changed again), on two platforms"), || {
        explore(ctx, vec![base.clone(), Setup { system: "Windows_NT", machine: "arm64", given: true, piped: false, ..base.clone() }], d, false);
    });
    ctx.family("signals", "TERM, INT, HUP and KILL to the script at each call, in every setup of missing commands, and two signals on the plain setup", || {
        explore(ctx, missing.clone(), 1, true);
        explore(ctx, vec![base.clone()], 2, true);
    });
    let _ = fs::remove_dir_all(base_dir());
}
