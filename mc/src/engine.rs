//! Exploration engine: parallel enumeration, counting, violations, evidence.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    /// Distinct explored behaviours (documents, values, histories, schedules ...).
    pub states: AtomicU64,
    /// Steps between them (lines, nodes, events, calls, polls ...).
    pub transitions: AtomicU64,
    /// Executions of the real code compared with the model.
    pub traces: AtomicU64,
    /// Non-trivial ones among them by the check's own rule.
    pub nontrivial: AtomicU64,
    outcomes: Mutex<BTreeMap<String, u64>>,
    families: Mutex<Vec<(String, String, u64, u64)>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<(String, String)>>,
    vcount: AtomicU64,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    stop: AtomicBool,
    start: Instant,
    pub assumptions: Mutex<Vec<String>>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static TALLY: RefCell<std::collections::HashMap<&'static str, u64>> = RefCell::default();
}
static QUIET: OnceLock<()> = OnceLock::new();

/// Runs `f`, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.get_or_init(|| {
        std::panic::set_hook(Box::new(|i| {
            LAST_PANIC.with(|l| *l.borrow_mut() = i.to_string());
        }));
    });
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// A watchdog sees which case each worker is on.
struct Slot {
    since: AtomicU64,
    what: Mutex<String>,
}
static SLOTS: OnceLock<Vec<Slot>> = OnceLock::new();
thread_local! { static MY: RefCell<usize> = const { RefCell::new(usize::MAX) }; }
pub const WORKERS: usize = 8;
const HANG_SECS: u64 = 90;

impl Ctx {
    pub fn new(id: &str, thorough: bool, seed: u64, known: Vec<(String, String)>) -> Ctx {
        SLOTS.get_or_init(|| {
            (0..WORKERS).map(|_| Slot { since: AtomicU64::new(0), what: Mutex::new(String::new()) }).collect()
        });
        Ctx {
            id: id.into(),
            thorough,
            seed,
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            nontrivial: AtomicU64::new(0),
            outcomes: Mutex::default(),
            families: Mutex::default(),
            samples: Mutex::default(),
            violations: Mutex::default(),
            vcount: AtomicU64::new(0),
            known,
            known_hit: Mutex::default(),
            stop: AtomicBool::new(false),
            start: Instant::now(),
            assumptions: Mutex::default(),
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn add(&self, states: u64, transitions: u64, traces: u64) {
        self.states.fetch_add(states, Relaxed);
        self.transitions.fetch_add(transitions, Relaxed);
        self.traces.fetch_add(traces, Relaxed);
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        if let Ok(mut v) = self.samples.try_lock()
            && v.len() < 24
        {
            v.push(s());
        }
    }
    pub fn sample_every(&self, i: u64, every: u64, s: impl FnOnce() -> String) {
        if i % every == every / 2 {
            self.sample(s);
        }
    }
    pub fn outcome(&self, k: &str, n: u64) {
        *self.outcomes.lock().unwrap().entry(k.to_string()).or_default() += n;
    }
    /// Counts an outcome without a lock on the hot path.
    pub fn tally(&self, k: &'static str) {
        TALLY.with(|t| *t.borrow_mut().entry(k).or_default() += 1);
    }
    fn flush_tally(&self) {
        TALLY.with(|t| {
            for (k, n) in t.borrow_mut().drain() {
                self.outcome(k, n);
            }
        });
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }

    /// Reports a violation.  `case` identifies it: a JSON object describing the input exactly.
    pub fn fail(&self, case: &str, what: &str) {
        if let Some((m, _)) = self.known.iter().find(|(m, _)| case.contains(m.as_str())) {
            *self.known_hit.lock().unwrap().entry(m.clone()).or_default() += 1;
            return;
        }
        let n = self.vcount.fetch_add(1, Relaxed);
        let mut v = self.violations.lock().unwrap();
        // keep the smallest cases
        v.push((case.to_string(), what.to_string()));
        v.sort_by_key(|(c, _)| c.len());
        v.truncate(5);
        if n > 2000 {
            self.stop.store(true, Relaxed);
        }
    }

    /// Marks one fully explored family.
    pub fn family(&self, name: &str, bound: &str, f: impl FnOnce()) {
        if self.stopped() {
            return;
        }
        if let Ok(p) = std::env::var("MC_PROGRESS") {
            let _ = std::fs::write(p, format!("{name}: {bound}"));
        }
        let (s0, t0) = (self.states.load(Relaxed), Instant::now());
        f();
        let n = self.states.load(Relaxed) - s0;
        let ms = t0.elapsed().as_millis() as u64;
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("  {name}: {n} states, {ms} ms [{bound}]");
        }
        self.families.lock().unwrap().push((name.into(), bound.into(), n, ms));
    }

    /// Calls `f(i)` for every i in 0..n, on all workers, with a large stack.
    pub fn par(&self, n: u64, f: impl Fn(u64) + Sync) {
        self.par_grain(n, (n / (WORKERS as u64 * 64)).clamp(1, 4096), f);
    }
    pub fn par_grain(&self, n: u64, grain: u64, f: impl Fn(u64) + Sync) {
        let next = AtomicU64::new(0);
        let alive = AtomicUsize::new(WORKERS);
        std::thread::scope(|s| {
            for w in 0..WORKERS {
                let (next, f, alive) = (&next, &f, &alive);
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, move || {
                        MY.with(|m| *m.borrow_mut() = w);
                        let r = guard(|| {
                            loop {
                                let a = next.fetch_add(grain, Relaxed);
                                if a >= n || self.stopped() {
                                    break;
                                }
                                SLOTS.get().unwrap()[w].since.store(now(), Relaxed);
                                for i in a..(a + grain).min(n) {
                                    f(i);
                                }
                            }
                        });
                        SLOTS.get().unwrap()[w].since.store(0, Relaxed);
                        self.flush_tally();
                        alive.fetch_sub(1, Relaxed);
                        if let Err(m) = r {
                            eprintln!("harness error: worker panicked: {m}");
                            std::process::exit(3);
                        }
                    })
                    .unwrap();
            }
            s.spawn(|| {
                while alive.load(Relaxed) > 0 {
                    std::thread::sleep(std::time::Duration::from_millis(2));
                    for (w, sl) in SLOTS.get().unwrap().iter().enumerate() {
                        let t = sl.since.load(Relaxed);
                        if t > 0 && now() > t + HANG_SECS {
                            let what = sl.what.lock().map(|g| g.clone()).unwrap_or_default();
                            self.fail(&format!("{{\"hang\":{}}}", jstr(&what)),
                                &format!("no answer for {HANG_SECS} s (worker {w})"));
                            self.finish_and_exit();
                        }
                    }
                }
            });
        });
    }
    /// Notes the case a worker is about to run (for hangs); cheap callers only.
    pub fn note(&self, what: impl FnOnce() -> String) {
        MY.with(|m| {
            let w = *m.borrow();
            if w < WORKERS {
                let sl = &SLOTS.get().unwrap()[w];
                *sl.what.lock().unwrap() = what();
                sl.since.store(now(), Relaxed);
            }
        });
    }

    pub fn finish_and_exit(&self) -> ! {
        let code = self.finish();
        std::process::exit(code);
    }
    /// Writes evidence and replay files, prints the verdict, returns the exit status.
    pub fn finish(&self) -> i32 {
        let root = std::env::var("MC_ROOT").unwrap_or_else(|_| ".".into());
        let tier = if self.thorough { "thorough" } else { "quick" };
        let fam: Vec<String> = self
            .families
            .lock()
            .unwrap()
            .iter()
            .map(|(n, b, s, ms)| {
                format!("{{\"family\":{},\"bound\":{},\"states\":{s},\"ms\":{ms}}}", jstr(n), jstr(b))
            })
            .collect();
        let out: Vec<String> =
            self.outcomes.lock().unwrap().iter().map(|(k, n)| format!("{}:{n}", jstr(k))).collect();
        let samples: Vec<String> = self.samples.lock().unwrap().iter().map(|s| jstr(s)).collect();
        let asm: Vec<String> = self.assumptions.lock().unwrap().iter().map(|s| jstr(s)).collect();
        let level = std::env::var("MC_LEVEL").unwrap_or_else(|_| "model_checking".into());
        let (st, tr, tv) =
            (self.states.load(Relaxed), self.transitions.load(Relaxed), self.traces.load(Relaxed));
        let core = if level == "fault_enumeration" {
            format!(
                "\"evaluations\":{tv},\"distinct_nontrivial\":{},\"rule\":{},\"behaviours\":{st},\"calls_observed\":{tr}",
                self.nontrivial.load(Relaxed),
                jstr(&std::env::var("MC_RULE").unwrap_or_default())
            )
        } else {
            format!("\"states\":{st},\"transitions\":{tr},\"traces_validated_against_impl\":{tv}")
        };
        let nv = self.vcount.load(Relaxed);
        let json = format!(
            "{{\n\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\n\"coverage\":{{{core},\"exhaustive\":{},\n\"families\":[\n{}\n],\n\"outcomes\":{{{}}},\n\"samples\":[\n{}\n]}},\n\"assumptions\":[{}],\n\"wall_s\":{:.3},\"violations\":{nv}\n}}\n",
            jstr(&self.id),
            jstr(tier),
            self.seed,
            jstr(&level),
            !self.stopped(),
            fam.join(",\n"),
            out.join(","),
            samples.join(",\n"),
            asm.join(","),
            self.start.elapsed().as_secs_f64()
        );
        let dir = format!("{root}/evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(format!("{dir}/{}.json", self.id), json) {
            eprintln!("harness error: cannot write evidence: {e}");
            return 3;
        }
        for (m, n) in self.known_hit.lock().unwrap().iter() {
            let what = self.known.iter().find(|k| k.0 == *m).map_or("", |k| k.1.as_str());
            println!("KNOWN-FINDING: property={} {what} ({n} occurrences)", self.id);
        }
        let v = self.violations.lock().unwrap();
        println!("{}: {tier}: {st} states, {tr} transitions, {tv} executions, {nv} violations, {:.1} s",
            self.id, self.start.elapsed().as_secs_f64());
        if v.is_empty() {
            return 0;
        }
        let dir = format!("{root}/replay");
        let _ = std::fs::create_dir_all(&dir);
        for (i, (case, what)) in v.iter().enumerate() {
            let path = format!("{dir}/{}-{i}.json", self.id);
            let _ = std::fs::write(
                &path,
                format!("{{\"property\":{},\"case\":{case},\n\"observed\":{}}}\n", jstr(&self.id), jstr(what)),
            );
            println!("VIOLATION property={} replay={path}", self.id);
            println!("  {} :: {}", clip(case), clip(what));
        }
        1
    }
}
fn clip(s: &str) -> String {
    let mut t: String = s.chars().take(400).collect();
    if t.len() < s.len() {
        t.push('…');
    }
    t.replace('\n', "\\n")
}
fn now() -> u64 {
    static T0: OnceLock<Instant> = OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_secs() + 1
}

// ---------------------------------------------------------------- generators

use crate::model::value::V;

/// All trees with exactly `n` nodes over given leaves and (ordered, distinct) keys; random access.
pub struct Trees {
    leaves: Vec<V>,
    keys: Vec<String>,
    empties: bool,
    t: Vec<u64>,
    arr: Vec<u64>,
    obj: Vec<Vec<u64>>, // [total][keys left]
}
impl Trees {
    pub fn new(leaves: Vec<V>, keys: &[&str], max: usize) -> Trees {
        let k = keys.len();
        let mut g = Trees {
            leaves,
            keys: keys.iter().map(|s| s.to_string()).collect(),
            empties: true,
            t: vec![0; max + 1],
            arr: vec![0; max + 1],
            obj: vec![vec![0; k + 1]; max + 1],
        };
        g.arr[0] = 1;
        g.obj[0] = vec![1; k + 1];
        for n in 1..=max {
            // containers of n nodes: children totalling n-1
            g.t[n] = if n == 1 {
                g.leaves.len() as u64 + if g.empties { 2 } else { 0 }
            } else {
                g.arr[n - 1] + g.obj[n - 1][k]
            };
            g.arr[n] = (1..=n).map(|f| g.t[f] * g.arr[n - f]).sum();
            for left in 1..=k {
                g.obj[n][left] =
                    (1..=n).map(|f| g.t[f] * left as u64 * g.obj[n - f][left - 1]).sum();
            }
        }
        g
    }
    pub fn count(&self, n: usize) -> u64 {
        self.t[n]
    }
    pub fn get(&self, n: usize, mut i: u64) -> V {
        if n == 1 {
            return match i as usize {
                x if x < self.leaves.len() => self.leaves[x].clone(),
                x if x == self.leaves.len() => V::Arr(vec![]),
                _ => V::Obj(vec![]),
            };
        }
        if i < self.arr[n - 1] {
            let mut out = vec![];
            let mut left = n - 1;
            while left > 0 {
                for f in 1..=left {
                    let c = self.t[f] * self.arr[left - f];
                    if i < c {
                        out.push(self.get(f, i / self.arr[left - f]));
                        i %= self.arr[left - f];
                        left -= f;
                        break;
                    }
                    i -= c;
                }
            }
            return V::Arr(out);
        }
        i -= self.arr[n - 1];
        let mut keys = self.keys.clone();
        let mut out = vec![];
        let mut left = n - 1;
        while left > 0 {
            let k = keys.len();
            for f in 1..=left {
                let tail = self.obj[left - f][k - 1];
                let c = self.t[f] * k as u64 * tail;
                if i < c {
                    let head = i / tail;
                    i %= tail;
                    let key = keys.remove((head % k as u64) as usize);
                    out.push((key, self.get(f, head / k as u64)));
                    left -= f;
                    break;
                }
                i -= c;
            }
        }
        V::Obj(out)
    }
}

/// The i-th string of length `len` over `alpha` (little-endian digits).
pub fn word(alpha: &[char], len: usize, mut i: u64) -> String {
    let mut s = String::new();
    for _ in 0..len {
        s.push(alpha[(i % alpha.len() as u64) as usize]);
        i /= alpha.len() as u64;
    }
    s
}
pub fn pow(b: usize, e: usize) -> u64 {
    (b as u64).pow(e as u32)
}
/// The i-th concatenation of `len` tokens.
pub fn tokens(alpha: &[&str], len: usize, mut i: u64) -> String {
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(alpha[(i % alpha.len() as u64) as usize]);
        i /= alpha.len() as u64;
    }
    s
}
pub const SCALARS: u64 = 0x11_0000;

/// Entries `known: property=<id> match=<JSON string> <what fails>` of the known-findings file.
pub fn known_findings(id: &str) -> Vec<(String, String)> {
    let root = std::env::var("MC_ROOT").unwrap_or_else(|_| ".".into());
    let text = std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        let Some(r) = l.strip_prefix(&format!("known: property={id} match=")) else { continue };
        let mut it = serde_json::Deserializer::from_str(r).into_iter::<String>();
        if let Some(Ok(m)) = it.next() {
            out.push((m, r[it.byte_offset()..].trim().to_string()));
        }
    }
    out
}
