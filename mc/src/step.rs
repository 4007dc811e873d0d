//! Stops a call at its machine instructions and lets a call on another thread run there.
//!
//! The calling thread runs with the processor's trap flag set, so that the kernel delivers SIGTRAP
//! after each instruction.  The handler hands over to the other thread, which runs one whole call,
//! and returns when that call has ended or waits for something the stopped one holds.
use std::ffi::{c_int, c_void};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: c_int,
    restorer: usize,
}
unsafe extern "C" {
    fn sigaction(sig: c_int, act: *const SigAction, old: *mut SigAction) -> c_int;
    fn sched_yield() -> c_int;
    fn syscall(n: i64, ...) -> i64;
    fn sched_setaffinity(pid: c_int, len: usize, mask: *const u64) -> c_int;
    fn gettid() -> c_int;
    fn open(path: *const u8, flags: c_int, ...) -> c_int;
    fn read(fd: c_int, buf: *mut u8, n: usize) -> isize;
    fn close(fd: c_int) -> c_int;
    fn fork() -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, opts: c_int) -> c_int;
    fn _exit(code: c_int) -> !;
    fn alarm(secs: u32) -> u32;
    fn __errno_location() -> *mut c_int;
    static __executable_start: u8;
    static etext: u8;
}
const TRAP_FLAG: i64 = 0x100;
static LOW: AtomicUsize = AtomicUsize::new(0);
static HIGH: AtomicUsize = AtomicUsize::new(0);
/// Instructions of the program itself executed by the stopped call.
static COUNT: AtomicU64 = AtomicU64::new(0);
/// `EVERY`, `NEVER` or the share of instructions (see `at_each`).
static AT: AtomicU64 = AtomicU64::new(0);
pub const EVERY: u64 = u64::MAX;
const NEVER: u64 = u64::MAX - 1;
/// At every `OF`-th instruction from `AT` on, the rest happens in a copy of the process.
static OF: AtomicU64 = AtomicU64::new(0);
static IN_COPY: AtomicBool = AtomicBool::new(false);
static STATUS: AtomicI32 = AtomicI32::new(0);
static COPIES: AtomicU64 = AtomicU64::new(0);
static BODY: Mutex<Option<&'static (dyn Fn() + Sync)>> = Mutex::new(None);
static GO: AtomicU32 = AtomicU32::new(0);
static STARTED: AtomicU32 = AtomicU32::new(0);
static DONE: AtomicU32 = AtomicU32::new(0);
static END: AtomicBool = AtomicBool::new(false);
static OTHER: AtomicI32 = AtomicI32::new(0);
static WAITS: AtomicU64 = AtomicU64::new(0);

/// Whether the other thread sleeps.
unsafe fn other_sleeps() -> bool {
    // "/proc/self/task/<tid>/stat", built without allocating
    let mut path = [0u8; 40];
    path[..16].copy_from_slice(b"/proc/self/task/");
    let (mut n, mut div, mut at) = (OTHER.load(SeqCst), 1_000_000_000, 16);
    while div > 0 {
        let d = n / div;
        n %= div;
        div /= 10;
        if d > 0 || at > 16 {
            path[at] = b'0' + d as u8;
            at += 1;
        }
    }
    path[at..at + 5].copy_from_slice(b"/stat");
    let fd = unsafe { open(path.as_ptr(), 0) };
    if fd < 0 {
        return false;
    }
    let mut buf = [0u8; 96];
    let got = unsafe { read(fd, buf.as_mut_ptr(), buf.len()) };
    unsafe { close(fd) };
    let mut p = 0usize;
    while (p as isize) + 2 < got {
        if buf[p] == b')' {
            return buf[p + 2] == b'S';
        }
        p += 1;
    }
    false
}
unsafe fn run_other() {
    if DONE.load(SeqCst) != GO.load(SeqCst) {
        // it still waits for this one
        unsafe { sched_yield() };
        return;
    }
    let seq = GO.fetch_add(1, SeqCst) + 1;
    unsafe { futex(&GO, true, 1, 0) };
    while DONE.load(SeqCst) != seq {
        unsafe { futex(&DONE, false, seq - 1, 500_000) };
        if DONE.load(SeqCst) != seq && STARTED.load(SeqCst) == seq && unsafe { other_sleeps() } && unsafe { other_sleeps() } && DONE.load(SeqCst) != seq {
            WAITS.fetch_add(1, SeqCst);
            return;
        }
    }
}
/// Wakes who waits for a change of `w`, or waits while it is `v` for up to `ns`.
unsafe fn futex(w: &AtomicU32, wake: bool, v: u32, ns: i64) {
    // FUTEX_WAIT_PRIVATE is 128, FUTEX_WAKE_PRIVATE 129
    let until = [0i64, ns];
    let t = if ns > 0 { until.as_ptr() } else { std::ptr::null() };
    unsafe { syscall(202, w.as_ptr(), if wake { 129i64 } else { 128 }, i64::from(v), t, 0i64, 0i64) };
}
unsafe extern "C" fn on_trap(_sig: c_int, _info: *mut c_void, uc: *mut c_void) {
    let regs = unsafe { uc.cast::<u8>().add(40).cast::<i64>() };
    let at = AT.load(SeqCst);
    let rip = unsafe { *regs.add(16) } as usize;
    if rip < LOW.load(SeqCst) || rip >= HIGH.load(SeqCst) {
        return;
    }
    let k = COUNT.fetch_add(1, SeqCst);
    let of = OF.load(SeqCst);
    if of > 0 {
        // the stopped thread is the only one, and not inside the allocator
        if k % of != at || STATUS.load(SeqCst) != 0 {
            return;
        }
        let e = unsafe { *__errno_location() };
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { alarm(60) };
            OF.store(0, SeqCst);
            AT.store(k, SeqCst);
            IN_COPY.store(true, SeqCst);
            let body = BODY.lock().unwrap().unwrap();
            std::thread::Builder::new().stack_size(16 << 20).spawn(body).expect("thread");
            unsafe { run_other() };
            unsafe { *regs.add(17) &= !TRAP_FLAG };
        } else {
            let mut st = 0;
            unsafe { waitpid(pid, &mut st, 0) };
            COPIES.fetch_add(1, SeqCst);
            STATUS.store(st, SeqCst);
            if st != 0 {
                AT.store(k, SeqCst);
            }
        }
        unsafe { *__errno_location() = e };
        return;
    }
    if at == EVERY {
        let e = unsafe { *__errno_location() };
        unsafe { run_other() };
        unsafe { *__errno_location() = e };
    }
}
fn install() {
    // SA_SIGINFO
    let a = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
    LOW.store(&raw const __executable_start as usize, SeqCst);
    HIGH.store(&raw const etext as usize, SeqCst);
    assert_eq!(unsafe { sigaction(5, &a, std::ptr::null_mut()) }, 0, "sigaction");
}
#[inline(never)]
fn stepped<T>(f: impl FnOnce() -> T) -> T {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    let r = f();
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    r
}
pub struct Outcome {
    pub first: String,
    /// Distinct results of the other call that differ from `want_b`.
    pub second: Vec<String>,
    pub points: u64,
    pub runs: u64,
    pub waits: u64,
}
fn serve(b: &(dyn Fn() -> String + Sync), want_b: &str, bad: &Mutex<Vec<String>>) {
    OTHER.store(unsafe { gettid() }, SeqCst);
    loop {
        let g = GO.load(SeqCst);
        if g != DONE.load(SeqCst) {
            STARTED.store(g, SeqCst);
            let r = b();
            if r != want_b {
                let mut l = bad.lock().unwrap();
                if l.len() < 3 && !l.contains(&r) {
                    l.push(r);
                }
            }
            DONE.store(g, SeqCst);
            unsafe { futex(&DONE, true, 1, 0) };
        } else if END.load(SeqCst) {
            break;
        } else {
            unsafe { futex(&GO, false, g, 5_000_000) };
        }
    }
}
fn pin(core: usize) {
    let mask = [1u64 << core, 0, 0, 0];
    unsafe { sched_setaffinity(0, 32, mask.as_ptr()) };
}
/// Runs `a` and, at every one of its instructions, `b` on another thread.
pub fn at_every(a: impl FnOnce() -> String, b: &(dyn Fn() -> String + Sync), want_b: &str, core: usize) -> Outcome {
    install();
    pin(core);
    for x in [&COUNT, &WAITS] {
        x.store(0, SeqCst);
    }
    for x in [&GO, &STARTED, &DONE] {
        x.store(0, SeqCst);
    }
    END.store(false, SeqCst);
    OTHER.store(0, SeqCst);
    AT.store(EVERY, SeqCst);
    let bad = Mutex::new(vec![]);
    let first = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || serve(b, want_b, &bad)).expect("thread");
        while OTHER.load(SeqCst) == 0 {
            unsafe { sched_yield() };
        }
        let first = stepped(a);
        AT.store(NEVER, SeqCst);
        END.store(true, SeqCst);
        unsafe { futex(&GO, true, 1, 0) };
        first
    });
    Outcome { first, second: bad.into_inner().unwrap(), points: COUNT.load(SeqCst), runs: u64::from(DONE.load(SeqCst)), waits: WAITS.load(SeqCst) }
}
/// Runs `a`; at each instruction k with k % of == share, a copy of the process runs `b` once on
/// another thread and ends with the status `report` gives.  Instructions, copies and the status
/// (as `waitpid` gives it) of the first copy that did not end with 0, with its instruction.
pub fn at_each(a: impl FnOnce() -> String, b: &'static (dyn Fn() -> String + Sync), want_b: &'static str, share: u64, of: u64, core: usize, report: impl Fn(u64, &Outcome) -> i32) -> (u64, u64, Option<(u64, i32)>) {
    install();
    pin(core);
    let bad: &'static Mutex<Vec<String>> = Box::leak(Box::new(Mutex::new(vec![])));
    *BODY.lock().unwrap() = Some(Box::leak(Box::new(move || serve(b, want_b, bad))));
    AT.store(share, SeqCst);
    OF.store(of, SeqCst);
    let first = stepped(a);
    if IN_COPY.load(SeqCst) {
        let second = bad.lock().unwrap().clone();
        let code = report(AT.load(SeqCst), &Outcome { first, second, points: 0, runs: 1, waits: WAITS.load(SeqCst) });
        unsafe { _exit(code) }
    }
    let st = STATUS.load(SeqCst);
    (COUNT.load(SeqCst), COPIES.load(SeqCst), (st != 0).then(|| (AT.load(SeqCst), st)))
}
