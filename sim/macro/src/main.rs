//! Simulates expansions of the derive macros. The macro code runs as it is, in process; hash seeds, addresses,
//! the clock, and every switch between expanding threads (at basic blocks of the macro code, at allocations and at blocking) are decided by a seed.
//! Every run happens in a forked child of a process in which nothing was ever expanded.
#![allow(static_mut_refs)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::os::unix::fs::FileExt;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- randomness

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(31);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0, 0x5eed)
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 32) * n >> 32
    }
}
fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x1_0000_01b3))
}

// ---------------------------------------------------------------- what a run consists of

#[derive(Clone, Debug, PartialEq)]
struct Thread {
    hash_seed: u64,
    salt: u64,
    items: Vec<(usize, usize)>,
}

#[derive(Clone, Debug, PartialEq)]
struct Plan {
    threads: Vec<Thread>,
    /// (steps until the switch, to which thread)
    switches: Vec<(u32, u8)>,
    clock: u64,
}

impl Plan {
    fn from_seed(seed: u64, inputs: usize) -> Plan {
        let mut r = Rng(mix(seed, 77));
        let macros = funcmap_derive_sut::SIM_NAMES.len() as u64;
        // a compiler process may expand very many inputs
        let long = r.below(50) == 0;
        let pool: Vec<usize> = (0..1 + r.below(if long { 40 } else { 4 })).map(|_| r.below(inputs as u64) as usize).collect();
        let n = if long { 1 + r.below(2) } else { [1, 1, 2, 2, 3, 4][r.below(6) as usize] };
        let threads = (0..n)
            .map(|_| Thread {
                hash_seed: r.next() | 1,
                salt: if r.below(3) == 0 { 0 } else { r.next() | 1 },
                items: (0..1 + r.below(if long { 400 } else { 4 })).map(|_| (r.below(macros) as usize, pool[r.below(pool.len() as u64) as usize])).collect(),
            })
            .collect();
        let k = if n == 1 { 0 } else { [0, 2, 8, 30, 100][r.below(5) as usize] };
        let span = r.below(15) as u32;
        let switches = (0..k)
            .map(|_| {
                let bits = r.below(span as u64 + 1);
                (1 + r.below(1 << bits) as u32, r.below(n as u64) as u8)
            })
            .collect();
        Plan { threads, switches, clock: r.next() >> 34 }
    }
    fn alone(k: usize, input: usize) -> Plan {
        Plan { threads: vec![Thread { hash_seed: 1, salt: 0, items: vec![(k, input)] }], switches: vec![], clock: 0 }
    }
    fn size(&self) -> (usize, usize, usize, u64) {
        let items = self.threads.iter().map(|t| t.items.len()).sum();
        let rest = self.threads.iter().map(|t| (t.hash_seed > 1) as u64 + (t.salt > 0) as u64).sum::<u64>() + (self.clock > 0) as u64;
        (items, self.threads.len(), self.switches.len(), rest)
    }
}

// ---------------------------------------------------------------- simulated environment

const OUTSIDE: usize = usize::MAX;
thread_local! {
    /// the simulated thread this is, when macro code is running
    static ME: Cell<usize> = const { Cell::new(OUTSIDE) };
    static HASH_SEED: Cell<u64> = const { Cell::new(1) };
    static SALT: Cell<u64> = const { Cell::new(0) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    Blocked(usize),
    Done,
}

/// touched only by the simulated thread that holds the baton, or under SCHED
static mut LEFT: u32 = 0;
static mut TICKS: u64 = 0;
static mut CLOCK: u64 = 0;
/// decides the environment variables and the number of the process
static mut PROCESS: u64 = 0;

struct Sched {
    cur: usize,
    st: Vec<St>,
    plan: Vec<(u32, u8)>,
    next: usize,
    trace: u64,
    switches: u64,
    blocked: u64,
}
static SCHED: Mutex<Sched> = Mutex::new(Sched { cur: 0, st: Vec::new(), plan: Vec::new(), next: 0, trace: 0, switches: 0, blocked: 0 });
static TURN: Condvar = Condvar::new();

impl Sched {
    fn arm(&mut self) -> usize {
        // the target of the switch that is due, and the distance to the one after it
        let to = self.plan.get(self.next).map_or(OUTSIDE, |x| x.1 as usize);
        self.next += 1;
        unsafe { LEFT = self.plan.get(self.next).map_or(u32::MAX, |x| x.0) };
        to
    }
    fn pick(&self, me: usize) -> Option<usize> {
        let n = self.st.len();
        (1..=n).map(|d| (me + d) % n).find(|i| self.st[*i] == St::Run)
    }
}

/// gives the baton to `to` and waits until it is this thread's turn again
fn pass(mut g: std::sync::MutexGuard<'_, Sched>, me: usize, to: usize) {
    g.cur = to;
    g.switches += 1;
    g.trace = mix(g.trace, mix(unsafe { TICKS }, to as u64));
    TURN.notify_all();
    while g.cur != me {
        g = TURN.wait(g).unwrap();
    }
}

fn tick() {
    let me = ME.with(Cell::get);
    unsafe {
        TICKS += 1;
        if LEFT == u32::MAX {
            return;
        }
        LEFT -= 1;
        if LEFT > 0 {
            return;
        }
    }
    ME.with(|m| m.set(OUTSIDE));
    let mut g = SCHED.lock().unwrap();
    let to = g.arm();
    if to < g.st.len() && to != me && g.st[to] == St::Run {
        pass(g, me, to);
    } else {
        drop(g);
    }
    ME.with(|m| m.set(me));
}

/// Every basic block of the macro code is a step, too (tools/rustc_edges.sh).
#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(_guard: *mut u32) {
    if inside() {
        tick();
    }
}
extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// An access to memory behind a static is a step, and brings the next switch nearer.
fn access(addr: usize) {
    if inside() && unsafe { (&raw const __data_start as usize..&raw const _end as usize).contains(&addr) } {
        unsafe {
            if LEFT != u32::MAX {
                LEFT -= LEFT / 2;
            }
        }
        tick();
    }
}
macro_rules! accesses {
    ($($f:ident)*) => {$(
        #[no_mangle]
        unsafe extern "C" fn $f(addr: *const u8) {
            access(addr as usize);
        }
    )*};
}
accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(_from: *mut u32, _to: *mut u32) {}

/// lets another thread run, if there is one
fn yield_now(me: usize) {
    ME.with(|m| m.set(OUTSIDE));
    let g = SCHED.lock().unwrap();
    match g.pick(me) {
        Some(to) if to != me => pass(g, me, to),
        _ => drop(g),
    }
    ME.with(|m| m.set(me));
}

fn block(me: usize, addr: usize) {
    ME.with(|m| m.set(OUTSIDE));
    let mut g = SCHED.lock().unwrap();
    g.st[me] = St::Blocked(addr);
    g.blocked += 1;
    match g.pick(me) {
        Some(to) => pass(g, me, to),
        None => unsafe { _exit(7) },
    }
    ME.with(|m| m.set(me));
}

fn wake(me: usize, addr: usize, n: i64) -> i64 {
    ME.with(|m| m.set(OUTSIDE));
    let mut g = SCHED.lock().unwrap();
    let mut k = 0;
    for s in &mut g.st {
        if *s == St::Blocked(addr) && k < n {
            *s = St::Run;
            k += 1;
        }
    }
    drop(g);
    ME.with(|m| m.set(me));
    k
}

struct SimAlloc;
#[global_allocator]
static A: SimAlloc = SimAlloc;

/// moves blocks around: a different size class gives a different address
fn vary(l: Layout) -> Layout {
    let s = SALT.try_with(|s| {
        let mut x = s.get();
        if x != 0 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            s.set(x);
        }
        x
    });
    let pad = (s.unwrap_or(0) >> 40) % 6 * 16;
    Layout::from_size_align(l.size() + pad as usize, l.align()).unwrap_or(l)
}
fn inside() -> bool {
    ME.try_with(|m| m.get() != OUTSIDE).unwrap_or(false)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if inside() {
            tick();
            // through malloc, whatever the alignment: released by free
            return System.alloc(vary(l));
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if inside() {
            tick();
        }
        System.realloc(p, l, n)
    }
}

#[no_mangle]
unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut r = Rng(HASH_SEED.try_with(Cell::get).unwrap_or(1));
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    HASH_SEED.with(|s| s.set(mix(s.get(), 9)));
    len as isize
}

unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _);
    r
}
extern "C" {
    fn __errno_location() -> *mut i32;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
    fn _exit(code: i32) -> !;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}

/// std's locks block here
#[no_mangle]
unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    const FUTEX: i64 = 202;
    if n == FUTEX {
        let me = ME.try_with(Cell::get).unwrap_or(OUTSIDE);
        if me != OUTSIDE {
            match b & 0x7f {
                0 | 9 => {
                    if *(a as *const u32) != c as u32 {
                        *__errno_location() = 11;
                        return -1;
                    }
                    if d != 0 {
                        CLOCK += 1_000_000_000;
                        yield_now(me);
                        *__errno_location() = 110;
                        return -1;
                    }
                    block(me, a as usize);
                    return 0;
                }
                1 | 10 => return wake(me, a as usize, c as i32 as i64),
                _ => {}
            }
        }
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if r < 0 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
#[no_mangle]
unsafe extern "C" fn sched_yield() -> i32 {
    let me = ME.try_with(Cell::get).unwrap_or(OUTSIDE);
    if me != OUTSIDE {
        yield_now(me);
        return 0;
    }
    raw_syscall(24, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if inside() {
        CLOCK += 1000;
        *ts = [(CLOCK / 1_000_000_000) as i64, (CLOCK % 1_000_000_000) as i64];
        return 0;
    }
    raw_syscall(228, id as i64, ts as i64, 0, 0, 0, 0) as i32
}
#[no_mangle]
unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    let me = ME.try_with(Cell::get).unwrap_or(OUTSIDE);
    if me != OUTSIDE {
        CLOCK += ((*req)[0] * 1_000_000_000 + (*req)[1]) as u64;
        yield_now(me);
        return 0;
    }
    -(raw_syscall(230, id as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32)
}

/// The macro's process has an environment of its own; the reference expansion has none.
#[no_mangle]
unsafe extern "C" fn getenv(name: *const std::ffi::c_char) -> *const std::ffi::c_char {
    let name = std::ffi::CStr::from_ptr(name).to_bytes();
    if inside() {
        let p = PROCESS;
        let x = name.iter().fold(p, |a, b| mix(a, *b as u64));
        return [std::ptr::null(), c"1".as_ptr(), c"0".as_ptr(), c"".as_ptr(), c"/tmp/x".as_ptr()][if p == 0 { 0 } else { (x % 5) as usize }];
    }
    extern "C" {
        static environ: *const *const std::ffi::c_char;
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let s = std::ffi::CStr::from_ptr(*e).to_bytes();
        if s.len() > name.len() && s.starts_with(name) && s[name.len()] == b'=' {
            return (*e).add(name.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}
#[no_mangle]
unsafe extern "C" fn getpid() -> i32 {
    if inside() {
        return 2 + (PROCESS % 99_991) as i32;
    }
    raw_syscall(39, 0, 0, 0, 0, 0, 0) as i32
}

// ---------------------------------------------------------------- one run, in a child process

fn expand(k: usize, text: &str) -> String {
    let ts: proc_macro2::TokenStream = match text.parse() {
        Ok(t) => t,
        Err(_) => return "(not tokens)".into(),
    };
    let me = CHILD.with(Cell::get);
    ME.with(|m| m.set(me));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| funcmap_derive_sut::sim_expand(k, ts)));
    ME.with(|m| m.set(OUTSIDE));
    match r {
        Ok(t) => t.to_string(),
        Err(p) => format!("(panic) {}", p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned()).unwrap_or_default()),
    }
}
thread_local! { static CHILD: Cell<usize> = const { Cell::new(OUTSIDE) }; }

fn simulate(p: &Plan, inputs: &BTreeMap<usize, String>) -> Vec<Vec<String>> {
    {
        let mut g = SCHED.lock().unwrap();
        g.st = vec![St::Run; p.threads.len()];
        g.plan = p.switches.clone();
        g.cur = 0;
        unsafe {
            LEFT = g.plan.first().map_or(u32::MAX, |x| x.0);
            CLOCK = p.clock * 1_000_000_000;
            PROCESS = p.clock;
        }
    }
    std::thread::scope(|s| {
        let hs: Vec<_> = p
            .threads
            .iter()
            .enumerate()
            .map(|(i, t)| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        HASH_SEED.set(t.hash_seed);
                        SALT.set(t.salt);
                        CHILD.set(i);
                        let mut g = SCHED.lock().unwrap();
                        while g.cur != i {
                            g = TURN.wait(g).unwrap();
                        }
                        drop(g);
                        let out: Vec<String> = t.items.iter().map(|(k, x)| expand(*k, &inputs[x])).collect();
                        let mut g = SCHED.lock().unwrap();
                        g.st[i] = St::Done;
                        if let Some(to) = g.pick(i) {
                            g.cur = to;
                            g.trace = mix(g.trace, mix(unsafe { TICKS }, to as u64));
                            TURN.notify_all();
                        } else if g.st.iter().any(|s| *s != St::Done) {
                            unsafe { _exit(7) }
                        }
                        out
                    })
                    .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

#[derive(Clone, Debug, Default)]
struct Ran {
    /// per thread and expansion: hash of the tokens
    out: Vec<Vec<u64>>,
    texts: Vec<Vec<String>>,
    trace: u64,
    switches: u64,
    blocked: u64,
    ticks: u64,
    bad: Option<(&'static str, String)>,
}

fn run(p: &Plan, inputs: &BTreeMap<usize, String>, full: bool) -> Ran {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(pipe(fds.as_mut_ptr()), 0);
        let pid = fork();
        if pid == 0 {
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let out = simulate(p, inputs);
            let mut b = vec![];
            {
                let g = SCHED.lock().unwrap();
                for x in [g.trace, g.switches, g.blocked, TICKS] {
                    b.extend(x.to_le_bytes());
                }
            }
            for s in out.iter().flatten() {
                if full {
                    b.extend((s.len() as u64).to_le_bytes());
                    b.extend(s.as_bytes());
                } else {
                    b.extend(hash(s).to_le_bytes());
                }
            }
            let _ = w.write_all(&b);
            _exit(0);
        }
        assert!(pid > 0, "fork");
        drop(std::fs::File::from_raw_fd(fds[1]));
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut b = vec![];
        let mut r = Ran::default();
        let mut pf = PollFd { fd: fds[0], events: 1, revents: 0 };
        loop {
            if poll(&mut pf, 1, 20_000) == 0 {
                kill(pid, 9);
                r.bad = Some(("HANG", "expansion does not finish".into()));
                break;
            }
            let mut chunk = [0u8; 2048];
            match f.read(&mut chunk) {
                Ok(0) => break,
                Ok(n) => b.extend_from_slice(&chunk[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => break,
            }
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if r.bad.is_some() {
            return r;
        }
        if st != 0 {
            r.bad = Some(if st >> 8 == 7 { ("HANG", "all expanding threads are blocked".into()) } else { ("CRASH", format!("the process ends with status {st:#x}")) });
            return r;
        }
        let mut pos = 0;
        let mut word = |b: &[u8]| {
            let x = u64::from_le_bytes(b[pos..pos + 8].try_into().unwrap());
            pos += 8;
            x
        };
        r.trace = word(&b);
        r.switches = word(&b);
        r.blocked = word(&b);
        r.ticks = word(&b);
        let mut pos = 32;
        for t in &p.threads {
            let mut hs = vec![];
            let mut ts = vec![];
            for _ in &t.items {
                let x = u64::from_le_bytes(b[pos..pos + 8].try_into().unwrap());
                pos += 8;
                if full {
                    let s = String::from_utf8_lossy(&b[pos..pos + x as usize]).into_owned();
                    pos += x as usize;
                    hs.push(hash(&s));
                    ts.push(s);
                } else {
                    hs.push(x);
                }
            }
            r.out.push(hs);
            r.texts.push(ts);
        }
        r
    }
}

/// expansion of an input alone, in a process in which nothing else happened
struct Refs(BTreeMap<(usize, usize), Option<u64>>);
impl Refs {
    fn get(&mut self, k: usize, i: usize, inputs: &BTreeMap<usize, String>) -> Option<u64> {
        *self.0.entry((k, i)).or_insert_with(|| {
            let r = run(&Plan::alone(k, i), inputs, false);
            r.bad.is_none().then(|| r.out[0][0])
        })
    }
}

/// (class, thread, position, message)
fn check(p: &Plan, r: &Ran, refs: &mut Refs, inputs: &BTreeMap<usize, String>) -> Option<(&'static str, usize, usize, String)> {
    if let Some((c, m)) = &r.bad {
        // an input that cannot be expanded at all is not a matter of determinism
        if p.threads.iter().flat_map(|t| &t.items).any(|(k, i)| refs.get(*k, *i, inputs).is_none()) {
            return None;
        }
        return Some((c, 0, 0, m.clone()));
    }
    for (a, t) in p.threads.iter().enumerate() {
        for (b, (k, i)) in t.items.iter().enumerate() {
            if refs.get(*k, *i, inputs) != Some(r.out[a][b]) {
                return Some(("NONDET", a, b, format!("derive({}) of input {i} as expansion {b} of thread {a} differs from its expansion alone", funcmap_derive_sut::SIM_NAMES[*k])));
            }
        }
    }
    None
}

// ---------------------------------------------------------------- files

fn read_inputs(path: &str) -> BTreeMap<usize, String> {
    std::fs::read_to_string(path).expect("inputs").lines().map(String::from).enumerate().collect()
}

fn read_plan(path: &str) -> (Plan, BTreeMap<usize, String>, BTreeMap<String, String>) {
    let mut p = Plan { threads: vec![], switches: vec![], clock: 0 };
    let mut inputs = BTreeMap::new();
    let mut head = BTreeMap::new();
    for l in std::fs::read_to_string(path).expect("replay").lines() {
        if l.starts_with('#') && l != "#" || l.is_empty() {
            continue;
        }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        let pair = |x: &str| {
            let (a, b) = x.split_once(':').expect("pair");
            (a.parse::<u32>().unwrap(), b.parse::<u32>().unwrap())
        };
        match k {
            "thread" => {
                let mut w = v.split_whitespace();
                p.threads.push(Thread {
                    hash_seed: w.next().unwrap().parse().unwrap(),
                    salt: w.next().unwrap().parse().unwrap(),
                    items: w.map(|x| pair(x)).map(|(a, b)| (a as usize, b as usize)).collect(),
                });
            }
            "switches" => p.switches = v.split_whitespace().map(|x| pair(x)).map(|(a, b)| (a, b as u8)).collect(),
            "clock" => p.clock = v.parse().unwrap(),
            "input" => {
                let (a, b) = v.split_once(' ').unwrap_or((v, ""));
                inputs.insert(a.parse().unwrap(), b.to_string());
            }
            _ => {
                head.insert(k.to_string(), v.to_string());
            }
        }
    }
    (p, inputs, head)
}

fn write_plan(path: &str, p: &Plan, inputs: &BTreeMap<usize, String>, head: &BTreeMap<String, String>, notes: &[String]) {
    let mut s = String::new();
    for n in notes {
        for l in n.lines() {
            s += &format!("# {l}\n");
        }
    }
    for (k, v) in head {
        s += &format!("{k} {v}\n");
    }
    for t in &p.threads {
        s += &format!("thread {} {}{}\n", t.hash_seed, t.salt, t.items.iter().map(|(a, b)| format!(" {a}:{b}")).collect::<String>());
    }
    s += &format!("switches{}\n", p.switches.iter().map(|(a, b)| format!(" {a}:{b}")).collect::<String>());
    s += &format!("clock {}\n", p.clock);
    let used: BTreeSet<usize> = p.threads.iter().flat_map(|t| t.items.iter().map(|x| x.1)).collect();
    for i in used {
        s += &format!("input {i} {}\n", inputs[&i]);
    }
    std::fs::write(path, s).expect("write");
}

fn differ(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| {
        let lo = (i.saturating_sub(60)..=i.min(s.len())).find(|j| s.is_char_boundary(*j)).unwrap_or(0);
        s[lo..].chars().take(200).collect::<String>()
    };
    format!("alone: …{}\nhere:  …{}", cut(a), cut(b))
}

fn explain(p: &Plan, inputs: &BTreeMap<usize, String>) -> Vec<String> {
    let r = run(p, inputs, true);
    let mut out = vec![];
    if let Some((c, m)) = &r.bad {
        out.push(format!("{c} {m}"));
        return out;
    }
    for (a, t) in p.threads.iter().enumerate() {
        for (b, (k, i)) in t.items.iter().enumerate() {
            let alone = run(&Plan::alone(*k, *i), inputs, true);
            if let Some(x) = alone.texts.first().map(|t| &t[0]) {
                if *x != r.texts[a][b] {
                    out.push(format!("derive({}), thread {a}, expansion {b}:\n{}", funcmap_derive_sut::SIM_NAMES[*k], differ(x, &r.texts[a][b])));
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- commands

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let mut o = BTreeMap::new();
    let mut pos = vec![];
    for a in &args[1..] {
        match a.strip_prefix("--").and_then(|a| a.split_once('=')) {
            Some((k, v)) => {
                o.insert(k.to_string(), v.to_string());
            }
            None => pos.push(a.clone()),
        }
    }
    let num = |k: &str, d: u64| o.get(k).map_or(d, |v| v.parse().expect("number"));
    match pos.first().map(String::as_str) {
        Some("run") => {
            let inputs = read_inputs(&o["inputs"]);
            let (seed0, step, count) = (num("seed0", 1), num("step", 1), num("count", u64::MAX));
            let deadline = Instant::now() + Duration::from_secs_f64(o.get("time").map_or(1e9, |t| t.parse().unwrap()));
            let stop = o.get("stop").cloned().unwrap_or_default();
            let out = o.get("out").cloned().unwrap_or_default();
            let prog = (!out.is_empty()).then(|| std::fs::File::create(format!("{out}.prog")).unwrap());
            let mut refs = Refs(BTreeMap::new());
            let mut sigs = vec![0u64; 1 << 18];
            let mut inter = vec![0u64; 1 << 18];
            let start = Instant::now();
            let (mut runs, mut ops, mut ticks, mut switches, mut blocked, mut multi, mut nontrivial, mut salted, mut failing, mut seen) = (0u64, 0u64, 0, 0, 0, 0u64, 0u64, 0u64, 0u64, 0);
            let mut hist = 0;
            let mut samples = vec![];
            let mut seed = seed0;
            while runs < count && Instant::now() < deadline {
                if let Some(p) = &prog {
                    let _ = p.write_all_at(&seed.to_le_bytes(), 0);
                }
                let p = Plan::from_seed(seed, inputs.len());
                let r = run(&p, &inputs, false);
                runs += 1;
                let n = p.threads.iter().map(|t| t.items.len() as u64).sum::<u64>();
                ops += n;
                ticks += r.ticks;
                switches += r.switches;
                blocked += r.blocked;
                multi += (p.threads.len() > 1) as u64;
                salted += p.threads.iter().filter(|t| t.salt > 0).count() as u64;
                nontrivial += (n > 1) as u64;
                let sig = p.threads.iter().fold(r.trace, |h, t| t.items.iter().fold(mix(h, 1), |h, (k, i)| mix(h, (*k as u64) << 32 | *i as u64)));
                let bit = |v: &mut Vec<u64>, h: u64| {
                    let b = (mix(h, 3) >> 40) as usize;
                    v[b >> 6] |= 1 << (b & 63);
                };
                bit(&mut sigs, sig);
                if r.switches > 0 {
                    bit(&mut inter, r.trace);
                }
                hist = r.out.iter().flatten().fold(mix(hist, r.trace), |h, x| mix(h, *x));
                if samples.len() < 2 && n > 2 && seed % 5 == 2 {
                    samples.push(format!("seed {seed}: {} threads, expansions (macro:input) {:?}, {} switches in {} steps", p.threads.len(), p.threads.iter().map(|t| t.items.clone()).collect::<Vec<_>>(), r.switches, r.ticks));
                }
                let v = check(&p, &r, &mut refs, &inputs);
                failing += p.threads.iter().filter(|t| t.items.len() > 1).count() as u64;
                if let Some((c, _, _, m)) = v {
                    println!("V {seed} {c} - {m}");
                    let _ = std::io::stdout().flush();
                    seen += 1;
                    if seen >= 2 {
                        break;
                    }
                }
                if runs % 16 == 0 && !stop.is_empty() && std::path::Path::new(&stop).exists() {
                    break;
                }
                seed += step;
            }
            if !out.is_empty() {
                for (v, n) in [(&sigs, "sigs"), (&inter, "inter")] {
                    let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
                    let _ = std::fs::write(format!("{out}.{n}"), b);
                }
            }
            let samples: Vec<String> = samples.iter().map(|s| format!("{s:?}")).collect();
            println!(
                "S {{\"build\":\"macro code in process\",\"runs\":{runs},\"ops\":{ops},\"events\":{ticks},\"switches\":{switches},\"multi_thread_runs\":{multi},\"nontrivial\":{nontrivial},\"hist\":\"{hist:016x}\",\"secs\":{:.3},\"types\":{},\"families\":{},\"faults\":{{\"hash-seed\":{ops},\"address-variation\":{salted},\"preemption\":{switches},\"blocking\":{blocked},\"earlier-expansions-on-the-thread\":{failing}}},\"samples\":[{}]}}",
                start.elapsed().as_secs_f64(), inputs.len(), funcmap_derive_sut::SIM_NAMES.len(), samples.join(",")
            );
        }
        Some("emit") => {
            // the plan of a seed, as a replay file
            let inputs = read_inputs(&o["inputs"]);
            let mut head = BTreeMap::new();
            head.insert("property".into(), "C13".into());
            head.insert("seed".into(), o["seed"].clone());
            head.insert("class".into(), o["class"].clone());
            write_plan(&pos[1], &Plan::from_seed(num("seed", 1), inputs.len()), &inputs, &head, &[]);
        }
        Some("replay") => {
            let (p, inputs, _) = read_plan(&pos[1]);
            let r = run(&p, &inputs, false);
            let v = check(&p, &r, &mut Refs(BTreeMap::new()), &inputs);
            if let Some((c, _, _, m)) = &v {
                println!("V {c} {m}");
                for l in explain(&p, &inputs) {
                    println!("{l}");
                }
            }
            std::process::exit(v.is_some() as i32);
        }
        Some("shrink") => {
            let (mut p, inputs, head) = read_plan(&pos[1]);
            let deadline = Instant::now() + Duration::from_secs_f64(o.get("time").map_or(15.0, |t| t.parse().unwrap()));
            let mut refs = Refs(BTreeMap::new());
            let class = head["class"].clone();
            let mut tries = 0;
            let mut fails = |p: &Plan| {
                tries += 1;
                let r = run(p, &inputs, false);
                check(p, &r, &mut refs, &inputs).is_some_and(|v| v.0 == class)
            };
            if !fails(&p) {
                println!("does not reproduce");
                std::process::exit(3);
            }
            let mut again = true;
            while again && Instant::now() < deadline {
                again = false;
                let mut cands: Vec<Plan> = vec![];
                for t in 0..p.threads.len() {
                    if p.threads.len() > 1 {
                        let mut q = p.clone();
                        q.threads.remove(t);
                        q.switches.retain(|s| s.1 as usize != t);
                        q.switches.iter_mut().for_each(|s| s.1 -= (s.1 as usize > t) as u8);
                        cands.push(q);
                    }
                    let len = p.threads[t].items.len();
                    let mut n = len / 2;
                    while n > 0 {
                        for i in (0..len).step_by(n) {
                            let mut q = p.clone();
                            q.threads[t].items.drain(i..(i + n).min(len));
                            cands.push(q);
                        }
                        n /= 2;
                    }
                    let mut q = p.clone();
                    q.threads[t].salt = 0;
                    cands.push(q);
                    let mut q = p.clone();
                    q.threads[t].hash_seed = 1;
                    cands.push(q);
                }
                let mut q = p.clone();
                q.clock = 0;
                cands.push(q);
                let mut n = p.switches.len();
                while n > 0 {
                    for i in (0..p.switches.len()).step_by(n) {
                        let mut q = p.clone();
                        let j = (i + n).min(q.switches.len());
                        let lost: u32 = q.switches.drain(i..j).map(|s| s.0).sum();
                        cands.push(q.clone());
                        if let Some(s) = q.switches.get_mut(i) {
                            s.0 = s.0.saturating_add(lost);
                            cands.push(q);
                        }
                    }
                    n /= 2;
                }
                for q in cands {
                    if q.size() < p.size() && Instant::now() < deadline && fails(&q) {
                        p = q;
                        again = true;
                        break;
                    }
                }
            }
            let mut notes = vec![format!("minimised with {tries} executions")];
            notes.extend(explain(&p, &inputs));
            write_plan(&pos[2], &p, &inputs, &head, &notes);
        }
        _ => {
            eprintln!("usage: funcmap_macrosim run|emit|replay|shrink");
            std::process::exit(2);
        }
    }
}
