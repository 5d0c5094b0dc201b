//! The simulator's runtime: choice tapes, actors with their token registries, the baton scheduler for
//! caller threads, and the callbacks through which library code meets the simulated environment.

use crate::alloc;
use crate::node::{Id, Node, Visit, ANON};
use std::cell::{Cell, RefCell};
/// hashing that takes nothing from the simulated randomness
pub type HashMap<K, V> = std::collections::HashMap<K, V, std::hash::BuildHasherDefault<std::hash::DefaultHasher>>;
use std::sync::{Arc, Condvar, Mutex};

// ---------------------------------------------------------------- randomness

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(31);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0, 0x5eed)
    }
}

/// All choices of one run. Recorded per stream, so that a run can be replayed and minimised.
pub struct Tapes {
    pub seed: u64,
    pub fixed: Option<HashMap<u64, Vec<u32>>>,
    pub recs: Mutex<HashMap<u64, Vec<u32>>>,
}

pub struct Tape {
    stream: u64,
    rec: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
    from: Arc<Tapes>,
}

impl Tapes {
    pub fn new(seed: u64, fixed: Option<HashMap<u64, Vec<u32>>>) -> Arc<Tapes> {
        Arc::new(Tapes { seed, fixed, recs: Mutex::new(HashMap::default()) })
    }
    pub fn tape(self: &Arc<Tapes>, stream: u64) -> Tape {
        match &self.fixed {
            Some(f) => Tape {
                stream,
                rec: f.get(&stream).cloned().unwrap_or_default(),
                pos: 0,
                rng: None,
                from: self.clone(),
            },
            None => Tape {
                stream,
                rec: vec![],
                pos: 0,
                rng: Some(Rng(mix(self.seed, stream.wrapping_mul(2) + 1))),
                from: self.clone(),
            },
        }
    }
}

impl Tape {
    /// a choice in 0..n; 0 is always the simplest one
    pub fn draw(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        let _o = Out::enter();
        let v = match &mut self.rng {
            Some(r) => {
                let v = ((r.next() >> 32) * n as u64 >> 32) as u32;
                self.rec.push(v);
                tape_log(self.stream, v);
                v
            }
            None => self.rec.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        v
    }
    /// another stream of the same run
    pub fn sibling(&self, stream: u64) -> Tape {
        self.from.tape(stream)
    }
    pub fn pos(&self) -> u64 {
        self.pos as u64
    }
    pub fn one_in(&mut self, n: u32) -> bool {
        self.draw(n) == n - 1
    }
    /// true with probability a/b; false is the simple choice
    pub fn chance(&mut self, a: u32, b: u32) -> bool {
        self.draw(b) >= b - a
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.draw(v.len() as u32) as usize]
    }
}

impl Drop for Tape {
    fn drop(&mut self) {
        let mut m = lock(&self.from.recs);
        let e = m.entry(self.stream).or_default();
        let used = self.pos.min(self.rec.len());
        if used > e.len() {
            *e = self.rec[..used].to_vec();
        }
    }
}

/// When set, every choice is appended to a file as it is made (for runs that kill the process).
pub static TAPE_LOG: Mutex<Option<std::fs::File>> = Mutex::new(None);
pub static TAPE_LOG_ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn tape_log(stream: u64, v: u32) {
    if TAPE_LOG_ON.load(std::sync::atomic::Ordering::Relaxed) {
        use std::io::Write;
        if let Some(f) = &mut *lock(&TAPE_LOG) {
            let _ = writeln!(f, "{stream} {v}");
        }
    }
}

pub fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

// ---------------------------------------------------------------- violations, log

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: &'static str,
    /// facts that decide which properties it counts for
    pub keyed: bool,
    pub iter: bool,
    pub fam: &'static str,
    pub msg: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Ev {
    Call(u32, u16),
    New(u32, u16),
    Fail(u32),
    Panic(u32),
    Drop(u32),
    Begin(u32),
    End(u8, u64),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Hit,
    /// an occurrence without a destructor
    Plain,
    Keep,
    Err,
    Clos,
}

#[derive(Clone, Copy, Debug)]
pub struct Tok {
    pub live: bool,
    pub kind: Kind,
    pub key: u16,
    pub tag: u64,
}

// ---------------------------------------------------------------- faults

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Point {
    Call,
    Drop,
    Cmp,
    Hash,
    /// a destructor while the call unwinds
    Unwind,
}
pub const POINTS: usize = 5;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    Err,
    Panic,
    Nest,
    /// from here on comparisons and hashes answer at random
    Lie,
}

pub struct Payload(pub u64);
pub struct OomPayload;

pub const FAULTS: [&str; 10] = [
    "closure-error",
    "closure-panic",
    "drop-panic",
    "cmp-panic",
    "hash-panic",
    "inconsistent-order-or-hash",
    "alloc-failure",
    "nested-call",
    "preemption",
    "preemption-inside-library-code",
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum KeyMode {
    Same,
    Reverse,
    Affine(u16, u16),
    Mod(u16),
    Const,
    Count,
    CountDown,
    /// two ascending runs: the keys below the first number go up by the second one, the others down by the first one
    Split(u16, u16),
    /// the distance from a number: one falling run, one rising
    Fold(u16),
}
impl KeyMode {
    pub fn apply(self, key: u16, n: u32) -> u16 {
        match self {
            KeyMode::Same => key,
            KeyMode::Reverse => !key,
            KeyMode::Affine(a, b) => key.wrapping_mul(a | 1).wrapping_add(b),
            KeyMode::Mod(m) => key % m.max(1),
            KeyMode::Const => 7,
            KeyMode::Count => n as u16,
            KeyMode::CountDown => !(n as u16),
            KeyMode::Split(p, d) if key < p => key.wrapping_add(d),
            KeyMode::Split(p, _) => key - p,
            KeyMode::Fold(p) => key.abs_diff(p),
        }
    }
    pub fn injective(self) -> bool {
        matches!(
            self,
            KeyMode::Same | KeyMode::Reverse | KeyMode::Affine(..) | KeyMode::Count | KeyMode::CountDown
        )
    }
}

/// One call of the library in progress.
pub struct Call {
    pub visit: Option<Visit>,
    pub hit_ids: HashMap<Id, bool>,
    pub anon_left: i64,
    pub plan: Vec<(Point, u32, Act)>,
    pub counts: [u32; POINTS],
    pub calls: u32,
    pub map: HashMap<Id, (usize, Id, u16)>,
    pub produced: Vec<(Id, u16)>,
    pub keymode: KeyMode,
    pub identity: bool,
    pub err_first: Option<Id>,
    pub err_any: bool,
    pub panic_expected: Option<u64>,
    pub panic_kind: u32,
    pub closure_panicked: bool,
    pub lying: bool,
    pub order_bad: bool,
    pub hash_mod: u16,
    pub fam: &'static str,
    pub iter: bool,
    pub keyed: bool,
}

pub struct Actor {
    pub serial: u32,
    pub tape: Tape,
    pub toks: Vec<Tok>,
    pub z_live: i64,
    /// the identities of values of one byte
    pub slots: Vec<Id>,
    pub next_slot: u32,
    /// there are values without identity that are not counted
    pub z_loose: bool,
    pub log: Vec<Ev>,
    pub log_on: bool,
    pub call: Option<Box<Call>>,
    pub payloads: u32,
    pub nested_serials: u32,
    /// the number of hashers made by nested calls: recorded, or to be played back where none are made
    pub hashers: std::collections::VecDeque<u64>,
    /// the first hash keys
    pub keys: (u64, u64),
    pub depth: u32,
    /// the type the surrounding call maps
    pub hint: &'static str,
    pub viols: Vec<Viol>,
    pub fired: [u64; 10],
    pub events: u64,
    pub sigs: Vec<u64>,
    pub ops: u64,
    pub op_ok: u64,
    pub op_err: u64,
    pub op_panic: u64,
    /// counters of stateful closures outside checked calls
    pub stage_count: [u32; 2],
    pub gen_budget: u32,
    pub gen_mode: u32,
    /// not 0: values equal to those built otherwise, but laid out differently
    pub layout: u64,
    /// may generate very large values
    pub huge: bool,
    /// small values only
    pub brief: bool,
    /// one call in that many gets one
    pub huge_rate: u32,
    /// the largest value built in one piece
    pub inline: usize,
    pub key_range: u32,
    pub obs_bad: Vec<String>,
    pub obs_check: bool,
    pub hash_mod: u16,
    /// the input contains a B-tree: std aborts the process when a destructor, `eq` or the allocator panics while it
    /// builds one from sorted items, whoever asked for it
    pub has_tree: bool,
    /// inputs must not depend on hash seeds
    pub order_free: bool,
}

impl Actor {
    pub fn new(serial: u32, tape: Tape, depth: u32, log_on: bool) -> Box<Actor> {
        Box::new(Actor {
            serial,
            tape,
            toks: Vec::new(),
            z_live: 0,
            slots: Vec::new(),
            next_slot: 0,
            z_loose: false,
            log: Vec::new(),
            log_on,
            call: None,
            payloads: 0,
            nested_serials: 0,
            hashers: Default::default(),
            keys: (0, 0),
            depth,
            hint: "",
            viols: vec![],
            fired: [0; 10],
            events: 0,
            sigs: vec![],
            ops: 0,
            op_ok: 0,
            op_err: 0,
            op_panic: 0,
            stage_count: [0; 2],
            gen_budget: 0,
            gen_mode: 0,
            layout: 0,
            huge: false,
            brief: false,
            huge_rate: 900,
            inline: 0,
            key_range: 16,
            obs_bad: vec![],
            obs_check: false,
            hash_mod: 0,
            has_tree: false,
            order_free: false,
        })
    }
    pub fn viol(&mut self, class: &'static str, msg: String) {
        let (keyed, iter, fam) = match &self.call {
            Some(c) => (c.keyed, c.iter, c.fam),
            None => (false, false, self.viols.last().map_or("", |v| v.fam)),
        };
        self.viol_as(class, keyed, iter, fam, msg);
    }
    pub fn viol_as(&mut self, class: &'static str, keyed: bool, iter: bool, fam: &'static str, msg: String) {
        if self.viols.len() < 20 && !self.viols.iter().any(|v| v.class == class && v.fam == fam) {
            self.viols.push(Viol { class, keyed, iter, fam, msg });
        }
    }
    pub fn ev(&mut self, e: Ev) {
        self.events += 1;
        if self.log_on {
            self.log.push(e);
        }
    }
    pub fn new_tok(&mut self, kind: Kind, key: u16, tag: Option<u64>) -> Id {
        let local = self.toks.len() as u32;
        assert!(local < 1 << 20, "harness: too many tokens in one run");
        self.toks.push(Tok { live: true, kind, key, tag: tag.unwrap_or(mix(local as u64, 77)) });
        self.serial << 20 | local
    }
    pub fn tok(&self, id: Id) -> Option<&Tok> {
        self.toks.get((id & 0xfffff) as usize)
    }
    pub fn payload(&mut self) -> u64 {
        self.payloads += 1;
        (self.serial as u64) << 32 | self.payloads as u64
    }
    pub fn tape_pos(&self) -> u64 {
        self.tape.pos()
    }
}

// ---------------------------------------------------------------- scheduler

pub struct SchedState {
    current: usize,
    alive: Vec<bool>,
    stalled: Vec<u32>,
    /// the lock (address and contents) a thread waits for
    waiting: Vec<Option<(usize, u32)>>,
    tape: Tape,
    rate: u32,
    pub hash: u64,
    pub switches: u64,
    steps: u64,
}

/// Exactly one caller thread runs at a time; which one is decided here, at every callback.
pub struct Sched {
    st: Mutex<SchedState>,
    cv: Vec<Condvar>,
}

impl Sched {
    pub fn new(n: usize, mut tape: Tape) -> Arc<Sched> {
        let rate = [2, 3, 8, 24][tape.draw(4) as usize];
        let current = tape.draw(n as u32) as usize;
        Arc::new(Sched {
            st: Mutex::new(SchedState {
                current,
                alive: vec![true; n],
                stalled: vec![0; n],
                waiting: vec![None; n],
                tape,
                rate,
                hash: current as u64,
                switches: 0,
                steps: 0,
            }),
            cv: (0..n).map(|_| Condvar::new()).collect(),
        })
    }
    fn next(s: &mut SchedState, me: usize, must: bool) -> usize {
        let free = |i: &usize| s.waiting[*i].is_none_or(|(at, old)| word(at) != old);
        let alive: Vec<usize> = (0..s.alive.len()).filter(|i| s.alive[*i] && (*i != me || !must) && free(i)).collect();
        if alive.is_empty() {
            if s.waiting.iter().any(|w| w.is_some()) && !(s.alive[me] && s.waiting[me].is_none()) {
                deadlock();
            }
            return me;
        }
        for x in s.stalled.iter_mut() {
            *x = x.saturating_sub(1);
        }
        let ready: Vec<usize> = alive.iter().copied().filter(|i| s.stalled[*i] == 0).collect();
        let from = if ready.is_empty() { &alive } else { &ready };
        from[s.tape.draw(from.len() as u32) as usize]
    }
    pub fn wait_turn(&self, me: usize) {
        let mut s = lock(&self.st);
        while s.current != me {
            s = self.cv[me].wait(s).unwrap_or_else(|e| e.into_inner());
        }
        if EDGES_ON.load(std::sync::atomic::Ordering::Relaxed) {
            EDGES_LEFT.set(Self::edges(&mut s.tape));
        }
    }
    /// After how many basic blocks and memory accesses of the library the running thread is preempted.
    fn edges(t: &mut Tape) -> u32 {
        match t.draw(32) {
            // (but not never: it may wait for another thread by looking again and again)
            0 => 1 << 20,
            x => 1 + t.draw(1 << (x % 14)),
        }
    }
    /// preempts the running thread somewhere inside the library
    fn preempt(&self, me: usize) -> bool {
        {
            let mut s = lock(&self.st);
            if s.tape.one_in(4) {
                // others get ahead of it, in the middle of whatever it is doing
                s.stalled[me] = 64;
            }
        }
        let r = self.yield_must(me);
        EDGES_LEFT.set(Self::edges(&mut lock(&self.st).tape));
        r
    }
    /// returns whether somebody else ran in between
    pub fn yield_now(&self, me: usize) -> bool {
        let mut s = lock(&self.st);
        s.steps += 1;
        let rate = s.rate;
        if s.alive.iter().filter(|a| **a).count() < 2 || !s.tape.chance(1, rate) {
            return false;
        }
        if s.tape.one_in(16) {
            // stall this thread: others get ahead of it
            s.stalled[me] = 64;
        }
        let n = Self::next(&mut s, me, false);
        if n == me {
            return false;
        }
        s.hash = mix(s.hash, s.steps << 8 | n as u64);
        s.switches += 1;
        s.current = n;
        self.cv[n].notify_one();
        while s.current != me {
            s = self.cv[me].wait(s).unwrap_or_else(|e| e.into_inner());
        }
        true
    }
    /// somebody else runs if there is anybody
    fn yield_must(&self, me: usize) -> bool {
        let mut s = lock(&self.st);
        s.steps += 1;
        if s.alive.iter().filter(|a| **a).count() < 2 {
            return false;
        }
        let n = Self::next(&mut s, me, true);
        if n != me {
            s.hash = mix(s.hash, s.steps << 8 | n as u64 | 0x20);
            s.switches += 1;
            s.current = n;
            self.cv[n].notify_one();
            while s.current != me {
                s = self.cv[me].wait(s).unwrap_or_else(|e| e.into_inner());
            }
        }
        n != me
    }
    /// The library waits for a lock: somebody else has to run.
    fn wait_for(&self, me: usize, at: usize, old: u32) {
        let mut s = lock(&self.st);
        s.waiting[me] = Some((at, old));
        s.steps += 1;
        let n = Self::next(&mut s, me, false);
        s.hash = mix(s.hash, s.steps << 8 | n as u64 | 0x40);
        if n != me {
            s.switches += 1;
            s.current = n;
            self.cv[n].notify_one();
            while s.current != me {
                s = self.cv[me].wait(s).unwrap_or_else(|e| e.into_inner());
            }
        }
        s.waiting[me] = None;
    }
    pub fn finish(&self, me: usize) {
        let mut s = lock(&self.st);
        s.alive[me] = false;
        let n = Self::next(&mut s, me, true);
        s.hash = mix(s.hash, s.steps << 8 | n as u64 | 0x80);
        s.current = n;
        self.cv[n].notify_one();
    }
    pub fn summary(&self) -> (u64, u64) {
        let s = lock(&self.st);
        (s.hash, s.switches)
    }
}

// ---------------------------------------------------------------- thread context

#[derive(Default)]
pub struct Ctx {
    pub stack: Vec<*mut Actor>,
    pub client: usize,
    pub sched: Option<Arc<Sched>>,
    pub nested: Option<fn(&mut Actor)>,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
    /// where `Debug` of tokens reports to
    pub static SINK: RefCell<Vec<Node>> = const { RefCell::new(Vec::new()) };
    pub static CLOCK: Cell<u64> = const { Cell::new(0) };
    pub static HASH_SEED: Cell<u64> = const { Cell::new(0x1234_5678) };
    /// the first hash keys of the thread, if given
    pub static HASH_KEYS: Cell<Option<(u64, u64)>> = const { Cell::new(None) };
}

pub fn with_ctx<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(&mut c.borrow_mut()))
}

pub fn push_actor(a: &mut Actor) {
    with_ctx(|c| c.stack.push(a as *mut Actor));
}
pub fn pop_actor() {
    with_ctx(|c| {
        c.stack.pop();
    });
}

/// The actor whose code is running. Callers never keep the reference across a callback.
#[allow(clippy::mut_from_ref)]
pub fn top() -> &'static mut Actor {
    let p = with_ctx(|c| *c.stack.last().expect("no actor on this thread"));
    unsafe { &mut *p }
}

fn owner(id: Id) -> Option<&'static mut Actor> {
    let s = id >> 20;
    with_ctx(|c| c.stack.iter().rev().copied().find(|p| unsafe { (**p).serial == s }))
        .map(|p| unsafe { &mut *p })
}

/// Entering simulator code from library code.
pub struct Out(u8);
impl Out {
    pub fn enter() -> Out {
        Out(alloc::IN_LIB.with(|c| c.replace(0)))
    }
    /// was it library code that called?
    pub fn lib(&self) -> bool {
        self.0 == 1
    }
    /// enters another mode
    pub fn mode(m: u8) -> Out {
        Out(alloc::IN_LIB.with(|c| c.replace(m)))
    }
}
impl Drop for Out {
    fn drop(&mut self) {
        alloc::IN_LIB.with(|c| c.set(self.0));
    }
}

/// notes how deep the stack is in a callback of the call in progress
#[inline(always)]
fn note_depth() {
    let base = alloc::STACK_BASE.get();
    if base != 0 {
        let here = 0u8;
        let d = base.saturating_sub(std::hint::black_box(&here) as *const u8 as usize);
        if d > alloc::STACK_MAX.get() {
            alloc::STACK_MAX.set(d);
        }
    }
}

pub fn yield_point() {
    note_depth();
    let s = with_ctx(|c| c.sched.clone().map(|s| (s, c.client)));
    if let Some((s, me)) = s {
        if s.yield_now(me) {
            top().fired[8] += 1;
        }
    }
}

/// Is the library instrumented (build `std-edges`)?
pub static EDGES_ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
thread_local! {
    /// so many basic blocks of the library are run before the thread is preempted; 0: it is not
    static EDGES_LEFT: Cell<u32> = const { Cell::new(0) };
}

/// Called at the start of every basic block of the instrumented crates: the library, the derive expansions, what of
/// std is generic, and the part of the simulator that is built with them (which is not preempted here).
///
/// # Safety
/// Called by instrumented code only.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(_guard: *mut u32) {
    let n = EDGES_LEFT.get();
    if n == 0 || alloc::IN_LIB.get() != 1 {
        return;
    }
    EDGES_LEFT.set(n - 1);
    if n == 1 {
        preempt();
    }
}

#[cold]
fn preempt() {
    let _o = Out::enter();
    if let Some((s, me)) = with_ctx(|c| c.sched.clone().map(|s| (s, c.client))) {
        if s.preempt(me) {
            top().fired[9] += 1;
        }
    }
}

#[cold]
fn at_shared() -> bool {
    let _o = Out::enter();
    with_ctx(|c| c.sched.as_ref().is_some_and(|s| lock(&s.st).tape.one_in(3)))
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// Called before every access to memory of the instrumented crates. What two calls can reach without being given it is
/// behind a static: there, one access in three is a point where the thread is preempted.
fn access(addr: usize) {
    let n = EDGES_LEFT.get();
    if n == 0 || alloc::IN_LIB.get() != 1 {
        return;
    }
    let shared = unsafe { (&raw const __data_start as usize..&raw const _end as usize).contains(&addr) };
    EDGES_LEFT.set(n - 1);
    if n == 1 || shared && at_shared() {
        preempt();
    }
}

macro_rules! accesses {
    ($($f:ident)*) => {$(
        /// # Safety
        /// Called by instrumented code only.
        #[no_mangle]
        pub unsafe extern "C" fn $f(addr: *const u8) {
            access(addr as usize);
        }
    )*};
}
accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

/// # Safety
/// Called when the process starts.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(_from: *mut u32, _to: *mut u32) {
    EDGES_ON.store(true, std::sync::atomic::Ordering::Relaxed);
}

/// Panics the way user code may: with a value of its own or a message, of the kind drawn for this call.
pub fn throw() -> ! {
    let a = top();
    let p = a.payload();
    let mut kind = 0;
    if let Some(c) = a.call.as_mut() {
        c.panic_expected = Some(p);
        kind = c.panic_kind;
    }
    a.ev(Ev::Panic(p as u32));
    alloc::THROWN.set(true);
    match kind {
        1 => std::panic::panic_any(Payload(p)),
        2 => std::panic::resume_unwind(Box::new(LITERAL)),
        3 => panic!("{LITERAL} {{}} {p}"),
        4 => std::panic::resume_unwind(Box::new(p)),
        5 => std::panic::resume_unwind(Box::new(Box::new(Payload(p)) as Box<dyn std::any::Any + Send>)),
        _ => std::panic::resume_unwind(Box::new(Payload(p))),
    }
}
pub const PANIC_KINDS: u32 = 6;
pub static LITERAL: &str = "a callback of the simulated caller panicked";

/// The number of the panic a payload belongs to, and of which kind it is; `u64::MAX` if it has no number.
pub fn panic_id(p: &(dyn std::any::Any + Send)) -> Option<(u32, u64)> {
    if let Some(p) = p.downcast_ref::<Payload>() {
        Some((0, p.0))
    } else if let Some(s) = p.downcast_ref::<&'static str>() {
        (s.as_ptr() == LITERAL.as_ptr() && s.len() == LITERAL.len()).then_some((2, u64::MAX))
    } else if let Some(s) = p.downcast_ref::<String>() {
        Some((3, s.strip_prefix(LITERAL)?.strip_prefix(" {} ")?.parse().ok()?))
    } else if let Some(p) = p.downcast_ref::<u64>() {
        Some((4, *p))
    } else {
        let b = p.downcast_ref::<Box<dyn std::any::Any + Send>>()?;
        Some((5, b.downcast_ref::<Payload>()?.0))
    }
}
/// is this the panic `id` of the given kind?
pub fn is_panic(p: &(dyn std::any::Any + Send), kind: u32, id: u64) -> bool {
    panic_id(p).is_some_and(|(k, i)| k == if kind == 1 { 0 } else { kind } && (i == id || i == u64::MAX))
}

/// Counts an event inside a library call and says what should go wrong there.
fn fault(p: Point) -> Option<Act> {
    let a = top();
    let c = a.call.as_mut()?;
    let n = c.counts[p as usize];
    c.counts[p as usize] += 1;
    let hit = c.plan.iter().find(|x| x.0 == p && x.1 == n).map(|x| x.2)?;
    Some(hit)
}

fn nest() {
    let f = with_ctx(|c| c.nested);
    if let Some(f) = f {
        let snap = alloc::snapshot();
        let before = hash_keys().0;
        f(top());
        let used = hash_keys().0.wrapping_sub(before) + 1;
        top().hashers.push_back(used);
        alloc::restore(snap);
    } else if let Some(n) = top().hashers.pop_front() {
        // without the call, as many of the thread's hash keys are used up
        let snap = alloc::snapshot();
        for _ in 0..n {
            hash_keys();
        }
        alloc::restore(snap);
    }
}

/// The keys the next hashed collection made on this thread gets (which uses them up).
pub fn hash_keys() -> (u64, u64) {
    let s = std::collections::hash_map::RandomState::new();
    const { assert!(size_of::<std::collections::hash_map::RandomState>() == 16) };
    // SAFETY: two numbers
    unsafe { std::mem::transmute(s) }
}

fn side_fault(p: Point, idx: usize) {
    match fault(p) {
        Some(Act::Panic) if !alloc::unwinding() => {
            top().fired[idx] += 1;
            throw();
        }
        Some(Act::Nest) => {
            top().fired[7] += 1;
            nest();
        }
        Some(Act::Lie) => {
            let a = top();
            a.fired[5] += 1;
            if let Some(c) = a.call.as_mut() {
                c.lying = true;
            }
        }
        _ => {}
    }
}

fn drop_fault() {
    side_fault(Point::Drop, 2);
    if alloc::unwinding() {
        side_fault(Point::Unwind, 2);
    }
}

// ---------------------------------------------------------------- callbacks

pub fn bad_token(what: &str, id: Id) {
    let _o = Out::enter();
    top().viol("GARBAGE", format!("{what} (id {id:#x})"));
}

pub fn on_drop(id: Id) {
    let o = Out::enter();
    match owner(id) {
        None => top().viol("GARBAGE", format!("a value that never existed was dropped (id {id:#x})")),
        Some(a) => {
            let l = (id & 0xfffff) as usize;
            match a.toks.get(l).copied() {
                None => a.viol("GARBAGE", format!("a value that never existed was dropped (id {id:#x})")),
                Some(t) if !t.live => a.viol(
                    if t.kind == Kind::Keep { "DOUBLE_DROP_KEEP" } else { "DOUBLE_DROP" },
                    format!("{:?} value {} dropped although it was already dropped or given away", t.kind, l),
                ),
                Some(_) => {
                    a.toks[l].live = false;
                    a.ev(Ev::Drop(l as u32));
                }
            }
        }
    }
    if o.lib() {
        yield_point();
        drop_fault();
    }
}

pub fn on_drop_z() {
    let o = Out::enter();
    let a = top();
    a.z_live -= 1;
    if a.z_live < 0 {
        a.viol("DOUBLE_DROP", "more zero-sized values dropped than exist".into());
    }
    a.ev(Ev::Drop(ANON));
    if o.lib() {
        yield_point();
        drop_fault();
    }
}

/// a token is looked at: it must be alive
pub fn on_use(id: Id, what: &str) {
    if id == ANON {
        return;
    }
    let t = owner(id).and_then(|a| a.tok(id).copied());
    if !t.is_some_and(|t| t.live) {
        let _o = Out::enter();
        let keep = t.is_some_and(|t| t.kind == Kind::Keep);
        top().viol(if keep { "USE_AFTER_KEEP" } else { "USE_AFTER" }, format!("{what} of a value that is not alive (id {:#x})", id));
    }
}

pub fn on_cmp(a: (Id, u16), b: (Id, u16), eq: bool) -> std::cmp::Ordering {
    let o = Out::enter();
    on_use(a.0, "comparison");
    on_use(b.0, "comparison");
    if o.lib() {
        yield_point();
        if !(eq && top().has_tree) {
            side_fault(Point::Cmp, 3);
        }
        if lying() {
            return match top().tape.draw(3) {
                0 => std::cmp::Ordering::Equal,
                1 => std::cmp::Ordering::Less,
                _ => std::cmp::Ordering::Greater,
            };
        }
    }
    a.1.cmp(&b.1)
}

fn lying() -> bool {
    top().call.as_ref().is_some_and(|c| c.lying)
}

pub fn on_hash(a: (Id, u16)) -> u16 {
    let o = Out::enter();
    on_use(a.0, "hash");
    if o.lib() {
        yield_point();
        side_fault(Point::Hash, 4);
        if lying() {
            return top().tape.draw(4) as u16;
        }
    }
    let m = top().hash_mod;
    if m == 0 {
        a.1
    } else {
        a.1 % m
    }
}

pub enum Verdict {
    Go,
    Err,
    Panic,
}

/// The closure is invoked: checks that this invocation is allowed now, decides what it does.
pub fn on_call(id: Id, key: u16, fallible: bool) -> Verdict {
    on_use(id, "closure invocation");
    let a = top();
    a.ev(Ev::Call(if id == ANON { ANON } else { id & 0xfffff }, key));
    if let Some(c) = a.call.as_mut() {
        let n = c.calls;
        c.calls += 1;
        let mut bad: Option<(&'static str, String)> = None;
        if c.err_any {
            bad = Some(("AFTER_ERR", format!("invocation {n} after the closure failed")));
        } else if c.panic_expected.is_some() {
            bad = Some(("AFTER_PANIC", format!("invocation {n} after a panic")));
        } else if id == ANON {
            c.anon_left -= 1;
            if c.anon_left < 0 {
                bad = Some(("ARG_DUP", format!("more invocations ({}) than occurrences", n + 1)));
            }
        } else {
            match c.hit_ids.get_mut(&id) {
                None => bad = Some(("ARG_FOREIGN", format!("invocation {n} received something that is not an occurrence ({:#x})", id))),
                Some(seen) if *seen => bad = Some(("ARG_DUP", format!("invocation {n} received an occurrence again ({:#x})", id))),
                Some(seen) => *seen = true,
            }
        }
        if bad.is_none() && !c.order_bad {
            if let Some(v) = c.visit.as_mut() {
                if !v.advance(id) {
                    c.order_bad = true;
                    bad = Some(("ORDER", format!("invocation {n} received {} out of order", id & 0xfffff)));
                }
            }
        }
        if let Some((k, m)) = bad {
            a.viol(k, m);
        }
    }
    yield_point();
    match fault(Point::Call) {
        Some(Act::Err) if fallible => {
            top().fired[0] += 1;
            Verdict::Err
        }
        Some(Act::Panic) => {
            top().fired[1] += 1;
            Verdict::Panic
        }
        Some(Act::Nest) => {
            top().fired[7] += 1;
            nest();
            Verdict::Go
        }
        _ => Verdict::Go,
    }
}

// ---------------------------------------------------------------- hash seeds

/// Defined here so that std's random hash keys come from the simulator.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    if let (16, Some((a, b))) = (len, HASH_KEYS.try_with(|k| k.get()).unwrap_or(None)) {
        (buf as *mut [u64; 2]).write_unaligned([a, b]);
        return 16;
    }
    let mut r = Rng(HASH_SEED.try_with(|s| s.get()).unwrap_or(1));
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    len as isize
}

// ---------------------------------------------------------------- locks

fn word(at: usize) -> u32 {
    unsafe { &*(at as *const std::sync::atomic::AtomicU32) }.load(std::sync::atomic::Ordering::SeqCst)
}

/// No caller can go on. (Not a panic: it could not leave the system call.)
fn deadlock() -> ! {
    eprintln!("deadlock: every call in flight waits for a lock within the library");
    std::process::abort()
}

unsafe fn real_raw(n: i64, a: [usize; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn real_syscall(n: i64, a: [usize; 6]) -> i64 {
    let r = real_raw(n, a);
    if (-4095..0).contains(&r) {
        extern "C" {
            fn __errno_location() -> *mut i32;
        }
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

const FUTEX: i64 = 202;

/// Defined here so that a lock taken by the library is waited for within the simulation: std's locks wait through
/// this function. (Called with a variable number of integers; the ones not given are not looked at.)
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == FUTEX && matches!(b & 0x7f, 0 | 9) && in_lib() {
        let _o = Out::enter();
        let old = c as u32;
        if word(a) != old {
            return 0;
        }
        let s = with_ctx(|c| c.sched.clone().map(|s| (s, c.client)));
        match s {
            Some((s, me)) => s.wait_for(me, a, old),
            None => {
                // nobody else runs, unless the library has threads of its own
                let a_while = [0i64, 500_000_000];
                real_syscall(FUTEX, [a, 128, c, a_while.as_ptr() as usize, 0, 0]);
                if word(a) == old {
                    deadlock();
                }
            }
        }
        return 0;
    }
    real_syscall(n, [a, b, c, d, e, f])
}

// ---------------------------------------------------------------- time

fn in_lib() -> bool {
    alloc::IN_LIB.try_with(|x| x.get() == 1).unwrap_or(false)
}

/// The clock library code sees: it depends on the simulated process only, and jumps.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if !in_lib() {
        return real_syscall(228, [id as usize, ts as usize, 0, 0, 0, 0]) as i32;
    }
    let seed = HASH_SEED.try_with(|s| s.get()).unwrap_or(1);
    let n = CLOCK.get() + 1;
    CLOCK.set(n);
    let r = mix(seed, n);
    let (start, step) = (mix(seed, 77) % (1 << 40), [1 << 6, 1 << 14, 1 << 24, 1 << 34][(seed % 4) as usize]);
    let now = start + n * step + r % step;
    *ts = [(now / 1_000_000_000) as i64, (now % 1_000_000_000) as i64];
    0
}

/// Library code gives way (a lock of its own, a pause): somebody else runs.
fn give_way() {
    let _o = Out::enter();
    if let Some((s, me)) = with_ctx(|c| c.sched.clone().map(|s| (s, c.client))) {
        s.yield_must(me);
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_lib() {
        give_way();
        return 0;
    }
    real_syscall(24, [0; 6]) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if in_lib() {
        CLOCK.set(CLOCK.get() + 1 + (*req)[0] as u64);
        give_way();
        return 0;
    }
    -real_raw(230, [id as usize, flags as usize, req as usize, rem as usize, 0, 0]) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if in_lib() {
        CLOCK.set(CLOCK.get() + 1 + (*req)[0] as u64);
        give_way();
        return 0;
    }
    real_syscall(35, [req as usize, rem as usize, 0, 0, 0, 0]) as i32
}

// ---------------------------------------------------------------- the process

/// Library code sees the environment of the simulated process.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const std::ffi::c_char) -> *const std::ffi::c_char {
    let name = std::ffi::CStr::from_ptr(name).to_bytes();
    if in_lib() {
        let seed = HASH_SEED.try_with(|s| s.get()).unwrap_or(1);
        let x = name.iter().fold(seed, |a, b| mix(a, *b as u64));
        return [std::ptr::null(), std::ptr::null(), c"1".as_ptr(), c"0".as_ptr(), c"".as_ptr()][(x % 5) as usize];
    }
    extern "C" {
        static environ: *const *const std::ffi::c_char;
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let s = std::ffi::CStr::from_ptr(*e).to_bytes();
        if s.len() > name.len() && s.starts_with(name) && s[name.len()] == b'=' {
            return (*e).add(name.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

/// The processors the simulated process may use.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, len: usize, mask: *mut u8) -> i32 {
    if in_lib() {
        let n = 1 << (HASH_SEED.try_with(|s| s.get()).unwrap_or(1) % 7);
        std::slice::from_raw_parts_mut(mask, len).iter_mut().enumerate().for_each(|(i, b)| *b = (0..8).filter(|j| 8 * i + j < n).map(|j| 1 << j).sum());
        return 0;
    }
    let r = real_raw(204, [pid as usize, len, mask as usize, 0, 0, 0]);
    if r < 0 {
        return -1;
    }
    std::slice::from_raw_parts_mut(mask, len)[r as usize..].fill(0);
    0
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if in_lib() {
        return 2 + (HASH_SEED.try_with(|s| s.get()).unwrap_or(1) % 99_991) as i32;
    }
    real_raw(39, [0; 6]) as i32
}
