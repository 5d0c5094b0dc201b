//! One mapping call under the simulator: generation of the input, drawing of faults, the call itself, and
//! the comparison of what happened with the reference model.

use crate::alloc;
use crate::node::*;
use crate::rt::*;
use crate::tok::*;
use std::any::Any;
use std::sync::atomic::Ordering::Relaxed;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub name: &'static str,
    /// 0 core, 1 alloc, 2 std
    pub tier: u8,
    /// an owning iterator
    pub iter: bool,
    /// has keyed parts whose keys are mapped
    pub keyed: bool,
    /// iterates in an order decided by random hash keys
    pub hash: bool,
    /// hasher chosen by the user
    pub custom_hash: bool,
    pub derived: bool,
    /// contains values that do not depend on the mapped parameter
    pub keeps: bool,
}

impl Info {
    pub const fn new(name: &'static str, tier: u8) -> Info {
        Info { name, tier, iter: false, keyed: false, hash: false, custom_hash: false, derived: false, keeps: false }
    }
    pub const fn flags(mut self, f: &str) -> Info {
        let b = f.as_bytes();
        let mut i = 0;
        while i < b.len() {
            match b[i] {
                b'i' => self.iter = true,
                b'k' => self.keyed = true,
                b'h' => self.hash = true,
                b'c' => self.custom_hash = true,
                b'd' => self.derived = true,
                b'p' => self.keeps = true,
                _ => {}
            }
            i += 1;
        }
        self
    }
}

pub trait Family: 'static {
    const INFO: Info;
    type Of<T: Leaf>: crate::gen::Gen + crate::gen::Obs;
    type Out<T: Leaf>: crate::gen::Obs;
    fn fm<A: Leaf, B: Leaf>(v: Self::Of<A>, f: Fun<A, B>) -> Self::Out<B>;
    fn fmo<A: Leaf, B: Leaf>(v: Self::Of<A>, f: Fun<A, B>) -> Self::Out<B>;
    fn tm<A: Leaf, B: Leaf, E: Leaf>(v: Self::Of<A>, f: Try<A, B, E>) -> Result<Self::Out<B>, E>;
    fn tmo<A: Leaf, B: Leaf, E: Leaf>(v: Self::Of<A>, f: Try<A, B, E>) -> Result<Self::Out<B>, E>;
    /// takes the result apart
    fn finish<T: Leaf>(v: Self::Out<T>, _seen: &Node) {
        drop(v)
    }
    fn again<T: Leaf>(v: Self::Out<T>) -> Self::Of<T>;
}

/// Which faults and shapes a run prefers. Percentages.
#[derive(Clone, Copy, Debug)]
pub struct Profile {
    pub err: u32,
    pub cpanic: u32,
    pub dpanic: u32,
    pub cmp: u32,
    pub hash: u32,
    pub lie: u32,
    pub oom: u32,
    /// (above 100: chains of nested calls)
    pub nest: u32,
    pub fallible: u32,
    pub collapse: u32,
}

pub struct OpCx {
    pub profile: Profile,
    pub method: Option<u8>,
    pub identity: bool,
    /// no faults or key maps that depend on the visiting order
    pub order_free: bool,
    /// only what all executions of one tape have in common
    pub common_only: bool,
    /// core types: every allocation fails
    pub check_alloc: bool,
    /// larger values
    pub grow: bool,
}

impl OpCx {
    pub fn plain(profile: Profile) -> OpCx {
        OpCx { profile, method: None, identity: false, order_free: false, common_only: false, check_alloc: false, grow: false }
    }
}

struct Spec {
    method: u8,
    src: Node,
    base: usize,
    blocks: i64,
    heap_bad: u32,
    z_base: i64,
    limits: Limits,
}

/// What a call may need at most, by the size of its input.
#[derive(Default)]
struct Limits {
    bytes: u64,
    requests: u64,
    stack: u64,
    compares: u64,
    hashes: u64,
    moved: u64,
    micros: u64,
}

impl Limits {
    fn of<F: Family, A: Leaf, B: Leaf>(info: &Info, src: &Node) -> Limits {
        let a = top();
        let n = nodes(src) + 1;
        let growth = 1 + (size_of::<B>() / size_of::<A>().max(1)) as u64;
        let n_log_n = n * (2 + n.ilog2() as u64);
        let any = u64::MAX;
        let layers = 16 * (size_of::<F::Of<A>>() + size_of::<F::Out<B>>()) as u64;
        Limits {
            bytes: 65536
                + 16 * (alloc::GEN_BYTES.get() * growth
                    + n * (size_of::<A>() + size_of::<B>() + 256) as u64
                    + (size_of::<F::Of<A>>() + size_of::<F::Out<B>>()) as u64),
            requests: 64 + 8 * n,
            stack: if A::ZST { any } else { 262_144 + 64 * (a.inline as u64 * growth + size_of::<F::Out<B>>() as u64) },
            compares: if a.hash_mod != 0 || info.custom_hash { any } else { 64 + 16 * n_log_n },
            hashes: 64 + 16 * n,
            moved: (1 << 20) + 16 * n_log_n / n * (alloc::GEN_BYTES.get() * growth + n * (size_of::<A>() + size_of::<B>() + 256) as u64 + layers),
            micros: 3_000_000 + 50 * n,
        }
    }
}

fn nodes(n: &Node) -> u64 {
    1 + match n {
        Node::Prod(_, c) | Node::OSet(c) | Node::HSet(c) | Node::Heap(c) => c.iter().map(nodes).sum::<u64>(),
        Node::Multi(_, c) => c.iter().map(|x| nodes(&x.1)).sum(),
        Node::OMap(c) | Node::HMap(c) => c.iter().map(|x| nodes(&x.0) + nodes(&x.1)).sum(),
        _ => 0,
    }
}

const METHODS: [&str; 4] = ["func_map", "func_map_over", "try_func_map", "try_func_map_over"];

fn size_mode(a: &mut Actor, grow: bool) {
    let r = if grow { 22 + a.tape.draw(18) } else { a.tape.draw(40) };
    a.gen_mode = match r {
        0..=21 => 0,
        22..=34 => 1,
        35..=38 => 2,
        _ => 3,
    };
    a.gen_budget = [60, 120, 400, 2500][a.gen_mode as usize];
    if a.huge && a.depth == 0 {
        let n = a.huge_rate;
        if a.tape.one_in(n) {
            (a.gen_mode, a.gen_budget) = (5, 70_000);
        } else if a.tape.one_in((n / 10).max(30)) {
            (a.gen_mode, a.gen_budget) = (4, 20_000);
        }
    }
    if a.brief {
        (a.gen_mode, a.gen_budget) = (0, 12);
    }
    if a.depth > 0 {
        a.gen_mode = a.gen_mode.min(1);
        a.gen_budget = 40;
    }
    a.key_range = [16, 4, 2, 300, 60000][a.tape.draw(5) as usize];
    if a.gen_mode >= 3 && a.key_range < 300 {
        a.key_range = 60000;
    }
    a.hash_mod = [0, 0, 0, 1, 3][a.tape.draw(5) as usize];
    if a.gen_mode > 1 {
        a.hash_mod = 0;
    }
}

/// Draws the call: method, closure behaviour, faults.
fn prepare(info: &'static Info, src: Node, cx: &OpCx, base: usize, z_base: i64, blocks: i64, zst: bool) -> Spec {
    let a = top();
    let has_tree = a.has_tree;
    let range = a.key_range;
    let toks = &a.toks;
    let t = &mut a.tape;
    let p = &cx.profile;
    let m = if t.chance(p.fallible, 100) { 2 } else { 0 } + t.draw(2) as u8;
    let method = cx.method.unwrap_or(m);
    let mut leaves = vec![];
    src.leaves(&mut leaves);
    let hits = leaves.iter().filter(|l| l.1).count() as u32;
    let mut keymode = match t.draw(10) {
        0 | 1 => KeyMode::Same,
        2 => KeyMode::Reverse,
        3 | 4 => KeyMode::Affine(t.draw(65536) as u16, t.draw(65536) as u16),
        5 => KeyMode::Mod(1 + t.draw(20) as u16),
        6 => KeyMode::Count,
        7 => KeyMode::CountDown,
        8 => KeyMode::Fold(t.draw(range) as u16),
        _ => {
            // two ascending runs, which may meet at the top
            let p = t.draw(range) as u16;
            let keys = leaves.iter().filter(|l| l.1 && l.0 != ANON).map(|l| toks.get((l.0 & 0xfffff) as usize).map_or(0, |t| t.key));
            let top = keys.clone().max().unwrap_or(0);
            let below = keys.filter(|k| *k < p).max().unwrap_or(0);
            match t.draw(3) {
                0 => KeyMode::Split(p, t.draw(range) as u16),
                n => KeyMode::Split(p, top.saturating_sub(p).saturating_sub(below).saturating_add(n as u16 - 1)),
            }
        }
    };
    if t.chance(p.collapse, 100) {
        keymode = match t.draw(4) {
            0 => KeyMode::Const,
            n => KeyMode::Mod(1 + t.draw(4u32.pow(n)) as u16),
        };
    }
    if cx.order_free && !matches!(keymode, KeyMode::Same | KeyMode::Reverse | KeyMode::Affine(..)) {
        keymode = KeyMode::Affine(3, 5);
    }
    let mut plan: Vec<(Point, u32, Act)> = vec![];
    let pos = |t: &mut Tape, n: u32| -> u32 {
        if n == 0 {
            return 0;
        }
        match t.draw(5) {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            _ => t.draw(n),
        }
    };
    let tree = has_tree;
    let faulty = !cx.order_free && !cx.identity;
    let nestable = !cx.identity;
    if faulty && t.chance(p.err, 100) {
        for _ in 0..1 + t.draw(3) {
            plan.push((Point::Call, pos(t, hits), Act::Err));
        }
    }
    if faulty && t.chance(p.cpanic, 100) {
        plan.push((Point::Call, pos(t, hits), Act::Panic));
    }
    if nestable && p.nest > 100 {
        // a chain of calls: one inside every call
        plan.push((Point::Call, if t.draw(2) == 0 { 0 } else { pos(t, hits) }, Act::Nest));
    } else if nestable && t.chance(p.nest, 100) {
        for _ in 0..1 + t.draw(2) {
            let r = t.draw(8);
            if r == 7 && faulty {
                // (comparisons and hashes come in an order that may depend on hash seeds)
                plan.push((if t.draw(2) == 0 { Point::Cmp } else { Point::Hash }, pos(t, hits * 2 + 1), Act::Nest));
            } else if r >= 5 {
                plan.push((Point::Drop, pos(t, leaves.len() as u32), Act::Nest));
            } else {
                plan.push((Point::Call, pos(t, hits), Act::Nest));
            }
        }
    }
    if faulty && nestable && plan.iter().any(|x| x.2 == Act::Panic) && t.chance((p.nest * 2).min(100), 100) {
        plan.push((Point::Unwind, t.draw(3), Act::Nest));
    }
    let mut oom = 0;
    if faulty && !cx.common_only {
        if t.chance(p.dpanic, 100) && !tree {
            plan.push((Point::Drop, pos(t, leaves.len() as u32 + 1), Act::Panic));
        }
        if t.chance(p.cmp, 100) {
            plan.push((Point::Cmp, pos(t, hits * 3 + 1), Act::Panic));
        }
        if t.chance(p.hash, 100) {
            plan.push((Point::Hash, pos(t, hits + 1), Act::Panic));
        }
        if t.chance(p.lie, 100) {
            plan.push((if t.draw(2) == 0 { Point::Cmp } else { Point::Hash }, pos(t, hits + 1), Act::Lie));
        }
        if t.chance(p.oom, 100) && !tree {
            oom = if t.one_in(4) { u32::MAX } else { 1 + t.draw(8) };
        }
    }
    if cx.check_alloc && t.draw(2) == 1 {
        oom = u32::MAX;
    }
    let panic_kind = t.draw(2) * t.draw(PANIC_KINDS);
    let mut hit_ids = HashMap::default();
    for (id, h) in &leaves {
        if *h && *id != ANON {
            hit_ids.insert(*id, false);
        }
    }
    let anon = leaves.iter().filter(|l| l.1 && l.0 == ANON).count() as i64;
    let heap_bad = alloc::HEAP_BAD.get();
    a.call = Some(Box::new(Call {
        visit: (!zst).then(|| src.visit()),
        hit_ids,
        anon_left: anon,
        plan,
        counts: [0; POINTS],
        calls: 0,
        map: HashMap::default(),
        produced: vec![],
        keymode,
        identity: cx.identity,
        err_first: None,
        err_any: false,
        panic_expected: None,
        panic_kind,
        closure_panicked: false,
        lying: false,
        order_bad: false,
        hash_mod: 0,
        fam: info.name,
        iter: info.iter,
        keyed: info.keyed,
    }));
    alloc::LIB_ALLOCS.set(0);
    alloc::LIB_BYTES.set(0);
    alloc::STACK_MAX.set(0);
    alloc::MOVED.set(0);
    alloc::BEGAN.set(alloc::cpu_time());
    alloc::FAILED.set(0);
    alloc::FAIL_AT.set(oom);
    Spec { method, src, base, blocks, heap_bad, z_base, limits: Limits::default() }
}

enum Outcome {
    Ok(Node),
    Err(Id),
    Panic(Box<dyn Any + Send>),
}

fn message(p: &Box<dyn Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if p.is::<OomPayload>() {
        "(allocation failure)".into()
    } else if let Some((k, p)) = panic_id(&**p) {
        format!("(injected panic {} of kind {k})", p as u32)
    } else {
        "(unknown payload)".into()
    }
}

/// A heap whose elements did not change shows them in the same order.
fn heap_moved(a: &Node, b: &Node) -> Option<String> {
    match (a, b) {
        (Node::Heap(x), Node::Heap(y)) => {
            let keys: Vec<u16> = x.iter().map(key_of).collect();
            // (what remains of a partly consumed iterator is no heap any more)
            let heap = (1..keys.len()).all(|i| keys[(i - 1) / 2] >= keys[i]);
            (heap && x != y).then(|| format!("the elements of an unchanged heap come in another order: {} became {}", show(a), show(b)))
        }
        (Node::Prod(_, x), Node::Prod(_, y)) => x.iter().zip(y).find_map(|(a, b)| heap_moved(a, b)),
        (Node::Multi(_, x), Node::Multi(_, y)) => x.iter().zip(y).find_map(|(a, b)| heap_moved(&a.1, &b.1)),
        (Node::OMap(x), Node::OMap(y)) => x.iter().zip(y).find_map(|(a, b)| heap_moved(&a.1, &b.1)),
        _ => None,
    }
}

fn show(n: &Node) -> String {
    let mut s = String::new();
    n.show(&mut s, 0);
    s
}

pub fn digest(n: &Node, a: &Actor) -> u64 {
    n.digest(&|id, key, _| {
        if id == ANON {
            1
        } else {
            mix(a.tok(id).map_or(0, |_| (id & 0xfffff) as u64 + 2), key as u64)
        }
    })
}
/// as `digest`, but by what was done to a value rather than by its number
pub fn tag_digest(n: &Node, a: &Actor) -> u64 {
    n.digest(&|id, key, _| {
        if id == ANON {
            1
        } else {
            mix(a.tok(id).map_or(0, |t| t.tag), key as u64)
        }
    })
}
/// with the iteration order of hashed and heap parts
pub fn ordered_digest(n: &Node, a: &Actor) -> u64 {
    fn go(n: &Node, a: &Actor, acc: &mut u64) {
        let step = |acc: &mut u64, x: u64| *acc = mix(*acc, x);
        match n {
            Node::Hit(id, k) | Node::Keep(id, k) => {
                step(acc, if *id == ANON { 1 } else { (*id & 0xfffff) as u64 + 2 });
                step(acc, *k as u64);
                let _ = a;
            }
            Node::Lit(x) => step(acc, *x),
            Node::Prod(_, c) | Node::OSet(c) | Node::HSet(c) | Node::Heap(c) => {
                step(acc, c.len() as u64);
                c.iter().for_each(|x| go(x, a, acc));
            }
            Node::Multi(_, c) => {
                step(acc, c.len() as u64);
                c.iter().for_each(|(_, x)| go(x, a, acc));
            }
            Node::OMap(c) | Node::HMap(c) => {
                step(acc, c.len() as u64);
                c.iter().for_each(|(k, v)| {
                    go(k, a, acc);
                    go(v, a, acc)
                });
            }
        }
    }
    let mut acc = 1;
    go(n, a, &mut acc);
    acc
}

/// Compares what happened with what had to happen. Returns whether leaks may be judged.
fn judge(info: &'static Info, s: &Spec, o: &Outcome, lib_allocs: u32, failed: u32, check_alloc: bool) -> bool {
    let a = top();
    let mut c = a.call.take().expect("harness: no call");
    let sig_faults = c.plan.iter().fold(0u64, |x, f| mix(x, (f.0 as u64) << 40 | (f.1 as u64) << 8 | f.2 as u64));
    let plan = format!("{:?}", c.plan);
    let where_ = |msg: String| {
        format!("{} on {} [{}] faults {}: {}", METHODS[s.method as usize], info.name, show(&s.src), plan, msg)
    };
    let mut viols: Vec<(&'static str, bool, String)> = vec![];
    let mut bad = |k: &'static str, keyed: bool, m: String| viols.push((k, keyed, where_(m)));
    let other_panic = a.fired_side(&c);
    let exact = !c.lying && failed == 0 && !other_panic;
    if failed > 0 {
        a.fired[6] += 1;
    }

    let heap_bad = alloc::HEAP_BAD.get() & !s.heap_bad;
    if heap_bad != 0 {
        bad("HEAP", false, format!("heap misuse (bits {heap_bad})"));
        alloc::HEAP_BAD.set(0);
    }
    if info.tier == 0 && lib_allocs > 0 && c.panic_expected.is_none() && (!matches!(o, Outcome::Panic(_)) || failed > 0) {
        bad("ALLOC", false, format!("{lib_allocs} allocations"));
    }
    let _ = check_alloc;
    let time = if alloc::COUNTING.load(Relaxed) && a.depth == 0 { alloc::BEGAN.get() } else { 0 };
    if !c.lying && s.limits.requests > 0 {
        let used = [
            ("bytes of memory requested", alloc::LIB_BYTES.get(), s.limits.bytes),
            ("requests for memory", lib_allocs as u64, s.limits.requests),
            ("bytes of stack", alloc::STACK_MAX.get() as u64, s.limits.stack),
            ("comparisons", c.counts[Point::Cmp as usize] as u64, s.limits.compares),
            ("hash computations", c.counts[Point::Hash as usize] as u64, s.limits.hashes),
            ("bytes moved about", alloc::MOVED.get(), s.limits.moved),
            ("microseconds", time, s.limits.micros),
        ];
        for (what, n, max) in used {
            if n > max {
                bad("COST", false, format!("{n} {what} for an input of {} parts (at most {max} expected)", nodes(&s.src)));
            }
        }
    }

    let outcome_code;
    match o {
        Outcome::Panic(p) => {
            outcome_code = 2u8;
            a.op_panic += 1;
            if let Some(e) = c.panic_expected.filter(|e| is_panic(&**p, c.panic_kind, *e)) {
                let _ = e;
            } else if panic_id(&**p).is_some() {
                match c.panic_expected {
                    Some(_) => bad("PANIC_CHANGED", false, "another panic came out than the last one thrown".into()),
                    None => bad("PANIC_CHANGED", false, "a panic of another call came out".into()),
                }
            } else if p.is::<OomPayload>() {
                if failed == 0 || c.panic_expected.is_some() {
                    bad("PANIC_CHANGED", false, "allocation-failure panic without cause".into());
                } else if info.tier == 0 {
                    bad("ALLOC", false, "failed because an allocation failed".into());
                }
            } else if c.panic_expected.is_some() {
                bad("PANIC_CHANGED", false, format!("the panic was replaced by: {}", message(p)));
            } else if !c.lying {
                bad("SPURIOUS_PANIC", false, format!("panicked: {}", message(p)));
            }
        }
        Outcome::Err(id) => {
            outcome_code = 1;
            a.op_err += 1;
            if c.panic_expected.is_some() {
                bad("PANIC_SWALLOWED", false, "an error came out although a callback panicked".into());
            } else {
                match c.err_first {
                    None => bad("SPURIOUS_ERR", false, "an error came out although the closure never failed".into()),
                    Some(e) if e != *id => bad("WRONG_ERR", false, format!("error {:#x} came out, the first failure was {e:#x}", id)),
                    _ => {}
                }
            }
        }
        Outcome::Ok(n) => {
            outcome_code = 0;
            a.op_ok += 1;
            if c.panic_expected.is_some() {
                bad("PANIC_SWALLOWED", false, "a result came out although a callback panicked".into());
            } else if c.err_any {
                bad("SWALLOWED_ERR", false, "a result came out although the closure failed".into());
            }
            let missing = c.hit_ids.values().filter(|x| !**x).count() as i64 + c.anon_left.max(0);
            if missing > 0 && c.panic_expected.is_none() && !c.err_any {
                bad("MISSING", false, format!("{missing} occurrences were not mapped"));
            }
            if !c.lying && c.panic_expected.is_none() && !c.err_any && missing == 0 {
                let mut got = vec![];
                n.leaves(&mut got);
                let got: std::collections::BTreeSet<Id> = got.into_iter().map(|x| x.0).collect();
                // (what has no destructor is gone when it is not in the result)
                let live = |id: Id| a.tok(id).is_some_and(|t| t.live && (t.kind != Kind::Plain || got.contains(&id)));
                let mut lost = vec![];
                let exp = expected(&s.src, &Done { map: &c.map, produced: &c.produced, live: &live }, &mut lost);
                for m in lost {
                    bad("COLLAPSE", true, m);
                }
                if let Some((d, keyed, m)) = compare(&exp, n) {
                    let k = match d {
                        Diff::Structure => "RES_STRUCT",
                        Diff::Hit => "RES_HIT",
                        Diff::Keep => "RES_KEEP",
                    };
                    bad(k, keyed, format!("{m}; expected {} got {}", show(&exp), show(n)));
                }
                for m in a.obs_bad.drain(..) {
                    bad("WF", true, m);
                }
                if c.identity {
                    if let Some(m) = heap_moved(&s.src, n) {
                        bad("RES_STRUCT", true, m);
                    }
                }
            }
            a.obs_bad.clear();
        }
    }
    // conservation: what is alive is what came out
    let alive: Vec<usize> = (s.base..a.toks.len()).filter(|i| a.toks[*i].live).collect();
    let mut out_ids: HashMap<Id, ()> = HashMap::default();
    let mut z_out = 0;
    match o {
        Outcome::Ok(n) => {
            let mut l = vec![];
            n.leaves(&mut l);
            for (id, _) in l {
                if id == ANON {
                    z_out += 1;
                } else if out_ids.insert(id, ()).is_some() {
                    bad("DUPLICATE", false, format!("value {} occurs twice in the result", id & 0xfffff));
                }
            }
        }
        Outcome::Err(id) => {
            out_ids.insert(*id, ());
        }
        _ => {}
    }
    if exact {
        for i in alive {
            let id = a.serial << 20 | i as u32;
            if !out_ids.contains_key(&id) && a.toks[i].kind != Kind::Plain {
                let t = a.toks[i];
                let k = match t.kind {
                    Kind::Keep => "LEAK_KEEP",
                    Kind::Clos => "CLOSURE_DROP",
                    _ => "LEAK",
                };
                bad(k, false, format!("{:?} value {} is neither in what was returned nor dropped", t.kind, i));
            }
        }
        if a.z_live - s.z_base > z_out && !a.z_loose {
            bad("LEAK", false, format!("{} zero-sized values neither returned nor dropped", a.z_live - s.z_base - z_out));
        }
    }
    if a.z_live - s.z_base < z_out && !a.z_loose {
        bad("DUPLICATE", false, "more zero-sized values in the result than exist".into());
    }

    let (set, ord) = match o {
        Outcome::Ok(n) => (digest(n, a), ordered_digest(n, a)),
        Outcome::Err(id) => ((*id & 0xfffff) as u64, 0),
        Outcome::Panic(p) => (panic_id(&**p).map_or(3, |p| p.1 & 0xffff_ffff), 0),
    };
    a.ev(Ev::End(outcome_code, set));
    a.ev(Ev::End(outcome_code + 8, ord));
    let hits = c.hit_ids.len() as u64;
    let hb = if hits < 12 { hits } else { 12 + hits.ilog2() as u64 };
    let shape = mix(tagless(&s.src), hb);
    a.sigs.push(mix(mix(hash_str(info.name), s.method as u64), mix(shape, mix(sig_faults, outcome_code as u64))));
    c.err_any = true; // the call is over: nothing may happen any more
    for (k, keyed, m) in viols {
        a.viol_as(k, keyed || info.keyed, info.iter, info.name, m);
    }
    exact
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(11, |a, b| mix(a, b as u64))
}

fn tagless(n: &Node) -> u64 {
    n.digest(&|_, _, h| h as u64)
}

impl Actor {
    fn fired_side(&self, c: &Call) -> bool {
        c.panic_expected.is_some() && !c.closure_panicked || c.panic_expected.is_some() && self.side_after(c)
    }
    fn side_after(&self, c: &Call) -> bool {
        // a destructor that panicked besides the closure
        c.plan.iter().any(|p| p.2 == Act::Panic && p.0 != Point::Call && c.counts[p.0 as usize] > p.1)
    }
}

fn settle(info: &'static Info, s: &Spec, exact: bool) {
    let a = top();
    let heap_bad = alloc::HEAP_BAD.get() & !s.heap_bad;
    if heap_bad != 0 {
        alloc::HEAP_BAD.set(0);
        a.viol_as("HEAP", false, info.iter, info.name, format!("heap misuse (bits {heap_bad}) after {} on {}", METHODS[s.method as usize], info.name));
    }
    if exact {
        let left: Vec<usize> = (s.base..a.toks.len()).filter(|i| a.toks[*i].live && a.toks[*i].kind != Kind::Plain).collect();
        if let Some(i) = left.first() {
            let t = a.toks[*i];
            a.viol_as("LEAK", false, info.iter, info.name, format!("{:?} value {} still alive after the result of {} was dropped", t.kind, i, info.name));
        }
        let b = alloc::LIB_BLOCKS.get() - s.blocks;
        if b > 0 {
            a.viol_as("MEM_LEAK", false, info.iter, info.name, format!("{b} memory blocks leaked by {} on {} [{}]", METHODS[s.method as usize], info.name, show(&s.src)));
        }
    }
    // whatever was leaked does not concern later calls
    for t in a.toks[s.base..].iter_mut() {
        t.live = false;
    }
    a.z_live = s.z_base;
    for id in a.slots.iter_mut() {
        if *id != ANON && (*id & 0xfffff) as usize >= s.base {
            *id = ANON;
        }
    }
    alloc::LIB_BLOCKS.set(s.blocks);
}

/// One call of one of the four methods, with everything drawn from the tape of the running actor.
pub fn op<F: Family, A: Leaf, B: Leaf>(cx: &OpCx) {
    op_err::<F, A, B, ErrTok>(cx)
}

/// the same with errors of type `E`
pub fn op_err<F: Family, A: Leaf, B: Leaf, E: Leaf>(cx: &OpCx) {
    let info: &'static Info = &F::INFO;
    let a = top();
    a.ops += 1;
    a.ev(Ev::Begin(hash_str(info.name) as u32));
    size_mode(a, cx.grow);
    let (base, z_base, blocks) = (a.toks.len(), a.z_live, alloc::LIB_BLOCKS.get());
    a.has_tree = false;
    a.z_loose = false;
    a.inline = size_of::<F::Of<A>>().max(size_of::<A>()).max(size_of::<E>());
    alloc::GEN_BYTES.set(0);
    a.order_free = cx.order_free;
    let v: F::Of<A> = {
        let _g = Out::mode(2);
        crate::gen::Gen::gen()
    };
    let src = crate::gen::Obs::obs(&v);
    let mut s = prepare(info, src, cx, base, z_base, blocks, A::ZST);
    s.limits = Limits::of::<F, A, B>(info, &s.src);
    let f = if s.method < 2 { AnyFun::Fun(infallible::<A, B>()) } else { AnyFun::Try(fallible::<A, B, E>()) };
    let m = s.method;
    let r: Result<Result<F::Out<B>, E>, Box<dyn Any + Send>> = call(|| any_call::<F, A, B, E>(v, m, f));
    let (lib_allocs, failed) = (alloc::LIB_ALLOCS.get(), alloc::FAILED.get());
    alloc::BEGAN.set(alloc::cpu_time() - alloc::BEGAN.get());
    alloc::FAIL_AT.set(0);
    match r {
        Ok(Ok(out)) => {
            let a = top();
            a.obs_bad.clear();
            a.obs_check = !a.call.as_ref().is_some_and(|c| c.lying);
            let lying = !a.obs_check;
            let n = crate::gen::Obs::obs(&out);
            top().obs_check = false;
            let o = Outcome::Ok(n);
            let exact = judge(info, &s, &o, lib_allocs, failed, cx.check_alloc);
            let Outcome::Ok(n) = o else { unreachable!() };
            if lying {
                drop(out);
            } else {
                F::finish(out, &n);
            }
            settle(info, &s, exact);
        }
        Ok(Err(e)) => {
            let o = Outcome::Err(e.id());
            let exact = judge(info, &s, &o, lib_allocs, failed, cx.check_alloc);
            drop(e);
            settle(info, &s, exact);
        }
        Err(p) => {
            let o = Outcome::Panic(p);
            let exact = judge(info, &s, &o, lib_allocs, failed, cx.check_alloc);
            drop(o);
            settle(info, &s, exact);
        }
    }
}

enum AnyFun<A, B, E> {
    Fun(Fun<A, B>),
    Try(Try<A, B, E>),
}

fn any_call<F: Family, A: Leaf, B: Leaf, E: Leaf>(v: F::Of<A>, m: u8, f: AnyFun<A, B, E>) -> Result<F::Out<B>, E> {
    match f {
        AnyFun::Fun(f) => Ok(if m == 0 { F::fm(v, f) } else { F::fmo(v, f) }),
        AnyFun::Try(f) => {
            if m == 2 {
                F::tm(v, f)
            } else {
                F::tmo(v, f)
            }
        }
    }
}

/// Runs library code.
fn call<R>(f: impl FnOnce() -> R) -> std::thread::Result<R> {
    alloc::THROWN.set(false);
    let here = 0u8;
    alloc::STACK_BASE.set(std::hint::black_box(&here) as *const u8 as usize);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _l = Out::mode(1);
        f()
    }));
    alloc::STACK_BASE.set(0);
    alloc::IN_LIB.set(0);
    r
}

/// Compares an iterator's items with what it showed, taking them from both ends.
pub fn drain<I: DoubleEndedIterator>(mut it: I, ids: impl Fn(&I::Item) -> Vec<Id>, seen: &Node) {
    let mut want = flat(seen);
    let mut back: Vec<Id> = vec![];
    let mut front: Vec<Id> = vec![];
    loop {
        let item = if top().tape.chance(1, 3) { it.next_back().map(|x| (true, x)) } else { it.next().map(|x| (false, x)) };
        match item {
            None => break,
            Some((true, x)) => {
                let mut i = ids(&x);
                i.reverse();
                back.extend(i)
            }
            Some((false, x)) => front.extend(ids(&x)),
        }
    }
    let over = it.next().is_none() && it.next_back().is_none();
    back.reverse();
    front.extend(back);
    report(front, &mut want, over, matches!(seen, Node::Heap(_)));
}

pub fn drain_front<I: Iterator>(mut it: I, ids: impl Fn(&I::Item) -> Vec<Id>, seen: &Node) {
    let mut want = flat(seen);
    let mut front: Vec<Id> = vec![];
    for x in it.by_ref() {
        front.extend(ids(&x));
    }
    let over = it.next().is_none();
    report(front, &mut want, over, false);
}

fn report(got: Vec<Id>, want: &mut Vec<Id>, over: bool, _bag: bool) {
    let a = top();
    if got != *want || !over {
        a.viol_as("ITER", false, true, "iterator", format!("the resulting iterator shows {:?} but yields {:?}{}", short(want), short(&got), if over { "" } else { ", and goes on after the end" }));
    }
}

fn short(v: &[Id]) -> Vec<u32> {
    v.iter().take(12).map(|x| x & 0xfffff).collect()
}

fn flat(n: &Node) -> Vec<Id> {
    let mut l = vec![];
    n.leaves(&mut l);
    l.into_iter().map(|x| x.0).collect()
}
