//! Scenarios: what one simulated run consists of, and the relations between runs.

use crate::alloc;
use crate::fam::*;
use crate::fams::Entry;
use crate::rt::*;
use std::cell::{Cell, RefCell};
use std::sync::Arc;

pub struct World {
    pub table: Vec<Entry>,
    pub comm: Vec<fn(u64)>,
    pub focus: String,
    pub mode: String,
    pub tier: u8,
    /// candidates: hand-picked std types, derived types
    pub std_c: Vec<usize>,
    pub der_c: Vec<usize>,
    pub long_c: Vec<usize>,
    pub profile: Profile,
}

const NONE: Profile =
    Profile { err: 0, cpanic: 0, dpanic: 0, cmp: 0, hash: 0, lie: 0, oom: 0, nest: 0, fallible: 50, collapse: 10 };

pub fn default_mode(focus: &str) -> &'static str {
    match focus {
        "C06" => "isolation",
        "C07" => "poison",
        "C08" => "twin",
        "C09" => "laws",
        "C12" => "config",
        "C15" => "nondet",
        "C16" => "cost",
        _ => "direct",
    }
}

impl World {
    pub fn new(table: Vec<Entry>, comm: Vec<fn(u64)>, focus: &str, mode: &str, tier: u8) -> World {
        let profile = match focus {
            "C01" => Profile { err: 85, cpanic: 8, dpanic: 5, cmp: 3, hash: 3, nest: 10, fallible: 92, ..NONE },
            "C02" => Profile { err: 35, cpanic: 30, dpanic: 18, cmp: 15, hash: 12, lie: 8, oom: 15, nest: 8, fallible: 55, collapse: 20 },
            "C03" => Profile { err: 12, cpanic: 6, dpanic: 3, nest: 8, ..NONE },
            "C04" => Profile { err: 20, cpanic: 10, nest: 6, ..NONE },
            "C05" => Profile { err: 12, cpanic: 6, nest: 6, collapse: 15, ..NONE },
            "C06" => Profile { err: 25, cpanic: 20, dpanic: 8, cmp: 6, hash: 4, nest: 30, ..NONE },
            "C07" => Profile { err: 15, cpanic: 45, dpanic: 20, cmp: 20, hash: 15, oom: 10, nest: 10, ..NONE },
            "C08" => Profile { err: 30, cpanic: 30, ..NONE },
            "C10" => Profile { err: 8, cpanic: 5, cmp: 4, hash: 4, nest: 4, collapse: 45, ..NONE },
            "C11" => Profile { err: 15, cpanic: 8, dpanic: 4, nest: 5, ..NONE },
            "C12" => Profile { err: 30, cpanic: 25, ..NONE },
            "C14" => Profile { err: 30, cpanic: 0, nest: 5, ..NONE },
            "C15" => Profile { err: 25, cpanic: 20, ..NONE },
            "C16" => Profile { err: 15, cpanic: 10, dpanic: 3, nest: 3, collapse: 20, ..NONE },
            _ => NONE,
        };
        let want = |i: &Info| -> bool {
            if i.tier > tier {
                return false;
            }
            match focus {
                "C05" => i.keeps || i.keyed,
                "C10" => i.keyed || i.name.contains("Map") || i.name.contains("Set"),
                "C11" => i.iter || i.name.contains("IntoIter"),
                "C14" => i.tier == 0,
                "C16" => i.tier > 0,
                _ => true,
            }
        };
        let mut std_c = vec![];
        let mut long_c = vec![];
        let mut der_c = vec![];
        for (i, e) in table.iter().enumerate() {
            if want(e.info) {
                if e.info.derived {
                    der_c.push(i)
                } else {
                    // (there are many arrays, and the long ones cost much)
                    let n = e.info.name.strip_prefix("[T; ").and_then(|n| n.trim_end_matches(']').parse::<u32>().ok());
                    match n {
                        Some(150..) => long_c.push(i),
                        Some(10..) => std_c.push(i),
                        _ => std_c.extend([i; 3]),
                    }
                }
            }
        }
        if std_c.is_empty() {
            std_c = der_c.clone();
        }
        if der_c.is_empty() {
            der_c = std_c.clone();
        }
        World { table, comm, focus: focus.into(), mode: mode.into(), tier, std_c, der_c, long_c, profile }
    }

    fn family(&self, t: &mut Tape, ok: impl Fn(&Info) -> bool) -> &Entry {
        &self.table[self.index(t, ok)]
    }

    fn index(&self, t: &mut Tape, ok: impl Fn(&Info) -> bool) -> usize {
        for _ in 0..20 {
            let from = match t.draw(80) {
                0..=47 => &self.std_c,
                79 if !self.long_c.is_empty() => &self.long_c,
                _ => &self.der_c,
            };
            let i = from[t.draw(from.len() as u32) as usize];
            if ok(self.table[i].info) {
                return i;
            }
        }
        // a type that is always there
        2
    }
}

pub struct RunOut {
    pub viols: Vec<Viol>,
    pub actors: Vec<Box<Actor>>,
    pub sched: u64,
    pub switches: u64,
    pub digest: u64,
}

thread_local! {
    static WORLD: RefCell<Option<(*const World, Profile, bool)>> = const { RefCell::new(None) };
    /// how deep calls are nested in a chain (0: they are nested freely, but not deep)
    static DEEP: Cell<u32> = const { Cell::new(0) };
    static FINISHED: RefCell<Vec<Box<Actor>>> = const { RefCell::new(Vec::new()) };
}

/// A call made from inside a callback of another call.
fn nested(parent: &mut Actor) {
    let depth = parent.depth + 1;
    let deep = DEEP.get();
    let serial = if deep > 0 {
        // a chain: one call inside another
        if depth > deep || parent.nested_serials > 0 {
            return;
        }
        if depth == 1 { 1024 + parent.serial * 64 } else { parent.serial + 1 }
    } else {
        if depth > 2 || parent.nested_serials >= 7 {
            return;
        }
        parent.serial * 8 + parent.nested_serials + 1
    };
    parent.nested_serials += 1;
    let tape = parent.tape.sibling(serial as u64 + 100);
    let mut a = Actor::new(serial, tape, depth, parent.log_on);
    a.hint = parent.call.as_ref().map_or("", |c| c.fam);
    nested_body(&mut a);
    FINISHED.with(|f| f.borrow_mut().push(a));
}

fn nested_body(a: &mut Actor) {
    let (w, profile, free) = WORLD.with(|w| w.borrow().unwrap());
    let w = unsafe { &*w };
    push_actor(a);
    a.keys = hash_keys();
    // often the same kind of call
    let same = a.tape.draw(2) == 1 || DEEP.get() > 0;
    let hint = a.hint;
    let e = match w.table.iter().find(|e| same && e.info.name == hint) {
        Some(e) => e,
        None => w.family(&mut a.tape, |_| true),
    };
    let cx = OpCx { order_free: free, ..OpCx::plain(profile) };
    run_entry(e, &cx, false);
    pop_actor();
}

fn run_entry(e: &Entry, cx: &OpCx, identity_ok: bool) {
    let t = &mut top().tape;
    let k = if t.draw(2) == 0 || DEEP.get() > 0 { 0 } else { t.draw(e.ops.len() as u32) as usize };
    if identity_ok && t.chance(1, 12) {
        if let Some(f) = e.ident {
            let cx = OpCx { identity: true, ..*cx };
            f(&cx);
            return;
        }
    }
    (e.ops[k].1)(cx);
}

#[derive(Clone, Copy)]
pub struct Env {
    pub hash_seed: u64,
    /// the first hash keys of the thread, if they are given
    pub keys: Option<(u64, u64)>,
    pub salt: u64,
    pub nested: bool,
    pub deep: u32,
}

/// Runs `f` on a fresh caller thread with its own actors.
pub fn on_thread<R: Send>(
    w: &World,
    profile: Profile,
    free: bool,
    client: usize,
    sched: Option<Arc<Sched>>,
    env: Env,
    f: impl FnOnce() -> R + Send,
) -> (R, Vec<Box<Actor>>) {
    let wp = w as *const World as usize;
    std::thread::scope(|s| {
        spawn(s, wp, profile, free, client, sched, env, f).join().unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

#[allow(clippy::too_many_arguments)]
fn spawn<'s, R: Send + 's>(
    s: &'s std::thread::Scope<'s, '_>,
    wp: usize,
    profile: Profile,
    free: bool,
    client: usize,
    sched: Option<Arc<Sched>>,
    env: Env,
    f: impl FnOnce() -> R + Send + 's,
) -> std::thread::ScopedJoinHandle<'s, (R, Vec<Box<Actor>>)> {
    let mut b = std::thread::Builder::new();
    match mix(env.salt, 9) % 5 {
        0 => b = b.name("main".into()),
        1 => b = b.name("tokio-runtime-worker".into()),
        _ => {}
    }
    b.stack_size(if env.deep > 0 { 128 << 20 } else { 24 << 20 } + (env.salt as usize % 16 << 12))
        .spawn_scoped(s, move || {
            HASH_SEED.set(env.hash_seed);
            HASH_KEYS.set(env.keys);
            CLOCK.set(0);
            DEEP.set(env.deep);
            alloc::SALT.set(env.salt);
            WORLD.with(|w| *w.borrow_mut() = Some((wp as *const World, profile, free)));
            with_ctx(|c| {
                c.client = client;
                c.sched = sched.clone();
                c.nested = if env.nested { Some(nested) } else { None };
            });
            if let Some(s) = &sched {
                s.wait_turn(client);
            }
            let r = f();
            if let Some(s) = &sched {
                s.finish(client);
            }
            let fin = FINISHED.with(|f| std::mem::take(&mut *f.borrow_mut()));
            (r, fin)
        })
        .expect("harness: cannot start a thread")
}

/// Up to so many calls make a long history.
const LONG: u32 = 100;

fn long(c: &mut Tape) -> bool {
    c.draw(40) == 39
}

/// What a caller does: several calls, one after the other.
#[allow(clippy::too_many_arguments)]
fn program(w: &World, a: &mut Actor, profile: Profile, cx: &OpCx, ok: &(dyn Fn(&Info) -> bool + Sync), max_ops: u32, ident: bool, pool: &[usize]) {
    push_actor(a);
    let n = 1 + a.tape.draw(max_ops);
    // a long history is one of small calls
    a.brief = max_ops >= LONG;
    for _ in 0..n {
        if a.brief && a.toks.len() > 1 << 18 {
            break;
        }
        let e = if !pool.is_empty() && a.tape.draw(4) < 3 {
            &w.table[a.tape.pick(pool)]
        } else {
            w.family(&mut a.tape, ok)
        };
        let cx = OpCx { profile, ..*cx };
        run_entry(e, &cx, ident);
    }
    pop_actor();
}

fn swarm(t: &mut Tape, p: Profile) -> Profile {
    // each kind of fault is switched off altogether in some runs
    let mut f = |x: u32| if t.draw(4) == 0 { 0 } else { x };
    Profile {
        err: f(p.err),
        cpanic: f(p.cpanic),
        dpanic: f(p.dpanic),
        cmp: f(p.cmp),
        hash: f(p.hash),
        lie: f(p.lie),
        oom: f(p.oom),
        nest: f(p.nest),
        ..p
    }
}

fn env(seed: u64, client: u64) -> Env {
    Env { hash_seed: mix(seed, client + 31), keys: None, salt: mix(seed, client + 61) | 1, nested: true, deep: 0 }
}

fn actor(t: &Arc<Tapes>, serial: u32, log: bool) -> Box<Actor> {
    Actor::new(serial, t.tape(serial as u64 + 100), 0, log)
}

pub fn run(w: &World, t: &Arc<Tapes>) -> RunOut {
    match w.mode.as_str() {
        "direct" | "cost" => direct(w, t),
        "isolation" => isolation(w, t),
        "poison" => poison(w, t),
        "twin" => twin(w, t),
        "laws" => laws(w, t),
        "nondet" => nondet(w, t),
        "config" => config(w, t),
        m => panic!("harness: unknown mode {m}"),
    }
}

fn collect(actors: Vec<Box<Actor>>, mut extra: Vec<Viol>, sched: (u64, u64)) -> RunOut {
    let mut viols = vec![];
    for a in &actors {
        viols.extend(a.viols.iter().cloned());
    }
    extra.append(&mut viols);
    RunOut { viols: extra, actors, sched: sched.0, switches: sched.1, digest: 0 }
}

fn direct(w: &World, t: &Arc<Tapes>) -> RunOut {
    let mut c = t.tape(0);
    let profile = swarm(&mut c, w.profile);
    let cost = w.mode == "cost";
    let clients = if cost || c.draw(8) < 7 { 1 } else { 2 + c.draw(2) as usize };
    let all = |_: &Info| true;
    let hashy = w.focus == "C14";
    let cx = OpCx { check_alloc: hashy, grow: cost && c.draw(3) > 0, ..OpCx::plain(profile) };
    let mut extra = vec![];
    if w.focus == "C11" && c.draw(8) == 7 {
        ranges(&mut c, &mut extra);
    }
    if clients == 1 {
        let ops = if long(&mut c) { 600 } else { 4 };
        let pool = if c.draw(2) == 1 { vec![w.index(&mut c, |_| true)] } else { vec![] };
        let pool = if ops >= LONG { &pool[..] } else { &[] };
        let mut a = actor(t, 1, false);
        a.huge = ops < LONG;
        if cost {
            a.huge_rate = 60;
        }
        let (a, mut fin) = on_thread(w, profile, false, 0, None, env(t.seed, 1), move || {
            program(w, &mut a, profile, &cx, &all, ops, true, pool);
            a
        });
        fin.push(a);
        return collect(fin, extra, (0, 0));
    }
    let (actors, s) = together(w, t, profile, clients, &cx, false, 3, &[], 0);
    collect(actors, extra, s)
}

/// several caller threads under the seeded scheduler
#[allow(clippy::too_many_arguments)]
fn together(w: &World, t: &Arc<Tapes>, profile: Profile, clients: usize, cx: &OpCx, log: bool, ops: u32, pool: &[usize], deep: u32) -> (Vec<Box<Actor>>, (u64, u64)) {
    let sched = Sched::new(clients, t.tape(1));
    let wp = w as *const World as usize;
    let mut out = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..clients)
            .map(|i| {
                let mut a = actor(t, i as u32 + 1, log);
                let cx = OpCx { ..*cx };
                spawn(s, wp, profile, cx.order_free, i, Some(sched.clone()), Env { deep, ..env(t.seed, i as u64 + 1) }, move || {
                    program(w, &mut a, profile, &cx, &|_| true, ops, false, pool);
                    a
                })
            })
            .collect();
        for h in hs {
            let (a, fin) = h.join().unwrap_or_else(|e| std::panic::resume_unwind(e));
            out.push(a);
            out.extend(fin);
        }
    });
    let sum = sched.summary();
    (out, sum)
}

fn first_diff(a: &[Ev], b: &[Ev]) -> String {
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            return format!("event {i}: {:?} versus {:?}", a.get(i), b.get(i));
        }
    }
    "no difference".into()
}

fn rel(class: &'static str, fam: &'static str, msg: String) -> Viol {
    Viol { class, keyed: false, iter: false, fam, msg }
}

fn isolation(w: &World, t: &Arc<Tapes>) -> RunOut {
    let mut c = t.tape(0);
    let mut profile = swarm(&mut c, w.profile);
    let mut clients = 1 + c.draw(4) as usize;
    // many calls of one kind in flight: long chains of nested ones, many callers
    let deep = if c.draw(8) == 7 { 1 + c.draw(24) } else { 0 };
    if deep > 0 {
        profile.nest = 101;
        clients = 1 + c.draw(if deep < 8 { 12 } else { 3 }) as usize;
    }
    let cx = OpCx::plain(profile);
    let ops = if deep > 0 { 1 } else { 2 };
    let mut pool = vec![];
    if c.draw(2) == 1 || deep > 0 {
        for _ in 0..if deep > 0 { 1 } else { 1 + c.draw(2) } {
            pool.push(w.index(&mut c, |_| true));
        }
    }
    let pool = &pool[..];
    let (all, s) = together(w, t, profile, clients, &cx, true, ops, pool, deep);
    let mut extra = vec![];
    for x in &all {
        // each alone: no other callers, no calls inside callbacks
        let mut a = Actor::new(x.serial, t.tape(x.serial as u64 + 100), x.depth, true);
        a.hint = x.hint;
        a.hashers = x.hashers.clone();
        let e = Env { nested: false, deep, ..env(t.seed, x.serial as u64) };
        let cx = OpCx { ..cx };
        let a = if x.depth == 0 {
            on_thread(w, profile, false, 0, None, e, move || {
                program(w, &mut a, profile, &cx, &|_| true, ops, false, pool);
                a
            })
        } else {
            // what ran inside another call's callback, with the hash keys it had there
            on_thread(w, profile, false, 0, None, Env { keys: Some(x.keys), ..e }, move || {
                nested_body(&mut a);
                a
            })
        };
        let (solo, viols) = (a.0.log, a.0.viols);
        if let Some(v) = x.viols.iter().find(|v| !viols.iter().any(|y| y.class == v.class)) {
            extra.push(rel("ISOLATION", v.fam, format!("caller {} goes wrong next to or inside other calls, but not alone: {} {}", x.serial, v.class, v.msg)));
        }
        if solo != x.log {
            extra.push(rel(
                "ISOLATION",
                "",
                format!(
                    "caller {} behaves differently {}: {} (alone versus together)",
                    x.serial,
                    if x.depth > 0 { "inside another call" } else { "next to other calls" },
                    first_diff(&solo, &x.log)
                ),
            ));
        }
    }
    collect(all, extra, s)
}

/// So many hash keys are used up at most before a call that is compared with one without a history.
const KEYS_APART: u64 = 30_000;

/// Uses up hash keys of this thread up to and without the given ones; `false` if they are already gone.
fn use_up(to: (u64, u64)) -> bool {
    let now = hash_keys();
    if now.1 != to.1 || to.0.wrapping_sub(now.0) > KEYS_APART || now == to {
        return false;
    }
    let mut k = now.0;
    while k.wrapping_add(1) != to.0 {
        k = hash_keys().0;
    }
    true
}

fn poison(w: &World, t: &Arc<Tapes>) -> RunOut {
    let mut c = t.tape(0);
    let profile = swarm(&mut c, w.profile);
    let cx = OpCx::plain(profile);
    let same_family = c.draw(2) == 1;
    let pool = if same_family { vec![w.index(&mut c, |_| true)] } else { vec![] };
    let pool = &pool[..];
    // a call after a history of calls that fail in every way
    let ops = if long(&mut c) { 600 } else { 4 };
    let first = c.draw(2) == 1;
    let e = env(t.seed, 1);
    let later = |first_keys: (u64, u64)| (first_keys.0.wrapping_add(KEYS_APART), first_keys.1);
    // the keys the thread starts with
    let start = (mix(t.seed, 71), mix(t.seed, 72));
    let without = || {
        let mut p = actor(t, 2000, true);
        let cx = OpCx { ..cx };
        on_thread(w, profile, false, 0, None, Env { nested: false, keys: Some(later(start)), ..e }, move || {
            program(w, &mut p, profile, &cx, &|_| true, 2, false, pool);
            p
        })
        .0
    };
    let before = first.then(without);
    let mut p1 = actor(t, 1, false);
    let mut again = actor(t, 2000, true);
    let cx2 = OpCx { ..cx };
    let ((p1, again, same_keys), mut fin) = on_thread(w, profile, false, 0, None, Env { keys: Some(start), ..e }, move || {
        program(w, &mut p1, profile, &cx2, &|_| true, ops, false, pool);
        if same_family {
            // the same kind of call, cut short first
            let mut a = Actor::new(2001, p1.tape.sibling(2100), 0, false);
            let hard = Profile { cpanic: 90, ..profile };
            program(w, &mut a, hard, &OpCx { profile: hard, ..cx2 }, &|_| true, 2, false, pool);
            FINISHED.with(|f| f.borrow_mut().push(a));
        }
        with_ctx(|c| c.nested = None);
        let same_keys = use_up(later(start));
        program(w, &mut again, profile, &cx2, &|_| true, 2, false, pool);
        (p1, again, same_keys)
    });
    // and without them, under the same hash keys
    let p2 = before.unwrap_or_else(without);
    let mut extra = vec![];
    if same_keys && p2.log != again.log {
        extra.push(rel("POISON", "", format!("a call behaves differently after earlier calls that failed: {}", first_diff(&p2.log, &again.log))));
    }
    fin.push(p1);
    fin.push(again);
    collect(fin, extra, (0, 0))
}

fn semantic(log: &[Ev]) -> Vec<Ev> {
    log.iter()
        .filter(|e| matches!(e, Ev::Call(..) | Ev::Fail(..) | Ev::Panic(..) | Ev::Begin(..)) || matches!(e, Ev::End(k, _) if *k < 8))
        .copied()
        .collect()
}

fn twin(w: &World, t: &Arc<Tapes>) -> RunOut {
    let mut c = t.tape(0);
    let profile = swarm(&mut c, w.profile);
    let fallible_only = c.draw(2) == 1;
    let profile = if fallible_only { profile } else { Profile { err: 0, ..profile } };
    let mut out = vec![];
    let mut extra = vec![];
    let methods: &[u8] = if fallible_only { &[2, 3] } else { &[0, 1, 2, 3] };
    for m in methods {
        let mut a = actor(t, 1, true);
        a.huge = true;
        let cx = OpCx { method: Some(*m), common_only: true, ..OpCx::plain(profile) };
        let (a, _) = on_thread(w, profile, false, 0, None, Env { nested: false, ..env(t.seed, 1) }, move || {
            program(w, &mut a, profile, &cx, &|_| true, 1, false, &[]);
            a
        });
        out.push(a);
    }
    let base = semantic(&out[0].log);
    for (i, a) in out.iter().enumerate().skip(1) {
        let s = semantic(&a.log);
        if s != base {
            extra.push(rel("DIVERGE", "", format!("methods {} and {} differ: {}", methods[0], methods[i], first_diff(&base, &s))));
        }
    }
    // violations of a single call belong to other properties
    for a in &mut out {
        a.viols.clear();
    }
    collect(out, extra, (0, 0))
}

fn laws(w: &World, t: &Arc<Tapes>) -> RunOut {
    let mut c = t.tape(0);
    let what = c.draw(8);
    let mut extra = vec![];
    if what == 0 {
        let mut a = actor(t, 1, false);
        let cx = OpCx { identity: true, ..OpCx::plain(w.profile) };
        let (mut a, _) = on_thread(w, w.profile, false, 0, None, Env { nested: false, ..env(t.seed, 1) }, move || {
            push_actor(&mut a);
            let e = w.family(&mut a.tape, |_| true);
            if let Some(f) = e.ident {
                f(&cx);
            }
            pop_actor();
            a
        });
        for v in a.viols.drain(..) {
            if matches!(v.class, "RES_STRUCT" | "RES_HIT" | "RES_KEEP" | "WF" | "ITER") {
                extra.push(Viol { class: "LAWS", msg: format!("mapping with the identity changed the value: {}", v.msg), ..v });
            }
        }
        return collect(vec![a], extra, (0, 0));
    }
    let comm = what >= 6;
    let k = c.draw(w.comm.len() as u32) as usize;
    let mut out = vec![];
    for side in 0..2u64 {
        let mut a = actor(t, 1, true);
        let (a, _) = on_thread(w, w.profile, false, 0, None, Env { nested: false, ..env(t.seed, 1) }, move || {
            push_actor(&mut a);
            if comm {
                (w.comm[k])(side);
            } else {
                let e = w.family(&mut a.tape, |_| true);
                if !e.fuse.is_empty() {
                    let f = e.fuse[top().tape.draw(e.fuse.len() as u32) as usize];
                    f(side == 0);
                }
            }
            pop_actor();
            a
        });
        out.push(a);
    }
    let ends = |a: &Actor| a.log.iter().filter(|e| matches!(e, Ev::Begin(_) | Ev::End(..))).copied().collect::<Vec<_>>();
    let (x, y) = (ends(&out[0]), ends(&out[1]));
    if x != y {
        extra.push(rel(
            "LAWS",
            "",
            format!("{}: {}", if comm { "the order of mapping two parameters matters" } else { "one mapping with the composition differs from two mappings" }, first_diff(&x, &y)),
        ));
    }
    for a in &mut out {
        a.viols.clear();
    }
    collect(out, extra, (0, 0))
}

/// what must not depend on hash seeds, addresses or history
fn nondet(w: &World, t: &Arc<Tapes>) -> RunOut {
    let mut c = t.tape(0);
    let profile = swarm(&mut c, w.profile);
    let kind = c.draw(5);
    let hashed = kind == 3;
    let custom = kind == 2;
    // any type, under the same hash keys
    let keyed = kind == 4;
    let warm = c.draw(2) == 1 || keyed;
    let ok = move |i: &Info| {
        if hashed {
            i.hash
        } else if custom {
            i.custom_hash
        } else {
            keyed || !i.hash && !i.custom_hash
        }
    };
    let pool = if c.draw(2) == 1 { vec![w.index(&mut c, ok)] } else { vec![] };
    let pool = &pool[..];
    let grow = c.draw(2) == 1;
    let relaid = c.draw(2) == 1;
    let cx = OpCx { order_free: hashed, common_only: true, ..OpCx::plain(profile) };
    let ops = if long(&mut c) { 600 } else { 5 };
    let cold_first = c.draw(2) == 1;
    let start = (mix(t.seed, 71), mix(t.seed, 72));
    let later = (start.0.wrapping_add(KEYS_APART), start.1);
    let mut e1 = Env { nested: false, ..env(t.seed, 1) };
    let mut e2 = Env { hash_seed: mix(e1.hash_seed, 5), salt: mix(e1.salt, 5) | 1, ..e1 };
    if keyed {
        (e1.keys, e2.keys) = (Some(start), Some(later));
    }
    let mut pair = [None, None];
    let mut out = vec![];
    let mut same_keys = true;
    for i in if cold_first { [1, 0] } else { [0, 1] } {
        let mut a = actor(t, 1, true);
        a.huge = true;
        let cx = OpCx { ..cx };
        let ((a, k), fin) = on_thread(w, profile, hashed, 0, None, if i == 0 { e1 } else { e2 }, move || {
            let mut k = true;
            if i == 0 {
                if warm {
                    let mut h = Actor::new(3000, a.tape.sibling(3100), 0, false);
                    let big = OpCx { grow: grow && ops < LONG, ..cx };
                    program(w, &mut h, profile, &big, &|_| true, ops, false, pool);
                    FINISHED.with(|f| f.borrow_mut().push(h));
                }
                k = !keyed || use_up(later);
            } else if relaid {
                a.layout = e2.salt;
            }
            program(w, &mut a, profile, &cx, &ok, 1, false, pool);
            (a, k)
        });
        same_keys &= k;
        pair[i] = Some(a.log.clone());
        out.push(a);
        out.extend(fin);
    }
    let [Some(x), Some(y)] = pair else { unreachable!() };
    if !same_keys {
        return collect(vec![], vec![], (0, 0));
    }
    let mut extra = vec![];
    let fam = first_family(out.iter().find(|a| a.serial == 1).unwrap(), w);
    if hashed {
        let canon = |l: &[Ev]| {
            let mut v: Vec<String> = semantic(l)
                .iter()
                .filter(|e| !matches!(e, Ev::End(0, _)))
                .map(|e| format!("{e:?}"))
                .collect();
            v.sort();
            v
        };
        if canon(&x) != canon(&y) {
            extra.push(rel("NONDET", fam, format!("different invocations for different hash seeds: {}", canon(&x).iter().zip(canon(&y)).find(|(a, b)| *a != b).map_or("different counts".into(), |(a, b)| format!("{a} versus {b}")))));
        }
    } else {
        let inv = |l: &[Ev]| semantic(l);
        if inv(&x) != inv(&y) {
            extra.push(rel("NONDET", fam, format!("the same call behaves differently: {}", first_diff(&inv(&x), &inv(&y)))));
        } else if x != y && !custom {
            extra.push(rel("NONDET", fam, format!("the same call gives a different result order: {}", first_diff(&x, &y))));
        } else if custom && x.iter().filter(|e| matches!(e, Ev::End(k, _) if *k >= 8)).ne(y.iter().filter(|e| matches!(e, Ev::End(k, _) if *k >= 8))) {
            extra.push(rel("NONDET_ORDER", fam, format!("{fam}: the iteration order of the result differs although the collection's hasher is deterministic: {}", first_diff(&x, &y))));
        }
    }
    for a in &mut out {
        a.viols.clear();
    }
    collect(out, extra, (0, 0))
}

/// semantic digest, compared between builds by the driver
fn config(w: &World, t: &Arc<Tapes>) -> RunOut {
    let mut c = t.tape(0);
    let profile = swarm(&mut c, w.profile);
    let hashed = c.draw(5) == 4 && w.tier == 2;
    let cx = OpCx { common_only: true, ..OpCx::plain(profile) };
    let mut a = actor(t, 1, true);
    a.huge = true;
    let ok = move |i: &Info| (i.hash || i.custom_hash) == hashed;
    let (mut a, _) = on_thread(w, profile, false, 0, None, Env { nested: false, ..env(t.seed, 1) }, move || {
        program(w, &mut a, profile, &cx, &ok, 2, false, &[]);
        a
    });
    let ev: Vec<Ev> = semantic(&a.log);
    let mut d = 5;
    for e in &ev {
        d = mix(d, match e {
            Ev::Call(a, k) => mix(1, (*a as u64) << 16 | *k as u64),
            Ev::Fail(a) => mix(2, *a as u64),
            Ev::Panic(a) => mix(3, *a as u64),
            Ev::Begin(a) => mix(4, *a as u64),
            Ev::End(k, x) => mix(5 + *k as u64, *x),
            _ => 0,
        });
    }
    // a violation in one build only is a difference between builds
    for v in &a.viols {
        d = mix(d, hash_str(v.class));
    }
    a.viols.clear();
    let mut o = collect(vec![a], vec![], (0, 0));
    o.digest = d;
    o
}

fn first_family(a: &Actor, w: &World) -> &'static str {
    a.log
        .iter()
        .find_map(|e| match e {
            Ev::Begin(h) => w.table.iter().find(|x| hash_str(x.info.name) as u32 == *h).map(|x| x.info.name),
            _ => None,
        })
        .unwrap_or("")
}

/// Ranges over numbers of which items were taken before mapping.
fn ranges(t: &mut Tape, extra: &mut Vec<Viol>) {
    use funcmap::{FuncMap, TryFuncMap};
    let (lo, n) = (t.draw(50), t.draw(6));
    let shift = t.draw(1000);
    let kind = t.draw(3);
    let (front, back) = (t.draw(n + 3), t.draw(n + 3));
    let fallible = t.draw(2) == 1;
    let mut bad = |fam: &'static str, want: Vec<u32>, got: Vec<u32>| {
        if want != got {
            extra.push(Viol {
                class: "RANGE",
                keyed: false,
                iter: true,
                fam,
                msg: format!("after {front} items from the front and {back} from the back of {lo}..+{n}, mapping by +{shift}: expected {want:?}, got {got:?}"),
            });
        }
    };
    let mut calls = vec![];
    let mut f = |x: u32| {
        calls.push(x);
        x + shift
    };
    macro_rules! go {
        ($r:expr) => {
            if fallible {
                match TryFuncMap::<u32, u32>::try_func_map($r, |x| Ok::<u32, ()>(f(x))) {
                    Ok(r) => r,
                    Err(()) => unreachable!(),
                }
            } else {
                FuncMap::<u32, u32>::func_map($r, &mut f)
            }
        };
    }
    match kind {
        0 => {
            let mut r = lo..lo + n;
            r.by_ref().take(front as usize).for_each(drop);
            r.by_ref().rev().take(back as usize).for_each(drop);
            let want: Vec<u32> = r.clone().map(|x| x + shift).collect();
            bad("Range", want, go!(r).collect());
        }
        1 => {
            let mut r = lo..=lo + n;
            r.by_ref().take(front as usize).for_each(drop);
            r.by_ref().rev().take(back as usize).for_each(drop);
            let over = r.is_empty();
            let want: Vec<u32> = r.clone().map(|x| x + shift).collect();
            bad(if over { "RangeInclusive iterated to the end" } else { "RangeInclusive" }, want, go!(r).collect());
        }
        _ => {
            let mut r = lo..;
            r.by_ref().take(front as usize).for_each(drop);
            let want: Vec<u32> = r.clone().map(|x| x + shift).take(5).collect();
            bad("RangeFrom", want, go!(r).take(5).collect());
        }
    }
}

pub fn props_of(v: &Viol) -> Vec<&'static str> {
    let mut p: Vec<&'static str> = match v.class {
        "ARG_DUP" | "ARG_FOREIGN" | "MISSING" => vec!["C03"],
        "ORDER" => vec!["C04"],
        "AFTER_ERR" | "WRONG_ERR" | "SWALLOWED_ERR" | "SPURIOUS_ERR" => vec!["C01"],
        "AFTER_PANIC" | "PANIC_CHANGED" | "PANIC_SWALLOWED" | "SPURIOUS_PANIC" | "POISON" => vec!["C07"],
        "RES_STRUCT" | "RES_HIT" => vec!["C03"],
        "RES_KEEP" => vec!["C05"],
        "COLLAPSE" | "WF" => vec!["C10"],
        "DUPLICATE" => vec!["C02", "C03"],
        "ITER" => vec!["C11", "C03"],
        "LEAK_KEEP" | "DOUBLE_DROP_KEEP" | "USE_AFTER_KEEP" => vec!["C02", "C05"],
        "DOUBLE_DROP" | "LEAK" | "GARBAGE" | "USE_AFTER" | "HEAP" | "MEM_LEAK" | "CLOSURE_DROP" => vec!["C02"],
        "ALLOC" => vec!["C14"],
        "COST" => vec!["C16"],
        "ISOLATION" => vec!["C06"],
        "DIVERGE" => vec!["C08"],
        "LAWS" => vec!["C09"],
        "NONDET" | "NONDET_ORDER" => vec!["C15"],
        "CONFIG" => vec!["C12"],
        "RANGE" => vec!["C11"],
        _ => vec![],
    };
    if v.iter && matches!(v.class, "ARG_DUP" | "ARG_FOREIGN" | "MISSING" | "ORDER" | "RES_STRUCT" | "RES_HIT" | "RES_KEEP" | "WF" | "COLLAPSE") {
        p.push("C11");
    }
    if v.keyed && matches!(v.class, "RES_STRUCT" | "RES_HIT" | "RES_KEEP") {
        p.push("C10");
    }
    p
}
