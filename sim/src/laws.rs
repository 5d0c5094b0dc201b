//! Functor laws: the two sides of each law, executed from the same tape.

use crate::fam::*;
use crate::gen::{Gen, Obs};
use crate::node::Node;
use crate::rt::*;
use crate::tok::*;

#[derive(Clone, Copy)]
pub struct Stage {
    pub mode: KeyMode,
    /// fails on keys whose hash is 0 modulo this (0: never)
    pub fail: u32,
}

thread_local! {
    static STAGES: std::cell::Cell<[Stage; 2]> =
        const { std::cell::Cell::new([Stage { mode: KeyMode::Same, fail: 0 }; 2]) };
}

/// a closure with its own state that may fail
pub fn stage<A: Leaf, B: Leaf>(i: usize) -> Try<A, B> {
    let _h = Out::enter();
    let keep = ClosTok::make(0, None);
    let mut n = 0;
    Box::new(move |a: A| {
        let _o = Out::enter();
        on_use(keep.id(), "closure invocation");
        let st = STAGES.get()[i];
        if st.fail > 0 && mix(a.key() as u64, i as u64) % st.fail as u64 == 0 {
            top().fired[0] += 1;
            return Err(ErrTok::make(0, None));
        }
        n += 1;
        top().ev(Ev::Call(i as u32, a.key()));
        Ok(apply::<A, B>(a, st.mode, n - 1, 2 + i as u64))
    })
}

fn infallible<A: Leaf, B: Leaf>(mut f: Try<A, B>) -> Fun<A, B> {
    let _h = Out::enter();
    Box::new(move |a| match f(a) {
        Ok(b) => b,
        Err(_) => unreachable!("harness: this stage does not fail"),
    })
}

fn setup(stateful: bool, fallible: bool) {
    let t = &mut top().tape;
    let mut s = [Stage { mode: KeyMode::Same, fail: 0 }; 2];
    for x in &mut s {
        x.mode = match t.draw(if stateful { 5 } else { 3 }) {
            0 => KeyMode::Same,
            1 => KeyMode::Affine(t.draw(65536) as u16, t.draw(65536) as u16),
            2 => KeyMode::Reverse,
            3 => KeyMode::Count,
            _ => KeyMode::CountDown,
        };
        if fallible && t.draw(2) == 1 {
            x.fail = 2 + t.draw(30);
        }
    }
    STAGES.set(s);
}

fn small() {
    let a = top();
    a.gen_mode = [0, 0, 0, 0, 1, 1, 1, 2, 2, 3][a.tape.draw(10) as usize];
    a.gen_budget = if a.gen_mode == 3 { 2500 } else { 200 };
    a.key_range = [16, 4, 300, 60000][a.tape.draw(4) as usize];
    a.hash_mod = 0;
    a.ops += 1;
}

fn sign(name: &str, src: &Node, out: u64) {
    let a = top();
    a.sigs.push(mix(hash_str(name), mix(src.digest(&|_, _, h| h as u64), out)));
}

fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _l = Out::mode(1);
    f()
}

fn end(name: &str, src: &Node, ok: Option<u64>) {
    let a = top();
    match ok {
        Some(d) => {
            a.op_ok += 1;
            a.ev(Ev::End(0, d))
        }
        None => {
            a.op_err += 1;
            a.ev(Ev::End(1, 0))
        }
    }
    sign(name, src, ok.is_some() as u64);
}

/// `fused`: one call with the composed closure, otherwise two calls
pub fn fusion<F: Family, A: Leaf, B: Leaf, C: Leaf>(fused: bool) {
    let info = &F::INFO;
    small();
    let v = <F::Of<A>>::gen();
    let src = v.obs();
    let method = top().tape.draw(4);
    setup(!(info.keyed || info.hash || info.custom_hash), method >= 2);
    top().ev(Ev::Begin(hash_str(info.name) as u32));
    let (mut f, mut g) = (stage::<A, B>(0), stage::<B, C>(1));
    let both: Try<A, C> = Box::new(move |a: A| f(a).and_then(&mut g));
    let r: Result<F::Out<C>, ErrTok> = match (fused, method) {
        (true, 0) => lib(|| Ok(F::fm::<A, C>(v, infallible(both)))),
        (true, 1) => lib(|| Ok(F::fmo::<A, C>(v, infallible(both)))),
        (true, 2) => lib(|| F::tm::<A, C, ErrTok>(v, both)),
        (true, _) => lib(|| F::tmo::<A, C, ErrTok>(v, both)),
        (false, 0) => {
            let w = lib(|| F::fm::<A, B>(v, infallible(stage(0))));
            lib(|| Ok(F::fm::<B, C>(F::again(w), infallible(stage(1)))))
        }
        (false, 1) => {
            let w = lib(|| F::fmo::<A, B>(v, infallible(stage(0))));
            lib(|| Ok(F::fmo::<B, C>(F::again(w), infallible(stage(1)))))
        }
        (false, 2) => lib(|| F::tm::<A, B, ErrTok>(v, stage(0))).and_then(|w| lib(|| F::tm::<B, C, ErrTok>(F::again(w), stage(1)))),
        (false, _) => lib(|| F::tmo::<A, B, ErrTok>(v, stage(0))).and_then(|w| lib(|| F::tmo::<B, C, ErrTok>(F::again(w), stage(1)))),
    };
    let d = r.as_ref().ok().map(|x| tag_digest(&x.obs(), top()));
    end(info.name, &src, d);
}

type St<X, Y> = fn(X) -> Result<Y, ErrTok>;

/// side 0: first parameter first; side 1: second parameter first
pub fn commute<Src: Gen + Obs, Va: Obs, Vb: Obs, Outp: Obs>(
    name: &str,
    side: u64,
    a1: St<Src, Va>,
    a2: St<Va, Outp>,
    b1: St<Src, Vb>,
    b2: St<Vb, Outp>,
) {
    commute_with(name, side, true, a1, a2, b1, b2)
}

pub fn commute_with<Src: Gen + Obs, Va: Obs, Vb: Obs, Outp: Obs>(
    name: &str,
    side: u64,
    stateful: bool,
    a1: St<Src, Va>,
    a2: St<Va, Outp>,
    b1: St<Src, Vb>,
    b2: St<Vb, Outp>,
) {
    small();
    let v = Src::gen();
    let src = v.obs();
    setup(stateful, true);
    top().ev(Ev::Begin(hash_str(name) as u32));
    let r = if side == 0 {
        lib(|| a1(v)).and_then(|w| lib(|| a2(w)))
    } else {
        lib(|| b1(v)).and_then(|w| lib(|| b2(w)))
    };
    let d = r.as_ref().ok().map(|x| tag_digest(&x.obs(), top()));
    end(name, &src, d);
}

macro_rules! std_commute {
    ($f:ident, $name:literal, $m:ident, $stateful:literal) => {
        pub fn $f(side: u64) {
            if top().tape.draw(3) == 2 {
                // the same type throughout
                use funcmap::{TryFuncMap, TypeParam};
                return commute_with::<$m<S, S>, $m<S, S>, $m<S, S>, $m<S, S>>(
                    $name,
                    side,
                    $stateful,
                    |v| TryFuncMap::<S, S, TypeParam<0>>::try_func_map(v, stage::<S, S>(0)),
                    |v| TryFuncMap::<S, S, TypeParam<1>>::try_func_map(v, stage::<S, S>(1)),
                    |v| TryFuncMap::<S, S, TypeParam<1>>::try_func_map(v, stage::<S, S>(1)),
                    |v| TryFuncMap::<S, S, TypeParam<0>>::try_func_map(v, stage::<S, S>(0)),
                );
            }
            use funcmap::{TryFuncMap, TypeParam};
            commute_with::<$m<S, H>, $m<F, H>, $m<S, F>, $m<F, F>>(
                $name,
                side,
                $stateful,
                |v| TryFuncMap::<S, F, TypeParam<0>>::try_func_map(v, stage::<S, F>(0)),
                |v| TryFuncMap::<H, F, TypeParam<1>>::try_func_map(v, stage::<H, F>(1)),
                |v| TryFuncMap::<H, F, TypeParam<1>>::try_func_map(v, stage::<H, F>(1)),
                |v| TryFuncMap::<S, F, TypeParam<0>>::try_func_map(v, stage::<S, F>(0)),
            )
        }
    };
}
use core::ops::ControlFlow;
std_commute!(comm_result, "Result<T, U>", Result, true);
std_commute!(comm_cf, "ControlFlow<T, U>", ControlFlow, true);
#[cfg(feature = "alloc")]
use std::collections::{btree_map, BTreeMap};
#[cfg(feature = "alloc")]
std_commute!(comm_bmap, "BTreeMap<T, U>", BTreeMap, false);
#[cfg(feature = "alloc")]
type BIter<K, V> = btree_map::IntoIter<K, V>;
#[cfg(feature = "alloc")]
std_commute!(comm_bmap_iter, "btree_map::IntoIter<T, U>", BIter, false);
#[cfg(feature = "std")]
use std::collections::HashMap;
#[cfg(feature = "std")]
std_commute!(comm_hmap, "HashMap<T, U>", HashMap, false);

pub fn commuting() -> Vec<fn(u64)> {
    let mut v = crate::derived::commuting();
    v.push(comm_result);
    v.push(comm_cf);
    #[cfg(feature = "alloc")]
    v.extend([comm_bmap as fn(u64), comm_bmap_iter]);
    #[cfg(feature = "std")]
    v.push(comm_hmap);
    v
}
