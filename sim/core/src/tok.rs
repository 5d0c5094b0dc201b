//! Element types the simulator hands to the library: every value has an identity, and dropping, comparing,
//! hashing and passing it to the closure are events.

use crate::node::{Id, Node, ANON};
use crate::rt::*;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

/// An element type for the mapped parameter.
pub trait Leaf: Sized + 'static + Ord + Hash + fmt::Debug + crate::gen::Gen + crate::gen::Obs {
    const KIND: Kind;
    const ZST: bool = false;
    fn make(key: u16, tag: Option<u64>) -> Self;
    fn id(&self) -> Id;
    fn key(&self) -> u16;
    fn integrity(&self) {}
    /// gives the value away without a drop event
    fn consume(self);
}

fn consumed(id: Id) {
    let a = top();
    let l = (id & 0xfffff) as usize;
    if id == ANON {
        // counted elsewhere
    } else if id >> 20 == a.serial && l < a.toks.len() && a.toks[l].live {
        a.toks[l].live = false;
    } else {
        a.viol("USE_AFTER", format!("a value that is not alive was passed on (id {id:#x})"));
    }
}

const MAGIC: u16 = 0x6b1d;

macro_rules! token {
    ($name:ident, $kind:expr, { $($body:tt)* }, $mk:expr, $id:expr, $key:expr, $chk:expr) => {
        $($body)*
        impl Leaf for $name {
            const KIND: Kind = $kind;
            fn make(key: u16, tag: Option<u64>) -> Self {
                let _o = Out::enter();
                let id = top().new_tok($kind, key, tag);
                top().ev(Ev::New(id & 0xfffff, key));
                let f: fn(Id, u16) -> $name = $mk;
                f(id, key)
            }
            fn id(&self) -> Id {
                let f: fn(&$name) -> Id = $id;
                f(self)
            }
            fn key(&self) -> u16 {
                let f: fn(&$name) -> u16 = $key;
                f(self)
            }
            fn integrity(&self) {
                let f: fn(&$name) -> bool = $chk;
                if !f(self) {
                    bad_token(concat!("a ", stringify!($name), " value is corrupted or uninitialised"), self.id());
                }
            }
            fn consume(self) {
                consumed(self.id());
                let me = std::mem::ManuallyDrop::new(self);
                unsafe { $name::release(&me) };
            }
        }
        token!(@ord $name);
    };
    (@drop $name:ident) => {
        impl Drop for $name {
            fn drop(&mut self) {
                self.integrity();
                on_drop(self.id());
            }
        }
    };
    (@ord $name:ident) => {
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                self.integrity();
                o.integrity();
                on_cmp((self.id(), self.key()), (o.id(), o.key()), true) == Ordering::Equal
            }
        }
        impl Eq for $name {}
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> Ordering {
                self.integrity();
                o.integrity();
                on_cmp((self.id(), self.key()), (o.id(), o.key()), false)
            }
        }
        impl Hash for $name {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.integrity();
                let k = on_hash((self.id(), self.key()));
                h.write_u16(k);
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
                let n = crate::gen::Obs::obs(self);
                SINK.with(|s| s.borrow_mut().push(n));
                Ok(())
            }
        }
    };
}

token!(S, Kind::Hit, {
    pub struct S { id: Id, key: u16, magic: u16 }
    impl S { unsafe fn release(_: &std::mem::ManuallyDrop<S>) {} }
}, |id, key| S { id, key, magic: MAGIC ^ key }, |s| s.id, |s| s.key, |s| s.magic == MAGIC ^ s.key);

token!(F, Kind::Hit, {
    /// large and over-aligned
    #[repr(align(64))]
    pub struct F { id: Id, key: u16, pad: [u64; 11], sum: u64 }
    impl F {
        unsafe fn release(_: &std::mem::ManuallyDrop<F>) {}
        fn check(id: Id, key: u16, pad: &[u64; 11]) -> u64 {
            pad.iter().fold(mix(id as u64, key as u64), |a, b| a.rotate_left(7) ^ b)
        }
    }
}, |id, key| {
    let mut pad = [0u64; 11];
    for (i, p) in pad.iter_mut().enumerate() { *p = mix(id as u64, i as u64); }
    F { id, key, sum: F::check(id, key, &pad), pad }
}, |s| s.id, |s| s.key, |s| s.sum == F::check(s.id, s.key, &s.pad) && (s as *const F as usize) % 64 == 0);

token!(Q, Kind::Hit, {
    /// as small as an identity can be
    pub struct Q { id: Id }
    impl Q { unsafe fn release(_: &std::mem::ManuallyDrop<Q>) {} }
}, |id, _| Q { id }, |s| s.id, |s| key_at(s.id), |s| known(s.id));

token!(O, Kind::Hit, {
    /// an odd number of bytes, not aligned
    pub struct O { b: [u8; 7] }
    impl O {
        unsafe fn release(_: &std::mem::ManuallyDrop<O>) {}
        fn number(&self) -> Id { Id::from_le_bytes([self.b[0], self.b[1], self.b[2], self.b[3]]) }
        fn sort(&self) -> u16 { u16::from_le_bytes([self.b[4], self.b[5]]) }
        fn sum(&self) -> u8 { self.b[..6].iter().fold(0x5a, |a, b| a.rotate_left(3) ^ b) }
    }
}, |id, key| {
    let (i, k) = (id.to_le_bytes(), key.to_le_bytes());
    let mut o = O { b: [i[0], i[1], i[2], i[3], k[0], k[1], 0] };
    o.b[6] = o.sum();
    o
}, |s| s.number(), |s| s.sort(), |s| s.b[6] == s.sum());

/// A value of one byte: the number of a slot in which its caller keeps its identity. Without a free slot it has none
/// and is only counted, like one without size.
fn slot(id: Id) -> u8 {
    let a = top();
    let n = a.slots.len() as u32;
    for i in 0..NO_SLOT as u32 {
        let k = (a.next_slot + i) % NO_SLOT as u32;
        if k >= n {
            a.slots.resize(k as usize + 1, ANON);
        }
        if a.slots[k as usize] == ANON {
            a.slots[k as usize] = id;
            a.next_slot = k + 1;
            return k as u8;
        }
    }
    a.toks[(id & 0xfffff) as usize].live = false;
    a.z_live += 1;
    NO_SLOT
}
fn in_slot(n: u8) -> Id {
    if n == NO_SLOT {
        return ANON;
    }
    let a = top();
    match a.slots.get(n as usize) {
        Some(id) if *id != ANON => *id,
        // was released
        _ => a.serial << 20 | 0xfffff,
    }
}
fn free_slot(n: u8) {
    if n == NO_SLOT {
        let a = top();
        a.z_live -= 1;
        if a.z_live < 0 {
            a.viol("USE_AFTER", "more values of one byte passed on than exist".into());
        }
    } else if let Some(id) = top().slots.get_mut(n as usize) {
        *id = ANON;
    }
}
const NO_SLOT: u8 = 255;

token!(Y, Kind::Hit, {
    /// a single byte
    pub struct Y(u8);
    impl Y { unsafe fn release(y: &std::mem::ManuallyDrop<Y>) { free_slot(y.0) } }
}, |id, _| Y(slot(id)), |s| in_slot(s.0), |s| key_at(in_slot(s.0)), |s| known(in_slot(s.0)));
impl Drop for Y {
    fn drop(&mut self) {
        self.integrity();
        if self.0 == NO_SLOT {
            return on_drop_z();
        }
        let id = self.id();
        let _ = top().slots.get_mut(self.0 as usize).map(|x| *x = ANON);
        on_drop(id);
    }
}

token!(W, Kind::Plain, {
    /// a single byte of plain data
    pub struct W(u8);
    impl W { unsafe fn release(w: &std::mem::ManuallyDrop<W>) { if w.0 != NO_SLOT { free_slot(w.0) } } }
}, |id, _| W(plain_slot(id)), |s| in_slot(s.0), |s| key_at(in_slot(s.0)), |s| known(in_slot(s.0)));
fn plain_slot(id: Id) -> u8 {
    let n = slot(id);
    if n == NO_SLOT {
        // (what has no destructor is not counted)
        let a = top();
        a.z_live -= 1;
        a.z_loose = true;
    }
    n
}

fn known(id: Id) -> bool {
    let a = top();
    id >> 20 != a.serial || id == ANON || ((id & 0xfffff) as usize) < a.toks.len()
}
fn key_at(id: Id) -> u16 {
    let a = top();
    if id >> 20 == a.serial && known(id) {
        a.tok(id).map_or(0, |t| t.key)
    } else {
        0
    }
}

token!(G, Kind::Hit, {
    /// very large
    pub struct G { id: Id, key: u16, magic: u16, pad: [u64; 190], tail: (Id, u16) }
    impl G { unsafe fn release(_: &std::mem::ManuallyDrop<G>) {} }
}, |id, key| G { id, key, magic: MAGIC ^ key, pad: [id as u64; 190], tail: (id, key) }, |s| s.id, |s| s.key,
   |s| s.magic == MAGIC ^ s.key && s.tail == (s.id, s.key) && s.pad[3] == s.id as u64 && s.pad[100] == s.id as u64);

token!(ErrBig, Kind::Err, {
    /// a large error
    pub struct ErrBig { id: Id, pad: [u64; 30], key: u16, magic: u16 }
    impl ErrBig { unsafe fn release(_: &std::mem::ManuallyDrop<ErrBig>) {} }
}, |id, key| ErrBig { id, key, magic: MAGIC ^ key, pad: [id as u64; 30] }, |s| s.id, |s| s.key,
   |s| s.magic == MAGIC ^ s.key && s.pad[0] == s.id as u64 && s.pad[29] == s.id as u64);

token!(ErrP, Kind::Plain, {
    /// an error without a destructor
    pub struct ErrP { id: Id, key: u16, magic: u16 }
    impl ErrP { unsafe fn release(_: &std::mem::ManuallyDrop<ErrP>) {} }
}, |id, key| ErrP { id, key, magic: MAGIC ^ key }, |s| s.id, |s| s.key, |s| s.magic == MAGIC ^ s.key);

/// an error that is nothing but the fact of an error
pub struct ErrU;
impl Leaf for ErrU {
    const KIND: Kind = Kind::Plain;
    const ZST: bool = true;
    fn make(_: u16, _: Option<u64>) -> Self {
        ErrU
    }
    fn id(&self) -> Id {
        ANON
    }
    fn key(&self) -> u16 {
        0
    }
    fn consume(self) {}
}
token!(@ord ErrU);

pub struct HBody { id: Id, key: u16, magic: u64 }
token!(H, Kind::Hit, {
    /// owns memory
    pub struct H(Box<HBody>);
    impl H {
        unsafe fn release(h: &std::mem::ManuallyDrop<H>) { drop(std::ptr::read(&h.0)) }
    }
}, |id, key| H(Box::new(HBody { id, key, magic: mix(id as u64, 5) })), |s| s.0.id, |s| s.0.key,
   |s| s.0.magic == mix(s.0.id as u64, 5));

token!(Kp, Kind::Keep, {
    /// a value that does not depend on the mapped parameter
    pub struct Kp { id: Id, key: u16, magic: u16 }
    impl Kp { unsafe fn release(_: &std::mem::ManuallyDrop<Kp>) {} }
}, |id, key| Kp { id, key, magic: MAGIC ^ !key }, |s| s.id, |s| s.key, |s| s.magic == MAGIC ^ !s.key);

token!(ErrTok, Kind::Err, {
    pub struct ErrTok { id: Id, key: u16, magic: u16 }
    impl ErrTok { unsafe fn release(_: &std::mem::ManuallyDrop<ErrTok>) {} }
}, |id, key| ErrTok { id, key, magic: MAGIC ^ key }, |s| s.id, |s| s.key, |s| s.magic == MAGIC ^ s.key);

token!(ClosTok, Kind::Clos, {
    pub struct ClosTok { id: Id, key: u16, magic: u16 }
    impl ClosTok { unsafe fn release(_: &std::mem::ManuallyDrop<ClosTok>) {} }
}, |id, key| ClosTok { id, key, magic: MAGIC ^ key }, |s| s.id, |s| s.key, |s| s.magic == MAGIC ^ s.key);

token!(@drop S);
token!(@drop F);
token!(@drop H);
token!(@drop Kp);
token!(@drop ErrTok);
token!(@drop ErrBig);
token!(@drop Q);
token!(@drop O);
token!(@drop G);
token!(@drop ClosTok);

token!(P, Kind::Plain, {
    /// plain data: nothing happens when it goes away
    pub struct P { id: Id, key: u16, magic: u16 }
    impl P { unsafe fn release(_: &std::mem::ManuallyDrop<P>) {} }
}, |id, key| P { id, key, magic: MAGIC ^ key.rotate_left(3) }, |s| s.id, |s| s.key, |s| s.magic == MAGIC ^ s.key.rotate_left(3));

/// zero-sized, without identity, but counted
pub struct Z(());
impl Leaf for Z {
    const KIND: Kind = Kind::Hit;
    const ZST: bool = true;
    fn make(_: u16, _: Option<u64>) -> Self {
        let _o = Out::enter();
        let a = top();
        a.z_live += 1;
        a.ev(Ev::New(ANON, 0));
        Z(())
    }
    fn id(&self) -> Id {
        ANON
    }
    fn key(&self) -> u16 {
        0
    }
    fn consume(self) {
        std::mem::forget(self);
        let a = top();
        a.z_live -= 1;
        if a.z_live < 0 {
            a.viol("USE_AFTER", "more zero-sized values passed on than exist".into());
        }
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        on_drop_z();
    }
}
token!(@ord Z);

macro_rules! leaf_gen_obs {
    ($($t:ty => $n:expr),*) => {$(
        impl crate::gen::Gen for $t {
            fn gen() -> Self {
                let a = top();
                let r = a.key_range;
                a.gen_budget = a.gen_budget.saturating_sub(1);
                let key = a.tape.draw(r) as u16;
                <$t>::make(key, None)
            }
        }
        impl crate::gen::Obs for $t {
            fn obs(&self) -> Node {
                self.integrity();
                on_use(self.id(), "the result contains or shows a value, a use");
                let f: fn(Id, u16) -> Node = $n;
                f(self.id(), self.key())
            }
        }
    )*};
}
leaf_gen_obs!(S => Node::Hit, P => Node::Hit, Q => Node::Hit, G => Node::Hit, O => Node::Hit, Y => Node::Hit, W => Node::Hit, ErrBig => Node::Keep, ErrP => Node::Keep, ErrU => Node::Keep, F => Node::Hit, H => Node::Hit, Z => Node::Hit, Kp => Node::Keep,
    ErrTok => Node::Keep, ClosTok => Node::Keep);

/// What the closure does with an argument when it succeeds.
pub fn apply<A: Leaf, B: Leaf>(arg: A, mode: KeyMode, n: u32, stage: u64) -> B {
    let (id, key) = (arg.id(), arg.key());
    let a = top();
    let tag = if A::ZST || id == ANON { 0 } else { a.tok(id).map_or(0, |t| t.tag) };
    arg.consume();
    let k = if B::ZST { 0 } else { mode.apply(key, n) };
    B::make(k, Some(mix(tag, stage << 32 | (k as u64) << 8 | 1)))
}

pub fn same<A: 'static, B: 'static>(a: A) -> Option<B> {
    let mut a = Some(a);
    let b = (&mut a as &mut dyn std::any::Any).downcast_mut::<Option<B>>()?;
    b.take()
}

/// The body of every simulated closure.
pub fn call_body<A: Leaf, B: Leaf, E: Leaf>(arg: A, fallible: bool) -> Result<B, E> {
    let _o = Out::enter();
    arg.integrity();
    let (id, key) = (arg.id(), arg.key());
    match on_call(id, key, fallible) {
        Verdict::Panic => {
            if let Some(c) = top().call.as_mut() {
                c.closure_panicked = true;
            }
            throw()
        }
        Verdict::Err => {
            let e = E::make(0, None);
            let a = top();
            a.ev(Ev::Fail(e.id() & 0xfffff));
            if let Some(c) = a.call.as_mut() {
                c.err_any = true;
                if c.err_first.is_none() {
                    c.err_first = Some(e.id());
                }
            }
            drop(arg);
            Err(e)
        }
        Verdict::Go => {
            let (mode, n, ident) = match &top().call {
                Some(c) => (c.keymode, c.calls - 1, c.identity),
                None => (KeyMode::Same, 0, false),
            };
            let b: B = if ident {
                match same::<A, B>(arg) {
                    Some(b) => b,
                    None => unreachable!("harness: identity needs equal types"),
                }
            } else {
                apply::<A, B>(arg, mode, n, 1)
            };
            let (nid, nkey) = (b.id(), b.key());
            if let Some(c) = top().call.as_mut() {
                if id != ANON {
                    c.map.entry(id).or_insert((n as usize, nid, nkey));
                }
                c.produced.push((nid, nkey));
            }
            Ok(b)
        }
    }
}

/// The closures given to the library. (One type of closure per pair of element types: the code generic in it is
/// compiled once for all scenarios.)
pub type Fun<A, B> = Box<dyn FnMut(A) -> B>;
pub type Try<A, B, E = ErrTok> = Box<dyn FnMut(A) -> Result<B, E>>;

pub fn infallible<A: Leaf, B: Leaf>() -> Fun<A, B> {
    let state = ClosTok::make(0, None);
    Box::new(move |a| {
        on_use(state.id(), "closure invocation");
        match call_body::<A, B, ErrTok>(a, false) {
            Ok(b) => b,
            Err(_) => unreachable!("harness: infallible closure failed"),
        }
    })
}

pub fn fallible<A: Leaf, B: Leaf, E: Leaf>() -> Try<A, B, E> {
    let state = ClosTok::make(0, None);
    Box::new(move |a| {
        on_use(state.id(), "closure invocation");
        call_body::<A, B, E>(a, true)
    })
}
