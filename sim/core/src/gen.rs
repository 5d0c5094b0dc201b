//! Generation of values with a history, and observation of values as model trees.

use crate::node::Node;
use crate::rt::*;
use crate::tok::*;
use core::cell::{Cell, RefCell, UnsafeCell};
use core::marker::PhantomData;
use core::ops::{Bound, ControlFlow, Range, RangeFrom, RangeInclusive, RangeTo, RangeToInclusive};
use core::task::Poll;
use std::fmt::{Debug, Write};

pub trait Gen {
    fn gen() -> Self;
}
pub trait Obs {
    fn obs(&self) -> Node;
}

/// how many elements the next container gets
pub fn len() -> usize {
    let a = top();
    let max = match a.gen_mode {
        0 => 4,
        1 => 12,
        2 => 70,
        3 => 1500,
        4 => 16_000,
        _ => 70_000,
    };
    let mut n = a.tape.draw(max + 1);
    if a.gen_mode >= 3 && n > 0 && a.tape.draw(4) < if a.gen_mode == 3 { 2 } else { 3 } {
        // sizes around powers of two, where growth strategies change
        let (times, power) = match a.gen_mode {
            3 => (1, a.tape.draw(11)),
            4 => (1 + a.tape.draw(4), 8 + a.tape.draw(5)),
            _ => (1, a.tape.draw(17)),
        };
        n = (times << power) - 1 + a.tape.draw(3);
    }
    let n = n.min(a.gen_budget);
    // what lies deeper is smaller
    n as usize
}

/// generates something inside a container of `n` elements
pub fn inner<X>(n: usize, f: impl FnOnce() -> X) -> X {
    let a = top();
    let m = a.gen_mode;
    if n > 2 && m > 1 {
        a.gen_mode = 1;
    }
    let x = f();
    top().gen_mode = m;
    x
}

/// up to `n` elements: as long as there may be more
fn some(n: usize) -> impl Iterator<Item = usize> {
    (0..n).take_while(|_| top().gen_budget > 0)
}

/// In runs that build an equal value differently: how, out of `n` ways.
pub fn relaid(n: u32) -> u32 {
    let a = top();
    if a.layout == 0 {
        return 0;
    }
    a.layout = mix(a.layout, 0x1a70) | 1;
    (a.layout >> 33) as u32 % n
}

pub fn flip(a: u32, b: u32) -> bool {
    top().tape.chance(a, b)
}

struct Null;
impl Write for Null {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

/// the tokens in a value, in the order its `Debug` shows them
pub fn shown(x: &impl Debug) -> Vec<Node> {
    let old = SINK.with(|s| std::mem::take(&mut *s.borrow_mut()));
    let _ = write!(Null, "{x:?}");
    SINK.with(|s| std::mem::replace(&mut *s.borrow_mut(), old))
}

pub fn pairs_of(v: Vec<Node>) -> Vec<(Node, Node)> {
    let mut out = vec![];
    let mut it = v.into_iter();
    while let (Some(k), Some(v)) = (it.next(), it.next()) {
        out.push((k, v));
    }
    out
}

pub fn wf(ok: bool, msg: impl FnOnce() -> String) {
    let a = top();
    if a.obs_check && !ok {
        a.obs_bad.push(msg());
    }
}

macro_rules! lit {
    ($($t:ty),*) => {$(
        impl Gen for $t { fn gen() -> Self { top().tape.draw(100) as $t } }
        impl Obs for $t { fn obs(&self) -> Node { Node::Lit(*self as u64) } }
    )*};
}
lit!(u8, u16, u32, u64, usize, i32, i64);
impl Gen for bool {
    fn gen() -> Self {
        flip(1, 2)
    }
}
impl Obs for bool {
    fn obs(&self) -> Node {
        Node::Lit(*self as u64)
    }
}
impl Gen for char {
    fn gen() -> Self {
        char::from(b'a' + top().tape.draw(26) as u8)
    }
}
impl Obs for char {
    fn obs(&self) -> Node {
        Node::Lit(*self as u64)
    }
}
static POOL: &str = "some text, lorem ipsum dolor sit amet";
pub fn texts() -> [&'static str; 4] {
    [&POOL[0..0], &POOL[3..4], &POOL[0..9], &POOL[11..]]
}
/// which of the shared texts this is: identity, not contents
fn text_id(p: *const u8, len: usize) -> u64 {
    (p as u64).wrapping_sub(POOL.as_ptr() as u64) << 8 | len as u64
}
static NUMBERS: [u32; 3] = [1, 2, 3];
impl Gen for &'static str {
    fn gen() -> Self {
        texts()[top().tape.draw(4) as usize]
    }
}
impl Obs for &str {
    fn obs(&self) -> Node {
        Node::Lit(text_id(self.as_ptr(), self.len()))
    }
}
impl Gen for &'static [u8] {
    fn gen() -> Self {
        texts()[top().tape.draw(4) as usize].as_bytes()
    }
}
impl Obs for &[u8] {
    fn obs(&self) -> Node {
        Node::Lit(text_id(self.as_ptr(), self.len()))
    }
}
impl Gen for &'static u32 {
    fn gen() -> Self {
        &NUMBERS[top().tape.draw(3) as usize]
    }
}
impl Obs for &u32 {
    fn obs(&self) -> Node {
        Node::Lit((*self as *const u32 as u64).wrapping_sub(NUMBERS.as_ptr() as u64))
    }
}
impl Gen for fn(u32) -> u32 {
    fn gen() -> Self {
        fn a(x: u32) -> u32 {
            x + 1
        }
        fn b(x: u32) -> u32 {
            x * 3
        }
        if flip(1, 2) {
            a
        } else {
            b
        }
    }
}
impl Obs for fn(u32) -> u32 {
    fn obs(&self) -> Node {
        Node::Lit(self(1000) as u64)
    }
}
impl Gen for () {
    fn gen() -> Self {}
}
impl Obs for () {
    fn obs(&self) -> Node {
        Node::Lit(0)
    }
}
impl<T> Gen for PhantomData<T> {
    fn gen() -> Self {
        PhantomData
    }
}
impl<T> Obs for PhantomData<T> {
    fn obs(&self) -> Node {
        Node::Lit(0)
    }
}

macro_rules! tuples {
    ($(($($t:ident $i:tt),*))*) => {$(
        impl<$($t: Gen),*> Gen for ($($t,)*) { fn gen() -> Self { in_one_piece::<Self>(); ($($t::gen(),)*) } }
        impl<$($t: Obs),*> Obs for ($($t,)*) {
            fn obs(&self) -> Node { Node::Prod("tuple", vec![$(self.$i.obs()),*]) }
        }
    )*};
}
tuples! {
    (A 0) (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4)
    (A 0, B 1, C 2, D 3, E 4, G 5)
    (A 0, B 1, C 2, D 3, E 4, G 5, H1 6, I 7, J 8, K 9, L 10, M 11)
    (A 0, B 1, C 2, D 3, E 4, G 5, H1 6, I 7, J 8, K 9, L 10, M 11, N 12)
    (A 0, B 1, C 2, D 3, E 4, G 5, H1 6, I 7, J 8, K 9, L 10, M 11, N 12, O 13, P1 14, Q1 15, R 16, S1 17, T 18, U 19)
}

/// notes the size of a value that library code has to move in one piece
pub fn in_one_piece<T>() {
    let a = top();
    a.inline = a.inline.max(size_of::<T>());
}

impl<T: Gen, const N: usize> Gen for [T; N] {
    fn gen() -> Self {
        in_one_piece::<Self>();
        inner(N, || core::array::from_fn(|_| T::gen()))
    }
}
impl<T: Obs, const N: usize> Obs for [T; N] {
    fn obs(&self) -> Node {
        Node::Prod("array", self.iter().map(Obs::obs).collect())
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen() -> Self {
        flip(3, 4).then(T::gen)
    }
}
impl<T: Obs> Obs for Option<T> {
    fn obs(&self) -> Node {
        match self {
            None => Node::Prod("None", vec![]),
            Some(x) => Node::Prod("Some", vec![x.obs()]),
        }
    }
}
impl<T: Gen, E: Gen> Gen for Result<T, E> {
    fn gen() -> Self {
        if flip(1, 2) {
            Ok(T::gen())
        } else {
            Err(E::gen())
        }
    }
}
impl<T: Obs, E: Obs> Obs for Result<T, E> {
    fn obs(&self) -> Node {
        match self {
            Ok(x) => Node::Prod("Ok", vec![x.obs()]),
            Err(x) => Node::Prod("Err", vec![x.obs()]),
        }
    }
}
impl<B: Gen, C: Gen> Gen for ControlFlow<B, C> {
    fn gen() -> Self {
        if flip(1, 2) {
            ControlFlow::Break(B::gen())
        } else {
            ControlFlow::Continue(C::gen())
        }
    }
}
impl<B: Obs, C: Obs> Obs for ControlFlow<B, C> {
    fn obs(&self) -> Node {
        match self {
            ControlFlow::Break(x) => Node::Prod("Break", vec![x.obs()]),
            ControlFlow::Continue(x) => Node::Prod("Continue", vec![x.obs()]),
        }
    }
}
impl<T: Gen> Gen for Bound<T> {
    fn gen() -> Self {
        match top().tape.draw(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(T::gen()),
            _ => Bound::Excluded(T::gen()),
        }
    }
}
impl<T: Obs> Obs for Bound<T> {
    fn obs(&self) -> Node {
        match self {
            Bound::Unbounded => Node::Prod("Unbounded", vec![]),
            Bound::Included(x) => Node::Prod("Included", vec![x.obs()]),
            Bound::Excluded(x) => Node::Prod("Excluded", vec![x.obs()]),
        }
    }
}
impl<T: Gen> Gen for Poll<T> {
    fn gen() -> Self {
        if flip(3, 4) {
            Poll::Ready(T::gen())
        } else {
            Poll::Pending
        }
    }
}
impl<T: Obs> Obs for Poll<T> {
    fn obs(&self) -> Node {
        match self {
            Poll::Pending => Node::Prod("Pending", vec![]),
            Poll::Ready(x) => Node::Prod("Ready", vec![x.obs()]),
        }
    }
}
impl<T: Gen> Gen for Cell<T> {
    fn gen() -> Self {
        let c = Cell::new(T::gen());
        if flip(1, 8) {
            c.set(T::gen());
        }
        c
    }
}
impl<T: Obs> Obs for Cell<T> {
    fn obs(&self) -> Node {
        Node::Prod("Cell", vec![unsafe { (*self.as_ptr()).obs() }])
    }
}
impl<T: Gen> Gen for UnsafeCell<T> {
    fn gen() -> Self {
        UnsafeCell::new(T::gen())
    }
}
impl<T: Obs> Obs for UnsafeCell<T> {
    fn obs(&self) -> Node {
        Node::Prod("UnsafeCell", vec![unsafe { (*self.get()).obs() }])
    }
}
impl<T: Gen> Gen for RefCell<T> {
    fn gen() -> Self {
        let c = RefCell::new(T::gen());
        if flip(1, 6) {
            // a forgotten borrow: the cell is permanently borrowed, but owned
            std::mem::forget(c.borrow_mut());
        }
        c
    }
}
impl<T: Obs> Obs for RefCell<T> {
    fn obs(&self) -> Node {
        let n = unsafe { (*self.as_ptr()).obs() };
        // (a cell that was not mapped may still be borrowed)
        if top().obs_check && n.hits() > 0 {
            wf(self.try_borrow_mut().is_ok(), || "the resulting RefCell is borrowed".into());
        }
        Node::Prod("RefCell", vec![n])
    }
}
impl<T: Gen> Gen for Range<T> {
    fn gen() -> Self {
        T::gen()..T::gen()
    }
}
impl<T: Obs> Obs for Range<T> {
    fn obs(&self) -> Node {
        Node::Prod("Range", vec![self.start.obs(), self.end.obs()])
    }
}
impl<T: Gen> Gen for RangeFrom<T> {
    fn gen() -> Self {
        T::gen()..
    }
}
impl<T: Obs> Obs for RangeFrom<T> {
    fn obs(&self) -> Node {
        Node::Prod("RangeFrom", vec![self.start.obs()])
    }
}
impl<T: Gen> Gen for RangeInclusive<T> {
    fn gen() -> Self {
        let s = T::gen();
        s..=T::gen()
    }
}
impl<T: Obs> Obs for RangeInclusive<T> {
    fn obs(&self) -> Node {
        Node::Prod("RangeInclusive", vec![self.start().obs(), self.end().obs()])
    }
}
impl<T: Gen> Gen for RangeTo<T> {
    fn gen() -> Self {
        ..T::gen()
    }
}
impl<T: Obs> Obs for RangeTo<T> {
    fn obs(&self) -> Node {
        Node::Prod("RangeTo", vec![self.end.obs()])
    }
}
impl<T: Gen> Gen for RangeToInclusive<T> {
    fn gen() -> Self {
        ..=T::gen()
    }
}
impl<T: Obs> Obs for RangeToInclusive<T> {
    fn obs(&self) -> Node {
        Node::Prod("RangeToInclusive", vec![self.end.obs()])
    }
}
impl<T: Gen> Gen for core::option::IntoIter<T> {
    fn gen() -> Self {
        let mut it = Option::<T>::gen().into_iter();
        if flip(1, 4) {
            if flip(1, 2) {
                it.next();
            } else {
                it.next_back();
            }
        }
        it
    }
}
impl<T: Leaf> Obs for core::option::IntoIter<T> {
    fn obs(&self) -> Node {
        Node::Prod("option::IntoIter", shown(self))
    }
}
impl<T: Gen> Gen for core::result::IntoIter<T> {
    fn gen() -> Self {
        let mut it = Result::<T, ()>::gen().into_iter();
        if flip(1, 4) {
            if flip(1, 2) {
                it.next();
            } else {
                it.next_back();
            }
        }
        it
    }
}
impl<T: Leaf> Obs for core::result::IntoIter<T> {
    fn obs(&self) -> Node {
        Node::Prod("result::IntoIter", shown(self))
    }
}

pub use with_alloc::*;
mod with_alloc {
    use super::*;
    use std::collections::{
        binary_heap, btree_map, btree_set, linked_list, vec_deque, BTreeMap, BTreeSet, BinaryHeap,
        LinkedList, VecDeque,
    };

    pub fn gen_vec<T: Gen>(n: usize) -> Vec<T> {
        inner(n, || {
            let mut v = Vec::with_capacity(n);
            v.extend(some(n).map(|_| T::gen()));
            v
        })
    }

    impl<T: Gen> Gen for Box<T> {
        fn gen() -> Self {
            Box::new(T::gen())
        }
    }
    impl<T: Obs> Obs for Box<T> {
        fn obs(&self) -> Node {
            Node::Prod("Box", vec![(**self).obs()])
        }
    }
    impl Gen for String {
        fn gen() -> Self {
            texts()[top().tape.draw(4) as usize].to_string()
        }
    }
    impl Obs for String {
        fn obs(&self) -> Node {
            Node::Lit(self.bytes().fold(9, |a, b| mix(a, b as u64)))
        }
    }
    impl<T: Gen> Gen for Vec<T> {
        fn gen() -> Self {
            let n = len();
            let mut v = gen_vec(n);
            let n = v.len();
            match top().tape.draw(5) {
                1 => v.reserve_exact(top().tape.draw(40) as usize),
                2 => v.shrink_to_fit(),
                3 if n > 1 => {
                    let k = top().tape.draw(n as u32) as usize;
                    drop(v.remove(k));
                }
                4 => v.truncate(top().tape.draw(n as u32 + 1) as usize),
                _ => {}
            }
            match relaid(5) {
                1 => v.reserve_exact(v.len() * 2 + 20),
                2 => v.shrink_to_fit(),
                3 => v.reserve(1 + relaid(9) as usize),
                _ => {}
            }
            v
        }
    }
    impl<T: Obs> Obs for Vec<T> {
        fn obs(&self) -> Node {
            wf(self.capacity() >= self.len(), || "capacity below length".into());
            Node::Prod("Vec", self.iter().map(Obs::obs).collect())
        }
    }
    impl<T: Gen> Gen for VecDeque<T> {
        fn gen() -> Self {
            let n = len();
            let mut d: VecDeque<T> = VecDeque::new();
            inner(n, || {
                for _ in some(n) {
                    let x = T::gen();
                    if flip(1, 3) {
                        d.push_front(x);
                    } else {
                        d.push_back(x);
                    }
                }
            });
            let n = d.len();
            match top().tape.draw(5) {
                1 => d.reserve(top().tape.draw(40) as usize),
                2 if n > 0 => {
                    let k = top().tape.draw(n as u32) as usize;
                    d.rotate_left(k);
                }
                3 => {
                    for _ in 0..top().tape.draw(n as u32 + 1) {
                        if flip(1, 2) {
                            drop(d.pop_front());
                        } else if let Some(x) = d.pop_front() {
                            d.push_back(x);
                        }
                    }
                }
                4 => d.shrink_to_fit(),
                _ => {}
            }
            match relaid(5) {
                1 => d.reserve_exact(d.len() * 2 + 20),
                2 => d.shrink_to_fit(),
                // the same items from another place of the buffer on
                k @ 3.. => {
                    if k == 3 {
                        d.reserve(1 + relaid(9) as usize);
                    }
                    let mut e = VecDeque::with_capacity(d.capacity());
                    if let Some(x) = d.pop_front() {
                        e.push_back(x);
                        // (a deque of zero-sized items has room for any number)
                        for _ in 0..relaid(e.capacity().min(1 << 17) as u32) {
                            let x = e.pop_front().unwrap();
                            e.push_back(x);
                        }
                    }
                    e.extend(d);
                    d = e;
                }
                _ => {}
            }
            d
        }
    }
    impl<T: Obs> Obs for VecDeque<T> {
        fn obs(&self) -> Node {
            if top().obs_check {
                let (a, b) = self.as_slices();
                wf(a.len() + b.len() == self.len(), || "slices do not add up".into());
            }
            Node::Prod("VecDeque", self.iter().map(Obs::obs).collect())
        }
    }
    impl<T: Gen> Gen for LinkedList<T> {
        fn gen() -> Self {
            let n = len();
            let mut d: LinkedList<T> = LinkedList::new();
            inner(n, || {
                for _ in some(n) {
                    let x = T::gen();
                    if flip(1, 3) {
                        d.push_front(x);
                    } else {
                        d.push_back(x);
                    }
                }
            });
            let n = d.len();
            match top().tape.draw(3) {
                1 if n > 0 => {
                    let k = top().tape.draw(n as u32) as usize;
                    let mut t = d.split_off(k);
                    t.append(&mut d);
                    d = t;
                }
                2 => drop(d.pop_front()),
                _ => {}
            }
            if relaid(3) == 1 {
                let mut e = LinkedList::new();
                while let Some(x) = d.pop_back() {
                    e.push_front(x);
                }
                d = e;
            }
            d
        }
    }
    impl<T: Obs> Obs for LinkedList<T> {
        fn obs(&self) -> Node {
            if top().obs_check {
                wf(self.len() == self.iter().count() && self.len() == self.iter().rev().count(), || {
                    "list length wrong".into()
                });
            }
            Node::Prod("LinkedList", self.iter().map(Obs::obs).collect())
        }
    }
    impl<T: Gen + Ord> Gen for BinaryHeap<T> {
        fn gen() -> Self {
            let n = len();
            let mut h: BinaryHeap<T> = if flip(1, 2) {
                gen_vec(n).into()
            } else {
                let mut h = BinaryHeap::new();
                for _ in some(n) {
                    h.push(T::gen());
                }
                h
            };
            for _ in 0..top().tape.draw(4).saturating_sub(1) {
                drop(h.pop());
            }
            match relaid(3) {
                1 => h.reserve_exact(h.len() * 2 + 20),
                2 => h.shrink_to_fit(),
                _ => {}
            }
            h
        }
    }
    impl<T: Leaf> Obs for BinaryHeap<T> {
        fn obs(&self) -> Node {
            if top().obs_check {
                // parent >= children, in the order `iter` shows the backing array
                let k: Vec<u16> = self.iter().map(|x| x.key()).collect();
                for i in 1..k.len() {
                    wf(k[(i - 1) / 2] >= k[i], || format!("heap order broken at {i}"));
                }
                wf(self.peek().map(|x| x.key()) == k.iter().max().copied(), || "peek is not the greatest".into());
            }
            Node::Heap(self.iter().map(Obs::obs).collect())
        }
    }
    impl<T: Leaf> Gen for BTreeSet<T> {
        fn gen() -> Self {
            let n = len();
            top().has_tree = true;
            let mut s = BTreeSet::new();
            let mut last = None;
            for _ in some(n) {
                let x = T::gen();
                if flip(1, 10) {
                    last = Some(x);
                } else {
                    s.insert(x);
                }
            }
            if let Some(x) = last {
                s.remove(&x);
            }
            // nodes filled differently
            match relaid(3) {
                1 => s.into_iter().collect(),
                2 => {
                    let mut r = BTreeSet::new();
                    s.into_iter().rev().for_each(|x| drop(r.insert(x)));
                    r
                }
                _ => s,
            }
        }
    }
    fn ascending<T: Leaf>(what: &str, it: impl Iterator<Item = u16>, n: usize) {
        let k: Vec<u16> = it.collect();
        wf(k.len() == n, || format!("{what}: len() is {n} but {} are iterated", k.len()));
        if let Some(i) = (1..k.len()).find(|i| k[i - 1] >= k[*i]) {
            wf(false, || format!("{what}: key {} comes before {}", k[i - 1], k[i]));
        }
    }
    impl<T: Leaf> Obs for BTreeSet<T> {
        fn obs(&self) -> Node {
            if top().obs_check {
                ascending::<T>("BTreeSet", self.iter().map(|x| x.key()), self.len());
                for x in self {
                    wf(self.get(x).map(|y| y.id()) == Some(x.id()), || "an element is not found".into());
                }
            }
            Node::OSet(self.iter().map(Obs::obs).collect())
        }
    }
    impl<K: Leaf, V: Gen> Gen for BTreeMap<K, V> {
        fn gen() -> Self {
            let n = len();
            top().has_tree = true;
            let mut m = BTreeMap::new();
            let mut last = None;
            inner(n, || {
                for _ in some(n) {
                    let k = K::gen();
                    if flip(1, 10) {
                        last = Some(k);
                    } else {
                        m.insert(k, V::gen());
                    }
                }
            });
            if let Some(k) = last {
                m.remove(&k);
            }
            match relaid(3) {
                1 => m.into_iter().collect(),
                2 => {
                    let mut r = BTreeMap::new();
                    m.into_iter().rev().for_each(|(k, v)| drop(r.insert(k, v)));
                    r
                }
                _ => m,
            }
        }
    }
    impl<K: Leaf, V: Obs> Obs for BTreeMap<K, V> {
        fn obs(&self) -> Node {
            if top().obs_check {
                ascending::<K>("BTreeMap", self.keys().map(|x| x.key()), self.len());
                for k in self.keys() {
                    wf(self.get_key_value(k).map(|(y, _)| y.id()) == Some(k.id()), || "a key is not found".into());
                }
            }
            Node::OMap(self.iter().map(|(k, v)| (k.obs(), v.obs())).collect())
        }
    }

    /// takes some items from either end
    pub fn sip<I: DoubleEndedIterator>(it: &mut I, n: usize) {
        if n == 0 || !flip(2, 3) {
            return;
        }
        for _ in 0..top().tape.draw(n as u32 + 2) {
            if flip(1, 2) {
                drop(it.next());
            } else {
                drop(it.next_back());
            }
        }
    }

    macro_rules! iters {
        ($($m:ident $c:ident $name:literal $again:expr, $node:expr, [$($b:tt)*];)*) => {$(
            impl<T: Gen + $($b)*> Gen for $m::IntoIter<T> {
                fn gen() -> Self {
                    let c = $c::<T>::gen();
                    let n = c.len();
                    let mut it = c.into_iter();
                    sip(&mut it, n);
                    $again(it)
                }
            }
            impl<T: Leaf> Obs for $m::IntoIter<T> {
                fn obs(&self) -> Node {
                    let v = shown(self);
                    wf(self.len() == v.len(), || format!("{}: len() is {} but {} remain", $name, self.len(), v.len()));
                    let f: fn(Vec<Node>) -> Node = $node;
                    f(v)
                }
            }
        )*};
    }
    use std::vec;
    /// the same items, with another number of items taken before
    fn consumed<T>(it: vec::IntoIter<T>) -> vec::IntoIter<T> {
        if relaid(2) == 0 || it.len() == 0 {
            return it;
        }
        let (n, k, back) = (it.len(), relaid(9) as usize, relaid(9) as usize);
        let mut v: Vec<T> = Vec::with_capacity(k + n + back);
        // SAFETY: what is duplicated is taken out again and forgotten
        unsafe {
            let at: *mut T = v.as_mut_ptr();
            at.add(k).copy_from_nonoverlapping(it.as_slice().as_ptr(), n);
            it.for_each(std::mem::forget);
            for i in (0..k).chain(k + n..k + n + back) {
                at.add(i).copy_from_nonoverlapping(at.add(k), 1);
            }
            v.set_len(k + n + back);
        }
        let mut it = v.into_iter();
        (0..k).for_each(|_| std::mem::forget(it.next()));
        (0..back).for_each(|_| std::mem::forget(it.next_back()));
        it
    }
    fn again_vec_deque<T>(it: vec_deque::IntoIter<T>) -> vec_deque::IntoIter<T> {
        match relaid(2) {
            1 => it.collect::<VecDeque<_>>().into_iter(),
            _ => it,
        }
    }
    fn again_linked_list<T>(it: linked_list::IntoIter<T>) -> linked_list::IntoIter<T> {
        match relaid(2) {
            1 => it.collect::<LinkedList<_>>().into_iter(),
            _ => it,
        }
    }
    fn again_btree_set<T: Ord>(it: btree_set::IntoIter<T>) -> btree_set::IntoIter<T> {
        match relaid(2) {
            1 => it.collect::<BTreeSet<_>>().into_iter(),
            _ => it,
        }
    }
    iters! {
        vec Vec "vec::IntoIter" consumed, |v| Node::Prod("vec::IntoIter", v), [];
        vec_deque VecDeque "vec_deque::IntoIter" again_vec_deque, |v| Node::Prod("vec_deque::IntoIter", v), [];
        linked_list LinkedList "linked_list::IntoIter" again_linked_list, |v| Node::Prod("linked_list::IntoIter", v), [];
        btree_set BTreeSet "btree_set::IntoIter" again_btree_set, |v| { sorted_shown(&v); Node::OSet(v) }, [Leaf];
    }
    fn sorted_shown(v: &[Node]) {
        let k: Vec<u16> = v.iter().map(crate::node::key_of).collect();
        if let Some(i) = (1..k.len()).find(|i| k[i - 1] >= k[*i]) {
            wf(false, || format!("iterator: key {} comes before {}", k[i - 1], k[i]));
        }
    }
    impl<T: Leaf> Gen for binary_heap::IntoIter<T> {
        fn gen() -> Self {
            let c = BinaryHeap::<T>::gen();
            let n = c.len();
            let mut it = c.into_iter();
            sip(&mut it, n);
            it
        }
    }
    impl<T: Leaf> Obs for binary_heap::IntoIter<T> {
        fn obs(&self) -> Node {
            let v = shown(self);
            wf(self.len() == v.len(), || "len() of heap iterator wrong".into());
            Node::Heap(v)
        }
    }
    impl<K: Leaf, V: Gen> Gen for btree_map::IntoIter<K, V> {
        fn gen() -> Self {
            let c = BTreeMap::<K, V>::gen();
            let n = c.len();
            let mut it = c.into_iter();
            sip(&mut it, n);
            it
        }
    }
    impl<K: Leaf, V: Leaf> Obs for btree_map::IntoIter<K, V> {
        fn obs(&self) -> Node {
            let v = pairs_of(shown(self));
            wf(self.len() == v.len(), || "len() of map iterator wrong".into());
            let k: Vec<Node> = v.iter().map(|p| p.0.clone()).collect();
            sorted_shown(&k);
            Node::OMap(v)
        }
    }
}

pub use with_std::*;
mod with_std {
    use super::*;
    use std::collections::{hash_map, hash_set, HashMap, HashSet};
    use std::hash::{BuildHasher, Hasher};

    /// a hasher chosen by the user: deterministic
    #[derive(Default, Clone)]
    pub struct Det;
    pub struct DetHasher(u64);
    impl Hasher for DetHasher {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = mix(self.0, *x as u64);
            }
        }
    }
    impl BuildHasher for Det {
        type Hasher = DetHasher;
        fn build_hasher(&self) -> DetHasher {
            DetHasher(3)
        }
    }

    impl<K: Leaf, V: Gen, S: BuildHasher + Default> Gen for HashMap<K, V, S> {
        fn gen() -> Self {
            let n = len();
            let mut m = HashMap::with_hasher(S::default());
            if flip(1, 4) {
                m.reserve(top().tape.draw(60) as usize);
            }
            let mut last = None;
            inner(n, || {
                for _ in some(n) {
                    let k = K::gen();
                    if flip(1, 10) {
                        last = Some(k);
                    } else {
                        m.insert(k, V::gen());
                    }
                }
            });
            if let Some(k) = last {
                m.remove(&k);
            }
            m
        }
    }
    impl<K: Leaf, V: Obs, S: BuildHasher> Obs for HashMap<K, V, S> {
        fn obs(&self) -> Node {
            if top().obs_check {
                let mut seen: Vec<u16> = self.keys().map(|k| k.key()).collect();
                wf(seen.len() == self.len(), || "HashMap: len() wrong".into());
                seen.sort_unstable();
                wf(seen.windows(2).all(|w| w[0] != w[1]), || "HashMap: equal keys".into());
                for k in self.keys() {
                    wf(self.get_key_value(k).map(|(y, _)| y.id()) == Some(k.id()), || {
                        "HashMap: a key is not found".into()
                    });
                }
            }
            Node::HMap(self.iter().map(|(k, v)| (k.obs(), v.obs())).collect())
        }
    }
    impl<T: Leaf, S: BuildHasher + Default> Gen for HashSet<T, S> {
        fn gen() -> Self {
            let n = len();
            let mut s = HashSet::with_hasher(S::default());
            let mut last = None;
            for _ in some(n) {
                let x = T::gen();
                if flip(1, 10) {
                    last = Some(x);
                } else {
                    s.insert(x);
                }
            }
            if let Some(x) = last {
                s.remove(&x);
            }
            s
        }
    }
    impl<T: Leaf, S: BuildHasher> Obs for HashSet<T, S> {
        fn obs(&self) -> Node {
            if top().obs_check {
                let mut seen: Vec<u16> = self.iter().map(|k| k.key()).collect();
                wf(seen.len() == self.len(), || "HashSet: len() wrong".into());
                seen.sort_unstable();
                wf(seen.windows(2).all(|w| w[0] != w[1]), || "HashSet: equal elements".into());
                for k in self {
                    wf(self.get(k).map(|y| y.id()) == Some(k.id()), || "HashSet: an element is not found".into());
                }
            }
            Node::HSet(self.iter().map(Obs::obs).collect())
        }
    }
    fn sip_front<I: Iterator>(it: &mut I, n: usize) {
        // (what a hash table yields first depends on its hash seed)
        if n == 0 || !flip(2, 3) || top().order_free {
            return;
        }
        for _ in 0..top().tape.draw(n as u32 + 2) {
            drop(it.next());
        }
    }
    impl<T: Leaf> Gen for hash_set::IntoIter<T> {
        fn gen() -> Self {
            let c = HashSet::<T>::gen();
            let n = c.len();
            let mut it = c.into_iter();
            sip_front(&mut it, n);
            it
        }
    }
    impl<T: Leaf> Obs for hash_set::IntoIter<T> {
        fn obs(&self) -> Node {
            let v = shown(self);
            wf(self.len() == v.len(), || "len() of set iterator wrong".into());
            Node::HSet(v)
        }
    }
    impl<K: Leaf, V: Gen> Gen for hash_map::IntoIter<K, V> {
        fn gen() -> Self {
            let c = HashMap::<K, V>::gen();
            let n = c.len();
            let mut it = c.into_iter();
            sip_front(&mut it, n);
            it
        }
    }
    impl<K: Leaf, V: Leaf> Obs for hash_map::IntoIter<K, V> {
        fn obs(&self) -> Node {
            let v = pairs_of(shown(self));
            wf(self.len() == v.len(), || "len() of map iterator wrong".into());
            Node::HMap(v)
        }
    }
}
