//! Every implementation the library provides for types of core, alloc and std, and the table of everything
//! that can be simulated.

use crate::fam::*;
use crate::node::Node;
use crate::tok::*;
use core::cell::{Cell, RefCell, UnsafeCell};
use core::marker::PhantomData;
use core::ops::{Bound, ControlFlow, Range, RangeFrom, RangeInclusive, RangeTo, RangeToInclusive};
use core::task::Poll;

pub struct Entry {
    pub info: &'static Info,
    pub ops: &'static [(&'static str, fn(&OpCx))],
    pub ident: Option<fn(&OpCx)>,
    /// the types may be the same at each stage, or of different kinds
    pub fuse: &'static [fn(bool)],
}

#[macro_export]
macro_rules! fam {
    ($F:ident, $name:expr, $tier:expr, $flags:expr, $T:ident => $ty:ty, $p:literal) => {
        $crate::fam!($F, $name, $tier, $flags, $T => $ty, $p, |v, _seen| { let _ = v; });
    };
    ($F:ident, $name:expr, $tier:expr, $flags:expr, $T:ident => $ty:ty, $p:literal, |$v:ident, $seen:ident| $fin:expr) => {
        pub struct $F;
        impl $crate::fam::Family for $F {
            const INFO: $crate::fam::Info = $crate::fam::Info::new($name, $tier).flags($flags);
            type Of<$T: $crate::tok::Leaf> = $ty;
            type Out<$T: $crate::tok::Leaf> = $ty;
            $crate::fam!(@methods $p);
            fn finish<$T: $crate::tok::Leaf>($v: Self::Out<$T>, $seen: &$crate::node::Node) { $fin }
            fn again<$T: $crate::tok::Leaf>(v: Self::Out<$T>) -> Self::Of<$T> { v }
        }
    };
    (@methods $p:literal) => {
        fn fm<A: $crate::tok::Leaf, B: $crate::tok::Leaf>(v: Self::Of<A>, f: $crate::tok::Fun<A, B>) -> Self::Out<B> {
            ::funcmap::FuncMap::<A, B, ::funcmap::TypeParam<$p>>::func_map(v, f)
        }
        fn fmo<A: $crate::tok::Leaf, B: $crate::tok::Leaf>(v: Self::Of<A>, f: $crate::tok::Fun<A, B>) -> Self::Out<B> {
            ::funcmap::FuncMap::<A, B, ::funcmap::TypeParam<$p>>::func_map_over::<::funcmap::TypeParam<$p>, _>(v, f)
        }
        fn tm<A: $crate::tok::Leaf, B: $crate::tok::Leaf, E: $crate::tok::Leaf>(v: Self::Of<A>, f: $crate::tok::Try<A, B, E>) -> Result<Self::Out<B>, E> {
            ::funcmap::TryFuncMap::<A, B, ::funcmap::TypeParam<$p>>::try_func_map(v, f)
        }
        fn tmo<A: $crate::tok::Leaf, B: $crate::tok::Leaf, E: $crate::tok::Leaf>(v: Self::Of<A>, f: $crate::tok::Try<A, B, E>) -> Result<Self::Out<B>, E> {
            ::funcmap::TryFuncMap::<A, B, ::funcmap::TypeParam<$p>>::try_func_map_over::<::funcmap::TypeParam<$p>, _, _>(v, f)
        }
    };
}

/// table entry: which element types the family is simulated with
#[macro_export]
macro_rules! entry {
    ($F:ty, full) => {
        $crate::fams::Entry {
            info: &<$F as $crate::fam::Family>::INFO,
            ops: &[
                ("S>S", $crate::fam::op::<$F, S, S>),
                ("S>F", $crate::fam::op::<$F, S, F>),
                ("F>S", $crate::fam::op_err::<$F, F, S, ErrP>),
                ("F>F", $crate::fam::op_err::<$F, F, F, ErrU>),
                ("S>Z", $crate::fam::op::<$F, S, Z>),
                ("Z>S", $crate::fam::op::<$F, Z, S>),
                ("Z>Z", $crate::fam::op::<$F, Z, Z>),
                ("H>S", $crate::fam::op::<$F, H, S>),
                ("S>H", $crate::fam::op::<$F, S, H>),
                ("P>S", $crate::fam::op::<$F, P, S>),
                ("S>P", $crate::fam::op::<$F, S, P>),
                ("P>H", $crate::fam::op::<$F, P, H>),
                ("S>G", $crate::fam::op_err::<$F, S, G, ErrBig>),
                ("G>Q", $crate::fam::op::<$F, G, Q>),
                ("G>G", $crate::fam::op_err::<$F, G, G, ErrU>),
                ("Q>S", $crate::fam::op_err::<$F, Q, S, ErrU>),
                ("P>P", $crate::fam::op_err::<$F, P, P, ErrP>),
                ("S>O", $crate::fam::op::<$F, S, O>),
                ("O>P", $crate::fam::op::<$F, O, P>),
                ("W>Y", $crate::fam::op::<$F, W, Y>),
                ("Y>W", $crate::fam::op::<$F, Y, W>),
            ],
            ident: Some($crate::fam::op::<$F, S, S>),
            fuse: &[$crate::laws::fusion::<$F, S, S, S>, $crate::laws::fusion::<$F, S, S, F>, $crate::laws::fusion::<$F, S, F, S>, $crate::laws::fusion::<$F, P, S, H>, $crate::laws::fusion::<$F, G, S, S>],
        }
    };
    ($F:ty, three) => {
        $crate::fams::Entry {
            info: &<$F as $crate::fam::Family>::INFO,
            ops: &[
                ("S>S", $crate::fam::op::<$F, S, S>),
                ("S>F", $crate::fam::op::<$F, S, F>),
                ("H>Z", $crate::fam::op::<$F, H, Z>),
                ("P>H", $crate::fam::op::<$F, P, H>),
            ],
            ident: Some($crate::fam::op::<$F, S, S>),
            fuse: &[$crate::laws::fusion::<$F, S, S, S>, $crate::laws::fusion::<$F, S, S, F>, $crate::laws::fusion::<$F, H, P, S>],
        }
    };
    ($F:ty, lean) => {
        $crate::fams::Entry {
            info: &<$F as $crate::fam::Family>::INFO,
            ops: &[("S>S", $crate::fam::op::<$F, S, S>)],
            ident: Some($crate::fam::op::<$F, S, S>),
            fuse: &[],
        }
    };
    ($F:ty, one) => {
        $crate::fams::Entry {
            info: &<$F as $crate::fam::Family>::INFO,
            ops: &[("S>S", $crate::fam::op::<$F, S, S>)],
            ident: Some($crate::fam::op::<$F, S, S>),
            fuse: &[$crate::laws::fusion::<$F, S, S, S>],
        }
    };
    ($F:ty, big) => {
        $crate::fams::Entry {
            info: &<$F as $crate::fam::Family>::INFO,
            ops: &[
                ("S>S", $crate::fam::op::<$F, S, S>),
                ("S>F", $crate::fam::op::<$F, S, F>),
                ("F>S", $crate::fam::op::<$F, F, S>),
                ("Z>Z", $crate::fam::op::<$F, Z, Z>),
                ("P>P", $crate::fam::op::<$F, P, P>),
                ("S>O", $crate::fam::op::<$F, S, O>),
                ("W>Y", $crate::fam::op::<$F, W, Y>),
            ],
            ident: Some($crate::fam::op::<$F, S, S>),
            fuse: &[$crate::laws::fusion::<$F, S, S, S>, $crate::laws::fusion::<$F, S, S, F>],
        }
    };
    ($F:ty, keyed) => {
        $crate::fams::Entry {
            info: &<$F as $crate::fam::Family>::INFO,
            ops: &[
                ("S>S", $crate::fam::op::<$F, S, S>),
                ("S>F", $crate::fam::op::<$F, S, F>),
                ("F>S", $crate::fam::op::<$F, F, S>),
                ("S>Z", $crate::fam::op::<$F, S, Z>),
                ("H>S", $crate::fam::op::<$F, H, S>),
                ("S>H", $crate::fam::op::<$F, S, H>),
                ("P>S", $crate::fam::op::<$F, P, S>),
                ("S>P", $crate::fam::op::<$F, S, P>),
                ("P>P", $crate::fam::op::<$F, P, P>),
                ("O>S", $crate::fam::op::<$F, O, S>),
                ("S>Q", $crate::fam::op::<$F, S, Q>),
                ("W>Y", $crate::fam::op::<$F, W, Y>),
            ],
            ident: Some($crate::fam::op::<$F, S, S>),
            fuse: &[$crate::laws::fusion::<$F, S, S, S>, $crate::laws::fusion::<$F, S, S, F>, $crate::laws::fusion::<$F, S, F, S>, $crate::laws::fusion::<$F, P, S, H>],
        }
    };
    ($F:ty, custom) => {
        $crate::fams::Entry {
            info: &<$F as $crate::fam::Family>::INFO,
            ops: &[("S>S", $crate::fam::op::<$F, S, S>), ("S>F", $crate::fam::op::<$F, S, F>)],
            ident: Some($crate::fam::op::<$F, S, S>),
            fuse: &[],
        }
    };
}

// core
fam!(Arr0, "[T; 0]", 0, "", T => [T; 0], 0);
fam!(Arr1, "[T; 1]", 0, "", T => [T; 1], 0);
fam!(Arr2, "[T; 2]", 0, "", T => [T; 2], 0);
fam!(Arr3, "[T; 3]", 0, "", T => [T; 3], 0);
fam!(Arr4, "[T; 4]", 0, "", T => [T; 4], 0);
fam!(Arr5, "[T; 5]", 0, "", T => [T; 5], 0);
fam!(Arr7, "[T; 7]", 0, "", T => [T; 7], 0);
fam!(Arr8, "[T; 8]", 0, "", T => [T; 8], 0);
fam!(Arr9, "[T; 9]", 0, "", T => [T; 9], 0);
fam!(Arr16, "[T; 16]", 0, "", T => [T; 16], 0);
fam!(Arr17, "[T; 17]", 0, "", T => [T; 17], 0);
fam!(Arr33, "[T; 33]", 0, "", T => [T; 33], 0);
fam!(Arr65, "[T; 65]", 0, "", T => [T; 65], 0);
fam!(Arr130, "[T; 130]", 0, "", T => [T; 130], 0);
fam!(Arr300, "[T; 300]", 0, "", T => [T; 300], 0);
fam!(Arr1100, "[T; 1100]", 0, "", T => [T; 1100], 0);
fam!(Arr6, "[T; 6]", 0, "", T => [T; 6], 0);
fam!(Arr10, "[T; 10]", 0, "", T => [T; 10], 0);
fam!(Arr11, "[T; 11]", 0, "", T => [T; 11], 0);
fam!(Arr12, "[T; 12]", 0, "", T => [T; 12], 0);
fam!(Arr13, "[T; 13]", 0, "", T => [T; 13], 0);
fam!(Arr14, "[T; 14]", 0, "", T => [T; 14], 0);
fam!(Arr15, "[T; 15]", 0, "", T => [T; 15], 0);
fam!(Arr18, "[T; 18]", 0, "", T => [T; 18], 0);
fam!(Arr20, "[T; 20]", 0, "", T => [T; 20], 0);
fam!(Arr24, "[T; 24]", 0, "", T => [T; 24], 0);
fam!(Arr25, "[T; 25]", 0, "", T => [T; 25], 0);
fam!(Arr28, "[T; 28]", 0, "", T => [T; 28], 0);
fam!(Arr30, "[T; 30]", 0, "", T => [T; 30], 0);
fam!(Arr31, "[T; 31]", 0, "", T => [T; 31], 0);
fam!(Arr32, "[T; 32]", 0, "", T => [T; 32], 0);
fam!(Arr34, "[T; 34]", 0, "", T => [T; 34], 0);
fam!(Arr40, "[T; 40]", 0, "", T => [T; 40], 0);
fam!(Arr48, "[T; 48]", 0, "", T => [T; 48], 0);
fam!(Arr50, "[T; 50]", 0, "", T => [T; 50], 0);
fam!(Arr63, "[T; 63]", 0, "", T => [T; 63], 0);
fam!(Arr64, "[T; 64]", 0, "", T => [T; 64], 0);
fam!(Arr66, "[T; 66]", 0, "", T => [T; 66], 0);
fam!(Arr96, "[T; 96]", 0, "", T => [T; 96], 0);
fam!(Arr100, "[T; 100]", 0, "", T => [T; 100], 0);
fam!(Arr127, "[T; 127]", 0, "", T => [T; 127], 0);
fam!(Arr128, "[T; 128]", 0, "", T => [T; 128], 0);
fam!(Arr129, "[T; 129]", 0, "", T => [T; 129], 0);
fam!(Arr192, "[T; 192]", 0, "", T => [T; 192], 0);
fam!(Arr200, "[T; 200]", 0, "", T => [T; 200], 0);
fam!(Arr255, "[T; 255]", 0, "", T => [T; 255], 0);
fam!(Arr256, "[T; 256]", 0, "", T => [T; 256], 0);
fam!(Arr257, "[T; 257]", 0, "", T => [T; 257], 0);
fam!(Arr400, "[T; 400]", 0, "", T => [T; 400], 0);
fam!(Arr500, "[T; 500]", 0, "", T => [T; 500], 0);
fam!(Arr511, "[T; 511]", 0, "", T => [T; 511], 0);
fam!(Arr512, "[T; 512]", 0, "", T => [T; 512], 0);
fam!(Arr513, "[T; 513]", 0, "", T => [T; 513], 0);
fam!(Arr600, "[T; 600]", 0, "", T => [T; 600], 0);
fam!(Arr700, "[T; 700]", 0, "", T => [T; 700], 0);
fam!(Arr768, "[T; 768]", 0, "", T => [T; 768], 0);
fam!(Arr800, "[T; 800]", 0, "", T => [T; 800], 0);
fam!(Arr900, "[T; 900]", 0, "", T => [T; 900], 0);
fam!(Arr1000, "[T; 1000]", 0, "", T => [T; 1000], 0);
fam!(Arr1023, "[T; 1023]", 0, "", T => [T; 1023], 0);
fam!(Arr1024, "[T; 1024]", 0, "", T => [T; 1024], 0);
fam!(Arr1025, "[T; 1025]", 0, "", T => [T; 1025], 0);
fam!(Arr1500, "[T; 1500]", 0, "", T => [T; 1500], 0);
fam!(Arr2000, "[T; 2000]", 0, "", T => [T; 2000], 0);
fam!(Arr2047, "[T; 2047]", 0, "", T => [T; 2047], 0);
fam!(Arr2048, "[T; 2048]", 0, "", T => [T; 2048], 0);
fam!(Arr2049, "[T; 2049]", 0, "", T => [T; 2049], 0);
fam!(Arr3000, "[T; 3000]", 0, "", T => [T; 3000], 0);
fam!(Arr4095, "[T; 4095]", 0, "", T => [T; 4095], 0);
fam!(Arr4096, "[T; 4096]", 0, "", T => [T; 4096], 0);
fam!(Arr4097, "[T; 4097]", 0, "", T => [T; 4097], 0);
fam!(Arr5000, "[T; 5000]", 0, "", T => [T; 5000], 0);
fam!(Arr8192, "[T; 8192]", 0, "", T => [T; 8192], 0);
fam!(Arr10000, "[T; 10000]", 0, "", T => [T; 10000], 0);
fam!(OptionF, "Option<T>", 0, "", T => Option<T>, 0);
fam!(BoundF, "Bound<T>", 0, "", T => Bound<T>, 0);
fam!(CellF, "Cell<T>", 0, "", T => Cell<T>, 0);
fam!(RefCellF, "RefCell<T>", 0, "", T => RefCell<T>, 0);
fam!(UnsafeCellF, "UnsafeCell<T>", 0, "", T => UnsafeCell<T>, 0);
fam!(PhantomF, "PhantomData<T>", 0, "", T => PhantomData<T>, 0);
fam!(PollF, "Poll<T>", 0, "", T => Poll<T>, 0);
fam!(RangeF, "Range<T>", 0, "", T => Range<T>, 0);
fam!(RangeFromF, "RangeFrom<T>", 0, "", T => RangeFrom<T>, 0);
fam!(RangeInclusiveF, "RangeInclusive<T>", 0, "", T => RangeInclusive<T>, 0);
fam!(RangeToF, "RangeTo<T>", 0, "", T => RangeTo<T>, 0);
fam!(RangeToInclusiveF, "RangeToInclusive<T>", 0, "", T => RangeToInclusive<T>, 0);
fam!(ControlFlow0, "ControlFlow<T, _>", 0, "p", T => ControlFlow<T, Kp>, 0);
fam!(ControlFlow1, "ControlFlow<_, T>", 0, "p", T => ControlFlow<Kp, T>, 1);
fam!(Result0, "Result<T, _>", 0, "p", T => Result<T, Kp>, 0);
fam!(Result1, "Result<_, T>", 0, "p", T => Result<Kp, T>, 1);
fam!(OptIter, "option::IntoIter<T>", 0, "i", T => core::option::IntoIter<T>, 0,
    |v, seen| drain(v, |x| vec![x.id()], seen));
fam!(ResIter, "result::IntoIter<T>", 0, "i", T => core::result::IntoIter<T>, 0,
    |v, seen| drain(v, |x| vec![x.id()], seen));

#[cfg(feature = "alloc")]
pub mod al {
    use super::*;
    use std::collections::*;
    fam!(BoxF, "Box<T>", 1, "", T => Box<T>, 0);
    fam!(VecF, "Vec<T>", 1, "", T => Vec<T>, 0, |v, seen| drain(v.into_iter(), |x| vec![x.id()], seen));
    fam!(VecIter, "vec::IntoIter<T>", 1, "i", T => std::vec::IntoIter<T>, 0,
        |v, seen| drain(v, |x| vec![x.id()], seen));
    fam!(DequeF, "VecDeque<T>", 1, "", T => VecDeque<T>, 0, |v, seen| drain(v.into_iter(), |x| vec![x.id()], seen));
    fam!(DequeIter, "vec_deque::IntoIter<T>", 1, "i", T => vec_deque::IntoIter<T>, 0,
        |v, seen| drain(v, |x| vec![x.id()], seen));
    fam!(ListF, "LinkedList<T>", 1, "", T => LinkedList<T>, 0, |v, seen| drain(v.into_iter(), |x| vec![x.id()], seen));
    fam!(ListIter, "linked_list::IntoIter<T>", 1, "i", T => linked_list::IntoIter<T>, 0,
        |v, seen| drain(v, |x| vec![x.id()], seen));
    fam!(HeapF, "BinaryHeap<T>", 1, "k", T => BinaryHeap<T>, 0, |v, _seen| heap_down(v));
    fam!(HeapIter, "binary_heap::IntoIter<T>", 1, "ik", T => binary_heap::IntoIter<T>, 0,
        |v, seen| drain(v, |x| vec![x.id()], seen));
    fam!(BSetF, "BTreeSet<T>", 1, "k", T => BTreeSet<T>, 0, |v, seen| drain(v.into_iter(), |x| vec![x.id()], seen));
    fam!(BSetIter, "btree_set::IntoIter<T>", 1, "ik", T => btree_set::IntoIter<T>, 0,
        |v, seen| drain(v, |x| vec![x.id()], seen));
    fam!(BMap0, "BTreeMap<T, _>", 1, "kp", T => BTreeMap<T, Kp>, 0,
        |v, seen| drain(v.into_iter(), |x| vec![x.0.id(), x.1.id()], seen));
    fam!(BMap1, "BTreeMap<_, T>", 1, "p", T => BTreeMap<Kp, T>, 1,
        |v, seen| drain(v.into_iter(), |x| vec![x.0.id(), x.1.id()], seen));
    fam!(BMapIter0, "btree_map::IntoIter<T, _>", 1, "ikp", T => btree_map::IntoIter<T, Kp>, 0,
        |v, seen| drain(v, |x| vec![x.0.id(), x.1.id()], seen));
    fam!(BMapIter1, "btree_map::IntoIter<_, T>", 1, "ip", T => btree_map::IntoIter<Kp, T>, 1,
        |v, seen| drain(v, |x| vec![x.0.id(), x.1.id()], seen));

    pub fn heap_down<T: Leaf>(mut h: BinaryHeap<T>) {
        let mut last: Option<u16> = None;
        while let Some(x) = h.pop() {
            if last.is_some_and(|l| x.key() > l) {
                crate::rt::top().viol_as("WF", true, false, "BinaryHeap<T>", "heap does not yield in descending order".into());
            }
            last = Some(x.key());
        }
    }
}

#[cfg(feature = "std")]
pub mod st {
    use super::*;
    use crate::gen::Det;
    use std::collections::*;
    fam!(HSetF, "HashSet<T>", 2, "kh", T => HashSet<T>, 0);
    fam!(HSetIter, "hash_set::IntoIter<T>", 2, "ikh", T => hash_set::IntoIter<T>, 0,
        |v, seen| drain_front(v, |x| vec![x.id()], seen));
    fam!(HMap0, "HashMap<T, _>", 2, "khp", T => HashMap<T, Kp>, 0);
    fam!(HMap1, "HashMap<_, T>", 2, "hp", T => HashMap<Kp, T>, 1);
    fam!(HMapIter0, "hash_map::IntoIter<T, _>", 2, "ikhp", T => hash_map::IntoIter<T, Kp>, 0,
        |v, seen| drain_front(v, |x| vec![x.0.id(), x.1.id()], seen));
    fam!(HMapIter1, "hash_map::IntoIter<_, T>", 2, "ihp", T => hash_map::IntoIter<Kp, T>, 1,
        |v, seen| drain_front(v, |x| vec![x.0.id(), x.1.id()], seen));
    macro_rules! custom {
        ($F:ident, $name:expr, $flags:expr, $T:ident => $of:ty, $out:ty, $p:literal) => {
            pub struct $F;
            impl Family for $F {
                const INFO: Info = Info::new($name, 2).flags($flags);
                type Of<$T: Leaf> = $of;
                type Out<$T: Leaf> = $out;
                fam!(@methods $p);
                fn again<$T: Leaf>(_: Self::Out<$T>) -> Self::Of<$T> { unreachable!() }
            }
        };
    }
    custom!(HSetC, "HashSet<T, S>", "kc", T => HashSet<T, Det>, <HashSet<T, Det> as funcmap::FuncMap<T, T>>::Output, 0);
    custom!(HMapC0, "HashMap<T, _, S>", "kcp", T => HashMap<T, Kp, Det>,
        <HashMap<T, Kp, Det> as funcmap::FuncMap<T, T, funcmap::TypeParam<0>>>::Output, 0);
    custom!(HMapC1, "HashMap<_, T, S>", "cp", T => HashMap<Kp, T, Det>,
        <HashMap<Kp, T, Det> as funcmap::FuncMap<T, T, funcmap::TypeParam<1>>>::Output, 1);
}

pub fn table() -> Vec<Entry> {
    let mut t = vec![
        entry!(Arr0, one),
        entry!(Arr1, full),
        entry!(Arr2, full),
        entry!(Arr3, full),
        entry!(Arr4, one),
        entry!(Arr5, full),
        entry!(Arr7, one),
        entry!(Arr8, full),
        entry!(Arr9, one),
        entry!(Arr16, one),
        entry!(Arr17, big),
        entry!(Arr33, big),
        entry!(Arr65, one),
        entry!(Arr130, big),
        entry!(Arr300, one),
        entry!(Arr1100, big),
        entry!(Arr6, lean),
        entry!(Arr10, lean),
        entry!(Arr11, lean),
        entry!(Arr12, lean),
        entry!(Arr13, lean),
        entry!(Arr14, lean),
        entry!(Arr15, lean),
        entry!(Arr18, lean),
        entry!(Arr20, lean),
        entry!(Arr24, lean),
        entry!(Arr25, lean),
        entry!(Arr28, lean),
        entry!(Arr30, lean),
        entry!(Arr31, lean),
        entry!(Arr32, lean),
        entry!(Arr34, lean),
        entry!(Arr40, lean),
        entry!(Arr48, lean),
        entry!(Arr50, lean),
        entry!(Arr63, lean),
        entry!(Arr64, lean),
        entry!(Arr66, lean),
        entry!(Arr96, lean),
        entry!(Arr100, lean),
        entry!(Arr127, lean),
        entry!(Arr128, lean),
        entry!(Arr129, lean),
        entry!(Arr192, lean),
        entry!(Arr200, lean),
        entry!(Arr255, lean),
        entry!(Arr256, lean),
        entry!(Arr257, lean),
        entry!(Arr400, lean),
        entry!(Arr500, lean),
        entry!(Arr511, lean),
        entry!(Arr512, lean),
        entry!(Arr513, lean),
        entry!(Arr600, lean),
        entry!(Arr700, lean),
        entry!(Arr768, lean),
        entry!(Arr800, lean),
        entry!(Arr900, lean),
        entry!(Arr1000, lean),
        entry!(Arr1023, lean),
        entry!(Arr1024, lean),
        entry!(Arr1025, lean),
        entry!(Arr1500, lean),
        entry!(Arr2000, lean),
        entry!(Arr2047, lean),
        entry!(Arr2048, lean),
        entry!(Arr2049, lean),
        entry!(Arr3000, lean),
        entry!(Arr4095, lean),
        entry!(Arr4096, lean),
        entry!(Arr4097, lean),
        entry!(Arr5000, lean),
        entry!(Arr8192, lean),
        entry!(Arr10000, lean),
        entry!(OptionF, full),
        entry!(BoundF, full),
        entry!(CellF, full),
        entry!(RefCellF, full),
        entry!(UnsafeCellF, full),
        entry!(PhantomF, one),
        entry!(PollF, full),
        entry!(RangeF, full),
        entry!(RangeFromF, full),
        entry!(RangeInclusiveF, full),
        entry!(RangeToF, full),
        entry!(RangeToInclusiveF, full),
        entry!(ControlFlow0, full),
        entry!(ControlFlow1, full),
        entry!(Result0, full),
        entry!(Result1, full),
        entry!(OptIter, full),
        entry!(ResIter, full),
    ];
    crate::derived::add(&mut t, 0);
    #[cfg(feature = "alloc")]
    {
        use al::*;
        t.extend([
            entry!(BoxF, full),
            entry!(VecF, full),
            entry!(VecIter, full),
            entry!(DequeF, full),
            entry!(DequeIter, full),
            entry!(ListF, full),
            entry!(ListIter, full),
            entry!(HeapF, keyed),
            entry!(HeapIter, keyed),
            entry!(BSetF, keyed),
            entry!(BSetIter, keyed),
            entry!(BMap0, keyed),
            entry!(BMap1, full),
            entry!(BMapIter0, keyed),
            entry!(BMapIter1, full),
        ]);
        crate::derived::add(&mut t, 1);
    }
    #[cfg(feature = "std")]
    {
        use st::*;
        t.extend([
            entry!(HSetF, keyed),
            entry!(HSetIter, keyed),
            entry!(HMap0, keyed),
            entry!(HMap1, full),
            entry!(HMapIter0, keyed),
            entry!(HMapIter1, full),
            entry!(HSetC, custom),
            entry!(HMapC0, custom),
            entry!(HMapC1, custom),
        ]);
        crate::derived::add(&mut t, 2);
    }
    let _ = Node::Lit(0);
    t
}
