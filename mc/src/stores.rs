//! The storage kinds, behind one interface.
use crate::engine::choose;
use crate::guard::{slots, Placed};
use crate::lib;
use crate::spy::Spy;
use crate::tok::{Elem, C1, C2, C4, C8, T2, T24, T8};
use generic_vec::raw::{Storage, UninitBuffer, UninitSlice};
use generic_vec::GenericVec;

static LONG: crate::engine::Racy<u8> = crate::engine::Racy::new(0);

/// From here to the end of the execution: buffers for many elements, and only the most telling places in them.
pub fn long() { *LONG.g() = 1 }
pub fn is_long() -> bool { *LONG.g() > 0 }
/// The same for hundreds and more than a thousand elements, with fewer places.
pub fn huge() { *LONG.g() = 2 }
pub fn is_huge() -> bool { *LONG.g() > 1 }
pub fn reset() { *LONG.g() = 0 }

/// Lengths on both sides of what implementations like to treat as large.
pub const LENGTHS: &[usize] = &[33, 40, 65, 130];
/// for `huge`
pub const HUGE: &[usize] = &[1030, 300];
/// the same for elements whose identity is a byte
pub const LENGTHS1: &[usize] = &[33, 65, 100];

/// What is known about a storage from outside.
#[derive(Clone, Copy, Debug)]
pub struct Kind {
    pub name: &'static str,
    /// the fixed capacity, if it is fixed (and elements are not zero-sized)
    pub cap: Option<usize>,
    /// capacity available right after construction
    pub initial: usize,
}

/// A check that works over every storage.
pub trait Body<E: Elem> {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind);
}

fn go<E: Elem, S: Storage<E>, B: Body<E>>(b: &B, name: &'static str, fixed: bool, v: GenericVec<E, S>) {
    let initial = v.capacity();
    let cap = if fixed && !E::ZST { Some(initial) } else { None };
    crate::log!("{} over {} capacity {:?}", E::NAME, name, cap);
    let mut p = Placed::new(v);
    b.run(&mut *p, Kind { name, cap, initial });
    drop(p);
}

/// Growable storages. Chooses one.
pub fn growable<E: Elem, B: Body<E>>(b: &B) {
    #[cfg(feature = "alloc")]
    let n = 4;
    #[cfg(not(feature = "alloc"))]
    let n = 2;
    let many = is_long();
    match choose(n) {
        0 => go(b, "spy", false, GenericVec::with_storage(Spy::<E>::new(if many { 32 } else { 0 }, usize::MAX))),
        1 => go(b, "spy(3)", false, GenericVec::with_storage(Spy::<E>::new(if is_huge() { 1200 } else if many { 200 } else { 3 }, usize::MAX))),
        #[cfg(feature = "alloc")]
        2 => go(b, "heap", false, generic_vec::HeapVec::<E>::new()),
        #[cfg(feature = "alloc")]
        3 => {
            let c = crate::pick(if is_huge() { &[1030usize] } else if many { &[65, 160] } else { &[2, 5] });
            go(b, "heap with_capacity", false, lib(|| generic_vec::HeapVec::<E>::with_capacity(c)))
        }
        _ => crate::engine::fatal("bad store"),
    }
}

/// Bodies that run over elements of the sizes that are not used elsewhere.
pub trait Sizes: Body<T2> + Body<T8> + Body<T24> + Body<C1> + Body<C2> + Body<C4> + Body<C8> {}
impl<B: Body<T2> + Body<T8> + Body<T24> + Body<C1> + Body<C2> + Body<C4> + Body<C8>> Sizes for B {}

/// One growable storage of elements of 1, 2, 4, 8 and 24 bytes.
pub fn sizes<B: Sizes>(b: &B) {
    fn one<E: Elem, B: Body<E>>(b: &B) { go(b, E::NAME, false, GenericVec::with_storage(Spy::<E>::new(3, usize::MAX))) }
    match choose(7) {
        0 => one::<C8, _>(b),
        1 => one::<C2, _>(b),
        2 => one::<T8, _>(b),
        3 => one::<T2, _>(b),
        4 => one::<C4, _>(b),
        5 => one::<C1, _>(b),
        _ => one::<T24, _>(b),
    }
}

/// Storages for zero-sized elements. Chooses one.
pub fn zero<E: Elem, B: Body<E>>(b: &B) {
    match choose(if cfg!(feature = "alloc") { 3 } else { 2 }) {
        0 => go(b, "spy", false, GenericVec::with_storage(Spy::<E>::new(0, usize::MAX))),
        1 => go(b, "zero-sized", false, generic_vec::ZSVec::<E>::new()),
        #[cfg(feature = "alloc")]
        2 => go(b, "heap", false, generic_vec::HeapVec::<E>::new()),
        _ => crate::engine::fatal("bad store"),
    }
}

/// Fixed-capacity storages with small capacities. Chooses one.
pub fn fixed<E: Elem, B: Body<E>>(b: &B) {
    if is_long() {
        return match choose(2) {
            0 => {
                let c = crate::pick(if is_huge() { &[1030usize, 1200] } else { &[33, 70, 160] });
                go(b, "slice", true, generic_vec::SliceVec::new(slots::<E>(c)))
            }
            _ => {
                let c = if is_huge() { 1031 } else { 66 };
                go(b, "fixed spy", true, GenericVec::with_storage(Spy::<E>::new(c, c)))
            }
        }
    }
    match choose(4) {
        0 => {
            let c = crate::pick(&[3usize, 0, 1, 4, 6]);
            go(b, "slice", true, generic_vec::SliceVec::new(slots::<E>(c)))
        }
        1 => match choose(2) {
            0 => go(b, "array", true, generic_vec::TypeVec::<E, [E; 4]>::new()),
            _ => go(b, "array", true, generic_vec::TypeVec::<E, [E; 1]>::new()),
        },
        2 => {
            let c = crate::pick(&[3usize, 5]);
            go(b, "fixed spy", true, GenericVec::with_storage(Spy::<E>::new(c, c)))
        }
        _ => fixed_ref(b),
    }
}

/// A borrowed inline buffer.
pub fn fixed_ref<E: Elem, B: Body<E>>(b: &B) {
    let mut s = Placed::new(UninitBuffer::<[E; 3], E>::uninit());
    go(b, "&mut buffer", true, GenericVec::<E, &mut UninitBuffer<[E; 3], E>>::with_storage(&mut *s));
}

/// Storages behind other storages. Chooses one.
pub fn wrapped<E: Elem, B: Body<E>>(b: &B) {
    #[cfg(feature = "alloc")]
    let n = 7;
    #[cfg(not(feature = "alloc"))]
    let n = 3;
    match choose(n) {
        0 => {
            let mut s = Placed::new(Spy::<E>::new(1, usize::MAX));
            go(b, "&mut spy", false, GenericVec::<E, &mut Spy<E>>::with_storage(&mut *s));
        }
        1 => fixed_ref(b),
        2 => {
            let mut s = UninitSlice::from_mut(slots::<E>(4));
            go(b, "&mut &mut slice", true, GenericVec::<E, &mut &mut UninitSlice<E>>::with_storage(&mut s))
        }
        #[cfg(feature = "alloc")]
        3 => go(b, "Box<spy>", false, lib(|| GenericVec::<E, Box<Spy<E>>>::with_storage(Box::new(Spy::new(2, usize::MAX))))),
        #[cfg(feature = "alloc")]
        4 => go(b, "Box<heap>", false, lib(|| GenericVec::<E, Box<generic_vec::raw::Heap<E>>>::with_capacity(1))),
        #[cfg(feature = "alloc")]
        5 => go(b, "Box<buffer>", true, lib(|| GenericVec::<E, Box<UninitBuffer<[E; 4], E>>>::with_capacity(3))),
        #[cfg(feature = "alloc")]
        6 => {
            let mut s = Placed::new(generic_vec::raw::Heap::<E>::new());
            go(b, "&mut heap", false, GenericVec::<E, &mut generic_vec::raw::Heap<E>>::with_storage(&mut *s));
        }
        _ => crate::engine::fatal("bad store"),
    }
}

/// Storages made for another slot type. Chooses one. `E` must have alignment at most 8.
pub fn reinterpreted<E: Elem, B: Body<E>>(b: &B) {
    #[cfg(feature = "alloc")]
    let n = 5;
    #[cfg(not(feature = "alloc"))]
    let n = 3;
    match choose(n) {
        0 => {
            let c = crate::pick(if is_huge() { &[2200usize] } else if is_long() { &[15, 40, 70] } else { &[5, 0, 1, 4] });
            let s: &mut UninitSlice<u64> = UninitSlice::from_mut(slots::<u64>(c));
            go(b, "slice of u64", true, GenericVec::<E, &mut UninitSlice<u64>>::with_storage(s))
        }
        1 => go(b, "[u64; 7]", true, generic_vec::TypeVec::<E, [u64; 7], u64>::with_align()),
        2 => go(b, "[u8; 50] aligned to u64", true, generic_vec::TypeVec::<E, [u8; 50], u64>::with_align()),
        #[cfg(feature = "alloc")]
        3 => go(b, "heap of u64", false, GenericVec::<E, generic_vec::raw::Heap<u64>>::with_storage(Default::default())),
        #[cfg(feature = "alloc")]
        4 => {
            let c = crate::pick(&[1usize, 3]);
            go(b, "heap of [u64; 3]", false, lib(|| GenericVec::<E, generic_vec::raw::Heap<[u64; 3]>>::with_capacity(c)))
        }
        _ => crate::engine::fatal("bad store"),
    }
}

/// Storages over initialised plain data, emptied first. Chooses one.
pub fn plain<E: Elem + Copy + Default, B: Body<E>>(b: &B) {
    match choose(if is_long() { 1 } else { 3 }) {
        0 => {
            let c = crate::pick(if is_huge() { &[1031usize] } else if is_long() { &[33, 66] } else { &[3, 0, 1, 5] });
            let buf = slots::<E>(c);
            let old = E::mk(7);
            for x in buf.iter_mut() {
                unsafe { x.as_mut_ptr().write(old) }
            }
            let s = unsafe { &mut *(buf as *mut _ as *mut [E]) };
            let mut v = generic_vec::InitSliceVec::new(s);
            v.clear();
            go(b, "plain slice", true, v)
        }
        1 => go(b, "plain array", true, GenericVec::<E, [E; 4]>::default()),
        _ => {
            let mut p = Placed::new(GenericVec::<E, [E; 5]>::default());
            let v: &mut GenericVec<E, [E]> = &mut *p;
            b.run(v, Kind { name: "plain unsized array", cap: if E::ZST { None } else { Some(5) }, initial: v.capacity() });
        }
    }
}

/// A check that is given the vector itself, over a storage it may move or release.
pub trait Taker<E: Elem> {
    fn take<S: Storage<E>>(&self, v: GenericVec<E, S>, k: Kind);
}

fn give<E: Elem, S: Storage<E>, B: Taker<E>>(b: &B, name: &'static str, fixed: bool, v: GenericVec<E, S>) {
    let initial = v.capacity();
    let cap = if fixed && !E::ZST { Some(initial) } else { None };
    crate::log!("{} over {} capacity {:?}", E::NAME, name, cap);
    b.take(v, Kind { name, cap, initial });
}

/// Vectors that own their storage, growable ones. Chooses one.
pub fn own_growable<E: Elem, B: Taker<E>>(b: &B) {
    #[cfg(feature = "alloc")]
    let n = 4;
    #[cfg(not(feature = "alloc"))]
    let n = 1;
    match choose(n) {
        0 => give(b, "spy", false, GenericVec::with_storage(Spy::<E>::new(if is_long() { 40 } else { 2 }, usize::MAX))),
        #[cfg(feature = "alloc")]
        1 => give(b, "heap", false, generic_vec::HeapVec::<E>::new()),
        #[cfg(feature = "alloc")]
        2 => give(b, "Box<spy>", false, lib(|| GenericVec::<E, Box<Spy<E>>>::with_storage(Box::new(Spy::new(2, usize::MAX))))),
        #[cfg(feature = "alloc")]
        3 => give(b, "Box<heap>", false, lib(|| GenericVec::<E, Box<generic_vec::raw::Heap<E>>>::with_capacity(1))),
        _ => crate::engine::fatal("bad store"),
    }
}

/// Vectors that own or borrow a buffer of fixed size. Chooses one.
pub fn own_fixed<E: Elem, B: Taker<E>>(b: &B) {
    if is_long() {
        return match choose(2) {
            0 => give(b, "slice", true, generic_vec::SliceVec::new(slots::<E>(if is_huge() { 1100 } else { 70 }))),
            _ => {
                let c = if is_huge() { 1031 } else { 160 };
                give(b, "fixed spy", true, GenericVec::with_storage(Spy::<E>::new(c, c)))
            },
        }
    }
    #[cfg(feature = "alloc")]
    let n = 5;
    #[cfg(not(feature = "alloc"))]
    let n = 4;
    match choose(n) {
        0 => give(b, "array", true, generic_vec::TypeVec::<E, [E; 5]>::new()),
        1 => give(b, "slice", true, generic_vec::SliceVec::new(slots::<E>(4))),
        2 => give(b, "fixed spy", true, GenericVec::with_storage(Spy::<E>::new(3, 3))),
        3 => {
            let mut s = Placed::new(UninitBuffer::<[E; 3], E>::uninit());
            give(b, "&mut buffer", true, GenericVec::<E, &mut UninitBuffer<[E; 3], E>>::with_storage(&mut *s));
        }
        #[cfg(feature = "alloc")]
        4 => give(b, "Box<buffer>", true, lib(|| GenericVec::<E, Box<UninitBuffer<[E; 4], E>>>::with_capacity(3))),
        _ => crate::engine::fatal("bad store"),
    }
}

/// Vectors over storages made for another slot type. Chooses one.
pub fn own_elsewhere<E: Elem, B: Taker<E>>(b: &B) {
    #[cfg(feature = "alloc")]
    let n = 3;
    #[cfg(not(feature = "alloc"))]
    let n = 2;
    match choose(n) {
        0 => give(b, "[u64; 7]", true, generic_vec::TypeVec::<E, [u64; 7], u64>::with_align()),
        1 => give(b, "slice of u64", true, GenericVec::<E, &mut UninitSlice<u64>>::with_storage(UninitSlice::from_mut(slots::<u64>(if is_huge() { 2200 } else if is_long() { 70 } else { 4 })))),
        #[cfg(feature = "alloc")]
        2 => give(b, "heap of u64", false, GenericVec::<E, generic_vec::raw::Heap<u64>>::with_storage(Default::default())),
        _ => crate::engine::fatal("bad store"),
    }
}

/// Vectors over initialised plain data, emptied first. Chooses one.
pub fn own_plain<E: Elem + Copy + Default, B: Taker<E>>(b: &B) {
    match choose(if is_long() { 1 } else { 2 }) {
        0 => {
            let buf = slots::<E>(if is_huge() { 1031 } else if is_long() { 66 } else { 5 });
            let old = E::mk(7);
            for x in buf.iter_mut() {
                unsafe { x.as_mut_ptr().write(old) }
            }
            let mut v = generic_vec::InitSliceVec::new(unsafe { &mut *(buf as *mut _ as *mut [E]) });
            v.clear();
            give(b, "plain slice", true, v)
        }
        _ => give(b, "plain array", true, GenericVec::<E, [E; 4]>::default()),
    }
}

/// Vectors of zero-sized elements. Chooses one.
pub fn own_zero<E: Elem, B: Taker<E>>(b: &B) {
    match choose(3) {
        0 => give(b, "zero-sized", false, generic_vec::ZSVec::<E>::new()),
        1 => give(b, "array", false, generic_vec::TypeVec::<E, [E; 2]>::new()),
        _ => give(b, "zero-sized at the limit", false, GenericVec::with_storage(generic_vec::raw::ZeroSized::<E>::default())),
    }
}
