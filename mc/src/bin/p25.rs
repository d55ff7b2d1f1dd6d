//! Histories over storages written by a user, which do what the contract says and nothing more, and over boxed,
//! borrowed and unsized ones.
#![cfg_attr(feature = "nightly", feature(allocator_api))]
use generic_vec::raw::{Storage, StorageInit, UninitBuffer};
use generic_vec::GenericVec;
use mc::guard::{slots, Placed};
use mc::ops::*;
use mc::spy::{self, Spy};
use mc::tok::*;
use mc::walk::{any_array, any_iter, Steps};
use mc::*;
use std::mem::MaybeUninit;

/// A user's storage with its slots inline, which may be unsized.
pub struct Tail<B: ?Sized> {
    /// what an access in front of the slots would hit
    front: [u8; 3],
    slots: B,
}

impl<B> Tail<B> {
    fn new(slots: B) -> Self { Tail { front: [0xA5; 3], slots } }
}

unsafe impl<E> Storage<E> for Tail<[MaybeUninit<E>]> {
    const IS_ALIGNED: bool = true;
    fn capacity(&self) -> usize { self.slots.len() }
    fn as_ptr(&self) -> *const E { self.slots.as_ptr() as *const E }
    fn as_mut_ptr(&mut self) -> *mut E { self.slots.as_mut_ptr() as *mut E }
    fn reserve(&mut self, n: usize) {
        if n > self.slots.len() {
            panic!("the tail is full")
        }
    }
    fn try_reserve(&mut self, n: usize) -> bool { n <= self.slots.len() }
}

unsafe impl<E, const N: usize> Storage<E> for Tail<[MaybeUninit<E>; N]> {
    const IS_ALIGNED: bool = true;
    fn capacity(&self) -> usize { N }
    fn as_ptr(&self) -> *const E { self.slots.as_ptr() as *const E }
    fn as_mut_ptr(&mut self) -> *mut E { self.slots.as_mut_ptr() as *mut E }
    fn reserve(&mut self, n: usize) {
        if n > N {
            panic!("the tail is full")
        }
    }
    fn try_reserve(&mut self, n: usize) -> bool { n <= N }
}

/// The same with slots that are always initialised.
pub struct Full<E: Copy>([E; 4]);
unsafe impl<E: Copy> StorageInit<E> for Full<E> {}
unsafe impl<E: Copy> Storage<E> for Full<E> {
    const IS_ALIGNED: bool = true;
    fn capacity(&self) -> usize { 4 }
    fn as_ptr(&self) -> *const E { self.0.as_ptr() }
    fn as_mut_ptr(&mut self) -> *mut E { self.0.as_mut_ptr() }
    fn reserve(&mut self, n: usize) {
        if n > 4 {
            panic!("all four are in use")
        }
    }
    fn try_reserve(&mut self, n: usize) -> bool { n <= 4 }
}

#[derive(Clone, Copy)]
struct Run {
    depth: usize,
    lens: &'static [usize],
    wide: bool,
    /// iterators and cursors driven in every way; arrays
    iters: bool,
}

impl Run {
    fn go<E: Elem, S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, cap: Option<usize>) {
        let mut m = W::new(if E::ZST { None } else { cap });
        let n = pick(self.lens);
        fill(v, &mut m, n.min(cap.unwrap_or(n)));
        settle("start", v, &mut m);
        for _ in 0..self.depth {
            spy::forget_asked();
            if !self.iters {
                if self.wide && self.depth == 1 { every_op(v, &mut m) } else { any_op(v, &mut m, self.wide) }
            } else if cfg!(feature = "nightly") && flag() {
                any_array(v, &mut m)
            } else {
                any_iter(v, &mut m, Steps { depth: 2, all: true }, false)
            }
            let a = spy::asked();
            check!(a.needless == 0, "the storage was asked for room that it had");
            check!(v.len() <= v.capacity(), "{} elements in a storage of {}", v.len(), v.capacity());
        }
        alloc::check_all()
    }
    fn put<E: Elem, S: Storage<E>>(&self, v: GenericVec<E, S>, cap: Option<usize>) {
        let mut p = Placed::new(v);
        self.go(&mut *p, cap)
    }
}

/// Moves at every reservation, to exactly what was asked or to a little more, up to a limit or without one.
fn moving<E: Elem>(r: Run, limited: bool) {
    let cap = pick(&[0usize, 1, 3]);
    let extra = pick(&[0, 1]);
    let limit = if limited { cap + pick(&[0, 1, 2, 4]) } else { usize::MAX };
    log!("{} in a moving storage of {}, {} granted beyond need, limit {}", E::NAME, cap, extra, limit as isize);
    spy::set_extra(extra);
    if limited { spy::limited() }
    let lim = if limited { Some(limit) } else { None };
    match choose(3) {
        0 => r.put(GenericVec::with_storage(Spy::<E>::new(cap, limit)), lim),
        1 => {
            let mut s = Placed::new(Spy::<E>::new(cap, limit));
            r.put(GenericVec::<E, &mut Spy<E>>::with_storage(&mut *s), lim)
        }
        #[cfg(feature = "alloc")]
        2 => r.put(lib(|| GenericVec::<E, Box<Spy<E>>>::with_storage(Box::new(Spy::new(cap, limit)))), lim),
        _ => (),
    }
}

/// Slots inline in a user's storage.
fn inline<E: Elem>(r: Run) {
    fn empty<E, const N: usize>() -> [MaybeUninit<E>; N] { unsafe { MaybeUninit::<[MaybeUninit<E>; N]>::uninit().assume_init() } }
    log!("{} in a user's inline storage", E::NAME);
    match choose(6) {
        0 => r.put(GenericVec::<E, _>::with_storage(Tail::new(empty::<E, 3>())), Some(3)),
        1 => {
            let mut p = Placed::new(GenericVec::<E, _>::with_storage(Tail::new(empty::<E, 4>())));
            {
                let v: &mut GenericVec<E, Tail<[MaybeUninit<E>]>> = &mut *p;
                r.go(v, Some(4));
            }
            // the rest of the storage is as it was
            let (n, s) = must("into_raw_parts", || p.take().into_raw_parts());
            check!(s.front == [0xA5; 3], "the storage was written to outside its slots");
            let v = unsafe { GenericVec::<E, Tail<[MaybeUninit<E>; 4]>>::from_raw_parts(n, s) };
            mc::lib(|| drop(v))
        }
        2 => {
            let mut s = Placed::new(Tail::new(empty::<E, 2>()));
            {
                let s: &mut Tail<[MaybeUninit<E>]> = &mut *s;
                r.put(GenericVec::<E, &mut Tail<[MaybeUninit<E>]>>::with_storage(s), Some(2));
            }
            check!(s.front == [0xA5; 3], "the storage was written to outside its slots")
        }
        3 => {
            let mut p = Placed::new(GenericVec::<E, _>::with_storage(UninitBuffer::<[E; 4], E>::uninit()));
            r.go(&mut *p, Some(4))
        }
        #[cfg(feature = "alloc")]
        4 => {
            let b: Box<Tail<[MaybeUninit<E>]>> = lib(|| Box::new(Tail::new(empty::<E, 5>())));
            r.put(GenericVec::<E, Box<Tail<[MaybeUninit<E>]>>>::with_storage(b), Some(5))
        }
        #[cfg(feature = "alloc")]
        5 => {
            let mut p = Placed::new(generic_vec::raw::Heap::<E>::new());
            let mut q = &mut *p;
            r.put(GenericVec::<E, &mut &mut generic_vec::raw::Heap<E>>::with_storage(&mut q), None)
        }
        _ => {
            let s = generic_vec::raw::UninitSlice::from_mut(slots::<E>(3));
            let mut p = Placed::new(GenericVec::<E, &mut generic_vec::raw::UninitSlice<E>>::with_storage(s));
            r.go(&mut *p, Some(3))
        }
    }
}

/// Slots that are always initialised, in a user's storage: any length within the capacity may be set.
fn full(depth: usize) {
    let mut f = Placed::new(Full::<C2>([C2::mk(1), C2::mk(2), C2::mk(3), C2::mk(4)]));
    let mut p = Placed::new(GenericVec::<C2, &mut Full<C2>>::with_storage(&mut *f));
    let mut m = W::new(Some(4));
    for _ in 0..depth {
        match choose(3) {
            0 => {
                let n = pick(&[4, 0, 1, 2, 3, 5, usize::MAX]);
                let what = op!("set_len {}", n as isize);
                let o = attempt(|| p.set_len(n));
                if n > 4 {
                    o.must_panic(what)
                } else {
                    o.ret(what);
                    m.v.truncate(n);
                    for i in m.len()..n {
                        m.v.push(M::of(&p[i]))
                    }
                }
                settle(what, &p, &mut m)
            }
            1 => {
                let n = m.len();
                insert(&mut *p, &mut m, Form::Try, n / 2, false)
            }
            _ => any_op(&mut *p, &mut m, false),
        }
    }
}

/// Makes vectors with storages made by the vector itself.
fn made<E: Elem>() {
    let limit = pick(&[usize::MAX, 0, 3]);
    spy::set_limit(limit);
    spy::limited();
    spy::set_extra(choose(2));
    let n = choose(6);
    let how = choose(4);
    log!("{} with_capacity {} of at most {}", E::NAME, n, limit as isize);
    let mut m = W::new(if limit == usize::MAX { None } else { Some(limit) });
    let mut v: GenericVec<E, Spy<E>> = match how {
        0 => {
            let o = attempt(|| GenericVec::with_capacity(n));
            if n > limit { return o.must_panic("with_capacity") }
            let v = o.ret("with_capacity");
            let a = spy::asked();
            check!(a.reserve + a.try_reserve == 0, "with_capacity reserved once more");
            v
        }
        1 => {
            let mut v = GenericVec::with_storage(Spy::<E>::default());
            fill(&mut v, &mut m, n.min(limit));
            v
        }
        2 => {
            let rec = std::cell::RefCell::new(Vec::with_capacity(16));
            let o = attempt(|| gen::<E>(n, Hint::Exact, &rec).collect::<GenericVec<E, Spy<E>>>());
            if n > limit {
                o.must_panic("collect");
                return owned::<E>("a refused collect", 0)
            }
            let v = o.ret("collect");
            m.v = rec.into_inner();
            v
        }
        _ => {
            // out of another storage
            let mut x = W::new(Some(5));
            let mut u = generic_vec::TypeVec::<E, [E; 5]>::new();
            if E::ZST { x.cap = None }
            fill(&mut u, &mut x, n.min(5));
            let o = attempt(|| u.convert());
            if x.len() > limit {
                o.must_panic("convert");
                return
            }
            m.v = x.v;
            o.ret("convert")
        }
    };
    settle("made", &v, &mut m);
    any_op(&mut v, &mut m, false);
    mc::lib(|| drop(v));
    owned::<E>("in the end", 0);
    check!(spy::live() == 0, "a storage was not released")
}

const ONE: Run = Run { depth: 1, lens: &[3, 0, 1, 2, 4, 5], wide: true, iters: false };
const ITERS: Run = Run { depth: 1, lens: &[3, 0, 1], wide: false, iters: true };
const TWO: Run = Run { depth: 2, lens: &[2, 0, 3], wide: false, iters: false };

fn groups(t: Tier) -> Vec<Group> {
    #[allow(unused_mut)]
    let mut g = vec![
        Group { name: "moving-T16", faults: 0, body: || moving::<T16>(ONE, false) },
        Group { name: "moving-TZ", faults: 0, body: || moving::<TZ>(ONE, false) },
        Group { name: "limited-T16", faults: 0, body: || moving::<T16>(ONE, true) },
        Group { name: "inline-T16", faults: 0, body: || inline::<T16>(ONE) },
        Group { name: "moving-T16-two", faults: 0, body: || moving::<T16>(TWO, false) },
        Group { name: "limited-T16-two", faults: 0, body: || moving::<T16>(TWO, true) },
        Group { name: "inline-T16-two", faults: 0, body: || inline::<T16>(TWO) },
        Group { name: "iterators-moving-T16", faults: 0, body: || moving::<T16>(ITERS, false) },
        Group { name: "iterators-limited-T16", faults: 0, body: || moving::<T16>(ITERS, true) },
        Group { name: "iterators-inline-T16", faults: 0, body: || inline::<T16>(ITERS) },
        Group { name: "huge-T16", faults: 0, body: || { stores::huge(); moving::<T16>(Run { depth: 1, lens: &[300], wide: false, iters: false }, false) } },
        Group { name: "full", faults: 0, body: || full(2) },
        Group { name: "made-T16", faults: 0, body: || made::<T16>() },
    ];
    if t == Tier::Thorough {
        g.push(Group { name: "full-three", faults: 0, body: || full(3) });
        #[cfg(feature = "deep")]
        {
            const MANY: Run = Run { depth: 2, lens: &[3, 1, 4], wide: true, iters: false };
            const THREE: Run = Run { depth: 3, lens: &[1, 2], wide: false, iters: false };
            g.push(Group { name: "moving-T16-wide", faults: 0, body: || moving::<T16>(MANY, false) });
            g.push(Group { name: "limited-T16-wide", faults: 0, body: || moving::<T16>(MANY, true) });
            g.push(Group { name: "moving-T16-three", faults: 0, body: || moving::<T16>(THREE, false) });
            g.push(Group { name: "limited-T16-three", faults: 0, body: || moving::<T16>(THREE, true) });
            g.push(Group { name: "inline-T16-three", faults: 0, body: || inline::<T16>(THREE) });
            g.push(Group { name: "moving-C16", faults: 0, body: || moving::<C16>(TWO, false) });
            g.push(Group { name: "limited-C16", faults: 0, body: || moving::<C16>(TWO, true) });
        }
    }
    g
}

fn main() { run_main("P25", groups) }
