//! Construction, conversion and cloning.
#![cfg_attr(feature = "nightly", feature(allocator_api))]
use generic_vec::raw::{StorageWithCapacity, UninitBuffer};
use generic_vec::{gvec, GenericVec, TypeVec, ZSVec};
use mc::ops::*;
use mc::spy::Spy;
use mc::stores::{self, Kind, Taker};
use mc::tok::*;
use mc::*;

/// A new element for use inside a call.
fn e<E: Elem>() -> E { mc::off(|| mk::<E>().0) }

/// Judges a new vector of `n` fresh elements, made one after the other.
fn made<E: Elem, S: ?Sized + generic_vec::raw::Storage<E>>(what: &str, v: &GenericVec<E, S>, from: u32, n: usize) {
    check!(v.len() == n, "{}: length {}, expected {}", what, v.len(), n);
    check!(v.capacity() >= n, "{}: capacity {} for {}", what, v.capacity(), n);
    for (i, x) in v.iter().enumerate() {
        check!(!E::ID || x.id() == from + i as u32, "{}: element {} is {}, expected {}", what, i, x.id(), from + i as u32);
    }
    owned::<E>(what, n);
    mc::alloc::check_all()
}

/// The identity the next element will have.
fn next<E: Elem>() -> u32 { mc::off(|| mk::<E>().0.id() + 1) }

macro_rules! literals {
    ($e:ident, $s:ty, $i:expr; $($n:literal: [$($x:tt)*]),* $(,)?) => {
        match $i {
            $($n => {
                op!("gvec! of {}", $n);
                let from = next::<$e>();
                let v: GenericVec<$e, $s> = must("gvec!", || gvec![$(lit!($e, $x)),*]);
                made("gvec!", &v, from, $n);
                // the storage was asked for exactly this much
                mc::lib(|| drop(v));
            })*
            _ => unreachable!()
        }
    };
}
macro_rules! lit {
    ($e:ident, $x:tt) => {
        e::<$e>()
    };
}
macro_rules! all_literals {
    ($e:ident, $s:ty) => {
        literals!($e, $s, choose(18);
            0: [], 1: [1], 2: [1 1], 3: [1 1 1], 4: [1 1 1 1], 5: [1 1 1 1 1], 6: [1 1 1 1 1 1], 7: [1 1 1 1 1 1 1],
            8: [1 1 1 1 1 1 1 1], 9: [1 1 1 1 1 1 1 1 1], 10: [1 1 1 1 1 1 1 1 1 1], 11: [1 1 1 1 1 1 1 1 1 1 1],
            12: [1 1 1 1 1 1 1 1 1 1 1 1], 13: [1 1 1 1 1 1 1 1 1 1 1 1 1], 14: [1 1 1 1 1 1 1 1 1 1 1 1 1 1],
            15: [1 1 1 1 1 1 1 1 1 1 1 1 1 1 1], 16: [1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1], 17: [1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1])
    };
}

fn literal<E: Elem>() {
    match choose(3) {
        0 => all_literals!(E, UninitBuffer<[E; 17], E>),
        #[cfg(feature = "alloc")]
        1 => all_literals!(E, generic_vec::raw::Heap<E>),
        _ => all_literals!(E, Spy<E>),
    }
}

/// A repeated value, in a storage with room for it, and one without.
fn repeated<E: Elem, S: StorageWithCapacity<E>>(n: usize, room: Option<usize>) {
    op!("gvec![x; {}] with room for {}", n, room.map_or(-1, |r| r as isize));
    let (x, m) = mk::<E>();
    let o = attempt(|| {
        let v: GenericVec<E, S> = gvec![x; n];
        v
    });
    if room.map_or(false, |r| r < n) {
        o.must_panic("gvec! of more than there is room for");
        return owned::<E>("after a refusal", 0)
    }
    let v = o.ret("gvec!");
    check!(v.len() == n, "gvec![x; {}] has length {}", n, v.len());
    check!(v.iter().all(|y| y.val() == m.val || !E::ID), "gvec![x; {}] has other elements", n);
    owned::<E>("gvec!", n);
    mc::lib(|| drop(v));
}

/// Some number: any up to `n`, or a large one.
fn size(n: usize) -> usize { if stores::is_long() { pick(if stores::is_huge() { &[1030, 300] } else { &[33, 65, 100] }) } else { choose(n + 1) } }

fn repeat<E: Elem>() {
    let n = size(6);
    match choose(4) {
        0 => repeated::<E, UninitBuffer<[E; 4], E>>(n, if E::ZST { None } else { Some(4) }),
        1 => repeated::<E, Spy<E>>(n, None),
        #[cfg(feature = "alloc")]
        2 => repeated::<E, generic_vec::raw::Heap<E>>(n, None),
        #[cfg(feature = "alloc")]
        3 => repeated::<E, Box<generic_vec::raw::Heap<E>>>(n, None),
        _ => (),
    }
}

fn collected<E: Elem, S: StorageWithCapacity<E>>(n: usize, room: Option<usize>) {
    let h = pick(&HINTS);
    op!("collect {} with room for {}, hint {}", n, room.map_or(-1, |r| r as isize), h);
    let rec = std::cell::RefCell::new(Vec::with_capacity(128));
    let o = attempt(|| {
        let v: GenericVec<E, S> = gen::<E>(n, h, &rec).collect();
        v
    });
    if room.map_or(false, |r| r < n) {
        o.must_panic("collecting more than there is room for");
        return owned::<E>("after a refusal", 0)
    }
    let v = o.ret("collect");
    let mut m = rec.into_inner();
    same("collect", &v, &mut m);
    owned::<E>("collect", n);
    mc::lib(|| drop(v));
}

fn collect<E: Elem>() {
    let n = size(7);
    match choose(4) {
        0 => collected::<E, UninitBuffer<[E; 4], E>>(n, if E::ZST { None } else { Some(4) }),
        1 => collected::<E, Spy<E>>(n, None),
        #[cfg(feature = "alloc")]
        2 => collected::<E, generic_vec::raw::Heap<E>>(n, None),
        #[cfg(feature = "alloc")]
        3 => collected::<E, Box<generic_vec::raw::Heap<E>>>(n, None),
        _ => (),
    }
}

/// Into parts and back, any number of times, with edits in between.
struct Parts {
    depth: usize,
}

impl<E: Elem> Taker<E> for Parts {
    fn take<S: generic_vec::raw::Storage<E>>(&self, v: GenericVec<E, S>, k: Kind) {
        let mut v = v;
        let mut m = W::new(k.cap);
        let n = if stores::is_long() { pick(if stores::is_huge() { &[1030, 300] } else { &[33, 65] }) } else { choose(4) };
        fill(&mut v, &mut m, n);
        for _ in 0..self.depth {
            let cap = v.capacity();
            op!("into_raw_parts of {} and back", m.len());
            let st = mc::allocs();
            let (len, s) = must("into_raw_parts", || v.into_raw_parts());
            check!(len == m.len(), "the parts say {} elements", len);
            v = must("from_raw_parts", || unsafe { GenericVec::from_raw_parts(len, s) });
            check!(mc::allocs() == st, "taking a vector apart called the allocator");
            check!(v.capacity() == cap, "taking a vector apart changed its capacity");
            settle("parts", &v, &mut m);
            owned::<E>("parts", m.len());
            match choose(4) {
                0 => insert(&mut v, &mut m, Form::Plain, 0, false),
                1 => remove(&mut v, &mut m, Form::Try, Rm::Pop, 0),
                2 => extend(&mut v, &mut m, 2, Hint::Exact),
                _ => clear(&mut v, &mut m),
            }
        }
        mc::lib(|| drop(v));
        owned::<E>("in the end", 0);
    }
}

/// Some change to a vector.
fn edit<E: Elem, S: generic_vec::raw::Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W) {
    let n = m.len();
    match choose(5) {
        0 => remove(v, m, Form::Try, Rm::Remove, 0),
        1 => insert(v, m, Form::Try, n, true),
        2 => truncate(v, m, n / 2),
        3 => clear(v, m),
        _ => {
            if n > 0 {
                op!("write through the vector");
                v[0].set_val(6);
                m.v[0] = M::of(&v[0]);
                settle("write", v, m)
            }
        }
    }
}

/// Clones `v` or writes it over another vector, then changes either.
fn cloned<E: Elem, S: StorageWithCapacity<E>>(mut v: GenericVec<E, S>, lens: &[usize], cap: Option<usize>) {
    let mut m = W::new(cap);
    fill(&mut v, &mut m, pick(lens));
    let n = m.len();
    let mut x = W::new(cap);
    let mut w;
    let over = choose(5);
    if over == 4 {
        op!("clone of {}", n);
        w = must("clone", || v.clone())
    } else {
        w = mc::lib(|| GenericVec::<E, S>::default());
        fill(&mut w, &mut x, if lens[0] > 8 { [0, 20, 40, 70][over] } else { over });
        op!("Clone::clone_from of {} over {}", n, x.len());
        must("clone_from", || Clone::clone_from(&mut w, &v));
        x.v.clear()
    }
    settle("the original", &v, &mut m);
    check!(w.len() == n && w.capacity() >= n, "the clone has {} of {} elements", w.len(), n);
    for (a, b) in v.iter().zip(w.iter()) {
        check!(!E::ID || !E::OWNED || (parent(b.id()) == a.id() && a.id() != b.id()), "element {} was not cloned from {}", b.id(), a.id());
        check!(a.val() == b.val(), "a clone differs from its original");
        x.v.push(M::of(b))
    }
    check!(w == v && v == w, "a clone is not equal to its original");
    owned::<E>("clone", 2 * n);
    settle("the clone", &w, &mut x);
    match choose(3) {
        0 => {
            op!("the original goes first");
            mc::lib(|| drop(v));
            settle("the clone", &w, &mut x);
            edit(&mut w, &mut x);
            mc::lib(|| drop(w))
        }
        1 => {
            edit(&mut v, &mut m);
            settle("the clone", &w, &mut x);
            edit(&mut w, &mut x);
            settle("the original", &v, &mut m);
            mc::lib(|| drop((v, w)))
        }
        _ => {
            op!("the clone goes first");
            mc::lib(|| drop(w));
            settle("the original", &v, &mut m);
            edit(&mut v, &mut m);
            mc::lib(|| drop(v))
        }
    }
    owned::<E>("in the end", 0);
}

fn clones<E: Elem>() {
    const LENS: [usize; 4] = [2, 0, 1, 4];
    let z = |c| if E::ZST { None } else { Some(c) };
    match choose(5) {
        0 => cloned(TypeVec::<E, [E; 5]>::new(), &LENS, z(5)),
        1 => cloned(GenericVec::<E, Spy<E>>::with_storage(Spy::new(1, usize::MAX)), &LENS, None),
        2 => cloned(TypeVec::<E, [u64; 11], u64>::with_align(), &LENS, z(88 / std::mem::size_of::<E>().max(1))),
        #[cfg(feature = "alloc")]
        3 => cloned(generic_vec::HeapVec::<E>::new(), &LENS, None),
        #[cfg(feature = "alloc")]
        4 => cloned(mc::lib(|| GenericVec::<E, Box<generic_vec::raw::Heap<E>>>::with_capacity(1)), &LENS, None),
        _ => (),
    }
}

/// Clones of many elements.
fn long_clones<E: Elem>() {
    const LENS: [usize; 2] = [33, 65];
    match choose(3) {
        0 => cloned(TypeVec::<E, [E; 70]>::new(), &LENS, if E::ZST { None } else { Some(70) }),
        1 => cloned(GenericVec::<E, Spy<E>>::with_storage(Spy::new(1, usize::MAX)), &LENS, None),
        #[cfg(feature = "alloc")]
        2 => cloned(generic_vec::HeapVec::<E>::new(), &LENS, None),
        _ => (),
    }
}

fn plain_clones<E: Elem + Copy + Default>() { cloned(GenericVec::<E, [E; 4]>::default(), &[2, 0, 4], if E::ZST { None } else { Some(4) }) }

fn zero_clones() { cloned(ZSVec::<TZ>::new(), &[2, 0, 3], None) }

/// What a storage made for a capacity is.
fn room<E: Elem, S: StorageWithCapacity<E>>(name: &'static str, room: Option<usize>) {
    let n = if flag() { size(7) } else { 8 };
    if n == 8 {
        let v = must("default", || GenericVec::<E, S>::default());
        check!(v.is_empty(), "a default vector has elements");
        return mc::lib(|| drop(v))
    }
    log!("{} with_capacity {}", name, n);
    let o = attempt(|| GenericVec::<E, S>::with_capacity(n));
    if room.map_or(false, |r| n > r) { return o.must_panic("with_capacity of more than there is") }
    let mut v = o.ret("with_capacity");
    check!(v.is_empty() && v.capacity() >= n, "with_capacity({}): {} of {}", n, v.len(), v.capacity());
    let st = still(&v);
    let mut m = W::new(room);
    fill(&mut v, &mut m, n);
    st.all("filling what was made for it", &v);
    mc::lib(|| drop(v))
}

fn rooms<E: Elem>() {
    let z = |c| if E::ZST { None } else { Some(c) };
    match choose(7) {
        0 => room::<E, UninitBuffer<[E; 5], E>>("array", z(5)),
        1 => room::<E, UninitBuffer<[u64; 9], u64>>("[u64; 9]", z(72 / std::mem::size_of::<E>().max(1))),
        2 => room::<E, Spy<E>>("spy", None),
        #[cfg(feature = "alloc")]
        3 => room::<E, generic_vec::raw::Heap<E>>("heap", None),
        #[cfg(feature = "alloc")]
        4 => room::<E, generic_vec::raw::Heap<u64>>("heap of u64", None),
        #[cfg(feature = "alloc")]
        5 => room::<E, Box<UninitBuffer<[E; 3], E>>>("boxed array", z(3)),
        #[cfg(feature = "alloc")]
        6 => room::<E, generic_vec::raw::Heap<[u64; 2]>>("heap of pairs", None),
        _ => (),
    }
}

macro_rules! sizes {
    ($e:ty, $($n:literal)*) => {
        match choose(33) {
            $($n => room::<$e, [$e; $n]>("plain array", if <$e as Elem>::ZST { None } else { Some($n) }),)*
            _ => unreachable!()
        }
    };
}

fn arrays() {
    sizes!(C2, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32)
}

/// To and from standard vectors: the same block, any number of times.
#[cfg(feature = "alloc")]
fn standard<E: Elem>(depth: usize) {
    use generic_vec::HeapVec;
    let (cap, n) = if stores::is_long() { (pick(&[0, 33, 100, 2000]), pick(if stores::is_huge() { &[1030, 300] } else { &[33, 65] })) } else { (choose(5), choose(4)) };
    let mut m = W::new(None);
    let mut s: Vec<E> = mc::lib(|| Vec::with_capacity(cap));
    for _ in 0..n {
        let (x, y) = mk::<E>();
        mc::lib(|| s.push(x));
        m.v.push(y)
    }
    for _ in 0..depth {
        let (p, c, st) = (s.as_ptr(), s.capacity(), mc::allocs());
        let what = op!("into a heap vector: {} of {}", m.len(), if E::ZST { -1 } else { c as isize });
        let mut v = must(what, || HeapVec::from(s));
        check!(v.as_ptr() == p || m.len() == 0 && (c == 0 || E::ZST), "{}: the elements moved", what);
        check!(v.capacity() == c, "{}: the capacity is {}", what, v.capacity());
        check!(mc::allocs() == st, "{}: the allocator was called", what);
        settle(what, &v, &mut m);
        match choose(5) {
            0 => insert(&mut v, &mut m, Form::Plain, 0, false),
            1 => remove(&mut v, &mut m, Form::Try, Rm::Remove, 0),
            2 => extend(&mut v, &mut m, 3, Hint::None),
            3 => clear(&mut v, &mut m),
            _ => (),
        }
        let (p, c, st) = (v.as_ptr(), v.capacity(), mc::allocs());
        let what = op!("into a standard vector: {}", m.len());
        s = must(what, || Vec::from(v));
        check!(s.as_ptr() == p || m.len() == 0 && (c == 0 || E::ZST), "{}: the elements moved", what);
        check!(s.capacity() == c, "{}: the capacity is {}", what, s.capacity());
        check!(mc::allocs() == st, "{}: the allocator was called", what);
        same(what, &s, &mut m.v);
        owned::<E>(what, m.len());
        match choose(3) {
            0 => {
                let (x, y) = mk::<E>();
                mc::lib(|| s.push(x));
                m.v.push(y)
            }
            1 => {
                op!("shrink_to_fit");
                mc::lib(|| s.shrink_to_fit())
            }
            _ => (),
        }
    }
    if flag() {
        // by way of the parts of the storage
        let v = must("from", || HeapVec::from(s));
        let c = v.capacity();
        let (len, h) = must("into_raw_parts", || v.into_raw_parts());
        let (p, cap) = must("Heap::into_raw_parts", || h.into_raw_parts());
        check!(cap == c, "the parts say {}, not {}", cap, c);
        let v = unsafe { HeapVec::from_raw_parts(len, generic_vec::raw::Heap::from_raw_parts(p, cap)) };
        settle("parts", &v, &mut m);
        check!(v.capacity() == c, "the parts lost the capacity");
        s = must("from", || Vec::from(v))
    }
    mc::lib(|| drop(s));
    owned::<E>("in the end", 0);
    check!(mc::allocs().live == 0, "memory was not released");
}

/// Whole arrays.
#[cfg(feature = "nightly")]
mod whole {
    use super::*;
    use generic_vec::ArrayVec;

    fn one<E: Elem, const N: usize>() {
        let from = next::<E>();
        let a: [E; N] = unsafe {
            let mut a: std::mem::MaybeUninit<[E; N]> = std::mem::MaybeUninit::uninit();
            for i in 0..N {
                (a.as_mut_ptr() as *mut E).add(i).write(mk::<E>().0)
            }
            a.assume_init()
        };
        op!("a vector of an array of {}", N);
        let mut v = must("from_array", || if flag() { ArrayVec::<E, N>::from_array(a) } else { ArrayVec::<E, N>::from(a) });
        made("from_array", &v, from, N);
        check!(v.is_full() || E::ZST, "a vector of a whole array is not full");
        let mut m = W::new(if E::ZST { None } else { Some(N) });
        m.v = v.iter().map(M::of).collect();
        match choose(5) {
            0 => (),
            1 => remove(&mut v, &mut m, Form::Try, Rm::Pop, 0),
            2 => {
                remove(&mut v, &mut m, Form::Try, Rm::Remove, 0);
                insert(&mut v, &mut m, Form::Plain, 0, false)
            }
            3 => clear(&mut v, &mut m),
            _ => insert(&mut v, &mut m, Form::Try, N, true),
        }
        let o = attempt(|| v.into_array());
        if m.len() == N {
            let a = o.ret("into_array");
            same("into_array", &a[..], &mut m.v);
            owned::<E>("into_array", N);
            drop(a)
        } else {
            // the elements go with the vector
            o.must_panic("into_array of a vector that is not as long as the array")
        }
        owned::<E>("in the end", 0)
    }

    pub fn all<E: Elem>() {
        match choose(6) {
            0 => one::<E, 0>(),
            1 => one::<E, 1>(),
            2 => one::<E, 2>(),
            3 => one::<E, 3>(),
            4 => one::<E, 5>(),
            _ => one::<E, 8>(),
        }
    }
}

fn groups(t: Tier) -> Vec<Group> {
    const TWO: Parts = Parts { depth: 2 };
    let mut g = vec![
        Group { name: "literals-T16", faults: 0, body: literal::<T16> },
        Group { name: "literals-TZ", faults: 0, body: literal::<TZ> },
        Group { name: "repeat-T16", faults: 0, body: repeat::<T16> },
        Group { name: "repeat-C2", faults: 0, body: repeat::<C2> },
        Group { name: "repeat-TZ", faults: 0, body: repeat::<TZ> },
        Group { name: "collect-T16", faults: 0, body: collect::<T16> },
        Group { name: "collect-TZ", faults: 0, body: collect::<TZ> },
        Group { name: "parts-T16", faults: 0, body: || stores::own_growable::<T16, _>(&TWO) },
        Group { name: "parts-T16-fixed", faults: 0, body: || stores::own_fixed::<T16, _>(&TWO) },
        Group { name: "parts-TZ", faults: 0, body: || stores::own_zero::<TZ, _>(&TWO) },
        Group { name: "parts-T1-elsewhere", faults: 0, body: || stores::own_elsewhere::<T1, _>(&TWO) },
        Group { name: "clone-T16", faults: 0, body: clones::<T16> },
        Group { name: "clone-TZ", faults: 0, body: clones::<TZ> },
        Group { name: "clone-C2", faults: 0, body: plain_clones::<C2> },
        Group { name: "clone-ZSVec", faults: 0, body: zero_clones },
        Group { name: "long-clone-T16", faults: 0, body: long_clones::<T16> },
        Group { name: "long-repeat-T16", faults: 0, body: || {
            stores::long();
            repeat::<T16>()
        } },
        Group { name: "long-collect-T16", faults: 0, body: || {
            stores::long();
            collect::<T16>()
        } },
        Group { name: "long-parts-T16", faults: 0, body: || {
            stores::long();
            stores::own_growable::<T16, _>(&Parts { depth: 1 })
        } },
        Group { name: "long-rooms-C2", faults: 0, body: || {
            stores::long();
            rooms::<C2>()
        } },
        #[cfg(feature = "alloc")]
        Group { name: "long-standard-T16", faults: 0, body: || {
            stores::long();
            standard::<T16>(1)
        } },
        Group { name: "huge-repeat-T16", faults: 0, body: || { stores::huge(); repeat::<T16>() } },
        Group { name: "huge-collect-T16", faults: 0, body: || { stores::huge(); collect::<T16>() } },
        Group { name: "huge-parts-T16", faults: 0, body: || { stores::huge(); stores::own_growable::<T16, _>(&Parts { depth: 1 }) } },
        #[cfg(feature = "alloc")]
        Group { name: "huge-standard-T16", faults: 0, body: || { stores::huge(); standard::<T16>(1) } },
        #[cfg(feature = "alloc")]
        Group { name: "standard-TB", faults: 0, body: || standard::<TB>(1) },
        Group { name: "rooms-TB", faults: 0, body: rooms::<TB> },
        Group { name: "rooms-T16", faults: 0, body: rooms::<T16> },
        Group { name: "rooms-T1", faults: 0, body: rooms::<T1> },
        Group { name: "rooms-TZ", faults: 0, body: || room::<TZ, generic_vec::raw::ZeroSized<TZ>>("zero-sized", None) },
        Group { name: "rooms-arrays", faults: 0, body: arrays },
        #[cfg(feature = "alloc")]
        Group { name: "standard-T16", faults: 0, body: || standard::<T16>(2) },
        #[cfg(feature = "alloc")]
        Group { name: "standard-T1", faults: 0, body: || standard::<T1>(1) },
        #[cfg(feature = "alloc")]
        Group { name: "standard-TZ", faults: 0, body: || standard::<TZ>(1) },
        #[cfg(feature = "nightly")]
        Group { name: "whole-T16", faults: 0, body: whole::all::<T16> },
        #[cfg(feature = "nightly")]
        Group { name: "whole-TZ", faults: 0, body: whole::all::<TZ> },
    ];
    if t == Tier::Thorough {
        const DEEP: Parts = Parts { depth: 4 };
        g.push(Group { name: "deep-parts-T16", faults: 0, body: || stores::own_growable::<T16, _>(&DEEP) });
        #[cfg(feature = "alloc")]
        g.push(Group { name: "deep-standard-T16", faults: 0, body: || standard::<T16>(3) });
    }
    g
}

fn main() { run_main("P24", groups) }
