//! An allocator that refuses.
#![cfg_attr(feature = "nightly", feature(allocator_api))]
use generic_vec::raw::{Heap, Storage, StorageWithCapacity};
use generic_vec::{GenericVec, HeapVec};
use mc::engine::{fault_zone, F_ALLOC};
use mc::guard::Placed;
use mc::ops::*;
use mc::sys::{in_child, Child};
use mc::tok::*;
use mc::*;
use std::cell::RefCell;

/// A fallible reservation at which any request may be refused.
fn reserve<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W) {
    let (n, full) = (v.len(), v.is_full());
    let by = match choose(6) {
        0 => 1,
        1 => v.remaining_capacity().saturating_add(1),
        2 => v.capacity() * 2 + 3,
        3 => alloc::HUGE,
        4 => usize::MAX / 2,
        _ => v.remaining_capacity().min(7),
    };
    let what = op!("try_reserve {} at {} of {}", by as isize, n, v.capacity() as isize);
    let (st, cap, at) = (mc::allocs(), v.capacity(), v.as_ptr());
    let had = by <= v.remaining_capacity();
    let ok = fault_zone(F_ALLOC, || attempt(|| v.try_reserve(by))).ret(what);
    let now = mc::allocs();
    if had {
        check!(ok && now == st, "{}: {} although there is room; requests {:?}, before {:?}", what, ok, now, st);
    }
    if ok {
        check!(v.remaining_capacity() >= by, "{}: succeeded, but there is room for {} only", what, v.remaining_capacity());
        check!(had || now.allocs > st.allocs, "{}: succeeded without memory", what);
    } else {
        check!(now.refused > st.refused || by > (isize::MAX as usize - 4096) / std::mem::size_of::<E>().max(1) - n, "{}: gave up without asking", what);
        check!(v.capacity() == cap && v.as_ptr() == at, "{}: failed, but changed the storage from {} to {}", what, cap, v.capacity());
        check!((now.allocs, now.frees, now.live) == (st.allocs, st.frees, st.live), "{}: failed, but blocks went from {:?} to {:?}", what, st, now);
        check!(v.is_full() == full, "{}: failed, but is_full changed", what);
    }
    settle(what, v, m);
    owned::<E>(what, n)
}

/// Extending reserves what is announced in a way that may fail, and must then still deliver what fits.
fn extend_within<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W) {
    let room = v.remaining_capacity().min(4);
    let n = choose(room + 1);
    let h = pick(&[Hint::More, Hint::Huge, Hint::Half, Hint::Exact]);
    let what = op!("extend by {} with room for {}, hint {}", n, room, h);
    if flag() {
        let rec = RefCell::new(Vec::with_capacity(8));
        fault_zone(F_ALLOC, || attempt(|| v.extend(gen::<E>(n, h, &rec)))).ret(what);
        m.v.extend(rec.into_inner())
    } else {
        let (xs, ms) = mks::<E>(n);
        let r = Refs { src: &xs[..], hint: h, done: false };
        fault_zone(F_ALLOC, || attempt(|| v.extend(r))).ret(what);
        m.v.extend(ms.iter().map(|x| M::fresh(x.val)));
        drop(xs)
    }
    settle(what, v, m);
    owned::<E>(what, m.len())
}

struct Refused {
    steps: usize,
    after: bool,
    borrowed: bool,
}

impl Refused {
    fn go<E: Elem, S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>) {
        let mut m = W::new(None);
        fill(v, &mut m, pick(&[2, 0, 1, 3, 4]));
        for _ in 0..self.steps {
            match choose(2) {
                0 => reserve(v, &mut m),
                _ => extend_within(v, &mut m),
            }
        }
        if self.after {
            // it remains usable
            any_op(v, &mut m, false);
        } else {
            let n = m.len();
            insert(v, &mut m, Form::Plain, n, true);
            remove(v, &mut m, Form::Plain, Rm::Remove, 0)
        }
    }
    fn put<E: Elem, S: Storage<E>>(&self, v: GenericVec<E, S>) {
        let mut p = Placed::new(v);
        self.go(&mut *p);
        let v = p.take();
        must("drop", || drop(v));
        check!(self.borrowed || mc::allocs().live == 0, "{} blocks are left", mc::allocs().live)
    }
}

fn fallible<E: Elem>(steps: usize, after: bool) {
    #[allow(unused_mut)]
    let mut r = Refused { steps, after, borrowed: false };
    log!("refusals over {}", E::NAME);
    match choose(5) {
        0 => r.put(HeapVec::<E>::new()),
        1 => {
            let c = pick(&[1, 3]);
            r.put(lib(|| HeapVec::<E>::with_capacity(c)))
        }
        2 => r.put(lib(|| GenericVec::<E, Box<Heap<E>>>::with_capacity(2))),
        3 => r.put(GenericVec::<E, Heap<u64>>::with_storage(Default::default())),
        #[cfg(feature = "nightly")]
        _ => r.put(GenericVec::<E, Heap<E, alloc::Tagged>>::with_storage(Heap::with_alloc(alloc::Tagged(3)))),
        #[cfg(not(feature = "nightly"))]
        _ => {
            let mut h = Placed::new(Heap::<E>::new());
            r.borrowed = true;
            r.put(GenericVec::<E, &mut Heap<E>>::with_storage(&mut *h));
        }
    }
}

/// Sound, with exactly these values, made of nothing but what exists.
fn intact<E: Elem, S: ?Sized + Storage<E>>(v: &GenericVec<E, S>, vals: Option<&[u8]>) -> bool {
    alloc::check_all();
    v.len() <= v.capacity()
        && v.iter().all(|e| !E::ID || !E::OWNED || is_live(e.id()))
        && vals.map_or(true, |vals| v.len() == vals.len() && v.iter().zip(vals).all(|(e, x)| !E::ID || e.val() == *x))
}

/// A call that cannot report that there is no memory, on a vector that is full or not, in a child of its own.
fn infallible<E: Elem, S: Storage<E>>(mut v: GenericVec<E, S>) {
    let mut m = W::new(None);
    fill(&mut v, &mut m, pick(&[4, 0, 1, 2, 3, 5]));
    let n = m.len();
    let vals: Vec<u8> = m.v.iter().map(|x| x.val).collect();
    let room = v.remaining_capacity();
    let op = choose(15);
    let by = match op {
        0 | 1 => 1,
        _ => pick(&[1, 5]).max(if flag() { 1 } else { room.min(9) + 1 }),
    };
    // which request is refused, and whether any are met after that
    let (k, on) = (choose(3) as u32, flag());
    let what = op!("operation {} with {} at {} of {}, request {} refused, and all others: {}", op, by, n, v.capacity() as isize, k, on as u8);
    step();
    let (xs, ms) = mks::<E>(by);
    let new: Vec<u8> = ms.iter().map(|x| x.val).collect();
    let (x, mx) = mk::<E>();
    let needs = by > room && !E::ZST;
    let c = in_child(move || {
        let mut want = vals.clone();
        let rec = RefCell::new(Vec::with_capacity(32));
        alloc::deny(k, on);
        let mut src = xs.into_iter();
        let mut next = || off(|| src.next().unwrap());
        let o = match op {
            0 => {
                want.push(mx.val);
                attempt(|| {
                    v.push(x);
                })
            }
            1 => {
                want.insert(n / 2, mx.val);
                attempt(|| {
                    v.insert(n / 2, x);
                })
            }
            2 => attempt(|| v.reserve(by)),
            3 => {
                want.extend(std::iter::repeat(mx.val).take(by));
                attempt(|| v.grow(by, x))
            }
            4 => {
                want.extend(&new);
                attempt(|| v.grow_with(by, &mut next))
            }
            5 => {
                want.extend(std::iter::repeat(mx.val).take(by));
                attempt(|| v.resize(n + by, x))
            }
            6 => {
                want.extend(&new);
                attempt(|| v.resize_with(n + by, &mut next))
            }
            7 | 8 => {
                let o = attempt(|| v.extend(gen::<E>(by, if op == 7 { Hint::None } else { Hint::Exact }, &rec)));
                want.extend(rec.borrow().iter().map(|x| x.val));
                o
            }
            9 => {
                want.extend(&new);
                attempt(|| v.extend_from_slice(src.as_slice()))
            }
            10 => {
                want = new.clone();
                attempt(|| v.clone_from(src.as_slice()))
            }
            11 | 12 => {
                // nothing is removed, or one
                let gone = if op == 11 { 0 } else { n.min(1) };
                let o = attempt(|| drop(v.splice(0..gone, gen::<E>(by, if op == 11 { Hint::None } else { Hint::Exact }, &rec))));
                want = rec.borrow().iter().map(|x| x.val).chain(vals[gone..].iter().copied()).collect();
                o
            }
            13 => {
                want.extend(&new);
                let mut o = GenericVec::<E, spy::Spy<E>>::with_storage(spy::Spy::new(0, usize::MAX));
                for x in src {
                    o.push(x);
                }
                attempt(|| v.append(&mut o))
            }
            _ => {
                want.extend(&new);
                let mut i = by;
                attempt(|| {
                    v.extend(std::iter::from_fn(|| {
                        if i == 0 { return None }
                        i -= 1;
                        Some(next())
                    }))
                })
            }
        };
        match o {
            Outcome::Ret(()) => {
                if op == 2 && v.remaining_capacity() < by { return 13 }
                if intact(&v, Some(&want)) { 10 } else { 11 }
            }
            _ => if intact(&v, None) { 12 } else { 14 },
        }
    });
    match c {
        Child::Exit(10) if needs && k == 0 && on && op != 10 && op != 12 => fail!("{}: returned although it needs room and there is none", what),
        Child::Exit(10) | Child::Exit(12) | Child::Signal(6) => (),
        Child::Exit(11) => fail!("{}: returned, but the vector does not hold what it should", what),
        Child::Exit(13) => fail!("{}: returned without the room", what),
        Child::Exit(14) => fail!("{}: was refused by a panic, and the vector is not sound", what),
        c => fail!("{}: ended by {:?}", what, c),
    }
    // the child had copies of all of this
    allow_leak();
    spy::allow_leak();
}

fn abort<E: Elem>() {
    log!("no memory over {}", E::NAME);
    match choose(4) {
        0 => infallible(HeapVec::<E>::new()),
        1 => {
            let c = pick(&[1, 4]);
            infallible(lib(|| HeapVec::<E>::with_capacity(c)))
        }
        2 => infallible(lib(|| GenericVec::<E, Box<Heap<E>>>::with_capacity(2))),
        #[cfg(feature = "nightly")]
        _ => infallible(GenericVec::<E, Heap<E, alloc::Tagged>>::with_storage(Heap::with_alloc(alloc::Tagged(3)))),
        #[cfg(not(feature = "nightly"))]
        _ => infallible(GenericVec::<E, Heap<u64>>::with_storage(Default::default())),
    }
}

/// Making a vector without memory.
fn making() {
    let n = pick(&[0usize, 1, 3, 6]);
    let (k, on) = (choose(3) as u32, flag());
    let op = choose(7);
    let what = op!("making {} of {}, request {} refused, and all others: {}", op, n, k, on as u8);
    step();
    fn full<S: StorageWithCapacity<T16>>(v: GenericVec<T16, S>, n: usize) -> i32 {
        let r = v.len() == n && v.capacity() >= n && intact(&v, None);
        drop(v);
        if r { 10 } else { 11 }
    }
    let c = in_child(move || {
        let mut src = fill_vec(6);
        let x = mk::<T16>().0;
        let rec = RefCell::new(Vec::with_capacity(16));
        alloc::deny(k, on);
        let o = attempt(|| match op {
            0 => {
                let v = HeapVec::<T16>::with_capacity(n);
                // not to be optimised away
                mc::obs(v.as_ptr() as u64);
                if v.capacity() >= n { 10 } else { 11 }
            }
            1 => full(gen::<T16>(n, Hint::Exact, &rec).collect::<HeapVec<T16>>(), n),
            2 => full(gen::<T16>(n, Hint::None, &rec).collect::<HeapVec<T16>>(), n),
            3 => full(generic_vec::gvec![x; n] as HeapVec<T16>, n),
            4 => full(src.split_off::<Heap<T16>>(6 - n), n),
            5 => {
                src.truncate(n);
                full(src.convert::<Heap<T16>>(), n)
            }
            _ => {
                src.truncate(n);
                let w: GenericVec<T16, generic_vec::raw::UninitBuffer<[T16; 6], T16>> = src;
                let w: GenericVec<T16, Box<generic_vec::raw::UninitBuffer<[T16; 6], T16>>> = w.convert();
                full(w, n)
            }
        });
        match o {
            Outcome::Ret(r) => r,
            _ => 12,
        }
    });
    match c {
        Child::Exit(10) if n > 0 && k == 0 && on => fail!("{}: returned although it needs room and there is none", what),
        Child::Exit(10) | Child::Exit(12) | Child::Signal(6) => (),
        c => fail!("{}: ended by {:?}", what, c),
    }
}

fn fill_vec(n: usize) -> GenericVec<T16, generic_vec::raw::UninitBuffer<[T16; 6], T16>> {
    let mut v = GenericVec::<T16, generic_vec::raw::UninitBuffer<[T16; 6], T16>>::new();
    for _ in 0..n {
        v.push(mk::<T16>().0);
    }
    v
}

fn groups(t: Tier) -> Vec<Group> {
    let mut g = vec![
        Group { name: "fallible-T16", faults: 2, body: || fallible::<T16>(2, false) },
        Group { name: "fallible-T1", faults: 1, body: || fallible::<T1>(1, false) },
        Group { name: "fallible-T16-then", faults: 1, body: || fallible::<T16>(1, true) },
        Group { name: "infallible-T16", faults: 0, body: || abort::<T16>() },
        Group { name: "making", faults: 0, body: || making() },
    ];
    if t == Tier::Thorough {
        g.push(Group { name: "fallible-T16-three", faults: 3, body: || fallible::<T16>(3, false) });
        g.push(Group { name: "fallible-T16-two-then", faults: 2, body: || fallible::<T16>(2, true) });
        #[cfg(feature = "deep")]
        {
            g.push(Group { name: "infallible-T3", faults: 0, body: || abort::<T3>() });
            g.push(Group { name: "infallible-C2", faults: 0, body: || abort::<C2>() });
        }
    }
    g
}

fn main() { run_main("P27", groups) }
