//! Elements without a size.
use generic_vec::raw::{Storage, StorageInit, UninitBuffer, ZeroSized};
use generic_vec::{GenericVec, InitSliceVec, SliceVec, TypeVec, ZSVec};
use mc::guard::Placed;
use mc::ops::*;
use mc::spy::Spy;
use mc::stores::{self, Body, Kind, Taker};
use mc::tok::*;
use mc::walk::{any_iter, Arrays, Steps};
use mc::*;
use std::mem::size_of;

/// Any history, without a single allocation.
struct Hist {
    depth: usize,
    lens: &'static [usize],
    wide: bool,
}

impl<E: Elem> Body<E> for Hist {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, _k: Kind) {
        let mut m = W::new(None);
        let s0 = allocs();
        fill(v, &mut m, pick(self.lens));
        settle("start", v, &mut m);
        for _ in 0..self.depth {
            if self.wide && self.depth == 1 { every_op(v, &mut m) } else { any_op(v, &mut m, self.wide) }
            let s = allocs();
            check!(s.allocs == s0.allocs && s.frees == s0.frees, "the allocator was called for elements without a size");
        }
        lib(|| v.clear());
        owned::<E>("after clearing", 0);
    }
}

/// Iterators and cursors driven in every way, without a single allocation.
struct Iterators {
    lens: &'static [usize],
    steps: Steps,
}

impl<E: Elem> Body<E> for Iterators {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, _k: Kind) {
        let mut m = W::new(None);
        let s0 = allocs();
        fill(v, &mut m, pick(self.lens));
        settle("start", v, &mut m);
        any_iter(v, &mut m, self.steps, true);
        insert(v, &mut m, Form::Plain, 0, false);
        let s = allocs();
        check!(s.allocs == s0.allocs && s.frees == s0.frees, "the allocator was called for elements without a size");
        lib(|| v.clear());
        owned::<E>("after clearing", 0);
    }
}

/// Every storage for elements without a size that does not count allocations of its own.
fn every<E: Elem, B: Body<E>>(b: &B) {
    #[cfg(feature = "alloc")]
    let n = 7;
    #[cfg(not(feature = "alloc"))]
    let n = 5;
    let k = Kind { name: "", cap: None, initial: 0 };
    match choose(n) {
        0 => b.run(&mut *Placed::new(ZSVec::<E>::new()), k),
        1 => b.run(&mut *Placed::new(TypeVec::<E, [E; 0]>::new()), k),
        2 => b.run(&mut *Placed::new(SliceVec::<E>::new(guard::slots(2))), k),
        3 => b.run(&mut *Placed::new(GenericVec::with_storage(Spy::<E>::new(0, usize::MAX))), k),
        4 => {
            let mut z = ZeroSized::<E>::default();
            b.run(&mut *Placed::new(GenericVec::<E, &mut ZeroSized<E>>::with_storage(&mut z)), k);
        }
        #[cfg(feature = "alloc")]
        5 => b.run(&mut *Placed::new(generic_vec::HeapVec::<E>::new()), k),
        #[cfg(feature = "alloc")]
        _ => b.run(&mut *Placed::new(GenericVec::<E, generic_vec::raw::Heap<E>>::with_capacity(3)), k),
        #[cfg(not(feature = "alloc"))]
        _ => (),
    }
}

/// A vector of the very same kind of storage for another slot type.
fn elsewhere<E: Elem, B: Body<E>>(b: &B) {
    let k = Kind { name: "", cap: None, initial: 0 };
    match choose(3) {
        0 => b.run(&mut *Placed::new(TypeVec::<E, [u64; 2], [u64; 8]>::with_align()), k),
        1 => b.run(&mut *Placed::new(TypeVec::<E, [u64; 0], u64>::with_align()), k),
        _ => {
            #[cfg(feature = "alloc")]
            b.run(&mut *Placed::new(GenericVec::<E, generic_vec::raw::Heap<u64>>::with_storage(Default::default())), k)
        }
    }
}

/// Storages over plain data without a size.
fn plain<E: Elem + Copy + Default, B: Body<E>>(b: &B) {
    let k = Kind { name: "", cap: None, initial: 0 };
    match choose(2) {
        0 => b.run(&mut *Placed::new(GenericVec::<E, [E; 3]>::default()), k),
        _ => {
            let mut buf = [E::default(); 2];
            let mut v = InitSliceVec::new(&mut buf);
            v.clear();
            b.run(&mut v, k)
        }
    }
}

/// Iterators over elements without a size, driven in every way.
struct Iterate {
    len: usize,
}

impl<E: Elem> Taker<E> for Iterate {
    fn take<S: Storage<E>>(&self, mut v: GenericVec<E, S>, _k: Kind) {
        let mut m = W::new(None);
        let n = choose(self.len + 1);
        fill(&mut v, &mut m, n);
        if flag() {
            op!("into_iter of {}", n);
            let it = lib(|| v.into_iter());
            pump("into_iter", it, m.v.iter().copied().collect(), true, |i, left| {
                check!(i.as_slice().len() == left.len() && i.as_mut_slice().len() == left.len(), "into_iter: shows {} elements, {} are left", i.as_slice().len(), left.len())
            });
            owned::<E>("after into_iter", 0)
        } else {
            let r = range(n);
            op!("drain {}..{} of {}", r.0, r.1, n);
            let gone = m.v.drain(r.0..r.1).collect();
            let d = must("drain", || v.drain(r.0..r.1));
            pump("drain", d, gone, true, |_, _| ());
            settle("drain", &v, &mut m);
            owned::<E>("after drain", m.len());
            lib(|| drop(v))
        }
    }
}

/// Lengths near the largest number. `E` is plain data without a size, so that any length may be set.
struct Limit;

fn length<E: Elem, S: ?Sized + Storage<E>>(what: &str, v: &GenericVec<E, S>, n: usize) {
    check!(v.len() == n, "{}: the length is {}, expected {}", what, v.len(), n);
    check!(v.as_slice().len() == n && v.iter().len() == n, "{}: the slice has length {}, expected {}", what, v.as_slice().len(), n);
    check!(v.capacity() == usize::MAX && v.remaining_capacity() == usize::MAX - n, "{}: capacity {}, remaining {}", what, v.capacity(), v.remaining_capacity());
    check!(v.is_full() == (n == usize::MAX) && v.is_empty() == (n == 0), "{}: is_full or is_empty is wrong", what);
    state(n as u64);
    obs(n as u64);
}

fn limit<E: Elem + Copy + Default, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, rounds: usize) {
    let mut n = usize::MAX - choose(4);
    unsafe { v.set_len_unchecked(n) }
    length("set_len_unchecked", v, n);
    let s0 = allocs();
    for _ in 0..rounds {
        let d = usize::MAX - n;
        let k = [1, 0, 2, d, d.saturating_add(1)][choose(5)];
        let fits = k <= d;
        let way = choose(25);
        let what = op!("way {} by {} with room for {}", way, k, d);
        // calls that are refused as a whole
        let mut whole = |o: Outcome<()>| {
            if fits {
                o.ret(what);
                n += k
            } else {
                o.must_panic(what)
            }
        };
        match way {
            0 => {
                let o = attempt(|| drop(v.push(E::default())));
                if d > 0 {
                    o.ret(what);
                    n += 1
                } else {
                    o.must_panic(what)
                }
            }
            1 => {
                let ok = must(what, || v.try_push(E::default()).is_ok());
                check!(ok == (d > 0), "{}: try_push reported {} with room for {}", what, ok, d);
                n += ok as usize
            }
            2 => {
                let i = [0, n / 2, n][choose(3)];
                let o = attempt(|| drop(v.insert(i, E::default())));
                if d > 0 {
                    o.ret(what);
                    n += 1
                } else {
                    o.must_panic(what)
                }
            }
            3 => {
                let i = [0, n / 2, n][choose(3)];
                let ok = must(what, || v.try_insert(i, E::default()).is_ok());
                check!(ok == (d > 0), "{}: try_insert reported {} with room for {}", what, ok, d);
                n += ok as usize
            }
            4 => {
                check!(must(what, || v.try_pop()).is_some(), "{}: nothing popped", what);
                n -= 1
            }
            5 => {
                let i = [0, n - 1, n / 2][choose(3)];
                must(what, || drop(v.remove(i)));
                n -= 1
            }
            6 => {
                let i = [0, n - 1, n / 2][choose(3)];
                must(what, || drop(v.swap_remove(i)));
                n -= 1
            }
            7 => {
                let ok = must(what, || v.try_reserve(k));
                check!(ok == fits, "{}: try_reserve({}) reported {}", what, k, ok)
            }
            8 => {
                let o = attempt(|| v.reserve(k));
                if fits {
                    o.ret(what)
                } else {
                    o.must_panic(what)
                }
            }
            9 => whole(attempt(|| v.grow(k, E::default()))),
            10 => whole(attempt(|| v.grow_with(k, E::default))),
            11 => {
                let b = [E::default(); 8];
                if k <= 8 {
                    whole(attempt(|| v.extend_from_slice(&b[..k])))
                }
            }
            12 | 13 => {
                let o = attempt(|| {
                    let i = (0..k).map(|_| E::default());
                    if way == 12 {
                        v.extend(i)
                    } else {
                        v.extend(i.filter(|_| true))
                    }
                });
                // what fits is kept
                if fits {
                    o.ret(what);
                    n += k
                } else {
                    o.must_panic(what);
                    n = usize::MAX
                }
            }
            14 => {
                let mut o = ZSVec::<E>::new();
                unsafe { o.set_len_unchecked(k) }
                whole(attempt(|| v.append(&mut o)));
                length(what, &o, if fits { 0 } else { k })
            }
            15 => {
                let i = [n, n - 2, 0][choose(3)];
                let mut o = ZSVec::<E>::new();
                unsafe { o.set_len_unchecked(k) }
                let r = attempt(|| v.split_off_into(i, &mut o));
                if (n - i).checked_add(k).is_some() {
                    r.ret(what);
                    length(what, &o, n - i + k);
                    n = i
                } else {
                    r.must_panic(what);
                    length(what, &o, k)
                }
            }
            16 => {
                let i = [n, n - 2, 1][choose(3)];
                let o: GenericVec<E, UninitBuffer<[E; 1], E>> = must(what, || v.split_off(i));
                length(what, &o, n - i);
                n = i;
                // back to the neighbourhood of the limit
                let back = o.len();
                let mut o = o;
                must(what, || v.append(&mut o));
                n += back
            }
            17 => {
                let a = [0, n - 2, n / 2][choose(3)];
                let mut it = must(what, || v.drain(a..a + 2));
                exact(what, &it, 2);
                check!(must(what, || it.next_back()).is_some(), "{}: drain ended early", what);
                exact(what, &it, 1);
                must(what, || drop(it));
                n -= 2
            }
            18 => {
                // a drain of everything, forgotten
                let mut it = must(what, || v.drain(..));
                exact(what, &it, n);
                must(what, || it.next());
                must(what, || it.next_back());
                exact(what, &it, n - 2);
                std::mem::forget(it);
                check!(v.len() <= n - 2, "{}: {} elements are left", what, v.len());
                unsafe { v.set_len_unchecked(n) }
            }
            19 => {
                let a = [0, n - 3][choose(2)];
                let mut it = must(what, || v.drain_filter(a..a + 3, |_| true));
                check!(it.size_hint() == (0, Some(3)), "{}: announces {:?}", what, it.size_hint());
                must(what, || it.next());
                must(what, || drop(it));
                n -= 3
            }
            20 => {
                let it = must(what, || v.drain_filter(.., |_| false));
                check!(it.size_hint() == (0, Some(n)), "{}: announces {:?}", what, it.size_hint());
                std::mem::forget(it);
                unsafe { v.set_len_unchecked(n) }
            }
            21 => {
                let a = [n, n - 1, 0][choose(3)];
                let r = if a == n { 0 } else { 1 };
                let h = pick(&HINTS);
                let made = std::cell::RefCell::new(Vec::new());
                let mut it = must(what, || v.splice(a..a + r, gen::<E>(k, h, &made)));
                exact(what, &it, r);
                check!(must(what, || it.next()).is_some() == (r == 1), "{}: splice ended wrongly", what);
                let o = attempt(|| drop(it));
                let rest = n - r;
                if usize::MAX - rest >= k {
                    o.ret(what);
                    n = rest + k
                } else {
                    o.must_panic(what);
                    check!(v.len() >= rest, "{}: {} elements are left of {}", what, v.len(), rest);
                    n = v.len()
                }
            }
            22 => {
                let mut c = must(what, || v.cursor(..));
                check!(c.len() == n && c.write_len() == n, "{}: the cursor has {} elements in {} slots", what, c.len(), c.write_len());
                must(what, || {
                    c.drop_n_front(2);
                    c.skip_n_back(1);
                    drop(c.take_back());
                });
                check!(c.len() == n - 4 && c.write_len() == n - 1, "{}: the cursor has {} elements in {} slots", what, c.len(), c.write_len());
                check!(c.write_front_len() == 2 && c.write_back_len() == 1, "{}: unfilled {} and {}", what, c.write_front_len(), c.write_back_len());
                let left = c.len();
                must(what, || c.skip_n_front(left));
                check!(c.is_empty() && c.write_len() == 3, "{}: {} elements, {} unfilled", what, c.len(), c.write_len());
                let o = attempt(|| c.reserve(k));
                let rest = n - 3;
                if usize::MAX - rest >= k {
                    o.ret(what);
                    check!(c.write_len() >= k && c.write_len() <= usize::MAX - rest, "{}: {} unfilled", what, c.write_len());
                } else {
                    o.must_panic(what)
                }
                must(what, || drop(c));
                n = rest;
            }
            23 => {
                must(what, || v.truncate(n - 1));
                n -= 1
            }
            _ => {
                let s = must(what, || v.spare_capacity_mut());
                check!(s.len() == 0 && s.capacity() >= d, "{}: the spare room is {}", what, s.capacity());
                let _ = s;
            }
        }
        length(what, v, n);
        check!(allocs() == s0, "{}: the allocator was called", what);
        // stay near the limit
        if usize::MAX - n > 6 {
            n = usize::MAX - 1;
            unsafe { v.set_len_unchecked(n) }
        }
    }
    unsafe { v.set_len_unchecked(0) }
}

impl<E: Elem + Copy + Default> Body<E> for Limit {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, _k: Kind) { limit(v, 2) }
}

struct Limit3;
impl<E: Elem + Copy + Default> Body<E> for Limit3 {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, _k: Kind) { limit(v, 3) }
}

/// Consuming as many elements as there can be.
fn owning<S: Storage<CZ>>(mut v: GenericVec<CZ, S>) {
    let mut n = usize::MAX - choose(3);
    unsafe { v.set_len_unchecked(n) }
    let what = op!("into_iter of {}", n);
    let mut it = lib(|| v.into_iter());
    for _ in 0..3 {
        exact(what, &it, n);
        check!(it.as_slice().len() == n && it.as_mut_slice().len() == n, "{}: shows {} elements, {} are left", what, it.as_slice().len(), n);
        let (got, take) = match choose(6) {
            0 => (must(what, || it.next()), 0),
            1 => (must(what, || it.next_back()), 0),
            2 => (must(what, || it.nth(2)), 2),
            3 => {
                let k = n.saturating_sub(2);
                (must(what, || it.nth(k)), k)
            }
            4 => {
                let k = usize::MAX;
                (must(what, || it.nth(k)), k)
            }
            _ => {
                let c = must(what, || it.count());
                check!(c == n, "{}: counted {}", what, c);
                return
            }
        };
        check!(got.is_some() == (take < n), "{}: {} left, {} skipped, {:?}", what, n, take, got);
        n = n.saturating_sub(take).saturating_sub(1);
        obs(n as u64);
    }
    exact(what, &it, n);
    lib(|| drop(it))
}

fn owning_all() {
    match choose(4) {
        0 => owning(ZSVec::<CZ>::new()),
        1 => owning(TypeVec::<CZ, [CZ; 2]>::new()),
        2 => owning(GenericVec::<CZ, [CZ; 1]>::default()),
        _ => owning(GenericVec::with_storage(Spy::<CZ>::new(0, usize::MAX))),
    }
}

/// Setting the length of a vector over plain data without a size.
fn lengths<S: ?Sized + StorageInit<CZ>>(v: &mut GenericVec<CZ, S>) {
    for _ in 0..2 {
        let n = [0, 1, 3, isize::MAX as usize, usize::MAX - 1, usize::MAX][choose(6)];
        let what = op!("set_len {}", n);
        must(what, || v.set_len(n));
        length(what, v, n);
    }
    v.clear();
    length("clear", v, 0);
}

fn dedicated() {
    fn one<E: Elem>() {
        check!(size_of::<ZSVec<E>>() == size_of::<usize>(), "a vector over the zero-sized storage takes {} bytes", size_of::<ZSVec<E>>());
        check!(ZeroSized::<E>::TRY_NEW.is_some(), "the zero-sized storage is refused for a type without a size");
        let mut v = ZSVec::<E>::NEW;
        let n = choose(40);
        let s0 = allocs();
        for i in 0..n {
            let e = E::mk(0);
            check!(must("try_push", || v.try_push(e).is_ok()), "the dedicated storage refused element {}", i);
        }
        check!(must("try_reserve", || v.try_reserve(usize::MAX - n)), "the dedicated storage refused a reservation");
        check!(n == 0 || !must("try_reserve", || v.try_reserve(usize::MAX - (n - 1))), "a reservation beyond the largest length succeeded");
        check!(v.len() == n, "the length is {}", v.len());
        check!(allocs() == s0, "the allocator was called");
        owned::<E>("after pushing", n);
        lib(|| drop(v));
        owned::<E>("after dropping", 0);
    }
    match choose(4) {
        0 => one::<TZ>(),
        1 => one::<CZ>(),
        2 => one::<CZA>(),
        _ => check!(ZeroSized::<T1>::TRY_NEW.is_none() && ZeroSized::<T16>::TRY_NEW.is_none(), "the zero-sized storage accepts types with a size"),
    }
}

fn set_lens() {
    match choose(3) {
        0 => lengths(&mut GenericVec::<CZ, [CZ; 2]>::default()),
        1 => {
            let mut b = [CZ; 3];
            let mut v = InitSliceVec::new(&mut b);
            length("new", &v, 3);
            lengths(&mut v)
        }
        _ => lengths::<[CZ]>(&mut GenericVec::<CZ, [CZ; 1]>::default()),
    }
}

/// To and from standard vectors.
#[cfg(feature = "alloc")]
fn standard() {
    let n = choose(5);
    let s0 = allocs();
    let mut std: Vec<TZ> = lib(Vec::new);
    for _ in 0..n {
        std.push(TZ::mk(0));
    }
    let mut v: generic_vec::HeapVec<TZ> = lib(|| std.into());
    check!(v.len() == n, "converted {} elements into {}", n, v.len());
    let mut m = W::new(None);
    m.v = v.iter().map(world::M::of).collect();
    settle("from a standard vector", &v, &mut m);
    any_op(&mut v, &mut m, false);
    let back: Vec<TZ> = lib(|| v.into());
    check!(back.len() == m.len(), "converted {} elements back into {}", m.len(), back.len());
    lib(|| drop(back));
    check!(allocs() == s0, "the allocator was called");
    owned::<TZ>("after the conversions", 0);
}
#[cfg(not(feature = "alloc"))]
fn standard() {}

fn groups(t: Tier) -> Vec<Group> {
    const H1: Hist = Hist { depth: 1, lens: &[0, 1, 2, 3, 4], wide: true };
    const H2: Hist = Hist { depth: 2, lens: &[0, 1, 3], wide: false };
    let mut g = vec![
        Group { name: "dedicated", faults: 0, body: dedicated },
        Group { name: "one-TZ", faults: 0, body: || every::<TZ, _>(&H1) },
        Group { name: "two-TZ", faults: 0, body: || every::<TZ, _>(&H2) },
        Group { name: "one-CZA", faults: 0, body: || every::<CZA, _>(&H1) },
        Group { name: "one-CZA-plain", faults: 0, body: || plain::<CZA, _>(&H1) },
        Group { name: "two-TZ-elsewhere", faults: 0, body: || elsewhere::<TZ, _>(&H2) },
        Group { name: "iterators-TZ", faults: 0, body: || stores::own_zero::<TZ, _>(&Iterate { len: 3 }) },
        Group { name: "cursors-TZ", faults: 0, body: || every::<TZ, _>(&Iterators { lens: &[3, 0, 1], steps: Steps { depth: 2, all: true } }) },
        Group { name: "cursors-CZA", faults: 0, body: || plain::<CZA, _>(&Iterators { lens: &[2], steps: Steps { depth: 2, all: true } }) },
        Group { name: "arrays-TZ", faults: 0, body: || every::<TZ, _>(&Arrays { lens: &[0, 1, 2, 3, 4], times: 2 }) },
        Group { name: "long-TZ", faults: 0, body: || {
            stores::long();
            every::<TZ, _>(&Hist { depth: 1, lens: &[65, 130], wide: true })
        } },
        Group { name: "limit", faults: 0, body: || every::<CZ, _>(&Limit) },
        Group { name: "limit-plain", faults: 0, body: || plain::<CZ, _>(&Limit) },
        Group { name: "owning", faults: 0, body: owning_all },
        Group { name: "set_len", faults: 0, body: set_lens },
        Group { name: "standard", faults: 0, body: standard },
    ];
    if t == Tier::Thorough {
        const H3: Hist = Hist { depth: 3, lens: &[0, 1, 2, 3], wide: false };
        const H2W: Hist = Hist { depth: 2, lens: &[0, 1, 2], wide: true };
        g.push(Group { name: "three-TZ", faults: 0, body: || every::<TZ, _>(&H3) });
        g.push(Group { name: "two-wide-TZ", faults: 0, body: || every::<TZ, _>(&H2W) });
        g.push(Group { name: "limit3-plain", faults: 0, body: || plain::<CZ, _>(&Limit3) });
        g.push(Group { name: "limit3", faults: 0, body: || every::<CZ, _>(&Limit3) });
        g.push(Group { name: "iterators5-TZ", faults: 0, body: || stores::own_zero::<TZ, _>(&Iterate { len: 5 }) });
    }
    g
}

fn main() { run_main("P19", groups) }
