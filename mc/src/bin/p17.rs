//! Moving elements between vectors over different storages.
use generic_vec::raw::{Storage, StorageWithCapacity, UninitBuffer, UninitSlice, ZeroSized};
use generic_vec::{GenericVec, SliceVec, TypeVec};
use mc::guard::slots;
use mc::ops::*;
use mc::spy::Spy;
use mc::stores::{self, Body, Kind, Taker};
use mc::tok::*;
use mc::*;
use std::mem::size_of;

const LENS: &[usize] = &[3, 0, 1, 2, 4, 5];

/// Splits off a new vector. `max`: the most the new storage can hold.
fn off_new<E: Elem, S: ?Sized + Storage<E>, B: StorageWithCapacity<E>>(v: &mut GenericVec<E, S>, m: &mut W, max: Option<usize>) {
    let max = if E::ZST { None } else { max };
    let n = m.len();
    let i = if flag() { past(n + 1) } else { upto(n) };
    let what = op!("split_off at {} of {} into a new storage", i, n);
    let st = still(v);
    let o: Outcome<GenericVec<E, B>> = attempt(|| v.split_off::<B>(i));
    if i > n || max.map_or(false, |c| n - i > c) {
        gone(what, o);
        st.cap(what, v);
        settle(what, v, m);
        return owned::<E>(what, n)
    }
    let mut w = o.ret(what);
    let mut t = W::new(max);
    t.v = m.v.split_off(i);
    check!(w.capacity() >= t.len(), "{}: the new capacity is {}", what, w.capacity());
    settle(what, &w, &mut W { v: t.v.clone(), cap: None });
    st.cap(what, v);
    settle(what, v, m);
    owned::<E>(what, n);
    after(what, v, m, &mut w, &mut t);
    lib(|| drop(w));
    owned::<E>(what, m.len())
}

fn gone<R>(what: &str, o: Outcome<R>) {
    match o {
        Outcome::Panic => (),
        _ => fail!("{}: returned although the request must be refused by a panic", what),
    }
}

/// Both vectors stay usable; possibly the elements come back.
fn after<E: Elem, S: ?Sized + Storage<E>, B: ?Sized + Storage<E>>(what: &str, v: &mut GenericVec<E, S>, m: &mut W, w: &mut GenericVec<E, B>, t: &mut W) {
    match choose(4) {
        0 => (),
        1 => {
            let o = attempt(|| v.append(w));
            if m.fits(t.len()) {
                o.ret(what);
                m.v.extend(t.v.drain(..))
            } else {
                gone(what, o)
            }
        }
        2 => {
            let (e, x) = mk::<E>();
            let r = attempt(|| w.try_push(e).map(|_| ())).ret(what);
            if r.is_ok() {
                t.v.push(x)
            }
            let (e, x) = mk::<E>();
            let q = attempt(|| v.try_push(e).map(|_| ())).ret(what);
            if q.is_ok() {
                m.v.push(x)
            }
        }
        _ => {
            let e = attempt(|| w.try_pop()).ret(what);
            yielded(what, e, t.v.pop());
            let e = attempt(|| v.try_remove(0)).ret(what);
            yielded(what, e, if m.len() > 0 { Some(m.v.remove(0)) } else { None })
        }
    }
    check!(v.len() == m.len() && w.len() == t.len(), "{}: lengths are {} and {}", what, v.len(), w.len());
    same(what, v.as_slice(), &mut m.v);
    same(what, w.as_slice(), &mut t.v);
}

/// Moves a tail into an existing vector, or appends all of it.
fn off_into<E: Elem, S: ?Sized + Storage<E>, B: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, w: &mut GenericVec<E, B>, fixed: bool) {
    let max = if fixed && !E::ZST { Some(w.capacity()) } else { None };
    let mut t = W::new(max);
    fill(w, &mut t, pick(if stores::is_long() { &[0usize, 17, 40] } else { &[0usize, 1, 2] }));
    let n = m.len();
    let all = flag();
    let i = if all {
        0
    } else if flag() {
        past(n + 1)
    } else {
        upto(n)
    };
    let what = op!(if all { "append {2} to {3}" } else { "split_off_into at {} of {} to {3}" }, i, n, t.len());
    let st = still(v);
    let sw = still(w);
    let o = attempt(|| if all { w.append(v) } else { v.split_off_into(i, w) });
    let owns = n + t.len();
    if i <= n && t.fits(n - i) {
        o.ret(what);
        t.v.extend(m.v.split_off(i))
    } else {
        o.must_panic(what);
        sw.cap(what, w)
    }
    st.cap(what, v);
    settle(what, v, m);
    settle(what, w, &mut t);
    owned::<E>(what, owns);
    after(what, v, m, w, &mut t);
}

/// Every kind of destination from one source.
struct Move;

impl<E: Elem> Body<E> for Move {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(if stores::is_huge() { stores::HUGE } else if stores::is_long() { stores::LENGTHS } else { LENS }));
        let m = &mut m;
        #[cfg(feature = "alloc")]
        let n = 13;
        #[cfg(not(feature = "alloc"))]
        let n = 10;
        match choose(n) {
            0 => off_new::<E, S, Spy<E>>(v, m, None),
            1 => off_new::<E, S, UninitBuffer<[E; 2], E>>(v, m, Some(2)),
            2 => off_new::<E, S, UninitBuffer<[E; 5], E>>(v, m, Some(5)),
            3 => off_new::<E, S, UninitBuffer<[E; 0], E>>(v, m, Some(0)),
            4 => {
                spy::set_limit(3);
                off_new::<E, S, Spy<E>>(v, m, Some(3))
            }
            5 => off_into(v, m, &mut GenericVec::with_storage(Spy::<E>::new(1, usize::MAX)), false),
            6 => off_into(v, m, &mut SliceVec::new(slots::<E>(if stores::is_huge() { 1050 } else if stores::is_long() { 70 } else { 3 })), true),
            7 => off_into(v, m, &mut TypeVec::<E, [E; 5]>::new(), true),
            8 => {
                let mut b = Spy::<E>::new(2, usize::MAX);
                off_into(v, m, &mut GenericVec::<E, &mut Spy<E>>::with_storage(&mut b), false);
            }
            9 => off_into(v, m, &mut GenericVec::with_storage(Spy::<E>::new(4, 4)), true),
            #[cfg(feature = "alloc")]
            10 => off_new::<E, S, generic_vec::raw::Heap<E>>(v, m, None),
            #[cfg(feature = "alloc")]
            11 => off_new::<E, S, Box<UninitBuffer<[E; 4], E>>>(v, m, Some(4)),
            #[cfg(feature = "alloc")]
            _ => {
                let c = if stores::is_long() { 40 } else { choose(3) };
                off_into(v, m, &mut lib(|| generic_vec::HeapVec::<E>::with_capacity(c)), false)
            }
            #[cfg(not(feature = "alloc"))]
            _ => (),
        }
        lib(|| v.clear());
        owned::<E>("after clearing the source", 0);
    }
}

/// Between storages of another slot type.
struct Across;

impl<E: Elem> Body<E> for Across {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(&[4usize, 0, 1, 3]));
        let m = &mut m;
        #[cfg(feature = "alloc")]
        let n = 7;
        #[cfg(not(feature = "alloc"))]
        let n = 5;
        let z = size_of::<E>();
        match choose(n) {
            0 => off_new::<E, S, UninitBuffer<[u64; 4], u64>>(v, m, Some(32 / z)),
            1 => off_new::<E, S, UninitBuffer<[u8; 9], u64>>(v, m, Some(16 / z)),
            2 => off_new::<E, S, Spy<E>>(v, m, None),
            3 => off_into(v, m, &mut GenericVec::<E, &mut UninitSlice<u64>>::with_storage(UninitSlice::from_mut(slots::<u64>(5))), true),
            4 => off_into(v, m, &mut TypeVec::<E, [E; 5]>::new(), true),
            #[cfg(feature = "alloc")]
            5 => off_new::<E, S, generic_vec::raw::Heap<u64>>(v, m, None),
            #[cfg(feature = "alloc")]
            _ => off_into(v, m, &mut GenericVec::<E, generic_vec::raw::Heap<[u64; 3]>>::with_storage(Default::default()), false),
            #[cfg(not(feature = "alloc"))]
            _ => (),
        }
    }
}

/// Between storages of plain data.
struct Plain;

impl<E: Elem + Copy + Default> Body<E> for Plain {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(LENS));
        let m = &mut m;
        match choose(7) {
            0 => off_new::<E, S, [E; 3]>(v, m, Some(3)),
            1 => off_new::<E, S, [E; 0]>(v, m, Some(0)),
            2 => off_new::<E, S, [E; 5]>(v, m, Some(5)),
            3 => off_new::<E, S, UninitBuffer<[E; 4], E>>(v, m, Some(4)),
            4 => off_into(v, m, &mut GenericVec::<E, [E; 4]>::default(), true),
            5 => off_into::<E, S, [E]>(v, m, &mut GenericVec::<E, [E; 3]>::default(), true),
            _ => off_into(v, m, &mut GenericVec::with_storage(Spy::<E>::new(0, usize::MAX)), false),
        }
    }
}

/// Between storages of nothing.
struct Zero;

impl<E: Elem> Body<E> for Zero {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(LENS));
        let m = &mut m;
        match choose(4) {
            0 => off_new::<E, S, ZeroSized<E>>(v, m, None),
            1 => off_new::<E, S, UninitBuffer<[E; 2], E>>(v, m, None),
            2 => off_into(v, m, &mut generic_vec::ZSVec::<E>::new(), false),
            _ => off_into(v, m, &mut TypeVec::<E, [E; 0]>::new(), false),
        }
        lib(|| v.clear());
        owned::<E>("after clearing the source", 0);
    }
}

fn zero<E: Elem>() {
    let b = &Zero;
    let k = Kind { name: "zero-sized", cap: None, initial: usize::MAX };
    match choose(3) {
        0 => b.run(&mut generic_vec::ZSVec::<E>::new(), k),
        1 => b.run(&mut TypeVec::<E, [E; 3]>::new(), k),
        _ => stores::growable::<E, _>(b),
    }
}

/// Conversion to another storage.
struct Convert;

fn convert<E: Elem, S: Storage<E>, B: StorageWithCapacity<E>>(v: GenericVec<E, S>, m: W, max: Option<usize>) {
    let max = if E::ZST { None } else { max };
    let n = m.len();
    let what = op!("convert {} elements", n);
    let spies = spy::live();
    let o: Outcome<GenericVec<E, B>> = attempt(|| v.convert::<B>());
    if max.map_or(false, |c| n > c) {
        gone(what, o);
        check!(spy::live() <= spies, "{}: refused, but a storage is still there", what);
        return owned::<E>(what, 0)
    }
    let mut w = o.ret(what);
    let mut t = W::new(None);
    t.v = m.v;
    settle(what, &w, &mut t);
    owned::<E>(what, n);
    let e = attempt(|| w.try_pop()).ret(what);
    yielded(what, e, t.v.pop());
    let (e, x) = mk::<E>();
    if attempt(|| w.try_push(e).map(|_| ())).ret(what).is_ok() {
        t.v.push(x)
    }
    settle(what, &w, &mut t);
    lib(|| drop(w))
}

impl<E: Elem> Taker<E> for Convert {
    fn take<S: Storage<E>>(&self, mut v: GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(&mut v, &mut m, pick(if stores::is_huge() { stores::HUGE } else if stores::is_long() { stores::LENGTHS } else { LENS }));
        #[cfg(feature = "alloc")]
        let n = 7;
        #[cfg(not(feature = "alloc"))]
        let n = 4;
        match choose(n) {
            0 => convert::<E, S, Spy<E>>(v, m, None),
            1 => convert::<E, S, UninitBuffer<[E; 3], E>>(v, m, Some(3)),
            2 => convert::<E, S, UninitBuffer<[E; 5], E>>(v, m, Some(5)),
            3 => convert::<E, S, UninitBuffer<[u64; 4], u64>>(v, m, if E::ZST { None } else { Some(32 / size_of::<E>()) }),
            #[cfg(feature = "alloc")]
            4 => convert::<E, S, generic_vec::raw::Heap<E>>(v, m, None),
            #[cfg(feature = "alloc")]
            5 => convert::<E, S, Box<generic_vec::raw::Heap<E>>>(v, m, None),
            #[cfg(feature = "alloc")]
            _ => convert::<E, S, Box<UninitBuffer<[E; 2], E>>>(v, m, Some(2)),
            #[cfg(not(feature = "alloc"))]
            _ => (),
        }
    }
}

/// Sources whose capacity is a constant, so that a conversion may skip its checks.
fn constant<E: Elem>() {
    macro_rules! from {
        ($($n:literal)*) => {{
            const NS: &[usize] = &[$($n),*];
            match pick(NS) {
                $($n => Move.run(&mut TypeVec::<E, [E; $n]>::new(), Kind { name: "array", cap: Some($n), initial: $n }),)*
                _ => (),
            }
        }};
    }
    from!(0 1 2 3 4 5 6)
}

fn own<E: Elem, B: Body<E>>(b: &B) {
    match choose(2) {
        0 => stores::growable::<E, _>(b),
        _ => stores::fixed::<E, _>(b),
    }
}

fn groups(t: Tier) -> Vec<Group> {
    let mut g = vec![
        Group { name: "T16", faults: 0, body: || own::<T16, _>(&Move) },
        Group { name: "T16-constant", faults: 0, body: constant::<T16> },
        Group { name: "T3-across", faults: 0, body: || stores::reinterpreted::<T3, _>(&Across) },
        Group { name: "C16-plain", faults: 0, body: || stores::plain::<C16, _>(&Plain) },
        Group { name: "TZ", faults: 0, body: zero::<TZ> },
        Group { name: "convert-T16", faults: 0, body: || match choose(2) {
            0 => stores::own_growable::<T16, _>(&Convert),
            _ => stores::own_fixed::<T16, _>(&Convert),
        } },
        Group { name: "convert-T3", faults: 0, body: || stores::own_elsewhere::<T3, _>(&Convert) },
        Group { name: "convert-TZ", faults: 0, body: || stores::own_zero::<TZ, _>(&Convert) },
    ];
    g.push(Group { name: "long-T16", faults: 0, body: || { stores::long(); own::<T16, _>(&Move) } });
    g.push(Group { name: "long-convert-T16", faults: 0, body: || { stores::long(); stores::own_growable::<T16, _>(&Convert) } });
    g.push(Group { name: "huge-T16", faults: 0, body: || { stores::huge(); own::<T16, _>(&Move) } });
    g.push(Group { name: "huge-convert-T16", faults: 0, body: || { stores::huge(); stores::own_growable::<T16, _>(&Convert) } });
    g.push(Group { name: "big-TB-convert", faults: 0, body: || stores::own_growable::<TB, _>(&Convert) });
    let _ = (&mut g, t);
    #[cfg(feature = "deep")]
    {
        g.push(Group { name: "T16-wrapped", faults: 0, body: || stores::wrapped::<T16, _>(&Move) });
        g.push(Group { name: "T4-across", faults: 0, body: || stores::reinterpreted::<T4, _>(&Across) });
        g.push(Group { name: "C3-plain", faults: 0, body: || stores::plain::<C3, _>(&Plain) });
        g.push(Group { name: "CZ", faults: 0, body: zero::<CZ> });
        g.push(Group { name: "convert-C16", faults: 0, body: || stores::own_plain::<C16, _>(&Convert) });
    }
    g
}

fn main() { run_main("P17", groups) }
