//! Reservations of every magnitude.
use generic_vec::raw::{Storage, StorageWithCapacity, UninitBuffer};
use generic_vec::GenericVec;
use mc::ops::*;
use mc::stores::{self, Body, Kind};
use mc::sys::{in_child, Child};
use mc::tok::*;
use mc::*;
use std::mem::size_of;

/// Amounts around every boundary that matters: small ones, the room, powers of two, the address space divided by the
/// element size, the largest numbers, and all of these reduced by the current length.
fn amount(len: usize, room: usize, z: usize) -> usize {
    let z = z.max(1);
    const P: [usize; 9] = [10, 16, 20, 21, 31, 32, 47, 62, 63];
    let near = |x: usize, d: usize| match d {
        0 => x,
        1 => x.wrapping_sub(1),
        _ => x.wrapping_add(1),
    };
    match choose(8) {
        0 => choose(10),
        1 => near(room, choose(3)),
        2 => near(1usize << pick(&P), choose(3)),
        3 => near(usize::MAX / z, choose(3)).wrapping_sub(if flag() { len } else { 0 }),
        4 => near(isize::MAX as usize / z, choose(3)).wrapping_sub(if flag() { len } else { 0 }),
        5 => usize::MAX - choose(len + 3),
        6 => near((1usize << 63) / z, choose(3)).wrapping_sub(if flag() { len } else { 0 }),
        _ => isize::MAX as usize + choose(3) - 1,
    }
}

fn small(n: usize) -> bool { n <= 64 }

/// What a call that may abort did.
fn outcome<R>(f: impl FnOnce() -> R, met: impl FnOnce(R) -> bool) -> Child {
    in_child(|| match attempt(f) {
        Outcome::Ret(r) => {
            if met(r) {
                10
            } else {
                11
            }
        }
        _ => 12,
    })
}

/// The storage kept its promise, or refused by a panic or an abort.
fn judge(what: &str, c: Child, may_succeed: bool) {
    match c {
        Child::Exit(10) if may_succeed => (),
        Child::Exit(10) => fail!("{}: returned although it cannot be met", what),
        Child::Exit(11) => fail!("{}: returned without delivering the room", what),
        Child::Exit(12) | Child::Signal(6) => (),
        c => fail!("{}: ended by {:?}", what, c),
    }
}

struct Reserve {
    lens: &'static [usize],
    rounds: usize,
}

impl<E: Elem> Body<E> for Reserve {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(self.lens));
        for _ in 0..self.rounds {
            let (len, cap) = (m.len(), v.capacity());
            let room = cap - len;
            let n = amount(len, room, size_of::<E>());
            let st = still(v);
            let s0 = alloc::allocs();
            if flag() {
                let what = op!("try_reserve {} at {} of {}", n, len, cap);
                let ok = must(what, || v.try_reserve(n));
                check!(ok || room < n, "{}: refused although there is room for {}", what, room);
                if ok {
                    check!(len.checked_add(n).map_or(false, |c| v.capacity() >= c), "{}: succeeded, but the capacity is {}", what, v.capacity());
                } else {
                    st.cap(what, v);
                    let s1 = alloc::allocs();
                    check!(s1.allocs == s0.allocs && s1.frees == s0.frees && s1.live == s0.live, "{}: refused, but blocks were obtained or released", what);
                    check!(k.cap.is_some() || !small(n), "{}: a small request was refused", what);
                }
                if room >= n {
                    st.all(what, v)
                }
                settle(what, v, &mut m);
                if ok && (k.cap.is_none() || E::ZST) && small(n) {
                    use_room(what, v, &mut m, n)
                }
            } else {
                let what = op!("reserve {} at {} of {}", n, len, cap);
                if small(n) {
                    let o = attempt(|| v.reserve(n));
                    if k.cap.map_or(true, |c| c - len >= n) {
                        o.ret(what);
                        check!(v.capacity() - len >= n, "{}: the capacity is {}", what, v.capacity());
                    } else {
                        o.must_panic(what);
                        st.cap(what, v)
                    }
                    if room >= n {
                        st.all(what, v)
                    }
                    settle(what, v, &mut m);
                    if k.cap.is_none() && v.capacity() - len >= n {
                        use_room(what, v, &mut m, n)
                    }
                } else {
                    // may abort: done by a child
                    let c = in_child(|| match attempt(|| v.reserve(n)) {
                        Outcome::Ret(()) => {
                            let mut m2 = m.clone();
                            settle(what, v, &mut m2);
                            if len.checked_add(n).map_or(false, |c| v.capacity() >= c) {
                                10
                            } else {
                                11
                            }
                        }
                        _ => 12,
                    });
                    judge(what, c, room >= n || (k.cap.is_none() && n.checked_mul(size_of::<E>()).map_or(false, |b| b <= alloc::HUGE)));
                    settle(what, v, &mut m);
                }
            }
        }
    }
}

/// That many elements can be added without another allocation.
fn use_room<E: Elem, S: ?Sized + Storage<E>>(what: &str, v: &mut GenericVec<E, S>, m: &mut W, n: usize) {
    let st = still(v);
    for _ in 0..n {
        let (e, x) = mk::<E>();
        must(what, || drop(v.push(e)));
        m.v.push(x);
    }
    st.all(what, v);
    settle(what, v, m)
}

/// Building with a requested capacity. `max` is the most it can ever hold.
fn create<S: StorageWithCapacity<E>, E: Elem>(max: Option<usize>) {
    let z = size_of::<E>().max(1);
    let n = amount(0, max.unwrap_or(4), z);
    let what = op!("with_capacity {} of {} bytes each", n, z);
    let possible = E::ZST || max.map_or(n.checked_mul(z).map_or(false, |b| b <= alloc::HUGE), |c| n <= c);
    if small(n) || (E::ZST && max.is_none()) {
        let o = attempt(|| GenericVec::<E, S>::with_capacity(n));
        if possible {
            let mut v = o.ret(what);
            check!(v.capacity() >= n, "{}: the capacity is {}", what, v.capacity());
            let mut m = W::new(None);
            settle(what, &v, &mut m);
            use_room(what, &mut v, &mut m, n.min(64));
            lib(|| drop(v));
        } else {
            o.map_away(what)
        }
    } else {
        judge(what, outcome(|| GenericVec::<E, S>::with_capacity(n), |v| v.capacity() >= n && v.len() == 0), possible)
    }
}

trait Away {
    fn map_away(self, what: &str);
}
impl<R> Away for Outcome<R> {
    fn map_away(self, what: &str) {
        match self {
            Outcome::Panic => (),
            _ => fail!("{}: returned although it cannot be met", what),
        }
    }
}

/// A growable vector behind another slot type.
#[cfg(feature = "alloc")]
fn creations() {
    use generic_vec::raw::Heap;
    match choose(13) {
        0 => create::<UninitBuffer<[T16; 3]>, T16>(Some(3)),
        1 => create::<UninitBuffer<[u8; 10], u64>, T3>(Some(5)),
        2 => create::<[C16; 5], C16>(Some(5)),
        3 => create::<generic_vec::raw::ZeroSized<TZ>, TZ>(None),
        4 => create::<UninitBuffer<[TZ; 2]>, TZ>(None),
        5 => create::<Heap<T16>, T16>(None),
        6 => create::<Heap<T1>, T1>(None),
        7 => create::<Heap<u64>, T3>(None),
        8 => create::<Heap<[u64; 3]>, T1>(None),
        9 => create::<Heap<TZ>, TZ>(None),
        10 => create::<Box<Heap<T16>>, T16>(None),
        11 => create::<Box<UninitBuffer<[T16; 3]>>, T16>(Some(3)),
        _ => create::<Heap<u8>, T3>(None),
    }
}
#[cfg(not(feature = "alloc"))]
fn creations() {
    match choose(5) {
        0 => create::<UninitBuffer<[T16; 3]>, T16>(Some(3)),
        1 => create::<UninitBuffer<[u8; 10], u64>, T3>(Some(5)),
        2 => create::<[C16; 5], C16>(Some(5)),
        3 => create::<generic_vec::raw::ZeroSized<TZ>, TZ>(None),
        _ => create::<UninitBuffer<[TZ; 2]>, TZ>(None),
    }
}

/// A storage asked directly. `fixed`: it never grows.
fn direct<E: Elem, S: Storage<E>>(mut s: S, fixed: bool) {
    for _ in 0..2 {
        let cap = s.capacity();
        let at = s.as_ptr() as usize;
        let n = match choose(3) {
            0 => pick(&[cap, 0, cap.wrapping_sub(1), cap.wrapping_add(1), cap / 2, cap.wrapping_mul(2)]),
            1 => pick(&[1, 2, 9, 25, 64]),
            _ => pick(&[usize::MAX, usize::MAX - 1, isize::MAX as usize, usize::MAX / size_of::<E>().max(1), usize::MAX / 8 + 2, 1 << 62]),
        };
        let fits = n <= cap;
        let s0 = alloc::allocs();
        if flag() {
            let what = op!("Storage::try_reserve({}) of {}", n, cap);
            let ok = must(what, || s.try_reserve(n));
            check!(ok || !fits, "{}: refused although it has that much", what);
            check!(!ok || s.capacity() >= n, "{}: succeeded with a capacity of {}", what, s.capacity());
            check!(ok || s.capacity() == cap, "{}: refused, but the capacity is {}", what, s.capacity());
            check!(ok || fixed || !small(n), "{}: a small request was refused", what)
        } else if small(n) || fits {
            let what = op!("Storage::reserve({}) of {}", n, cap);
            let o = attempt(|| s.reserve(n));
            if fixed && !fits {
                o.must_panic(what);
                check!(s.capacity() == cap, "{}: refused, but the capacity is {}", what, s.capacity())
            } else {
                o.ret(what);
                check!(s.capacity() >= n, "{}: the capacity is {}", what, s.capacity())
            }
        } else {
            let what = op!("Storage::reserve({}) of {}", n, cap);
            let may = !fixed && n.checked_mul(size_of::<E>()).map_or(false, |b| b <= alloc::HUGE);
            judge(what, outcome(|| s.reserve(n), |_| true), may);
            continue
        }
        let s1 = alloc::allocs();
        if fits || fixed {
            check!(s1.allocs == s0.allocs && s1.frees == s0.frees, "a request of {} that a storage of {} meets went to the allocator", n, cap);
            check!(s.as_ptr() as usize == at && s.capacity() == cap, "a request of {} that a storage of {} meets changed it", n, cap)
        }
        check!(s.as_mut_ptr() as usize == s.as_ptr() as usize, "the two pointers differ");
        check!(s.as_ptr() as usize % std::mem::align_of::<E>() == 0, "the slots are misaligned");
        alloc::check_all()
    }
    lib(|| drop(s))
}

/// Storages asked directly.
fn storages() {
    use generic_vec::raw::UninitSlice;
    match choose(if cfg!(feature = "alloc") { 14 } else { 6 }) {
        0 => direct::<T16, _>(UninitBuffer::<[T16; 3]>::uninit(), true),
        1 => direct::<T3, _>(UninitBuffer::<[u8; 10], u64>::uninit(), true),
        2 => direct::<T16, _>(UninitSlice::from_mut(guard::slots::<T16>(2)), true),
        3 => direct::<T3, _>(UninitSlice::from_mut(guard::slots::<u64>(2)), true),
        4 => direct::<C16, _>([C16::mk(1); 3], true),
        5 => direct::<TZ, _>(generic_vec::raw::ZeroSized::<TZ>::default(), true),
        #[cfg(feature = "alloc")]
        n => {
            use generic_vec::raw::Heap;
            match n {
                6 => direct::<T16, _>(Heap::<T16>::new(), false),
                7 => direct::<T3, _>(Heap::<u64>::default(), false),
                8 => direct::<T1, _>(Heap::<[u64; 3]>::default(), false),
                9 => direct::<T4, _>(lib(|| <Heap<T4> as StorageWithCapacity<T4>>::with_capacity(5)), false),
                10 => direct::<T16, _>(lib(|| Box::new(Heap::<T16>::new())), false),
                11 => direct::<T16, _>(lib(|| Box::new(UninitBuffer::<[T16; 3]>::uninit())), true),
                12 => direct::<T3, _>(lib(|| <Heap<[u64; 3]> as StorageWithCapacity<T3>>::with_capacity(9)), false),
                _ => {
                    let mut h = Heap::<T16>::new();
                    direct::<T16, _>(&mut h, false);
                    lib(|| drop(h))
                }
            }
        }
        #[cfg(not(feature = "alloc"))]
        _ => fail!("no such storage"),
    }
}

/// Requests made by way of other calls: growing, a cursor, and lengths near the limit.
struct Ways;

impl<E: Elem> Body<E> for Ways {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(&[2usize, 0, 1]));
        let (len, cap) = (m.len(), v.capacity());
        let room = cap - len;
        let n = amount(len, room, size_of::<E>());
        if small(n) && k.cap.map_or(true, |c| c - len >= n) || n <= room {
            return
        }
        // none of these can be met
        if n.checked_mul(size_of::<E>()).map_or(false, |b| b <= alloc::HUGE) && k.cap.is_none() {
            return
        }
        let way = choose(5);
        let what = op!("a request for {} at {} of {}, way {}", n, len, cap, way);
        let a = in_child(|| {
            let o = attempt(|| match way {
                0 => v.grow_with(n, || off(|| mk::<E>().0)),
                1 => {
                    let e = off(|| mk::<E>().0);
                    if len.checked_add(n).is_none() {
                        panic!("not expressible")
                    }
                    v.resize_with(len + n, || off(|| fatal_len()));
                    drop(e)
                }
                2 => v.cursor(len / 2..).reserve(n),
                3 => v.cursor(..).reserve(n),
                _ => v.grow(n, off(|| mk::<E>().0)),
            });
            match o {
                Outcome::Ret(()) => 10,
                _ => {
                    let mut m2 = m.clone();
                    m2.cap = k.cap;
                    settle(what, v, &mut m2);
                    12
                }
            }
        });
        match a {
            Child::Exit(12) | Child::Signal(6) => (),
            Child::Exit(10) => fail!("{}: returned although it cannot be met", what),
            c => fail!("{}: ended by {:?}", what, c),
        }
        settle(what, v, &mut m)
    }
}

fn fatal_len<E>() -> E { fail!("the closure was called although there is no room") }

fn groups(t: Tier) -> Vec<Group> {
    const R: Reserve = Reserve { lens: &[3, 0, 1, 2], rounds: 1 };
    const R2: Reserve = Reserve { lens: &[2], rounds: 1 };
    let mut g = vec![
        Group { name: "T16-growable", faults: 0, body: || stores::growable::<T16, _>(&R) },
        Group { name: "T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&R2) },
        Group { name: "T16-wrapped", faults: 0, body: || stores::wrapped::<T16, _>(&R2) },
        Group { name: "T3-elsewhere", faults: 0, body: || stores::reinterpreted::<T3, _>(&R2) },
        Group { name: "TZ", faults: 0, body: || stores::zero::<TZ, _>(&R) },
        Group { name: "C1", faults: 0, body: || stores::plain::<C1, _>(&R2) },
        Group { name: "storages", faults: 0, body: storages },
        Group { name: "creations", faults: 0, body: creations },
        Group { name: "ways-T16", faults: 0, body: || stores::growable::<T16, _>(&Ways) },
        Group { name: "ways-T3-elsewhere", faults: 0, body: || stores::reinterpreted::<T3, _>(&Ways) },
        Group { name: "ways-T16-fixed", faults: 0, body: || stores::fixed_ref::<T16, _>(&Ways) },
    ];
    if t == Tier::Thorough {
        const D: Reserve = Reserve { lens: &[3, 0], rounds: 2 };
        g.push(Group { name: "two-T16", faults: 0, body: || stores::growable::<T16, _>(&D) });
        g.push(Group { name: "two-T3-elsewhere", faults: 0, body: || stores::reinterpreted::<T3, _>(&D) });
    }
    g
}

fn main() { run_main("P15", groups) }
