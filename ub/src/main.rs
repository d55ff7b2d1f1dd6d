//! Every history of safe calls within the bounds, meant to be run by something that sees undefined behaviour:
//! Miri, or valgrind for the parts that Miri cannot compile.
#![allow(clippy::all)]
#![cfg_attr(feature = "nightly", feature(allocator_api))]
mod engine;
use engine::*;
use generic_vec::raw::{Storage, StorageWithCapacity, UninitBuffer};
use generic_vec::{save_spare, GenericVec, InitSliceVec, SliceVec, TypeVec, ZSVec};
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};

static LIVE: Racy<i64> = Racy::new(0);
fn live() -> i64 { *LIVE.g() }

fn user() {
    if fault() {
        std::panic::resume_unwind(Box::new(()))
    }
}

/// What elements can do.
trait Elem: Clone + PartialEq {
    /// whether it has no size
    const LIMIT: bool = false;
    fn new() -> Self;
    /// reads all of it
    fn look(&self) -> u8;
}

/// Owns memory.
struct D(Box<u8>);
impl Elem for D {
    fn new() -> D {
        *LIVE.g() += 1;
        e().made += 1;
        D(Box::new(e().made))
    }
    fn look(&self) -> u8 { *self.0 }
}
impl Drop for D {
    fn drop(&mut self) {
        *LIVE.g() -= 1;
        *self.0 += 1;
        user()
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        user();
        *LIVE.g() += 1;
        D(Box::new(self.look()))
    }
}
impl PartialEq for D {
    fn eq(&self, o: &D) -> bool { self.look() / 2 == o.look() / 2 }
}

/// Plain, with padding and a field that must not be anything.
#[derive(Clone, Copy, PartialEq, Default)]
struct P {
    a: bool,
    b: u32,
}
impl Elem for P {
    fn new() -> P {
        e().made += 1;
        P { a: e().made % 2 == 0, b: e().made as u32 / 2 }
    }
    fn look(&self) -> u8 { if self.a { 1 } else { self.b as u8 } }
}

/// Nothing, but with a destructor.
struct Z;
impl Elem for Z {
    const LIMIT: bool = true;
    fn new() -> Z {
        *LIVE.g() += 1;
        Z
    }
    fn look(&self) -> u8 { 0 }
}
impl Drop for Z {
    fn drop(&mut self) {
        *LIVE.g() -= 1;
        user()
    }
}
impl Clone for Z {
    fn clone(&self) -> Z {
        user();
        Z::new()
    }
}
impl PartialEq for Z {
    fn eq(&self, _: &Z) -> bool { true }
}

/// A call into the crate; what it gives back is looked at by `then`.
fn call<R>(f: impl FnOnce() -> R) -> Option<R> {
    e().steps += 1;
    e().zone = true;
    let r = catch_unwind(AssertUnwindSafe(f));
    e().zone = false;
    r.ok()
}

fn look<E: Elem, S: ?Sized + Storage<E>>(v: &GenericVec<E, S>) {
    let mut x = 0u8;
    for e in v.iter() {
        x = x.wrapping_add(e.look())
    }
    if v.len() > v.capacity() || x == 255 && v.is_empty() {
        fail("more elements than there is room for")
    }
}

fn seen<E: Elem>(e: E) {
    if e.look() == 255 {
        fail("impossible")
    }
}

/// An iterator that announces what it likes, and may go on after its end.
struct Gen<E> {
    left: usize,
    low: usize,
    again: bool,
    mark: std::marker::PhantomData<E>,
}
impl<E: Elem> Iterator for Gen<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        user();
        if self.left == 0 {
            if self.again {
                self.again = false;
                self.left = 1
            }
            return None
        }
        self.left -= 1;
        Some(E::new())
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.low, None) }
}
fn gen<E: Elem>(w: bool) -> Gen<E> {
    let left = few(w, 2, &[3, 0, 1, 2]);
    // honest, silent, too much, too little
    let low = few(w, 2, &[left, left / 2, 0, left + 3]);
    Gen { left, low, again: if w { choose(2) == 1 } else { true }, mark: std::marker::PhantomData }
}

struct Refs<'a, E>(&'a [E], usize);
impl<'a, E> Iterator for Refs<'a, E> {
    type Item = &'a E;
    fn next(&mut self) -> Option<&'a E> {
        let (a, b) = self.0.split_first()?;
        self.0 = b;
        Some(a)
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.1, None) }
}

fn some<E: Elem>(n: usize) -> Vec<E> { (0..n).map(|_| E::new()).collect() }

fn drain_on<E: Elem>(w: bool, mut it: impl DoubleEndedIterator<Item = E>) {
    for _ in 0..few(w, 2, &[1, 0, 2]) {
        it.next().map(seen);
    }
    for _ in 0..few(w, 1, &[1, 0]) {
        it.next_back().map(seen);
    }
    if choose(if w { 3 } else { 2 }) == 1 {
        e().may_leak = true;
        std::mem::forget(it)
    }
}

fn step<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, w: bool) {
    let n = v.len();
    let at = || few(w, 3, &[0, n, n.saturating_sub(1), n / 2, n + 1, usize::MAX]);
    let span = || few(w, 2, &[(0, n), (n / 2, n), (0, n / 2), (n, n), (n / 2, n + 1), (1, 0), (usize::MAX, usize::MAX)]);
    match choose(32) {
        0 => {
            let x = E::new();
            call(|| v.push(x).look());
        }
        1 => {
            let (i, x) = (at(), E::new());
            call(|| v.insert(i, x).look());
        }
        2 => {
            call(|| seen(v.pop()));
        }
        3 => {
            let i = at();
            call(|| seen(v.remove(i)));
        }
        4 => {
            let i = at();
            call(|| seen(v.swap_remove(i)));
        }
        5 => {
            let i = at();
            match choose(3) {
                0 => call(|| v.try_pop().map(seen)),
                1 => call(|| v.try_remove(i).map(seen)),
                _ => call(|| v.try_swap_remove(i).map(seen)),
            };
        }
        6 => {
            let x = E::new();
            call(|| match v.try_push(x) {
                Ok(e) => drop(e.look()),
                Err(e) => seen(e),
            });
        }
        7 => {
            let (i, x) = (few(w, 2, &[0, n, n / 2]), E::new());
            call(|| match v.try_insert(i, x) {
                Ok(e) => drop(e.look()),
                Err(e) => seen(e),
            });
        }
        8 => {
            let i = at();
            call(|| v.truncate(i));
        }
        9 => {
            call(|| v.clear());
        }
        10 => {
            let (k, x) = (few(w, 2, &[2, 0, 5, usize::MAX]), E::new());
            call(|| v.grow(if E::LIMIT { k.min(9) } else { k }, x));
        }
        11 => {
            let (k, x) = (few(w, 2, &[n + 2, n / 2, 0]), E::new());
            call(|| v.resize(k, x));
        }
        12 => {
            let k = few(w, 1, &[2, 0, 5]);
            call(|| v.grow_with(k, || {
                user();
                E::new()
            }));
        }
        13 => {
            let k = few(w, 1, &[n + 2, n / 2]);
            call(|| v.resize_with(k, || {
                user();
                E::new()
            }));
        }
        14 => {
            let g = gen::<E>(w);
            call(|| v.extend(g));
        }
        15 => {
            let xs = some::<E>(few(w, 1, &[2, 0, 4]));
            let low = few(w, 2, &[xs.len(), xs.len() / 2, xs.len() + 5]);
            call(|| v.extend(Refs(&xs, low)));
        }
        16 => {
            let xs = some::<E>(few(w, 2, &[2, 4, 0]));
            call(|| v.extend_from_slice(&xs));
        }
        17 => {
            let xs = some::<E>(few(w, 2, &[1, 4, 0]));
            call(|| v.clone_from(&xs));
        }
        18 => {
            let (a, b) = span();
            call(|| drain_on(w, v.drain(a..b)));
        }
        19 => {
            let (a, b) = span();
            let (mask, mut i) = (few(w, 2, &[5, 2, 0, 7]), 0);
            let k = few(w, 1, &[1, 0, 2]);
            call(|| {
                let mut d = v.drain_filter(a..b, |x| {
                    user();
                    x.look();
                    i += 1;
                    mask >> (i - 1) & 1 == 1
                });
                for _ in 0..k {
                    d.next().map(seen);
                }
                if choose(2) == 1 {
                    e().may_leak = true;
                    std::mem::forget(d)
                }
            });
        }
        20 => {
            let (mask, mut i) = (few(w, 2, &[5, 2, 0, 7]), 0);
            call(|| v.retain(|x| {
                user();
                x.look();
                i += 1;
                mask >> (i - 1) & 1 == 1
            }));
        }
        21 => {
            let (a, b) = span();
            let g = gen::<E>(w);
            call(|| drain_on(w, v.splice(a..b, g)));
        }
        22 => match choose(2) {
            0 => {
                call(|| v.dedup::<(), ()>());
            }
            _ => {
                let (mask, mut i) = (few(w, 2, &[5, 2, 0, 7]), 0);
                call(|| v.dedup_by(|a, b| {
                    user();
                    a.look();
                    b.look();
                    i += 1;
                    mask >> (i - 1) & 1 == 1
                }));
            }
        },
        23 => {
            let i = at();
            call(|| {
                let o: GenericVec<E, UninitBuffer<[E; 3], E>> = v.split_off(i);
                look(&o)
            });
        }
        24 => {
            let i = at();
            let mut o = GenericVec::<E, UninitBuffer<[E; 3], E>>::new();
            o.push(E::new());
            call(|| v.split_off_into(i, &mut o));
            look(&o);
            look(v);
            if choose(2) == 0 {
                call(|| v.append(&mut o));
                look(&o)
            }
        }
        25 => {
            let k = few(w, 2, &[1, 3, usize::MAX]);
            call(|| if choose(2) == 0 { v.reserve(k) } else { drop(v.try_reserve(k)) });
        }
        26 => {
            let (a, b) = span();
            let moves = [choose(9), choose(if w { 9 } else { 1 })];
            call(|| {
                let mut c = v.cursor(a..b);
                for &m in &moves {
                    match m {
                        0 => drop(c.try_write_front(E::new()).map_err(seen)),
                        1 => c.drop_front(),
                        2 => c.skip_back(),
                        3 => seen(c.take_back()),
                        4 => c.write_back(E::new()),
                        5 => c.skip_n_front(2),
                        6 => c.drop_n_back(2),
                        7 => c.reserve(2),
                        _ => {
                            c.front().map(|x| x.look());
                            c.back_mut().map(|x| x.look());
                        }
                    }
                }
                if choose(if w { 2 } else { 1 }) == 1 {
                    e().may_leak = true;
                    std::mem::forget(c)
                }
            });
        }
        27 => {
            let k = few(w, 1, &[1, 0, 2]);
            let how = choose(3);
            e().zone = true;
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut s = v.spare_capacity_mut();
                for _ in 0..k {
                    let _ = s.try_push(E::new()).map_err(seen);
                }
                look(&s);
                match how {
                    0 => (),
                    1 => {
                        e().may_leak = true;
                        std::mem::forget(s)
                    }
                    _ => {
                        unsafe { save_spare!(s, v) };
                    }
                }
            }));
            e().zone = false;
            drop(r)
        }
        28 => {
            let i = at();
            call(|| v.get(i).map(|x| x.look()));
            call(|| v[i].look());
            call(|| v[i..].iter().map(|x| x.look()).count());
            call(|| v[..i].iter_mut().map(|x| x.look()).count());
        }
        29 => {
            let xs = some::<E>(few(w, 1, &[2, 0]));
            call(|| *v == xs[..]);
            call(|| v.iter().rev().map(|x| x.look()).count());
        }
        30 => {
            // everything at once, by the standard slice methods
            call(|| v.reverse());
            call(|| v.swap(0, n));
            call(|| v.last_mut().map(|x| x.look()));
        }
        _ => {
            let (a, b) = span();
            call(|| {
                let mut it = v.drain(a..b);
                it.nth(1).map(seen);
                it.nth_back(0).map(seen);
                it.size_hint()
            });
        }
    }
    look(v)
}

#[derive(Clone, Copy)]
struct H {
    depth: usize,
    lens: &'static [usize],
    wide: bool,
}
const ONE: H = H { depth: 1, lens: &[3, 0, 1, 2], wide: true };
const TWO: H = H { depth: 2, lens: &[2, 0, 3], wide: false };
const PAIR: H = H { depth: 2, lens: &[3], wide: false };
const SOME: H = H { depth: 1, lens: &[3, 2], wide: false };
const ALL: H = H { depth: 1, lens: &[3, 0, 1, 2], wide: false };
const FEW: H = H { depth: 1, lens: &[3, 1, 0], wide: false };

impl H {
    fn go<E: Elem, S: ?Sized + Storage<E>>(self, v: &mut GenericVec<E, S>) {
        for _ in 0..pick(self.lens) {
            drop(v.try_reserve(1) && v.try_push(E::new()).is_ok())
        }
        for _ in 0..self.depth {
            step(v, self.wide)
        }
    }
    /// and then given away
    fn own<E: Elem, S: Storage<E>>(self, mut v: GenericVec<E, S>) {
        self.go(&mut v);
        match choose(if self.wide { 5 } else { 3 }) {
            0 => {
                call(|| drop(v));
            }
            2 => {
                let k = if self.wide && e().faults > 0 { pick(&[1, 0, 2, usize::MAX]) } else { 1 };
                let mut it = v.into_iter();
                call(|| it.nth(k).map(seen));
                call(|| it.nth(0).map(seen));
                call(|| drop(it));
            }
            1 => {
                call(|| {
                    let mut it = v.into_iter();
                    it.next().map(seen);
                    it.as_slice().iter().map(|x| x.look()).count();
                    it.next_back().map(seen);
                    it.as_mut_slice().iter().map(|x| x.look()).count();
                    let (a, _) = it.size_hint();
                    a
                });
            }
            3 => {
                call(|| {
                    let o: GenericVec<E, UninitBuffer<[E; 4], E>> = v.convert();
                    look(&o);
                    let p = o.clone();
                    drop(o);
                    look(&p)
                });
            }
            _ => {
                call(|| v.into_iter().fold(0u8, |a, x| {
                    user();
                    a.wrapping_add(x.look())
                }));
            }
        }
    }
}

fn fixed<E: Elem>(h: H) {
    match choose(3) {
        0 => h.own(TypeVec::<E, [E; 4]>::new()),
        1 => {
            let mut b: [MaybeUninit<E>; 3] = [MaybeUninit::uninit(), MaybeUninit::uninit(), MaybeUninit::uninit()];
            h.own(SliceVec::new(&mut b[..]))
        }
        _ => {
            let mut b = UninitBuffer::<[E; 3], E>::uninit();
            let mut v = GenericVec::<E, &mut UninitBuffer<[E; 3], E>>::with_storage(&mut b);
            h.go(&mut v)
        }
    }
}

/// With room for anything: what is refused during a panic ends the process.
fn roomy<E: Elem>(h: H) { h.own(TypeVec::<E, [E; 12]>::new()) }

#[cfg(feature = "alloc")]
fn heap<E: Elem>(h: H, kinds: usize) {
    match choose(kinds) {
        0 => h.own(generic_vec::HeapVec::<E>::new()),
        1 => h.own(generic_vec::HeapVec::<E>::with_capacity(3)),
        _ => h.own(GenericVec::<E, Box<UninitBuffer<[E; 3], E>>>::with_capacity(2)),
    }
}

fn plain(h: H) {
    match choose(5) {
        0 => {
            let mut b = [P::default(); 4];
            let mut v = InitSliceVec::new(&mut b[..]);
            let n = few(h.wide, 2, &[4, 2, 0, 5]);
            call(|| v.set_len(n));
            look(&v);
            h.own(v)
        }
        1 => {
            let mut v = GenericVec::<P, [P; 3]>::default();
            h.go(&mut v);
            let n = few(h.wide, 2, &[3, 2, 4]);
            call(|| v.set_len(n));
            look(&v)
        }
        // elements in slots of another type
        2 => h.own(TypeVec::<P, [u64; 3], u64>::with_align()),
        3 => h.own(TypeVec::<P, [u8; 27], u32>::with_align()),
        #[cfg(feature = "alloc")]
        4 => h.own(GenericVec::<P, generic_vec::raw::Heap<u64>>::with_storage(Default::default())),
        _ => (),
    }
}

fn zero(h: H) {
    match choose(2) {
        0 => h.own(ZSVec::<Z>::new()),
        _ => h.own(TypeVec::<Z, [Z; 2]>::new()),
    }
}

fn make<E: Elem, S: StorageWithCapacity<E>>(w: bool) {
    let g = gen::<E>(w);
    let r = call(|| g.collect::<GenericVec<E, S>>());
    if let Some(v) = r {
        look(&v);
        let r = call(|| v.clone());
        if let Some(mut w) = r {
            look(&w);
            call(|| Clone::clone_from(&mut w, &v));
            look(&w);
            call(|| drop((w, v)));
        }
    }
    let x = E::new();
    let n = few(w, 2, &[2, 0, 1, 3]);
    call(|| {
        let v: GenericVec<E, S> = generic_vec::gvec![x; n];
        look(&v)
    });
    call(|| {
        let v: GenericVec<E, S> = generic_vec::gvec![E::new(), E::new()];
        look(&v)
    });
}

fn making(w: bool) {
    match choose(3) {
        0 => make::<D, UninitBuffer<[D; 3], D>>(w),
        #[cfg(feature = "alloc")]
        1 => make::<D, generic_vec::raw::Heap<D>>(w),
        #[cfg(feature = "alloc")]
        2 => {
            // to and from the standard vector
            let n = choose(4);
            let v = generic_vec::HeapVec::from(some::<D>(n));
            look(&v);
            let mut s = Vec::from(v);
            s.push(D::new());
            let mut v = generic_vec::HeapVec::from(s);
            v.push(D::new());
            look(&v)
        }
        _ => (),
    }
}

#[cfg(feature = "nightly")]
fn arrays() {
    let mut v = TypeVec::<D, [D; 5]>::new();
    for _ in 0..choose(4) {
        v.push(D::new());
    }
    for _ in 0..2 {
        let at = pick(&[0, v.len(), 1, v.len() + 1]);
        let two = || [D::new(), D::new()];
        match choose(8) {
            0 => drop(call(|| v.push_array(two()).iter().map(|x| x.look()).count())),
            1 => drop(call(|| v.insert_array(at, two()).len())),
            2 => drop(call(|| v.pop_array::<2>())),
            3 => drop(call(|| v.try_pop_array::<1>())),
            4 => drop(call(|| v.remove_array::<2>(at))),
            5 => drop(call(|| v.try_remove_array::<1>(at))),
            6 => drop(call(|| v.try_push_array(two()).is_ok())),
            _ => drop(call(|| v.try_insert_array(at.min(v.len()), two()).is_ok())),
        }
        look(&v)
    }
    drop(call(|| TypeVec::<D, [D; 2]>::from_array([D::new(), D::new()]).into_array()));
}

/// `slow` is for the interpreter.
fn groups(slow: bool, deep: bool) -> Vec<(&'static str, u32, fn())> {
    let mut g: Vec<(&'static str, u32, fn())> = Vec::new();
    // every operation with a few arguments
    g.push(("few-fixed", 0, || fixed::<D>(FEW)));
    g.push(("few-roomy-panics", 1, || roomy::<D>(FEW)));
    g.push(("few-plain", 0, || plain(FEW)));
    g.push(("few-zero", 0, || zero(FEW)));
    g.push(("few-making", 0, || making(false)));
    #[cfg(feature = "alloc")]
    g.push(("few-heap", 0, || heap::<D>(FEW, 3)));
    #[cfg(feature = "alloc")]
    g.push(("few-heap-panics", 1, || heap::<D>(FEW, 1)));
    #[cfg(feature = "nightly")]
    g.push(("arrays", 1, || arrays()));
    if slow && deep {
        g.push(("all-fixed", 0, || fixed::<D>(ALL)));
        g.push(("all-zero", 0, || zero(ALL)));
        g.push(("all-plain", 0, || plain(ALL)));
        g.push(("making", 1, || making(true)));
        #[cfg(feature = "alloc")]
        g.push(("all-heap", 0, || heap::<D>(ALL, 3)));
        g.push(("all-roomy-panics", 1, || roomy::<D>(ALL)));
        #[cfg(feature = "alloc")]
        g.push(("all-heap-panics", 1, || heap::<D>(ALL, 2)));
    }
    if !slow {
        // with many arguments
        g.push(("fixed", 0, || fixed::<D>(ONE)));
        g.push(("zero", 0, || zero(ONE)));
        g.push(("making", 1, || making(true)));
        #[cfg(feature = "alloc")]
        g.push(("heap", 0, || heap::<D>(ONE, 2)));
        g.push(("roomy-panics", 1, || roomy::<D>(SOME)));
        #[cfg(feature = "alloc")]
        g.push(("heap-panics", 1, || heap::<D>(SOME, 2)));
    }
    if !slow {
        g.push(("plain", 0, || plain(SOME)));
        // pairs
        g.push(("fixed-pairs", 0, || fixed::<D>(PAIR)));
        #[cfg(feature = "alloc")]
        g.push(("heap-pairs", 0, || heap::<D>(PAIR, 2)));
        if deep {
            g.push(("fixed-two", 0, || fixed::<D>(TWO)));
            #[cfg(feature = "alloc")]
            g.push(("heap-two", 0, || heap::<D>(TWO, 3)));
            g.push(("plain-all", 0, || plain(ONE)));
            g.push(("plain-two", 0, || plain(TWO)));
            g.push(("zero-two", 0, || zero(TWO)));
            g.push(("zero-panics", 1, || zero(SOME)));
            g.push(("roomy-two-panics", 1, || roomy::<D>(TWO)));
            #[cfg(feature = "alloc")]
            g.push(("heap-two-panics", 1, || heap::<D>(TWO, 2)));
        }
    }
    g
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // PART PARTS [slow] [deep] [print] [replay GROUP:TRAIL]
    let (part, parts): (u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let flag = |n: &str| a.iter().any(|x| x == n);
    let replay = a.iter().position(|x| x == "replay").map(|i| a[i + 1].clone());
    let only = a.iter().position(|x| x == "only").map(|i| a[i + 1].clone());
    if !flag("print") {
        std::panic::set_hook(Box::new(|_| ()))
    }
    for (name, faults, body) in groups(flag("slow"), flag("deep")) {
        if only.as_ref().map_or(false, |o| o != name) {
            continue
        }
        match &replay {
            None => {
                println!("GROUP {}", name);
                run(name, faults, body, live, part, parts, flag("print"), None)
            }
            Some(r) => {
                let mut it = r.split(':');
                if it.next() == Some(name) {
                    run(name, faults, body, live, 0, 1, true, it.next())
                }
            }
        }
    }
    println!("UB-DONE")
}
