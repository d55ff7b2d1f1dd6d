//! The same histories in every configuration. Nothing is judged here: everything that can be seen is recorded, and the
//! records of the configurations are compared, execution by execution.
#![cfg_attr(feature = "nightly", feature(allocator_api))]
use generic_vec::raw::{Storage, UninitBuffer};
use generic_vec::GenericVec;
use mc::engine::{fault, fault_zone, mix, F_CALL, F_CLONE, F_DROP};
use mc::guard::{slots, Placed};
use mc::ops::{gen, mk, Hint, Refs};
use mc::spy::Spy;
use mc::tok::*;
use mc::*;
use std::cell::RefCell;

fn saw(x: usize) { mc::obs(x as u64) }

/// One element that came out of a call; it is dropped here.
fn one<E: Elem>(e: E) {
    saw(1);
    saw(e.val() as usize);
    saw(e.id() as usize)
}
fn maybe<E: Elem>(e: Option<E>) {
    match e {
        Some(e) => one(e),
        None => saw(0),
    }
}
fn given<E: Elem>(r: Result<&mut E, E>) {
    match r {
        Ok(e) => {
            saw(2);
            saw(e.val() as usize)
        }
        Err(e) => {
            saw(3);
            one(e)
        }
    }
}

/// How the call ended, and everything that happened to elements until then.
fn call<R>(f: impl FnOnce() -> R) -> Option<R> {
    let o = fault_zone(F_CALL | F_CLONE | F_DROP, || attempt(f));
    mc::obs(drop_hash());
    saw(clones() as usize);
    saw(live() as usize);
    match o {
        Outcome::Ret(r) => {
            saw(10);
            Some(r)
        }
        Outcome::Panic => {
            saw(11);
            None
        }
        Outcome::Injected(i) => {
            // a panic in a destructor may leak
            allow_leak();
            spy::allow_leak();
            saw(12 + i as usize);
            None
        }
    }
}

/// A closure body that may panic.
fn user() {
    off(|| {
        if fault(F_CALL) {
            inject(3)
        }
    })
}

/// Everything that can be seen of a vector. The room it has is looked at only if it does not grow on its own.
fn look<E: Elem, S: ?Sized + Storage<E>>(v: &GenericVec<E, S>, exact: bool) {
    saw(v.len());
    let mut h = 5;
    for e in v.iter() {
        h = mix(mix(h, e.val() as u64), e.id() as u64)
    }
    mc::obs(h);
    if exact {
        saw(v.capacity());
        saw(v.remaining_capacity());
        saw(v.is_full() as usize)
    }
    mc::obs(drop_hash());
    saw(live() as usize);
    alloc::check_all();
    mc::state(mix(h, v.len() as u64))
}

fn new<E: Elem>() -> E { off(|| mk::<E>().0) }

/// One of the first `few` of `xs`, or any of them.
fn few<T: Copy>(wide: bool, few: usize, xs: &[T]) -> T { xs[choose(if wide { xs.len() } else { few })] }

/// A number of elements, or a lot more.
fn many(n: usize) -> usize { if stores::is_long() { n * 15 + n.min(1) } else { n } }

fn step<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, exact: bool, w: bool) {
    let n = v.len();
    let at = || few(w, 2, &[0, n, n / 2, n + 1, usize::MAX]);
    let between = |n| few(w, 2, &[(0, n), (n / 2, n), (0, n / 2), (n, n), (n / 2, n + 1), (1, 0)]);
    const HINTS: [Hint; 4] = [Hint::Exact, Hint::Few, Hint::None, Hint::More];
    let k = choose(34);
    op!("operation {} at {}", k, n);
    match k {
        0 => {
            let x = new::<E>();
            if let Some(e) = call(|| v.push(x)) { saw(e.val() as usize) };
        }
        1 => {
            let (i, x) = (at(), new::<E>());
            if let Some(e) = call(|| v.insert(i, x)) { saw(e.val() as usize) };
        }
        2 => {
            if let Some(e) = call(|| v.pop()) { one(e) }
        }
        3 => {
            let i = at();
            if let Some(e) = call(|| v.remove(i)) { one(e) }
        }
        4 => {
            let i = at();
            if let Some(e) = call(|| v.swap_remove(i)) { one(e) }
        }
        5 => {
            if let Some(e) = call(|| v.try_pop()) { maybe(e) }
        }
        6 => {
            let i = at();
            if let Some(e) = call(|| v.try_remove(i)) { maybe(e) }
        }
        7 => {
            let i = at();
            if let Some(e) = call(|| v.try_swap_remove(i)) { maybe(e) }
        }
        8 if exact => {
            let x = new::<E>();
            if let Some(r) = call(|| v.try_push(x)) { given(r) };
        }
        9 if exact => {
            let (i, x) = (pick(&[0, n, n / 2]), new::<E>());
            if let Some(r) = call(|| v.try_insert(i, x)) { given(r) };
        }
        8 | 9 => (),
        10 => {
            let i = at();
            call(|| v.truncate(i));
        }
        11 => {
            call(|| v.clear());
        }
        12 => {
            let (by, x) = (many(few(w, 2, &[5, 1, 0, 2])), new::<E>());
            call(|| v.grow(by, x));
        }
        13 => {
            let (to, x) = (few(w, 2, &[n + many(3), n / 2, 0, n + 1]), new::<E>());
            call(|| v.resize(to, x));
        }
        14 => {
            let by = many(pick(&[0, 1, 3]));
            call(|| v.grow_with(by, || { user(); new::<E>() }));
        }
        15 => {
            let to = pick(&[n + many(2), n / 2]);
            call(|| v.resize_with(to, || { user(); new::<E>() }));
        }
        16 => {
            let (c, h) = (many(few(w, 2, &[3, 0, 1, 2, 4])), few(w, 2, &HINTS));
            let rec = RefCell::new(Vec::with_capacity(8));
            call(|| v.extend(gen::<E>(c, h, &rec)));
            saw(rec.borrow().len());
        }
        17 => {
            let (c, h) = (many(few(w, 1, &[3, 0, 1])), few(w, 1, &HINTS));
            let (xs, _) = ops::mks::<E>(c);
            call(|| v.extend(Refs { src: &xs[..], hint: h, done: false }));
        }
        18 => {
            let (xs, _) = ops::mks::<E>(many(few(w, 2, &[4, 1, 0, 2])));
            call(|| v.extend_from_slice(&xs));
        }
        19 => {
            let (xs, _) = ops::mks::<E>(many(few(w, 2, &[4, 1, 0, 2])));
            call(|| v.clone_from(&xs));
        }
        20 => {
            let (a, b) = between(n);
            let (f, l) = (many(few(w, 1, &[1, 0, 2])), few(w, 1, &[1, 0]));
            let rec = RefCell::new(Vec::with_capacity(8));
            call(|| {
                let mut d = v.drain(a..b);
                off(|| rec.borrow_mut().push(d.len()));
                for i in 0..f + l {
                    let e = if i < f { d.next() } else { d.next_back() };
                    off(|| rec.borrow_mut().push(e.as_ref().map_or(99, |e| e.val() as usize)));
                }
            });
            rec.into_inner().into_iter().for_each(saw)
        }
        21 => {
            let (a, b) = between(n);
            let mask = few(w, 2, &[5, 2, 0, 1, 3, 4, 6, 7]);
            let mut i = 0;
            let c = many(few(w, 1, &[1, 0, 2]));
            let rec = RefCell::new(Vec::with_capacity(8));
            call(|| {
                let mut d = v.drain_filter(a..b, |e| {
                    user();
                    off(|| rec.borrow_mut().push(e.val() as usize));
                    i += 1;
                    mask >> ((i - 1) % 3) & 1 == 1
                });
                for _ in 0..c {
                    let e = d.next();
                    off(|| rec.borrow_mut().push(e.as_ref().map_or(99, |e| e.val() as usize)));
                }
            });
            rec.into_inner().into_iter().for_each(saw)
        }
        22 => {
            let mask = few(w, 2, &[5, 2, 0, 1, 3, 4, 6, 7]);
            let mut i = 0;
            call(|| v.retain(|_| {
                user();
                i += 1;
                mask >> ((i - 1) % 3) & 1 == 1
            }));
        }
        23 => {
            let (a, b) = between(n);
            let (c, h) = (many(few(w, 2, &[3, 0, 1, 2, 4])), few(w, 2, &HINTS));
            // how far a splice has come when it is refused depends on whether there is an allocator to collect in
            let c = if v.capacity() == 70 { c.min(30) } else { c };
            let (f, l) = (few(w, 2, &[0, 1]), few(w, 1, &[0, 1]));
            let rec = RefCell::new(Vec::with_capacity(8));
            let seen = RefCell::new(Vec::with_capacity(8));
            call(|| {
                let mut d = v.splice(a..b, gen::<E>(c, h, &rec));
                off(|| seen.borrow_mut().push(d.len()));
                for i in 0..f + l {
                    let e = if i < f { d.next() } else { d.next_back() };
                    off(|| seen.borrow_mut().push(e.as_ref().map_or(99, |e| e.val() as usize)));
                }
            });
            seen.into_inner().into_iter().for_each(saw)
        }
        24 => {
            let m = pick(&[2, 3]);
            call(|| v.dedup_by(|a, b| {
                user();
                a.val() % m == b.val() % m
            }));
        }
        25 => {
            call(|| v.dedup::<(), ()>());
        }
        26 => {
            let i = at();
            if let Some(o) = call(|| v.split_off::<Spy<E>>(i)) {
                look(&o, true);
                lib(|| drop(o))
            }
        }
        27 => {
            let i = at();
            let mut o = GenericVec::<E, UninitBuffer<[E; 3], E>>::new();
            call(|| {
                o.push(new());
            });
            call(|| v.split_off_into(i, &mut o));
            look(&o, true);
            if flag() {
                call(|| v.append(&mut o));
                look(&o, true)
            }
            lib(|| drop(o))
        }
        28 => {
            let c = many(pick(&[0, 1, 3]));
            if let Some(r) = call(|| v.try_reserve(c)) { saw(r as usize) }
        }
        29 => {
            let c = many(pick(&[0, 1, 3]));
            call(|| v.reserve(c));
        }
        30 => {
            let (a, b) = between(n);
            let moves = [choose(24), choose(if w { 5 } else { 1 })];
            let rec = RefCell::new(Vec::with_capacity(16));
            call(|| {
                let mut c = v.cursor(a..b);
                for &k in &moves {
                    match k {
                        0 => drop(c.try_write_front(new())),
                        1 => c.drop_front(),
                        2 => c.skip_back(),
                        3 => drop(c.take_back()),
                        4 => drop(c.try_write_back(new())),
                        5 => c.skip_front(),
                        6 => c.drop_back(),
                        7 => drop(c.take_front()),
                        8 => c.write_front(new()),
                        9 => c.write_back(new()),
                        10 => c.reserve(1),
                        11 => c.front().map_or((), |e| off(|| rec.borrow_mut().push(e.val() as usize))),
                        12 => c.back_mut().map_or((), |e| off(|| rec.borrow_mut().push(e.val() as usize))),
                        13 | 14 | 15 => c.skip_n_front([1, many(3), usize::MAX][k - 13]),
                        16 | 17 | 18 => c.skip_n_back([1, many(3), usize::MAX][k - 16]),
                        19 | 20 | 21 => c.drop_n_front([1, many(3), usize::MAX][k - 19]),
                        22 => c.drop_n_back(many(2)),
                        _ => c.drop_n_back(5),
                    }
                    off(|| rec.borrow_mut().extend_from_slice(&[c.len(), c.write_front_len(), c.write_back_len(), c.is_write_empty() as usize]));
                }
            });
            rec.into_inner().into_iter().for_each(saw)
        }
        31 if exact => {
            let c = many(pick(&[0, 1]));
            call(|| {
                let mut s = v.spare_capacity_mut();
                for _ in 0..c {
                    let _ = s.try_push(new()).map_err(|e| drop(e));
                }
            });
        }
        31 => (),
        32 => {
            let i = at();
            let r = call(|| v.get(i).map(|e| e.val()));
            saw(r.unwrap_or(None).map_or(77, |x| x as usize));
            let r = call(|| v[i].val());
            saw(r.map_or(77, |x| x as usize));
            let r = call(|| v[..i].len());
            saw(r.map_or(77, |x| x));
        }
        _ => {
            let (xs, _) = ops::mks::<E>(pick(&[1, 0, 2]));
            saw((*v == xs[..]) as usize);
            saw(v.first().map_or(9, |e| e.val() as usize));
        }
    }
    look(v, exact)
}

struct H {
    depth: usize,
    lens: &'static [usize],
    wide: bool,
}

impl H {
    fn go<E: Elem, S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, exact: bool) {
        for _ in 0..pick(self.lens) {
            let x = new::<E>();
            let _ = attempt(|| {
                v.push(x);
            });
        }
        look(v, exact);
        for _ in 0..self.depth {
            step(v, exact, self.wide)
        }
    }
    fn put<E: Elem, S: Storage<E>>(&self, v: GenericVec<E, S>, exact: bool) {
        let mut p = Placed::new(v);
        self.go(&mut *p, exact);
        let v = p.take();
        if exact {
            call(|| drop(v));
        } else {
            let mut it = match call(|| v.into_iter()) {
                Some(it) => it,
                None => return,
            };
            maybe(call(|| it.next_back()).unwrap_or(None));
            let k = if self.depth == 1 { pick(&[9, 0, 1, 2, usize::MAX]) } else { 9 };
            if k != 9 {
                maybe(call(|| it.nth(k)).unwrap_or(None));
                saw(it.len());
                saw(it.as_slice().len())
            }
            maybe(call(|| it.next()).unwrap_or(None));
            call(|| drop(it));
        }
        mc::obs(drop_hash());
        saw(live() as usize)
    }
}

fn common<E: Elem>(h: H) {
    if stores::is_long() {
        return match choose(2) {
            0 => h.put(GenericVec::with_storage(Spy::<E>::new(1, usize::MAX)), true),
            _ => h.put(generic_vec::SliceVec::new(slots::<E>(70)), true),
        }
    }
    match choose(4) {
        0 => h.put(GenericVec::with_storage(Spy::<E>::new(1, usize::MAX)), true),
        1 => h.put(generic_vec::TypeVec::<E, [E; 4]>::new(), true),
        2 => h.put(generic_vec::SliceVec::new(slots::<E>(3)), true),
        _ => h.put(GenericVec::with_storage(Spy::<E>::new(2, 5)), true),
    }
}

/// With room for anything that is done: what is refused during a panic ends the process.
fn roomy<E: Elem>(h: H) {
    match choose(2) {
        0 => h.put(GenericVec::with_storage(Spy::<E>::new(1, usize::MAX)), true),
        _ => h.put(generic_vec::TypeVec::<E, [E; 12]>::new(), true),
    }
}

/// What only plain elements, or storages that hold some already, can do.
fn initialised<E: Elem + Copy + Default, S: Storage<E> + generic_vec::raw::StorageInit<E>>(h: H, mut v: GenericVec<E, S>) {
    let n = pick(&[1, 0, 2, 3, 4, 5, usize::MAX]);
    call(|| v.set_len(n));
    look(&v, true);
    if flag() {
        let n = v.len();
        let (k, front, took) = (pick(&[1, 0, 2, 5]), flag(), pick(&[1, 0, 2]).min(n));
        let (xs, _) = ops::mks::<E>(k);
        let rec = RefCell::new(Vec::with_capacity(16));
        call(|| {
            let mut c = v.cursor(..);
            for _ in 0..took {
                if front { c.drop_front() } else { c.drop_back() }
            }
            if front { c.write_slice_front(&xs) } else { c.write_slice_back(&xs) }
            off(|| rec.borrow_mut().extend_from_slice(&[c.len(), c.write_front_len(), c.write_back_len()]));
        });
        rec.into_inner().into_iter().for_each(saw);
        look(&v, true)
    }
    h.put(v, true)
}

fn plain<E: Elem + Copy + Default>(h: H) {
    match choose(if stores::is_long() { 1 } else { 5 }) {
        3 => {
            let v = GenericVec::<E, [E; 4]>::default();
            return initialised(h, v)
        }
        4 => {
            let mut b = [E::default(); 3];
            let v = generic_vec::InitSliceVec::new(&mut b[..]);
            return initialised(h, v)
        }
        0 => h.put(GenericVec::with_storage(Spy::<E>::new(1, usize::MAX)), true),
        1 => h.put(GenericVec::<E, [E; 4]>::default(), true),
        _ => h.put(GenericVec::<E, UninitBuffer<[u64; 5], u64>>::with_align(), true),
    }
}

#[cfg(feature = "alloc")]
fn heap<E: Elem>(h: H) {
    match choose(2) {
        0 => h.put(generic_vec::HeapVec::<E>::new(), false),
        _ => h.put(lib(|| GenericVec::<E, Box<generic_vec::raw::Heap<E>>>::with_capacity(3)), false),
    }
}

/// Things made anew, in every way that does not need an allocator.
fn made<E: Elem>() {
    let rec = RefCell::new(Vec::with_capacity(32));
    let n = pick(&[0, 1, 3, 4, 5]);
    match choose(6) {
        3 => {
            // keys are compared, relations are asked, bounds of every kind are given
            let mut v = GenericVec::<E, UninitBuffer<[E; 5], E>>::new();
            for _ in 0..n {
                v.push(new());
            }
            call(|| v.dedup_by_key(|e| {
                user();
                e.val() / 2
            }));
            look(&v, true);
            use std::ops::Bound::*;
            let bs = [Unbounded, Included(1), Excluded(0), Excluded(usize::MAX), Included(usize::MAX), Included(v.len())];
            let r = (pick(&bs), pick(&bs));
            call(|| v.drain(r).for_each(drop));
            look(&v, true);
            call(|| drop(v));
        }
        4 => {
            // storages that cannot hold such elements
            let r = match choose(3) {
                0 => call(|| GenericVec::<E, UninitBuffer<[u8; 40], u8>>::with_storage(UninitBuffer::uninit()).len()),
                1 => call(|| GenericVec::<E, UninitBuffer<[u8; 40], u8>>::with_capacity(n).len()),
                _ => call(|| unsafe { GenericVec::<E, UninitBuffer<[u8; 40], u8>>::from_raw_parts(0, UninitBuffer::uninit()) }.len()),
            };
            saw(r.is_some() as usize)
        }
        0 => {
            let h = pick(&[Hint::Exact, Hint::None, Hint::More]);
            if let Some(v) = call(|| gen::<E>(n, h, &rec).collect::<GenericVec<E, UninitBuffer<[E; 4], E>>>()) {
                look(&v, true);
                call(|| drop(v));
            }
        }
        1 => {
            if let Some(v) = call(|| GenericVec::<E, UninitBuffer<[E; 4], E>>::with_capacity(n)) { look(&v, true) }
        }
        2 => {
            let mut v = GenericVec::<E, UninitBuffer<[E; 5], E>>::new();
            for _ in 0..n {
                v.push(new());
            }
            if let Some(w) = call(|| v.clone()) {
                look(&w, true);
                saw((v == w) as usize);
                call(|| drop(w));
            }
            if let Some(w) = call(|| v.convert::<UninitBuffer<[E; 3], E>>()) {
                look(&w, true);
                call(|| drop(w));
            }
        }
        _ => {
            let x = new::<E>();
            if let Some(v) = call(|| -> GenericVec<E, UninitBuffer<[E; 4], E>> { generic_vec::gvec![x; n] }) {
                look(&v, true);
                call(|| drop(v));
            }
        }
    }
}

#[cfg(feature = "nightly")]
fn arrays(h: H) {
    fn go<S: ?Sized + Storage<T16>, const N: usize>(v: &mut GenericVec<T16, S>) {
        let at = pick(&[0, v.len(), v.len() / 2, v.len() + 1]);
        let mk = || { let mut a = std::mem::MaybeUninit::<[T16; N]>::uninit(); unsafe { for i in 0..N { (a.as_mut_ptr() as *mut T16).add(i).write(new()) } a.assume_init() } };
        match choose(6) {
            0 => {
                let a = mk();
                call(|| v.push_array(a).len());
            }
            1 => {
                let a = mk();
                call(|| v.insert_array(at, a).len());
            }
            2 => drop(call(|| v.try_remove_array::<N>(at))),
            3 => drop(call(|| v.try_pop_array::<N>())),
            4 => drop(call(|| v.remove_array::<N>(at))),
            _ => {
                let a = mk();
                if let Some(r) = call(|| v.try_push_array(a).is_ok()) { saw(r as usize) }
            }
        }
        look(v, true)
    }
    let mut v = generic_vec::TypeVec::<T16, [T16; 5]>::new();
    for _ in 0..pick(h.lens) {
        v.push(new());
    }
    for _ in 0..h.depth {
        match choose(3) {
            0 => go::<_, 2>(&mut v),
            1 => go::<_, 0>(&mut v),
            _ => go::<_, 3>(&mut v),
        }
    }
    call(|| drop(v));
}

const ONE: H = H { depth: 1, lens: &[3, 0, 1, 2, 4], wide: true };
const TWO: H = H { depth: 2, lens: &[2, 0, 3], wide: false };

fn groups(t: Tier) -> Vec<Group> {
    let mut g = vec![
        Group { name: "common-T16", faults: 0, body: || common::<T16>(ONE) },
        Group { name: "common-T16-two", faults: 0, body: || common::<T16>(TWO) },
        Group { name: "common-T16-panics", faults: 1, body: || roomy::<T16>(ONE) },
        Group { name: "common-TZ", faults: 0, body: || common::<TZ>(ONE) },
        Group { name: "plain-C2", faults: 0, body: || plain::<C2>(ONE) },
        Group { name: "common-T16-long", faults: 0, body: || { stores::long(); common::<T16>(H { depth: 1, lens: &[40, 0], wide: true }) } },
        Group { name: "plain-C2-long", faults: 0, body: || { stores::long(); plain::<C2>(H { depth: 1, lens: &[40], wide: true }) } },
        #[cfg(feature = "alloc")]
        Group { name: "heap-T16-long", faults: 0, body: || { stores::long(); heap::<T16>(H { depth: 1, lens: &[40, 0], wide: true }) } },
        Group { name: "made-T16", faults: 1, body: || made::<T16>() },
        #[cfg(feature = "alloc")]
        Group { name: "heap-T16-two", faults: 0, body: || heap::<T16>(TWO) },
        #[cfg(feature = "alloc")]
        Group { name: "heap-T16-panics", faults: 1, body: || heap::<T16>(ONE) },
        #[cfg(feature = "nightly")]
        Group { name: "arrays", faults: 0, body: || arrays(TWO) },
    ];
    if t == Tier::Thorough {
        g.push(Group { name: "common-TZ-two", faults: 0, body: || common::<TZ>(TWO) });
        g.push(Group { name: "plain-C2-two", faults: 0, body: || plain::<C2>(TWO) });
        #[cfg(feature = "alloc")]
        g.push(Group { name: "heap-T16-two-panics", faults: 2, body: || heap::<T16>(ONE) });
        #[cfg(feature = "deep")]
        {
            const WIDE: H = H { depth: 2, lens: &[2], wide: true };
            const THREE: H = H { depth: 3, lens: &[2], wide: false };
            g.push(Group { name: "common-T16-wide", faults: 0, body: || common::<T16>(WIDE) });
            g.push(Group { name: "common-T16-three", faults: 0, body: || common::<T16>(THREE) });
            #[cfg(feature = "alloc")]
            g.push(Group { name: "heap-T16-three", faults: 0, body: || heap::<T16>(THREE) });
            g.push(Group { name: "plain-C16", faults: 0, body: || plain::<C16>(TWO) });
            #[cfg(feature = "alloc")]
            g.push(Group { name: "heap-T3", faults: 1, body: || heap::<T3>(ONE) });
            #[cfg(feature = "alloc")]
            g.push(Group { name: "heap-C16", faults: 0, body: || heap::<C16>(TWO) });
        }
        #[cfg(feature = "nightly")]
        g.push(Group { name: "arrays-three", faults: 0, body: || arrays(H { depth: 3, lens: &[2, 1, 4], wide: false }) });
    }
    g
}

fn main() { run_main("P26", groups) }
