//! Heap storage and its allocator.
#![cfg_attr(feature = "nightly", feature(allocator_api, shrink_to))]
#[cfg(feature = "alloc")]
mod go {
    use generic_vec::raw::{Heap, Storage};
    use generic_vec::{GenericVec, HeapVec};
    use mc::guard::Placed;
    use mc::ops::*;
    use mc::tok::*;
    use mc::*;

    /// The capacity in slots and in elements before a call, and what must hold afterwards.
    struct Growth {
        cap: usize,
    }

    fn watch<E: Elem, S: ?Sized + Storage<E>>(v: &GenericVec<E, S>) -> Growth { Growth { cap: v.capacity() } }

    impl Growth {
        fn check<E: Elem, S: ?Sized + Storage<E>>(&self, v: &GenericVec<E, S>, slack: usize) {
            let now = v.capacity();
            check!(now >= self.cap, "the capacity shrank from {} to {}", self.cap, now);
            check!(now == self.cap || now + slack >= 2 * self.cap, "the capacity grew from {} to only {}", self.cap, now);
        }
    }

    fn history<E: Elem, S: Storage<E>>(v: GenericVec<E, S>, lens: &[usize], depth: usize, slack: usize, wide: bool) {
        let mut v = Placed::new(v);
        let mut m = W::new(None);
        fill(&mut *v, &mut m, pick(lens));
        settle("start", &*v, &mut m);
        for _ in 0..depth {
            let w = watch(&*v);
            any_op(&mut *v, &mut m, wide);
            w.check(&*v, slack);
            check!(E::ZST || alloc::allocs().live <= 1, "the vector owns {} blocks", alloc::allocs().live);
            check!(E::ZST || (alloc::allocs().live == 1) == (v.capacity() > 0), "capacity {} with {} blocks", v.capacity(), alloc::allocs().live);
            check!(!E::ZST || alloc::allocs().allocs == 0, "a vector of zero-sized elements allocated");
        }
        match choose(3) {
            0 => drop(v),
            1 => {
                let mut it = lib(|| v.take().into_iter());
                lib(|| drop(it.next()));
                lib(|| drop(it))
            }
            _ => {
                // by way of the parts
                let (l, s) = lib(|| v.take().into_raw_parts());
                let v = must("from_raw_parts", || unsafe { GenericVec::<E, S>::from_raw_parts(l, s) });
                settle("from_raw_parts", &v, &mut m);
                lib(|| drop(v))
            }
        }
        owned::<E>("at the end", 0);
        let a = alloc::allocs();
        check!(a.live == 0, "{} blocks are left", a.live);
    }

    fn heap<E: Elem>(lens: &[usize], depth: usize, wide: bool) {
        match choose(3) {
            0 => history(HeapVec::<E>::new(), lens, depth, 0, wide),
            1 => {
                let c = pick(&[1usize, 3, 4]);
                history(lib(|| HeapVec::<E>::with_capacity(c)), lens, depth, 0, wide)
            }
            _ => history(GenericVec::<E, Heap<E>>::default(), lens, depth, 0, wide),
        }
    }

    /// Heap blocks counted in slots of another type: doubling is of slots.
    fn elsewhere<E: Elem>(lens: &[usize], depth: usize) {
        match choose(2) {
            0 => history(GenericVec::<E, Heap<u64>>::default(), lens, depth, 8 / std::mem::size_of::<E>().max(1), false),
            _ => {
                let c = pick(&[1usize, 9]);
                history(lib(|| GenericVec::<E, Heap<[u64; 3]>>::with_capacity(c)), lens, depth, 24 / std::mem::size_of::<E>().max(1), false)
            }
        }
    }

    /// Growing one by one takes logarithmically many allocations, whichever way it grows.
    fn log_many<E: Elem>(n: usize) {
        let way = choose(10);
        let mut v = HeapVec::<E>::new();
        let mut m: Vec<M> = Vec::with_capacity(2 * n);
        let mut doublings = 0;
        op!("growing to {} one by one, way {}", n, way);
        for k in 0..n {
            let cap = v.capacity();
            let a = alloc::allocs().allocs;
            let (e, x) = mk::<E>();
            match way {
                0 => must("push", || drop(v.push(e))),
                1 => must("insert", || drop(v.insert(0, e))),
                2 => must("grow", || v.grow(1, e)),
                3 => must("extend", || v.extend(Some(e))),
                4 => must("reserve", || { v.reserve(1); v.push(e); }),
                5 => must("try_reserve", || { v.try_reserve(1); v.push(e); }),
                6 => {
                    let mut e = Some(e);
                    must("resize_with", || v.resize_with(k + 1, || e.take().unwrap()))
                }
                7 => {
                    let mut o = GenericVec::with_storage(spy::Spy::<E>::new(1, 1));
                    must("append", || { o.push(e); v.append(&mut o) })
                }
                8 => must("splice", || drop(v.splice(k.., Some(e)))),
                _ => must("cursor", || { let mut c = v.cursor(k..); c.reserve(1); c.write_back(e) }),
            }
            if way == 1 {
                m.insert(0, x)
            } else {
                m.push(x)
            }
            let grew = alloc::allocs().allocs - a;
            if way != 8 {
                check!(grew == (k == cap) as u64, "element {} of capacity {} took {} allocations", k, cap, grew)
            }
            check!(k < cap || v.capacity() >= 2 * cap, "the capacity went from {} to {}", cap, v.capacity());
            doublings += (v.capacity() != cap) as usize;
            check!((1usize << doublings) <= 4 * (k + 2), "{} growths for {} elements", doublings, k + 1);
        }
        same("contents", &v, &mut m);
        lib(|| drop(v));
        check!(alloc::allocs().live == 0, "blocks are left");
    }

    /// Growing beyond what implementations like to treat as large.
    fn large() {
        let mut v = HeapVec::<u16>::new();
        let n = pick(&[1usize << 10, (1 << 12) + 1, 1 << 15, 1 << 17]);
        let way = choose(7);
        op!("a block of {} filled, then grown by one, way {}", n, way);
        must("reserve", || v.reserve(n));
        let n = v.capacity();
        must("resize_with", || {
            let mut k = 0u16;
            v.resize_with(n, || {
                k = k.wrapping_add(1);
                k
            })
        });
        let a = alloc::allocs().allocs;
        match way {
            0 => must("push", || drop(v.push(7))),
            1 => must("insert", || drop(v.insert(n, 7))),
            2 => must("grow", || v.grow(1, 7)),
            3 => must("extend", || v.extend(Some(7))),
            4 => must("extend_from_slice", || v.extend_from_slice(&[7])),
            5 => check!(must("try_reserve", || v.try_reserve(1)), "a reservation was refused"),
            _ => must("reserve", || v.reserve(1)),
        }
        check!(alloc::allocs().allocs - a == 1 && alloc::allocs().live == 1, "growing once took {} allocations", alloc::allocs().allocs - a);
        check!(v.capacity() >= 2 * n, "the capacity went from {} to {}", n, v.capacity());
        check!(v.len() == n + (way < 5) as usize, "the length is {}", v.len());
        check!((0..n).all(|k| v[k] == (k as u16).wrapping_add(1)) && (way >= 5 || v[n] == 7), "the contents were changed");
        alloc::check_all();
        lib(|| drop(v));
        check!(alloc::allocs().live == 0, "blocks are left");
    }

    /// Several vectors at once, each with its own allocator, exchanging elements.
    #[cfg(feature = "nightly")]
    fn owners(depth: usize) {
        use mc::alloc::Tagged;
        type V = HeapVec<T16, Tagged>;
        let mut a = V::with_alloc(Tagged(1));
        let mut b = V::with_alloc(Tagged(2));
        let mut ma = W::new(None);
        let mut mb = W::new(None);
        fill(&mut a, &mut ma, pick(&[2usize, 0, 4]));
        fill(&mut b, &mut mb, pick(&[1usize, 0, 5]));
        for _ in 0..depth {
            let (wa, wb) = (watch(&a), watch(&b));
            let n = ma.len();
            match choose(15) {
                0 => insert(&mut a, &mut ma, Form::Plain, n, true),
                1 => grow(&mut b, &mut mb, 5, false),
                2 => {
                    op!("append");
                    must("append", || a.append(&mut b));
                    ma.v.append(&mut mb.v)
                }
                3 => {
                    op!("split_off_into");
                    must("split_off_into", || a.split_off_into(n / 2, &mut b));
                    let mut t = ma.v.split_off(n / 2);
                    mb.v.append(&mut t)
                }
                4 => {
                    op!("swap");
                    std::mem::swap(&mut a, &mut b);
                    std::mem::swap(&mut ma, &mut mb);
                    continue
                }
                5 => {
                    op!("to a standard vector and back");
                    let v: Vec<T16, Tagged> = must("into", || a.into());
                    check!(v.len() == n && v.capacity() == wa.cap, "length {} capacity {}", v.len(), v.capacity());
                    same("into Vec", &v, &mut ma.v);
                    a = must("from", || V::from(v))
                }
                6 => {
                    op!("a standard vector that grew");
                    let mut v: Vec<T16, Tagged> = must("into", || a.into());
                    let (e, x) = mk::<T16>();
                    lib(|| v.push(e));
                    lib(|| v.reserve(3));
                    ma.v.push(x);
                    a = must("from", || V::from(v))
                }
                7 => {
                    op!("a standard vector that shrank");
                    let mut v: Vec<T16, Tagged> = must("into", || a.into());
                    // shrinking to nothing makes the standard vector of this toolchain ask for a zero-sized block
                    if n == 0 {
                        lib(|| v.reserve(1))
                    }
                    lib(|| v.shrink_to(n.max(1)));
                    a = must("from", || V::from(v));
                    settle("from a shrunk vector", &a, &mut ma);
                    check!(a.capacity() == n.max(1), "the capacity is {}", a.capacity());
                    continue
                }
                8 => {
                    op!("through the parts");
                    let (l, s) = lib(|| a.into_raw_parts());
                    let (p, c, al) = lib(|| s.into_raw_parts_with_alloc());
                    check!(c == wa.cap && l == n, "parts {} {}", l, c);
                    a = must("from_raw_parts_in", || unsafe { V::from_raw_parts(l, Heap::from_raw_parts_in(p, c, al)) })
                }
                9 => {
                    op!("clone");
                    let c = must("clone", || a.clone());
                    let mut mc = W::new(None);
                    mc.v = ma.v.iter().map(|x| M::fresh(x.val)).collect();
                    settle("clone", &c, &mut mc);
                    lib(|| drop(c))
                }
                10 => {
                    op!("splice what the other drains");
                    let k = mb.len();
                    must("splice", || drop(a.splice(..n / 2, b.drain(..k / 2))));
                    let t: Vec<M> = mb.v.drain(..k / 2).collect();
                    ma.v.splice(..n / 2, t);
                }
                11 => {
                    op!("extend by a converted one");
                    let c: V = must("split_off", || b.split_off(0));
                    must("extend", || a.extend(c));
                    ma.v.append(&mut mb.v)
                }
                12 => {
                    op!("drop and begin anew");
                    must("drop", || drop(a));
                    ma.v.clear();
                    a = V::with_alloc(Tagged(3));
                    continue
                }
                13 => reserve(&mut a, &mut ma, 7, Form::Try),
                _ => {
                    op!("into_iter partly consumed");
                    let mut it = lib(|| a.into_iter());
                    lib(|| drop(it.next_back()));
                    lib(|| drop(it));
                    ma.v.clear();
                    a = V::with_alloc(Tagged(1));
                    continue
                }
            }
            wa.check(&a, 0);
            wb.check(&b, 0);
            settle("first", &a, &mut ma);
            settle("second", &b, &mut mb);
            owned::<T16>("after an exchange", ma.len() + mb.len());
        }
        lib(|| drop(a));
        lib(|| drop(b));
        check!(alloc::allocs().live == 0, "blocks are left");
    }

    /// The same with the global allocator and standard vectors.
    fn standard(depth: usize) {
        let mut a = HeapVec::<T16>::new();
        let mut ma = W::new(None);
        fill(&mut a, &mut ma, pick(&[2usize, 0, 4, 5]));
        for _ in 0..depth {
            let w = watch(&a);
            let n = ma.len();
            match choose(8) {
                0 => insert(&mut a, &mut ma, Form::Plain, n, true),
                1 => {
                    op!("to a standard vector and back");
                    let p = a.as_ptr() as usize;
                    let v: Vec<T16> = must("into", || a.into());
                    check!(v.len() == n && v.capacity() == w.cap && v.as_ptr() as usize == p, "length {} capacity {}", v.len(), v.capacity());
                    same("into Vec", &v, &mut ma.v);
                    a = must("from", || HeapVec::from(v));
                    check!(a.capacity() == w.cap && a.as_ptr() as usize == p, "capacity {}", a.capacity());
                }
                2 => {
                    op!("a standard vector that grew");
                    let mut v: Vec<T16> = must("into", || a.into());
                    let (e, x) = mk::<T16>();
                    lib(|| v.push(e));
                    lib(|| v.reserve(3));
                    ma.v.push(x);
                    a = must("from", || HeapVec::from(v))
                }
                3 => {
                    op!("a standard vector that shrank");
                    let mut v: Vec<T16> = must("into", || a.into());
                    lib(|| v.shrink_to_fit());
                    a = must("from", || HeapVec::from(v));
                    settle("from a shrunk vector", &a, &mut ma);
                    check!(a.capacity() == n, "the capacity is {}", a.capacity());
                    continue
                }
                4 => {
                    op!("through the parts");
                    let (l, s) = lib(|| a.into_raw_parts());
                    let (p, c) = lib(|| s.into_raw_parts());
                    check!(c == w.cap && l == n, "parts {} {}", l, c);
                    a = must("from_raw_parts", || unsafe { HeapVec::from_raw_parts(l, Heap::from_raw_parts(p, c)) })
                }
                5 => {
                    op!("convert to another block");
                    let b: HeapVec<T16> = must("convert", || a.convert());
                    a = b;
                    settle("convert", &a, &mut ma);
                    continue
                }
                6 => {
                    op!("clone and drop the original");
                    let c = must("clone", || a.clone());
                    lib(|| drop(a));
                    for x in ma.v.iter_mut() {
                        x.id = 0
                    }
                    a = c;
                    settle("clone", &a, &mut ma);
                    continue
                }
                _ => {
                    op!("collect anew");
                    let it = lib(|| a.into_iter());
                    a = must("collect", || it.collect());
                    settle("collect", &a, &mut ma);
                    continue
                }
            }
            w.check(&a, 0);
            settle("after", &a, &mut ma);
        }
        lib(|| drop(a));
        check!(alloc::allocs().live == 0, "blocks are left");
    }

    pub fn groups(t: Tier) -> Vec<Group> {
        let mut g = vec![
            Group { name: "one-T16", faults: 0, body: || heap::<T16>(&[3, 0, 1, 4, 5], 1, true) },
            Group { name: "two-T16", faults: 0, body: || heap::<T16>(&[0, 3], 2, false) },
            Group { name: "two-TZ", faults: 0, body: || heap::<TZ>(&[0, 3], 2, false) },
            Group { name: "elsewhere-T1", faults: 0, body: || elsewhere::<T1>(&[0, 7, 8], 1) },
            Group { name: "one-by-one", faults: 0, body: || log_many::<T4>(1100) },
            Group { name: "one-by-one-T16", faults: 0, body: || log_many::<T16>(300) },
            Group { name: "one-by-one-TB", faults: 0, body: || log_many::<TB>(120) },
            Group { name: "big-TB", faults: 0, body: || heap::<TB>(&[0, 3], 1, false) },
            Group { name: "large", faults: 0, body: large },
            Group { name: "standard", faults: 0, body: || standard(4) },
            #[cfg(feature = "nightly")]
            Group { name: "owners", faults: 0, body: || owners(3) },
        ];
        if t == Tier::Thorough {
            g.push(Group { name: "three-T16", faults: 0, body: || heap::<T16>(&[0, 3], 3, false) });
            g.push(Group { name: "two-T1-elsewhere", faults: 0, body: || elsewhere::<T1>(&[0, 7, 8], 2) });
            g.push(Group { name: "standard6", faults: 0, body: || standard(6) });
            g.push(Group { name: "one-by-one-more", faults: 0, body: || log_many::<T4>(6000) });
            #[cfg(feature = "nightly")]
            g.push(Group { name: "owners4", faults: 0, body: || owners(4) });
        }
        g
    }
}

#[cfg(feature = "alloc")]
fn main() { mc::run_main("P14", go::groups) }
#[cfg(not(feature = "alloc"))]
fn main() { println!("ENGINE-ERROR needs an allocator lane") }
