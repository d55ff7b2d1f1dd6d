//! Spare-capacity views, and lengths set freely over initialised data.
#![cfg_attr(feature = "nightly", feature(allocator_api))]
use generic_vec::raw::{Storage, StorageInit};
use generic_vec::{save_spare, GenericVec, InitSliceVec, SliceVec};
use mc::guard::{slots, Placed};
use mc::ops::*;
use mc::stores::{self, Body, Kind};
use mc::tok::*;
use mc::*;

/// Histories of `depth` calls on a spare view, which is then dropped, saved or leaked; `times` views in a row.
struct Spares {
    lens: &'static [usize],
    depth: usize,
    times: usize,
}

fn within<E: Elem>(s: &mut SliceVec<E>, m: &mut W) {
    let n = m.len();
    let few = |k: usize| if stores::is_long() { pick(&[0, 1, 17, 33, 40]) } else { choose(k) };
    match choose(10) {
        0 => insert(s, m, Form::Plain, n, true),
        1 => insert(s, m, Form::Try, n, true),
        2 => insert(s, m, Form::Plain, 0, false),
        3 => remove(s, m, Form::Try, Rm::Pop, 0),
        4 => remove(s, m, Form::Try, Rm::Remove, 0),
        5 => {
            let k = few(4);
            extend(s, m, k, Hint::None)
        }
        6 => {
            let k = few(3);
            grow(s, m, k, false)
        }
        7 => truncate(s, m, n / 2),
        8 => drain(s, m, (0, n / 2), 1, 0),
        _ => {
            let k = few(4);
            reserve(s, m, k, Form::Try)
        }
    }
}

impl<E: Elem> Body<E> for Spares {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(self.lens));
        settle("start", v, &mut m);
        for _ in 0..self.times {
            let n = m.len();
            let st = still(v);
            let (cap, end) = (v.capacity(), v.as_ptr() as usize + n * std::mem::size_of::<E>());
            let mut x;
            {
                let mut s = must("spare_capacity_mut", || v.spare_capacity_mut());
                check!(s.len() == 0 && s.is_empty(), "a spare view starts with {} elements", s.len());
                if E::ZST {
                    check!(s.capacity() >= cap - n, "the spare view has {} slots, the vector {}", s.capacity(), cap - n)
                } else {
                    check!(s.capacity() == cap - n, "the spare view has {} slots, the vector {}", s.capacity(), cap - n);
                    check!(s.as_ptr() as usize == end, "the spare view is not at the end of the elements")
                }
                x = W::new(if E::ZST { None } else { Some(cap - n) });
                for _ in 0..self.depth {
                    within(&mut s, &mut x)
                }
                match choose(3) {
                    0 => {
                        op!("the view of {} elements is dropped", x.len());
                        mc::lib(|| drop(s));
                        x.v.clear()
                    }
                    1 => {
                        op!("the view of {} elements is leaked", x.len());
                        std::mem::forget(s);
                        if E::OWNED {
                            lose(x.len() as i64)
                        }
                        x.v.clear()
                    }
                    _ => {
                        op!("the view of {} elements is saved", x.len());
                        unsafe { save_spare!(s, v) }
                    }
                }
            }
            m.v.append(&mut x.v);
            settle("afterwards", v, &mut m);
            owned::<E>("afterwards", m.len());
            st.all("afterwards", v);
        }
        let n = m.len();
        match choose(3) {
            0 => insert(v, &mut m, Form::Plain, n / 2, false),
            1 => remove(v, &mut m, Form::Try, Rm::Remove, 0),
            _ => clear(v, &mut m),
        }
        owned::<E>("in the end", m.len());
    }
}

/// What each slot of the storage holds, if that is settled; `known` is as long as the capacity.
struct Buf {
    known: Vec<Option<M>>,
    len: usize,
}

fn look<E: Elem, S: ?Sized + Storage<E>>(what: &str, v: &GenericVec<E, S>, b: &Buf) {
    check!(v.len() == b.len, "{}: length is {}, expected {}", what, v.len(), b.len);
    check!(v.capacity() == b.known.len() || E::ZST, "{}: the capacity changed", what);
    for (i, e) in v.as_slice().iter().enumerate() {
        // garbage fails here
        let x = M::of(e);
        if !E::ID {
            continue
        }
        if let Some(y) = b.known[i] {
            check!(x.id == y.id && x.val == y.val, "{}: slot {} holds {}, expected {}", what, i, x.id, y.id)
        }
    }
    mc::alloc::check_all()
}

fn free_len<E: Elem + Copy, S: ?Sized + StorageInit<E>>(v: &mut GenericVec<E, S>, mut b: Buf, depth: usize) {
    let cap = b.known.len();
    look("start", v, &b);
    for _ in 0..depth {
        let n = b.len;
        match choose(9) {
            0 => {
                let to = match choose(3) {
                    0 => upto(cap + 1),
                    1 => usize::MAX,
                    _ => isize::MAX as usize,
                };
                let what = op!("set_len {} at {} of {}", to, n, cap);
                let o = attempt(|| v.set_len(to));
                if to <= cap {
                    o.ret(what);
                    b.len = to
                } else {
                    o.must_panic(what)
                }
            }
            1 => {
                op!("try_push at {} of {}", n, cap);
                let (e, x) = mk::<E>();
                let ok = must("try_push", || v.try_push(e).is_ok());
                check!(ok == (n < cap), "try_push at {} of {}: {}", n, cap, ok);
                if ok {
                    b.known[n] = Some(x);
                    b.len += 1
                }
            }
            2 => {
                op!("try_pop at {}", n);
                let e = must("try_pop", || v.try_pop());
                check!(e.is_some() == (n > 0), "try_pop at {}", n);
                if n > 0 {
                    if let (Some(x), Some(e)) = (b.known[n - 1], e) {
                        same1("try_pop", &e, x)
                    }
                    b.len -= 1
                }
            }
            3 => {
                let to = upto(cap + 1);
                op!("truncate to {} at {}", to, n);
                must("truncate", || v.truncate(to));
                b.len = n.min(to)
            }
            4 => {
                let i = upto(n);
                op!("try_insert at {} of {}", i, n);
                let (e, x) = mk::<E>();
                if must("try_insert", || v.try_insert(i, e).is_ok()) {
                    check!(n < cap, "inserted into a full vector");
                    b.known.remove(n);
                    b.known.insert(i, Some(x));
                    b.len += 1
                }
            }
            5 => {
                let i = upto(n);
                op!("try_remove at {} of {}", i, n);
                if must("try_remove", || v.try_remove(i).is_some()) {
                    check!(i < n, "removed at {} of {}", i, n);
                    b.known.remove(i);
                    // what is left behind is not settled
                    b.known.insert(n - 1, None);
                    b.len -= 1
                }
            }
            6 => {
                let (x, y) = range(n);
                op!("drain {}..{} of {}", x, y, n);
                must("drain", || drop(v.drain(x..y)));
                b.known.drain(x..y);
                let at = n - (y - x);
                for _ in x..y {
                    b.known.insert(at, None)
                }
                b.len = at
            }
            7 => {
                let k = upto(cap - n);
                op!("extend_from_slice by {} at {}", k, n);
                let (es, ms) = mks::<E>(k);
                must("extend_from_slice", || v.extend_from_slice(&es));
                for x in ms {
                    b.known[b.len] = Some(x);
                    b.len += 1
                }
            }
            _ => {
                op!("save a spare view of {} at {}", (cap - n).min(2), n);
                let (es, ms) = mks::<E>((cap - n).min(2));
                let mut es = es.into_iter();
                let mut s = must("spare_capacity_mut", || v.spare_capacity_mut());
                while let Some(e) = es.next() {
                    s.push(e);
                }
                unsafe { save_spare!(s, v) }
                for x in ms {
                    b.known[b.len] = Some(x);
                    b.len += 1
                }
            }
        }
        look("afterwards", v, &b);
    }
    // everything that was there is seen again
    op!("set_len to the capacity {}", cap);
    must("set_len", || v.set_len(cap));
    b.len = cap;
    look("regrown", v, &b)
}

/// A buffer of `n` different initialised elements.
fn lent<E: Elem + Copy>(n: usize) -> (&'static mut [E], Vec<Option<M>>) {
    let buf = slots::<E>(n);
    let mut known = Vec::new();
    for x in buf.iter_mut() {
        let (e, m) = mk::<E>();
        unsafe { x.as_mut_ptr().write(e) }
        known.push(Some(m))
    }
    (unsafe { &mut *(buf as *mut _ as *mut [E]) }, known)
}

fn lens<E: Elem + Copy + Default>(depth: usize) {
    #[cfg(feature = "alloc")]
    let n = 6;
    #[cfg(not(feature = "alloc"))]
    let n = 5;
    match choose(if stores::is_long() { 1 } else { n }) {
        0 => {
            let n = if stores::is_long() { pick(stores::LENGTHS1) } else { pick(&[3usize, 0, 1, 2, 4]) };
            let (s, known) = lent::<E>(n);
            let mut v = Placed::new(InitSliceVec::new(s));
            log!("initialised slice of {}", n);
            check!(v.is_full() || E::ZST, "a vector over {} initialised elements starts with {}", n, v.len());
            free_len::<E, &mut [E]>(&mut *v, Buf { known, len: n }, depth)
        }
        1 => {
            let (s, known) = lent::<E>(4);
            let mut a = [s[0]; 4];
            a.copy_from_slice(s);
            log!("array of 4");
            let mut v = Placed::new(unsafe { GenericVec::<E, [E; 4]>::from_raw_parts(choose(5), a) });
            let len = v.len();
            free_len::<E, [E; 4]>(&mut *v, Buf { known, len }, depth)
        }
        2 => {
            let (s, known) = lent::<E>(3);
            log!("unsized array of 3");
            let mut v = Placed::new(unsafe { GenericVec::<E, [E; 3]>::from_raw_parts(3, [s[0], s[1], s[2]]) });
            let v: &mut GenericVec<E, [E]> = &mut *v;
            free_len::<E, [E]>(v, Buf { known, len: 3 }, depth)
        }
        3 => {
            let (s, known) = lent::<E>(2);
            log!("borrowed array of 2");
            let mut a = Placed::new([s[0], s[1]]);
            let mut v = GenericVec::<E, &mut [E; 2]>::with_storage(&mut *a);
            free_len::<E, &mut [E; 2]>(&mut v, Buf { known, len: 0 }, depth)
        }
        4 => {
            // starting from the default contents
            log!("default array of 3");
            let mut v = Placed::new(GenericVec::<E, [E; 3]>::default());
            let known = vec![None; 3];
            free_len::<E, [E; 3]>(&mut *v, Buf { known, len: 0 }, depth)
        }
        #[cfg(feature = "alloc")]
        5 => {
            let (s, known) = lent::<E>(3);
            log!("boxed array of 3");
            let mut v = mc::lib(|| GenericVec::<E, Box<[E; 3]>>::with_storage(Box::new([s[0], s[1], s[2]])));
            free_len::<E, Box<[E; 3]>>(&mut v, Buf { known, len: 0 }, depth);
            mc::lib(|| drop(v))
        }
        _ => unreachable!(),
    }
}

/// The new array types start full as well.
#[cfg(feature = "nightly")]
fn whole<E: Elem + Copy>() {
    let (s, known) = lent::<E>(4);
    let v = must("InitArrayVec::new", || {
        if flag() {
            generic_vec::InitArrayVec::<E, 4>::new([s[0], s[1], s[2], s[3]])
        } else {
            generic_vec::InitArrayVec::<E, 4>::from([s[0], s[1], s[2], s[3]])
        }
    });
    let mut v = Placed::new(v);
    free_len::<E, [E; 4]>(&mut *v, Buf { known, len: 4 }, 1)
}

fn groups(t: Tier) -> Vec<Group> {
    const ONE: Spares = Spares { lens: &[3, 0, 1, 2], depth: 2, times: 1 };
    const TWO: Spares = Spares { lens: &[1, 2], depth: 1, times: 2 };
    let mut g = vec![
        Group { name: "spare-T16", faults: 0, body: || stores::growable::<T16, _>(&ONE) },
        Group { name: "spare-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&ONE) },
        Group { name: "spare-T3-elsewhere", faults: 0, body: || stores::reinterpreted::<T3, _>(&ONE) },
        Group { name: "spare-TZ", faults: 0, body: || stores::zero::<TZ, _>(&ONE) },
        Group { name: "spare-C2-plain", faults: 0, body: || stores::plain::<C2, _>(&ONE) },
        Group { name: "twice-T16", faults: 0, body: || stores::growable::<T16, _>(&TWO) },
        Group { name: "twice-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&TWO) },
        Group { name: "lengths-C16", faults: 0, body: || lens::<C16>(3) },
        Group { name: "lengths-C1", faults: 0, body: || lens::<C1>(2) },
        #[cfg(feature = "nightly")]
        Group { name: "arrays-C16", faults: 0, body: whole::<C16> },
    ];
    const FAR: Spares = Spares { lens: &[0, 20, 33], depth: 2, times: 1 };
    g.push(Group { name: "long-T16", faults: 0, body: || {
        stores::long();
        stores::growable::<T16, _>(&FAR)
    } });
    g.push(Group { name: "long-T16-fixed", faults: 0, body: || {
        stores::long();
        stores::fixed::<T16, _>(&FAR)
    } });
    g.push(Group { name: "long-lengths-C1", faults: 0, body: || {
        stores::long();
        lens::<C1>(1)
    } });
    const BEYOND: Spares = Spares { lens: &[0, 300], depth: 1, times: 1 };
    g.push(Group { name: "huge-T16", faults: 0, body: || { stores::huge(); stores::growable::<T16, _>(&BEYOND) } });
    const BIG: Spares = Spares { lens: &[2, 0], depth: 2, times: 1 };
    g.push(Group { name: "big-TB", faults: 0, body: || stores::growable::<TB, _>(&BIG) });
    if t == Tier::Thorough {
        g.push(Group { name: "long2-lengths-C2", faults: 0, body: || {
            stores::long();
            lens::<C2>(2)
        } });
        const DEEP: Spares = Spares { lens: &[2, 0, 5], depth: 4, times: 1 };
        const DEEP2: Spares = Spares { lens: &[1, 2], depth: 2, times: 2 };
        g.push(Group { name: "deep-T16", faults: 0, body: || stores::growable::<T16, _>(&DEEP) });
        g.push(Group { name: "deep-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&DEEP) });
        g.push(Group { name: "deep2-T16", faults: 0, body: || stores::growable::<T16, _>(&DEEP2) });
        g.push(Group { name: "deep2-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&DEEP2) });
        g.push(Group { name: "deep-lengths-C16", faults: 0, body: || lens::<C16>(5) });
    }
    g
}

fn main() { run_main("P22", groups) }
