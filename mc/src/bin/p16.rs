//! Growing in bulk.
use generic_vec::raw::{Storage, StorageWithCapacity, UninitBuffer};
use generic_vec::{GenericVec, TypeVec};
use mc::ops::*;
use mc::spy::Spy;
use mc::stores::{self, Body, Kind};
use mc::tok::*;
use mc::world::M;
use mc::*;
use std::cell::RefCell;

/// One bulk operation adding (or resizing, or overwriting with) `n` elements.
struct Grow {
    lens: &'static [usize],
    amounts: &'static [usize],
    rounds: usize,
    rich: bool,
}

fn bulk<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, n: usize, rich: bool) {
    match choose(if rich { 9 } else { 8 }) {
        0 => grow(v, m, n, false),
        1 => grow(v, m, n, true),
        2 => grow_with(v, m, n, false),
        3 => grow_with(v, m, n, true),
        4 => extend(v, m, n, pick(&HINTS)),
        5 => extend_ref(v, m, n, pick(&HINTS)),
        6 => extend_slice(v, m, n),
        7 => clone_from(v, m, n),
        _ => {
            if v.capacity() - m.len() >= n {
                extend_slice_unchecked(v, m, n)
            }
        }
    }
    owned::<E>("after a bulk operation", m.len())
}

impl<E: Elem> Body<E> for Grow {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(self.lens));
        for _ in 0..self.rounds {
            bulk(v, &mut m, pick(self.amounts), self.rich)
        }
    }
}

/// Elements in a vector allocated by the code under test, so that it may be given away.
fn given<E: Elem>(n: usize) -> (Vec<E>, Vec<M>) {
    let mut es = lib(|| Vec::with_capacity(n));
    let mut ms = Vec::new();
    for _ in 0..n {
        let (e, x) = mk::<E>();
        es.push(e);
        ms.push(x)
    }
    (es, ms)
}

fn copies<E: Elem>(ms: &[M]) -> Vec<M> { ms.iter().map(|x| if E::OWNED { M::fresh(x.val) } else { *x }).collect() }

/// Extension from the iterators that people use.
struct Sources;

impl<E: Elem> Body<E> for Sources {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(if stores::is_long() { &[1usize, 33] } else { &[2usize, 0, 1] }));
        let n = pick(if stores::is_long() { &[33usize, 65, 100] } else { &[3usize, 0, 1, 2, 4, 7] });
        let way = choose(17);
        let what = op!("extend by {} from source {} at {}", n, way, m.len());
        let (mut es, ms) = given::<E>(n);
        let add: Vec<M>;
        let o = match way {
            0 => {
                add = ms;
                attempt(|| v.extend(es))
            }
            1 => {
                add = ms;
                let mut i = es.into_iter();
                let o = attempt(|| v.extend(&mut i));
                lib(|| drop(i));
                o
            }
            2 => {
                add = ms.iter().rev().copied().collect();
                attempt(|| v.extend(es.into_iter().rev()))
            }
            3 => {
                let (e, x) = mk::<E>();
                add = ms.into_iter().chain(Some(x)).collect();
                attempt(|| v.extend(es.into_iter().chain(Some(e))))
            }
            4 => {
                add = ms.iter().copied().enumerate().filter(|(i, _)| i % 2 == 0).map(|p| p.1).collect();
                attempt(|| v.extend(es.into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|p| p.1)))
            }
            5 => {
                let t = n / 2;
                add = ms[..t].to_vec();
                attempt(|| v.extend(es.into_iter().take(t)))
            }
            6 => {
                let t = n / 2;
                add = ms[t..].to_vec();
                attempt(|| v.extend(es.into_iter().skip(t)))
            }
            7 => {
                add = ms;
                attempt(|| v.extend(es.drain(..)))
            }
            8 => {
                add = copies::<E>(&ms);
                attempt(|| v.extend(es.iter()))
            }
            9 => {
                add = copies::<E>(&ms);
                attempt(|| v.extend(&es))
            }
            10 => {
                add = copies::<E>(&ms);
                attempt(|| v.extend(es.iter().cloned()))
            }
            11 => {
                add = copies::<E>(&[&ms[..], &ms[..]].concat());
                attempt(|| v.extend(es.iter().chain(es.iter())))
            }
            12 => {
                let (e, x) = mk::<E>();
                add = vec![if E::OWNED { M::fresh(x.val) } else { x }; n];
                attempt(|| v.extend(std::iter::repeat(e).take(n)))
            }
            13 => {
                add = copies::<E>(&ms.iter().step_by(2).copied().collect::<Vec<_>>());
                attempt(|| v.extend(es.iter().step_by(2)))
            }
            14 => {
                // from another vector of this library
                let mut o: GenericVec<E, Spy<E>> = GenericVec::with_storage(Spy::new(n, usize::MAX));
                for e in es.drain(..) {
                    o.push(e);
                }
                add = ms;
                attempt(|| v.extend(o))
            }
            15 => {
                let mut o: GenericVec<E, Spy<E>> = GenericVec::with_storage(Spy::new(n, usize::MAX));
                for e in es.drain(..) {
                    o.push(e);
                }
                add = ms[n / 2..].to_vec();
                let r = attempt(|| v.extend(o.drain(n / 2..)));
                settle("source", &o, &mut W { v: ms[..n / 2].to_vec(), cap: None });
                lib(|| drop(o));
                r
            }
            _ => {
                let mut o: GenericVec<E, Spy<E>> = GenericVec::with_storage(Spy::new(n, usize::MAX));
                for e in es.drain(..) {
                    o.push(e);
                }
                add = copies::<E>(&ms);
                let r = attempt(|| v.extend(&*o));
                settle("source", &o, &mut W { v: ms, cap: None });
                lib(|| drop(o));
                r
            }
        };
        let fit = if m.fits(add.len()) {
            o.ret(what);
            add.len()
        } else {
            o.must_panic(what);
            m.cap.unwrap() - m.len()
        };
        m.v.extend_from_slice(&add[..fit]);
        settle(what, v, &mut m);
    }
}

/// Collecting into a new vector. `room` is the most it can hold.
fn collect<S: StorageWithCapacity<E>, E: Elem>(room: Option<usize>) {
    let n = pick(&[3usize, 0, 1, 2, 4, 5, 6, 9, 17, 33, 65, 100]);
    let h = pick(&HINTS);
    let by_ref = flag();
    let what = op!("collect {} elements (hint {}, by reference {})", n, h, by_ref);
    let made = RefCell::new(Vec::new());
    let (mut src, ms) = mks::<E>(if by_ref { n } else { 0 });
    let o: Outcome<GenericVec<E, S>> = if by_ref {
        attempt(|| Refs { src: &src, hint: h, done: false }.collect())
    } else {
        attempt(|| gen::<E>(n, h, &made).collect())
    };
    let mut m = W::new(None);
    m.v = if by_ref { copies::<E>(&ms) } else { made.into_inner() };
    if room.map_or(true, |c| n <= c) {
        let v = o.ret(what);
        check!(m.len() == n, "{}: {} elements were made", what, m.len());
        settle(what, &v, &mut m);
        lib(|| drop(v))
    } else {
        match o {
            Outcome::Panic => (),
            _ => fail!("{}: returned although they do not fit", what),
        }
    }
    src.clear();
    owned::<E>(what, 0)
}

fn collects() {
    #[cfg(feature = "alloc")]
    let n = 10;
    #[cfg(not(feature = "alloc"))]
    let n = 7;
    match choose(n) {
        0 => collect::<UninitBuffer<[T16; 4]>, T16>(Some(4)),
        1 => collect::<UninitBuffer<[u64; 7], u64>, T3>(Some(18)),
        2 => collect::<[C16; 5], C16>(Some(5)),
        3 => collect::<generic_vec::raw::ZeroSized<TZ>, TZ>(None),
        4 => collect::<UninitBuffer<[TZ; 2]>, TZ>(None),
        5 => collect::<Spy<T16>, T16>(None),
        6 => collect::<UninitBuffer<[C1; 4]>, C1>(Some(4)),
        #[cfg(feature = "alloc")]
        7 => collect::<generic_vec::raw::Heap<T16>, T16>(None),
        #[cfg(feature = "alloc")]
        8 => collect::<generic_vec::raw::Heap<u64>, T3>(None),
        #[cfg(feature = "alloc")]
        _ => collect::<Box<UninitBuffer<[C3; 4]>>, C3>(Some(4)),
        #[cfg(not(feature = "alloc"))]
        _ => (),
    }
}

/// Buffers around boundaries of 8 and 16 elements.
fn big<E: Elem>() {
    const B: Grow = Grow { lens: &[0, 1, 7, 8], amounts: &[15, 16, 17, 31, 33], rounds: 1, rich: false };
    let b = &B;
    match choose(3) {
        0 => {
            let mut v = TypeVec::<E, [E; 33]>::new();
            b.run(&mut v, Kind { name: "[_; 33]", cap: if E::ZST { None } else { Some(33) }, initial: 33 })
        }
        1 => {
            let mut v = GenericVec::with_storage(Spy::<E>::new(0, usize::MAX));
            b.run(&mut v, Kind { name: "spy", cap: None, initial: 0 })
        }
        _ => stores::fixed_ref::<E, _>(b),
    }
}

const LENS: &[usize] = &[2, 0, 1, 3, 5];
const UPTO: &[usize] = &[3, 0, 1, 2, 4, 5, 6, 7, 8, 9, 17];
const FEW: &[usize] = &[2, 0, 1, 3];

fn own<E: Elem, B: Body<E>>(b: &B) {
    match choose(2) {
        0 => stores::growable::<E, _>(b),
        _ => stores::fixed::<E, _>(b),
    }
}

fn groups(t: Tier) -> Vec<Group> {
    const ONE: Grow = Grow { lens: LENS, amounts: UPTO, rounds: 1, rich: true };
    const TWO: Grow = Grow { lens: &[0, 1, 3], amounts: FEW, rounds: 2, rich: false };
    let mut g = vec![
        Group { name: "T16", faults: 0, body: || own::<T16, _>(&ONE) },
        Group { name: "T3-elsewhere", faults: 0, body: || stores::reinterpreted::<T3, _>(&ONE) },
        Group { name: "TZ", faults: 0, body: || stores::zero::<TZ, _>(&ONE) },
        Group { name: "C16", faults: 0, body: || stores::plain::<C16, _>(&ONE) },
        Group { name: "C16-growable", faults: 0, body: || stores::growable::<C16, _>(&ONE) },
        Group { name: "C3-elsewhere", faults: 0, body: || stores::reinterpreted::<C3, _>(&ONE) },
        Group { name: "CZ", faults: 0, body: || stores::growable::<CZ, _>(&ONE) },
        Group { name: "two-T16", faults: 0, body: || own::<T16, _>(&TWO) },
        Group { name: "two-C16", faults: 0, body: || stores::growable::<C16, _>(&TWO) },
        Group { name: "sources-T16", faults: 0, body: || stores::growable::<T16, _>(&Sources) },
        Group { name: "sources-T16-fixed", faults: 0, body: || stores::fixed_ref::<T16, _>(&Sources) },
        Group { name: "sources-C3", faults: 0, body: || stores::plain::<C3, _>(&Sources) },
        Group { name: "collect", faults: 0, body: collects },
        Group { name: "big-T16", faults: 0, body: big::<T16> },
        Group { name: "big-C1", faults: 0, body: big::<C1> },
    ];
    const LONG: Grow = Grow { lens: &[0, 1, 33, 64], amounts: &[32, 33, 63, 64, 65, 100], rounds: 1, rich: true };
    const LONG1: Grow = Grow { lens: &[0, 1, 33], amounts: &[32, 33, 65], rounds: 1, rich: true };
    g.push(Group { name: "long-T16", faults: 0, body: || { stores::long(); own::<T16, _>(&LONG) } });
    g.push(Group { name: "long-T3-elsewhere", faults: 0, body: || { stores::long(); stores::reinterpreted::<T3, _>(&LONG) } });
    g.push(Group { name: "long-C16", faults: 0, body: || { stores::long(); stores::growable::<C16, _>(&LONG1) } });
    g.push(Group { name: "long-C16-plain", faults: 0, body: || { stores::long(); stores::plain::<C16, _>(&LONG1) } });
    g.push(Group { name: "long-TZ", faults: 0, body: || { stores::long(); stores::zero::<TZ, _>(&LONG) } });
    g.push(Group { name: "long-sources-T16", faults: 0, body: || { stores::long(); stores::growable::<T16, _>(&Sources) } });
    const HUGE: Grow = Grow { lens: &[0, 300], amounts: &[257, 800], rounds: 1, rich: true };
    g.push(Group { name: "huge-T16", faults: 0, body: || { stores::huge(); own::<T16, _>(&HUGE) } });
    g.push(Group { name: "huge-C16", faults: 0, body: || { stores::huge(); stores::growable::<C16, _>(&HUGE) } });
    g.push(Group { name: "huge-C16-plain", faults: 0, body: || { stores::huge(); stores::plain::<C16, _>(&HUGE) } });
    const BIG: Grow = Grow { lens: &[0, 2], amounts: &[3, 0, 1, 2, 5, 40], rounds: 1, rich: true };
    g.push(Group { name: "big-TB", faults: 0, body: || own::<TB, _>(&BIG) });
    g.push(Group { name: "big-CB", faults: 0, body: || stores::growable::<CB, _>(&BIG) });
    g.push(Group { name: "sizes", faults: 0, body: || stores::sizes(&BIG) });
    let _ = (&mut g, t);
    #[cfg(feature = "deep")]
    {
        const THREE: Grow = Grow { lens: &[0, 1, 2, 3], amounts: FEW, rounds: 3, rich: true };
        const ALL: Grow = Grow { lens: &[0, 1, 2, 3, 4, 5, 6, 7, 8], amounts: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18], rounds: 1, rich: true };
        g.push(Group { name: "three-T16", faults: 0, body: || own::<T16, _>(&THREE) });
        g.push(Group { name: "three-C16", faults: 0, body: || stores::growable::<C16, _>(&THREE) });
        g.push(Group { name: "three-wrapped", faults: 0, body: || stores::wrapped::<T16, _>(&THREE) });
        g.push(Group { name: "all-T16", faults: 0, body: || own::<T16, _>(&ALL) });
        g.push(Group { name: "all-wrapped", faults: 0, body: || stores::wrapped::<T16, _>(&ALL) });
        g.push(Group { name: "all-C3", faults: 0, body: || stores::plain::<C3, _>(&ALL) });
        g.push(Group { name: "all-T4-elsewhere", faults: 0, body: || stores::reinterpreted::<T4, _>(&ALL) });
        g.push(Group { name: "sources-T3", faults: 0, body: || stores::reinterpreted::<T3, _>(&Sources) });
        g.push(Group { name: "sources-TZ", faults: 0, body: || stores::zero::<TZ, _>(&Sources) });
    }
    g
}

fn main() { run_main("P16", groups) }
