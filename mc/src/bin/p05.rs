//! Histories of arbitrary operations, with every element accounted for.
use generic_vec::raw::Storage;
use generic_vec::GenericVec;
use mc::ops::*;
use mc::stores::{self, Body, Kind, Taker};
use mc::tok::*;
use mc::walk::{Arrays, Consumed, Iters, Steps};
use mc::*;

struct History {
    depth: usize,
    lens: &'static [usize],
    wide: bool,
}

impl<E: Elem> Body<E> for History {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(self.lens));
        settle("start", v, &mut m);
        for _ in 0..self.depth {
            if self.wide && self.depth == 1 { every_op(v, &mut m) } else { any_op(v, &mut m, self.wide) }
        }
    }
}

/// One operation, then the vector is given away in some manner.
struct Away;

impl<E: Elem> Taker<E> for Away {
    fn take<S: Storage<E>>(&self, mut v: GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(&mut v, &mut m, pick(if stores::is_huge() { stores::HUGE } else if stores::is_long() { stores::LENGTHS } else { &[3, 0, 1, 2] }));
        any_op(&mut v, &mut m, false);
        let n = m.len();
        match choose(5) {
            0 => {
                op!("drop of {}", n);
                must("drop", || drop(v));
            }
            1 => {
                op!("into_iter of {}, then drop", n);
                let mut it = must("into_iter", || v.into_iter());
                let f = upto(n.min(if stores::is_long() { n } else { 3 }));
                for k in 0..f {
                    yielded("into_iter", must("next", || if k % 2 == 0 { it.next() } else { it.next_back() }), Some(if k % 2 == 0 { m.v.remove(0) } else { m.v.pop().unwrap() }));
                }
                owned::<E>("during into_iter", n - f);
                must("drop", || drop(it));
            }
            2 => {
                op!("convert of {}", n);
                let o: GenericVec<E, spy::Spy<E>> = must("convert", || v.convert());
                m.cap = None;
                settle("convert", &o, &mut m);
                owned::<E>("after convert", n);
                must("drop", || drop(o));
            }
            3 => {
                op!("into_raw_parts and from_raw_parts of {}", n);
                let (l, s) = must("into_raw_parts", || v.into_raw_parts());
                check!(l == n, "into_raw_parts: length {}, expected {}", l, n);
                let v = must("from_raw_parts", || unsafe { GenericVec::<E, S>::from_raw_parts(l, s) });
                settle("from_raw_parts", &v, &mut m);
                must("drop", || drop(v));
            }
            _ => {
                op!("take_uninit-like: clear, then drop of {}", n);
                clear(&mut v, &mut m);
                owned::<E>("clear", 0);
                must("drop", || drop(v));
            }
        }
        owned::<E>("at the end", 0);
        check!(alloc::allocs().live == 0 && spy::live() == 0, "the storage was not released");
    }
}

/// By way of standard vectors and clones.
#[cfg(feature = "alloc")]
fn standard<E: Elem>() {
    use generic_vec::HeapVec;
    let mut v = HeapVec::<E>::new();
    let mut m = W::new(None);
    fill(&mut v, &mut m, choose(5));
    for _ in 0..2 {
        match choose(4) {
            0 => {
                op!("into a standard vector and back, {} elements", m.len());
                v = must("From", || HeapVec::from(Vec::from(v)))
            }
            1 => {
                op!("clone, and drop of the original");
                let w = must("clone", || v.clone());
                m.v = w.iter().map(M::of).collect();
                owned::<E>("clone", 2 * m.len());
                must("drop", || drop(std::mem::replace(&mut v, w)))
            }
            2 => {
                let mut w = HeapVec::<E>::new();
                let mut x = W::new(None);
                fill(&mut w, &mut x, choose(5));
                op!("clone_from {} over {}", m.len(), x.len());
                must("clone_from", || Clone::clone_from(&mut w, &v));
                m.v = w.iter().map(M::of).collect();
                owned::<E>("clone_from", 2 * m.len());
                must("drop", || drop(std::mem::replace(&mut v, w)))
            }
            _ => any_op(&mut v, &mut m, false),
        }
        settle("afterwards", &v, &mut m);
        owned::<E>("afterwards", m.len());
    }
    must("drop", || drop(v));
    owned::<E>("at the end", 0);
}

fn groups(t: Tier) -> Vec<Group> {
    const WIDE1: History = History { depth: 1, lens: &[3, 0, 1, 2, 4, 5], wide: true };
    const TWO: History = History { depth: 2, lens: &[3, 0, 2], wide: false };
    const THREE: History = History { depth: 3, lens: &[1], wide: false };
    let mut g = vec![
        Group { name: "one-T16-growable", faults: 0, body: || stores::growable::<T16, _>(&WIDE1) },
        Group { name: "one-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&WIDE1) },
        Group { name: "one-TZ", faults: 0, body: || stores::zero::<TZ, _>(&WIDE1) },
        Group { name: "two-T16-growable", faults: 0, body: || stores::growable::<T16, _>(&TWO) },
        Group { name: "two-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&TWO) },
        Group { name: "two-TZ", faults: 0, body: || stores::zero::<TZ, _>(&TWO) },
        Group { name: "three-T16-growable", faults: 0, body: || stores::growable::<T16, _>(&THREE) },
        Group { name: "away-T16", faults: 0, body: || stores::own_growable::<T16, _>(&Away) },
        Group { name: "away-T16-fixed", faults: 0, body: || stores::own_fixed::<T16, _>(&Away) },
    ];
    const LONG: History = History { depth: 1, lens: &[33, 65], wide: true };
    g.push(Group { name: "long-T16", faults: 0, body: || { stores::long(); stores::growable::<T16, _>(&LONG) } });
    g.push(Group { name: "long-T16-fixed", faults: 0, body: || { stores::long(); stores::fixed::<T16, _>(&LONG) } });
    g.push(Group { name: "long-TZ", faults: 0, body: || { stores::long(); stores::zero::<TZ, _>(&LONG) } });
    g.push(Group { name: "long-away-T16", faults: 0, body: || { stores::long(); stores::own_growable::<T16, _>(&Away) } });
    const ITERS: Iters = Iters { lens: &[3, 0, 1], steps: Steps { depth: 2, all: true }, rich: true };
    const GIVEN: Consumed = Consumed { lens: &[3, 0, 1, 2, 4], rich: true };
    const ARRAYS: Arrays = Arrays { lens: &[3, 0, 1, 2, 4], times: 1 };
    g.push(Group { name: "iterators-T16-growable", faults: 0, body: || stores::growable::<T16, _>(&ITERS) });
    g.push(Group { name: "iterators-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&ITERS) });
    g.push(Group { name: "iterators-TZ", faults: 0, body: || stores::zero::<TZ, _>(&ITERS) });
    g.push(Group { name: "given-T16", faults: 0, body: || stores::own_growable::<T16, _>(&GIVEN) });
    g.push(Group { name: "given-T16-fixed", faults: 0, body: || stores::own_fixed::<T16, _>(&GIVEN) });
    g.push(Group { name: "given-T1-elsewhere", faults: 0, body: || stores::own_elsewhere::<T1, _>(&GIVEN) });
    g.push(Group { name: "given-TZ", faults: 0, body: || stores::own_zero::<TZ, _>(&GIVEN) });
    g.push(Group { name: "arrays-T16-growable", faults: 0, body: || stores::growable::<T16, _>(&ARRAYS) });
    g.push(Group { name: "arrays-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&ARRAYS) });
    #[cfg(feature = "alloc")]
    g.push(Group { name: "standard-T16", faults: 0, body: standard::<T16> });
    #[cfg(feature = "alloc")]
    g.push(Group { name: "standard-TZ", faults: 0, body: standard::<TZ> });
    const HUGE: History = History { depth: 1, lens: &[300], wide: true };
    g.push(Group { name: "huge-T16", faults: 0, body: || { stores::huge(); stores::growable::<T16, _>(&HUGE) } });
    g.push(Group { name: "huge-away-T16", faults: 0, body: || { stores::huge(); stores::own_growable::<T16, _>(&Away) } });
    g.push(Group { name: "big-TB-growable", faults: 0, body: || stores::growable::<TB, _>(&WIDE1) });
    if t == Tier::Thorough {
        const ITERS3: Iters = Iters { lens: &[3, 2], steps: Steps { depth: 3, all: true }, rich: true };
        g.push(Group { name: "iterators3-T16", faults: 0, body: || stores::growable::<T16, _>(&ITERS3) });
        const WIDE2: History = History { depth: 2, lens: &[3, 2], wide: true };
        const THREE2: History = History { depth: 3, lens: &[0, 2], wide: false };
        const FOUR: History = History { depth: 4, lens: &[1], wide: false };
        g.push(Group { name: "wide2-T16-growable", faults: 0, body: || stores::growable::<T16, _>(&WIDE2) });
        g.push(Group { name: "wide2-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&WIDE2) });
        g.push(Group { name: "three-T16-growable2", faults: 0, body: || stores::growable::<T16, _>(&THREE2) });
        g.push(Group { name: "three-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&THREE2) });
        g.push(Group { name: "four-T16", faults: 0, body: || stores::growable::<T16, _>(&FOUR) });
    }
    g
}

fn main() { run_main("P05", groups) }
