//! Splices.
use generic_vec::raw::Storage;
use generic_vec::GenericVec;
use mc::ops::*;
use mc::stores::{self, Body, Kind};
use mc::tok::*;
use mc::walk::eaten;
use mc::*;

struct Splices {
    lens: &'static [usize],
    news: &'static [usize],
    hints: &'static [Hint],
    times: usize,
}

impl<E: Elem> Body<E> for Splices {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(self.lens));
        settle("start", v, &mut m);
        for _ in 0..self.times {
            let (a, b) = range(m.len());
            let n = pick(self.news);
            let h = pick(self.hints);
            let f = upto((b - a).min(if stores::is_long() { b - a } else { 2 }));
            let t = choose((b - a - f).min(1) + 1);
            splice(v, &mut m, (a, b), n, h, f, t);
            owned::<E>("after splicing", m.len());
        }
        if m.fits(1) {
            { let n = m.len(); insert(v, &mut m, Form::Plain, n, true) }
        }
    }
}

/// Every interleaving of consumption, then the replacement.
struct Eaten;

impl<E: Elem> Body<E> for Eaten {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, 4);
        let (a, b) = range(m.len());
        let n = choose(4);
        eaten(v, &mut m, (a, b), n, true);
    }
}

fn groups(t: Tier) -> Vec<Group> {
    const SMALL: Splices = Splices { lens: &[3, 0, 1, 2, 4], news: &[2, 0, 1, 3, 4, 5], hints: &HINTS, times: 1 };
    // more than the 16 elements that are moved at a time without an allocator
    const LONG: Splices =
        Splices { lens: &[0, 2, 5], news: &[7, 8, 15, 16, 17, 18, 31, 32, 33, 34, 40], hints: &[Hint::Exact, Hint::None], times: 1 };
    const TWICE: Splices = Splices { lens: &[0, 1, 2], news: &[0, 1, 2, 3], hints: &[Hint::Exact], times: 2 };
    let mut g = vec![
        Group { name: "T16-growable", faults: 0, body: || stores::growable::<T16, _>(&SMALL) },
        Group { name: "T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&SMALL) },
        Group { name: "T16-wrapped", faults: 0, body: || stores::wrapped::<T16, _>(&SMALL) },
        Group { name: "T1-elsewhere", faults: 0, body: || stores::reinterpreted::<T1, _>(&SMALL) },
        Group { name: "TZ", faults: 0, body: || stores::zero::<TZ, _>(&SMALL) },
        Group { name: "C16", faults: 0, body: || stores::plain::<C16, _>(&SMALL) },
        Group { name: "long-T16", faults: 0, body: || stores::growable::<T16, _>(&LONG) },
        Group { name: "long-TZ", faults: 0, body: || stores::zero::<TZ, _>(&LONG) },
        Group { name: "long-T1-elsewhere", faults: 0, body: || stores::reinterpreted::<T1, _>(&LONG) },
        Group { name: "eaten-T16", faults: 0, body: || stores::growable::<T16, _>(&Eaten) },
        Group { name: "eaten-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&Eaten) },
        Group { name: "eaten-TZ", faults: 0, body: || stores::zero::<TZ, _>(&Eaten) },
        Group { name: "twice-T16", faults: 0, body: || stores::growable::<T16, _>(&TWICE) },
    ];
    const FAR: Splices = Splices { lens: &[40, 65], news: &[0, 1, 31, 33, 64, 100], hints: &[Hint::Exact, Hint::None], times: 1 };
    const FAR1: Splices = Splices { lens: &[40, 65], news: &[0, 17, 33], hints: &[Hint::Exact, Hint::None], times: 1 };
    g.push(Group { name: "far-T16", faults: 0, body: || { stores::long(); stores::growable::<T16, _>(&FAR) } });
    g.push(Group { name: "far-T16-fixed", faults: 0, body: || { stores::long(); stores::fixed::<T16, _>(&FAR) } });
    g.push(Group { name: "far-T1-elsewhere", faults: 0, body: || { stores::long(); stores::reinterpreted::<T1, _>(&FAR1) } });
    const BEYOND: Splices = Splices { lens: &[300], news: &[0, 1, 257, 600], hints: &[Hint::Exact, Hint::None], times: 1 };
    g.push(Group { name: "huge-T16", faults: 0, body: || { stores::huge(); stores::growable::<T16, _>(&BEYOND) } });
    const BIG: Splices = Splices { lens: &[3, 1], news: &[2, 0, 1, 4, 20], hints: &[Hint::Exact, Hint::None], times: 1 };
    g.push(Group { name: "big-TB", faults: 0, body: || stores::growable::<TB, _>(&BIG) });
    g.push(Group { name: "sizes", faults: 0, body: || stores::sizes(&BIG) });
    g.push(Group { name: "big-CB", faults: 0, body: || stores::plain::<CB, _>(&BIG) });
    if t == Tier::Thorough {
        const DEEP: Splices = Splices { lens: &[5, 6, 7], news: &[0, 1, 2, 3, 4, 5, 6, 7, 8], hints: &[Hint::Exact, Hint::None], times: 1 };
        const DEEP2: Splices = Splices { lens: &[1, 2, 3], news: &[0, 1, 2, 3, 17], hints: &[Hint::Exact], times: 2 };
        g.push(Group { name: "deep-T16", faults: 0, body: || stores::growable::<T16, _>(&DEEP) });
        g.push(Group { name: "deep-TZ", faults: 0, body: || stores::zero::<TZ, _>(&DEEP) });
        g.push(Group { name: "deep-twice-T16", faults: 0, body: || stores::growable::<T16, _>(&DEEP2) });
        g.push(Group { name: "deep-twice-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&DEEP2) });
        g.push(Group { name: "deep-twice-C16", faults: 0, body: || stores::plain::<C16, _>(&DEEP2) });
    }
    g
}

fn main() { run_main("P10", groups) }
