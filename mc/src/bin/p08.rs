//! Draining iterators.
use generic_vec::raw::Storage;
use generic_vec::GenericVec;
use mc::ops::*;
use mc::stores::{self, Body, Kind};
use mc::tok::*;
use mc::walk::drained;
use mc::*;

struct Drains {
    lens: &'static [usize],
    rich: bool,
    times: usize,
}

impl<E: Elem> Body<E> for Drains {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(self.lens));
        settle("start", v, &mut m);
        for _ in 0..self.times {
            let (a, b) = range(m.len());
            drained(v, &mut m, (a, b), self.rich);
        }
        if m.fits(1) {
            { let n = m.len(); insert(v, &mut m, Form::Plain, n, true) }
        }
    }
}

/// Wide vectors: every range, some from each end.
struct Wide {
    lens: &'static [usize],
}

impl<E: Elem> Body<E> for Wide {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(self.lens));
        let (a, b) = range(m.len());
        let f = if stores::is_long() { upto(b - a) } else { pick(&[0usize, 1, 2, 5]).min(b - a) };
        let t = pick(&[0usize, 1, 3]).min(b - a - f);
        drain(v, &mut m, (a, b), f, t);
        owned::<E>("after draining", m.len());
    }
}

const LOW: &[usize] = &[3, 0, 1, 2, 4, 5];
const WIDE: Wide = Wide { lens: &[7, 11, 17] };

fn groups(t: Tier) -> Vec<Group> {
    const PLAIN: Drains = Drains { lens: &[3, 0, 1, 2, 4, 5, 6], rich: false, times: 1 };
    const RICH: Drains = Drains { lens: LOW, rich: true, times: 1 };
    const TWICE: Drains = Drains { lens: &[3, 4], rich: false, times: 2 };
    let mut g = vec![
        Group { name: "T16-growable", faults: 0, body: || stores::growable::<T16, _>(&PLAIN) },
        Group { name: "T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&RICH) },
        Group { name: "T16-wrapped", faults: 0, body: || stores::wrapped::<T16, _>(&PLAIN) },
        Group { name: "T1-elsewhere", faults: 0, body: || stores::reinterpreted::<T1, _>(&PLAIN) },
        Group { name: "TZ", faults: 0, body: || stores::zero::<TZ, _>(&RICH) },
        Group { name: "C16", faults: 0, body: || stores::plain::<C16, _>(&PLAIN) },
        Group { name: "twice-T16", faults: 0, body: || stores::growable::<T16, _>(&TWICE) },
        Group { name: "wide-T16", faults: 0, body: || stores::growable::<T16, _>(&WIDE) },
        Group { name: "wide-T1-elsewhere", faults: 0, body: || stores::reinterpreted::<T1, _>(&WIDE) },
        Group { name: "wide-TZ", faults: 0, body: || stores::zero::<TZ, _>(&WIDE) },
    ];
    const LONG: Wide = Wide { lens: stores::LENGTHS };
    const LONG1: Wide = Wide { lens: stores::LENGTHS1 };
    const SKIPS: Drains = Drains { lens: &[70], rich: true, times: 1 };
    g.push(Group { name: "long-T16", faults: 0, body: || { stores::long(); stores::growable::<T16, _>(&LONG) } });
    g.push(Group { name: "long-T1-elsewhere", faults: 0, body: || { stores::long(); stores::reinterpreted::<T1, _>(&LONG1) } });
    g.push(Group { name: "long-TZ", faults: 0, body: || { stores::long(); stores::zero::<TZ, _>(&LONG) } });
    g.push(Group { name: "long-skips-T16", faults: 0, body: || { stores::long(); stores::fixed::<T16, _>(&SKIPS) } });
    const HUGE: Wide = Wide { lens: stores::HUGE };
    g.push(Group { name: "huge-T16", faults: 0, body: || { stores::huge(); stores::growable::<T16, _>(&HUGE) } });
    const BIG: Drains = Drains { lens: &[3, 4], rich: false, times: 1 };
    g.push(Group { name: "big-TB", faults: 0, body: || stores::growable::<TB, _>(&BIG) });
    g.push(Group { name: "sizes", faults: 0, body: || stores::sizes(&BIG) });
    g.push(Group { name: "big-CB", faults: 0, body: || stores::plain::<CB, _>(&BIG) });
    if t == Tier::Thorough {
        const DEEP: Drains = Drains { lens: &[4, 5, 6], rich: true, times: 1 };
        const DEEP2: Drains = Drains { lens: &[5, 6], rich: false, times: 2 };
        g.push(Group { name: "deep-T16", faults: 0, body: || stores::growable::<T16, _>(&DEEP) });
        g.push(Group { name: "deep-C16", faults: 0, body: || stores::plain::<C16, _>(&DEEP) });
        g.push(Group { name: "deep-twice-T16", faults: 0, body: || stores::growable::<T16, _>(&DEEP2) });
        g.push(Group { name: "deep-twice-TZ", faults: 0, body: || stores::zero::<TZ, _>(&DEEP2) });
    }
    g
}

fn main() { run_main("P08", groups) }
