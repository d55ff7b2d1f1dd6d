//! Filtered draining and retain.
use generic_vec::raw::Storage;
use generic_vec::GenericVec;
use mc::ops::*;
use mc::stores::{self, Body, Kind};
use mc::tok::*;
use mc::walk::filtered;
use mc::*;
use std::cell::RefCell;

struct Filters {
    lens: &'static [usize],
    both: bool,
}

impl<E: Elem> Body<E> for Filters {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(self.lens));
        settle("start", v, &mut m);
        let (a, b) = range(m.len());
        let mask = mask(b - a, 16);
        let write = choose(3);
        filtered(v, &mut m, a, b, mask, write, self.both);
        owned::<E>("after filtering", m.len());
        if m.fits(1) {
            { let n = m.len(); insert(v, &mut m, Form::Plain, n, true) }
        }
    }
}

struct Retains {
    lens: &'static [usize],
}

impl<E: Elem> Body<E> for Retains {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(self.lens));
        let n = m.len();
        if flag() {
            // one pattern that looks at the value that is being kept
            let what = op!("retain after writing, of {}", n);
            let st = still(v);
            let mut i = 0;
            let model = RefCell::new(m.v.clone());
            must(what, || {
                v.retain(|e| {
                    off(|| {
                        same1("the predicate's argument", e, model.borrow()[i]);
                        e.set_val((e.val() + 3) % 8);
                        model.borrow_mut()[i] = M::of(e);
                        i += 1;
                        i % 3 != 0
                    })
                })
            });
            check!(i == n, "the predicate was called {} times for {} elements", i, n);
            m.v = model.into_inner().into_iter().enumerate().filter(|(i, _)| (i + 1) % 3 != 0).map(|(_, x)| x).collect();
            st.all(what, v);
            settle(what, v, &mut m)
        } else {
            let mask = mask(n, 8);
            retain(v, &mut m, if n > 8 && !stores::is_long() { mask * 0x101 } else { mask });
        }
        owned::<E>("after retaining", m.len());
    }
}

fn groups(t: Tier) -> Vec<Group> {
    const BOTH: Filters = Filters { lens: &[3, 0, 1, 2, 4], both: true };
    const FRONT: Filters = Filters { lens: &[5, 6], both: false };
    const RETAIN: Retains = Retains { lens: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 12] };
    let mut g = vec![
        Group { name: "T16-growable", faults: 0, body: || stores::growable::<T16, _>(&BOTH) },
        Group { name: "T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&BOTH) },
        Group { name: "T16-wrapped", faults: 0, body: || stores::wrapped::<T16, _>(&BOTH) },
        Group { name: "T1-elsewhere", faults: 0, body: || stores::reinterpreted::<T1, _>(&BOTH) },
        Group { name: "TZ", faults: 0, body: || stores::zero::<TZ, _>(&BOTH) },
        Group { name: "C16", faults: 0, body: || stores::plain::<C16, _>(&BOTH) },
        Group { name: "front-T16", faults: 0, body: || stores::growable::<T16, _>(&FRONT) },
        Group { name: "retain-T16", faults: 0, body: || stores::growable::<T16, _>(&RETAIN) },
        Group { name: "retain-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&RETAIN) },
        Group { name: "retain-TZ", faults: 0, body: || stores::zero::<TZ, _>(&RETAIN) },
        Group { name: "retain-T1-elsewhere", faults: 0, body: || stores::reinterpreted::<T1, _>(&RETAIN) },
    ];
    const LONG: Filters = Filters { lens: &[40, 70], both: true };
    const LONGZ: Filters = Filters { lens: &[40], both: true };
    const LONGR: Retains = Retains { lens: stores::LENGTHS };
    const LONGR1: Retains = Retains { lens: &[33, 65] };
    g.push(Group { name: "long-T16", faults: 0, body: || { stores::long(); stores::fixed::<T16, _>(&LONG) } });
    g.push(Group { name: "long-TZ", faults: 0, body: || { stores::long(); stores::zero::<TZ, _>(&LONGZ) } });
    g.push(Group { name: "long-retain-T16", faults: 0, body: || { stores::long(); stores::growable::<T16, _>(&LONGR) } });
    g.push(Group { name: "long-retain-T1-elsewhere", faults: 0, body: || { stores::long(); stores::reinterpreted::<T1, _>(&LONGR1) } });
    g.push(Group { name: "long-retain-TZ", faults: 0, body: || { stores::long(); stores::zero::<TZ, _>(&LONGR) } });
    const HUGER: Retains = Retains { lens: stores::HUGE };
    g.push(Group { name: "huge-retain-T16", faults: 0, body: || { stores::huge(); stores::growable::<T16, _>(&HUGER) } });
    const HUGE: Filters = Filters { lens: &[300], both: false };
    g.push(Group { name: "huge-T16", faults: 0, body: || { stores::huge(); stores::fixed::<T16, _>(&HUGE) } });
    const BIG: Filters = Filters { lens: &[3], both: true };
    g.push(Group { name: "big-TB", faults: 0, body: || stores::growable::<TB, _>(&BIG) });
    g.push(Group { name: "sizes", faults: 0, body: || stores::sizes(&BIG) });
    g.push(Group { name: "big-CB", faults: 0, body: || stores::plain::<CB, _>(&BIG) });
    if t == Tier::Thorough {
        const DEEP: Filters = Filters { lens: &[5], both: true };
        const DEEPF: Filters = Filters { lens: &[7, 8], both: false };
        g.push(Group { name: "deep-T16", faults: 0, body: || stores::growable::<T16, _>(&DEEP) });
        g.push(Group { name: "deep-TZ", faults: 0, body: || stores::zero::<TZ, _>(&DEEP) });
        g.push(Group { name: "deep-C16", faults: 0, body: || stores::plain::<C16, _>(&DEEP) });
        g.push(Group { name: "deep-front-T16", faults: 0, body: || stores::growable::<T16, _>(&DEEPF) });
    }
    g
}

fn main() { run_main("P09", groups) }
