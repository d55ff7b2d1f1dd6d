//! Cursors against a reference gap buffer.
use generic_vec::raw::Storage;
use generic_vec::GenericVec;
use mc::ops::*;
use mc::stores::{self, Body, Kind};
use mc::tok::*;
use mc::walk::Steps;
use mc::*;

struct Walk {
    depth: usize,
    lens: &'static [usize],
    /// everything, or only the basic moves
    all: bool,
    /// only whole ranges and the two ends of it
    few_ranges: bool,
}

impl<E: Elem> Body<E> for Walk {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(self.lens));
        settle("start", v, &mut m);
        let n = m.len();
        let r = if self.few_ranges { pick(&[(0, n), (1.min(n), n), (0, n.saturating_sub(1)), (n, n), (n / 2, n / 2)]) } else { range(n) };
        Steps { depth: self.depth, all: self.all }.walk(v, &mut m, r, false);
        if m.fits(1) {
            let n = m.len();
            insert(v, &mut m, Form::Plain, n, true)
        }
    }
}

fn groups(t: Tier) -> Vec<Group> {
    const EVERY: Walk = Walk { depth: 2, lens: &[3, 0, 1, 2, 4], all: true, few_ranges: false };
    const EVERY3: Walk = Walk { depth: 3, lens: &[2], all: true, few_ranges: true };
    const CORE4: Walk = Walk { depth: 4, lens: &[3, 0, 1, 2], all: false, few_ranges: true };
    const CORE5: Walk = Walk { depth: 5, lens: &[3, 1], all: false, few_ranges: true };
    let mut g = vec![
        Group { name: "every2-T16", faults: 0, body: || stores::growable::<T16, _>(&EVERY) },
        Group { name: "every2-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&EVERY) },
        Group { name: "every2-T1-elsewhere", faults: 0, body: || stores::reinterpreted::<T1, _>(&EVERY) },
        Group { name: "every2-TZ", faults: 0, body: || stores::zero::<TZ, _>(&EVERY) },
        Group { name: "every2-C16", faults: 0, body: || stores::plain::<C16, _>(&EVERY) },
        Group { name: "core4-T16", faults: 0, body: || stores::growable::<T16, _>(&CORE4) },
        Group { name: "core4-TZ", faults: 0, body: || stores::zero::<TZ, _>(&CORE4) },
        Group { name: "every3-C16", faults: 0, body: || stores::plain::<C16, _>(&EVERY3) },
    ];
    const LONG1: Walk = Walk { depth: 2, lens: &[40], all: true, few_ranges: true };
    const LONG: Walk = Walk { depth: 2, lens: &[70], all: true, few_ranges: true };
    g.push(Group { name: "long-T16", faults: 0, body: || { stores::long(); stores::fixed::<T16, _>(&LONG) } });
    g.push(Group { name: "long-C16", faults: 0, body: || { stores::long(); stores::plain::<C16, _>(&LONG1) } });
    g.push(Group { name: "long-TZ", faults: 0, body: || { stores::long(); stores::zero::<TZ, _>(&LONG) } });
    const HUGE: Walk = Walk { depth: 1, lens: stores::HUGE, all: true, few_ranges: true };
    g.push(Group { name: "huge-T16", faults: 0, body: || { stores::huge(); stores::fixed::<T16, _>(&HUGE) } });
    g.push(Group { name: "huge-C16", faults: 0, body: || { stores::huge(); stores::plain::<C16, _>(&HUGE) } });
    const BIG: Walk = Walk { depth: 2, lens: &[3], all: true, few_ranges: true };
    g.push(Group { name: "big-TB", faults: 0, body: || stores::growable::<TB, _>(&BIG) });
    g.push(Group { name: "sizes", faults: 0, body: || stores::sizes(&BIG) });
    g.push(Group { name: "big-CB", faults: 0, body: || stores::plain::<CB, _>(&BIG) });
    if t == Tier::Thorough {
        const EVERY3F: Walk = Walk { depth: 3, lens: &[3, 0, 1, 4], all: true, few_ranges: false };
        const CORE6: Walk = Walk { depth: 6, lens: &[3, 2], all: false, few_ranges: true };
        g.push(Group { name: "every3-T16", faults: 0, body: || stores::growable::<T16, _>(&EVERY3F) });
        g.push(Group { name: "every3-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&EVERY3F) });
        g.push(Group { name: "every3-TZ", faults: 0, body: || stores::zero::<TZ, _>(&EVERY3F) });
        g.push(Group { name: "every3-T1-elsewhere", faults: 0, body: || stores::reinterpreted::<T1, _>(&EVERY3F) });
        g.push(Group { name: "core5-T16", faults: 0, body: || stores::growable::<T16, _>(&CORE5) });
        g.push(Group { name: "core5-C16", faults: 0, body: || stores::plain::<C16, _>(&CORE5) });
        g.push(Group { name: "core6-T16", faults: 0, body: || stores::growable::<T16, _>(&CORE6) });
    }
    g
}

fn main() { run_main("P11", groups) }
