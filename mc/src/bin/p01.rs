//! Single-element edits against a growable sequence.
use generic_vec::raw::Storage;
use generic_vec::GenericVec;
use mc::ops::*;
use mc::stores::{self, Body, Kind};
use mc::tok::*;
use mc::*;

/// Histories of valid single-element edits.
struct Hist {
    depth: usize,
    lens: &'static [usize],
}

/// Any of `n` places, or the telling ones of hundreds.
fn at(n: usize) -> usize { if stores::is_huge() { upto(n - 1) } else { choose(n) } }

fn edit<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W) {
    let len = m.len();
    let can = m.fits(1);
    let room = v.len() < v.capacity();
    // simplest first; what is impossible here is left out
    let mut ops: Vec<(u8, Form)> = Vec::new();
    for &f in &FORMS {
        let fits = match f {
            Form::Plain => can,
            _ => room,
        };
        if fits {
            ops.push((0, f));
            ops.push((1, f))
        }
        if len > 0 {
            ops.push((2, f));
            ops.push((3, f));
            ops.push((4, f));
        }
    }
    ops.push((5, Form::Plain));
    ops.push((6, Form::Plain));
    let (o, f) = ops[choose(ops.len())];
    match o {
        0 => insert(v, m, f, len, true),
        1 => insert(v, m, f, at(len + 1), false),
        2 => remove(v, m, f, Rm::Pop, 0),
        3 => remove(v, m, f, Rm::Remove, at(len)),
        4 => remove(v, m, f, Rm::Swap, at(len)),
        5 => truncate(v, m, at(len + 2)),
        _ => clear(v, m),
    }
}

impl<E: Elem> Body<E> for Hist {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(self.lens));
        settle("start", v, &mut m);
        for _ in 0..self.depth {
            edit(v, &mut m);
            owned::<E>("after an edit", m.len());
        }
    }
}

const SWEEP: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17];
const LOW: &[usize] = &[0, 1, 2, 3, 4];

/// All storages that hold exactly this type.
fn own<E: Elem>(depth: usize, lens: &'static [usize]) {
    let h = Hist { depth, lens };
    match choose(2) {
        0 => stores::growable::<E, _>(&h),
        _ => stores::fixed::<E, _>(&h),
    }
}
fn wrapped(depth: usize, lens: &'static [usize]) { stores::wrapped::<T16, _>(&Hist { depth, lens }) }
fn other<E: Elem>(depth: usize, lens: &'static [usize]) { stores::reinterpreted::<E, _>(&Hist { depth, lens }) }
fn plain<E: Elem + Copy + Default>(depth: usize, lens: &'static [usize]) {
    let h = Hist { depth, lens };
    match choose(2) {
        0 => stores::growable::<E, _>(&h),
        _ => stores::plain::<E, _>(&h),
    }
}

fn groups(t: Tier) -> Vec<Group> {
    let mut g = vec![
        Group { name: "one-T16", faults: 0, body: || own::<T16>(1, SWEEP) },
        Group { name: "one-wrapped", faults: 0, body: || wrapped(1, SWEEP) },
        Group { name: "one-T1-elsewhere", faults: 0, body: || other::<T1>(1, SWEEP) },
        Group { name: "one-T3-elsewhere", faults: 0, body: || other::<T3>(1, SWEEP) },
        Group { name: "one-T16-elsewhere", faults: 0, body: || other::<T16>(1, SWEEP) },
        Group { name: "one-C16", faults: 0, body: || plain::<C16>(1, SWEEP) },
        Group { name: "one-C1", faults: 0, body: || plain::<C1>(1, SWEEP) },
        Group { name: "two-T16", faults: 0, body: || own::<T16>(2, LOW) },
        Group { name: "two-wrapped", faults: 0, body: || wrapped(2, LOW) },
        Group { name: "two-T3-elsewhere", faults: 0, body: || other::<T3>(2, LOW) },
        Group { name: "two-TZ", faults: 0, body: || own::<TZ>(2, LOW) },
        Group { name: "two-C1", faults: 0, body: || plain::<C1>(2, LOW) },
        Group { name: "three-T16", faults: 0, body: || own::<T16>(3, &[0, 1, 2, 3]) },
        Group { name: "three-wrapped", faults: 0, body: || wrapped(3, &[0, 2]) },
        Group { name: "three-T3-elsewhere", faults: 0, body: || other::<T3>(3, &[0, 2]) },
        Group { name: "three-TZ", faults: 0, body: || own::<TZ>(3, &[0, 2]) },
    ];
    g.push(Group { name: "long-T16", faults: 0, body: || { stores::long(); own::<T16>(1, stores::LENGTHS) } });
    g.push(Group { name: "long-T3-elsewhere", faults: 0, body: || { stores::long(); other::<T3>(1, stores::LENGTHS) } });
    g.push(Group { name: "long-T1-elsewhere", faults: 0, body: || { stores::long(); other::<T1>(1, stores::LENGTHS1) } });
    g.push(Group { name: "long-C16", faults: 0, body: || { stores::long(); plain::<C16>(1, stores::LENGTHS1) } });
    g.push(Group { name: "huge-T16", faults: 0, body: || { stores::huge(); own::<T16>(1, stores::HUGE) } });
    g.push(Group { name: "huge-C16", faults: 0, body: || { stores::huge(); plain::<C16>(1, stores::HUGE) } });
    g.push(Group { name: "huge-T3-elsewhere", faults: 0, body: || { stores::huge(); other::<T3>(1, stores::HUGE) } });
    g.push(Group { name: "big-TB", faults: 0, body: || own::<TB>(1, SWEEP) });
    g.push(Group { name: "big-CB", faults: 0, body: || plain::<CB>(1, SWEEP) });
    g.push(Group { name: "big-TB-elsewhere", faults: 0, body: || other::<TB>(1, SWEEP) });
    g.push(Group { name: "sizes", faults: 0, body: || stores::sizes(&Hist { depth: 1, lens: &[3, 0, 1, 2, 5] }) });
    if t == Tier::Thorough {
        g.push(Group { name: "four-T16", faults: 0, body: || own::<T16>(4, &[0, 1, 3]) });
        g.push(Group { name: "three-TZ-more", faults: 0, body: || own::<TZ>(3, LOW) });
        g.push(Group { name: "four-wrapped", faults: 0, body: || wrapped(4, &[0, 1, 2]) });
        g.push(Group { name: "three-C16", faults: 0, body: || plain::<C16>(3, &[0, 1, 2, 3]) });
        g.push(Group { name: "four-T3-elsewhere", faults: 0, body: || other::<T3>(4, &[0, 1]) });
        g.push(Group { name: "two-T4-elsewhere", faults: 0, body: || other::<T4>(2, SWEEP) });
        g.push(Group { name: "two-C2", faults: 0, body: || plain::<C2>(2, SWEEP) });
    }
    g
}

fn main() { run_main("P01", groups) }
