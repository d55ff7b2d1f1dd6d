//! Requests that must be refused, and what is left behind by the refusal.
use generic_vec::raw::Storage;
use generic_vec::GenericVec;
use mc::ops::*;
use mc::stores::{self, Body, Kind};
use mc::tok::*;
use mc::walk::Steps;
use mc::*;

struct Refused {
    depth: usize,
    lens: &'static [usize],
    of: Of,
}

/// Which requests.
#[derive(Clone, Copy, PartialEq)]
enum Of {
    Single,
    Bulk,
    Cursor(usize),
}

fn bad<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, of: Of) {
    let len = m.len();
    let plain = [Form::Plain, Form::Try];
    let mut ops: Vec<u8> = Vec::new();
    let mut walk = 1;
    match of {
        Of::Single => {
            ops.extend_from_slice(&[0, 1, 2, 10]);
            if len == 0 {
                ops.push(3)
            }
            if !m.fits(1) {
                ops.extend_from_slice(&[4, 5])
            }
            if m.cap.is_some() {
                ops.extend_from_slice(&[6, 7, 8, 9])
            }
            if cfg!(feature = "nightly") {
                ops.push(11);
                ops.push(12);
            }
        }
        Of::Bulk => {
            ops.extend_from_slice(&[18, 21]);
            if m.cap.is_some() {
                ops.extend_from_slice(&[13, 14, 15, 16, 17, 20])
            }
        }
        Of::Cursor(n) => {
            walk = n;
            ops.push(19)
        }
    }
    // how many more than fit
    let over = |m: &W, far: bool| {
        let room = m.cap.unwrap() - m.len();
        match choose(if far { 7 } else { 3 }) {
            0 => room + 1,
            1 => room + 2,
            2 => room + 9,
            3 => usize::MAX,
            4 => usize::MAX - m.len(),
            5 => isize::MAX as usize,
            _ => (1 << 60) + room,
        }
    };
    match pick(&ops) {
        0 => insert(v, m, pick(&plain), past(len + 1), false),
        1 => remove(v, m, pick(&plain), Rm::Remove, past(len)),
        2 => remove(v, m, pick(&plain), Rm::Swap, past(len)),
        3 => remove(v, m, pick(&plain), Rm::Pop, 0),
        4 => insert(v, m, pick(&plain), len, true),
        5 => insert(v, m, pick(&plain), choose(len + 1), false),
        6 => {
            let n = over(m, true);
            if flag() {
                let to = len.checked_add(n).unwrap_or(usize::MAX);
                grow(v, m, to, true)
            } else {
                grow(v, m, n, false)
            }
        }
        7 => {
            let n = over(m, true);
            if flag() {
                let to = len.checked_add(n).unwrap_or(usize::MAX);
                grow_with(v, m, to, true)
            } else {
                grow_with(v, m, n, false)
            }
        }
        8 => {
            let n = over(m, false);
            extend_slice(v, m, n)
        }
        9 => {
            let n = over(m, true);
            reserve(v, m, n, pick(&plain))
        }
        10 => {
            let i = past(len + 1);
            split_off(v, m, i, 0)
        }
        #[cfg(feature = "nightly")]
        11 => {
            let (f, pop) = (pick(&plain), flag());
            let i = if pop { 0 } else { pick(&[len, len + 1, usize::MAX, usize::MAX - 2]) };
            if len < 3 && flag() {
                remove_array::<E, S, 3>(v, m, f, i, pop)
            } else if pop {
                remove_array::<E, S, 9>(v, m, f, i, pop)
            } else {
                remove_array::<E, S, 1>(v, m, f, i, pop)
            }
        }
        #[cfg(feature = "nightly")]
        12 => {
            let (f, push) = (pick(&plain), flag());
            if push {
                if m.cap.is_some() {
                    insert_array::<E, S, 9>(v, m, f, len, true)
                }
            } else {
                let i = past(len + 1);
                insert_array::<E, S, 1>(v, m, f, i, false)
            }
        }
        13 => {
            let n = over(m, false);
            extend(v, m, n, pick(&HINTS))
        }
        14 => {
            let n = over(m, false);
            extend_ref(v, m, n, pick(&[Hint::Exact, Hint::None, Hint::Huge]))
        }
        15 => {
            let n = m.cap.unwrap() + pick(&[1, 2, 9]);
            clone_from(v, m, n)
        }
        16 => {
            let n = over(m, false);
            append(v, m, n)
        }
        17 => {
            let (a, b) = if stores::is_long() { pick(&[(0, len), (len, len), (1, len / 2)]) } else { range(len) };
            let n = over(m, false) + (b - a);
            splice(v, m, (a, b), n, pick(&[Hint::Exact, Hint::None, Hint::More]), 0, 0)
        }
        18 => outside(v, m),
        19 => {
            let r = if stores::is_long() { pick(&[(0, len), (len, len), (1, len / 2)]) } else { range(len) };
            Steps { depth: walk, all: true }.walk(v, m, r, false);
        }
        20 => {
            let n = over(m, false);
            spare(v, m, n, flag())
        }
        21 => split_into(v, m),
        _ => unreachable!(),
    }
    owned::<E>("after a refusal", m.len());
}

/// Appending more than there is room for.
fn append<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, n: usize) {
    let mut o = GenericVec::with_storage(spy::Spy::<E>::new(n, usize::MAX));
    let mut x = W::new(None);
    fill(&mut o, &mut x, n);
    let what = op!("append {} to {}", n, m.len());
    let st = still(v);
    attempt(|| v.append(&mut o)).must_panic(what);
    settle(what, &o, &mut x);
    settle(what, v, m);
    st.cap(what, v);
    lib(|| drop(o))
}

/// Splitting off into a vector that cannot hold as much.
fn split_into<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W) {
    let cap = pick(&[0usize, 1, 2]);
    let mut o = generic_vec::SliceVec::new(guard::slots::<E>(cap));
    let mut x = W::new(if E::ZST { None } else { Some(cap) });
    let had = choose(cap + 1);
    fill(&mut o, &mut x, had);
    let i = upto(m.len());
    if x.fits(m.len() - i) {
        return lib(|| drop(o))
    }
    let what = op!("split_off_into at {} of {} into {} of {}", i, m.len(), had, cap);
    let st = still(v);
    attempt(|| v.split_off_into(i, &mut o)).must_panic(what);
    settle(what, &o, &mut x);
    settle(what, v, m);
    st.all(what, v);
    lib(|| drop(o))
}

/// Ranges that are not of this vector.
fn outside<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W) {
    use std::ops::Bound::*;
    let n = m.len();
    let r = pick(&[
        (Included(0), Excluded(n + 1)),
        (Included(n + 1), Unbounded),
        (Included(n + 1), Excluded(n + 1)),
        (Included(1), Excluded(0)),
        (Included(n + 1), Excluded(n)),
        (Unbounded, Included(n)),
        (Unbounded, Included(usize::MAX)),
        (Excluded(usize::MAX), Unbounded),
        (Excluded(n), Unbounded),
        (Excluded(0), Excluded(0)),
        (Included(usize::MAX), Excluded(usize::MAX)),
        (Included(usize::MAX), Included(usize::MAX)),
    ]);
    let how = choose(5);
    let what = op!(["drain of {}", "drain_filter of {}", "splice of {}", "cursor of {}", "raw_cursor of {}"][how], n);
    log!("by {:?}", r);
    let st = still(v);
    let made = std::cell::RefCell::new(Vec::new());
    match how {
        0 => attempt(|| drop(v.drain(r))),
        1 => attempt(|| drop(v.drain_filter(r, |_| true))),
        2 => attempt(|| drop(v.splice(r, gen::<E>(1, Hint::Exact, &made)))),
        3 => attempt(|| drop(v.cursor(r))),
        _ => attempt(|| drop(v.raw_cursor(r))),
    }
    .must_panic(what);
    check!(made.borrow().is_empty(), "{}: the replacement was consumed", what);
    st.all(what, v);
    settle(what, v, m)
}

/// The vector still works.
fn usable<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W) {
    match choose(3) {
        0 if m.fits(1) => insert(v, m, Form::Plain, m.len(), true),
        1 if m.len() > 0 => remove(v, m, Form::Plain, Rm::Remove, 0),
        2 => {
            clear(v, m);
            if m.fits(2) {
                extend_slice(v, m, 2)
            }
        }
        _ => (),
    }
}

impl<E: Elem> Body<E> for Refused {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(self.lens));
        settle("start", v, &mut m);
        for _ in 0..self.depth {
            bad(v, &mut m, self.of);
        }
        usable(v, &mut m);
        owned::<E>("at the end", m.len());
    }
}

const LENS: &[usize] = &[3, 0, 1, 2, 4, 5, 6, 7];

fn groups(t: Tier) -> Vec<Group> {
    const ONE: Refused = Refused { depth: 1, lens: LENS, of: Of::Single };
    const TWO: Refused = Refused { depth: 2, lens: &[0, 1, 3], of: Of::Single };
    const BULK: Refused = Refused { depth: 1, lens: &[3, 0, 1, 2, 5], of: Of::Bulk };
    const CURSOR: Refused = Refused { depth: 1, lens: &[3, 0, 1, 5], of: Of::Cursor(1) };
    const CURSORS: Refused = Refused { depth: 1, lens: &[0, 2], of: Of::Cursor(2) };
    let mut g = vec![
        Group { name: "one-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&ONE) },
        Group { name: "one-T1-fixed", faults: 0, body: || stores::fixed::<T1, _>(&ONE) },
        Group { name: "one-T16-growable", faults: 0, body: || stores::growable::<T16, _>(&ONE) },
        Group { name: "one-TZ-growable", faults: 0, body: || stores::zero::<TZ, _>(&ONE) },
        Group { name: "one-T16-wrapped", faults: 0, body: || stores::wrapped::<T16, _>(&ONE) },
        Group { name: "one-T3-elsewhere", faults: 0, body: || stores::reinterpreted::<T3, _>(&ONE) },
        Group { name: "one-C16", faults: 0, body: || stores::plain::<C16, _>(&ONE) },
        Group { name: "two-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&TWO) },
        Group { name: "two-T16-growable", faults: 0, body: || stores::growable::<T16, _>(&TWO) },
        Group { name: "two-C16", faults: 0, body: || stores::plain::<C16, _>(&TWO) },
        Group { name: "bulk-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&BULK) },
        Group { name: "bulk-T1-growable", faults: 0, body: || stores::growable::<T1, _>(&BULK) },
        Group { name: "bulk-T3-elsewhere", faults: 0, body: || stores::reinterpreted::<T3, _>(&BULK) },
        Group { name: "bulk-TZ-growable", faults: 0, body: || stores::zero::<TZ, _>(&BULK) },
        Group { name: "bulk-C16", faults: 0, body: || stores::plain::<C16, _>(&BULK) },
        Group { name: "cursor-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&CURSOR) },
        Group { name: "cursor-T16-growable", faults: 0, body: || stores::growable::<T16, _>(&CURSOR) },
        Group { name: "cursors-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&CURSORS) },
        Group { name: "cursors-C16", faults: 0, body: || stores::plain::<C16, _>(&CURSORS) },
    ];
    const LONG: Refused = Refused { depth: 1, lens: &[33, 65], of: Of::Single };
    const LONGER: Refused = Refused { depth: 1, lens: &[33], of: Of::Bulk };
    const AFAR: Refused = Refused { depth: 1, lens: &[33], of: Of::Cursor(1) };
    g.push(Group { name: "long-T16-fixed", faults: 0, body: || { stores::long(); stores::fixed::<T16, _>(&LONG) } });
    g.push(Group { name: "long-T16-growable", faults: 0, body: || { stores::long(); stores::growable::<T16, _>(&LONG) } });
    g.push(Group { name: "long-bulk", faults: 0, body: || { stores::long(); stores::fixed::<T16, _>(&LONGER) } });
    g.push(Group { name: "long-cursor", faults: 0, body: || { stores::long(); stores::fixed::<T16, _>(&AFAR) } });
    const HUGE: Refused = Refused { depth: 1, lens: &[300], of: Of::Single };
    g.push(Group { name: "huge-T16-fixed", faults: 0, body: || { stores::huge(); stores::fixed::<T16, _>(&HUGE) } });
    g.push(Group { name: "huge-T16-growable", faults: 0, body: || { stores::huge(); stores::growable::<T16, _>(&HUGE) } });
    const HUGER: Refused = Refused { depth: 1, lens: &[300], of: Of::Bulk };
    g.push(Group { name: "huge-bulk", faults: 0, body: || { stores::huge(); stores::fixed::<T16, _>(&HUGER) } });
    g.push(Group { name: "big-TB-fixed", faults: 0, body: || stores::fixed::<TB, _>(&ONE) });
    g.push(Group { name: "big-TB-growable", faults: 0, body: || stores::growable::<TB, _>(&ONE) });
    if t == Tier::Thorough {
        const TWOM: Refused = Refused { depth: 2, lens: LENS, of: Of::Single };
        const MORE: Refused = Refused { depth: 1, lens: LENS, of: Of::Bulk };
        const TWICE: Refused = Refused { depth: 2, lens: &[0, 2], of: Of::Bulk };
        g.push(Group { name: "two-T1-fixed", faults: 0, body: || stores::fixed::<T1, _>(&TWOM) });
        g.push(Group { name: "two-T3-elsewhere", faults: 0, body: || stores::reinterpreted::<T3, _>(&TWO) });
        g.push(Group { name: "two-TZ-growable", faults: 0, body: || stores::zero::<TZ, _>(&TWO) });
        g.push(Group { name: "two-T16-wrapped", faults: 0, body: || stores::wrapped::<T16, _>(&TWO) });
        g.push(Group { name: "bulk-T16-more", faults: 0, body: || stores::fixed::<T16, _>(&MORE) });
        g.push(Group { name: "bulk-T16-twice", faults: 0, body: || stores::fixed::<T16, _>(&TWICE) });
    }
    g
}

fn main() { run_main("P03", groups) }
