//! The operations documented not to panic, abort or allocate.
use generic_vec::raw::Storage;
use generic_vec::GenericVec;
use mc::ops::*;
use mc::stores::{self, Body, Kind};
use mc::tok::*;
use mc::*;

struct Tries {
    depth: usize,
    lens: &'static [usize],
}

/// any index at all
fn any(len: usize) -> usize {
    if flag() {
        past(len + 1)
    } else {
        upto(len)
    }
}

fn one<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W) {
    let len = m.len();
    let f = Form::Try;
    match choose(if cfg!(feature = "nightly") { 7 } else { 6 }) {
        0 => insert(v, m, f, len, true),
        1 => insert(v, m, f, any(len), false),
        2 => remove(v, m, f, Rm::Pop, 0),
        3 => remove(v, m, f, Rm::Remove, any(len)),
        4 => remove(v, m, f, Rm::Swap, any(len)),
        5 => writes(v, m),
        #[cfg(feature = "nightly")]
        6 => match choose(4) {
            0 => at::<E, S, 2>(v, m),
            1 => at::<E, S, 0>(v, m),
            2 => at::<E, S, 3>(v, m),
            _ => at::<E, S, 5>(v, m),
        },
        _ => unreachable!(),
    }
}

#[cfg(feature = "nightly")]
fn at<E: Elem, S: ?Sized + Storage<E>, const N: usize>(v: &mut GenericVec<E, S>, m: &mut W) {
    let len = m.len();
    match choose(4) {
        0 => insert_array::<E, S, N>(v, m, Form::Try, len, true),
        1 => insert_array::<E, S, N>(v, m, Form::Try, any(len), false),
        2 => remove_array::<E, S, N>(v, m, Form::Try, 0, true),
        _ => remove_array::<E, S, N>(v, m, Form::Try, any(len), false),
    }
}

/// Fallible writes through a cursor: they succeed exactly when there is an unfilled slot on that side.
fn writes<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W) {
    let (a, b) = range(m.len());
    if stores::is_long() && b - a > 9 {
        return
    }
    let taken_front = choose(b - a + 1);
    let taken_back = choose(b - a - taken_front + 1);
    op!("cursor {}..{}, {} taken at the front, {} at the back", a, b, taken_front, taken_back);
    let st = still(v);
    let (mut front, mut back) = (taken_front, taken_back);
    let left = b - a - front - back;
    let (mut head, mut tail) = (Vec::new(), Vec::new());
    let mut c = must("cursor", || v.cursor(a..b));
    for k in 0..taken_front {
        same1("take_front", &must("take_front", || c.take_front()), m.v[a + k])
    }
    for k in 0..taken_back {
        same1("take_back", &must("take_back", || c.take_back()), m.v[b - 1 - k])
    }
    for _ in 0..taken_front + taken_back + 1 {
        let at_front = flag();
        let (e, x) = mk::<E>();
        let gap = if left == 0 {
            front + back
        } else if at_front {
            front
        } else {
            back
        };
        let r = must("try_write", || if at_front { c.try_write_front(e) } else { c.try_write_back(e) });
        match r {
            Ok(()) => {
                check!(gap > 0, "a write succeeded although there is no unfilled slot on that side");
                if at_front {
                    head.push(x)
                } else {
                    tail.insert(0, x)
                }
                if left == 0 {
                    // one common gap
                    if front > 0 {
                        front -= 1
                    } else {
                        back -= 1
                    }
                } else if at_front {
                    front -= 1
                } else {
                    back -= 1
                }
            }
            Err(e) => {
                check!(gap == 0, "a write was refused although there is an unfilled slot on that side");
                same1("the refused value", &e, x)
            }
        }
    }
    must("end of the cursor", || drop(c));
    let mut new: Vec<M> = m.v[..a].to_vec();
    new.extend(head);
    new.extend_from_slice(&m.v[a + taken_front..b - taken_back]);
    new.extend(tail);
    new.extend_from_slice(&m.v[b..]);
    m.v = new;
    st.all("cursor", v);
    settle("cursor", v, m)
}

impl<E: Elem> Body<E> for Tries {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(self.lens));
        settle("start", v, &mut m);
        for _ in 0..self.depth {
            one(v, &mut m);
            owned::<E>("after a fallible operation", m.len());
        }
    }
}

const LENS: &[usize] = &[3, 0, 1, 2, 4, 5, 8];

fn groups(t: Tier) -> Vec<Group> {
    const ONE: Tries = Tries { depth: 1, lens: LENS };
    const TWO: Tries = Tries { depth: 2, lens: &[0, 1, 3] };
    let mut g = vec![
        Group { name: "one-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&ONE) },
        Group { name: "one-T16-growable", faults: 0, body: || stores::growable::<T16, _>(&ONE) },
        Group { name: "one-TZ", faults: 0, body: || stores::zero::<TZ, _>(&ONE) },
        Group { name: "one-T16-wrapped", faults: 0, body: || stores::wrapped::<T16, _>(&ONE) },
        Group { name: "one-T1-elsewhere", faults: 0, body: || stores::reinterpreted::<T1, _>(&ONE) },
        Group { name: "one-C16", faults: 0, body: || stores::plain::<C16, _>(&ONE) },
        Group { name: "two-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&TWO) },
        Group { name: "two-T16-growable", faults: 0, body: || stores::growable::<T16, _>(&TWO) },
    ];
    const LONG: Tries = Tries { depth: 1, lens: stores::LENGTHS };
    g.push(Group { name: "long-T16-fixed", faults: 0, body: || { stores::long(); stores::fixed::<T16, _>(&LONG) } });
    g.push(Group { name: "long-T16-growable", faults: 0, body: || { stores::long(); stores::growable::<T16, _>(&LONG) } });
    const HUGE: Tries = Tries { depth: 1, lens: &[300] };
    g.push(Group { name: "huge-T16-fixed", faults: 0, body: || { stores::huge(); stores::fixed::<T16, _>(&HUGE) } });
    g.push(Group { name: "huge-T16-growable", faults: 0, body: || { stores::huge(); stores::growable::<T16, _>(&HUGE) } });
    g.push(Group { name: "big-TB-fixed", faults: 0, body: || stores::fixed::<TB, _>(&ONE) });
    if t == Tier::Thorough {
        const TWOM: Tries = Tries { depth: 2, lens: LENS };
        g.push(Group { name: "two-T16-fixed-more", faults: 0, body: || stores::fixed::<T16, _>(&TWOM) });
        g.push(Group { name: "two-TZ", faults: 0, body: || stores::zero::<TZ, _>(&TWO) });
        g.push(Group { name: "two-T1-elsewhere", faults: 0, body: || stores::reinterpreted::<T1, _>(&TWO) });
        g.push(Group { name: "two-T16-wrapped", faults: 0, body: || stores::wrapped::<T16, _>(&TWO) });
        g.push(Group { name: "two-C16", faults: 0, body: || stores::plain::<C16, _>(&TWO) });
        g.push(Group { name: "three-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&Tries { depth: 3, lens: &[0, 2] }) });
    }
    g
}

fn main() { run_main("P04", groups) }
