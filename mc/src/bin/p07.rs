//! Leaked iterators and cursors.
use generic_vec::raw::Storage;
use generic_vec::GenericVec;
use mc::ops::*;
use mc::stores::{self, Body, Kind};
use mc::tok::*;
use mc::walk::Steps;
use mc::*;
use std::cell::RefCell;

struct Leak {
    lens: &'static [usize],
    steps: usize,
    /// operations performed afterwards
    after: usize,
    /// every move of a cursor, instead of a few of everything
    walk: bool,
}

/// What is left in the vector after the leak is learned and judged.
fn judge<E: Elem, S: ?Sized + Storage<E>>(what: &str, v: &GenericVec<E, S>, m: &mut W, taken: &[E], written: &[M], most: Option<usize>) {
    check!(v.len() <= v.capacity(), "{}: length {} exceeds capacity {}", what, v.len(), v.capacity());
    let old = std::mem::take(&mut m.v);
    let now: Vec<M> = v.iter().map(M::of).collect();
    if E::ID {
        let mut at = 0;
        for (i, x) in now.iter().enumerate() {
            check!(!now[..i].contains(x), "{}: element {} is in the vector twice", what, x.id);
            check!(!taken.iter().any(|e| e.id() == x.id), "{}: element {} was handed out and is in the vector", what, x.id);
            if written.contains(x) {
                continue
            }
            match old.iter().position(|y| y.id == x.id) {
                None => fail!("{}: element {} was never in the vector", what, x.id),
                Some(p) => {
                    check!(p >= at, "{}: the order was changed: {:?} from {:?}", what, now, old);
                    at = p + 1
                }
            }
        }
    } else {
        let most = most.unwrap_or_else(|| old.len() + written.len() - taken.len().min(old.len()));
        check!(now.len() <= most, "{}: {} elements from {}", what, now.len(), old.len());
    }
    m.v = now;
    if E::OWNED {
        let gone = live() - (m.v.len() + taken.len()) as i64;
        check!(gone >= 0, "{}: {} elements alive, {} reachable", what, live(), m.v.len() + taken.len());
        lose(gone);
    }
    settle(what, v, m);
}

/// One step of an iterator at either end.
fn take<E: Elem, I: DoubleEndedIterator<Item = E>>(what: &str, it: &mut I, taken: &mut Vec<E>) {
    let how = choose(4);
    op!(["then next", "then next_back", "then nth(1)", "then nth_back(1)"][how]);
    for _ in 0..times() {
        taken.extend(must(what, || match how {
            0 => it.next(),
            1 => it.next_back(),
            2 => it.nth(1),
            _ => it.nth_back(1),
        }));
    }
}

/// How often a step is done in a row.
fn times() -> usize { if stores::is_long() { pick(&[16usize, 33]) } else { 1 } }

impl<E: Elem> Body<E> for Leak {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(self.lens));
        settle("start", v, &mut m);
        let n = m.len();
        let (a, b) = range(n);
        let mut taken: Vec<E> = Vec::new();
        let mut written: Vec<M> = Vec::new();
        let what;
        let mut most = None;
        match if self.walk { 6 } else { choose(6) } {
            0 => {
                what = op!("leak of a drain {}..{} of {}", a, b, n);
                let mut d = must(what, || v.drain(a..b));
                for _ in 0..choose(self.steps + 1) {
                    take(what, &mut d, &mut taken)
                }
                std::mem::forget(d)
            }
            1 => {
                let mask = mask(b - a, 3);
                let turn = if stores::is_long() { 64 } else { 3 };
                what = op!("leak of a drain_filter {}..{} of {} mask {}", a, b, n, mask);
                let mut c = 0;
                let mut d = must(what, || {
                    v.drain_filter(a..b, |_| {
                        c += 1;
                        bit(mask, (c - 1) % turn)
                    })
                });
                for _ in 0..choose(self.steps + 1) {
                    take(what, &mut d, &mut taken)
                }
                std::mem::forget(d)
            }
            2 => {
                let k = if stores::is_long() { pick(&[0, 17, 40]) } else { choose(3) };
                what = op!("leak of a splice {}..{} of {} by {}", a, b, n, k);
                let made = RefCell::new(Vec::new());
                let mut s = must(what, || v.splice(a..b, gen::<E>(k, Hint::Exact, &made)));
                for _ in 0..choose(self.steps + 1) {
                    take(what, &mut s, &mut taken)
                }
                std::mem::forget(s);
                check!(made.borrow().is_empty(), "{}: the replacement was consumed", what)
            }
            3 => {
                what = op!("leak of a spare_capacity_mut of {}", n);
                let room = v.capacity() - n;
                let mut s = must(what, || v.spare_capacity_mut());
                for _ in 0..choose(self.steps + 1).min(room) {
                    for _ in 0..times() {
                        let (e, _) = mk::<E>();
                        if let Err(e) = must(what, || s.try_push(e).map(drop)) {
                            drop(e)
                        }
                    }
                }
                std::mem::forget(s)
            }
            6 => {
                what = "leak of a cursor";
                let g = Steps { depth: self.steps, all: true }.walk(v, &mut m, (a, b), true);
                let left = g.left();
                written.extend(left.iter().filter(|x| !m.v.contains(x)));
                if E::ID {
                    for e in v.iter() {
                        check!(left.contains(&M::of(e)), "{}: element {} is in the vector although it was taken out", what, e.id())
                    }
                }
                most = Some(left.len())
            }
            w => {
                what = op!("leak of a cursor {}..{} of {}", a, b, n);
                let mut c = must(what, || v.cursor(a..b));
                for _ in 0..choose(self.steps + 1) {
                    let step = choose(if w == 4 { 6 } else { 7 });
                    for _ in 0..if step < 6 { times() } else { 1 } {
                    match step {
                        0 => {
                            op!("then take_front");
                            if !c.is_empty() {
                                taken.push(must(what, || c.take_front()))
                            }
                        }
                        1 => {
                            op!("then take_back");
                            if !c.is_empty() {
                                taken.push(must(what, || c.take_back()))
                            }
                        }
                        2 => {
                            op!("then skip_front");
                            if !c.is_empty() {
                                must(what, || c.skip_front())
                            }
                        }
                        3 => {
                            op!("then skip_back");
                            if !c.is_empty() {
                                must(what, || c.skip_back())
                            }
                        }
                        4 => {
                            op!("then write_front");
                            let (e, x) = mk::<E>();
                            if must(what, || c.try_write_front(e)).is_ok() {
                                written.push(x)
                            }
                        }
                        5 => {
                            op!("then write_back");
                            let (e, x) = mk::<E>();
                            if must(what, || c.try_write_back(e)).is_ok() {
                                written.push(x)
                            }
                        }
                        _ => {
                            if flag() {
                                op!("then finish");
                                must(what, || c.as_raw_cursor_mut().finish())
                            } else if c.is_empty() {
                                op!("then reserve");
                                // a refusal changes nothing
                                let _ = attempt(|| c.reserve(3));
                            }
                        }
                    }
                    }
                }
                std::mem::forget(c)
            }
        }
        judge(what, v, &mut m, &taken, &written, most);
        drop(taken);
        for _ in 0..self.after {
            any_op(v, &mut m, false)
        }
        clear(v, &mut m);
        owned::<E>("after clearing", 0);
        fill(v, &mut m, 2);
        settle("refilled", v, &mut m);
    }
}

fn groups(t: Tier) -> Vec<Group> {
    const ONE: Leak = Leak { lens: &[3, 0, 1, 2, 4], steps: 3, after: 0, walk: false };
    const THEN: Leak = Leak { lens: &[3, 2], steps: 1, after: 1, walk: false };
    let mut g = vec![
        Group { name: "T16-growable", faults: 0, body: || stores::growable::<T16, _>(&ONE) },
        Group { name: "T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&ONE) },
        Group { name: "T1-elsewhere", faults: 0, body: || stores::reinterpreted::<T1, _>(&ONE) },
        Group { name: "C16", faults: 0, body: || stores::growable::<C16, _>(&ONE) },
        Group { name: "TZ", faults: 0, body: || stores::zero::<TZ, _>(&ONE) },
        Group { name: "then-T16", faults: 0, body: || stores::growable::<T16, _>(&THEN) },
        Group { name: "then-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&THEN) },
    ];
    const FAR: Leak = Leak { lens: &[40], steps: 1, after: 0, walk: false };
    g.push(Group { name: "long-T16", faults: 0, body: || {
        stores::long();
        stores::growable::<T16, _>(&FAR)
    } });
    g.push(Group { name: "long-T16-fixed", faults: 0, body: || {
        stores::long();
        stores::fixed::<T16, _>(&FAR)
    } });
    const WALK: Leak = Leak { lens: &[3, 0, 1], steps: 2, after: 0, walk: true };
    const STEP: Leak = Leak { lens: &[3, 2], steps: 1, after: 1, walk: true };
    const STRIDE: Leak = Leak { lens: &[40], steps: 1, after: 0, walk: true };
    g.push(Group { name: "walk-T16", faults: 0, body: || stores::growable::<T16, _>(&WALK) });
    g.push(Group { name: "walk-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&WALK) });
    g.push(Group { name: "walk-C16", faults: 0, body: || stores::plain::<C16, _>(&WALK) });
    g.push(Group { name: "walk-TZ", faults: 0, body: || stores::zero::<TZ, _>(&WALK) });
    g.push(Group { name: "walk-then-T16", faults: 0, body: || stores::fixed::<T16, _>(&STEP) });
    g.push(Group { name: "walk-long-T16", faults: 0, body: || {
        stores::long();
        stores::growable::<T16, _>(&STRIDE)
    } });
    const BEYOND: Leak = Leak { lens: &[300], steps: 1, after: 0, walk: false };
    g.push(Group { name: "huge-T16", faults: 0, body: || { stores::huge(); stores::growable::<T16, _>(&BEYOND) } });
    const BIG: Leak = Leak { lens: &[3], steps: 2, after: 0, walk: false };
    g.push(Group { name: "big-TB", faults: 0, body: || stores::fixed::<TB, _>(&BIG) });
    g.push(Group { name: "sizes", faults: 0, body: || stores::sizes(&BIG) });
    if t == Tier::Thorough {
        const WALKS: Leak = Leak { lens: &[3], steps: 3, after: 0, walk: true };
        g.push(Group { name: "walks-T16", faults: 0, body: || stores::wrapped::<T16, _>(&WALKS) });
        const FAR2: Leak = Leak { lens: &[40], steps: 2, after: 0, walk: false };
        g.push(Group { name: "long2-T16", faults: 0, body: || {
            stores::long();
            stores::growable::<T16, _>(&FAR2)
        } });
        const DEEP: Leak = Leak { lens: &[3, 5], steps: 5, after: 0, walk: false };
        const THEN2: Leak = Leak { lens: &[3, 2], steps: 2, after: 1, walk: false };
        g.push(Group { name: "deep-T16", faults: 0, body: || stores::growable::<T16, _>(&DEEP) });
        g.push(Group { name: "then2-T16", faults: 0, body: || stores::growable::<T16, _>(&THEN2) });
        g.push(Group { name: "then2-T16-fixed", faults: 0, body: || stores::fixed::<T16, _>(&THEN2) });
        g.push(Group { name: "then2-TZ", faults: 0, body: || stores::zero::<TZ, _>(&THEN2) });
    }
    g
}

fn main() { run_main("P07", groups) }
