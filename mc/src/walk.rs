//! Iterators and cursors, step by step in every way, against the reference.
use crate::engine::{choose, flag, pick};
use crate::ops::*;
use crate::stores::{self, Body, Kind, Taker};
use crate::tok::{is_live, live, Elem};
use crate::world::{attempt, must, owned, same, same1, settle, M, W};
use crate::{check, fail, off, op};
use generic_vec::iter::Cursor;
use generic_vec::raw::Storage;
use generic_vec::GenericVec;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;

/// The reference: elements already passed at the front, free slots, elements to come, free slots, elements passed at
/// the back. Without elements to come there is one common gap, kept in `f`.
pub struct Gap {
    head: Vec<M>,
    f: usize,
    mid: VecDeque<M>,
    b: usize,
    tail: VecDeque<M>,
}

impl Gap {
    /// Everything the vector may still contain.
    pub fn left(&self) -> Vec<M> { self.head.iter().chain(self.mid.iter()).chain(self.tail.iter()).copied().collect() }
    fn norm(&mut self) {
        if self.mid.is_empty() {
            self.f += self.b;
            self.b = 0;
        }
    }
    fn front(&self) -> usize { self.f }
    fn back(&self) -> usize { if self.mid.is_empty() { self.f } else { self.b } }
    fn put(&mut self, front: bool, x: M) {
        if front {
            self.head.push(x)
        } else {
            self.tail.push_front(x)
        }
        if front || self.mid.is_empty() {
            self.f -= 1
        } else {
            self.b -= 1
        }
    }
    fn take(&mut self, front: bool) -> M {
        let x = if front {
            self.f += 1;
            self.mid.pop_front().unwrap()
        } else {
            self.b += 1;
            self.mid.pop_back().unwrap()
        };
        self.norm();
        x
    }
    fn skip(&mut self, front: bool, n: usize) {
        for _ in 0..n {
            if front {
                self.head.push(self.mid.pop_front().unwrap())
            } else {
                self.tail.push_front(self.mid.pop_back().unwrap())
            }
        }
        self.norm()
    }
    fn finish(&mut self) {
        let n = self.mid.len();
        self.skip(true, n);
        self.f = 0;
    }
}

fn look<E: Elem, S: ?Sized + Storage<E>>(what: &str, c: &mut Cursor<'_, E, S>, g: &Gap) {
    let (n, fl, bl) = (g.mid.len(), g.front(), g.back());
    let gap = g.f + g.b;
    check!(c.len() == n && c.is_empty() == (n == 0), "{}: {} elements remain, expected {}", what, c.len(), n);
    check!(
        c.write_front_len() == fl && c.write_back_len() == bl,
        "{}: {} and {} unfilled slots, expected {} and {}",
        what,
        c.write_front_len(),
        c.write_back_len(),
        fl,
        bl
    );
    check!(n != 0 || c.write_len() == gap, "{}: {} unfilled slots, expected {}", what, c.write_len(), gap);
    check!(c.is_write_front_empty() == (fl == 0), "{}: whether there are unfilled slots at the front is wrong", what);
    check!(c.is_write_back_empty() == (bl == 0), "{}: whether there are unfilled slots at the back is wrong", what);
    check!(c.is_write_empty() == (n == 0 && gap == 0), "{}: whether the cursor is used up is wrong", what);
    for k in 0..4 {
        let x = if k < 2 { g.mid.front() } else { g.mid.back() };
        let e = match k {
            0 => c.front(),
            1 => c.front_mut().map(|e| &*e),
            2 => c.back(),
            _ => c.back_mut().map(|e| &*e),
        };
        match (e, x) {
            (None, None) => (),
            (Some(e), Some(x)) => same1(what, e, *x),
            _ => fail!("{}: peeking does not agree with the number of elements left", what),
        }
    }
    crate::alloc::check_all();
    let h = [g.head.len(), fl, n, bl, g.tail.len()].iter().fold(1, |h, x| crate::engine::mix(h, *x as u64));
    crate::state(h);
}

const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18];
const CORE: &[usize] = &[0, 1, 2, 7, 8, 13, 14, 15, 16];

/// Small amounts; with everything, also too many.
fn amount(n: usize, all: bool) -> usize {
    if stores::is_long() {
        upto(n)
    } else if all {
        let k = choose(n.min(3) + 3);
        if k <= n.min(3) {
            k
        } else if k == n.min(3) + 1 {
            n + 1
        } else {
            usize::MAX
        }
    } else {
        choose(n.min(2) + 1)
    }
}

/// A history of steps of a cursor.
#[derive(Clone, Copy)]
pub struct Steps {
    pub depth: usize,
    /// everything, or only the basic moves
    pub all: bool,
}

impl Steps {
    /// Returns false when the cursor is to be dropped.
    fn step<E: Elem, S: ?Sized + Storage<E>>(&self, c: &mut Cursor<'_, E, S>, g: &mut Gap, cap: Option<usize>) -> bool {
        let k = pick(if self.all { ALL } else { CORE });
        let n = g.mid.len();
        let gap = g.f + g.b;
        match k {
            0 => return false,
            1 | 2 => {
                let front = k == 1;
                let what = op!(if front { "take_front with {} left" } else { "take_back with {} left" }, n);
                let o = attempt(|| if front { c.take_front() } else { c.take_back() });
                if n == 0 {
                    o.must_panic(what)
                } else {
                    same1(what, &o.ret(what), g.take(front))
                }
            }
            3 | 4 => {
                let front = k == 3;
                let what = op!(if front { "drop_front with {} left" } else { "drop_back with {} left" }, n);
                let before = live();
                let o = attempt(|| if front { c.drop_front() } else { c.drop_back() });
                if n == 0 {
                    o.must_panic(what)
                } else {
                    o.ret(what);
                    self.gone::<E>(what, g, front, 1, before)
                }
            }
            5 | 6 => {
                let front = k == 5;
                let x = amount(n, self.all);
                let what = op!(if front { "drop_n_front({}) with {} left" } else { "drop_n_back({}) with {} left" }, x, n);
                let before = live();
                let o = attempt(|| if front { c.drop_n_front(x) } else { c.drop_n_back(x) });
                if x > n {
                    o.must_panic(what)
                } else {
                    o.ret(what);
                    self.gone::<E>(what, g, front, x, before)
                }
            }
            7 | 8 => {
                let front = k == 7;
                let what = op!(if front { "skip_front with {} left" } else { "skip_back with {} left" }, n);
                let o = attempt(|| if front { c.skip_front() } else { c.skip_back() });
                if n == 0 {
                    o.must_panic(what)
                } else {
                    o.ret(what);
                    g.skip(front, 1)
                }
            }
            9 | 10 => {
                let front = k == 9;
                let x = amount(n, self.all);
                let what = op!(if front { "skip_n_front({}) with {} left" } else { "skip_n_back({}) with {} left" }, x, n);
                let o = attempt(|| if front { c.skip_n_front(x) } else { c.skip_n_back(x) });
                if x > n {
                    o.must_panic(what)
                } else {
                    o.ret(what);
                    g.skip(front, x)
                }
            }
            11 | 12 => {
                let front = k == 11;
                let what = op!(if front { "write_front" } else { "write_back" });
                let (e, x) = mk::<E>();
                let o = attempt(|| if front { c.write_front(e) } else { c.write_back(e) });
                if (if front { g.front() } else { g.back() }) == 0 {
                    o.must_panic(what)
                } else {
                    o.ret(what);
                    g.put(front, x)
                }
            }
            13 | 14 => {
                let front = k == 13;
                let what = op!(if front { "try_write_front" } else { "try_write_back" });
                let (e, x) = mk::<E>();
                let free = (if front { g.front() } else { g.back() }) > 0;
                match must(what, || if front { c.try_write_front(e) } else { c.try_write_back(e) }) {
                    Ok(()) => {
                        check!(free, "{}: wrote although there is no unfilled slot on that side", what);
                        g.put(front, x)
                    }
                    Err(e) => {
                        check!(!free, "{}: refused although there is an unfilled slot on that side", what);
                        same1(what, &e, x)
                    }
                }
            }
            15 => {
                let x = if self.all { pick(&[1usize, 0, 2, 4, usize::MAX]) } else { pick(&[1usize, 3]) };
                let what = op!("reserve({}) with {} unfilled slots", x, gap);
                let o = attempt(|| c.reserve(x));
                let had = g.head.len() + g.tail.len();
                if n > 0 {
                    o.must_panic(what)
                } else if x <= gap {
                    o.ret(what)
                } else if E::ZST && x == usize::MAX {
                    // may be refused or not
                    if !o.panicked() {
                        g.f = x
                    }
                } else if x == usize::MAX || cap.map_or(false, |c| had + x > c) {
                    o.must_panic(what)
                } else {
                    o.ret(what);
                    check!(c.write_len() >= x, "{}: there are only {} unfilled slots", what, c.write_len());
                    g.f = c.write_len()
                }
            }
            16 => {
                let what = op!("finish with {} left", n);
                must(what, || c.as_raw_cursor_mut().finish());
                g.finish()
            }
            _ => {
                let front = k == 17;
                let free = if front { g.front() } else { g.back() };
                let x = if stores::is_long() { upto(free) } else { choose(free.min(3) + 1 + E::COPY as usize) };
                let what = op!(if front { "write_slice_front of {} into {}" } else { "write_slice_back of {} into {}" }, x, free);
                let (mut es, ms) = mks::<E>(x);
                let before = live();
                let o = attempt(|| E::several(c, &mut es, front));
                if x > free {
                    o.must_panic(what)
                } else {
                    o.ret(what);
                    for k in 0..x {
                        g.put(front, ms[if front { k } else { x - 1 - k }])
                    }
                }
                check!(live() == before, "{}: elements were dropped", what)
            }
        }
        true
    }

    fn gone<E: Elem>(&self, what: &str, g: &mut Gap, front: bool, n: usize, before: i64) {
        for _ in 0..n {
            let x = g.take(front);
            check!(!E::OWNED || !E::ID || !is_live(x.id), "{}: element {} was not dropped", what, x.id)
        }
        check!(!E::OWNED || live() == before - n as i64, "{}: the wrong number of elements was dropped", what)
    }
}


impl Steps {
    /// A cursor over a range, which is dropped in the end, or leaked.
    pub fn walk<E: Elem, S: ?Sized + Storage<E>>(self, v: &mut GenericVec<E, S>, m: &mut W, r: (usize, usize), leak: bool) -> Gap {
        let (a, b) = r;
        let mut g = Gap {
            head: m.v[..a].to_vec(),
            f: 0,
            mid: m.v[a..b].iter().copied().collect(),
            b: 0,
            tail: m.v[b..].iter().copied().collect(),
        };
        op!("cursor {}..{} of {}", a, b, m.len());
        let mut c = must("cursor", || v.cursor(a..b));
        look("cursor", &mut c, &g);
        for _ in 0..self.depth {
            if !self.step(&mut c, &mut g, m.cap) {
                break
            }
            look("cursor step", &mut c, &g);
            owned::<E>("cursor step", g.head.len() + g.mid.len() + g.tail.len());
        }
        if leak {
            op!("the cursor is leaked with {} left and {} and {} unfilled slots", g.mid.len(), g.f, g.b);
            std::mem::forget(c);
            return g
        }
        op!("end of the cursor with {} left and {} and {} unfilled slots", g.mid.len(), g.f, g.b);
        must("drop", || drop(c));
        m.v = g.left();
        settle("after the cursor", v, m);
        owned::<E>("after the cursor", m.len());
        g
    }
}

/// A drain, advanced in every way.
pub fn drained<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, r: (usize, usize), rich: bool) {
    let (a, b) = r;
    op!("drain {}..{} of {}", a, b, m.len());
    let st = still(v);
    let gone = m.v.drain(a..b).collect();
    let d = must("drain", || v.drain(a..b));
    pump("drain", d, gone, rich, |_, _| ());
    st.all("drain", v);
    settle("drain", v, m);
    owned::<E>("after draining", m.len());
}

/// A splice, advanced in every way.
pub fn eaten<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, r: (usize, usize), n: usize, rich: bool) {
    let (a, b) = r;
    if m.cap.map_or(false, |c| m.len() - (b - a) + n > c) {
        return
    }
    let made = RefCell::new(Vec::new());
    let gone = m.v[a..b].iter().copied().collect();
    op!("splice {}..{} of {} by {}", a, b, m.len(), n);
    let s = must("splice", || v.splice(a..b, gen::<E>(n, Hint::Exact, &made)));
    pump("splice", s, gone, rich, |_, _| check!(made.borrow().is_empty(), "the replacement was consumed before the end"));
    let tail = m.v.split_off(b);
    m.v.truncate(a);
    m.v.extend_from_slice(&made.borrow());
    m.v.extend_from_slice(&tail);
    check!(made.borrow().len() == n, "{} replacements were taken", made.borrow().len());
    settle("splice", v, m);
    owned::<E>("after splicing", m.len());
}

/// A vector consumed by value, advanced in every way.
pub fn consumed<E: Elem, S: Storage<E>>(v: GenericVec<E, S>, m: W, rich: bool) {
    op!("into_iter of {}", m.len());
    let it = must("into_iter", || v.into_iter());
    pump("into_iter", it, m.v.iter().copied().collect(), rich, |it, left| {
        check!(!E::OWNED || live() == left.len() as i64, "into_iter: {} elements alive, {} left to yield", live(), left.len());
        let mut ms: Vec<M> = left.iter().copied().collect();
        same("into_iter().as_slice()", it.as_slice(), &mut ms);
        same("into_iter().as_mut_slice()", it.as_mut_slice(), &mut ms);
    });
    owned::<E>("after the iterator", 0);
}

/// A filtered drain with the predicate `mask`, advanced in every way; `write`: the predicate changes what it keeps.
pub fn filtered<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, a: usize, b: usize, mask: usize, write: usize, both: bool) {
    let what = op!("drain_filter {}..{} of {} mask {}, writing {}", a, b, m.len(), mask, write);
    let st = still(v);
    // positions still to be shown to the predicate
    let (front, back) = (Cell::new(a), Cell::new(b));
    let from_back = Cell::new(false);
    let model = RefCell::new(m.v.clone());
    let sel = |i: usize| bit(mask, i - a);
    {
        let pred = |e: &mut E| {
            off(|| {
                if front.get() >= back.get() {
                    fail!("the predicate was shown more elements than the range has")
                }
                let i = if from_back.get() {
                    back.set(back.get() - 1);
                    back.get()
                } else {
                    front.set(front.get() + 1);
                    front.get() - 1
                };
                same1("the predicate's argument", e, model.borrow()[i]);
                if write == 2 || !sel(i) && write == 1 {
                    e.set_val((e.val() + 1) % 8);
                    model.borrow_mut()[i] = M::of(e);
                }
                sel(i)
            })
        };
        let mut d = must(what, || v.drain_filter(a..b, pred));
        let mut extra = 2;
        let many = stores::is_long();
        let mut phases = 0;
        loop {
            let to_come = (front.get()..back.get()).filter(|i| sel(*i)).count();
            let (lo, hi) = d.size_hint();
            check!(
                lo <= to_come && hi.map_or(true, |h| to_come <= h),
                "{}: the size bounds ({}, {:?}) do not contain the {} elements to come",
                what,
                lo,
                hi,
                to_come
            );
            if to_come == 0 {
                if extra == 0 {
                    from_back.set(false);
                    must("drop", || drop(d));
                    break
                }
                extra -= 1
            }
            let next = |back_end: bool, d: &mut generic_vec::iter::DrainFilter<'_, E, S, _>| {
                from_back.set(back_end);
                let exp = if back_end {
                    (front.get()..back.get()).rev().find(|i| sel(*i))
                } else {
                    (front.get()..back.get()).find(|i| sel(*i))
                };
                let e = must("next", || if back_end { d.next_back() } else { d.next() });
                yielded("drain_filter", e, exp.map(|i| model.borrow()[i]));
            };
            phases += 1;
            let to_come: Vec<usize> = (front.get()..back.get()).filter(|i| sel(*i)).collect();
            let n = to_come.len();
            match if many && phases > 2 { 0 } else { choose(if !both { 2 } else if many && phases == 2 { 3 } else { 8 }) } {
                0 => {
                    from_back.set(false);
                    op!("drop the filtered drain");
                    must("drop", || drop(d));
                    break
                }
                k @ 1..=2 => {
                    for _ in 0..if many { 1 + upto(n) } else { 1 } {
                        next(k == 2, &mut d)
                    }
                }
                3 => {
                    from_back.set(false);
                    let k = if many { upto(n) } else { 1 };
                    op!("nth({}) with {} to come", k, n);
                    let e = must("nth", || d.nth(k));
                    yielded("drain_filter", e, to_come.get(k).map(|&i| model.borrow()[i]))
                }
                4 => {
                    from_back.set(true);
                    let k = if many { upto(n) } else { 1 };
                    op!("nth_back({}) with {} to come", k, n);
                    let e = must("nth_back", || d.nth_back(k));
                    yielded("drain_filter", e, to_come.iter().rev().nth(k).map(|&i| model.borrow()[i]))
                }
                5 => {
                    from_back.set(false);
                    op!("count with {} to come", n);
                    let c = must("count", || d.count());
                    check!(c == n, "count is {}, expected {}", c, n);
                    break
                }
                6 => {
                    from_back.set(false);
                    op!("last with {} to come", n);
                    let e = must("last", || d.last());
                    yielded("drain_filter", e, to_come.last().map(|&i| model.borrow()[i]));
                    break
                }
                _ => {
                    from_back.set(true);
                    op!("collect in reverse with {} to come", n);
                    let es: Vec<E> = must("rev", || d.rev().fold(off(Vec::new), |mut v, e| off(|| { v.push(e); v })));
                    let mut ms: Vec<M> = to_come.iter().rev().map(|&i| model.borrow()[i]).collect();
                    same("drain_filter in reverse", &es, &mut ms);
                    break
                }
            }
        }
    }
    check!(front.get() == back.get(), "the predicate was not shown every element ({} missing)", back.get() - front.get());
    let model = model.into_inner();
    m.v = (0..model.len()).filter(|&i| i < a || i >= b || !sel(i)).map(|i| model[i]).collect();
    st.all(what, v);
    settle(what, v, m)
}


/// An iterator or a cursor over any range, advanced in every way.
pub fn any_iter<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, s: Steps, rich: bool) {
    let r = range(m.len());
    match choose(4) {
        0 => drained(v, m, r, rich),
        1 => eaten(v, m, r, if stores::is_long() { pick(&[0, 20]) } else { choose(3) }, rich),
        2 => {
            let mask = mask(r.1 - r.0, 4);
            filtered(v, m, r.0, r.1, mask, choose(3), true)
        }
        _ => {
            s.walk(v, m, r, false);
        }
    }
}

/// A few steps with iterators, cursors and arrays.
pub struct Iters {
    pub lens: &'static [usize],
    pub steps: Steps,
    pub rich: bool,
}

impl<E: Elem> Body<E> for Iters {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(self.lens));
        settle("start", v, &mut m);
        any_iter(v, &mut m, self.steps, self.rich);
        // still usable
        if m.fits(1) {
            let n = m.len();
            insert(v, &mut m, Form::Plain, n / 2, false)
        }
        owned::<E>("at the end", m.len())
    }
}

/// Array-at-a-time operations, plain and fallible.
pub struct Arrays {
    pub lens: &'static [usize],
    pub times: usize,
}

impl<E: Elem> Body<E> for Arrays {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        if !cfg!(feature = "nightly") {
            return
        }
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(self.lens));
        settle("start", v, &mut m);
        for _ in 0..self.times {
            any_array(v, &mut m)
        }
    }
}

#[cfg(feature = "nightly")]
pub fn any_array<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W) {
    match choose(3) {
        0 => some_array::<E, S, 2>(v, m),
        1 => some_array::<E, S, 1>(v, m),
        _ => some_array::<E, S, 3>(v, m),
    }
    owned::<E>("after an array operation", m.len());
}

/// There are none.
#[cfg(not(feature = "nightly"))]
pub fn any_array<E: Elem, S: ?Sized + Storage<E>>(_: &mut GenericVec<E, S>, _: &mut W) {}

#[cfg(feature = "nightly")]
fn some_array<E: Elem, S: ?Sized + Storage<E>, const N: usize>(v: &mut GenericVec<E, S>, m: &mut W) {
    let f = pick(&[Form::Plain, Form::Try]);
    let n = m.len();
    match choose(4) {
        0 => insert_array::<E, S, N>(v, m, f, n, true),
        1 => insert_array::<E, S, N>(v, m, f, choose(n + 2), false),
        2 => remove_array::<E, S, N>(v, m, f, 0, true),
        _ => remove_array::<E, S, N>(v, m, f, choose(n + 1), false),
    }
}

/// Vectors consumed by value.
pub struct Consumed {
    pub lens: &'static [usize],
    pub rich: bool,
}

impl<E: Elem> Taker<E> for Consumed {
    fn take<S: Storage<E>>(&self, mut v: GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(&mut v, &mut m, pick(self.lens));
        consumed(v, m, self.rich)
    }
}
