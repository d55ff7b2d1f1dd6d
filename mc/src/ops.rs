//! Every operation, with its effect on the reference sequence.
//!
//! Each function performs one call on the real vector, decides from the reference alone what must happen, and compares.
use crate::engine::{choose, fault, flag, pick, F_CALL, F_HINT};
use crate::spy::asked;
use crate::tok::{inject, live, Elem};
use crate::world::{attempt, same, same1, settle, Outcome, M, W};
use crate::{alloc, off, op};
use generic_vec::raw::Storage;
use generic_vec::GenericVec;
use std::cell::RefCell;

/// A new element and its reference.
pub fn mk<E: Elem>() -> (E, M) {
    let e = E::mk(crate::tok::next_val());
    let m = M::of(&e);
    (e, m)
}

/// `n` new elements and their references.
pub fn mks<E: Elem>(n: usize) -> (Vec<E>, Vec<M>) {
    let mut es = Vec::new();
    let mut ms = Vec::new();
    for _ in 0..n {
        let (e, m) = mk::<E>();
        es.push(e);
        ms.push(m);
    }
    (es, ms)
}

/// Puts `n` elements into an empty vector, without going through any checked operation under test but `push`.
pub fn fill<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, n: usize) {
    for _ in 0..n {
        if !m.fits(1) {
            return
        }
        let (e, x) = mk::<E>();
        attempt(|| {
            v.push(e);
        })
        .ret("push while setting up");
        m.v.push(x);
    }
}

/// Fills with chosen values.
pub fn fill_vals<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, vals: &[u8]) {
    for &x in vals {
        let e = E::mk(x);
        m.v.push(M::of(&e));
        attempt(|| {
            v.push(e);
        })
        .ret("push while setting up");
    }
}

/// What must stay the same during calls that may not touch the storage.
pub struct Still {
    cap: usize,
    stat: alloc::Stat,
    asked: (u64, u64),
    base: usize,
}

pub fn still<E: Elem, S: ?Sized + Storage<E>>(v: &GenericVec<E, S>) -> Still {
    Still { cap: v.capacity(), stat: alloc::allocs(), asked: (asked().reserve, asked().try_reserve), base: v.as_ptr() as usize }
}

impl Still {
    /// capacity is unchanged
    #[inline]
    pub fn cap<E: Elem, S: ?Sized + Storage<E>>(&self, what: &str, v: &GenericVec<E, S>) { self.cap_is(what, v.capacity()) }
    /// nothing was asked of the allocator or of the storage
    #[inline]
    pub fn all<E: Elem, S: ?Sized + Storage<E>>(&self, what: &str, v: &GenericVec<E, S>) {
        self.all_is(what, v.capacity(), v.as_ptr() as usize)
    }
    fn cap_is(&self, what: &str, cap: usize) {
        if cap != self.cap {
            crate::fail!("{}: the capacity changed from {} to {}", what, self.cap, cap)
        }
    }
    #[inline(never)]
    fn all_is(&self, what: &str, cap: usize, ptr: usize) {
        self.cap_is(what, cap);
        if ptr != self.base {
            crate::fail!("{}: the buffer moved", what)
        }
        if alloc::allocs() != self.stat {
            crate::fail!("{}: the allocator was called", what)
        }
        if (asked().reserve, asked().try_reserve) != self.asked {
            crate::fail!("{}: the storage was asked for room", what)
        }
    }
}

/// Checked, fallible or unchecked form of an operation.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Plain,
    Try,
    Unchecked,
}
pub const FORMS: [Form; 3] = [Form::Plain, Form::Try, Form::Unchecked];

fn room<E: Elem, S: ?Sized + Storage<E>>(v: &GenericVec<E, S>) -> usize { v.capacity() - v.len() }

fn at<E>(r: &mut E) -> (usize, u32) where E: Elem { (r as *mut E as usize, r.id()) }

fn is_at<E: Elem, S: ?Sized + Storage<E>>(what: &str, v: &GenericVec<E, S>, i: usize, x: M, r: (usize, u32)) {
    if i >= v.len() || r.0 != &v.as_slice()[i] as *const E as usize || (E::ID && r.1 != x.id) {
        crate::fail!("{}: the returned reference is not the element at {}", what, i)
    }
}

/// insert (or push, for `push == true`)
pub fn insert<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, f: Form, i: usize, push: bool) {
    let what = op!(
        match (f, push) {
            (Form::Plain, true) => "push at {} of {}",
            (Form::Try, true) => "try_push at {} of {}",
            (Form::Unchecked, true) => "push_unchecked at {} of {}",
            (Form::Plain, false) => "insert at {} of {}",
            (Form::Try, false) => "try_insert at {} of {}",
            (Form::Unchecked, false) => "insert_unchecked at {} of {}",
        },
        i,
        m.len()
    );
    let (e, x) = mk::<E>();
    let st = still(v);
    let before = live();
    let inside = i <= m.len();
    match f {
        Form::Plain => {
            let o = attempt(|| at(if push { v.push(e) } else { v.insert(i, e) }));
            if inside && m.fits(1) {
                let r = o.ret(what);
                m.v.insert(i, x);
                is_at(what, v, i, x, r);
                if st.cap > m.len() - 1 {
                    st.all(what, v)
                }
            } else {
                o.must_panic(what);
                if E::OWNED && live() != before - 1 {
                    crate::fail!("{}: the refused value was not dropped exactly once", what)
                }
                st.cap(what, v);
            }
        }
        Form::Try => {
            let fits = room(v) >= 1 && inside;
            let o = attempt(|| (if push { v.try_push(e) } else { v.try_insert(i, e) }).map(at)).ret(what);
            match o {
                Ok(r) => {
                    if !fits {
                        crate::fail!("{}: accepted although it must be refused", what)
                    }
                    m.v.insert(i, x);
                    is_at(what, v, i, x, r)
                }
                Err(e) => {
                    if fits {
                        crate::fail!("{}: refused although there is room", what)
                    }
                    same1(what, &e, x);
                }
            }
            st.all(what, v)
        }
        Form::Unchecked => {
            let r = attempt(|| at(unsafe { if push { v.push_unchecked(e) } else { v.insert_unchecked(i, e) } })).ret(what);
            m.v.insert(i, x);
            is_at(what, v, i, x, r);
            st.all(what, v)
        }
    }
    settle(what, v, m)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rm {
    Pop,
    Remove,
    Swap,
}

/// pop, remove, swap_remove. `i` is ignored for pop.
pub fn remove<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, f: Form, k: Rm, i: usize) {
    let i = if k == Rm::Pop { m.len().wrapping_sub(1) } else { i };
    let what = op!(
        match (f, k) {
            (Form::Plain, Rm::Pop) => "pop at {} of {}",
            (Form::Plain, Rm::Remove) => "remove at {} of {}",
            (Form::Plain, Rm::Swap) => "swap_remove at {} of {}",
            (Form::Try, Rm::Pop) => "try_pop at {} of {}",
            (Form::Try, Rm::Remove) => "try_remove at {} of {}",
            (Form::Try, Rm::Swap) => "try_swap_remove at {} of {}",
            (Form::Unchecked, Rm::Pop) => "pop_unchecked at {} of {}",
            (Form::Unchecked, Rm::Remove) => "remove_unchecked at {} of {}",
            (Form::Unchecked, Rm::Swap) => "swap_remove_unchecked at {} of {}",
        },
        i,
        m.len()
    );
    let st = still(v);
    let inside = i < m.len();
    let o = attempt(|| unsafe {
        match (f, k) {
            (Form::Plain, Rm::Pop) => Some(v.pop()),
            (Form::Plain, Rm::Remove) => Some(v.remove(i)),
            (Form::Plain, Rm::Swap) => Some(v.swap_remove(i)),
            (Form::Try, Rm::Pop) => v.try_pop(),
            (Form::Try, Rm::Remove) => v.try_remove(i),
            (Form::Try, Rm::Swap) => v.try_swap_remove(i),
            (Form::Unchecked, Rm::Pop) => Some(v.pop_unchecked()),
            (Form::Unchecked, Rm::Remove) => Some(v.remove_unchecked(i)),
            (Form::Unchecked, Rm::Swap) => Some(v.swap_remove_unchecked(i)),
        }
    });
    if inside {
        match o.ret(what) {
            Some(e) => {
                let x = if k == Rm::Swap { m.v.swap_remove(i) } else { m.v.remove(i) };
                same1(what, &e, x);
            }
            None => crate::fail!("{}: refused although the element exists", what),
        }
    } else if f == Form::Plain {
        o.must_panic(what)
    } else if let Some(_) = o.ret(what) {
        crate::fail!("{}: an element was returned although there is none", what)
    }
    st.all(what, v);
    settle(what, v, m)
}

pub fn truncate<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, n: usize) {
    let what = op!("truncate {} to {}", m.len(), n);
    let st = still(v);
    attempt(|| v.truncate(n)).ret(what);
    m.v.truncate(n);
    st.all(what, v);
    settle(what, v, m)
}

pub fn clear<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W) {
    op!("clear");
    let st = still(v);
    attempt(|| v.clear()).ret("clear");
    m.v.clear();
    st.all("clear", v);
    settle("clear", v, m)
}

/// reserve or try_reserve of a small amount
pub fn reserve<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, n: usize, f: Form) {
    let what = op!(if f == Form::Try { "try_reserve {} at {}" } else { "reserve {} at {}" }, n, m.len());
    let st = still(v);
    let had = room(v) >= n;
    let ok = match f {
        Form::Try => attempt(|| v.try_reserve(n)).ret(what),
        _ => {
            let o = attempt(|| v.reserve(n));
            if m.fits(n) {
                o.ret(what);
                true
            } else {
                o.must_panic(what);
                false
            }
        }
    };
    if ok != m.fits(n) {
        crate::fail!("{}: reported {}", what, ok)
    }
    if ok && room(v) < n {
        crate::fail!("{}: succeeded but there is room for only {}", what, room(v))
    }
    if had || !ok {
        st.cap(what, v);
        if had {
            st.all(what, v)
        }
    }
    settle(what, v, m)
}

/// Runs a growing call that offers `n` more elements at once and is refused as a whole if they cannot be held.
fn bulk<E: Elem, S: ?Sized + Storage<E>>(what: &str, v: &mut GenericVec<E, S>, m: &mut W, n: usize, add: &[M], o: Outcome<()>, st: &Still, had: bool) {
    if m.fits(n) {
        o.ret(what);
        m.v.extend_from_slice(add);
        if had {
            st.all(what, v)
        }
    } else {
        o.must_panic(what);
        st.cap(what, v)
    }
    settle(what, v, m)
}

/// grow or resize by value; `to` is the new length for resize
pub fn grow<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, n: usize, resize: bool) {
    let what = op!(if resize { "resize to {} at {}" } else { "grow by {} at {}" }, n, m.len());
    let (e, x) = mk::<E>();
    let st = still(v);
    let before = live();
    let clones = crate::tok::clones();
    let add = if resize { n.saturating_sub(m.len()) } else { n };
    let had = room(v) >= add;
    let o = attempt(|| if resize { v.resize(n, e) } else { v.grow(n, e) });
    let each = if E::OWNED { M::fresh(x.val) } else { x };
    let new: Vec<M> = if m.fits(add) { vec![each; add] } else { vec![] };
    if resize && n < m.len() {
        o.ret(what);
        let gone = m.len() - n;
        m.v.truncate(n);
        st.all(what, v);
        settle(what, v, m);
        if E::OWNED && live() != before - 1 - gone as i64 {
            crate::fail!("{}: wrong number of elements dropped", what)
        }
        return
    }
    let fits = m.fits(add);
    bulk(what, v, m, add, &new, o, &st, had);
    if E::OWNED {
        let expect = if fits { before - 1 + add as i64 } else { before - 1 };
        if live() != expect {
            crate::fail!("{}: {} elements alive, expected {}", what, live(), expect)
        }
        if crate::tok::clones() - clones > add as u64 {
            crate::fail!("{}: cloned {} times for {} elements", what, crate::tok::clones() - clones, add)
        }
    }
}

/// grow_with or resize_with
pub fn grow_with<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, n: usize, resize: bool) {
    let what = op!(if resize { "resize_with to {} at {}" } else { "grow_with by {} at {}" }, n, m.len());
    let made = RefCell::new(Vec::new());
    let st = still(v);
    let add = if resize { n.saturating_sub(m.len()) } else { n };
    let had = room(v) >= add;
    let f = || {
        off(|| {
            let (e, x) = mk::<E>();
            made.borrow_mut().push(x);
            e
        })
    };
    let o = attempt(|| if resize { v.resize_with(n, f) } else { v.grow_with(n, f) });
    let made = made.into_inner();
    if resize && n < m.len() {
        o.ret(what);
        m.v.truncate(n);
        st.all(what, v);
        return settle(what, v, m)
    }
    if m.fits(add) {
        if made.len() != add {
            crate::fail!("{}: the closure was called {} times, expected {}", what, made.len(), add)
        }
        bulk(what, v, m, add, &made, o, &st, had)
    } else {
        if !made.is_empty() {
            crate::fail!("{}: the closure was called although the request is refused", what)
        }
        o.must_panic(what);
        st.cap(what, v);
        settle(what, v, m)
    }
}

/// What a replacement or extension iterator announces about itself.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hint {
    Exact,
    None,
    More,
    Huge,
    /// a lower bound of isize::MAX elements
    Half,
    /// announces exactly half of what it yields
    Few,
}
pub const HINTS: [Hint; 6] = [Hint::Exact, Hint::None, Hint::More, Hint::Huge, Hint::Half, Hint::Few];

/// An iterator that makes its elements when asked, and records them.
pub struct Gen<'a, E> {
    pub left: usize,
    pub hint: Hint,
    pub made: &'a RefCell<Vec<M>>,
    pub done: bool,
    pub mark: std::marker::PhantomData<E>,
}

pub fn gen<'a, E: Elem>(n: usize, hint: Hint, made: &'a RefCell<Vec<M>>) -> Gen<'a, E> {
    Gen { left: n, hint, made, done: false, mark: std::marker::PhantomData }
}

impl<'a, E: Elem> Iterator for Gen<'a, E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        off(|| {
            if fault(F_CALL) {
                inject(3)
            }
            if self.left == 0 {
                if self.done {
                    crate::fail!("an exhausted iterator was asked again")
                }
                self.done = true;
                return None
            }
            self.left -= 1;
            let (e, x) = mk::<E>();
            self.made.borrow_mut().push(x);
            Some(e)
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) { hint(self.hint, self.left) }
}

fn hint(h: Hint, left: usize) -> (usize, Option<usize>) {
    if fault(F_HINT) {
        inject(3)
    }
    match h {
        Hint::Exact => (left, Some(left)),
        Hint::None => (0, None),
        Hint::More => (left + 3, Some(left + 3)),
        Hint::Huge => (usize::MAX, None),
        Hint::Half => (isize::MAX as usize, None),
        Hint::Few => (left / 2, Some(left / 2)),
    }
}

/// Extension from an iterator of values. What fits is kept even when the rest does not.
pub fn extend<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, n: usize, h: Hint) {
    let what = op!("extend by {} (hint {}) at {}", n, h, m.len());
    let made = RefCell::new(Vec::new());
    let st = still(v);
    let had = room(v) >= n;
    let mut ended = false;
    let o = attempt(|| {
        let mut g = gen::<E>(n, h, &made);
        v.extend(&mut g);
        ended = g.done;
    });
    let made = made.into_inner();
    if m.fits(n) {
        o.ret(what);
        if made.len() != n || !ended {
            crate::fail!("{}: {} elements were taken, end seen: {}", what, made.len(), ended)
        }
        m.v.extend_from_slice(&made);
        if had && (h == Hint::Exact || h == Hint::None) {
            st.all(what, v)
        }
    } else {
        o.must_panic(what);
        let c = m.cap.unwrap();
        let k = c - m.len();
        if made.len() > k + 1 {
            crate::fail!("{}: {} elements were taken for {} free slots", what, made.len(), k)
        }
        m.v.extend_from_slice(&made[..made.len().min(k)]);
        if m.len() != c {
            crate::fail!("{}: refused before the storage was full", what)
        }
    }
    settle(what, v, m)
}

/// An iterator over references.
pub struct Refs<'a, E> {
    pub src: &'a [E],
    pub hint: Hint,
    pub done: bool,
}
impl<'a, E> Iterator for Refs<'a, E> {
    type Item = &'a E;
    fn next(&mut self) -> Option<&'a E> {
        if fault(F_CALL) {
            inject(3)
        }
        match self.src.split_first() {
            Some((a, b)) => {
                self.src = b;
                Some(a)
            }
            None => {
                if self.done {
                    crate::fail!("an exhausted iterator was asked again")
                }
                self.done = true;
                None
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { hint(self.hint, self.src.len()) }
}

fn clones_of<E: Elem>(ms: &[M]) -> Vec<M> {
    ms.iter().map(|x| if E::OWNED { M::fresh(x.val) } else { *x }).collect()
}

/// Extension from an iterator of references.
pub fn extend_ref<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, n: usize, h: Hint) {
    let what = op!("extend by {} references (hint {}) at {}", n, h, m.len());
    let (es, ms) = mks::<E>(n);
    let before = live();
    let o = attempt(|| v.extend(Refs { src: &es, hint: h, done: false }));
    let new = clones_of::<E>(&ms);
    let k;
    if m.fits(n) {
        o.ret(what);
        k = n;
    } else {
        o.must_panic(what);
        k = m.cap.unwrap() - m.len();
    }
    m.v.extend_from_slice(&new[..k]);
    settle(what, v, m);
    if E::OWNED && live() != before + k as i64 {
        crate::fail!("{}: {} elements alive, expected {}", what, live(), before + k as i64)
    }
    same(what, &es, &mut ms.clone());
}

/// extend_from_slice
pub fn extend_slice<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, n: usize) {
    let what = op!("extend_from_slice by {} at {}", n, m.len());
    let (es, ms) = mks::<E>(n);
    let before = live();
    let clones = crate::tok::clones();
    let st = still(v);
    let had = room(v) >= n;
    let fits = m.fits(n);
    let o = attempt(|| v.extend_from_slice(&es));
    bulk(what, v, m, n, &clones_of::<E>(&ms), o, &st, had);
    let k = if fits { n as i64 } else { 0 };
    if E::OWNED && (live() != before + k || (crate::tok::clones() - clones) as i64 != k) {
        crate::fail!("{}: {} elements alive, expected {}; {} clones", what, live(), before + k, crate::tok::clones() - clones)
    }
    same(what, &es, &mut ms.clone());
}

/// extend_from_slice_unchecked: a bitwise move of the elements. The caller gives them up.
pub fn extend_slice_unchecked<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, n: usize) {
    let what = op!("extend_from_slice_unchecked by {} at {}", n, m.len());
    let (mut es, ms) = mks::<E>(n);
    let st = still(v);
    attempt(|| unsafe { v.extend_from_slice_unchecked(&es) }).ret(what);
    if E::OWNED {
        unsafe { es.set_len(0) }
    }
    m.v.extend_from_slice(&ms);
    st.all(what, v);
    settle(what, v, m)
}

/// The inherent clone_from (overwrite with clones of a slice)
pub fn clone_from<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, n: usize) {
    let what = op!("clone_from {} elements over {}", n, m.len());
    let (es, ms) = mks::<E>(n);
    let st = still(v);
    let had = v.capacity() >= n;
    let o = attempt(|| v.clone_from(&es));
    if m.cap.map_or(true, |c| n <= c) {
        o.ret(what);
        m.v = clones_of::<E>(&ms);
        if had {
            st.all(what, v)
        }
        settle(what, v, m);
    } else {
        o.must_panic(what);
        // the prefix may already have been overwritten
        let l = m.len();
        m.v = clones_of::<E>(&ms[..l]);
        settle(what, v, m);
    }
    same(what, &es, &mut ms.clone());
    if E::OWNED && E::ID {
        for x in &m.v {
            if !ms.iter().any(|y| y.val == x.val && crate::tok::parent(x.id) == y.id) {
                crate::fail!("{}: element {} is not a clone of a source element", what, x.id)
            }
        }
    }
}

/// Chooses an index past `from` (inclusive), near and far.
pub fn past(from: usize) -> usize {
    match choose(7) {
        0 => from,
        1 => from + 1,
        2 => usize::MAX,
        3 => isize::MAX as usize,
        4 => isize::MAX as usize + 1,
        // times 16 bytes wraps around to (almost) nothing
        5 => 1 << 60,
        _ => (1 << 60) + from,
    }
}

/// Chooses a number up to `n`: any, or in a long execution the most telling.
pub fn upto(n: usize) -> usize {
    if !crate::stores::is_long() {
        return choose(n + 1)
    }
    spots(n).pick()
}

struct Spots([usize; 16], usize);
impl Spots {
    fn pick(&self) -> usize { self.0[choose(self.1)] }
}

/// The ends, the middle, and both sides of the powers of two.
fn spots(n: usize) -> Spots {
    let mut s = Spots([0; 16], 0);
    if crate::stores::is_huge() {
        for &i in &[n / 2, 0, 1, 257, n.wrapping_sub(1), n] {
            if i <= n && !s.0[..s.1].contains(&i) {
                s.0[s.1] = i;
                s.1 += 1
            }
        }
        return s
    }
    for &i in &[n / 2, 0, 1, 2, 15, 17, 31, 33, 63, 65, n.wrapping_sub(2), n.wrapping_sub(1), n] {
        if i <= n && !s.0[..s.1].contains(&i) {
            s.0[s.1] = i;
            s.1 += 1
        }
    }
    s
}

/// Chooses a subset of `n` places, as a mask (see `bit`): any of the first `max`, or in a long execution the most telling.
pub fn mask(n: usize, max: usize) -> usize {
    if !crate::stores::is_long() {
        return choose(1 << n.min(max))
    }
    if crate::stores::is_huge() {
        return pick(&[0x5555_5555_5555_5555, 0, usize::MAX, 0xFFFF_FFFF])
    }
    pick(&[
        0x5555_5555_5555_5555,
        0,
        usize::MAX,
        0xAAAA_AAAA_AAAA_AAAA,
        0xFFFF_FFFF_0000_0000,
        0xFFFF_FFFF,
        0xFF00_FF00_FF00_FF00,
        1,
        1 << 31,
        1 << 63,
        !1,
        !(1 << 31),
    ])
}

/// Whether a mask selects place `i`. Masks repeat after 64 places.
pub fn bit(mask: usize, i: usize) -> bool { mask >> (i & 63) & 1 == 1 }

/// Chooses a valid range of a vector of length `len`.
pub fn range(len: usize) -> (usize, usize) {
    if !crate::stores::is_long() {
        let a = choose(len + 1);
        let b = a + choose(len - a + 1);
        return (a, b)
    }
    let a = spots(len).pick();
    (a, a + spots(len - a).pick())
}

/// Drains a range, taking `f` from the front and `b` from the back before dropping the iterator.
pub fn drain<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, r: (usize, usize), f: usize, b: usize) {
    let what = op!("drain {}..{} of {}, {} from the front, {} from the back", r.0, r.1, m.len(), f, b);
    let st = still(v);
    let mut gone: std::collections::VecDeque<M> = m.v.drain(r.0..r.1).collect();
    let mut d = attempt(|| v.drain(r.0..r.1)).ret(what);
    for k in 0..f + b {
        let e = attempt(|| if k < f { d.next() } else { d.next_back() }).ret(what);
        let x = if k < f { gone.pop_front() } else { gone.pop_back() };
        yielded(what, e, x);
        exact(what, &d, gone.len());
    }
    attempt(|| drop(d)).ret(what);
    st.all(what, v);
    settle(what, v, m)
}

pub fn yielded<E: Elem>(what: &str, e: Option<E>, x: Option<M>) {
    match (e, x) {
        (Some(e), Some(x)) => same1(what, &e, x),
        (None, None) => (),
        (Some(e), None) => crate::fail!("{}: yielded {:?} although nothing is left", what, e),
        (None, Some(x)) => crate::fail!("{}: ended although {:?} is left", what, x),
    }
}

pub fn exact<I: ExactSizeIterator>(what: &str, i: &I, n: usize) {
    if i.len() != n || i.size_hint() != (n, Some(n)) {
        crate::fail!("{}: reports {:?} remaining, expected {}", what, i.size_hint(), n)
    }
    #[cfg(feature = "nightly")]
    {
        if i.is_empty() != (n == 0) {
            crate::fail!("{}: says that it is {}empty with {} left", what, if n == 0 { "not " } else { "" }, n)
        }
    }
}

/// Drains what `mask` selects from a range, `k` items by iteration, the rest on drop.
pub fn drain_filter<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, r: (usize, usize), mask: usize, k: usize) {
    let what = op!("drain_filter {}..{} of {} mask {}, {} items taken", r.0, r.1, m.len(), mask, k);
    let st = still(v);
    let mut keep: Vec<M> = m.v[..r.0].to_vec();
    let mut gone = std::collections::VecDeque::new();
    for (j, x) in m.v[r.0..r.1].iter().enumerate() {
        if bit(mask, j) {
            gone.push_back(*x)
        } else {
            keep.push(*x)
        }
    }
    keep.extend_from_slice(&m.v[r.1..]);
    let mut n = 0;
    let mut d = attempt(|| {
        v.drain_filter(r.0..r.1, |e| {
            let _ = e.id();
            n += 1;
            bit(mask, n - 1)
        })
    })
    .ret(what);
    for _ in 0..k {
        let e = attempt(|| d.next()).ret(what);
        yielded(what, e, gone.pop_front());
    }
    attempt(|| drop(d)).ret(what);
    if n != r.1 - r.0 {
        crate::fail!("{}: the predicate was called {} times", what, n)
    }
    m.v = keep;
    st.all(what, v);
    settle(what, v, m)
}

pub fn retain<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, mask: usize) {
    let what = op!("retain mask {} of {}", mask, m.len());
    let st = still(v);
    let seen = RefCell::new(Vec::new());
    attempt(|| {
        v.retain(|e| {
            off(|| {
                seen.borrow_mut().push(M::of(e));
                bit(mask, seen.borrow().len() - 1)
            })
        })
    })
    .ret(what);
    if E::ID && seen.into_inner() != m.v {
        crate::fail!("{}: the predicate did not see each element once in order", what)
    }
    let mut j = 0;
    m.v.retain(|_| {
        j += 1;
        bit(mask, j - 1)
    });
    st.all(what, v);
    settle(what, v, m)
}

/// Splices `n` elements over a range, after taking `f` and `b` from the ends.
pub fn splice<E: Elem, S: ?Sized + Storage<E>>(
    v: &mut GenericVec<E, S>,
    m: &mut W,
    r: (usize, usize),
    n: usize,
    h: Hint,
    f: usize,
    b: usize,
) {
    let what = op!("splice {}..{} of {} by {} (hint {}), {} and {} taken", r.0, r.1, m.len(), n, h, f, b);
    let made = RefCell::new(Vec::new());
    let mut gone: std::collections::VecDeque<M> = m.v[r.0..r.1].iter().copied().collect();
    let fits = m.cap.map_or(true, |c| m.len() - (r.1 - r.0) + n <= c);
    let mut s = attempt(|| v.splice(r.0..r.1, gen::<E>(n, h, &made))).ret(what);
    for k in 0..f + b {
        let e = attempt(|| if k < f { s.next() } else { s.next_back() }).ret(what);
        let x = if k < f { gone.pop_front() } else { gone.pop_back() };
        yielded(what, e, x);
        exact(what, &s, gone.len());
    }
    if !made.borrow().is_empty() {
        crate::fail!("{}: the replacement was consumed before the splice was dropped", what)
    }
    let o = attempt(|| drop(s));
    let made = made.into_inner();
    if fits {
        o.ret(what);
        if made.len() != n {
            crate::fail!("{}: {} replacements were taken", what, made.len())
        }
        let tail = m.v.split_off(r.1);
        m.v.truncate(r.0);
        m.v.extend_from_slice(&made);
        m.v.extend_from_slice(&tail);
    } else {
        o.must_panic(what);
        let pre = m.v[..r.0].to_vec();
        let tail = m.v[r.1..].to_vec();
        // prefix, then some of the replacements in order, then the tail
        if v.len() < pre.len() + tail.len() || v.len() > m.cap.unwrap() {
            crate::fail!("{}: prefix and tail were not preserved (length {})", what, v.len())
        }
        let k = v.len() - pre.len() - tail.len();
        if k > made.len() {
            crate::fail!("{}: {} replacements in the vector, {} made", what, k, made.len())
        }
        let stored = (r.1 - r.0).min(n);
        if k < stored {
            crate::fail!("{}: already stored replacements were lost ({} of {})", what, k, stored)
        }
        m.v = pre;
        m.v.extend_from_slice(&made[..k]);
        m.v.extend_from_slice(&tail);
    }
    settle(what, v, m)
}

/// dedup_by value
pub fn dedup<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, modulus: u8) {
    let what = op!("dedup by value modulo {} of {}", modulus, m.len());
    let st = still(v);
    attempt(|| v.dedup_by(|a, b| a.val() % modulus == b.val() % modulus)).ret(what);
    m.v.dedup_by(|a, b| a.val % modulus == b.val % modulus);
    st.all(what, v);
    settle(what, v, m)
}

/// Pushes into the spare capacity; keeps it if `save`.
pub fn spare<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, n: usize, save: bool) {
    let what = op!("spare_capacity_mut with {} pushes of {}, saved {}", n, m.len(), save);
    let st = still(v);
    let room = room(v);
    let end = v.as_ptr() as usize + v.len() * std::mem::size_of::<E>();
    let mut add = Vec::new();
    let mut s = attempt(|| v.spare_capacity_mut()).ret(what);
    if (if E::ZST { s.capacity() < room } else { s.capacity() != room }) || s.len() != 0 || (!E::ZST && s.as_ptr() as usize != end) {
        crate::fail!("{}: the view has capacity {} and length {}, expected {} and 0", what, s.capacity(), s.len(), room)
    }
    for k in 0..n {
        let (e, x) = mk::<E>();
        let o = attempt(|| {
            s.push(e);
        });
        if k < room {
            o.ret(what);
            add.push(x)
        } else {
            o.must_panic(what)
        }
    }
    same(what, &s, &mut add);
    if save {
        let n = s.len();
        std::mem::forget(s);
        unsafe {
            let n = v.len() + n;
            v.set_len_unchecked(n)
        }
        m.v.extend_from_slice(&add);
    } else {
        attempt(|| drop(s)).ret(what);
    }
    st.all(what, v);
    settle(what, v, m)
}

/// Moves the tail to another vector and possibly back.
pub fn split_off<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, i: usize, how: usize) {
    let what = op!("split_off at {} of {} (way {})", i, m.len(), how);
    let st = still(v);
    if i > m.len() {
        attempt(|| v.split_off::<crate::spy::Spy<E>>(i)).must_panic(what);
        st.all(what, v);
        return settle(what, v, m)
    }
    let mut t = W::new(None);
    t.v = m.v.split_off(i);
    let mut o: GenericVec<E, crate::spy::Spy<E>> = if how == 0 {
        attempt(|| v.split_off(i)).ret(what)
    } else {
        let mut o = GenericVec::with_storage(crate::spy::Spy::new(1, usize::MAX));
        let mut pre = W::new(None);
        fill(&mut o, &mut pre, 1);
        attempt(|| v.split_off_into(i, &mut o)).ret(what);
        pre.v.extend_from_slice(&t.v);
        t = pre;
        o
    };
    settle(what, &o, &mut t);
    if how != 0 || !E::ZST {
        st.cap(what, v);
    }
    settle(what, v, m);
    if how == 2 {
        let st = still(v);
        let r = attempt(|| v.append(&mut o));
        if m.fits(t.len()) {
            r.ret(what);
            m.v.extend(t.v.drain(..));
        } else {
            r.must_panic(what);
            st.cap(what, v);
        }
        settle(what, &o, &mut t);
        settle(what, v, m);
    }
    crate::lib(|| drop(o));
}

#[cfg(feature = "nightly")]
pub use arrays::*;

/// Array-at-a-time operations.
#[cfg(feature = "nightly")]
mod arrays {
    use super::*;
    use std::convert::TryInto;

    fn array<E: Elem, const N: usize>() -> ([E; N], Vec<M>) {
        let (es, ms) = mks::<E>(N);
        match es.try_into() {
            Ok(a) => (a, ms),
            Err(_) => crate::engine::fatal("array"),
        }
    }

    fn is_run<E: Elem, S: ?Sized + Storage<E>, const N: usize>(what: &str, v: &GenericVec<E, S>, i: usize, p: usize) {
        if p != v.as_ptr() as usize + i * std::mem::size_of::<E>() && !E::ZST {
            crate::fail!("{}: the returned reference is not the elements at {}", what, i)
        }
    }

    /// insert_array (or push_array)
    pub fn insert_array<E: Elem, S: ?Sized + Storage<E>, const N: usize>(v: &mut GenericVec<E, S>, m: &mut W, f: Form, i: usize, push: bool) {
        let what = op!(
            match (f, push) {
                (Form::Plain, true) => "push_array of {} at {} of {}",
                (Form::Try, true) => "try_push_array of {} at {} of {}",
                (Form::Unchecked, true) => "push_array_unchecked of {} at {} of {}",
                (Form::Plain, false) => "insert_array of {} at {} of {}",
                (Form::Try, false) => "try_insert_array of {} at {} of {}",
                (Form::Unchecked, false) => "insert_array_unchecked of {} at {} of {}",
            },
            N,
            i,
            m.len()
        );
        let (a, ms) = array::<E, N>();
        let st = still(v);
        let before = live();
        let inside = i <= m.len();
        let add = |m: &mut W| {
            for (k, x) in ms.iter().enumerate() {
                m.v.insert(i + k, *x)
            }
        };
        let at = |r: &mut [E; N]| {
            off(|| same(what, &r[..], &mut ms.clone()));
            r.as_ptr() as usize
        };
        let had = st.cap - m.len() >= N;
        match f {
            Form::Plain => {
                let o = attempt(|| at(if push { v.push_array(a) } else { v.insert_array(i, a) }));
                if inside && m.fits(N) {
                    let p = o.ret(what);
                    is_run::<E, S, N>(what, v, i, p);
                    add(m);
                    if had {
                        st.all(what, v)
                    }
                } else {
                    o.must_panic(what);
                    if E::OWNED && live() != before - N as i64 {
                        crate::fail!("{}: the refused values were not dropped exactly once", what)
                    }
                    st.cap(what, v)
                }
            }
            Form::Try => {
                let o = attempt(|| (if push { v.try_push_array(a) } else { v.try_insert_array(i, a) }).map(at)).ret(what);
                match o {
                    Ok(p) => {
                        if !(inside && had) {
                            crate::fail!("{}: accepted although it must be refused", what)
                        }
                        is_run::<E, S, N>(what, v, i, p);
                        add(m)
                    }
                    Err(a) => {
                        if inside && had {
                            crate::fail!("{}: refused although there is room", what)
                        }
                        same(what, &a[..], &mut ms.clone())
                    }
                }
                st.all(what, v)
            }
            Form::Unchecked => {
                let p = attempt(|| at(unsafe { if push { v.push_array_unchecked(a) } else { v.insert_array_unchecked(i, a) } })).ret(what);
                is_run::<E, S, N>(what, v, i, p);
                add(m);
                st.all(what, v)
            }
        }
        settle(what, v, m)
    }

    /// remove_array (or pop_array)
    pub fn remove_array<E: Elem, S: ?Sized + Storage<E>, const N: usize>(v: &mut GenericVec<E, S>, m: &mut W, f: Form, i: usize, pop: bool) {
        let i = if pop { m.len().wrapping_sub(N) } else { i };
        let what = op!(
            match (f, pop) {
                (Form::Plain, true) => "pop_array of {} at {} of {}",
                (Form::Try, true) => "try_pop_array of {} at {} of {}",
                (Form::Unchecked, true) => "pop_array_unchecked of {} at {} of {}",
                (Form::Plain, false) => "remove_array of {} at {} of {}",
                (Form::Try, false) => "try_remove_array of {} at {} of {}",
                (Form::Unchecked, false) => "remove_array_unchecked of {} at {} of {}",
            },
            N,
            i,
            m.len()
        );
        let st = still(v);
        let inside = if pop { N <= m.len() } else { i <= m.len() && m.len() - i >= N };
        let o: Outcome<Option<[E; N]>> = attempt(|| unsafe {
            match (f, pop) {
                (Form::Plain, true) => Some(v.pop_array()),
                (Form::Try, true) => v.try_pop_array(),
                (Form::Unchecked, true) => Some(v.pop_array_unchecked()),
                (Form::Plain, false) => Some(v.remove_array(i)),
                (Form::Try, false) => v.try_remove_array(i),
                (Form::Unchecked, false) => Some(v.remove_array_unchecked(i)),
            }
        });
        if inside {
            match o.ret(what) {
                Some(a) => {
                    let mut ms: Vec<M> = m.v.drain(i..i + N).collect();
                    same(what, &a[..], &mut ms)
                }
                None => crate::fail!("{}: refused although the elements exist", what),
            }
        } else if f == Form::Plain {
            o.must_panic(what)
        } else if o.ret(what).is_some() {
            crate::fail!("{}: elements were returned although there are too few", what)
        }
        st.all(what, v);
        settle(what, v, m)
    }
}

/// Drives a double-ended iterator of known length in every way, against the sequence it must yield.
/// `look` is called at every step with what is left. Ends by dropping or consuming the iterator.
pub fn pump<E, I, F>(what: &str, mut it: I, mut left: std::collections::VecDeque<M>, rich: bool, mut look: F)
where
    E: Elem,
    I: DoubleEndedIterator<Item = E> + ExactSizeIterator,
    F: FnMut(&mut I, &std::collections::VecDeque<M>),
{
    let mut extra = 2;
    let many = crate::stores::is_long();
    let mut phases = 0;
    loop {
        exact(what, &it, left.len());
        look(&mut it, &left);
        if left.is_empty() {
            if extra == 0 {
                return attempt(|| drop(it)).ret(what)
            }
            extra -= 1;
        }
        phases += 1;
        match if many && phases > 2 { 0 } else { choose(if rich { 10 } else { 3 }) } {
            0 => {
                op!("drop the iterator with {} left", left.len());
                return attempt(|| drop(it)).ret(what)
            }
            1 => {
                for _ in 0..if many { upto(left.len()) } else { 1 } {
                    op!("next with {} left", left.len());
                    yielded(what, attempt(|| it.next()).ret(what), left.pop_front());
                    exact(what, &it, left.len());
                }
            }
            2 => {
                for _ in 0..if many { upto(left.len()) } else { 1 } {
                    op!("next_back with {} left", left.len());
                    yielded(what, attempt(|| it.next_back()).ret(what), left.pop_back());
                    exact(what, &it, left.len());
                }
            }
            k @ 3..=5 => {
                let n = if many && k == 3 { upto(left.len()) } else { [1, 2, usize::MAX][k - 3] };
                op!("nth({}) with {} left", n, left.len());
                let e = attempt(|| it.nth(n)).ret(what);
                for _ in 0..n.min(left.len()) {
                    left.pop_front();
                }
                yielded(what, e, left.pop_front())
            }
            6 => {
                let n = if many { upto(left.len()) } else { 1 };
                op!("nth_back({}) with {} left", n, left.len());
                let e = attempt(|| it.nth_back(n)).ret(what);
                for _ in 0..n.min(left.len()) {
                    left.pop_back();
                }
                yielded(what, e, left.pop_back())
            }
            7 => {
                op!("count with {} left", left.len());
                let n = attempt(|| it.count()).ret(what);
                if n != left.len() {
                    crate::fail!("{}: count is {}, expected {}", what, n, left.len())
                }
                return
            }
            8 => {
                op!("last with {} left", left.len());
                return yielded(what, attempt(|| it.last()).ret(what), left.pop_back())
            }
            _ => {
                op!("collect in reverse with {} left", left.len());
                let es: Vec<E> = attempt(|| it.rev().fold(off(Vec::new), |mut v, e| off(|| { v.push(e); v }))).ret(what);
                let mut ms: Vec<M> = left.iter().rev().copied().collect();
                return same(what, &es, &mut ms)
            }
        }
    }
}

/// A few steps of a cursor, against the sequence: takes from both ends, writes back, keeps the rest.
pub fn cursor<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, r: (usize, usize), way: usize) {
    let what = op!("cursor {}..{} of {} (way {})", r.0, r.1, m.len(), way);
    let n = r.1 - r.0;
    let mut mid: Vec<M> = m.v[r.0..r.1].to_vec();
    let (mut head, mut tail) = (m.v[..r.0].to_vec(), m.v[r.1..].to_vec());
    let (e, x) = mk::<E>();
    let mut e = Some(e);
    let mut out: Vec<E> = Vec::with_capacity(8);
    let mut took: Vec<M> = Vec::new();
    let fits = m.fits(2);
    let o = attempt(|| {
        let mut c = v.cursor(r.0..r.1);
        match way {
            // move the first to the end of the range
            0 => {
                if n > 0 {
                    let f = c.take_front();
                    c.skip_n_front(n - 1);
                    c.write_back(f)
                }
            }
            // take the last, replace the first
            1 => {
                if n > 1 {
                    out.push(c.take_back());
                    c.drop_front();
                    c.write_front(e.take().unwrap());
                }
            }
            // empty the range and ask for more room in it
            2 => {
                c.drop_n_back(n);
                c.reserve(n + 2);
                c.write_back(e.take().unwrap());
            }
            // keep the last, remove the one before
            _ => {
                if n > 1 {
                    c.skip_back();
                    out.push(c.take_back());
                }
            }
        }
    });
    match way {
        0 => {
            o.ret(what);
            if n > 0 {
                mid.rotate_left(1)
            }
        }
        1 => {
            o.ret(what);
            if n > 1 {
                took.push(mid.pop().unwrap());
                mid[0] = x;
            }
        }
        2 => {
            mid.clear();
            if fits {
                o.ret(what);
                mid.push(x)
            } else {
                o.must_panic(what)
            }
        }
        _ => {
            o.ret(what);
            if n > 1 {
                took.push(mid.remove(n - 2))
            }
        }
    }
    same(what, &out, &mut took);
    head.append(&mut mid);
    head.append(&mut tail);
    m.v = head;
    drop(e);
    settle(what, v, m)
}

/// Any operation. With `wide`, with many choices for its arguments.
pub fn any_op<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W, wide: bool) {
    let n = m.len();
    let some = |n: usize| if wide { upto(n) } else { [0, n, n / 2][choose(if n == 0 { 1 } else if n == 1 { 2 } else { 3 })] };
    let part = || if wide { range(n) } else { [(0, n), (0, n / 2), (n / 2, n)][choose(if n < 2 { 1 } else { 3 })] };
    match choose(21) {
        0 => insert(v, m, if wide { pick(&[Form::Plain, Form::Try]) } else { Form::Plain }, n, true),
        1 => {
            let i = some(n);
            insert(v, m, Form::Plain, i, false)
        }
        2 => remove(v, m, if wide { pick(&[Form::Try, Form::Plain]) } else { Form::Try }, Rm::Pop, 0),
        3 => {
            let i = some(n);
            remove(v, m, Form::Try, Rm::Remove, i)
        }
        4 => {
            let i = some(n);
            remove(v, m, Form::Plain, Rm::Swap, i)
        }
        5 => {
            let i = some(n);
            truncate(v, m, i)
        }
        6 => grow(v, m, 2, false),
        7 => {
            let i = pick(&[n + 2, n / 2]);
            grow_with(v, m, i, true)
        }
        8 => extend(v, m, 2, if wide { pick(&[Hint::Exact, Hint::None, Hint::More]) } else { Hint::None }),
        9 => extend_slice(v, m, pick(&[1, 3])),
        10 => clone_from(v, m, pick(&[1, 3])),
        11 => {
            let r = part();
            let f = choose((r.1 - r.0).min(2) + 1);
            let b = if wide { upto(r.1 - r.0 - f) } else { 0 };
            drain(v, m, r, f, b)
        }
        12 => {
            let r = part();
            let l = r.1 - r.0;
            let mask = if wide { mask(l, 4) } else { pick(&[0b10101, 0b01010]) };
            let k = upto((0..l).filter(|&i| bit(mask, i)).count());
            drain_filter(v, m, r, mask, k)
        }
        13 => retain(v, m, if wide { mask(n, 4) } else { pick(&[0b01101, 0b10010]) }),
        14 => {
            let r = part();
            let k = pick(&[0, 1, 3]);
            let f = choose((r.1 - r.0).min(1) + 1);
            let b = choose((r.1 - r.0 - f).min(1) + 1);
            splice(v, m, r, k, Hint::Exact, f, b)
        }
        15 => dedup(v, m, pick(&[7, 2])),
        16 => {
            let k = pick(&[1, 2]);
            spare(v, m, k, flag())
        }
        17 => {
            let i = some(n);
            split_off(v, m, i, pick(&[1, 2]))
        }
        18 => {
            let r = part();
            cursor(v, m, r, choose(4))
        }
        19 => {
            let k = if wide { pick(&[3, 0, 1]) } else { 3 };
            reserve(v, m, k, if wide { pick(&[Form::Try, Form::Plain]) } else { Form::Try })
        }
        _ => extend_ref(v, m, 2, Hint::Exact),
    }
    crate::owned::<E>("after the operation", m.len());
}

/// Any operation, with every choice for its arguments, also those that must be refused.
pub fn every_op<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W) {
    let n = m.len();
    let some = |n: usize| upto(n);
    // also just outside, and far away
    let beyond = |n: usize| if flag() { [n + 1, usize::MAX, (1 << 60) + n][choose(3)] } else { upto(n) };
    let form = || pick(&[Form::Plain, Form::Try]);
    let size = || pick(&[2, 0, 1, 3]);
    match choose(24) {
        0 => insert(v, m, form(), n, true),
        1 => {
            let f = form();
            insert(v, m, f, beyond(n), false)
        }
        2 => remove(v, m, form(), Rm::Pop, 0),
        3 => {
            let f = form();
            remove(v, m, f, Rm::Remove, beyond(n))
        }
        4 => {
            let f = form();
            remove(v, m, f, Rm::Swap, beyond(n))
        }
        5 => truncate(v, m, beyond(n)),
        6 => grow(v, m, size(), false),
        7 => grow(v, m, some(n + 2), true),
        8 => grow_with(v, m, size(), false),
        9 => grow_with(v, m, some(n + 2), true),
        10 => {
            let h = pick(&HINTS);
            extend(v, m, size(), h)
        }
        11 => extend_slice(v, m, size()),
        12 => clone_from(v, m, some(n + 2)),
        13 => {
            let r = range(n);
            let f = some(r.1 - r.0);
            drain(v, m, r, f, some(r.1 - r.0 - f))
        }
        14 => {
            let r = range(n);
            let l = r.1 - r.0;
            let mask = mask(l, 4);
            drain_filter(v, m, r, mask, some((0..l).filter(|&i| bit(mask, i)).count()))
        }
        15 => retain(v, m, mask(n, 4)),
        16 => {
            let r = range(n);
            let k = size();
            let f = some(r.1 - r.0);
            splice(v, m, r, k, pick(&[Hint::Exact, Hint::None]), f, some(r.1 - r.0 - f))
        }
        17 => dedup(v, m, pick(&[7, 1, 2, 3])),
        18 => {
            let k = size();
            spare(v, m, k, flag())
        }
        19 => {
            let i = beyond(n);
            split_off(v, m, i, if i > n { 0 } else { pick(&[1, 2, 0]) })
        }
        20 => {
            let r = range(n);
            cursor(v, m, r, choose(4))
        }
        21 => {
            let k = pick(&[2, 0, 1, 3, 9]);
            reserve(v, m, k, form())
        }
        22 => clear(v, m),
        _ => {
            let h = pick(&[Hint::Exact, Hint::Huge]);
            extend_ref(v, m, size(), h)
        }
    }
    crate::owned::<E>("after the operation", m.len());
}
