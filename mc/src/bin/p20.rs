//! Range arguments mean what slice ranges mean.
use generic_vec::raw::Storage;
use generic_vec::{GenericVec, TypeVec, ZSVec};
use mc::guard::Placed;
use mc::ops::*;
#[allow(unused_imports)]
use mc::stores::{self, Body, Kind};
use mc::tok::*;
use mc::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::ops::{Bound, RangeBounds};

/// Endpoints around the length and around the largest number.
fn point(len: usize) -> usize {
    let near = len.min(6) + 3;
    match choose(near + 4) {
        k if k < near => {
            if len <= 6 {
                k
            } else if k < 3 {
                k
            } else {
                // near the length, from below and above
                len.wrapping_sub(3).saturating_add(k - 3)
            }
        }
        k if k == near => usize::MAX,
        k if k == near + 1 => usize::MAX - 1,
        k if k == near + 2 => isize::MAX as usize,
        _ => isize::MAX as usize + 1,
    }
}

fn bound(len: usize) -> Bound<usize> {
    match choose(3) {
        0 => Bound::Included(point(len)),
        1 => Bound::Excluded(point(len)),
        _ => Bound::Unbounded,
    }
}

/// The elements a slice of that length would give, computed without wrapping.
fn meaning<R: RangeBounds<usize>>(r: &R, len: usize) -> Option<(usize, usize)> {
    let a = match r.start_bound() {
        Bound::Included(&x) => x as u128,
        Bound::Excluded(&x) => x as u128 + 1,
        Bound::Unbounded => 0,
    };
    let b = match r.end_bound() {
        Bound::Included(&x) => x as u128 + 1,
        Bound::Excluded(&x) => x as u128,
        Bound::Unbounded => len as u128,
    };
    if a <= b && b <= len as u128 {
        Some((a as usize, b as usize))
    } else {
        None
    }
}

/// A call with a range, on a vector of few elements.
fn call<E: Elem, S: ?Sized + Storage<E>, R: RangeBounds<usize>>(v: &mut GenericVec<E, S>, m: &mut W, r: R) {
    let len = m.len();
    let yes = meaning(&r, len);
    let op = choose(6);
    let shown = yes.unwrap_or((7777, 7777));
    let what = op!(
        match op {
            0 => "drain {}..{} of {}",
            1 => "drain_filter {}..{} of {}",
            2 => "splice {}..{} of {}",
            3 => "cursor {}..{} of {}",
            4 => "raw_cursor {}..{} of {}",
            _ => "drain backwards {}..{} of {}",
        },
        shown.0,
        shown.1,
        len
    );
    let st = still(v);
    let made = RefCell::new(Vec::new());
    let calls = RefCell::new(0);
    match yes {
        None => {
            match op {
                0 | 5 => attempt(|| drop(v.drain(r))).must_panic(what),
                1 => attempt(|| {
                    drop(v.drain_filter(r, |_| {
                        *calls.borrow_mut() += 1;
                        true
                    }))
                })
                .must_panic(what),
                2 => attempt(|| drop(v.splice(r, gen::<E>(2, Hint::Exact, &made)))).must_panic(what),
                3 => attempt(|| drop(v.cursor(r))).must_panic(what),
                _ => attempt(|| drop(v.raw_cursor(r))).must_panic(what),
            }
            check!(*calls.borrow() == 0, "{}: the predicate was called although the range is refused", what);
            check!(made.borrow().is_empty(), "{}: the replacement was used although the range is refused", what);
            st.all(what, v);
        }
        Some((a, b)) => {
            let mut gone: VecDeque<_> = m.v[a..b].iter().copied().collect();
            match op {
                0 | 5 => {
                    let mut d = attempt(|| v.drain(r)).ret(what);
                    exact(what, &d, b - a);
                    for _ in 0..b - a {
                        if op == 0 {
                            yielded(what, must(what, || d.next()), gone.pop_front())
                        } else {
                            yielded(what, must(what, || d.next_back()), gone.pop_back())
                        }
                    }
                    yielded(what, must(what, || d.next()), None);
                    must(what, || drop(d));
                    m.v.drain(a..b);
                    st.all(what, v)
                }
                1 => {
                    let mut d = attempt(|| {
                        v.drain_filter(r, |_| {
                            *calls.borrow_mut() += 1;
                            true
                        })
                    })
                    .ret(what);
                    while let Some(x) = gone.pop_front() {
                        yielded(what, must(what, || d.next()), Some(x));
                    }
                    must(what, || drop(d));
                    check!(*calls.borrow() == b - a, "{}: the predicate was called {} times", what, calls.borrow());
                    m.v.drain(a..b);
                    st.all(what, v)
                }
                2 => {
                    let n = 1.min(b - a);
                    let mut s = attempt(|| v.splice(r, gen::<E>(n, Hint::Exact, &made))).ret(what);
                    exact(what, &s, b - a);
                    while let Some(x) = gone.pop_front() {
                        yielded(what, must(what, || s.next()), Some(x));
                    }
                    must(what, || drop(s));
                    let tail = m.v.split_off(b);
                    m.v.truncate(a);
                    m.v.extend_from_slice(&made.into_inner());
                    m.v.extend_from_slice(&tail);
                }
                3 => {
                    let mut c = attempt(|| v.cursor(r)).ret(what);
                    check!(c.len() == b - a, "{}: the cursor has {} elements", what, c.len());
                    while let Some(x) = gone.pop_back() {
                        same1(what, &must(what, || c.take_back()), x)
                    }
                    must(what, || drop(c));
                    m.v.drain(a..b);
                }
                _ => {
                    let mut c = attempt(|| v.raw_cursor(r)).ret(what);
                    check!(c.len() == b - a, "{}: the cursor has {} elements", what, c.len());
                    while let Some(x) = gone.pop_front() {
                        same1(what, &must(what, || unsafe { c.take_front() }), x)
                    }
                    must(what, || drop(c));
                    m.v.drain(a..b);
                }
            }
        }
    }
    settle(what, v, m);
    owned::<E>(what, m.len());
}

/// Accepted by a slice of that length?
fn slice_takes<R: std::slice::SliceIndex<[u8], Output = [u8]>>(len: usize, r: R) -> Option<(usize, usize)> {
    static B: [u8; 64] = [0; 64];
    let s = &B[..len];
    s.get(r).map(|x| {
        let a = x.as_ptr() as usize - s.as_ptr() as usize;
        (a, a + x.len())
    })
}

/// Every range of every type.
fn any_range<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W) {
    let len = m.len();
    macro_rules! checked {
        ($r:expr) => {{
            let r = $r;
            check!(slice_takes(len, r.clone()) == meaning(&r, len), "the oracle disagrees with a slice about {:?} of {}", r, len);
            call(v, m, r)
        }};
    }
    match choose(8) {
        0 => call(v, m, (bound(len), bound(len))),
        1 => {
            let (a, b) = (point(len), point(len));
            checked!(a..b)
        }
        2 => {
            let (a, b) = (point(len), point(len));
            checked!(a..=b)
        }
        3 => {
            let b = point(len);
            checked!(..b)
        }
        4 => {
            let b = point(len);
            checked!(..=b)
        }
        5 => {
            let a = point(len);
            checked!(a..)
        }
        6 => checked!(..),
        _ => {
            let (a, b) = (point(len), point(len));
            call(v, m, (Bound::Excluded(&a), Bound::Included(&b)))
        }
    }
}

struct Ranges {
    len: usize,
    rounds: usize,
}

impl<E: Elem> Body<E> for Ranges {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        let n = if self.len > 6 { self.len } else { choose(self.len + 1) };
        fill(v, &mut m, n);
        for _ in 0..self.rounds {
            any_range(v, &mut m);
        }
        // still usable
        let n = m.len();
        insert(v, &mut m, Form::Try, n / 2, false);
    }
}

/// Lengths near the largest number: elements without a size.
fn limit<S: ?Sized + Storage<CZ>>(v: &mut GenericVec<CZ, S>) {
    let len = usize::MAX - choose(3);
    unsafe { v.set_len_unchecked(len) }
    let r = (bound(len), bound(len));
    let yes = meaning(&r, len);
    let op = choose(5);
    let what = op!("range call {} of {}", op, len);
    let made = RefCell::new(Vec::new());
    // ending these would visit all the elements
    macro_rules! covered {
        ($make:expr, |$x:ident| $len:expr) => {
            attempt(|| {
                let $x = $make;
                let n: usize = $len;
                std::mem::forget($x);
                n
            })
        };
    }
    let o = match op {
        0 => covered!(v.drain(r), |x| x.len()),
        1 => covered!(v.drain_filter(r, |_| false), |x| x.size_hint().1.unwrap()),
        2 => covered!(v.splice(r, gen::<CZ>(0, Hint::Exact, &made)), |x| x.len()),
        3 => covered!(v.cursor(r), |x| x.len()),
        _ => covered!(v.raw_cursor(r), |x| x.len()),
    };
    match (o, yes) {
        (Outcome::Ret(n), Some((a, b))) => {
            check!(n == b - a, "{}: covers {} elements, expected {}", what, n, b - a);
            check!(v.len() <= len, "{}: {} elements remain of {}", what, v.len(), len);
        }
        (Outcome::Ret(_), None) => fail!("{}: {:?} was accepted", what, r),
        (_, Some(_)) => fail!("{}: {:?} was refused", what, r),
        (_, None) => check!(v.len() == len, "{}: refused, but the length is {}", what, v.len()),
    }
    unsafe { v.set_len_unchecked(0) }
}

fn limits() {
    match choose(3) {
        0 => limit(&mut *Placed::new(ZSVec::<CZ>::new())),
        1 => limit(&mut *Placed::new(TypeVec::<CZ, [CZ; 2]>::new())),
        _ => limit(&mut *Placed::new(GenericVec::<CZ, [CZ; 1]>::default())),
    }
}

fn array<E: Elem, B: Body<E>>(b: &B) {
    let cap = if E::ZST { None } else { Some(6) };
    b.run(&mut *Placed::new(TypeVec::<E, [E; 6]>::new()), Kind { name: "array", cap, initial: 6 })
}

fn groups(t: Tier) -> Vec<Group> {
    const R4: Ranges = Ranges { len: 4, rounds: 1 };
    const R3: Ranges = Ranges { len: 3, rounds: 1 };
    let mut g = vec![
        Group { name: "T16-array", faults: 0, body: || array::<T16, _>(&R4) },
        Group { name: "T3-bytes", faults: 0, body: || R3.run(&mut TypeVec::<T3, [u8; 10], u8>::with_align(), Kind { name: "bytes", cap: Some(3), initial: 3 }) },
        Group { name: "TZ-array", faults: 0, body: || array::<TZ, _>(&R4) },
        Group { name: "long", faults: 0, body: || Ranges { len: 33, rounds: 1 }.run(&mut TypeVec::<C2, [C2; 40]>::new(), Kind { name: "long", cap: Some(40), initial: 40 }) },
        Group { name: "limits", faults: 0, body: limits },
    ];
    let _ = (&mut g, t);
    #[cfg(feature = "deep")]
    {
        const R6: Ranges = Ranges { len: 6, rounds: 1 };
        g.push(Group { name: "T16-array-6", faults: 0, body: || array::<T16, _>(&R6) });
        g.push(Group { name: "TZ-array-6", faults: 0, body: || array::<TZ, _>(&R6) });
        g.push(Group { name: "C3-plain", faults: 0, body: || stores::plain::<C3, _>(&R3) });
        g.push(Group { name: "T16-growable-4", faults: 0, body: || stores::growable::<T16, _>(&R4) });
    }
    g
}

fn main() { run_main("P20", groups) }
