//! Comparing, hashing, formatting, indexing and viewing.
use generic_vec::raw::{Storage, UninitSlice};
use generic_vec::{GenericVec, SliceVec, TypeVec};
use mc::guard::{slots, Placed};
use mc::ops::*;
use mc::spy::Spy;
use mc::stores::{self, Body, Kind};
use mc::tok::*;
use mc::*;
use std::borrow::{Borrow, BorrowMut};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::ops::Bound;

/// Every way to compare, as one number.
fn relations<A: PartialOrd<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> u32 {
    let c = match a.partial_cmp(b) {
        None => 3,
        Some(Ordering::Less) => 0,
        Some(Ordering::Equal) => 1,
        Some(Ordering::Greater) => 2,
    };
    #[allow(clippy::nonminimal_bool)]
    let bits = [a == b, a != b, a < b, a <= b, a > b, a >= b];
    bits.iter().fold(c, |x, b| x * 2 + *b as u32)
}

#[inline(never)]
fn equal(what: &str, got: u32, want: u32) {
    check!(got == want, "{}: the comparisons give {:b}, those of the slices {:b}", what, got, want);
    obs(got as u64)
}

/// Compares against every kind of other operand. `a` and `b` are the contents.
fn compare<T: PartialOrd + Copy + 'static, S: ?Sized + Storage<T>>(v: &GenericVec<T, S>, a: &[T], b: &[T], stale: T) {
    let want = relations(a, b);
    let what = "comparison";
    equal("comparison with itself", must(what, || relations(v, v)), relations(a, a));
    equal("comparison with a slice", must(what, || relations(v, b)), want);
    equal("comparison with a borrowed slice", must(what, || relations(v, &b)), want);
    let std = b.to_vec();
    equal("comparison with a standard vector", must(what, || relations(v, &std)), want);
    // another vector, with something beyond its length
    let mut o = GenericVec::<T, &mut UninitSlice<T>>::with_storage(UninitSlice::from_mut(slots::<T>(b.len() + 1)));
    for x in b {
        o.push(*x);
    }
    o.push(stale);
    o.pop();
    equal("comparison with another vector", must(what, || relations(v, &o)), want);
    equal("comparison of another vector", must(what, || relations(&o, v)), relations(b, a));
    if b.len() <= 8 {
        let mut o = TypeVec::<T, [T; 8]>::new();
        for x in b {
            o.push(*x);
        }
        equal("comparison with an inline vector", must(what, || relations(v, &o)), want);
        equal("comparison of an inline vector", must(what, || relations(&o, v)), relations(b, a));
    }
    match b.len() {
        0 => equal("comparison with an array", must(what, || relations(v, &[stale; 0])), want),
        2 => equal("comparison with an array", must(what, || relations(v, &[b[0], b[1]])), want),
        _ => (),
    }
}

/// A vector over `S` holding `a`, with `stale` beyond its length where there is room.
fn load<T: Copy, S: ?Sized + Storage<T>>(v: &mut GenericVec<T, S>, a: &[T], stale: T) {
    for x in a {
        v.push(*x);
    }
    let mut k = 0;
    while !v.is_full() && k < 2 {
        v.push(stale);
        k += 1;
    }
    for _ in 0..k {
        v.pop();
    }
}

fn words<T: Copy>(letters: &[T], max: usize) -> Vec<T> {
    let n = choose(max + 1);
    (0..n).map(|_| pick(letters)).collect()
}

fn compares<T: PartialOrd + Copy + Default + 'static>(letters: &[T], la: usize, lb: usize) {
    let a = words(letters, la);
    let b = words(letters, lb);
    let stale = letters[choose(2)];
    op!("compare {} elements with {}", a.len(), b.len());
    match choose(3) {
        0 => {
            let mut v = TypeVec::<T, [T; 6]>::new();
            load(&mut v, &a, stale);
            compare(&v, &a, &b, stale)
        }
        1 => {
            let mut v = SliceVec::new(slots::<T>(4));
            load(&mut v, &a, stale);
            compare(&v, &a, &b, stale)
        }
        _ => {
            let mut v = GenericVec::<T, [T; 5]>::default();
            load(&mut v, &a, stale);
            let u: &GenericVec<T, [T]> = &v;
            compare(u, &a, &b, stale)
        }
    }
}

/// Many elements, and others that differ in one place or in length.
fn long_compares<T: PartialOrd + Copy + Hash2 + 'static>(letters: &[T; 4]) {
    let n = pick(stores::LENGTHS1);
    let a: Vec<T> = (0..n).map(|i| letters[i % 3]).collect();
    let mut b = a.clone();
    let how = choose(6);
    match how {
        0 => (),
        1 => b.truncate(upto(n)),
        2 => {
            for _ in 0..pick(&[1, 2, 33]) {
                b.push(letters[0])
            }
        }
        _ => {
            let i = upto(n - 1);
            b[i] = letters[(i + how - 2) % 4];
            // and one more, which may outweigh it
            if flag() {
                let i = upto(n - 1);
                b[i] = letters[3]
            }
        }
    }
    op!("compare {} elements with {} (way {})", n, b.len(), how);
    let mut v = SliceVec::new(slots::<T>(n + choose(2)));
    load(&mut v, &a, letters[0]);
    compare(&v, &a, &b, letters[1]);
    v.hashes(&a);
    check!(shown(&v) == shown(&a[..]), "shown unlike the slice");
}

/// Hashing, for what can be hashed.
trait Hash2: Sized + Debug {
    fn hashes_like(_: &SliceVec<Self>, _: &[Self]) -> bool { true }
}
impl Hash2 for f32 {}
impl Hash2 for u8 {
    fn hashes_like(v: &SliceVec<u8>, s: &[u8]) -> bool { tape(v) == tape(s) }
}
impl Hash2 for i64 {
    fn hashes_like(v: &SliceVec<i64>, s: &[i64]) -> bool { tape(v) == tape(s) }
}
trait Hashes<T> {
    fn hashes(&self, s: &[T]);
}
impl<T: Hash2> Hashes<T> for SliceVec<'_, T> {
    fn hashes(&self, s: &[T]) { check!(T::hashes_like(self, s), "hashed unlike the slice") }
}

#[cfg(feature = "alloc")]
fn heap_compares() {
    let a = words(&[1u8, 2], 3);
    let b = words(&[1u8, 2], 3);
    let c = choose(3);
    let mut v = lib(|| generic_vec::HeapVec::<u8>::with_capacity(c));
    lib(|| load(&mut v, &a, 2));
    compare(&v, &a, &b, 1);
    let mut o = lib(|| generic_vec::HeapVec::<u8>::with_capacity(5));
    lib(|| load(&mut o, &b, 1));
    equal("comparison of two heap vectors", relations(&v, &o), relations(&a[..], &b[..]));
    check!(v.cmp(&v) == Ordering::Equal && Ord::cmp(&v, &o) == a.cmp(&b), "cmp differs from that of the slices");
    lib(|| drop((v, o)));
}
#[cfg(not(feature = "alloc"))]
fn heap_compares() {}

/// Remembers all it is given.
#[derive(Default, PartialEq, Eq, Debug)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) {
        off(|| {
            self.0.push(0xEE);
            self.0.extend_from_slice(b)
        })
    }
}
fn tape<T: ?Sized + Hash>(x: &T) -> Tape {
    let mut t = Tape::default();
    x.hash(&mut t);
    t
}

fn shown<T: ?Sized + Debug>(x: &T) -> [String; 4] { off(|| [format!("{:?}", x), format!("{:#?}", x), format!("{:5?}", x), format!("{:02x?}", x)]) }

/// The whole vector, through every view.
fn views<E: Elem, S: ?Sized + Storage<E>>(what: &str, v: &mut GenericVec<E, S>, m: &W) {
    let (p, n) = (v.as_ptr() as usize, v.len());
    let is = |w: &str, s: &[E]| {
        check!(s.as_ptr() as usize == p && s.len() == n, "{}: {} shows {} elements", what, w, s.len());
        same(what, s, &mut m.v.clone())
    };
    is("as_slice", v.as_slice());
    is("deref", &**v);
    is("as_ref", v.as_ref());
    is("borrow", Borrow::<[E]>::borrow(&*v));
    is("index", &v[..]);
    is("as_mut_slice", v.as_mut_slice());
    is("deref_mut", &mut **v);
    is("as_mut", v.as_mut());
    is("borrow_mut", BorrowMut::<[E]>::borrow_mut(&mut *v));
    is("index_mut", &mut v[..]);
    check!(v.as_mut_ptr() as usize == p, "{}: as_mut_ptr differs from as_ptr", what);
    check!((&*v).into_iter().len() == n && (&mut *v).into_iter().len() == n && v.iter().count() == n, "{}: an iterator has the wrong length", what);
    for (i, e) in (&*v).into_iter().enumerate() {
        same1(what, e, m.v[i])
    }
    for (i, e) in (&mut *v).into_iter().enumerate() {
        same1(what, e, m.v[i])
    }
}

/// Indexing by everything that may index a slice.
fn indexing<E: Elem, S: ?Sized + Storage<E>>(what: &str, v: &mut GenericVec<E, S>, m: &W) {
    let n = v.len();
    let near: Vec<usize> = if stores::is_long() { vec![0, 1, n / 2, n - 1, n, n + 1] } else { (0..n + 3).collect() };
    let pts: Vec<usize> = near.into_iter().chain(vec![usize::MAX, usize::MAX - 1, isize::MAX as usize]).collect();
    let (a, b) = (pick(&pts), pick(&pts));
    let base = v.as_ptr() as usize;
    macro_rules! at {
        ($r:expr, $w:expr) => {{
            let want: Option<(usize, usize)> = $w;
            let o = attempt(|| {
                let s: &[E] = &v[$r];
                (s.as_ptr() as usize, s.len())
            });
            slice_is(what, o, want, base, std::mem::size_of::<E>());
            let o = attempt(|| {
                let s: &mut [E] = &mut v[$r];
                (s.as_ptr() as usize, s.len())
            });
            slice_is(what, o, want, base, std::mem::size_of::<E>());
        }};
    }
    let ok = |a: u128, b: u128| if a <= b && b <= n as u128 { Some((a as usize, b as usize)) } else { None };
    match choose(7) {
        0 => at!(a..b, ok(a as u128, b as u128)),
        1 => at!(a..=b, ok(a as u128, b as u128 + 1)),
        2 => at!(..b, ok(0, b as u128)),
        3 => at!(..=b, ok(0, b as u128 + 1)),
        4 => at!(a.., ok(a as u128, n as u128)),
        5 => {
            let o = attempt(|| &v[a] as *const E as usize);
            let q = attempt(|| &mut v[a] as *mut E as usize);
            if a < n {
                let (x, y) = (o.ret(what), q.ret(what));
                check!(x == base + a * std::mem::size_of::<E>() && x == y, "{}: index {} is another element", what, a);
                same1(what, &v[a], m.v[a])
            } else {
                o_panics(what, o);
                o_panics(what, q)
            }
        }
        _ => {
            let g = must(what, || (v.get(a).is_some(), v.get_mut(a).is_some(), v.first().is_some(), v.last().is_some()));
            check!(g == (a < n, a < n, n > 0, n > 0), "{}: get({}) of {} gave {:?}", what, a, n, g)
        }
    }
}

fn o_panics<R>(what: &str, o: Outcome<R>) {
    match o {
        Outcome::Panic => (),
        _ => fail!("{}: returned although it must panic", what),
    }
}

#[inline(never)]
fn slice_is(what: &str, o: Outcome<(usize, usize)>, want: Option<(usize, usize)>, base: usize, z: usize) {
    match want {
        None => o_panics(what, o),
        Some((a, b)) => {
            let (p, n) = o.ret(what);
            check!(n == b - a && (n == 0 || p == base + a * z), "{}: {}..{} gave {} elements", what, a, b, n)
        }
    }
}

/// A write through every mutable view.
fn write<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W) {
    let n = m.len();
    if n == 0 {
        return
    }
    let i = upto(n - 1);
    let way = choose(10);
    let what = op!("write at {} of {} through view {}", i, n, way);
    let st = still(v);
    let (e, x) = mk::<E>();
    let old = m.v[i];
    let e = must(what, || match way {
        0 => std::mem::replace(&mut v[i], e),
        1 => std::mem::replace(&mut v.as_mut_slice()[i], e),
        2 => std::mem::replace(&mut AsMut::<[E]>::as_mut(v)[i], e),
        3 => std::mem::replace(&mut BorrowMut::<[E]>::borrow_mut(v)[i], e),
        4 => std::mem::replace(&mut (**v)[i], e),
        5 => std::mem::replace(v.iter_mut().nth(i).unwrap(), e),
        6 => std::mem::replace((&mut *v).into_iter().nth(i).unwrap(), e),
        7 => std::mem::replace(&mut v[i..][0], e),
        8 => unsafe { v.as_mut_ptr().add(i).replace(e) },
        _ => std::mem::replace(&mut v[..][i], e),
    });
    same1(what, &e, old);
    drop(e);
    m.v[i] = x;
    // a slice method through the view
    if flag() {
        must(what, || v.reverse());
        m.v.reverse()
    }
    if n > 1 && flag() {
        must(what, || v.swap(0, n - 1));
        m.v.swap(0, n - 1)
    }
    st.all(what, v);
    settle(what, v, m)
}

struct Look {
    len: usize,
}

impl<E: Elem> Body<E> for Look {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        let most = self.len.min(k.cap.unwrap_or(self.len));
        let w: Vec<u8> = if stores::is_long() { (0..most as u8).map(|i| i % 5).collect() } else { words(&[1, 2], most) };
        fill_vals(v, &mut m, &w);
        // something beyond the length
        let stale = if m.fits(1) && flag() { 1 } else { 0 };
        for _ in 0..stale {
            fill(v, &mut m, 1);
            remove(v, &mut m, Form::Plain, Rm::Pop, 0);
        }
        let what = op!("look at {} elements", m.len());
        match choose(4) {
            0 => {
                views(what, v, &m);
                let t = must(what, || tape(&*v));
                let mine: Vec<E> = m.v.iter().map(|x| E::mk(x.val)).collect();
                check!(t == tape(&mine[..]), "{}: hashed as {:?}, the slice as {:?}", what, t, tape(&mine[..]));
                let (x, y) = (must(what, || shown(&*v)), shown(&mine[..]));
                check!(x == y, "{}: shown as {:?}, the slice as {:?}", what, x, y);
            }
            1 => indexing(what, v, &m),
            2 => {
                write(v, &mut m);
                views(what, v, &m)
            }
            _ => {
                // comparisons of elements that own something
                let mut o = W::new(None);
                let mut other = GenericVec::with_storage(Spy::<E>::new(0, usize::MAX));
                let b = if stores::is_long() {
                    let mut b = w.clone();
                    match choose(3) {
                        0 => b.truncate(upto(most)),
                        1 => {
                            let i = upto(most - 1);
                            b[i] = pick(&[0, 2, 5])
                        }
                        _ => b.push(0),
                    }
                    b
                } else {
                    words(&[1, 2], 2)
                };
                fill_vals(&mut other, &mut o, &b);
                let w = other;
                let (x, y): (Vec<u8>, Vec<u8>) = (m.v.iter().map(|x| x.val).collect(), o.v.iter().map(|x| x.val).collect());
                let want = if E::ZST { relations(&m.len(), &o.len()) } else { relations(&x, &y) };
                equal("comparison of owned elements", must(what, || relations(&*v, &w)), want);
                equal("comparison of owned elements", must(what, || relations(&*v, &*w)), want);
                check!(must(what, || Ord::cmp(&w, &w)) == Ordering::Equal, "a vector is not equal to itself");
                lib(|| drop(w))
            }
        }
        settle(what, v, &mut m);
    }
}

/// Total order between vectors of the same type.
fn order() {
    let (a, b) = (words(&[1u8, 2, 3], 3), words(&[1u8, 2, 3], 3));
    let mut x = Placed::new(GenericVec::<u8, [u8; 4]>::default());
    let mut y = Placed::new(GenericVec::<u8, [u8; 4]>::default());
    load(&mut *x, &a, 3);
    load(&mut *y, &b, 0);
    op!("cmp {} with {}", a.len(), b.len());
    check!(must("cmp", || Ord::cmp(&*x, &*y)) == a.cmp(&b), "cmp differs from that of the slices");
    check!(must("max", || (&*x).max(&*y).as_slice() == if b >= a { &b[..] } else { &a[..] }), "max differs from that of the slices");
    check!((tape(&*x) == tape(&*y)) == (a == b), "the hashes disagree with equality");
    // usable as the key of a map of slices
    let _ = Bound::<u8>::Unbounded;
}

fn groups(t: Tier) -> Vec<Group> {
    const L3: Look = Look { len: 3 };
    let mut g = vec![
        Group { name: "compare-u8", faults: 0, body: || compares(&[1u8, 2, 0], 3, 3) },
        Group { name: "compare-i64", faults: 0, body: || compares(&[-1i64, 1, i64::MIN], 2, 3) },
        Group { name: "compare-f32", faults: 0, body: || compares(&[1.0f32, f32::NAN, -0.0, 0.0], 2, 3) },
        Group { name: "compare-unit", faults: 0, body: || compares(&[(), ()], 3, 3) },
        Group { name: "compare-heap", faults: 0, body: heap_compares },
        Group { name: "long-u8", faults: 0, body: || long_compares(&[1u8, 2, 0, 255]) },
        Group { name: "long-f32", faults: 0, body: || long_compares(&[1.0f32, -0.0, 2.0, f32::NAN]) },
        Group { name: "long-look-T16", faults: 0, body: || {
            stores::long();
            stores::fixed::<T16, _>(&Look { len: 33 })
        } },
        Group { name: "order", faults: 0, body: order },
        Group { name: "look-T16", faults: 0, body: || stores::fixed::<T16, _>(&L3) },
        Group { name: "look-C3", faults: 0, body: || stores::plain::<C3, _>(&L3) },
        Group { name: "look-T3-elsewhere", faults: 0, body: || stores::reinterpreted::<T3, _>(&L3) },
        Group { name: "look-TZ", faults: 0, body: || stores::zero::<TZ, _>(&L3) },
    ];
    let _ = (&mut g, t);
    #[cfg(feature = "deep")]
    {
        const L5: Look = Look { len: 5 };
        g.push(Group { name: "long-i64", faults: 0, body: || long_compares(&[1i64, -1, 0, i64::MIN]) });
        g.push(Group { name: "compare-u8-4", faults: 0, body: || compares(&[1u8, 2, 0], 4, 4) });
        g.push(Group { name: "compare-f32-3", faults: 0, body: || compares(&[1.0f32, f32::NAN, -0.0, 0.0], 3, 3) });
        g.push(Group { name: "look5-growable", faults: 0, body: || stores::growable::<T16, _>(&L5) });
        g.push(Group { name: "look5-wrapped", faults: 0, body: || stores::wrapped::<T16, _>(&L5) });
        g.push(Group { name: "look5-T3", faults: 0, body: || stores::reinterpreted::<T3, _>(&L5) });
    }
    g
}

fn main() { run_main("P21", groups) }
