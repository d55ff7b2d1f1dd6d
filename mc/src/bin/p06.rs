//! Panics in user code, at every point where user code is called.
use generic_vec::raw::Storage;
use generic_vec::GenericVec;
use mc::engine::{fault, fault_zone, faulted, F_CALL, F_CLONE, F_DROP, F_HINT};
use mc::ops::*;
use mc::stores::{self, Body, Kind, Taker};
use mc::tok::*;
use mc::*;
use std::cell::RefCell;

const ANY: u32 = F_CALL | F_CLONE | F_DROP | F_HINT;

/// What happened to a call.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum End {
    Normal,
    /// a clone, closure or iterator panicked
    User,
    /// a destructor panicked
    Drop,
}

fn run<R>(what: &str, f: impl FnOnce() -> R) -> End {
    let before = mc::engine::faults_left();
    match fault_zone(ANY, || attempt(f)) {
        Outcome::Ret(r) => {
            // whatever it returns is dropped here, not by the library
            drop(r);
            check!(mc::engine::faults_left() == before, "{}: a panic in user code was swallowed", what);
            End::Normal
        }
        Outcome::Injected(2) => {
            allow_leak();
            End::Drop
        }
        Outcome::Injected(_) => End::User,
        Outcome::Panic => fail!("{}: panicked on its own", what),
    }
}

/// The vector must be readable, without duplicates, within what is known; learns what it contains.
fn sound<E: Elem, S: ?Sized + Storage<E>>(what: &str, end: End, v: &GenericVec<E, S>, m: &mut W, held: usize) {
    check!(v.len() <= v.capacity(), "{}: length {} exceeds capacity {}", what, v.len(), v.capacity());
    let now: Vec<M> = v.iter().map(M::of).collect();
    if E::ID {
        for i in 0..now.len() {
            for j in 0..i {
                check!(now[i].id != now[j].id, "{}: element {} is in the vector twice", what, now[i].id)
            }
        }
    }
    m.v = now;
    settle(what, v, m);
    if end == End::Drop {
        // leaking is fine, losing count is not
        check!(live() >= (v.len() + held) as i64, "{}: {} elements alive, but {} reachable", what, live(), v.len() + held);
    } else {
        owned::<E>(what, v.len() + held);
    }
}

fn unchanged<E: Elem>(what: &str, m: &W, old: &[M]) {
    if m.v.len() != old.len() || (E::ID && m.v != old) {
        fail!("{}: after a panic the vector is not as it was: {:?}, expected {:?}", what, m.v, old)
    }
}

/// `xs` in order and at most once each within `ys`
fn in_order(xs: &[M], ys: &[M]) -> bool {
    let mut i = 0;
    for y in ys {
        if i < xs.len() && xs[i].id == y.id {
            i += 1
        }
    }
    i == xs.len()
}

/// A closure body that may panic.
fn call() {
    off(|| {
        if fault(F_CALL) {
            inject(3)
        }
    })
}

/// A valid range: any, or in a long execution the most telling.
fn part(n: usize) -> (usize, usize) {
    if stores::is_long() {
        pick(&[(0, n), (1, n - 1), (2, n / 2 + 2), (n, n)])
    } else {
        range(n)
    }
}

/// How many of `n` are taken out, and which way.
fn taking(n: usize) -> (usize, usize) {
    let f = choose(n.min(2) + 1);
    (f, if f > 0 { choose(4) } else { 0 })
}

fn advance<E, I: DoubleEndedIterator<Item = E>>(it: &mut I, how: usize) -> Option<E> {
    match how {
        0 => it.next(),
        1 => it.next_back(),
        2 => it.nth(1),
        _ => it.nth_back(1),
    }
}

/// Ways to use up the rest of an iterator, with user code that may panic.
/// (Not `last`: a value about to be returned is leaked by the compiler when dropping
/// the arguments panics, rust-lang/rust#47949.)
const REST: [&str; 6] = ["dropped", "for_each", "rfold", "try_fold", "find", "rfind"];

fn rest<E: Elem, I: DoubleEndedIterator<Item = E>>(mut it: I, how: usize, taken: &RefCell<Vec<E>>) {
    let take = |e: E| {
        call();
        off(|| taken.borrow_mut().push(e))
    };
    match how {
        0 => drop(it),
        1 => it.for_each(take),
        2 => it.rfold((), |_, e| take(e)),
        3 => {
            let _ = it.try_fold((), |_, e| {
                take(e);
                Some(())
            });
        }
        4 => {
            let e = it.find(|_| {
                call();
                false
            });
            off(|| taken.borrow_mut().extend(e))
        }
        _ => {
            let e = it.rfind(|_| {
                call();
                false
            });
            off(|| taken.borrow_mut().extend(e))
        }
    }
}

fn one<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, m: &mut W) {
    let old = m.v.clone();
    let n = old.len();
    let most = if stores::is_long() { 40 } else { 3 };
    let room = m.cap.map_or(most, |c| (c - n).min(most));
    match choose(15) {
        k @ 0..=1 => {
            // grow and resize by value
            let by = upto(room);
            let what = op!(["grow by {} at {}", "resize by {} at {}"][k], by, n);
            let (e, x) = mk::<E>();
            let end = run(what, || if k == 0 { v.grow(by, e) } else { v.resize(n + by, e) });
            sound(what, end, v, m, 0);
            match end {
                End::Normal => check!(m.len() == n + by && m.v[n..].iter().all(|y| y.val == x.val), "{}: wrong contents", what),
                _ => unchanged::<E>(what, m, &old),
            }
        }
        k @ 2..=3 => {
            let by = upto(room);
            let what = op!(["grow_with by {} at {}", "resize_with by {} at {}"][k - 2], by, n);
            let mut f = || {
                call();
                off(|| mk::<E>().0)
            };
            let end = run(what, || if k == 2 { v.grow_with(by, &mut f) } else { v.resize_with(n + by, &mut f) });
            sound(what, end, v, m, 0);
            match end {
                End::Normal => check!(m.len() == n + by, "{}: wrong contents", what),
                _ => unchanged::<E>(what, m, &old),
            }
        }
        4 => {
            let to = upto(n);
            let k = choose(3);
            let what = op!(["truncate to {} of {}", "resize_with to {} of {}", "resize to {} of {}"][k], to, n);
            let (e, _) = mk::<E>();
            let mut e = Some(e);
            let end = run(what, || match k {
                0 => v.truncate(to),
                1 => v.resize_with(to, || unreachable!()),
                _ => v.resize(to, e.take().unwrap()),
            });
            let held = e.is_some() as usize;
            sound(what, end, v, m, held);
            unchanged::<E>(what, m, &old[..to]);
        }
        5 => {
            let by = upto(room);
            let what = op!("extend_from_slice by {} at {}", by, n);
            let (es, _) = mks::<E>(by);
            let end = run(what, || v.extend_from_slice(&es));
            sound(what, end, v, m, by);
            match end {
                End::Normal => check!(m.len() == n + by, "{}: wrong contents", what),
                _ => unchanged::<E>(what, m, &old),
            }
        }
        6 => {
            let by = upto(room);
            let h = pick(&[Hint::Exact, Hint::None]);
            let what = op!("extend by {} (hint {}) at {}", by, h, n);
            let made = RefCell::new(Vec::new());
            let end = run(what, || v.extend(gen::<E>(by, h, &made)));
            sound(what, end, v, m, 0);
            let mut all = old.clone();
            all.extend(made.into_inner());
            check!(m.len() >= n, "{}: elements were lost", what);
            let l = m.len();
            unchanged::<E>(what, m, &all[..l]);
        }
        7 => {
            let by = upto(room);
            let what = op!("extend by {} references at {}", by, n);
            let (es, _) = mks::<E>(by);
            let end = run(what, || v.extend(Refs { src: &es, hint: Hint::Exact, done: false }));
            sound(what, end, v, m, by);
            check!(m.len() >= n, "{}: elements were lost", what);
            let keep = W { v: m.v[..n].to_vec(), cap: None };
            unchanged::<E>(what, &keep, &old);
        }
        8 => {
            let most = most.max(4);
            let by = upto(m.cap.unwrap_or(most).min(most));
            let what = op!("clone_from {} over {}", by, n);
            let (es, _) = mks::<E>(by);
            let end = run(what, || v.clone_from(&es));
            sound(what, end, v, m, by);
            if end == End::Normal {
                check!(m.len() == by, "{}: wrong contents", what)
            }
        }
        k @ 9..=10 => {
            // filtered drains, abandoned after some items, and retain
            let mask = mask(n, 4);
            let (a, b) = if k == 9 { part(n) } else { (0, n) };
            let take = if k == 9 { choose(3) } else { 0 };
            let back = k == 9 && take > 0 && flag();
            let what = op!(
                if k == 9 { "drain_filter {}..{} mask {}, {} taken, from the back: {}" } else { "retain {}..{} mask {}" },
                a,
                b,
                mask,
                take,
                back
            );
            // the elements the predicate accepted for removal before it panicked
            let gone = RefCell::new(Vec::new());
            let panicked = std::cell::Cell::new(false);
            let f = |e: &mut E| {
                let x = M::of(e);
                // what the predicate says after it panicked does not count
                let late = panicked.replace(true);
                call();
                panicked.set(late);
                let i = off(|| old.iter().position(|y| y.id == x.id).unwrap_or(0));
                let i = if E::ID { i } else { off(|| gone.borrow().len()) };
                let remove = bit(mask, i) || !E::ID;
                if remove && !late {
                    off(|| gone.borrow_mut().push(x))
                }
                remove
            };
            let kept = std::cell::Cell::new(0usize);
            let end = if k == 10 {
                {
                let mut f = f;
                run(what, || v.retain(|e| !f(e)))
            }
            } else {
                run(what, || {
                    let mut d = v.drain_filter(a..b, f);
                    for _ in 0..take {
                        match if back { d.next_back() } else { d.next() } {
                            // handed out: not for the library to drop
                            Some(e) => off(|| {
                                kept.set(kept.get() + 1);
                                std::mem::forget(e)
                            }),
                            None => break,
                        }
                    }
                })
            };
            let gone = gone.into_inner();
            sound(what, end, v, m, kept.get());
            if E::OWNED {
                allow_leak() // what was handed out is forgotten
            }
            if E::ID {
                let expect: Vec<M> = old.iter().copied().filter(|x| !gone.contains(x)).collect();
                unchanged::<E>(what, m, &expect);
            } else {
                check!(m.len() == n - gone.len(), "{}: length {} after {} of {} were removed", what, m.len(), gone.len(), n);
            }
        }
        11 => {
            let modulus = pick(&[1u8, 2, 7]);
            let k = choose(3);
            let what = op!(["dedup_by modulo {}", "dedup_by_key modulo {}", "dedup modulo {}"][k], modulus);
            if k == 2 {
                let end = run(what, || v.dedup::<(), ()>());
                sound(what, end, v, m, 0);
                return
            }
            let end = run(what, || {
                if k == 0 {
                    v.dedup_by(|a, b| {
                        call();
                        a.val() % modulus == b.val() % modulus
                    })
                } else {
                    v.dedup_by_key(|a| {
                        call();
                        a.val() % modulus
                    })
                }
            });
            sound(what, end, v, m, 0);
            // a panicking relation may leave any order, but nothing new
            check!(!E::ID || m.v.iter().all(|x| old.contains(x)), "{}: unknown elements appeared", what);
        }
        12 => {
            let (a, b) = part(n);
            let by = upto(room);
            let (f, how) = taking(b - a);
            let last = if f < 2 && b > a && how == 0 && !stores::is_long() { choose(REST.len()) } else { 0 };
            let what = op!("splice {}..{} by {} at {}, {} taken (way {}), the rest by way {}", a, b, by, n, f, how, last);
            let made = RefCell::new(Vec::new());
            let taken = RefCell::new(Vec::new());
            let end = run(what, || {
                let mut s = v.splice(a..b, gen::<E>(by, Hint::None, &made));
                for _ in 0..f {
                    let e = advance(&mut s, how);
                    off(|| taken.borrow_mut().extend(e))
                }
                rest(s, last, &taken)
            });
            sound(what, end, v, m, taken.borrow().len());
            drop(taken);
            if end == End::User && E::ID {
                check!(in_order(&old[..a], &m.v) && in_order(&old[b..], &m.v), "{}: prefix or tail was damaged", what)
            }
        }
        13 => {
            let (a, b) = range(n);
            let (f, how) = taking(b - a);
            let last = if f < 2 && b > a && how == 0 && !stores::is_long() { choose(REST.len()) } else { 0 };
            let what = op!("drain {}..{} of {}, {} taken (way {}), the rest by way {}", a, b, n, f, how, last);
            let taken = RefCell::new(Vec::new());
            let end = run(what, || {
                let mut s = v.drain(a..b);
                for _ in 0..f {
                    let e = advance(&mut s, how);
                    off(|| taken.borrow_mut().extend(e))
                }
                rest(s, last, &taken)
            });
            sound(what, end, v, m, taken.borrow().len());
            let expect: Vec<M> = old[..a].iter().chain(&old[b..]).copied().collect();
            if end == End::Normal {
                unchanged::<E>(what, m, &expect);
            } else {
                check!(!E::ID || in_order(&m.v, &old), "{}: order was damaged", what)
            }
        }
        _ => {
            let (a, b) = range(n);
            let k = choose(6);
            let what = op!(
                ["cursor drop_front {}..{} of {}", "cursor drop_back {}..{} of {}", "cursor drop_n_front {}..{} of {}", "cursor drop_n_back {}..{} of {}", "spare {}..{} of {}", "clear {}..{} of {}"][k],
                a,
                b,
                n
            );
            let (es, _) = mks::<E>(2);
            let mut es = RefCell::new(es);
            let end = run(what, || match k {
                4 => {
                    let mut s = v.spare_capacity_mut();
                    for _ in 0..2 {
                        if !s.is_full() {
                            let e = off(|| es.borrow_mut().pop().unwrap());
                            s.push(e);
                        }
                    }
                }
                5 => v.clear(),
                _ => {
                    let mut c = v.cursor(a..b);
                    match k {
                        0 if b > a => c.drop_front(),
                        1 if b > a => c.drop_back(),
                        2 => c.drop_n_front(b - a),
                        3 => c.drop_n_back(b - a),
                        _ => (),
                    }
                }
            });
            let held = es.get_mut().len();
            sound(what, end, v, m, held);
            check!(!E::ID || in_order(&m.v, &old), "{}: order was damaged", what);
        }
    }
}

struct Panics {
    lens: &'static [usize],
    times: usize,
}

impl<E: Elem> Body<E> for Panics {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, pick(self.lens));
        settle("start", v, &mut m);
        for _ in 0..self.times {
            one(v, &mut m);
        }
        // still fully usable
        if m.fits(1) {
            let n = m.len();
            insert(v, &mut m, Form::Plain, 0, false);
            insert(v, &mut m, Form::Plain, n + 1, true);
            remove(v, &mut m, Form::Plain, Rm::Remove, 0);
        } else if m.len() > 0 {
            remove(v, &mut m, Form::Plain, Rm::Remove, 0);
        }
    }
}

/// Panics while a vector is dropped, iterated by value, cloned or built.
struct Ends;

impl<E: Elem> Taker<E> for Ends {
    fn take<S: Storage<E>>(&self, mut v: GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(&mut v, &mut m, pick(&[3, 0, 1, 2]));
        let n = m.len();
        match choose(4) {
            0 => {
                op!("drop of {}", n);
                let end = run("drop", || drop(v));
                if end == End::Normal {
                    owned::<E>("drop", 0);
                } else {
                    check!(live() == 0, "drop: the other elements were not dropped")
                }
            }
            1 => {
                let f = choose(n + 1);
                let last = choose(REST.len());
                op!("into_iter of {}, {} taken, the rest by way {}", n, f, last);
                let taken = RefCell::new(Vec::new());
                run("into_iter", || {
                    let mut it = v.into_iter();
                    for k in 0..f {
                        let e = if k % 2 == 0 { it.next() } else { it.next_back() };
                        off(|| taken.borrow_mut().extend(e))
                    }
                    rest(it, last, &taken)
                });
                let f = taken.borrow().len();
                check!(live() == if E::OWNED { f as i64 } else { 0 }, "into_iter: {} elements alive, {} handed out", live(), f);
            }
            2 => {
                let (first, f, back) = (choose(2), choose(n + 2), flag());
                op!("into_iter of {}, nth({}) after {}, from the back: {}", n, f, first, back);
                let taken = RefCell::new(Vec::new());
                run("nth", || {
                    let mut it = v.into_iter();
                    for k in 0..2 {
                        let e = match (k < 1, back) {
                            (true, _) if first == 0 => None,
                            (true, true) => it.next(),
                            (true, false) => it.next_back(),
                            (false, false) => it.nth(f),
                            (false, true) => it.nth_back(f),
                        };
                        off(|| taken.borrow_mut().extend(e))
                    }
                });
                check!(!E::OWNED || live() == taken.borrow().len() as i64, "nth: {} elements alive", live());
            }
            _ => {
                op!("clone of {}", n);
                let copy: RefCell<Option<GenericVec<E, spy::Spy<E>>>> = RefCell::new(None);
                let end = run("clone", || {
                    let mut o = GenericVec::with_storage(spy::Spy::<E>::new(0, usize::MAX));
                    o.extend(v.iter().cloned());
                    off(|| *copy.borrow_mut() = Some(o))
                });
                settle("clone", &v, &mut m);
                if end == End::User {
                    owned::<E>("clone", n)
                }
                drop(copy);
                drop(v);
            }
        }
        check!(spy::live() == 0 && alloc::allocs().live == 0, "the storage was not released");
    }
}

#[cfg(feature = "alloc")]
fn heap<E: Elem>() {
    use generic_vec::HeapVec;
    let n = choose(4);
    match choose(4) {
        0 => {
            op!("HeapVec::clone of {}", n);
            let mut v = HeapVec::<E>::new();
            let mut m = W::new(None);
            fill(&mut v, &mut m, n);
            let end = run("clone", || v.clone());
            settle("clone", &v, &mut m);
            if end != End::Drop {
                owned::<E>("clone", n)
            }
            mc::lib(|| drop(v))
        }
        1 => {
            op!("HeapVec::from_iter of {}", n);
            let made = RefCell::new(Vec::new());
            let end = run("from_iter", || {
                let v = gen::<E>(n, pick(&[Hint::None, Hint::Exact]), &made).collect::<HeapVec<E>>();
                drop(v);
            });
            if end != End::Drop {
                owned::<E>("from_iter", 0)
            }
        }
        2 => {
            op!("gvec![x; {}]", n);
            let (e, _) = mk::<E>();
            let end = run("gvec", || {
                let v: HeapVec<E> = generic_vec::gvec![e; n];
                drop(v)
            });
            if end != End::Drop {
                owned::<E>("gvec", 0)
            }
        }
        _ => {
            let k = choose(4);
            op!("Clone::clone_from of {} over {}", n, k);
            let (mut v, mut w) = (HeapVec::<E>::new(), HeapVec::<E>::new());
            let (mut m, mut x) = (W::new(None), W::new(None));
            fill(&mut v, &mut m, n);
            fill(&mut w, &mut x, k);
            let end = run("clone_from", || Clone::clone_from(&mut w, &v));
            settle("clone_from", &v, &mut m);
            sound("clone_from", end, &w, &mut x, n);
            mc::lib(|| drop((v, w)))
        }
    }
    check!(alloc::allocs().live == 0, "memory was not released");
}

fn groups(t: Tier) -> Vec<Group> {
    const ONE: Panics = Panics { lens: &[3, 0, 1, 2, 4], times: 1 };
    const TWO: Panics = Panics { lens: &[2], times: 2 };
    let mut g = vec![
        Group { name: "T16-growable", faults: 1, body: || stores::growable::<T16, _>(&ONE) },
        Group { name: "T16-fixed", faults: 1, body: || stores::fixed::<T16, _>(&ONE) },
        Group { name: "TZ", faults: 1, body: || stores::zero::<TZ, _>(&ONE) },
        Group { name: "T3-elsewhere", faults: 1, body: || stores::reinterpreted::<T3, _>(&ONE) },
        Group { name: "ends-T16", faults: 1, body: || stores::own_growable::<T16, _>(&Ends) },
        Group { name: "ends-T16-fixed", faults: 1, body: || stores::own_fixed::<T16, _>(&Ends) },
        Group { name: "ends-TZ", faults: 1, body: || stores::own_zero::<TZ, _>(&Ends) },
        #[cfg(feature = "alloc")]
        Group { name: "heap-T16", faults: 1, body: heap::<T16> },
        #[cfg(feature = "alloc")]
        Group { name: "heap-TZ", faults: 1, body: heap::<TZ> },
    ];
    const FAR: Panics = Panics { lens: &[20, 40], times: 1 };
    g.push(Group { name: "long-T16", faults: 1, body: || {
        stores::long();
        stores::growable::<T16, _>(&FAR)
    } });
    g.push(Group { name: "long-T16-fixed", faults: 1, body: || {
        stores::long();
        stores::fixed::<T16, _>(&FAR)
    } });
    g.push(Group { name: "long-TZ", faults: 1, body: || {
        stores::long();
        stores::zero::<TZ, _>(&FAR)
    } });
    const BEYOND: Panics = Panics { lens: &[100], times: 1 };
    g.push(Group { name: "huge-T16", faults: 1, body: || { stores::huge(); stores::growable::<T16, _>(&BEYOND) } });
    const BIG: Panics = Panics { lens: &[3, 1], times: 1 };
    g.push(Group { name: "big-TB", faults: 1, body: || stores::growable::<TB, _>(&BIG) });
    if t == Tier::Thorough {
        const DEEP: Panics = Panics { lens: &[5], times: 1 };
        g.push(Group { name: "deep-T16", faults: 1, body: || stores::growable::<T16, _>(&DEEP) });
        g.push(Group { name: "twice-T16", faults: 2, body: || stores::growable::<T16, _>(&TWO) });
        g.push(Group { name: "twice-T16-fixed", faults: 2, body: || stores::fixed::<T16, _>(&TWO) });
        g.push(Group { name: "twice-TZ", faults: 2, body: || stores::zero::<TZ, _>(&TWO) });
        g.push(Group { name: "two-faults-T16", faults: 2, body: || stores::growable::<T16, _>(&ONE) });
    }
    let _ = faulted;
    g
}

fn main() { run_main("P06", groups) }
