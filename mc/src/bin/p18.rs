//! Removing consecutive duplicates.
use generic_vec::raw::Storage;
use generic_vec::GenericVec;
use mc::ops::*;
use mc::stores::{self, Body, Kind};
use mc::tok::*;
use mc::world::M;
use mc::*;
use std::cell::RefCell;

/// What deduplication must do, given the answers to its questions: the elements kept, and the questions.
fn reference<F: FnMut(M, M) -> bool>(v: &[M], mut same: F) -> (Vec<M>, Vec<(u32, u32)>) {
    let mut keep: Vec<M> = Vec::new();
    let mut asked = Vec::new();
    for x in v {
        match keep.last() {
            None => keep.push(*x),
            Some(l) => {
                asked.push((x.id, l.id));
                if !same(*x, *l) {
                    keep.push(*x)
                }
            }
        }
    }
    (keep, asked)
}

#[inline(never)]
fn agree(what: &str, asked: &[(u32, u32)], got: &[(u32, u32)], ids: bool) {
    if ids {
        check!(asked == got, "{}: compared {:?}, expected {:?}", what, got, asked)
    } else {
        check!(asked.len() == got.len(), "{}: compared {} times, expected {}", what, got.len(), asked.len())
    }
}

/// A key that records its comparisons.
struct Key(u32, u8);
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        log_eq(self.0, o.0);
        self.1 == o.1
    }
}

/// Equality, keys, over all words of `letters` letters up to a length.
struct Words {
    len: usize,
    letters: usize,
}

impl<E: Elem> Body<E> for Words {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        let w: Vec<u8> = if stores::is_long() {
            // runs of some length, except that one element is changed
            let n = pick(if stores::is_huge() { stores::HUGE } else { stores::LENGTHS }).min(k.cap.unwrap_or(usize::MAX));
            let run = pick(if stores::is_huge() { &[1usize, 3, 300] } else { &[1, 2, 3, 5, 16, 33, 200] });
            let (at, to) = (upto(n), choose(3) as u8);
            (0..n).map(|i| if i == at { to } else { (i / run % 3) as u8 }).collect()
        } else {
            let n = choose(self.len.min(k.cap.unwrap_or(self.len)) + 1);
            (0..n).map(|_| choose(self.letters) as u8).collect()
        };
        fill_vals(v, &mut m, &w);
        for _ in 0..2 {
            // the second round must find nothing to do
            let how = choose(4);
            let what = op!("dedup way {} of {}", how, m.len());
            let st = still(v);
            compared();
            let mut calls = RefCell::new(Vec::new());
            attempt(|| match how {
                0 => v.dedup::<(), ()>(),
                1 => v.dedup_by_key(|e| Key(e.id(), e.val() / 2)),
                2 => v.dedup_by(|a, b| {
                    off(|| calls.borrow_mut().push((a.id(), b.id())));
                    a.val() == b.val()
                }),
                // not symmetric: keeps only growing neighbours
                _ => v.dedup_by(|a, b| {
                    off(|| calls.borrow_mut().push((a.id(), b.id())));
                    a.val() <= b.val()
                }),
            })
            .ret(what);
            let got = if how < 2 { compared() } else { calls.get_mut().clone() };
            let (keep, asked) = reference(&m.v, |a, b| match how {
                0 | 2 => a.val == b.val,
                1 => a.val / 2 == b.val / 2,
                _ => a.val <= b.val,
            });
            m.v = keep;
            agree(what, &asked, &got, E::ID);
            st.all(what, v);
            settle(what, v, &mut m);
            owned::<E>(what, m.len());
        }
    }
}

/// Any answers at all, with or without writing to the elements.
struct Answers {
    len: usize,
    write: bool,
}

impl<E: Elem> Body<E> for Answers {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(v, &mut m, choose(self.len + 1));
        let n = m.len();
        let what = op!("dedup_by with any answers of {}", n);
        let st = still(v);
        let write = if self.write { choose(4) } else { 0 };
        let answers = RefCell::new(Vec::new());
        let calls = RefCell::new(Vec::new());
        let mine = RefCell::new(m.v.clone());
        attempt(|| {
            v.dedup_by(|a, b| {
                off(|| {
                    calls.borrow_mut().push((a.id(), b.id()));
                    let r = flag();
                    answers.borrow_mut().push(r);
                    // writes are remembered by identity
                    let mut set = |e: &mut E, val| {
                        let id = e.id();
                        e.set_val(val);
                        for x in mine.borrow_mut().iter_mut() {
                            if x.id == id {
                                *x = M::of(e)
                            }
                        }
                    };
                    if write & 1 != 0 {
                        set(a, 1)
                    }
                    if write & 2 != 0 {
                        set(b, 2)
                    }
                    r
                })
            })
        })
        .ret(what);
        let ans = answers.into_inner();
        check!(ans.len() == n.saturating_sub(1), "{}: the relation was consulted {} times", what, ans.len());
        let mut it = ans.iter();
        let (_, asked) = reference(&m.v, |_, _| *it.next().unwrap());
        let mut it = ans.iter();
        let (keep, _) = reference(&mine.into_inner(), |_, _| *it.next().unwrap());
        m.v = keep;
        if E::OWNED || write == 0 {
            agree(what, &asked, &calls.into_inner(), E::ID);
        }
        st.all(what, v);
        settle(what, v, &mut m);
        owned::<E>(what, m.len());
        // still usable
        insert(v, &mut m, Form::Try, n / 3, false);
        remove(v, &mut m, Form::Try, Rm::Pop, 0);
    }
}

fn own<E: Elem, B: Body<E>>(b: &B) {
    match choose(2) {
        0 => stores::growable::<E, _>(b),
        _ => stores::fixed_ref::<E, _>(b),
    }
}

fn groups(t: Tier) -> Vec<Group> {
    const W6: Words = Words { len: 6, letters: 3 };
    const W5: Words = Words { len: 5, letters: 3 };
    const W4: Words = Words { len: 4, letters: 4 };
    const A8: Answers = Answers { len: 8, write: false };
    const A6: Answers = Answers { len: 6, write: true };
    let mut g = vec![
        Group { name: "words-T16", faults: 0, body: || own::<T16, _>(&W5) },
        Group { name: "words-T3", faults: 0, body: || stores::reinterpreted::<T3, _>(&W4) },
        Group { name: "words-C16", faults: 0, body: || stores::plain::<C16, _>(&W5) },
        Group { name: "words-TZ", faults: 0, body: || stores::zero::<TZ, _>(&Words { len: 9, letters: 1 }) },
        Group { name: "words6-T16", faults: 0, body: || W6.run(&mut GenericVec::<T16, _>::with_storage(spy::Spy::new(8, 8)), Kind { name: "spy", cap: Some(8), initial: 8 }) },
        Group { name: "answers-T16", faults: 0, body: || stores::growable::<T16, _>(&A8) },
        Group { name: "answers-T3", faults: 0, body: || stores::reinterpreted::<T3, _>(&Answers { len: 5, write: false }) },
        Group { name: "answers-TZ", faults: 0, body: || stores::zero::<TZ, _>(&A8) },
        Group { name: "writes-T16", faults: 0, body: || stores::growable::<T16, _>(&A6) },
    ];
    g.push(Group { name: "long-T16", faults: 0, body: || { stores::long(); stores::growable::<T16, _>(&W5) } });
    g.push(Group { name: "long-C16", faults: 0, body: || { stores::long(); stores::plain::<C16, _>(&W5) } });
    g.push(Group { name: "huge-T16", faults: 0, body: || { stores::huge(); stores::growable::<T16, _>(&W5) } });
    g.push(Group { name: "big-TB", faults: 0, body: || stores::growable::<TB, _>(&Words { len: 3, letters: 3 }) });
    g.push(Group { name: "sizes", faults: 0, body: || stores::sizes(&Words { len: 3, letters: 3 }) });
    if t == Tier::Thorough {
        const W8: Words = Words { len: 8, letters: 3 };
        const A12: Answers = Answers { len: 12, write: false };
        const A9: Answers = Answers { len: 9, write: true };
        g.push(Group { name: "words8-T16", faults: 0, body: || W8.run(&mut GenericVec::<T16, _>::with_storage(spy::Spy::new(8, 8)), Kind { name: "spy", cap: Some(8), initial: 8 }) });
        g.push(Group { name: "words6-all", faults: 0, body: || own::<T16, _>(&W6) });
        g.push(Group { name: "answers12-T16", faults: 0, body: || stores::growable::<T16, _>(&A12) });
        g.push(Group { name: "writes9-T16", faults: 0, body: || stores::growable::<T16, _>(&A9) });
    }
    g
}

fn main() { run_main("P18", groups) }
