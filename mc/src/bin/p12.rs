//! The owning iterator.
use generic_vec::raw::Storage;
use generic_vec::GenericVec;
use mc::ops::*;
use mc::stores::{self, Kind, Taker};
use mc::tok::*;
use mc::*;

struct Own {
    lens: &'static [usize],
    /// 0: never look at the views, 1: look at every step, 2: also write through them
    look: usize,
    rich: bool,
}

impl<E: Elem> Taker<E> for Own {
    fn take<S: Storage<E>>(&self, mut v: GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(&mut v, &mut m, pick(self.lens));
        settle("start", &v, &mut m);
        op!("into_iter of {}", m.len());
        let stat = alloc::allocs();
        let it = must("into_iter", || v.into_iter());
        let n = m.v.len();
        let mut step = 0u8;
        pump("into_iter", it, m.v.iter().copied().collect(), self.rich, |it, left| {
            if E::OWNED && live() != left.len() as i64 {
                fail!("into_iter: {} elements alive, {} left to yield", live(), left.len())
            }
            if self.look == 0 {
                return
            }
            let mut ms: Vec<M> = left.iter().copied().collect();
            same("into_iter().as_slice()", it.as_slice(), &mut ms);
            same("into_iter().as_mut_slice()", it.as_mut_slice(), &mut ms);
            if self.look == 2 && E::OWNED && E::ID && ms.len() > 1 {
                // a change made through the mutable view must be what is yielded later
                it.as_mut_slice().swap(0, ms.len() - 1);
                it.as_mut_slice()[0].set_val(step % 7);
                it.as_mut_slice().swap(0, ms.len() - 1);
                let l = ms.len() - 1;
                same1("a change through the view", &it.as_slice()[l], M { id: ms[l].id, val: step % 7 });
                it.as_mut_slice()[l].set_val(ms[l].val);
                step += 1;
            }
        });
        mc::alloc::check_all();
        owned::<E>("after the iterator", 0);
        let s = alloc::allocs();
        check!(s.allocs == stat.allocs, "into_iter allocated");
        // what the vector owned is released; a storage that was only borrowed is not our concern here
        check!(s.live == 0, "into_iter: {} blocks are still owned after the iterator is gone ({} elements)", s.live, n);
        check!(spy::live() == 0, "into_iter: the storage was not released");
    }
}

/// Walks through for_each, rfold, sum-like consumption and collection from the middle.
struct Ends;
impl<E: Elem> Taker<E> for Ends {
    fn take<S: Storage<E>>(&self, mut v: GenericVec<E, S>, k: Kind) {
        let mut m = W::new(k.cap);
        fill(&mut v, &mut m, pick(if stores::is_huge() { stores::HUGE } else if stores::is_long() { stores::LENGTHS } else { &[0usize, 1, 2, 3, 5] }));
        let mut it = must("into_iter", || v.into_iter());
        let f = upto(m.len());
        let b = upto(m.len() - f);
        for k in 0..f + b {
            let e = must("into_iter", || if k < f { it.next() } else { it.next_back() });
            let x = if k < f { m.v.remove(0) } else { m.v.pop().unwrap() };
            yielded("into_iter", e, Some(x));
        }
        let how = choose(6);
        let what = op!(
            ["for_each with {} left", "collect with {} left", "find with {} left", "try_fold with {} left", "rposition with {} left", "skip+step_by with {} left"][how],
            m.len()
        );
        let mut got: Vec<E> = Vec::new();
        match how {
            0 => must(what, || it.for_each(|e| off(|| got.push(e)))),
            1 => {
                let c: Vec<E> = must(what, || off(|| it.collect()));
                got = c
            }
            2 => {
                let x = must(what, || it.find(|e| { let _ = e.val(); false }));
                check!(x.is_none(), "find: found something");
                check!(must(what, || it.next()).is_none() && must(what, || it.next_back()).is_none(), "find: not exhausted");
                must(what, || drop(it));
                m.v.clear();
            }
            3 => {
                // stops after one element, continues from there
                let r: Result<usize, ()> = must(what, || it.try_fold(0, |n, e| off(|| {
                    got.push(e);
                    if n == 1 { Err(()) } else { Ok(n + 1) }
                })));
                check!(r.is_err() == (m.len() >= 2), "try_fold: wrong result");
                exact(what, &it, m.len().saturating_sub(2));
                must(what, || it.for_each(|e| off(|| got.push(e))))
            }
            4 => {
                let r = must(what, || it.rposition(|e| { let _ = e.val(); false }));
                check!(r.is_none(), "rposition: found something");
                exact(what, &it, 0);
                must(what, || drop(it));
                m.v.clear();
            }
            _ => {
                must(what, || it.skip(1).step_by(2).for_each(|e| off(|| got.push(e))));
                m.v = m.v.iter().copied().skip(1).step_by(2).collect();
            }
        }
        same(what, &got, &mut m.v);
        owned::<E>(what, got.len());
        check!(alloc::allocs().live == 0 && spy::live() == 0, "{}: the storage was not released", what);
    }
}

fn groups(t: Tier) -> Vec<Group> {
    const PLAIN: Own = Own { lens: &[3, 0, 1, 2, 4, 5], look: 2, rich: false };
    const RICH: Own = Own { lens: &[3, 0, 1, 2, 4], look: 1, rich: true };
    const BLIND: Own = Own { lens: &[3, 0, 1, 2, 4], look: 0, rich: true };
    let mut g = vec![
        Group { name: "T16", faults: 0, body: || stores::own_growable::<T16, _>(&PLAIN) },
        Group { name: "T16-fixed", faults: 0, body: || stores::own_fixed::<T16, _>(&PLAIN) },
        Group { name: "T16-rich", faults: 0, body: || stores::own_growable::<T16, _>(&RICH) },
        Group { name: "T16-fixed-rich", faults: 0, body: || stores::own_fixed::<T16, _>(&BLIND) },
        Group { name: "T3-elsewhere-rich", faults: 0, body: || stores::own_elsewhere::<T3, _>(&RICH) },
        Group { name: "C16-rich", faults: 0, body: || stores::own_plain::<C16, _>(&RICH) },
        Group { name: "TZ-rich", faults: 0, body: || stores::own_zero::<TZ, _>(&RICH) },
        Group { name: "TZ-growable", faults: 0, body: || stores::own_growable::<TZ, _>(&PLAIN) },
        Group { name: "ends-T16", faults: 0, body: || stores::own_growable::<T16, _>(&Ends) },
        Group { name: "ends-T16-fixed", faults: 0, body: || stores::own_fixed::<T16, _>(&Ends) },
        Group { name: "ends-TZ", faults: 0, body: || stores::own_zero::<TZ, _>(&Ends) },
    ];
    const LONG: Own = Own { lens: stores::LENGTHS, look: 1, rich: true };
    g.push(Group { name: "long-T16", faults: 0, body: || { stores::long(); stores::own_growable::<T16, _>(&LONG) } });
    g.push(Group { name: "long-T16-fixed", faults: 0, body: || { stores::long(); stores::own_fixed::<T16, _>(&LONG) } });
    g.push(Group { name: "long-TZ", faults: 0, body: || { stores::long(); stores::own_zero::<TZ, _>(&LONG) } });
    g.push(Group { name: "long-ends-T16", faults: 0, body: || { stores::long(); stores::own_growable::<T16, _>(&Ends) } });
    const HUGE: Own = Own { lens: stores::HUGE, look: 1, rich: true };
    g.push(Group { name: "huge-T16", faults: 0, body: || { stores::huge(); stores::own_growable::<T16, _>(&HUGE) } });
    g.push(Group { name: "big-TB", faults: 0, body: || stores::own_growable::<TB, _>(&RICH) });
    if t == Tier::Thorough {
        const DEEP: Own = Own { lens: &[6, 7, 8], look: 1, rich: false };
        const DEEPR: Own = Own { lens: &[5], look: 1, rich: true };
        g.push(Group { name: "deep-T16", faults: 0, body: || stores::own_growable::<T16, _>(&DEEP) });
        g.push(Group { name: "deep-T3", faults: 0, body: || stores::own_elsewhere::<T3, _>(&DEEP) });
        g.push(Group { name: "deep-TZ", faults: 0, body: || stores::own_zero::<TZ, _>(&DEEP) });
        g.push(Group { name: "deep-rich-T16", faults: 0, body: || stores::own_growable::<T16, _>(&DEEPR) });
        g.push(Group { name: "deep-rich-T16-fixed", faults: 0, body: || stores::own_fixed::<T16, _>(&DEEPR) });
    }
    g
}

fn main() { run_main("P12", groups) }
