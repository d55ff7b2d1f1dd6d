//! Array-at-a-time edits. Nightly only.
#[cfg(feature = "nightly")]
mod go {
    use generic_vec::raw::Storage;
    use generic_vec::GenericVec;
    use mc::ops::*;
    use mc::stores::{self, Body, Kind};
    use mc::tok::*;
    use mc::*;

    struct Arrays {
        depth: usize,
        lens: &'static [usize],
    }

    /// Any of `n` places or of the `far` ones beyond, or of hundreds the telling ones.
    fn index(n: usize, far: usize) -> usize {
        if stores::is_huge() {
            let i = choose(far + 1);
            return if i > 0 { n + i - 1 } else { upto(n - 1) }
        }
        choose(n + far)
    }

    fn at<E: Elem, S: ?Sized + Storage<E>, const N: usize>(v: &mut GenericVec<E, S>, m: &mut W) {
        let len = m.len();
        let f = pick(&FORMS);
        let free = f != Form::Unchecked;
        let room = v.capacity() - v.len() >= N;
        let mut ops = Vec::new();
        // 0 push, 1 insert, 2 pop, 3 remove
        if free || room {
            ops.push(0);
            ops.push(1);
        }
        if free || len >= N {
            ops.push(2);
            ops.push(3);
        }
        match *ops.get(choose(ops.len().max(1))).unwrap_or(&9) {
            0 => insert_array::<E, S, N>(v, m, f, len, true),
            1 => {
                let far = [len + 1, usize::MAX, usize::MAX - N];
                let i = index(len + 1, if free { far.len() } else { 0 });
                insert_array::<E, S, N>(v, m, f, if i <= len { i } else { far[i - len - 1] }, false)
            }
            2 => remove_array::<E, S, N>(v, m, f, 0, true),
            3 => {
                let far = [len + 1, usize::MAX, usize::MAX - N];
                let n = if free { len + 1 } else { len - N + 1 };
                let i = index(n, if free { far.len() } else { 0 });
                remove_array::<E, S, N>(v, m, f, if i < n { i } else { far[i - n] }, false)
            }
            _ => (),
        }
    }

    impl<E: Elem> Body<E> for Arrays {
        fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
            let mut m = W::new(k.cap);
            fill(v, &mut m, pick(self.lens));
            settle("start", v, &mut m);
            for _ in 0..self.depth {
                match pick(if stores::is_long() { &[2usize, 0, 1, 3, 4, 5, 40] } else { &[2, 0, 1, 3, 4, 5] }) {
                    40 => at::<E, S, 40>(v, &mut m),
                    0 => at::<E, S, 0>(v, &mut m),
                    1 => at::<E, S, 1>(v, &mut m),
                    2 => at::<E, S, 2>(v, &mut m),
                    3 => at::<E, S, 3>(v, &mut m),
                    4 => at::<E, S, 4>(v, &mut m),
                    _ => at::<E, S, 5>(v, &mut m),
                }
                owned::<E>("after an array operation", m.len());
            }
            // still usable
            if m.fits(1) {
                insert(v, &mut m, Form::Plain, 0, false);
            }
            if m.len() > 0 {
                remove(v, &mut m, Form::Plain, Rm::Remove, 0);
            }
        }
    }

    const LENS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7];
    fn own<E: Elem>(depth: usize, lens: &'static [usize]) {
        let h = Arrays { depth, lens };
        match choose(2) {
            0 => stores::growable::<E, _>(&h),
            _ => stores::fixed::<E, _>(&h),
        }
    }

    pub fn groups(t: Tier) -> Vec<Group> {
        let mut g = vec![
            Group { name: "one-T16", faults: 0, body: || own::<T16>(1, LENS) },
            Group { name: "one-T3-elsewhere", faults: 0, body: || stores::reinterpreted::<T3, _>(&Arrays { depth: 1, lens: LENS }) },
            Group { name: "one-TZ", faults: 0, body: || stores::zero::<TZ, _>(&Arrays { depth: 1, lens: LENS }) },
            Group { name: "one-C16", faults: 0, body: || stores::plain::<C16, _>(&Arrays { depth: 1, lens: LENS }) },
            Group { name: "two-T16", faults: 0, body: || own::<T16>(2, &[0, 2, 3]) },
            Group { name: "two-C16", faults: 0, body: || stores::plain::<C16, _>(&Arrays { depth: 2, lens: &[0, 3] }) },
        ];
        g.push(Group { name: "long-T16", faults: 0, body: || { stores::long(); own::<T16>(1, stores::LENGTHS) } });
        g.push(Group { name: "long-C16", faults: 0, body: || { stores::long(); stores::plain::<C16, _>(&Arrays { depth: 1, lens: stores::LENGTHS1 }) } });
        g.push(Group { name: "huge-T16", faults: 0, body: || { stores::huge(); own::<T16>(1, stores::HUGE) } });
        g.push(Group { name: "big-TB", faults: 0, body: || own::<TB>(1, LENS) });
        g.push(Group { name: "sizes", faults: 0, body: || stores::sizes(&Arrays { depth: 1, lens: &[3, 0, 5] }) });
        if t == Tier::Thorough {
            g.push(Group { name: "two-T16-more", faults: 0, body: || own::<T16>(2, LENS) });
            g.push(Group { name: "three-T16", faults: 0, body: || own::<T16>(3, &[0, 3]) });
            g.push(Group { name: "two-TZ", faults: 0, body: || stores::zero::<TZ, _>(&Arrays { depth: 2, lens: LENS }) });
            g.push(Group { name: "two-T3-elsewhere", faults: 0, body: || stores::reinterpreted::<T3, _>(&Arrays { depth: 2, lens: &[0, 2, 5] }) });
        }
        g
    }
}

#[cfg(feature = "nightly")]
fn main() { mc::run_main("P02", go::groups) }
#[cfg(not(feature = "nightly"))]
fn main() { println!("ENGINE-ERROR needs a nightly lane") }
