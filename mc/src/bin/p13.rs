//! Vectors of fixed capacity: the capacity is what the buffer says, up to the brim and not beyond.
use generic_vec::raw::{Storage, UninitBuffer, UninitSlice};
use generic_vec::{GenericVec, InitSliceVec, SliceVec, TypeVec};
use mc::guard::{slots, Placed};
use mc::ops::*;
use mc::spy::Spy;
use mc::stores::{self, Body, Kind};
use mc::tok::*;
use mc::walk::{Arrays, Iters, Steps};
use mc::*;

/// Runs a body over a storage whose capacity is known from the size of the buffer alone.
fn put<E: Elem, S: Storage<E>, B: Body<E>>(b: &B, name: &'static str, expect: usize, v: GenericVec<E, S>) {
    log!("{} over {}, expected capacity {}", E::NAME, name, expect);
    let mut p = Placed::new(v);
    b.run(&mut *p, Kind { name, cap: Some(expect), initial: expect });
}

#[repr(align(32))]
struct Align32;
#[repr(C, align(32))]
struct Over<T>(T);

/// Uninitialised buffers holding their own type. Chooses one.
fn own<E: Elem, B: Body<E>>(b: &B) {
    match choose(5) {
        0 => {
            let n = pick(&[3usize, 0, 1, 2, 5, 8]);
            put(b, "slice", n, SliceVec::new(slots::<E>(n)))
        }
        1 => match choose(6) {
            5 => {
                let z = std::mem::size_of::<E>();
                let n = if z == 0 { usize::MAX } else { std::mem::size_of::<Over<[E; 1]>>() / z };
                put(b, "[_; 1] aligned to 32", n, TypeVec::<E, [E; 1], Align32>::with_align())
            }
            0 => put(b, "[_; 0]", 0, TypeVec::<E, [E; 0]>::new()),
            1 => put(b, "[_; 1]", 1, TypeVec::<E, [E; 1]>::new()),
            2 => put(b, "[_; 2]", 2, TypeVec::<E, [E; 2]>::new()),
            3 => put(b, "[_; 5]", 5, TypeVec::<E, [E; 5]>::new()),
            _ => put(b, "[[_; 2]; 3]", 6, TypeVec::<E, [[E; 2]; 3], E>::with_align()),
        },
        2 => {
            let n = pick(&[2usize, 4]);
            put(b, "limited spy", n, GenericVec::with_storage(Spy::<E>::new(n, n)))
        }
        3 => {
            let mut s = Placed::new(UninitBuffer::<[E; 4], E>::uninit());
            put(b, "&mut buffer", 4, GenericVec::<E, &mut UninitBuffer<[E; 4], E>>::with_storage(&mut *s))
        }
        _ => {
            let mut s = UninitSlice::from_mut(slots::<E>(3));
            put(b, "&mut &mut slice", 3, GenericVec::<E, &mut &mut UninitSlice<E>>::with_storage(&mut s))
        }
    }
}

/// Buffers of bytes and words. `E` has size 1 or 3 and alignment 1.
fn bytes<E: Elem, B: Body<E>>(b: &B) {
    let z = std::mem::size_of::<E>();
    match choose(5) {
        4 => put(b, "u8 aligned to u64", 8 / z, TypeVec::<E, u8, u64>::with_align()),
        0 => put(b, "[u8; 10]", 10 / z, TypeVec::<E, [u8; 10], u8>::with_align()),
        1 => put(b, "[u8; 10] aligned to u64", 16 / z, TypeVec::<E, [u8; 10], u64>::with_align()),
        2 => put(b, "u64", 8 / z, TypeVec::<E, u64, u64>::with_align()),
        _ => {
            let n = pick(&[7usize, 2, 3, 0]);
            put(b, "slice of u8", n / z, GenericVec::<E, &mut UninitSlice<u8>>::with_storage(UninitSlice::from_mut(slots::<u8>(n))))
        }
    }
}

fn lent<E: Elem + Copy>(n: usize) -> &'static mut [E] {
    let buf = slots::<E>(n);
    for x in buf.iter_mut() {
        unsafe { x.as_mut_ptr().write(E::mk(7)) }
    }
    unsafe { &mut *(buf as *mut _ as *mut [E]) }
}

/// Buffers of initialised plain data. Chooses one.
fn plain<E: Elem + Copy + Default, B: Body<E>>(b: &B) {
    match choose(5) {
        0 => {
            let n = pick(&[4usize, 0, 1, 2]);
            let v = InitSliceVec::new(lent::<E>(n));
            check!(v.len() == n && v.capacity() == n && v.is_full(), "a vector over {} initialised elements has {} of {}", n, v.len(), v.capacity());
            let mut v = v;
            v.clear();
            put(b, "initialised slice", n, v)
        }
        1 => put(b, "[_; 3]", 3, GenericVec::<E, [E; 3]>::default()),
        2 => put(b, "[_; 0]", 0, GenericVec::<E, [E; 0]>::default()),
        3 => put(b, "[_; 7]", 7, GenericVec::<E, [E; 7]>::with_capacity(choose(8))),
        _ => {
            let mut p = Placed::new(GenericVec::<E, [E; 4]>::default());
            let v: &mut GenericVec<E, [E]> = &mut *p;
            b.run(v, Kind { name: "unsized [_; 4]", cap: Some(4), initial: 4 })
        }
    }
}

/// Fills the vector by every growing operation to the brim and asks for more.
struct Brim {
    wide: usize,
}

impl<E: Elem> Body<E> for Brim {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let cap = k.cap.unwrap();
        let mut m = W::new(Some(cap));
        settle("start", v, &mut m);
        check!(v.capacity() == cap, "the capacity is {}, expected {}", v.capacity(), cap);
        fill(v, &mut m, [0, cap, cap.saturating_sub(1), cap / 2][choose(4)]);
        let room = cap - m.len();
        for round in 0..2 {
            let wide = round < self.wide;
            let g = [room, room + 1, room.saturating_sub(1), 1, room + 5][choose(if wide { 5 } else { 2 })];
            let n = m.len();
            match if wide { choose(16) } else { pick(&[0, 3, 6, 9]) } {
                0 => insert(v, &mut m, Form::Plain, n, true),
                1 => insert(v, &mut m, Form::Try, n, true),
                2 => insert(v, &mut m, Form::Plain, 0, false),
                3 => insert(v, &mut m, Form::Try, n / 2, false),
                4 => grow(v, &mut m, g, false),
                5 => grow(v, &mut m, n + g, true),
                6 => grow_with(v, &mut m, g, false),
                7 => extend(v, &mut m, g, Hint::None),
                8 => extend_ref(v, &mut m, g, Hint::Exact),
                9 => extend_slice(v, &mut m, g),
                10 => clone_from(v, &mut m, n + g),
                11 => splice(v, &mut m, (n / 2, n), g + n - n / 2, Hint::None, 0, 0),
                12 => reserve(v, &mut m, g, Form::Plain),
                13 => reserve(v, &mut m, g, Form::Try),
                14 => spare(v, &mut m, g, true),
                _ => cursor(v, &mut m, (n / 2, n), 2),
            }
            #[cfg(feature = "nightly")]
            {
                if wide && flag() {
                    let n = m.len();
                    match choose(3) {
                        0 => insert_array::<E, S, 2>(v, &mut m, Form::Plain, n, true),
                        1 => insert_array::<E, S, 3>(v, &mut m, Form::Try, 0, false),
                        _ => insert_array::<E, S, 2>(v, &mut m, Form::Try, n, true),
                    }
                }
            }
            check!(v.capacity() == cap, "the capacity became {}", v.capacity());
        }
    }
}

/// Histories from nearly full.
struct Near {
    depth: usize,
}

impl<E: Elem> Body<E> for Near {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        let cap = k.cap.unwrap();
        let mut m = W::new(Some(cap));
        fill(v, &mut m, if flag() { cap } else { cap.saturating_sub(1) });
        settle("start", v, &mut m);
        for _ in 0..self.depth {
            any_op(v, &mut m, false);
            check!(v.capacity() == cap, "the capacity became {}", v.capacity());
        }
    }
}

/// Large buffers, around the brim.
struct Long;

impl<E: Elem> Body<E> for Long {
    fn run<S: ?Sized + Storage<E>>(&self, v: &mut GenericVec<E, S>, k: Kind) {
        stores::long();
        Brim { wide: 2 }.run(v, k)
    }
}

fn groups(t: Tier) -> Vec<Group> {
    let mut g = vec![
        Group { name: "brim-T16", faults: 0, body: || own::<T16, _>(&Brim { wide: 1 }) },
        Group { name: "brim-T3-bytes", faults: 0, body: || bytes::<T3, _>(&Brim { wide: 1 }) },
        Group { name: "brim-T1-bytes", faults: 0, body: || bytes::<T1, _>(&Brim { wide: 1 }) },
        Group { name: "brim-C16", faults: 0, body: || plain::<C16, _>(&Brim { wide: 1 }) },
        Group { name: "near-T16", faults: 0, body: || own::<T16, _>(&Near { depth: 1 }) },
        Group { name: "near-C3", faults: 0, body: || plain::<C3, _>(&Near { depth: 1 }) },
        Group { name: "near-T3-bytes", faults: 0, body: || bytes::<T3, _>(&Near { depth: 1 }) },
    ];
    const ITERS: Iters = Iters { lens: &[3, 1, 8], steps: Steps { depth: 2, all: true }, rich: false };
    const ARRAYS: Arrays = Arrays { lens: &[0, 1, 2, 3, 4, 8], times: 1 };
    g.push(Group { name: "iterators-T16", faults: 0, body: || own::<T16, _>(&ITERS) });
    g.push(Group { name: "iterators-C3", faults: 0, body: || plain::<C3, _>(&ITERS) });
    g.push(Group { name: "arrays-T16", faults: 0, body: || own::<T16, _>(&ARRAYS) });
    g.push(Group { name: "arrays-T3-bytes", faults: 0, body: || bytes::<T3, _>(&ARRAYS) });
    g.push(Group { name: "long", faults: 0, body: || put(&Long, "long slice", 33, SliceVec::new(slots::<T16>(33))) });
    g.push(Group { name: "long-bytes", faults: 0, body: || put(&Long, "long slice of u8", 66, GenericVec::<T3, &mut UninitSlice<u8>>::with_storage(UninitSlice::from_mut(slots::<u8>(200)))) });
    g.push(Group { name: "big-TB", faults: 0, body: || own::<TB, _>(&Brim { wide: 1 }) });
    if t == Tier::Thorough {
        g.push(Group { name: "iterators-T3-bytes", faults: 0, body: || bytes::<T3, _>(&ITERS) });
        g.push(Group { name: "near2-T16", faults: 0, body: || own::<T16, _>(&Near { depth: 2 }) });
        g.push(Group { name: "near2-C3", faults: 0, body: || plain::<C3, _>(&Near { depth: 2 }) });
        g.push(Group { name: "near2-T3-bytes", faults: 0, body: || bytes::<T3, _>(&Near { depth: 2 }) });
        g.push(Group { name: "brim2-T16", faults: 0, body: || own::<T16, _>(&Brim { wide: 2 }) });
        g.push(Group { name: "brim2-C16", faults: 0, body: || plain::<C16, _>(&Brim { wide: 2 }) });
    }
    g
}

fn main() { run_main("P13", groups) }
