//! Storages made for one type that hold another.
use generic_vec::raw::{Storage, StorageWithCapacity, UninitBuffer, UninitSlice};
use generic_vec::{GenericVec, TypeVec};
use mc::guard::{slots, Placed};
use mc::ops::*;
use mc::tok::*;
use mc::*;
use std::mem::{align_of, size_of};

/// Slot types.
pub type B3 = [u8; 3];
pub type Q3 = [u64; 3];
#[repr(C, align(32))]
pub struct Wide([u8; 32]);
/// zero-sized, but aligned
pub type Z4 = [u32; 0];

fn floor<E>(bytes: usize) -> Option<usize> {
    if size_of::<E>() == 0 {
        None
    } else {
        Some(bytes / size_of::<E>())
    }
}

/// A vector over a buffer of known place and size: `at` is the address of the first byte, `bytes` how many there are.
fn exact<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, at: usize, bytes: usize) {
    let cap = floor::<E>(bytes);
    let mut m = W::new(cap);
    match cap {
        Some(c) => check!(v.capacity() == c, "the capacity is {}, but {} bytes hold {} elements of {}", v.capacity(), bytes, c, size_of::<E>()),
        None => check!(v.capacity() == usize::MAX, "the capacity for zero-sized elements is {}", v.capacity()),
    }
    check!(v.storage().capacity() == cap.unwrap_or(usize::MAX) || cap.is_none(), "the storage's capacity is {}", v.storage().capacity());
    let most = cap.unwrap_or(4);
    for i in 0..most {
        let (e, x) = mk::<E>();
        must("push", || drop(if i % 2 == 0 { v.try_push(e).map(|_| ()) } else { v.push(e); Ok(()) }));
        m.v.push(x);
        inside(v, &mut m, at, bytes)
    }
    if cap.is_some() {
        let (e, x) = mk::<E>();
        match must("try_push", || v.try_push(e).map(|_| ())) {
            Ok(()) => fail!("more than {} elements were accepted", most),
            Err(e) => same1("try_push", &e, x),
        }
        let (e, _) = mk::<E>();
        attempt(|| drop(v.push(e))).must_panic("push when full");
        check!(!must("try_reserve", || v.try_reserve(1)), "try_reserve when full");
        attempt(|| v.reserve(1)).must_panic("reserve when full");
        inside(v, &mut m, at, bytes)
    }
    if most > 0 {
        let e = must("remove", || v.remove(0));
        same1("remove", &e, m.v.remove(0));
        inside(v, &mut m, at, bytes);
        let (e, x) = mk::<E>();
        must("insert", || drop(v.insert(0, e)));
        m.v.insert(0, x);
        inside(v, &mut m, at, bytes);
        must("truncate", || v.truncate(most / 2));
        m.v.truncate(most / 2);
        let room = most - most / 2;
        check!(must("try_reserve", || v.try_reserve(room)), "try_reserve of the room there is");
        let (es, ms) = mks::<E>(room);
        must("extend_from_slice", || v.extend_from_slice(&es));
        m.v.extend(ms.iter().map(|x| M::fresh(x.val)));
        inside(v, &mut m, at, bytes);
    }
}

/// Every element is aligned and lies within the buffer.
fn inside<E: Elem, S: ?Sized + Storage<E>>(v: &GenericVec<E, S>, m: &mut W, at: usize, bytes: usize) { inside_slice(v.as_slice(), v.capacity(), m, at, bytes) }
#[inline(never)]
fn inside_slice<E: Elem>(s: &[E], cap: usize, m: &mut W, at: usize, bytes: usize) {
    same("contents", s, &mut m.v);
    check!(m.cap.map_or(true, |c| c == cap), "the capacity became {}", cap);
    alloc::check_all();
    state(engine::mix(m.v.len() as u64, cap as u64));
    for (i, e) in s.iter().enumerate() {
        let p = e as *const E as usize;
        check!(p % align_of::<E>() == 0, "element {} is at {:#x}, which is not aligned to {}", i, p, align_of::<E>());
        if size_of::<E>() != 0 {
            check!(p >= at && p + size_of::<E>() <= at + bytes, "element {} is outside the buffer", i);
            check!(p == at + i * size_of::<E>(), "element {} is not where it belongs", i);
        }
    }
}

fn must_refuse<R>(what: &str, f: impl FnOnce() -> R) { attempt(|| std::mem::forget(f())).must_panic(what) }

fn slice<S: 'static, E: Elem>() {
    let n = pick(&[4usize, 0, 1, 2, 3, 7]);
    if size_of::<E>() != 0 && n * size_of::<S>() / size_of::<E>() > 40 {
        return
    }
    let buf = slots::<S>(n);
    let at = buf.as_ptr() as usize;
    op!("a slice of {} slots of {} bytes aligned to {}, for elements of {} aligned to {}", n, size_of::<S>(), align_of::<S>(), size_of::<E>(), align_of::<E>());
    let s: &mut UninitSlice<S> = UninitSlice::from_mut(buf);
    if align_of::<S>() >= align_of::<E>() {
        match choose(3) {
            0 => exact(&mut must("with_storage", || GenericVec::<E, &mut UninitSlice<S>>::with_storage(s)), at, n * size_of::<S>()),
            1 => exact(&mut must("from_raw_parts", || unsafe { GenericVec::<E, &mut UninitSlice<S>>::from_raw_parts(0, s) }), at, n * size_of::<S>()),
            _ => {
                let mut r = s;
                exact(&mut must("with_storage", || GenericVec::<E, &mut &mut UninitSlice<S>>::with_storage(&mut r)), at, n * size_of::<S>());
            }
        }
    } else {
        match choose(3) {
            0 => must_refuse("with_storage of a slice", || GenericVec::<E, &mut UninitSlice<S>>::with_storage(s).capacity()),
            1 => must_refuse("from_raw_parts of a slice", || unsafe { GenericVec::<E, &mut UninitSlice<S>>::from_raw_parts(0, s).capacity() }),
            _ => {
                let mut r = s;
                must_refuse("with_storage of a borrowed slice", || GenericVec::<E, &mut &mut UninitSlice<S>>::with_storage(&mut r).capacity());
            }
        }
    }
}

fn buffer<B, A, E: Elem>() {
    let align = align_of::<B>().max(align_of::<A>());
    let bytes = (size_of::<B>() + align - 1) / align * align;
    op!("a buffer of {} bytes aligned to {}, for elements of {} aligned to {}", bytes, align, size_of::<E>(), align_of::<E>());
    if align >= align_of::<E>() {
        let said = UninitBuffer::<B, A>::capacity::<E>();
        check!(said == floor::<E>(bytes).unwrap_or(usize::MAX), "UninitBuffer::capacity says {}", said);
        let make = choose(6);
        if make == 5 {
            let mut s = Placed::new(UninitBuffer::<B, A>::uninit());
            let at = &*s as *const _ as usize;
            exact(&mut GenericVec::<E, &mut UninitBuffer<B, A>>::with_storage(&mut *s), at, bytes);
            return
        }
        let v: TypeVec<E, B, A> = must("making it", || match make {
            0 => TypeVec::with_align(),
            1 => GenericVec::with_storage(UninitBuffer::uninit()),
            2 => GenericVec::with_capacity(floor::<E>(bytes).unwrap_or(usize::MAX)),
            3 => GenericVec::default(),
            _ => unsafe { GenericVec::from_raw_parts(0, UninitBuffer::uninit()) },
        });
        let mut p = Placed::new(v);
        let at = p.storage() as *const UninitBuffer<B, A> as usize;
        exact(&mut *p, at, bytes);
        if size_of::<E>() != 0 {
            attempt(|| drop(TypeVec::<E, B, A>::with_capacity(bytes / size_of::<E>() + 1))).must_panic("with_capacity beyond the buffer")
        }
    } else {
        match choose(6) {
            0 => must_refuse("with_align", || TypeVec::<E, B, A>::with_align().capacity()),
            1 => must_refuse("with_storage of a buffer", || GenericVec::<E, UninitBuffer<B, A>>::with_storage(UninitBuffer::uninit()).capacity()),
            2 => must_refuse("with_capacity of a buffer", || GenericVec::<E, UninitBuffer<B, A>>::with_capacity(0).capacity()),
            3 => must_refuse("default of a buffer", || GenericVec::<E, UninitBuffer<B, A>>::default().capacity()),
            4 => must_refuse("from_raw_parts of a buffer", || unsafe { GenericVec::<E, UninitBuffer<B, A>>::from_raw_parts(0, UninitBuffer::uninit()).capacity() }),
            _ => {
                let mut v = GenericVec::with_storage(spy::Spy::<E>::new(1, usize::MAX));
                let (e, x) = mk::<E>();
                let mut m = W::new(None);
                must("push", || drop(v.push(e)));
                m.v.push(x);
                must_refuse("split_off into an unaligned buffer", || v.split_off::<UninitBuffer<B, A>>(1).capacity());
                same("split_off into an unaligned buffer", &v, &mut m.v)
            }
        }
    }
}

#[cfg(feature = "alloc")]
fn heap<S: 'static, E: Elem>() {
    use generic_vec::raw::Heap;
    let aligned = align_of::<S>() >= align_of::<E>();
    op!("heap slots of {} bytes aligned to {}, for elements of {} aligned to {}", size_of::<S>(), align_of::<S>(), size_of::<E>(), align_of::<E>());
    if !aligned {
        return match choose(6) {
            0 => must_refuse("with_storage of a heap", || GenericVec::<E, Heap<S>>::with_storage(Heap::new()).capacity()),
            1 => must_refuse("with_capacity of a heap", || GenericVec::<E, Heap<S>>::with_capacity(0).capacity()),
            2 => must_refuse("default of a heap", || GenericVec::<E, Heap<S>>::default().capacity()),
            3 => must_refuse("from_raw_parts of a heap", || unsafe { GenericVec::<E, Heap<S>>::from_raw_parts(0, Heap::new()).capacity() }),
            4 => must_refuse("with_storage of a boxed heap", || GenericVec::<E, Box<Heap<S>>>::with_capacity(0).capacity()),
            _ => {
                let mut v = GenericVec::with_storage(spy::Spy::<E>::new(1, usize::MAX));
                let (e, x) = mk::<E>();
                let mut m = W::new(None);
                must("push", || drop(v.push(e)));
                m.v.push(x);
                must_refuse("split_off into an unaligned heap", || v.split_off::<Heap<S>>(1).capacity());
                same("split_off into an unaligned heap", &v, &mut m.v)
            }
        }
    }
    let zst = size_of::<S>() == 0 && size_of::<E>() != 0;
    let n = pick(&[0usize, 1, 2, 3, 5, 8]);
    if zst && n > 0 {
        // slots without size cannot hold anything
        attempt(|| drop(GenericVec::<E, Heap<S>>::with_capacity(n))).must_panic("with_capacity over slots without size");
        let mut v = GenericVec::<E, Heap<S>>::with_storage(Heap::new());
        let mut m = W::new(Some(0));
        check!(v.capacity() == 0, "slots without size have capacity {}", v.capacity());
        let (e, x) = mk::<E>();
        match must("try_push", || v.try_push(e).map(|_| ())) {
            Ok(()) => fail!("an element was accepted without room"),
            Err(e) => same1("try_push", &e, x),
        }
        let (e, _) = mk::<E>();
        attempt(|| drop(v.push(e))).must_panic("push without room");
        check!(!must("try_reserve", || v.try_reserve(n)), "try_reserve without room");
        attempt(|| v.reserve(n)).must_panic("reserve without room");
        inside(&v, &mut m, 0, 0);
        return
    }
    let mut v = must("with_capacity", || GenericVec::<E, Heap<S>>::with_capacity(n));
    let mut m = W::new(if zst { Some(0) } else { None });
    if size_of::<E>() == 0 {
        check!(v.capacity() == usize::MAX, "the capacity for zero-sized elements is {}", v.capacity())
    } else if !zst {
        // whole slots, as few as will do
        let slots = (n * size_of::<E>() + size_of::<S>() - 1) / size_of::<S>();
        let cap = slots * size_of::<S>() / size_of::<E>();
        check!(v.capacity() == cap, "with_capacity({}) gives {} but {} slots hold {}", n, v.capacity(), slots, cap);
        // and what it says must be there
        for _ in 0..cap {
            let (e, x) = mk::<E>();
            if let Err(_) = must("try_push", || v.try_push(e).map(|_| ())) {
                fail!("refused although there is room")
            }
            m.v.push(x)
        }
        let at = v.as_ptr() as usize;
        inside(&v, &mut m, at, slots * size_of::<S>());
        check!(alloc::allocs().allocs == (slots > 0) as u64, "{} allocations", alloc::allocs().allocs);
    }
    if !zst {
        for k in 0..3 {
            let (e, x) = mk::<E>();
            let i = m.len() / 2;
            must("insert", || drop(v.insert(i, e)));
            m.v.insert(i, x);
            let want = [1usize, 4, 3][k];
            if flag() {
                must("reserve", || v.reserve(want))
            } else {
                check!(must("try_reserve", || v.try_reserve(want)), "try_reserve was refused")
            }
            check!(v.capacity() - v.len() >= want, "room for {} was reserved, but there is room for {}", want, v.capacity() - v.len());
            let room = v.capacity().min(m.len() + want + 3) - m.len();
            let a = alloc::allocs().allocs;
            for _ in 0..room {
                let (e, x) = mk::<E>();
                if let Err(_) = must("try_push", || v.try_push(e).map(|_| ())) {
                    fail!("refused although there is room")
                }
                m.v.push(x)
            }
            check!(alloc::allocs().allocs == a, "filling the reserved room allocated");
            let at = v.as_ptr() as usize;
            let n = m.len() * size_of::<E>();
            inside(&v, &mut m, at, n);
        }
    }
    lib(|| drop(v));
}
#[cfg(not(feature = "alloc"))]
fn heap<S: 'static, E: Elem>() { buffer::<S, u8, E>() }

fn slot<E: Elem>() {
    match choose(21) {
        0 => slice::<u8, E>(),
        1 => slice::<B3, E>(),
        2 => slice::<u64, E>(),
        3 => slice::<Q3, E>(),
        4 => slice::<Wide, E>(),
        5 => slice::<(), E>(),
        6 => slice::<Z4, E>(),
        7 => buffer::<[u8; 10], u8, E>(),
        8 => buffer::<[u8; 10], u64, E>(),
        9 => buffer::<[u16; 9], u32, E>(),
        10 => buffer::<B3, Wide, E>(),
        11 => buffer::<(), u64, E>(),
        12 => buffer::<u32, Q3, E>(),
        13 => buffer::<Wide, u8, E>(),
        14 => heap::<u8, E>(),
        15 => heap::<B3, E>(),
        16 => heap::<u64, E>(),
        17 => heap::<Q3, E>(),
        18 => heap::<Wide, E>(),
        19 => heap::<(), E>(),
        _ => heap::<Z4, E>(),
    }
}

/// Asking for so much that the conversion between slot sizes overflows must not end in a small storage.
fn huge() {
    fn one<S: StorageWithCapacity<E>, E: Elem>() {
        let z = size_of::<E>();
        let n = [usize::MAX, usize::MAX / z, (usize::MAX / z).saturating_add(1), usize::MAX / 2, isize::MAX as usize / z + 1, (1 << 63) / z + 1, (1 << 62) + 1, usize::MAX - 1][choose(8)];
        op!("with_capacity({}) of elements of {} bytes", n, z);
        attempt(|| drop(GenericVec::<E, S>::with_capacity(n))).must_panic("with_capacity of more than the address space");
        let mut v = GenericVec::<E, S>::default();
        check!(!must("try_reserve", || v.try_reserve(n)), "try_reserve({}) claims to have succeeded, capacity {}", n, v.capacity());
        attempt(|| v.reserve(n)).must_panic("reserve of more than the address space");
    }
    match choose(6) {
        0 => one::<UninitBuffer<[u8; 9]>, T1>(),
        1 => one::<UninitBuffer<[u8; 9], u64>, T16>(),
        2 => one::<spy::Spy<T3>, T3>(),
        #[cfg(feature = "alloc")]
        3 => one::<generic_vec::raw::Heap<Wide>, T3>(),
        #[cfg(feature = "alloc")]
        4 => one::<generic_vec::raw::Heap<u64>, T16>(),
        #[cfg(feature = "alloc")]
        5 => one::<generic_vec::raw::Heap<Q3>, T16>(),
        _ => (),
    }
}

fn groups(_: Tier) -> Vec<Group> {
    vec![
        #[cfg(feature = "deep")]
        Group { name: "T1", faults: 0, body: slot::<T1> },
        Group { name: "T3", faults: 0, body: slot::<T3> },
        #[cfg(feature = "deep")]
        Group { name: "T4", faults: 0, body: slot::<T4> },
        Group { name: "T16", faults: 0, body: slot::<T16> },
        Group { name: "T32", faults: 0, body: slot::<T32> },
        Group { name: "TZ", faults: 0, body: slot::<TZ> },
        Group { name: "CZA", faults: 0, body: slot::<CZA> },
        Group { name: "huge", faults: 0, body: huge },
    ]
}

fn main() { run_main("P23", groups) }
