//! Buffers lent to the library, surrounded by red zones.
use crate::alloc::{arena_alloc, retire, Kind};
use std::mem::{align_of, size_of, MaybeUninit};

/// A buffer of `n` slots of type `T`, filled with garbage.
pub fn slots<T>(n: usize) -> &'static mut [MaybeUninit<T>] {
    unsafe {
        let p = arena_alloc(n * size_of::<T>(), align_of::<T>(), Kind::Guard, 0);
        std::slice::from_raw_parts_mut(p as *mut MaybeUninit<T>, n)
    }
}

/// A buffer of `n` bytes at an address aligned to exactly `align`.
pub fn bytes(n: usize, align: usize) -> *mut u8 { arena_alloc(n, align, Kind::Guard, 0) }

/// A value living between red zones.
pub struct Placed<V> {
    ptr: *mut V,
}

impl<V> Placed<V> {
    pub fn new(v: V) -> Self {
        unsafe {
            let ptr = arena_alloc(size_of::<V>(), align_of::<V>(), Kind::Guard, 0) as *mut V;
            ptr.write(v);
            Placed { ptr }
        }
    }
    /// Moves the value out again.
    pub fn take(self) -> V {
        let p = self.ptr;
        std::mem::forget(self);
        unsafe {
            let v = p.read();
            retire(p as *mut u8);
            v
        }
    }
}

impl<V> std::ops::Deref for Placed<V> {
    type Target = V;
    fn deref(&self) -> &V { unsafe { &*self.ptr } }
}
impl<V> std::ops::DerefMut for Placed<V> {
    fn deref_mut(&mut self) -> &mut V { unsafe { &mut *self.ptr } }
}
impl<V> Drop for Placed<V> {
    fn drop(&mut self) {
        struct R(*mut u8);
        impl Drop for R {
            fn drop(&mut self) { retire(self.0) }
        }
        let _r = R(self.ptr as *mut u8);
        crate::lib(|| unsafe { std::ptr::drop_in_place(self.ptr) });
    }
}
