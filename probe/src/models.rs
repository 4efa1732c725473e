//! Reference bodies for provided methods of core traits, analysed in place of core's own (same contract).
//! The name is the path of the method, with `__` for `::`.
#![allow(non_snake_case)]

pub fn core__iter__Iterator__all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn core__iter__Iterator__any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn core__iter__Iterator__for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn core__iter__Iterator__position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = it.next() {
        if p(x) {
            return Some(n);
        }
        n += 1;
    }
    None
}
pub fn core__iter__Iterator__find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn core__iter__Iterator__count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() {
        n += 1;
    }
    n
}

pub fn core__iter__Iterator__fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn core__iter__Iterator__find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
pub fn core__iter__Iterator__last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}

// The following names are mapped to paths in engine/models.txt.
pub fn array_from_fn<T, const N: usize, F: FnMut(usize) -> T>(mut f: F) -> [T; N] {
    let mut a: [core::mem::MaybeUninit<T>; N] = [const { core::mem::MaybeUninit::uninit() }; N];
    let mut k = 0;
    while k < N {
        a[k] = core::mem::MaybeUninit::new(f(k));
        k += 1;
    }
    unsafe { core::mem::transmute_copy(&a) }
}
pub fn slice_clone_from_slice<T: Clone>(dst: &mut [T], src: &[T]) {
    if dst.len() != src.len() {
        panic!();
    }
    let mut k = 0;
    while k < dst.len() {
        dst[k].clone_from(&src[k]);
        k += 1;
    }
}
pub fn slice_fill_with<T, F: FnMut() -> T>(dst: &mut [T], mut f: F) {
    let mut k = 0;
    while k < dst.len() {
        dst[k] = f();
        k += 1;
    }
}
pub fn slice_fill<T: Clone>(dst: &mut [T], value: T) {
    let mut k = 0;
    while k < dst.len() {
        dst[k] = value.clone();
        k += 1;
    }
}

#[cfg(feature = "alloc")]
use alloc::{boxed::Box, vec::Vec};
#[cfg(feature = "alloc")]
use core::alloc::Allocator;
#[cfg(feature = "alloc")]
pub fn vec_from_elem<T: Clone>(elem: T, n: usize) -> Vec<T> {
    let mut v = Vec::new();
    let mut k = 1;
    while k < n {
        v.push(elem.clone());
        k += 1;
    }
    if n > 0 {
        v.push(elem);
    }
    v
}
#[cfg(feature = "alloc")]
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
#[cfg(feature = "alloc")]
pub fn box_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Box<[T]> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v.into_boxed_slice()
}
#[cfg(feature = "alloc")]
pub fn vec_extend<T, A: Allocator, I: IntoIterator<Item = T>>(v: &mut Vec<T, A>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
#[cfg(feature = "alloc")]
pub fn vec_resize_with<T, A: Allocator, F: FnMut() -> T>(v: &mut Vec<T, A>, n: usize, mut f: F) {
    v.truncate(n);
    while v.len() < n {
        v.push(f());
    }
}
#[cfg(feature = "alloc")]
pub fn vec_resize<T: Clone, A: Allocator>(v: &mut Vec<T, A>, n: usize, value: T) {
    v.truncate(n);
    while v.len() < n {
        v.push(value.clone());
    }
}

#[cfg(feature = "alloc")]
pub fn vec_iter_fold<T, A: Allocator, B, F: FnMut(B, T) -> B>(it: alloc::vec::IntoIter<T, A>, init: B, mut f: F) -> B {
    let mut it = it;
    let mut r = init;
    while let Some(x) = it.next() {
        r = f(r, x);
    }
    r
}
#[cfg(feature = "alloc")]
pub fn vec_truncate<T, A: Allocator>(v: &mut Vec<T, A>, n: usize) {
    while v.len() > n {
        let last = v.len() - 1;
        unsafe {
            v.set_len(last);
            core::ptr::drop_in_place(v.as_mut_ptr().add(last));
        }
    }
}
#[cfg(feature = "alloc")]
pub fn vec_extend_from_slice<T: Clone, A: Allocator>(v: &mut Vec<T, A>, from: &[T]) {
    let mut k = 0;
    while k < from.len() {
        v.push(from[k].clone());
        k += 1;
    }
}

pub fn array_map<T, const N: usize, F: FnMut(T) -> U, U>(a: [T; N], mut f: F) -> [U; N] {
    let a = core::mem::ManuallyDrop::new(a);
    let from = &*a as *const [T; N] as *const T;
    let mut r: [core::mem::MaybeUninit<U>; N] = [const { core::mem::MaybeUninit::uninit() }; N];
    let mut k = 0;
    while k < N {
        r[k] = core::mem::MaybeUninit::new(f(unsafe { from.add(k).read() }));
        k += 1;
    }
    unsafe { core::mem::transmute_copy(&r) }
}
