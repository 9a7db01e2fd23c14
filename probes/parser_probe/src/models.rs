//! Meaning of library functions that are written with raw pointers: the loops they amount to.
//! The dumper substitutes these bodies for the library's (same generic arguments).
use std::alloc::Allocator;
use std::ops::{ControlFlow, Try};
use std::slice::{Iter, IterMut};

pub fn model_vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it {
        v.push(x);
    }
    v
}
pub fn model_vec_extend<T, A: Allocator, I: IntoIterator<Item = T>>(v: &mut Vec<T, A>, it: I) {
    for x in it {
        v.push(x);
    }
}
pub fn model_vec_extend_ref<'a, T: Copy + 'a, A: Allocator, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T, A>, it: I)
where
    'a: 'a,
{
    for x in it {
        v.push(*x);
    }
}
pub fn model_string_from_iter<I: IntoIterator<Item = char>>(it: I) -> String {
    let mut v = String::new();
    for x in it {
        v.push(x);
    }
    v
}
pub fn model_string_extend<I: IntoIterator<Item = char>>(v: &mut String, it: I) {
    for x in it {
        v.push(x);
    }
}
pub fn model_string_from_strings<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut v = String::new();
    for x in it {
        v.push_str(&x);
    }
    v
}
pub fn model_string_extend_strings<I: IntoIterator<Item = String>>(v: &mut String, it: I) {
    for x in it {
        v.push_str(&x);
    }
}
pub fn model_string_from_strs<'a, I: IntoIterator<Item = &'a str>>(it: I) -> String
where
    'a: 'a,
{
    let mut v = String::new();
    for x in it {
        v.push_str(x);
    }
    v
}
pub fn model_string_extend_strs<'a, I: IntoIterator<Item = &'a str>>(v: &mut String, it: I)
where
    'a: 'a,
{
    for x in it {
        v.push_str(x);
    }
}
pub fn model_iter_fold<'a, T, B, F: FnMut(B, &'a T) -> B>(it: Iter<'a, T>, init: B, mut f: F) -> B
where
    'a: 'a,
{
    let mut acc = init;
    for x in it {
        acc = f(acc, x);
    }
    acc
}
pub fn model_iter_for_each<'a, T, F: FnMut(&'a T)>(it: Iter<'a, T>, mut f: F)
where
    'a: 'a,
{
    for x in it {
        f(x);
    }
}
pub fn model_iter_all<'a, T, F: FnMut(&'a T) -> bool>(it: &mut Iter<'a, T>, mut f: F) -> bool
where
    'a: 'a,
{
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn model_iter_any<'a, T, F: FnMut(&'a T) -> bool>(it: &mut Iter<'a, T>, mut f: F) -> bool
where
    'a: 'a,
{
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn model_iter_find<'a, T, F: FnMut(&&'a T) -> bool>(it: &mut Iter<'a, T>, mut f: F) -> Option<&'a T>
where
    'a: 'a,
{
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn model_iter_find_map<'a, T, B, F: FnMut(&'a T) -> Option<B>>(it: &mut Iter<'a, T>, mut f: F) -> Option<B>
where
    'a: 'a,
{
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
pub fn model_iter_position<'a, T, F: FnMut(&'a T) -> bool>(it: &mut Iter<'a, T>, mut f: F) -> Option<usize>
where
    'a: 'a,
{
    let mut i = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn model_iter_mut_for_each<'a, T, F: FnMut(&'a mut T)>(it: IterMut<'a, T>, mut f: F)
where
    'a: 'a,
{
    for x in it {
        f(x);
    }
}
pub fn model_iter_mut_fold<'a, T, B, F: FnMut(B, &'a mut T) -> B>(it: IterMut<'a, T>, init: B, mut f: F) -> B
where
    'a: 'a,
{
    let mut acc = init;
    for x in it {
        acc = f(acc, x);
    }
    acc
}
pub fn model_into_iter_fold<T, A: Allocator, B, F: FnMut(B, T) -> B>(it: std::vec::IntoIter<T, A>, init: B, mut f: F) -> B {
    let mut acc = init;
    for x in it {
        acc = f(acc, x);
    }
    acc
}
pub fn model_into_iter_try_fold<T, A: Allocator, B, F: FnMut(B, T) -> R, R: Try<Output = B>>(
    it: &mut std::vec::IntoIter<T, A>,
    init: B,
    mut f: F,
) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x).branch() {
            ControlFlow::Continue(c) => acc = c,
            ControlFlow::Break(r) => return R::from_residual(r),
        }
    }
    R::from_output(acc)
}
