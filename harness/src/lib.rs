//! Observation harness.  Nothing in here is ever executed: the crate is only compiled, and its
//! IR (together with that of pcics and its dependencies) is what the analyzer reads.
//!
//! * `vf_ptr`/`vf_len` name an input byte region of unknown content and length;
//! * `vf_sym` names an unknown integer;
//! * `vf_obs*` mark a value a user of the library can see, under a path (a hash of field names);
//! * every `root_*` function is an entry point of the analysis.
#![no_std]
#![allow(clippy::all)]

extern "C" {
    fn vf_ptr(id: u32) -> *const u8;
    fn vf_len(id: u32) -> usize;
    fn vf_sym(id: u32, bits: u32) -> u64;
    fn vf_assume(c: bool);
    fn vf_fix(id: u32, off: u64, val: u8);
    fn vf_obs(path: u64, value: u64, width: u32);
    fn vf_obs_slice(path: u64, ptr: *const u8, len: usize);
    fn vf_havoc(ptr: *mut u8, size: u64, tag: u32);
    fn vf_snap(ptr: *const u8, size: u64, tag: u32);
}

#[inline(always)]
pub fn input<'a>(id: u32) -> &'a [u8] {
    unsafe { core::slice::from_raw_parts(vf_ptr(id), vf_len(id)) }
}
#[inline(always)]
pub fn sym(id: u32, bits: u32) -> u64 {
    unsafe { vf_sym(id, bits) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vf_assume(c) }
}
/// The data, known to hold complete entries of `n` bytes (a power of two) only.
#[inline(always)]
pub fn whole(d: &[u8], n: usize) -> &[u8] {
    assume(d.len() & (n - 1) == 0);
    d
}
/// Byte `off` of region `id` has this value.
#[inline(always)]
pub fn fix(id: u32, off: u64, val: u8) {
    unsafe { vf_fix(id, off, val) }
}
#[inline(always)]
pub fn havoc<T>(x: &mut T, tag: u32) {
    unsafe { vf_havoc(x as *mut T as *mut u8, core::mem::size_of::<T>() as u64, tag) }
}
#[inline(always)]
pub fn snap<T>(x: &T, tag: u32) {
    unsafe { vf_snap(x as *const T as *const u8, core::mem::size_of::<T>() as u64, tag) }
}
#[inline(always)]
pub fn obs(p: u64, v: u64, w: u32) {
    unsafe { vf_obs(p, v, w) }
}
/// 64-bit FNV-1a of a name.
pub const fn h(s: &str) -> u64 {
    let b = s.as_bytes();
    let mut x: u64 = 0xcbf29ce484222325;
    let mut i = 0;
    while i < b.len() {
        x ^= b[i] as u64;
        x = x.wrapping_mul(0x100000001b3);
        i += 1;
    }
    x
}
#[inline(always)]
pub const fn step(p: u64, name: u64) -> u64 {
    p.rotate_left(7) ^ name
}
/// Path of the `i`-th element.
#[inline(always)]
pub const fn at(p: u64, i: usize) -> u64 {
    step(p, h("[]").wrapping_add((i as u64).wrapping_mul(0x9e3779b97f4a7c15)))
}
/// Path of the `i`-th item of an iterator.
#[inline(always)]
pub const fn nth(p: u64, i: usize) -> u64 {
    step(p, h("#").wrapping_add((i as u64).wrapping_mul(0x9e3779b97f4a7c15)))
}
#[inline(always)]
pub fn tag(p: u64, variant: u64) {
    obs(p, variant & 0xffff_ffff, 32)
}

/// Only to name paths while the tables are being written.
#[inline(always)]
pub fn mark(_p: u64) {
    #[cfg(feature = "mark")]
    obs(_p, 0, 0)
}

pub trait Obs {
    fn obs(&self, p: u64);
}
macro_rules! ints { ($($t:ty, $w:expr;)*) => { $(impl Obs for $t {
    #[inline(always)]
    fn obs(&self, p: u64) { obs(p, *self as u64, $w) }
})* } }
ints! { u8, 8; u16, 16; u32, 32; u64, 64; usize, 64; bool, 1; }
impl Obs for f32 {
    #[inline(always)]
    fn obs(&self, p: u64) {
        obs(p, self.to_bits() as u64, 32)
    }
}
impl Obs for f64 {
    #[inline(always)]
    fn obs(&self, p: u64) {
        obs(p, self.to_bits(), 64)
    }
}
impl Obs for () {
    fn obs(&self, _: u64) {}
}
impl<'a> Obs for &'a [u8] {
    #[inline(always)]
    fn obs(&self, p: u64) {
        unsafe { vf_obs_slice(p, self.as_ptr(), self.len()) }
    }
}
impl<'a> Obs for &'a str {
    #[inline(always)]
    fn obs(&self, p: u64) {
        unsafe { vf_obs_slice(p, self.as_ptr(), self.len()) }
    }
}
impl<T: Obs> Obs for Option<T> {
    #[inline(always)]
    fn obs(&self, p: u64) {
        match self {
            None => tag(p, h("None")),
            Some(x) => {
                tag(p, h("Some"));
                x.obs(step(p, h("Some")));
            }
        }
    }
}
impl<T: Obs, E: Obs> Obs for Result<T, E> {
    #[inline(always)]
    fn obs(&self, p: u64) {
        match self {
            Ok(x) => {
                tag(p, h("Ok"));
                x.obs(step(p, h("Ok")));
            }
            Err(x) => {
                tag(p, h("Err"));
                x.obs(step(p, h("Err")));
            }
        }
    }
}
impl<T: Obs, const N: usize> Obs for [T; N] {
    #[inline(always)]
    fn obs(&self, p: u64) {
        for i in 0..N {
            self[i].obs(at(p, i));
        }
    }
}
impl<A: Obs, B: Obs> Obs for (A, B) {
    #[inline(always)]
    fn obs(&self, p: u64) {
        self.0.obs(step(p, h("0")));
        self.1.obs(step(p, h("1")));
    }
}
impl<A: Obs, B: Obs, C: Obs> Obs for (A, B, C) {
    #[inline(always)]
    fn obs(&self, p: u64) {
        self.0.obs(step(p, h("0")));
        self.1.obs(step(p, h("1")));
        self.2.obs(step(p, h("2")));
    }
}
impl Obs for core::array::TryFromSliceError {
    fn obs(&self, _: u64) {}
}

/// The first `n` items; `#i` is Some/None, nothing after the first None.
#[inline(never)]
pub fn obs_iter<I: Iterator>(mut it: I, p: u64, n: usize)
where
    I::Item: Obs,
{
    let mut i = 0;
    while i < n {
        match it.next() {
            None => {
                tag(nth(p, i), h("None"));
                return;
            }
            Some(x) => {
                tag(nth(p, i), h("Some"));
                x.obs(step(nth(p, i), h("Some")));
            }
        }
        i += 1;
    }
    tag(nth(p, n), if it.next().is_none() { h("None") } else { h("Some") });
}
/// How many items an iterator that is part of a larger observation shows.
const PEEK: usize = 2;

pub mod access;
pub mod class;
pub mod consts;
pub mod values;
pub mod ends;
pub mod hand;
pub mod lists;
pub mod obs;
pub mod roots;
pub mod same;
pub mod steps;
pub mod items;
