//! Capability lists.  `root_*` walks the list through the library, `want_*` builds what must come
//! out from the decoders alone; the analyzer compares the two.
use crate::roots::any_header;
use crate::{assume, fix, h, input, obs, step, sym, tag, Obs};
use core::convert::TryFrom;
use pcics::capabilities::CapabilityKind as Kind;
use pcics::capabilities::*;
use pcics::extended_capabilities::ExtendedCapabilityKind as EKind;
use pcics::extended_capabilities::*;
use pcics::header::*;
use pcics::{Header, Capabilities, ExtendedCapabilities};

const NEXT: u64 = step(0, h("next"));
const ID: u64 = step(0, h("id"));
const THIRD: u64 = step(0, h("third"));

/// Everything from `off` on, if at least the header of `n` bytes can be read there.
#[inline(always)]
fn from(data: &[u8], base: usize, off: usize, n: usize) -> Option<&[u8]> {
    if off < base || data.len() < off - base + n {
        None
    } else {
        data.get(off - base..)
    }
}
/// What a list walker must produce at `ptr` when it finds a null capability there.
#[inline(always)]
fn want_null<'a>(data: &'a [u8], ptr: u8) -> Option<Result<Capability<'a>, CapabilityError>> {
    if ptr == 0 {
        None
    } else if ptr < 0x40 {
        Some(Err(CapabilityError::Pointer))
    } else if from(data, 0x40, ptr as usize, 2).is_none() {
        Some(Err(CapabilityError::Header { ptr }))
    } else {
        Some(Ok(Capability { pointer: ptr, kind: Kind::NullCapability }))
    }
}
#[inline(always)]
fn header(fixed: bool) -> Option<Header> {
    let mut hdr = any_header()?;
    if fixed {
        hdr.capabilities_pointer = 0x54;
    }
    Some(hdr)
}
/// The capability at `ptr` has a certain ID, the next one is a null capability.  `fixed`: for
/// structures whose own extent varies, the position is one arbitrary constant.
#[inline(always)]
fn given(data: &[u8], ptr: u8, is: impl Fn(u8) -> bool) {
    if let Some(s) = from(data, 0x40, ptr as usize, 2) {
        assume(is(s[0]));
        if let Some(t) = from(data, 0x40, (s[1] & 0xfc) as usize, 2) {
            assume(t[0] == 0);
        }
    }
}
/// Three members with the same ID, not in ascending order.
const CHAIN: [usize; 3] = [0x48, 0xa0, 0x78];
const ECHAIN: [usize; 3] = [0x100, 0x240, 0x180];
const PLACES: [u64; 4] = [0, NEXT, THIRD, step(0, h("fourth"))];
#[inline(always)]
fn chain_header(is: impl Fn(u8) -> bool) -> Option<Header> {
    let mut hdr = any_header()?;
    hdr.capabilities_pointer = 0x48;
    let mut k = 0;
    while k < 3 {
        let at = CHAIN[k] - 0x40;
        fix(0, at as u64 + 1, if k < 2 { CHAIN[k + 1] as u8 | k as u8 } else { 0 });
        if let Some(&id) = input(0).get(at) {
            assume(is(id));
        }
        if is(0x14) {
            // Enhanced Allocation with one entry
            fix(0, at as u64 + 2, 1);
        }
        k += 1;
    }
    Some(hdr)
}
macro_rules! cap { ($root:ident, $want:ident, $root3:ident, $want3:ident, $fixed:expr, |$a:ident| $is:expr, |$id:ident, $rest:ident, $hdr:ident, $ptr:ident| $e:expr) => {
    #[no_mangle]
    pub extern "C" fn $root() {
        if let Some(hdr) = header($fixed) {
            let data = input(0);
            given(data, hdr.capabilities_pointer & 0xfc, |$a| $is);
            let mut it = Capabilities::new(data, &hdr);
            it.next().obs(0);
            it.next().obs(NEXT);
        }
    }
    #[no_mangle]
    #[allow(unused_variables)]
    pub extern "C" fn $want() {
        if let Some(hdr) = header($fixed) {
            let data = input(0);
            let $ptr = hdr.capabilities_pointer & 0xfc;
            given(data, $ptr, |$a| $is);
            let $hdr = &hdr;
            let (first, next): (Option<Result<Capability, CapabilityError>>, u8) = if $ptr == 0 {
                (None, 0)
            } else if $ptr < 0x40 {
                (Some(Err(CapabilityError::Pointer)), 0)
            } else {
                match from(data, 0x40, $ptr as usize, 2) {
                    None => (Some(Err(CapabilityError::Header { ptr: $ptr })), 0),
                    Some(s) => {
                        let $id = s[0];
                        let $rest = &s[2..];
                        let k: Result<Kind, CapabilityError> = $e;
                        (Some(k.map(|kind| Capability { pointer: $ptr, kind })), s[1] & 0xfc)
                    }
                }
            };
            first.obs(0);
            want_null(data, next).obs(NEXT);
        }
    }
    #[no_mangle]
    pub extern "C" fn $root3() {
        if let Some(hdr) = chain_header(|$a| $is) {
            let mut it = Capabilities::new(input(0), &hdr);
            for p in PLACES {
                it.next().obs(p);
            }
        }
    }
    #[no_mangle]
    #[allow(unused_variables)]
    pub extern "C" fn $want3() {
        if let Some(hdr) = chain_header(|$a| $is) {
            let $hdr = &hdr;
            let mut k = 0;
            while k < 3 {
                let $ptr = CHAIN[k] as u8;
                match from(input(0), 0x40, CHAIN[k], 2) {
                    None => {
                        Some(Err::<Capability, _>(CapabilityError::Header { ptr: $ptr })).obs(PLACES[k]);
                        break;
                    }
                    Some(s) => {
                        let $id = s[0];
                        let $rest = &s[2..];
                        let m: Result<Kind, CapabilityError> = $e;
                        Some(m.map(|kind| Capability { pointer: $ptr, kind })).obs(PLACES[k]);
                    }
                }
                k += 1;
            }
            while k < 3 {
                k += 1;
                None::<Result<Capability, CapabilityError>>.obs(PLACES[k]);
            }
            None::<Result<Capability, CapabilityError>>.obs(PLACES[3]);
        }
    }
} }
#[inline(always)]
fn dword(s: &[u8]) -> u32 {
    u32::from_le_bytes([s[0], s[1], s[2], s[3]])
}
#[inline(always)]
fn nxt(d: u32) -> usize {
    (d >> 20) as usize & 0xffc
}
/// The first extended capability is a null one with a non-zero header; the second, anywhere, has
/// the given ID; the third is a null one.
#[inline(always)]
fn egiven(data: &[u8], is: impl Fn(u32) -> bool, fixed: bool) {
    if fixed {
        // version 1, next at 0x140
        fix(0, 0, 0);
        fix(0, 1, 0);
        fix(0, 2, 1);
        fix(0, 3, 0x14);
    }
    if let Some(s) = from(data, 0x100, 0x100, 4) {
        let d = dword(s);
        assume(d & 0xffff == 0 && d != 0);
        if let Some(s) = from(data, 0x100, nxt(d), 4) {
            let d = dword(s);
            assume(is(d));
            if let Some(s) = from(data, 0x100, nxt(d), 4) {
                assume(dword(s) as u16 == 0);
            }
        }
    }
}
#[inline(always)]
fn echain(is: impl Fn(u32) -> bool) {
    let mut k = 0;
    while k < 3 {
        let at = ECHAIN[k] - 0x100;
        let next = if k < 2 { ECHAIN[k + 1] | k } else { 0 };
        fix(0, at as u64 + 2, 1 | (next as u8 & 15) << 4);
        fix(0, at as u64 + 3, (next >> 4) as u8);
        if let Some(s) = from(input(0), 0x100, ECHAIN[k], 4) {
            assume(is(dword(s)));
        }
        if is(8) && !is(9) {
            // multi-function virtual channels: one channel, no tables
            fix(0, at as u64 + 4, 0);
            fix(0, at as u64 + 0xb, 0);
            fix(0, at as u64 + 0x13, 0);
        }
        k += 1;
    }
}
macro_rules! ecap { ($root:ident, $want:ident, $root3:ident, $want3:ident, $fixed:expr, |$a:ident| $is:expr, |$id:ident, $whole:ident, $rest:ident, $offset:ident| $e:expr) => {
    #[no_mangle]
    pub extern "C" fn $root() {
        let data = input(0);
        egiven(data, |$a| $is, $fixed);
        let mut it = ExtendedCapabilities::new(data);
        it.next().obs(0);
        let second = it.next();
        if let Some(Ok(c)) = &second {
            c.id().obs(ID);
        }
        second.obs(NEXT);
        it.next().obs(THIRD);
    }
    #[no_mangle]
    #[allow(unused_variables)]
    pub extern "C" fn $want() {
        let data = input(0);
        egiven(data, |$a| $is, $fixed);
        let (first, next) = want_enull(data, 0x100);
        first.obs(0);
        let $offset = next as u16;
        let mut id = 0u16;
        let (second, next): (Option<Result<ExtendedCapability, ExtendedCapabilityError>>, usize) = if next == 0 {
            (None, 0)
        } else if next < 0x100 {
            (Some(Err(ExtendedCapabilityError::Offset)), 0)
        } else {
            match from(data, 0x100, next, 4) {
                None => (Some(Err(ExtendedCapabilityError::Header { offset: $offset })), 0),
                Some($whole) => {
                    let d = dword($whole);
                    if d == 0 {
                        (None, 0)
                    } else {
                        let $id = d as u16;
                        id = d as u16;
                        let $rest = &$whole[4..];
                        let k: Result<EKind, ExtendedCapabilityError> = $e;
                        (Some(k.map(|kind| ExtendedCapability { kind, version: (d >> 16) as u8 & 15, offset: $offset })), nxt(d))
                    }
                }
            }
        };
        if let Some(Ok(_)) = &second {
            id.obs(ID);
        }
        second.obs(NEXT);
        want_enull(data, next).0.obs(THIRD);
    }
    #[no_mangle]
    pub extern "C" fn $root3() {
        echain(|$a| $is);
        let mut it = ExtendedCapabilities::new(input(0));
        for p in PLACES {
            it.next().obs(p);
        }
    }
    #[no_mangle]
    #[allow(unused_variables)]
    pub extern "C" fn $want3() {
        echain(|$a| $is);
        let mut k = 0;
        while k < 3 {
            let $offset = ECHAIN[k] as u16;
            match from(input(0), 0x100, ECHAIN[k], 4) {
                None => {
                    Some(Err::<ExtendedCapability, _>(ExtendedCapabilityError::Header { offset: $offset })).obs(PLACES[k]);
                    break;
                }
                Some($whole) => {
                    let $id = dword($whole) as u16;
                    let $rest = &$whole[4..];
                    let m: Result<EKind, ExtendedCapabilityError> = $e;
                    Some(m.map(|kind| ExtendedCapability { kind, version: 1, offset: $offset })).obs(PLACES[k]);
                }
            }
            k += 1;
        }
        while k < 3 {
            k += 1;
            None::<Result<ExtendedCapability, ExtendedCapabilityError>>.obs(PLACES[k]);
        }
        None::<Result<ExtendedCapability, ExtendedCapabilityError>>.obs(PLACES[3]);
    }
} }
/// What must come out at offset `off` if the capability there is a null one, and where the list
/// goes on.
#[inline(always)]
fn want_enull<'a>(data: &'a [u8], off: usize) -> (Option<Result<ExtendedCapability<'a>, ExtendedCapabilityError>>, usize) {
    let offset = off as u16;
    if off == 0 {
        (None, 0)
    } else if off < 0x100 {
        (Some(Err(ExtendedCapabilityError::Offset)), 0)
    } else {
        match from(data, 0x100, off, 4) {
            None => (Some(Err(ExtendedCapabilityError::Header { offset })), 0),
            Some(s) => {
                let d = dword(s);
                if d == 0 {
                    (None, 0)
                } else {
                    (Some(Ok(ExtendedCapability { kind: EKind::Null, version: (d >> 16) as u8 & 15, offset })), nxt(d))
                }
            }
        }
    }
}

#[path = "lists_gen.rs"]
mod gen;
