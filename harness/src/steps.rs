//! Skipping, counting and sizing an iteration agree with stepping through it.
use crate::{assume, fix, h, input, nth, obs_iter, step, sym, tag, whole, Obs};
use pcics::capabilities::*;
use pcics::extended_capabilities::*;
use pcics::header::*;
use pcics::{Capabilities, ExtendedCapabilities};

const COUNT: u64 = step(0, h("count"));
const LAST: u64 = step(0, h("last"));
const ALL: u64 = step(0, h("for_each"));
const HINT: u64 = step(0, h("size_hint"));
const SKIP: u64 = step(0, h("nth"));
const THEN: u64 = step(0, h("then"));
const PAST: u64 = step(0, h("nth past the end"));
const REST: u64 = step(0, h("after the end"));

#[inline(always)]
fn data<'a>(n: usize) -> &'a [u8] {
    let d = input(0);
    assume(d.len() <= n);
    d
}
fn take<I: Iterator>(mut it: I, n: usize) -> usize {
    let mut k = 0;
    while k < n {
        if it.next().is_none() {
            return k;
        }
        k += 1;
    }
    k
}
/// Byte `i`, if there, is one of these.
#[inline(always)]
pub fn among(d: &[u8], i: usize, v: &[u8]) {
    if let Some(b) = d.get(i) {
        let mut ok = false;
        let mut k = 0;
        while k < v.len() {
            ok |= *b == v[k];
            k += 1;
        }
        assume(ok);
    }
}
/// Any chain through three capabilities, ended early, broken or cut anywhere.
#[inline(always)]
pub fn chain<'a>(r: u32) -> &'a [u8] {
    let d = input(r);
    assume(d.len() <= 12);
    among(d, 0, &[0, 7, 0x0b, 0xfe]);
    among(d, 1, &[0, 0x3c, 0x44, 0x48, 0x4c]);
    among(d, 4, &[0, 0x0b, 0xfe]);
    among(d, 5, &[0, 0x3c, 0x48, 0x4c]);
    among(d, 8, &[0, 0x0b, 0xfe]);
    among(d, 9, &[0, 0x3c, 0x4c]);
    d
}
/// Any chain through three extended capabilities, ended early, broken or cut anywhere.
#[inline(always)]
pub fn echain<'a>(r: u32) -> &'a [u8] {
    let d = input(r);
    assume(d.len() <= 12);
    let mut i = 0;
    while i < 12 {
        among(d, i, &[0, 0x34]);
        among(d, i + 1, &[0]);
        among(d, i + 3, &[0, 0x0f, 0x10]);
        i += 4;
    }
    among(d, 2, &[0, 1, 0x41, 0x81, 0xc1]);
    among(d, 6, &[0, 1, 0x81, 0xc1]);
    among(d, 10, &[0, 1, 0xc1]);
    // only forwards
    if d.len() >= 4 { assume(d[3] != 0x10 || d[2] >= 0x41) }
    if d.len() >= 8 { assume(d[7] != 0x10 || d[6] >= 0x81) }
    if d.len() >= 12 { assume(d[11] != 0x10 || d[10] >= 0xc1) }
    d
}
macro_rules! steps { ($($s:ident $sw:ident $c:ident $cw:ident $k:literal $n:expr, $h:expr, |$hdr:ident| $it:expr;)*) => { $(
    // skip k items, then go on
    #[no_mangle]
    pub extern "C" fn $s() {
        let hdr = $h;
        let new = || {
            let $hdr = &hdr;
            $it
        };
        {
            let mut p = 0;
            while p < 2 {
                let mut k = 0;
                while k < $k {
                    let mut it = new();
                    take(&mut it, p);
                    it.nth(k).obs(nth(nth(SKIP, p), k));
                    it.next().obs(nth(nth(THEN, p), k));
                    k += 1;
                }
                let mut it = new();
                take(&mut it, p);
                it.nth(usize::MAX).is_some().obs(nth(PAST, p));
                it.next().is_some().obs(nth(REST, p));
                p += 1;
            }
        }
    }
    #[no_mangle]
    pub extern "C" fn $sw() {
        let hdr = $h;
        let new = || {
            let $hdr = &hdr;
            $it
        };
        {
            let mut p = 0;
            while p < 2 {
                let mut k = 0;
                while k < $k {
                    let mut it = new();
                    take(&mut it, p);
                    if take(&mut it, k) < k { None } else { it.next() }.obs(nth(nth(SKIP, p), k));
                    it.next().obs(nth(nth(THEN, p), k));
                    k += 1;
                }
                false.obs(nth(PAST, p));
                false.obs(nth(REST, p));
                p += 1;
            }
        }
    }
    // all at once, and how many there will be
    #[no_mangle]
    pub extern "C" fn $c() {
        let hdr = $h;
        let new = || {
            let $hdr = &hdr;
            $it
        };
        {
            let n = take(new(), $n + 1);
            (n > 0).obs(step(0, h("any")));
            let mut p = 0;
            while p < 3 {
                let mut it = new();
                let t = take(&mut it, p);
                let (least, most) = it.size_hint();
                (least <= n - t && most.map_or(true, |m| n - t <= m)).obs(nth(HINT, p));
                p += 1;
            }
            // from the start, and after one, two or three items
            let mut p = 0;
            while p < 4 {
                let at = || {
                    let mut it = new();
                    take(&mut it, p);
                    it
                };
                (at().count() == n - n.min(p)).obs(nth(COUNT, p));
                at().last().obs(nth(LAST, p));
                let (all, mut i) = (nth(ALL, p), 0);
                at().for_each(|x| {
                    tag(nth(all, i), h("Some"));
                    x.obs(step(nth(all, i), h("Some")));
                    i += 1;
                });
                tag(nth(all, i), h("None"));
                p += 1;
            }
        }
    }
    #[no_mangle]
    pub extern "C" fn $cw() {
        let hdr = $h;
        let new = || {
            let $hdr = &hdr;
            $it
        };
        {
            // the assumptions come first
            new().next().is_some().obs(step(0, h("any")));
            let mut p = 0;
            while p < 4 {
                if p < 3 {
                    true.obs(nth(HINT, p));
                }
                true.obs(nth(COUNT, p));
                let (mut all, mut last) = (new(), None);
                take(&mut all, p);
                let mut i = 0;
                while i < $n {
                    match all.next() {
                        None => break,
                        x => last = x,
                    }
                    i += 1;
                }
                last.obs(nth(LAST, p));
                let mut it = new();
                take(&mut it, p);
                obs_iter(it, nth(ALL, p), $n);
                p += 1;
            }
        }
    }
)* } }
steps! {
    root_n_bars want_n_bars root_z_bars want_z_bars 6 6, (), |_h| BaseAddresses::new([sym(0, 32) as u32, sym(1, 32) as u32, sym(2, 32) as u32, sym(3, 32) as u32, sym(4, 32) as u32, sym(5, 32) as u32]);
    root_n_rebar want_n_rebar root_z_rebar want_z_rebar 6 6, (), |_h| resizable_bar::ResizableBar(whole(data(48), 8).chunks(8));
    root_n_links want_n_links root_z_links want_z_links 4 3, (), |_h| root_complex_link_declaration::LinkEntries::new(data(56), sym(0, 2) as u8);
    root_n_pmux want_n_pmux root_z_pmux want_z_pmux 8 8, (), |_h| protocol_multiplexing::PmuxProtocolArray::new(data(32));
    root_n_acs want_n_acs root_z_acs want_z_acs 35 64, (), |_h| access_control_services::EgressControlVectors::new(data(8), 1 + sym(0, 6) as usize);
    root_n_pat want_n_pat root_z_pat want_z_pat 18 32, (), |_h| virtual_channel::PortArbitrationTable::new(data(4), 1 << sym(0, 2));
    root_n_fat want_n_fat root_z_fat want_z_fat 18 32, (), |_h| multifunction_virtual_channel::FunctionArbitrationTable::new(data(4), 1 << sym(0, 2));
    root_n_vat want_n_vat root_z_vat want_z_vat 8 12, (), |_h| virtual_channel::VcArbitrationTable::new(data(6));
    root_n_vc want_n_vc root_z_vc want_z_vc 4 3, (), |_h| virtual_channel::ExtendedVirtualChannels::new(data(36), sym(0, 2) as u8);
    root_n_mfvc want_n_mfvc root_z_mfvc want_z_mfvc 4 3, (), |_h| multifunction_virtual_channel::ExtendedVirtualChannels::new(data(36), sym(0, 2) as u8, 4);
    root_n_lanes want_n_lanes root_z_lanes want_z_lanes 8 8, (), |_h| secondary_pci_express::EqualizationControlLanes::new(data(16));
    root_n_ea want_n_ea root_z_ea want_z_ea 4 3, (), |_h| enhanced_allocation::EnhancedAllocationEntries::new(data(24), sym(0, 2) as u8);
    root_n_caps want_n_caps root_z_caps want_z_caps 3 4, match crate::ends::hdr(0x40) { Some(h) => h, None => return }, |h| {
        fix(0, 0, 0); fix(0, 1, 0x44); fix(0, 4, 0); fix(0, 5, 0x48); fix(0, 8, 0);
        fix(0, 9, 0);
        Capabilities::new(data(12), h)
    };
    root_n_ecaps want_n_ecaps root_z_ecaps want_z_ecaps 3 4, (), |_h| {
        fix(0, 0, 0); fix(0, 1, 0); fix(0, 2, 0x41); fix(0, 3, 0x10);
        fix(0, 4, 0); fix(0, 5, 0); fix(0, 6, 0x81); fix(0, 7, 0x10);
        fix(0, 8, 0); fix(0, 9, 0); fix(0, 10, 1); fix(0, 11, 0);
        ExtendedCapabilities::new(data(12))
    };
    // any chain through three members, ended early, broken or cut anywhere
    root_n_caps_any want_n_caps_any root_z_caps_any want_z_caps_any 3 4, match crate::ends::hdr(0x40) { Some(h) => h, None => return }, |h| {
        Capabilities::new(chain(0), h)
    };
    root_n_ecaps_any want_n_ecaps_any root_z_ecaps_any want_z_ecaps_any 3 4, (), |_h| {
        ExtendedCapabilities::new(echain(0))
    };
}
