//! Decoded values as values: a clone goes on where the original was and leaves it alone, a value
//! equals its clone, and values that compare equal show the same contents.
use crate::{assume, h, input, nth, obs_iter, step, sym, whole, Obs};
use pcics::capabilities::*;
use pcics::extended_capabilities::*;
use pcics::header::*;
use pcics::{Capabilities, ExtendedCapabilities, Header};

const SAME: u64 = step(0, h("same"));

#[inline(always)]
fn data<'a>(r: u32, n: usize) -> &'a [u8] {
    let d = input(r);
    assume(d.len() <= n);
    d
}
#[inline(always)]
fn ahead<I: Iterator>(mut it: I, s: u32, bits: u32) -> I {
    let k = sym(s, bits);
    let mut i = 0;
    while i < (1 << bits) - 1 {
        if i < k {
            it.next();
        }
        i += 1;
    }
    it
}
macro_rules! value { ($($c:ident $cw:ident $e:ident $ew:ident $n:expr, $k:expr, |$r:ident, $s:ident| $new:expr;)*) => { $(
    #[no_mangle]
    pub extern "C" fn $c() {
        let ($r, $s) = (0, 0);
        let it = ahead($new, 4, $k);
        (it == it.clone()).obs(SAME);
        obs_iter(it.clone(), 0, $n);
    }
    #[no_mangle]
    pub extern "C" fn $cw() {
        let ($r, $s) = (0, 0);
        let it = ahead($new, 4, $k);
        true.obs(SAME);
        let mut other = it.clone();
        other.next();
        obs_iter(it, 0, $n);
    }
    #[no_mangle]
    pub extern "C" fn $e() {
        let ($r, $s) = (0, 0);
        let a = ahead($new, 4, $k);
        let ($r, $s) = (1, 8);
        let b = ahead($new, 4, $k);
        if a == b {
            obs_iter(a, 0, $n);
        }
    }
    #[no_mangle]
    pub extern "C" fn $ew() {
        let ($r, $s) = (0, 0);
        let a = ahead($new, 4, $k);
        let ($r, $s) = (1, 8);
        let b = ahead($new, 4, $k);
        if a == b {
            obs_iter(b, 0, $n);
        }
    }
)* } }
value! {
    root_v_bars want_v_bars root_e_bars want_e_bars 2, 2, |_r, s| BaseAddresses::new([sym(s, 32) as u32]);
    root_v_bars_two want_v_bars_two root_e_bars_two want_e_bars_two 2, 1, |_r, s| BaseAddresses::new([sym(s, 32) as u32, sym(s + 1, 32) as u32]);
    root_v_rebar want_v_rebar root_e_rebar want_e_rebar 2, 2, |r, _s| resizable_bar::ResizableBar(whole(data(r, 16), 8).chunks(8));
    root_v_links want_v_links root_e_links want_e_links 2, 2, |r, s| root_complex_link_declaration::LinkEntries::new(data(r, 18), sym(s, 2) as u8);
    root_v_pmux want_v_pmux root_e_pmux want_e_pmux 3, 2, |r, _s| protocol_multiplexing::PmuxProtocolArray::new(data(r, 12));
    root_v_acs want_v_acs root_e_acs want_e_acs 17, 2, |r, s| access_control_services::EgressControlVectors::new(data(r, 4), 1 + sym(s, 4) as usize);
    root_v_pat want_v_pat root_e_pat want_e_pat 16, 2, |r, s| virtual_channel::PortArbitrationTable::new(data(r, 2), 1 << sym(s, 2));
    root_v_fat want_v_fat root_e_fat want_e_fat 16, 2, |r, s| multifunction_virtual_channel::FunctionArbitrationTable::new(data(r, 2), 1 << sym(s, 2));
    root_v_vat want_v_vat root_e_vat want_e_vat 6, 2, |r, _s| virtual_channel::VcArbitrationTable::new(data(r, 3));
    root_v_vc want_v_vc root_e_vc want_e_vc 2, 2, |r, s| virtual_channel::ExtendedVirtualChannels::new(data(r, 24), sym(s, 1) as u8);
    root_v_mfvc want_v_mfvc root_e_mfvc want_e_mfvc 2, 1, |r, s| multifunction_virtual_channel::ExtendedVirtualChannels::new(data(r, 28), sym(s, 1) as u8, 4);
    root_v_mfvc_two want_v_mfvc_two root_e_mfvc_two want_e_mfvc_two 2, 2, |r, s| multifunction_virtual_channel::ExtendedVirtualChannels::new(data(r, 40), sym(s, 1) as u8, 4);
    root_v_ea want_v_ea root_e_ea want_e_ea 2, 2, |r, s| enhanced_allocation::EnhancedAllocationEntries::new(data(r, 24), sym(s, 2) as u8);
}

// the lists themselves
fn header(r: u32) -> Option<Header> {
    // what the list depends on and one byte it does not depend on
    let mut i = 1;
    while i < 64 {
        if i != 0xe {
            crate::fix(r, i, 0);
        }
        i += 1;
    }
    let mut hdr = Header::try_from(input(r)).ok()?;
    hdr.capabilities_pointer = 0x40;
    Some(hdr)
}
macro_rules! list { ($($c:ident $cw:ident $e:ident $ew:ident $h:expr, |$r:ident, $hdr:ident| $new:expr;)*) => { $(
    #[no_mangle]
    pub extern "C" fn $c() {
        let hdr = match $h(2) { Some(x) => x, None => return };
        let ($r, $hdr) = (0, &hdr);
        let mut k = 0;
        while k < 4 {
            let it = on($new, k);
            (it == it.clone()).obs(nth(SAME, k as usize));
            obs_iter(it.clone(), nth(0, k as usize), 4);
            k += 1;
        }
    }
    #[no_mangle]
    pub extern "C" fn $cw() {
        let hdr = match $h(2) { Some(x) => x, None => return };
        let ($r, $hdr) = (0, &hdr);
        let mut k = 0;
        while k < 4 {
            let it = on($new, k);
            true.obs(nth(SAME, k as usize));
            let mut other = it.clone();
            other.next();
            obs_iter(it, nth(0, k as usize), 4);
            k += 1;
        }
    }
    #[no_mangle]
    pub extern "C" fn $e() {
        let (one, two) = match ($h(2), $h(3)) { (Some(x), Some(y)) => (x, y), _ => return };
        let mut i = 0;
        while i < 9 {
            let ($r, $hdr) = (0, &one);
            let a = on($new, i / 3);
            let ($r, $hdr) = (1, &two);
            let b = on($new, i % 3);
            if a == b {
                obs_iter(a, nth(SAME, i as usize), 4);
            }
            i += 1;
        }
    }
    #[no_mangle]
    pub extern "C" fn $ew() {
        let (one, two) = match ($h(2), $h(3)) { (Some(x), Some(y)) => (x, y), _ => return };
        let mut i = 0;
        while i < 9 {
            let ($r, $hdr) = (0, &one);
            let a = on($new, i / 3);
            let ($r, $hdr) = (1, &two);
            let b = on($new, i % 3);
            if a == b {
                obs_iter(b, nth(SAME, i as usize), 4);
            }
            i += 1;
        }
    }
)* } }
list! {
    root_v_caps want_v_caps root_e_caps want_e_caps header, |r, hdr| Capabilities::new(crate::steps::chain(r), hdr);
    root_v_ecaps want_v_ecaps root_e_ecaps want_e_ecaps (|_| Some(())), |r, _h| ExtendedCapabilities::new(crate::steps::echain(r));
}

/// Two iterators that have come differently far: whenever they compare equal they show the same.
#[inline(always)]
fn on<I: Iterator>(mut it: I, k: u64) -> I {
    let mut i = 0;
    while i < k {
        it.next();
        i += 1;
    }
    it
}
macro_rules! apart { ($($e:ident $ew:ident $n:expr, $k:expr, |$r:ident, $s:ident| $new:expr;)*) => { $(
    #[no_mangle]
    pub extern "C" fn $e() {
        let mut i = 0;
        while i < $k * $k {
            let ($r, $s) = (0, 0);
            let a = on($new, i / $k);
            let ($r, $s) = (1, 8);
            let b = on($new, i % $k);
            if a == b {
                obs_iter(a, step(SAME, i), $n);
            }
            i += 1;
        }
    }
    #[no_mangle]
    pub extern "C" fn $ew() {
        let mut i = 0;
        while i < $k * $k {
            let ($r, $s) = (0, 0);
            let a = on($new, i / $k);
            let ($r, $s) = (1, 8);
            let b = on($new, i % $k);
            if a == b {
                obs_iter(b, step(SAME, i), $n);
            }
            i += 1;
        }
    }
)* } }
apart! {
    root_a_acs want_a_acs 20, 14, |r, s| access_control_services::EgressControlVectors::new(data(r, 4), 1 + sym(s, 5) as usize);
    root_a_pat want_a_pat 8, 9, |r, s| virtual_channel::PortArbitrationTable::new(data(r, 2), 1 << sym(s, 2));
    root_a_fat want_a_fat 8, 9, |r, s| multifunction_virtual_channel::FunctionArbitrationTable::new(data(r, 2), 1 << sym(s, 2));
    root_a_vat want_a_vat 6, 4, |r, _s| virtual_channel::VcArbitrationTable::new(data(r, 3));
}

// the public state of link entries is part of what is compared
#[inline(always)]
fn links(r: u32, s: u32) -> root_complex_link_declaration::LinkEntries<'static> {
    root_complex_link_declaration::LinkEntries::new(data(r, 18), sym(s, 2) as u8)
}
#[no_mangle]
pub extern "C" fn root_e_state() {
    if links(0, 0) == links(1, 8) {
        links(0, 0).state.obs(0);
    }
}
#[no_mangle]
pub extern "C" fn want_e_state() {
    if links(0, 0) == links(1, 8) {
        links(1, 8).state.obs(0);
    }
}

// Type-level witness: decoded values can be sent to and shared between threads, and hold nothing
// that can change behind a shared reference.  A type that loses this does not compile here.
fn plain<T: Send + Sync + Unpin + core::panic::RefUnwindSafe + core::panic::UnwindSafe>() {}
pub fn witness() {
    plain::<Header>();
    plain::<Capabilities>();
    plain::<ExtendedCapabilities>();
    plain::<Capability>();
    plain::<CapabilityError>();
    plain::<ExtendedCapability>();
    plain::<ExtendedCapabilityError>();
    plain::<BaseAddresses<6>>();
    plain::<secondary_pci_express::EqualizationControlLanes>();
    plain::<virtual_channel::PortArbitrationTable>();
    plain::<virtual_channel::VcArbitrationTable>();
    plain::<virtual_channel::ExtendedVirtualChannels>();
    plain::<access_control_services::EgressControlVectors>();
}
