//! Items of lists and derived values: those that compare equal show the same contents, and a clone
//! equals the original and shows the same.
use crate::{assume, fix, h, input, step, whole, Obs};
use pcics::capabilities::*;
use pcics::extended_capabilities::*;
use pcics::header::*;
use pcics::{Capabilities, ExtendedCapabilities, Header};

const SAME: u64 = step(0, h("same"));

fn data<'a>(r: u32, n: usize) -> &'a [u8] {
    let d = input(r);
    assume(d.len() <= n);
    d
}
macro_rules! items { ($($q:ident $qw:ident $h:expr, |$r:ident, $hdr:ident| $x:expr;)*) => { $(
    #[no_mangle]
    pub extern "C" fn $q() {
        let hdr = $h;
        let get = |$r: u32| {
            let $hdr = &hdr;
            $x
        };
        let (a, b) = (get(0), get(1));
        if a == b {
            a.obs(0);
        }
    }
    #[no_mangle]
    pub extern "C" fn $qw() {
        let hdr = $h;
        let get = |$r: u32| {
            let $hdr = &hdr;
            $x
        };
        let (a, b) = (get(0), get(1));
        if a == b {
            b.obs(0);
        }
    }
)* } }
macro_rules! cloned { ($($c:ident $cw:ident $h:expr, |$r:ident, $hdr:ident| $x:expr;)*) => { $(
    #[no_mangle]
    pub extern "C" fn $c() {
        let hdr = $h;
        let get = |$r: u32| {
            let $hdr = &hdr;
            $x
        };
        let a = get(0);
        (a == a.clone()).obs(SAME);
        a.clone().obs(0);
    }
    #[no_mangle]
    pub extern "C" fn $cw() {
        let hdr = $h;
        let get = |$r: u32| {
            let $hdr = &hdr;
            $x
        };
        let a = get(0);
        true.obs(SAME);
        a.obs(0);
    }
)* } }
fn kind(bridge: u8) -> Option<Header> {
    fix(2, 0xe, bridge);
    let mut hdr = Header::try_from(input(2)).ok()?;
    hdr.capabilities_pointer = 0x40;
    Some(hdr)
}
fn dw(d: &[u8], i: usize) -> u32 {
    u32::from_le_bytes([d[i], d[i + 1], d[i + 2], d[i + 3]])
}
// an extended capability with up to four bytes of data (the page request capability is compared as
// a structure only: the compiler cuts the address of its name in halves on the way)
fn ecap<'a>(r: u32) -> &'a [u8] {
    let d = data(r, 8);
    assume(d.len() < 2 || d[0] != 0x13);
    d
}
macro_rules! hdr { ($b:expr) => { match kind($b) { Some(x) => x, None => return } } }
items! {
    root_i_pm_data want_i_pm_data (), |r, _h| PowerManagementInterface::try_from(data(r, 16)).ok().and_then(|x| x.data());
    root_i_lane want_i_lane (), |r, _h| secondary_pci_express::EqualizationControlLanes::new(data(r, 2)).next();
    root_i_link want_i_link (), |r, _h| root_complex_link_declaration::LinkEntries::new(data(r, 28), 1).next();
    root_i_rebar want_i_rebar (), |r, _h| resizable_bar::ResizableBar(whole(data(r, 8), 8).chunks(8)).next();
    root_i_pmux want_i_pmux (), |r, _h| protocol_multiplexing::PmuxProtocolArray::new(data(r, 4)).next();
    root_i_pat want_i_pat (), |r, _h| virtual_channel::PortArbitrationTable::new(data(r, 1), 8).next();
    root_i_fat want_i_fat (), |r, _h| multifunction_virtual_channel::FunctionArbitrationTable::new(data(r, 1), 8).next();
    root_i_vat want_i_vat (), |r, _h| virtual_channel::VcArbitrationTable::new(data(r, 1)).next();
    root_i_vc want_i_vc (), |r, _h| virtual_channel::ExtendedVirtualChannels::new(data(r, 24), 0).next();
    root_i_mfvc want_i_mfvc (), |r, _h| multifunction_virtual_channel::ExtendedVirtualChannels::new(data(r, 40), 0, 4).next();
    root_i_bar want_i_bar (), |r, _h| { assume(input(r).len() >= 8); let d = input(r); BaseAddresses::new([dw(d, 0), dw(d, 4)]).next() };
    root_i_ea_entry want_i_ea_entry (), |r, _h| enhanced_allocation::EnhancedAllocationEntries::new(data(r, 20), 1).next();
    root_i_ea want_i_ea hdr!(0), |r, h| EnhancedAllocation::try_new(data(r, 20), h);
    root_i_ea_bridge want_i_ea_bridge hdr!(1), |r, h| EnhancedAllocation::try_new(data(r, 20), h);
    root_i_vendor want_i_vendor hdr!(0), |r, h| VendorSpecific::try_new(data(r, 16), h);
    root_i_cap want_i_cap hdr!(0), |r, h| Capabilities::new(data(r, 4), h).next();
    root_i_ecap want_i_ecap (), |r, _h| ExtendedCapabilities::new(ecap(r)).next();
}
cloned! {
    root_o_pm_data want_o_pm_data (), |r, _h| PowerManagementInterface::try_from(data(r, 16)).ok().and_then(|x| x.data());
    root_o_lane want_o_lane (), |r, _h| secondary_pci_express::EqualizationControlLanes::new(data(r, 2)).next();
    root_o_link want_o_link (), |r, _h| root_complex_link_declaration::LinkEntries::new(data(r, 28), 1).next();
    root_o_rebar want_o_rebar (), |r, _h| resizable_bar::ResizableBar(whole(data(r, 8), 8).chunks(8)).next();
    root_o_pmux want_o_pmux (), |r, _h| protocol_multiplexing::PmuxProtocolArray::new(data(r, 4)).next();
    root_o_pat want_o_pat (), |r, _h| virtual_channel::PortArbitrationTable::new(data(r, 1), 8).next();
    root_o_fat want_o_fat (), |r, _h| multifunction_virtual_channel::FunctionArbitrationTable::new(data(r, 1), 8).next();
    root_o_vat want_o_vat (), |r, _h| virtual_channel::VcArbitrationTable::new(data(r, 1)).next();
    root_o_vc want_o_vc (), |r, _h| virtual_channel::ExtendedVirtualChannels::new(data(r, 24), 0).next();
    root_o_mfvc want_o_mfvc (), |r, _h| multifunction_virtual_channel::ExtendedVirtualChannels::new(data(r, 40), 0, 4).next();
    root_o_bar want_o_bar (), |r, _h| { assume(input(r).len() >= 8); let d = input(r); BaseAddresses::new([dw(d, 0), dw(d, 4)]).next() };
    root_o_ea_entry want_o_ea_entry (), |r, _h| enhanced_allocation::EnhancedAllocationEntries::new(data(r, 20), 1).next();
    root_o_ea want_o_ea hdr!(0), |r, h| EnhancedAllocation::try_new(data(r, 20), h);
    root_o_ea_bridge want_o_ea_bridge hdr!(1), |r, h| EnhancedAllocation::try_new(data(r, 20), h);
    root_o_ecap want_o_ecap (), |r, _h| ExtendedCapabilities::new(ecap(r)).next();
}

// what is too short to decode is told apart by its kind
const DIFFER: u64 = step(0, h("told apart"));
macro_rules! apart { ($($q:ident $qw:ident $h:expr, |$r:ident, $hdr:ident| $x:expr, |$a:ident, $b:ident| $kinds:expr;)*) => { $(
    #[no_mangle]
    pub extern "C" fn $q() {
        let hdr = $h;
        let get = |$r: u32| {
            let $hdr = &hdr;
            $x
        };
        assume(input(0).len() >= 4 && input(1).len() >= 4);
        let ($a, $b) = (input(0), input(1));
        assume($kinds);
        if let (Some(Err(a)), Some(Err(b))) = (get(0), get(1)) {
            (a != b).obs(DIFFER);
        }
    }
    #[no_mangle]
    pub extern "C" fn $qw() {
        let hdr = $h;
        let get = |$r: u32| {
            let $hdr = &hdr;
            $x
        };
        assume(input(0).len() >= 4 && input(1).len() >= 4);
        let ($a, $b) = (input(0), input(1));
        assume($kinds);
        if let (Some(Err(_)), Some(Err(_))) = (get(0), get(1)) {
            true.obs(DIFFER);
        }
    }
)* } }
apart! {
    root_i_cap_apart want_i_cap_apart hdr!(0), |r, h| Capabilities::new(data(r, 4), h).next(), |a, b| a[0] != b[0];
    root_i_ecap_apart want_i_ecap_apart (), |r, _h| ExtendedCapabilities::new(ecap(r)).next(),
        |a, b| (a[0] != b[0] || a[1] != b[1]) && !(a[0] == 2 && b[0] == 9) && !(a[0] == 9 && b[0] == 2);
}
