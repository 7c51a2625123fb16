//! Iteration ends.  `root_t_*` asks for more items than there can be; `want_t_*` says that the
//! next one is not there.  `root_k_*` takes one item between two snapshots of the iterator.
use crate::{assume, fix, h, input, nth, snap, step, sym, tag, Obs};
use core::convert::TryFrom;
use pcics::capabilities::*;
use pcics::extended_capabilities::*;
use pcics::header::*;
use pcics::{Capabilities, ExtendedCapabilities, Header};

const A: u64 = step(0, h("ended"));
const B: u64 = step(0, h("still ended"));

#[inline(always)]
fn ends<I: Iterator>(mut it: I, n: usize) {
    let mut k = 0;
    while k < n {
        if it.next().is_none() {
            break;
        }
        k += 1;
    }
    it.next().is_none().obs(A);
    it.next().is_none().obs(B);
}
macro_rules! end { ($($r:ident $w:ident $n:expr, $it:expr;)*) => { $(
    #[no_mangle]
    pub extern "C" fn $r() {
        if let Some(it) = (|| Some($it))() {
            ends(it, $n)
        }
    }
    #[no_mangle]
    pub extern "C" fn $w() {
        if let Some(_) = (|| Some($it))() {
            true.obs(A);
            true.obs(B);
        }
    }
)* } }
macro_rules! rank { ($($r:ident $it:expr;)*) => { $(
    #[no_mangle]
    pub extern "C" fn $r() {
        if let Some(mut it) = (|| Some($it))() {
            snap(&it, 1);
            if it.next().is_some() {
                snap(&it, 2);
            }
        }
    }
)* } }

// an iteration that has nothing to give, however it was set up, gives nothing the next time either
macro_rules! still { ($($r:ident $w:ident $it:expr;)*) => { $(
    #[no_mangle]
    pub extern "C" fn $r() {
        if let Some(mut it) = (|| Some($it))() {
            if it.next().is_none() {
                it.next().is_none().obs(A);
                it.next().is_none().obs(B);
            }
        }
    }
    #[no_mangle]
    pub extern "C" fn $w() {
        if let Some(mut it) = (|| Some($it))() {
            if it.next().is_none() {
                true.obs(A);
                true.obs(B);
            }
        }
    }
)* } }
/// Capability `id` at `ptr`, followed by the one at `next`.
#[inline(always)]
fn cap(ptr: usize, id: u8, next: usize) {
    fix(0, ptr as u64 - 0x40, id);
    fix(0, ptr as u64 - 0x40 + 1, next as u8);
}
/// Extended capability `id` at `off`, followed by the one at `next`.
#[inline(always)]
fn ecap(off: usize, id: u8, next: usize) {
    let o = off as u64 - 0x100;
    fix(0, o, id);
    fix(0, o + 1, 0);
    fix(0, o + 2, 1 | (next as u8 & 15) << 4);
    fix(0, o + 3, (next >> 4) as u8);
}
#[inline(always)]
pub fn hdr(ptr: u8) -> Option<Header> {
    let mut hdr = Header::try_from(input(1)).ok()?;
    hdr.capabilities_pointer = ptr;
    Some(hdr)
}
macro_rules! caps { ($($r:ident $w:ident $ptr:expr, $setup:expr;)*) => { $(
    #[no_mangle]
    pub extern "C" fn $r() {
        if let Some(hdr) = hdr($ptr) {
            $setup;
            ends(Capabilities::new(input(0), &hdr), 49);
        }
    }
    #[no_mangle]
    pub extern "C" fn $w() {
        if let Some(_) = hdr($ptr) {
            $setup;
            true.obs(A);
            true.obs(B);
        }
    }
)* } }
// a capability that is its own successor, loops of two and three, a loop with a way in,
// a loop of structures that cannot be decoded
caps! {
    root_t_caps_self want_t_caps_self 0x40, cap(0x40, 0, 0x40);
    root_t_caps_self_bits want_t_caps_self_bits 0x43, cap(0x40, 0, 0x41);
    root_t_caps_two want_t_caps_two 0x80, { cap(0x80, 6, 0x50); cap(0x50, 0x0b, 0x80) };
    root_t_caps_three want_t_caps_three 0xf0, { cap(0xf0, 0x0c, 0xf8); cap(0xf8, 0x0e, 0xf4); cap(0xf4, 0x0f, 0xf0) };
    root_t_caps_rho want_t_caps_rho 0x40, { cap(0x40, 0, 0x44); cap(0x44, 0, 0x48); cap(0x48, 0, 0x4c); cap(0x4c, 0, 0x44) };
    root_t_caps_bad want_t_caps_bad 0xfc, { assume(input(0).len() == 0xc0); cap(0xfc, 1, 0xfc) };
    root_t_caps_low want_t_caps_low 0x40, { cap(0x40, 0, 0x3c) };
    root_t_caps_id_00 want_t_caps_id_00 0x40, cap(0x40, 0x0, 0x40);
    root_t_caps_id_01 want_t_caps_id_01 0x40, cap(0x40, 0x1, 0x40);
    root_t_caps_id_02 want_t_caps_id_02 0x40, cap(0x40, 0x2, 0x40);
    root_t_caps_id_03 want_t_caps_id_03 0x40, cap(0x40, 0x3, 0x40);
    root_t_caps_id_04 want_t_caps_id_04 0x40, cap(0x40, 0x4, 0x40);
    root_t_caps_id_05 want_t_caps_id_05 0x40, cap(0x40, 0x5, 0x40);
    root_t_caps_id_06 want_t_caps_id_06 0x40, cap(0x40, 0x6, 0x40);
    root_t_caps_id_07 want_t_caps_id_07 0x40, cap(0x40, 0x7, 0x40);
    root_t_caps_id_08 want_t_caps_id_08 0x40, cap(0x40, 0x8, 0x40);
    root_t_caps_id_09 want_t_caps_id_09 0x40, cap(0x40, 0x9, 0x40);
    root_t_caps_id_0a want_t_caps_id_0a 0x40, cap(0x40, 0xa, 0x40);
    root_t_caps_id_0b want_t_caps_id_0b 0x40, cap(0x40, 0xb, 0x40);
    root_t_caps_id_0c want_t_caps_id_0c 0x40, cap(0x40, 0xc, 0x40);
    root_t_caps_id_0d want_t_caps_id_0d 0x40, cap(0x40, 0xd, 0x40);
    root_t_caps_id_0e want_t_caps_id_0e 0x40, cap(0x40, 0xe, 0x40);
    root_t_caps_id_0f want_t_caps_id_0f 0x40, cap(0x40, 0xf, 0x40);
    root_t_caps_id_10 want_t_caps_id_10 0x40, cap(0x40, 0x10, 0x40);
    root_t_caps_id_11 want_t_caps_id_11 0x40, cap(0x40, 0x11, 0x40);
    root_t_caps_id_12 want_t_caps_id_12 0x40, cap(0x40, 0x12, 0x40);
    root_t_caps_id_13 want_t_caps_id_13 0x40, cap(0x40, 0x13, 0x40);
    root_t_caps_id_14 want_t_caps_id_14 0x40, cap(0x40, 0x14, 0x40);
    root_t_caps_id_15 want_t_caps_id_15 0x40, cap(0x40, 0x15, 0x40);
    root_t_caps_id_rsvd want_t_caps_id_rsvd 0x40, { fix(0, 1, 0x40); assume(input(0).len() > 1 && input(0)[0] > 0x15) };
    root_t_caps_short want_t_caps_short 0x40, { assume(input(0).len() == 4); fix(0, 1, 0x40) };
    root_t_caps_out want_t_caps_out 0x40, { assume(input(0).len() == 8); cap(0x40, 0, 0x48) };
}
macro_rules! ecaps { ($($r:ident $w:ident $setup:expr;)*) => { $(
    #[no_mangle]
    pub extern "C" fn $r() {
        $setup;
        ends(ExtendedCapabilities::new(input(0)), 961);
    }
    #[no_mangle]
    pub extern "C" fn $w() {
        $setup;
        true.obs(A);
        true.obs(B);
    }
)* } }
ecaps! {
    root_t_ecaps_self want_t_ecaps_self ecap(0x100, 0, 0x100);
    root_t_ecaps_self_bits want_t_ecaps_self_bits ecap(0x100, 0, 0x103);
    root_t_ecaps_two want_t_ecaps_two { ecap(0x100, 0, 0x200); ecap(0x200, 0x11, 0x100) };
    root_t_ecaps_rho want_t_ecaps_rho { ecap(0x100, 0, 0x120); ecap(0x120, 0x14, 0x140); ecap(0x140, 0x25, 0xffc); ecap(0xffc, 0, 0x140) };
    root_t_ecaps_bad want_t_ecaps_bad { assume(input(0).len() == 0xf00); ecap(0x100, 0, 0xffc); ecap(0xffc, 1, 0xffc) };
    root_t_ecaps_low want_t_ecaps_low { ecap(0x100, 0, 0xfc) };
    root_t_ecaps_id_01 want_t_ecaps_id_01 ecap(0x100, 0x1, 0x100);
    root_t_ecaps_id_02 want_t_ecaps_id_02 ecap(0x100, 0x2, 0x100);
    root_t_ecaps_id_03 want_t_ecaps_id_03 ecap(0x100, 0x3, 0x100);
    root_t_ecaps_id_04 want_t_ecaps_id_04 ecap(0x100, 0x4, 0x100);
    root_t_ecaps_id_05 want_t_ecaps_id_05 ecap(0x100, 0x5, 0x100);
    root_t_ecaps_id_06 want_t_ecaps_id_06 ecap(0x100, 0x6, 0x100);
    root_t_ecaps_id_07 want_t_ecaps_id_07 ecap(0x100, 0x7, 0x100);
    root_t_ecaps_id_08 want_t_ecaps_id_08 ecap(0x100, 0x8, 0x100);
    root_t_ecaps_id_09 want_t_ecaps_id_09 ecap(0x100, 0x9, 0x100);
    root_t_ecaps_id_0a want_t_ecaps_id_0a ecap(0x100, 0xa, 0x100);
    root_t_ecaps_id_0b want_t_ecaps_id_0b ecap(0x100, 0xb, 0x100);
    root_t_ecaps_id_0c want_t_ecaps_id_0c ecap(0x100, 0xc, 0x100);
    root_t_ecaps_id_0d want_t_ecaps_id_0d ecap(0x100, 0xd, 0x100);
    root_t_ecaps_id_0e want_t_ecaps_id_0e ecap(0x100, 0xe, 0x100);
    root_t_ecaps_id_0f want_t_ecaps_id_0f ecap(0x100, 0xf, 0x100);
    root_t_ecaps_id_10 want_t_ecaps_id_10 ecap(0x100, 0x10, 0x100);
    root_t_ecaps_id_11 want_t_ecaps_id_11 ecap(0x100, 0x11, 0x100);
    root_t_ecaps_id_12 want_t_ecaps_id_12 ecap(0x100, 0x12, 0x100);
    root_t_ecaps_id_13 want_t_ecaps_id_13 ecap(0x100, 0x13, 0x100);
    root_t_ecaps_id_14 want_t_ecaps_id_14 ecap(0x100, 0x14, 0x100);
    root_t_ecaps_id_15 want_t_ecaps_id_15 ecap(0x100, 0x15, 0x100);
    root_t_ecaps_id_16 want_t_ecaps_id_16 ecap(0x100, 0x16, 0x100);
    root_t_ecaps_id_17 want_t_ecaps_id_17 ecap(0x100, 0x17, 0x100);
    root_t_ecaps_id_18 want_t_ecaps_id_18 ecap(0x100, 0x18, 0x100);
    root_t_ecaps_id_19 want_t_ecaps_id_19 ecap(0x100, 0x19, 0x100);
    root_t_ecaps_id_1a want_t_ecaps_id_1a ecap(0x100, 0x1a, 0x100);
    root_t_ecaps_id_1b want_t_ecaps_id_1b ecap(0x100, 0x1b, 0x100);
    root_t_ecaps_id_1c want_t_ecaps_id_1c ecap(0x100, 0x1c, 0x100);
    root_t_ecaps_id_1d want_t_ecaps_id_1d ecap(0x100, 0x1d, 0x100);
    root_t_ecaps_id_1e want_t_ecaps_id_1e ecap(0x100, 0x1e, 0x100);
    root_t_ecaps_id_1f want_t_ecaps_id_1f ecap(0x100, 0x1f, 0x100);
    root_t_ecaps_id_20 want_t_ecaps_id_20 ecap(0x100, 0x20, 0x100);
    root_t_ecaps_id_21 want_t_ecaps_id_21 ecap(0x100, 0x21, 0x100);
    root_t_ecaps_id_22 want_t_ecaps_id_22 ecap(0x100, 0x22, 0x100);
    root_t_ecaps_id_23 want_t_ecaps_id_23 { assume(input(0).len() == 16); ecap(0x100, 0x23, 0x100) };
    root_t_ecaps_id_24 want_t_ecaps_id_24 ecap(0x100, 0x24, 0x100);
    root_t_ecaps_id_25 want_t_ecaps_id_25 ecap(0x100, 0x25, 0x100);
    root_t_ecaps_id_26 want_t_ecaps_id_26 ecap(0x100, 0x26, 0x100);
    root_t_ecaps_id_27 want_t_ecaps_id_27 ecap(0x100, 0x27, 0x100);
    root_t_ecaps_id_28 want_t_ecaps_id_28 ecap(0x100, 0x28, 0x100);
    root_t_ecaps_id_29 want_t_ecaps_id_29 ecap(0x100, 0x29, 0x100);
    root_t_ecaps_id_2a want_t_ecaps_id_2a ecap(0x100, 0x2a, 0x100);
    root_t_ecaps_id_2b want_t_ecaps_id_2b ecap(0x100, 0x2b, 0x100);
    root_t_ecaps_id_2c want_t_ecaps_id_2c ecap(0x100, 0x2c, 0x100);
    root_t_ecaps_id_2d want_t_ecaps_id_2d ecap(0x100, 0x2d, 0x100);
    root_t_ecaps_id_2e want_t_ecaps_id_2e ecap(0x100, 0x2e, 0x100);
    root_t_ecaps_id_2f want_t_ecaps_id_2f ecap(0x100, 0x2f, 0x100);
    root_t_ecaps_id_30 want_t_ecaps_id_30 ecap(0x100, 0x30, 0x100);
    root_t_ecaps_id_31 want_t_ecaps_id_31 ecap(0x100, 0x31, 0x100);
    root_t_ecaps_id_32 want_t_ecaps_id_32 ecap(0x100, 0x32, 0x100);
    root_t_ecaps_id_33 want_t_ecaps_id_33 ecap(0x100, 0x33, 0x100);
    root_t_ecaps_id_34 want_t_ecaps_id_34 ecap(0x100, 0x34, 0x100);
    root_t_ecaps_id_rsvd want_t_ecaps_id_rsvd { fix(0, 2, 1); fix(0, 3, 0x10); assume(input(0).len() > 3 && (input(0)[1] != 0 || input(0)[0] > 0x34)) };
    root_t_ecaps_short want_t_ecaps_short { assume(input(0).len() == 8); fix(0, 1, 0); fix(0, 2, 1); fix(0, 3, 0x10); assume(input(0)[0] != 0) };
    root_t_ecaps_out want_t_ecaps_out { assume(input(0).len() == 8); ecap(0x100, 0, 0x108) };
    root_t_ecaps_zero want_t_ecaps_zero { ecap(0x100, 0, 0x200); fix(0, 0x100, 0); fix(0, 0x101, 0); fix(0, 0x102, 0); fix(0, 0x103, 0) };
}
end! {
    root_t_bars_6 want_t_bars_6 6, BaseAddresses::new([sym(0, 32) as u32, sym(1, 32) as u32, sym(2, 32) as u32, sym(3, 32) as u32, sym(4, 32) as u32, sym(5, 32) as u32]);
    root_t_bars_2 want_t_bars_2 2, BaseAddresses::new([sym(0, 32) as u32, sym(1, 32) as u32]);
    root_t_bars_1 want_t_bars_1 1, BaseAddresses::new([sym(0, 32) as u32]);
    root_t_rebar want_t_rebar 6, ResizableBar::try_from(input(0)).ok()?;
    root_t_vc want_t_vc 8, VirtualChannel::try_from(input(0)).ok()?.extended_virtual_channels();
    root_t_vc_vat want_t_vc_vat 128, VirtualChannel::try_from(input(0)).ok()?.vc_arbitration_table();
    root_t_mfvc want_t_mfvc 8, { crate::access::no_tables(); MultifunctionVirtualChannel::try_from(input(0)).ok()?.extended_virtual_channels };
    root_t_mfvc_vat want_t_mfvc_vat 128, MultifunctionVirtualChannel::try_from(input(0)).ok()?.vc_arbitration_table?;
    root_t_acs want_t_acs 256, AccessControlServices::try_from(input(0)).ok()?.egress_control_vectors();
    root_t_lanes want_t_lanes 255, SecondaryPciExpress::try_from(input(0)).ok()?.equalization_control_lanes(From::<u8>::from(sym(0, 8) as u8));
    root_t_pmux want_t_pmux 63, ProtocolMultiplexing::try_from(input(0)).ok()?.pmux_protocol_array;
    root_t_links want_t_links 255, RootComplexLinkDeclaration::try_from(input(0)).ok()?.link_entries;
    root_t_ea_1 want_t_ea_1 1, enhanced_allocation::EnhancedAllocationEntries::new(input(0), (sym(0, 8) as u8) & 1);
    root_t_pat want_t_pat 256, virtual_channel::PortArbitrationTable::new(few(32), 1 << sym(0, 2));
    root_t_fat want_t_fat 256, multifunction_virtual_channel::FunctionArbitrationTable::new(few(32), 1 << sym(0, 2));
}
#[inline(always)]
fn few<'a>(n: usize) -> &'a [u8] {
    let d = input(0);
    if d.len() > n {
        &d[..n]
    } else {
        d
    }
}
rank! {
    root_k_ea enhanced_allocation::EnhancedAllocationEntries::new(input(0), sym(0, 8) as u8);
    root_k_ecaps { fix(0, 0, 0); fix(0, 1, 0); ExtendedCapabilities::new(input(0)) };
    root_k_links root_complex_link_declaration::LinkEntries::new(input(0), sym(0, 8) as u8);
    root_k_lanes secondary_pci_express::EqualizationControlLanes::new(input(0));
    root_k_pmux protocol_multiplexing::PmuxProtocolArray::new(input(0));
    root_k_vc virtual_channel::ExtendedVirtualChannels::new(input(0), (sym(0, 8) as u8) & 7);
    root_k_mfvc multifunction_virtual_channel::ExtendedVirtualChannels::new(input(0), (sym(0, 8) as u8) & 7, 1 << sym(1, 2));
    root_k_acs access_control_services::EgressControlVectors::new(input(0), (sym(0, 8) as u8) as usize);
    root_k_vat virtual_channel::VcArbitrationTable::new(input(0));
    root_k_rebar ResizableBar::try_from(input(0)).ok()?;
    root_k_bars BaseAddresses::new([sym(0, 32) as u32, sym(1, 32) as u32, sym(2, 32) as u32, sym(3, 32) as u32, sym(4, 32) as u32, sym(5, 32) as u32]);
}
still! {
    root_t_ea_still want_t_ea_still enhanced_allocation::EnhancedAllocationEntries::new(input(0), sym(0, 8) as u8);
    root_t_ecaps_still want_t_ecaps_still { fix(0, 0, 0); fix(0, 1, 0); ExtendedCapabilities::new(input(0)) };
    root_t_links_still want_t_links_still root_complex_link_declaration::LinkEntries::new(input(0), sym(0, 8) as u8);
    root_t_lanes_still want_t_lanes_still secondary_pci_express::EqualizationControlLanes::new(input(0));
    root_t_pmux_still want_t_pmux_still protocol_multiplexing::PmuxProtocolArray::new(input(0));
    root_t_vc_still want_t_vc_still virtual_channel::ExtendedVirtualChannels::new(input(0), (sym(0, 8) as u8) & 7);
    root_t_mfvc_still want_t_mfvc_still multifunction_virtual_channel::ExtendedVirtualChannels::new(input(0), (sym(0, 8) as u8) & 7, 1 << sym(1, 2));
    root_t_acs_still want_t_acs_still access_control_services::EgressControlVectors::new(input(0), (sym(0, 8) as u8) as usize);
    root_t_vat_still want_t_vat_still virtual_channel::VcArbitrationTable::new(input(0));
    root_t_bars_still want_t_bars_still BaseAddresses::new([sym(0, 32) as u32, sym(1, 32) as u32, sym(2, 32) as u32, sym(3, 32) as u32, sym(4, 32) as u32, sym(5, 32) as u32]);
}
#[no_mangle]
pub extern "C" fn root_k_caps() {
    if let Some(hdr) = hdr(0x40) {
        fix(0, 0, 0);
        let mut it = Capabilities::new(input(0), &hdr);
        snap(&it, 1);
        if it.next().is_some() {
            snap(&it, 2);
        }
    }
}

// ---- long lists ---------------------------------------------------------------------------
/// All 48 places of the device dependent region are used, linked in the order 0, 5, 10, ... 
#[inline(always)]
fn place(k: usize) -> usize {
    0x40 + 4 * (k * 5 % 48)
}
const IDS: [u8; 8] = [0, 6, 0x0b, 0x0c, 0x0e, 0x0f, 0x16, 0xff];
#[no_mangle]
pub extern "C" fn root_l_caps_full() {
    if let Some(hdr) = hdr(0x40) {
        assume(input(0).len() >= 0xc0);
        let mut k = 0;
        while k < 48 {
            cap(place(k), IDS[k % 8], if k < 47 { place(k + 1) | k & 3 } else { 0x23 });
            k += 1;
        }
        let mut it = Capabilities::new(input(0), &hdr);
        let mut k = 0;
        while k < 50 {
            match it.next() {
                None => {
                    tag(nth(0, k), h("None"));
                    break;
                }
                Some(Err(_)) => tag(nth(0, k), h("Err")),
                Some(Ok(c)) => {
                    tag(nth(0, k), h("Ok"));
                    c.pointer.obs(step(nth(0, k), h("pointer")));
                }
            }
            k += 1;
        }
    }
}
#[no_mangle]
pub extern "C" fn want_l_caps_full() {
    if let Some(_) = hdr(0x40) {
        assume(input(0).len() >= 0xc0);
        let mut k = 0;
        while k < 48 {
            tag(nth(0, k), h("Ok"));
            (place(k) as u8).obs(step(nth(0, k), h("pointer")));
            k += 1;
        }
        tag(nth(0, 48), h("Err"));
        tag(nth(0, 49), h("None"));
    }
}
#[inline(always)]
fn eplace(k: usize) -> usize {
    0x100 + 4 * (k * 7 % 960)
}
#[no_mangle]
pub extern "C" fn root_l_ecaps_full() {
    assume(input(0).len() >= 0xf00);
    let mut k = 0;
    while k < 960 {
        ecap(eplace(k), [0, 0x11, 0x14, 0x25][k % 4], if k < 959 { eplace(k + 1) | k & 3 } else { 0x23 });
        k += 1;
    }
    let mut it = ExtendedCapabilities::new(input(0));
    let mut k = 0;
    while k < 962 {
        match it.next() {
            None => {
                tag(nth(0, k), h("None"));
                break;
            }
            Some(Err(_)) => tag(nth(0, k), h("Err")),
            Some(Ok(c)) => {
                tag(nth(0, k), h("Ok"));
                c.offset.obs(step(nth(0, k), h("offset")));
            }
        }
        k += 1;
    }
}
#[no_mangle]
pub extern "C" fn want_l_ecaps_full() {
    assume(input(0).len() >= 0xf00);
    let mut k = 0;
    while k < 960 {
        tag(nth(0, k), h("Ok"));
        (eplace(k) as u16).obs(step(nth(0, k), h("offset")));
        k += 1;
    }
    tag(nth(0, 960), h("Err"));
    tag(nth(0, 961), h("None"));
}
