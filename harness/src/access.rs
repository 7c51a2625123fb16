//! What the decoded values answer when asked: derived values, lookups, iterators to their end,
//! and encoding back.  `root_x_*` asks the library, `want_x_*` says what must come out, worked out
//! here from the raw registers; the analyzer compares the two for every input.
use crate::{at, fix, h, input, nth, obs, obs_iter, step, sym, tag, Obs};
use core::convert::TryFrom;
use pcics::capabilities::*;
use pcics::extended_capabilities::*;
use pcics::header::*;
use pcics::Header;

/// What `obs_iter` must see.
#[inline(never)]
fn obs_ref<T: Obs, F: Fn(usize) -> Option<T>>(p: u64, n: usize, f: F) {
    let mut i = 0;
    while i < n {
        match f(i) {
            None => {
                tag(nth(p, i), h("None"));
                return;
            }
            Some(x) => {
                tag(nth(p, i), h("Some"));
                x.obs(step(nth(p, i), h("Some")));
            }
        }
        i += 1;
    }
    tag(nth(p, n), if f(n).is_none() { h("None") } else { h("Some") });
}
#[inline(always)]
fn s8(id: u32) -> u8 {
    sym(id, 8) as u8
}
#[inline(always)]
fn s16(id: u32) -> u16 {
    sym(id, 16) as u16
}
#[inline(always)]
fn s32(id: u32) -> u32 {
    sym(id, 32) as u32
}
#[inline(always)]
fn bits(v: u32, lo: u32, n: u32) -> u32 {
    (v >> lo) & (((1u64 << n) - 1) as u32)
}
#[inline(always)]
fn d16(d: &[u8], o: usize) -> u16 {
    d[o] as u16 | (d[o + 1] as u16) << 8
}
#[inline(always)]
fn d32(d: &[u8], o: usize) -> u32 {
    d16(d, o) as u32 | (d16(d, o + 2) as u32) << 16
}
const A: u64 = step(0, h("a"));
const B: u64 = step(0, h("b"));
const C: u64 = step(0, h("c"));
const D: u64 = step(0, h("d"));

macro_rules! pair { ($r:ident $w:ident $a:expr; $b:expr;) => {
    #[no_mangle]
    pub extern "C" fn $r() { $a }
    #[no_mangle]
    pub extern "C" fn $w() { $b }
} }

// ---- header -------------------------------------------------------------------------------
pair! { root_x_hdr_rom want_x_hdr_rom
    if let Ok(hdr) = Header::try_from(input(0)) {
        hdr.header_type.expansion_rom().obs(0)
    };
    {
        let d = input(0);
        if d.len() >= 64 {
            match d[14] & 0x7f {
                0 => Some(d32(d, 0x30)),
                1 => Some(d32(d, 0x38)),
                _ => None,
            }
            .map(|d| ExpansionRom {
                address: d & 0xffff_f800,
                reserved: bits(d, 1, 10) as u16,
                is_enabled: d & 1 != 0,
            })
            .obs(0)
        }
    };
}
pair! { root_x_hdr_cardbus want_x_hdr_cardbus
    {
        fix(1, 14, 2);
        if let Ok(hdr) = Header::try_from(input(1)) {
            if let HeaderType::Cardbus(mut c) = hdr.header_type {
                c.try_set_optional_registers(input(0)).is_ok().obs(A);
                c.subsystem_vendor_id.obs(B);
                c.subsystem_device_id.obs(C);
                c.legacy_mode_base_address.obs(D);
                if let Some(r) = &c.reserved {
                    r.obs(step(0, h("r")));
                }
            }
        }
    };
    {
        fix(1, 14, 2);
        if input(1).len() >= 64 {
            let d = input(0);
            if d.len() >= 64 {
                true.obs(A);
                Some(d16(d, 0)).obs(B);
                Some(d16(d, 2)).obs(C);
                Some(d32(d, 4)).obs(D);
                let mut r = [0u8; 56];
                r.copy_from_slice(&d[8..64]);
                r.obs(step(0, h("r")));
            } else {
                false.obs(A);
                None::<u16>.obs(B);
                None::<u16>.obs(C);
                None::<u32>.obs(D);
            }
        }
    };
}
pair! { root_x_hdr_bridge_io want_x_hdr_bridge_io
    BridgeIoAddressRange::new(s8(0), s8(1), s16(2), s16(3)).obs(0);
    {
        type T = BridgeIoAddressRange;
        let (b, l) = (s8(0), s8(1));
        let r = if b & 15 != l & 15 {
            T::Malformed { base: b, limit: l }
        } else if b == 0 && l == 0 {
            T::NotImplemented
        } else if b & 15 == 0 {
            T::IoAddr16 { base: b as u16 * 256, limit: l as u16 * 256 }
        } else if b & 15 == 1 {
            T::IoAddr32 {
                base: (s16(2) as u32) << 16 | (b as u32 >> 4) << 12,
                limit: (s16(3) as u32) << 16 | (l as u32 >> 4) << 12,
            }
        } else {
            T::Reserved { base: b, limit: l }
        };
        r.obs(0)
    };
}
pair! { root_x_hdr_bridge_mem want_x_hdr_bridge_mem
    BridgePrefetchableMemory::new(s16(0), s16(1), s32(2), s32(3)).obs(0);
    {
        type T = BridgePrefetchableMemory;
        let (b, l) = (s16(0), s16(1));
        let r = if b & 15 != l & 15 {
            T::Malformed { base: b, limit: l }
        } else if b == 0 && l == 0 {
            T::NotImplemented
        } else if b & 15 == 0 {
            T::MemAddr32 { base: (b as u32) << 16, limit: (l as u32) << 16 }
        } else if b & 15 == 1 {
            T::MemAddr64 {
                base: (s32(2) as u64) << 32 | (b as u64 >> 4) << 20,
                limit: (s32(3) as u64) << 32 | (l as u64 >> 4) << 20,
            }
        } else {
            T::Reserved { base: b, limit: l }
        };
        r.obs(0)
    };
}

// ---- base addresses -----------------------------------------------------------------------
#[inline(always)]
fn regs<const N: usize>() -> [u32; N] {
    let mut r = [0; N];
    let mut i = 0;
    while i < N {
        r[i] = s32(i as u32);
        i += 1;
    }
    r
}
/// What the registers from `i` on say: the first base address and where the next one may start.
#[inline(always)]
fn bar<const N: usize>(r: &[u32; N], i: usize) -> Option<(BaseAddress, usize)> {
    type T = BaseAddressType;
    let d = r[i];
    if d == 0 {
        return None;
    }
    let prefetchable = bits(d, 3, 1) != 0;
    let base_address = d & 0xffff_fff0;
    let mut next = i + 1;
    let base_address_type = if d & 1 != 0 {
        T::IoSpace { base_address: d & 0xffff_fffc }
    } else {
        match bits(d, 1, 2) {
            0 => T::MemorySpace32 { prefetchable, base_address },
            1 => T::MemorySpaceBelow1M { prefetchable, base_address },
            3 => T::MemorySpaceReserved { prefetchable, base_address },
            _ if i + 1 == N => T::MemorySpace64Broken { prefetchable },
            _ => {
                next = i + 2;
                T::MemorySpace64 {
                    prefetchable,
                    base_address: (r[i + 1] as u64) << 32 | base_address as u64,
                }
            }
        }
    };
    Some((BaseAddress { region: i, base_address_type }, next))
}
/// Observed by region, so that the position in the sequence does not matter; the order is
/// observed on its own.
#[inline(always)]
fn bars_seen<const N: usize>() {
    let mut it = BaseAddresses::new(regs::<N>());
    let mut last = 0;
    let mut k = 0;
    while k < N {
        match it.next() {
            None => break,
            Some(b) => {
                let r = b.region;
                (r >= last && r < N).obs(at(A, k));
                last = r + 1;
                let mut i = 0;
                while i < N {
                    if r == i {
                        b.base_address_type.obs(at(0, i));
                    }
                    i += 1;
                }
            }
        }
        k += 1;
    }
    k.obs(B);
    it.next().is_none().obs(C);
}
#[inline(always)]
fn bars_want<const N: usize>() {
    let r = regs::<N>();
    let mut k = 0;
    let mut free = 0;
    let mut i = 0;
    while i < N {
        if i >= free {
            if let Some((b, next)) = bar(&r, i) {
                b.base_address_type.obs(at(0, i));
                true.obs(at(A, k));
                k += 1;
                free = next;
            }
        }
        i += 1;
    }
    k.obs(B);
    true.obs(C);
}
pair! { root_x_bars_6 want_x_bars_6 bars_seen::<6>(); bars_want::<6>(); }
pair! { root_x_bars_2 want_x_bars_2 bars_seen::<2>(); bars_want::<2>(); }
pair! { root_x_bars_1 want_x_bars_1 bars_seen::<1>(); bars_want::<1>(); }
#[inline(always)]
fn bars_back<const N: usize>() {
    let a: [u32; N] = BaseAddresses::new(regs::<N>()).collect();
    a.obs(0);
    BaseAddresses::new(regs::<N>()).orig().obs(A);
}
#[inline(always)]
fn bars_back_want<const N: usize>() {
    let r = regs::<N>();
    let mut free = 0;
    let mut i = 0;
    while i < N {
        let d = r[i];
        let v = if i < free || d == 0 {
            d
        } else if d & 1 != 0 {
            d & !2
        } else if d & 6 == 4 {
            if i + 1 < N {
                free = i + 2;
                d
            } else {
                d & 0xc
            }
        } else {
            d
        };
        v.obs(at(0, i));
        i += 1;
    }
    r.obs(A);
}
pair! { root_x_bars_back_6 want_x_bars_back_6 bars_back::<6>(); bars_back_want::<6>(); }
pair! { root_x_bars_back_2 want_x_bars_back_2 bars_back::<2>(); bars_back_want::<2>(); }
pair! { root_x_bars_back_1 want_x_bars_back_1 bars_back::<1>(); bars_back_want::<1>(); }

// ---- class codes --------------------------------------------------------------------------
pair! { root_x_class want_x_class
    ClassCode { base: s8(0), sub: s8(1), interface: s8(2) }.meaning().obs(0);
    crate::class::meaning(s8(0), s8(1), s8(2)).obs(0);
}

// ---- conventional capabilities ------------------------------------------------------------
pair! { root_x_pm_data want_x_pm_data
    if let Ok(pm) = PowerManagementInterface::try_from(input(0)) {
        match pm.data() {
            None => tag(0, h("None")),
            Some(d) => {
                tag(0, h("Some"));
                d.value.obs(A);
                u8::from(d.select).obs(B);
                d.scale.obs(C);
            }
        }
    };
    {
        let d = input(0);
        if d.len() >= 6 {
            if d[5] == 0 {
                tag(0, h("None"));
            } else {
                use power_management_interface::DataScale as S;
                tag(0, h("Some"));
                d[5].obs(A);
                ((d16(d, 2) >> 9) as u8 & 15).obs(B);
                match (d16(d, 2) >> 13) & 3 {
                    0 => S::Unknown,
                    1 => S::Tenth,
                    2 => S::Hundredth,
                    _ => S::Thousandth,
                }
                .obs(C);
            }
        }
    };
}
pair! { root_x_sata_offset want_x_sata_offset
    if let Ok(s) = Sata::try_from(input(0)) {
        s.bar_offset.value().obs(0);
    };
    {
        let d = input(0);
        if d.len() >= 6 {
            (bits(d32(d, 2), 4, 20) << 2).obs(0);
        }
    };
}
pair! { root_x_pcix_values want_x_pcix_values
    if let Ok(x) = PciX::try_from(input(0)) {
        x.command.maximum_memory_read_byte_count.value().obs(A);
        x.command.maximum_outstanding_split_transactions.value().obs(B);
        x.status.designed_maximum_memory_read_byte_count.value().obs(C);
        x.status.designed_maximum_outstanding_split_transactions.value().obs(D);
        x.status.designed_maximum_cumulative_read_size.adqs().obs(step(0, h("adqs")));
        x.status.designed_maximum_cumulative_read_size.bytes().obs(step(0, h("bytes")));
    };
    if let Ok(_) = PciX::try_from(input(0)) {
        let c = d16(input(0), 0) as u32;
        let s = d32(input(0), 2);
        (512usize << bits(c, 2, 2)).obs(A);
        splits(bits(c, 4, 3)).obs(B);
        (512usize << bits(s, 21, 2)).obs(C);
        splits(bits(s, 23, 3)).obs(D);
        (8usize << bits(s, 26, 3)).obs(step(0, h("adqs")));
        (1024usize << bits(s, 26, 3)).obs(step(0, h("bytes")));
    };
}
fn splits(n: u32) -> u8 {
    match n {
        0..=3 => n as u8 + 1,
        4 => 8,
        5 => 12,
        6 => 16,
        _ => 32,
    }
}
pair! { root_x_pcix_bus_mode want_x_pcix_bus_mode
    pci_x::SecondaryStatus::from(s16(0)).secondary_bus_mode_and_frequency().obs(0);
    ((s16(0) >> 6) as u8 & 15).obs(0);
}
pair! { root_x_msi_vectors want_x_msi_vectors
    if let Ok(m) = MessageSignaledInterrups::try_from(input(0)) {
        m.message_control.multiple_message_capable.number_of_vectors().obs(A);
        m.message_control.multiple_message_enable.number_of_vectors().obs(B);
    };
    if let Ok(_) = MessageSignaledInterrups::try_from(input(0)) {
        let c = d16(input(0), 0) as u32;
        (1u8 << bits(c, 1, 3)).obs(A);
        (1u8 << bits(c, 4, 3)).obs(B);
    };
}
pair! { root_x_ht_freq want_x_ht_freq
    {
        let ext = sym(0, 1) != 0;
        match Hypertransport::try_from(input(0)) {
            Ok(Hypertransport::SlaveOrPrimaryInterface(i)) => {
                i.link_freq_0(ext).obs(A);
                i.link_freq_1(ext).obs(B);
                u8::from(&i.revision_id).obs(D);
            }
            Ok(Hypertransport::HostOrSecondaryInterface(i)) => {
                i.link_freq(ext).obs(C);
                u8::from(&i.revision_id).obs(D);
            }
            _ => (),
        }
    };
    {
        let ext = sym(0, 1) != 0;
        let d = input(0);
        match Hypertransport::try_from(input(0)) {
            Ok(Hypertransport::SlaveOrPrimaryInterface(_)) => {
                frequency(ext, d[11] & 15).obs(A);
                frequency(ext, d[15] & 15).obs(B);
                d[10].obs(D);
            }
            Ok(Hypertransport::HostOrSecondaryInterface(_)) => {
                frequency(ext, d[7] & 15).obs(C);
                d[6].obs(D);
            }
            _ => (),
        }
    };
}
fn frequency(ext: bool, v: u8) -> hypertransport::LinkFrequency {
    use hypertransport::LinkFrequency as F;
    match v | (ext as u8) << 4 {
        0 => F::Rate200MHz,
        1 => F::Rate300MHz,
        2 => F::Rate400MHz,
        3 => F::Rate500MHz,
        4 => F::Rate600MHz,
        5 => F::Rate800MHz,
        6 => F::Rate1000MHz,
        7 => F::Rate1200MHz,
        8 => F::Rate1400MHz,
        9 => F::Rate1600MHz,
        10 => F::Rate1800MHz,
        11 => F::Rate2000MHz,
        12 => F::Rate2200MHz,
        13 => F::Rate2400MHz,
        14 => F::Rate2600MHz,
        15 => F::VendorSpecific,
        17 => F::Rate2800MHz,
        18 => F::Rate3000MHz,
        19 => F::Rate3200MHz,
        r => F::Reserved(r),
    }
}
pair! { root_x_ht_msi want_x_ht_msi
    if let Ok(Hypertransport::MsiMapping(m)) = Hypertransport::try_from(input(0)) {
        m.base_address().obs(0);
    };
    if let Ok(Hypertransport::MsiMapping(_)) = Hypertransport::try_from(input(0)) {
        let d = input(0);
        ((d32(d, 6) as u64) << 32 | (d32(d, 2) >> 20 << 20) as u64).obs(0);
    };
}
pair! { root_x_ht_code want_x_ht_code
    if let Ok(t) = Hypertransport::try_from(input(0)) {
        u8::from(&t).obs(0);
    };
    if let Ok(_) = Hypertransport::try_from(input(0)) {
        let c = (d16(input(0), 0) >> 11) as u8;
        (if c < 8 { c & 0b11100 } else { c }).obs(0);
    };
}
pair! { root_x_ecap_header want_x_ecap_header
    {
        let e = ExtendedCapabilityHeader::from(s32(0));
        e.extended_capability_id.obs(A);
        e.capability_version.obs(B);
        e.next_capability_offset.obs(C);
    };
    {
        let v = s32(0);
        (v as u16).obs(A);
        (bits(v, 16, 4) as u8).obs(B);
        (bits(v, 20, 12) as u16).obs(C);
    };
}
pair! { root_x_pcie_kind want_x_pcie_kind
    if let Ok(e) = PciExpress::try_from(input(0)) {
        e.device_type.is_endpoint().obs(A);
        e.device_type.is_root().obs(B);
        e.device_type.is_downstream_port().obs(C);
    };
    if let Ok(_) = PciExpress::try_from(input(0)) {
        let t = (input(0)[0] >> 4) & 15;
        (t == 0 || t == 1 || t == 9).obs(A);
        (t == 4 || t == 10).obs(B);
        (t == 4 || t == 6 || t == 8).obs(C);
    };
}
pair! { root_x_pcie_power want_x_pcie_power
    {
        let p = pci_express::SlotPowerLimit::new(s8(0), sym(1, 2) as u8);
        f32::from(&p).obs(A);
        f32::from(p).obs(B);
    };
    {
        let v = s8(0) as f32;
        let w = match sym(1, 2) {
            0 => v,
            1 => v * 0.1,
            2 => v * 0.01,
            _ => v * 0.001,
        };
        w.obs(A);
        w.obs(B);
    };
}
pair! { root_x_pcie_timeouts want_x_pcie_timeouts
    {
        use pci_express::CompletionTimeoutRanges as R;
        (R::A.start, R::A.end).obs(A);
        (R::B.start, R::B.end).obs(B);
        (R::C.start, R::C.end).obs(C);
        (R::D.start, R::D.end).obs(D);
    };
    {
        (50e-6, 10e-3).obs(A);
        (10e-3, 250e-3).obs(B);
        (250e-3, 4.0).obs(C);
        (4.0, 64.0).obs(D);
    };
}

// ---- extended capabilities ----------------------------------------------------------------
pair! { root_x_dpc_reason want_x_dpc_reason
    {
        let s = downstream_port_containment::DpcStatus::from(s16(0));
        s.dpc_trigger_reason.value().obs(A);
        s.dpc_trigger_reason.extension_value().obs(B);
    };
    {
        let w = s16(0) as u32;
        bits(w, 1, 2).obs8(A);
        (if bits(w, 1, 2) == 3 { bits(w, 5, 2) } else { 0 }).obs8(B);
    };
}
trait Obs8 {
    fn obs8(self, p: u64);
}
impl Obs8 for u32 {
    #[inline(always)]
    fn obs8(self, p: u64) {
        (self as u8).obs(p)
    }
}
pair! { root_x_ltr_value want_x_ltr_value
    (latency_tolerance_reporting::MaxLatency::from(s16(0)).value() as u64).obs(0);
    {
        let w = s16(0) as u32;
        let v = bits(w, 0, 10) as u64;
        match bits(w, 10, 3) {
            0 => v,
            1 => v * 32,
            2 => v * 1024,
            3 => v * 32768,
            4 => v * 1048576,
            5 => v * 33554432,
            _ => 0,
        }
        .obs(0)
    };
}
pair! { root_x_l1pm_value want_x_l1pm_value
    if let Ok(l) = L1PmSubstates::try_from(input(0)) {
        l.l1_pm_substates_capabilities.port_t_power_on.value().obs(A);
        l.l1_pm_substates_control_2.t_power_on.value().obs(B);
        (l.l1_pm_substates_control_1.ltr_l1_2_threshold.value() as u64).obs(C);
    };
    {
        let d = input(0);
        if d.len() >= 12 {
            micros(d[2]).obs(A);
            micros(d[8]).obs(B);
            let t = d16(d, 6);
            (if t >> 13 > 5 { 0 } else { ((t & 0x3ff) as u64) << (t >> 13) * 5 }).obs(C);
        }
    };
}
fn micros(b: u8) -> Option<usize> {
    let v = (b >> 3) as usize;
    match b & 3 {
        0 => Some(v * 2),
        1 => Some(v * 10),
        2 => Some(v * 100),
        _ => None,
    }
}
pair! { root_x_rtr_value want_x_rtr_value
    readiness_time_reporting::ReadinessTime::from(s16(0)).actual_time_value().obs(0);
    {
        let w = s16(0);
        let mut v = (w & 0x1ff) as u64;
        let mut i = 0;
        while i < 7 {
            if i < (w >> 9) & 7 {
                v *= 32;
            }
            i += 1;
        }
        v.obs(0)
    };
}
pair! { root_x_pb_multiplier want_x_pb_multiplier
    power_budgeting::DataScale::from(sym(0, 2) as u8).multiplier().obs(0);
    match sym(0, 2) {
        0 => 1.0,
        1 => 0.1,
        2 => 0.01,
        _ => 0.001,
    }
    .obs(0);
}
pair! { root_x_rebar_power want_x_rebar_power
    {
        let e = resizable_bar::ResizableBarEntry {
            capability: From::<u32>::from(s32(0)),
            control: From::<u32>::from(s32(1)),
        };
        e.is_function_supports_power_of_two(sym(2, 64) as usize).obs(0);
    };
    {
        let p = sym(2, 64);
        let mut r = false;
        if p >= 20 && p < 48 {
            r = s32(0) >> (p as u32 - 16) & 1 != 0;
        }
        if p >= 48 && p < 64 {
            r = s32(1) >> (p as u32 - 32) & 1 != 0;
        }
        r.obs(0)
    };
}
pair! { root_x_rebar want_x_rebar
    match ResizableBar::try_from(input(0)) {
        Ok(it) => obs_iter(it, 0, 6),
        Err(_) => tag(0, h("Err")),
    };
    {
        let d = input(0);
        let n = if d.len() < 12 { 0 } else { (d[8] >> 5) as usize };
        if n == 0 || n > 6 || d.len() < 4 + 8 * n {
            tag(0, h("Err"))
        } else {
            obs_ref(0, 6, |i| if i < n {
                Some(resizable_bar::ResizableBarEntry {
                    capability: From::<u32>::from(d32(d, 4 + 8 * i)),
                    control: From::<u32>::from(d32(d, 8 + 8 * i)),
                })
            } else {
                None
            })
        }
    };
}
pair! { root_x_vc_channels want_x_vc_channels
    if let Ok(v) = VirtualChannel::try_from(input(0)) {
        obs_iter(v.extended_virtual_channels(), 0, 8);
    };
    if let Ok(v) = VirtualChannel::try_from(input(0)) {
        let d = input(0);
        let n = (d[0] & 7) as usize + 1;
        obs_ref(0, 8, |i| if i < n && d.len() >= 12 + 12 * (i + 1) {
            Some(Ok::<_, virtual_channel::ExtendedVirtualChannelError>(virtual_channel::ExtendedVirtualChannel {
                vc_resource_capability: d32(d, 12 + 12 * i).into(),
                vc_resource_control: d32(d, 16 + 12 * i).into(),
                vc_resource_status: d16(d, 22 + 12 * i).into(),
            }))
        } else {
            None
        });
    };
}
pair! { root_x_acs_vectors want_x_acs_vectors
    if let Ok(a) = AccessControlServices::try_from(input(0)) {
        obs_iter(a.egress_control_vectors(), 0, 256);
    };
    {
        let d = input(0);
        if d.len() >= 4 {
            let mut n = d[1] as usize;
            if n == 0 && d[0] & 0x20 != 0 {
                n = 256;
            }
            if d.len() < 4 + (n + 31) / 32 * 4 {
                n = 0;
            }
            obs_ref(0, 256, |i| if i < n { Some(d[4 + i / 8] >> (i % 8) & 1 != 0) } else { None });
        }
    };
}
pair! { root_x_lanes want_x_lanes
    if let Ok(s) = SecondaryPciExpress::try_from(input(0)) {
        obs_iter(s.equalization_control_lanes(From::<u8>::from(s8(0))), 0, 33);
    };
    {
        let d = input(0);
        if d.len() >= 8 {
            let n = s8(0) as usize;
            obs_ref(0, 33, |i| if i < n && d.len() >= 8 + 2 * (i + 1) {
                Some(secondary_pci_express::LaneEqualizationControl::from(d16(d, 8 + 2 * i)))
            } else {
                None
            });
        }
    };
}
pair! { root_x_lane want_x_lane
    secondary_pci_express::LaneEqualizationControl::from(s16(0)).obs(0);
    {
        use pci_express::{ReceiverPresetHint as R, TransmitterPreset as T};
        let w = s16(0) as u32;
        let preset = |v: u32| match v {
            0 => T::P0,
            1 => T::P1,
            2 => T::P2,
            3 => T::P3,
            4 => T::P4,
            5 => T::P5,
            6 => T::P6,
            7 => T::P7,
            8 => T::P8,
            9 => T::P9,
            10 => T::P10,
            v => T::Reserved(v as u8),
        };
        let hint = |v: u32| match v {
            0 => R::Minus6dB,
            1 => R::Minus7dB,
            2 => R::Minus8dB,
            3 => R::Minus9dB,
            4 => R::Minus10dB,
            5 => R::Minus11dB,
            6 => R::Minus12dB,
            _ => R::Reserved,
        };
        secondary_pci_express::LaneEqualizationControl {
            downstream_port_transmitter_preset: preset(bits(w, 0, 4)),
            downstream_port_receiver_preset_hint: hint(bits(w, 4, 3)),
            upstream_port_transmitter_preset: preset(bits(w, 8, 4)),
            upstream_port_receiver_preset_hint: hint(bits(w, 12, 3)),
        }
        .obs(0)
    };
}
pair! { root_x_pmux want_x_pmux
    if let Ok(x) = ProtocolMultiplexing::try_from(input(0)) {
        obs_iter(x.pmux_protocol_array, 0, 64);
    };
    if let Ok(_) = ProtocolMultiplexing::try_from(input(0)) {
        let d = input(0);
        let n = (d[4] & 0x3f) as usize;
        obs_ref(0, 64, |i| if i < n {
            Some(protocol_multiplexing::PmuxProtocolArrayEntry {
                protocol_id: d16(d, 16 + 4 * i),
                authority_id: d16(d, 18 + 4 * i),
            })
        } else {
            None
        });
    };
}
pair! { root_x_links want_x_links
    if let Ok(x) = RootComplexLinkDeclaration::try_from(input(0)) {
        obs_iter(x.link_entries, 0, 8);
    };
    {
        let d = input(0);
        if let Ok(_) = RootComplexLinkDeclaration::try_from(input(0)) {
            let n = d[1] as usize;
            obs_ref(0, 8, |i| if i < n && d.len() >= 12 + 16 * (i + 1) {
                let o = 12 + 16 * i;
                let link_description = root_complex_link_declaration::LinkDescription::from(d32(d, o));
                Some(root_complex_link_declaration::LinkEntry {
                    link_description,
                    link_address: address(d32(d, o) >> 1 & 1 != 0, d32(d, o + 8), d32(d, o + 12)),
                })
            } else {
                None
            });
        }
    };
}
fn address(config: bool, lo: u32, hi: u32) -> root_complex_link_declaration::LinkAddress {
    use root_complex_link_declaration::LinkAddress as L;
    let q = (hi as u64) << 32 | lo as u64;
    if !config {
        L::MemoryMappedSpace(q)
    } else {
        let n = match bits(lo, 0, 3) {
            0 => 8,
            n => n,
        };
        L::ConfigurationSpace {
            n: n as u8,
            reserved: bits(lo, 3, 9) as u16,
            function: bits(lo, 12, 3) as u8,
            device: bits(lo, 15, 5) as u8,
            bus: bits(lo, 20, n) as u8,
            address: q >> (20 + n) << (20 + n),
        }
    }
}
pair! { root_x_link_address want_x_link_address
    {
        let l = root_complex_link_declaration::LinkAddress::new(sym(0, 1) as u8, s32(1), s32(2));
        l.obs(0);
        <[u32; 2]>::from(l).obs(A);
    };
    {
        address(sym(0, 1) != 0, s32(1), s32(2)).obs(0);
        [s32(1), s32(2)].obs(A);
    };
}
pair! { root_x_cxl want_x_cxl
    {
        use pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link as cxl;
        use cxl::pcie_dvsec_for_cxl_device::*;
        CxlRangeSize::new(s32(0), s32(1)).memory_size.obs(A);
        CxlRangeBase::new(s32(0), s32(1)).memory_base.obs(B);
    };
    {
        ((s32(1) as u64) << 32 | (s32(0) & 0xf000_0000) as u64).obs(A);
        ((s32(1) as u64) << 32 | s32(0) as u64).obs(B);
    };
}

// ---- arbitration tables -------------------------------------------------------------------
/// The table of `len` bytes at `off` (from the start of the capability), of which `hdr` bytes
/// are not in `d`.
#[inline(always)]
fn table(d: &[u8], hdr: usize, off: usize, len: usize) -> Option<&[u8]> {
    if off < hdr || d.len() < off - hdr + len {
        None
    } else {
        Some(&d[off - hdr..off - hdr + len])
    }
}
#[inline(always)]
fn phases(select: u8) -> usize {
    match select {
        1 => 32,
        2 => 64,
        3 | 4 => 128,
        5 => 256,
        _ => 0,
    }
}
#[inline(always)]
fn entry(t: &[u8], size: usize, i: usize) -> Option<u8> {
    match size {
        1 if i / 8 < t.len() => Some(t[i / 8] >> i % 8 & 1),
        2 if i / 4 < t.len() => Some(t[i / 4] >> i % 4 * 2 & 3),
        4 if i / 2 < t.len() => Some(t[i / 2] >> i % 2 * 4 & 15),
        8 if i < t.len() => Some(t[i]),
        _ => None,
    }
}
macro_rules! vat { ($r:ident $w:ident $select:expr, $n:expr) => { pair! { $r $w
    {
        fix(0, 8, $select << 1);
        if let Ok(v) = VirtualChannel::try_from(input(0)) {
            obs_iter(v.vc_arbitration_table(), 0, $n + 2);
        }
    };
    {
        fix(0, 8, $select << 1);
        let d = input(0);
        if let Ok(_) = VirtualChannel::try_from(d) {
            let t = table(d, 4, d[7] as usize * 16, if $select > 3 { 0 } else { phases($select) / 2 }).unwrap_or(&[]);
            obs_ref(0, $n + 2, |i| entry(t, 4, i).map(|v| virtual_channel::VcArbitrationTableEntry { vc_id: v & 7 }));
        }
    };
} } }
vat! { root_x_vc_vat_0 want_x_vc_vat_0 0, 0 }
vat! { root_x_vc_vat_1 want_x_vc_vat_1 1, 32 }
vat! { root_x_vc_vat_2 want_x_vc_vat_2 2, 64 }
vat! { root_x_vc_vat_3 want_x_vc_vat_3 3, 128 }
vat! { root_x_vc_vat_4 want_x_vc_vat_4 4, 0 }
/// Entry size `$size` bits, arbitration scheme `$select`.
macro_rules! pat { ($r:ident $w:ident $size:expr, $select:expr, $n:expr) => { pair! { $r $w
    {
        if let Ok(v) = VirtualChannel::try_from(input(0)) {
            if input(0)[1] >> 2 & 3 == $size {
                let evc = virtual_channel::ExtendedVirtualChannel {
                    vc_resource_capability: s32(0).into(),
                    vc_resource_control: (s32(1) & 0xfff1_ffff | $select << 17).into(),
                    vc_resource_status: 0.into(),
                };
                obs_iter(v.port_arbitration_table(&evc), 0, $n + 2);
            }
        }
    };
    {
        let d = input(0);
        if let Ok(_) = VirtualChannel::try_from(d) {
            if d[1] >> 2 & 3 == $size {
                let bits = 1 << $size;
                let t = table(d, 4, (s32(0) >> 24) as usize * 16, phases($select) * bits / 8).unwrap_or(&[]);
                obs_ref(0, $n + 2, |i| entry(t, bits, i));
            }
        }
    };
} } }
pat! { root_x_vc_pat_00 want_x_vc_pat_00 0, 0, 0 }
pat! { root_x_vc_pat_01 want_x_vc_pat_01 0, 1, 32 }
pat! { root_x_vc_pat_05 want_x_vc_pat_05 0, 5, 256 }
pat! { root_x_vc_pat_12 want_x_vc_pat_12 1, 2, 64 }
pat! { root_x_vc_pat_14 want_x_vc_pat_14 1, 4, 128 }
pat! { root_x_vc_pat_16 want_x_vc_pat_16 1, 6, 0 }
pat! { root_x_vc_pat_23 want_x_vc_pat_23 2, 3, 128 }
pat! { root_x_vc_pat_25 want_x_vc_pat_25 2, 5, 256 }
pat! { root_x_vc_pat_31 want_x_vc_pat_31 3, 1, 32 }
pat! { root_x_vc_pat_35 want_x_vc_pat_35 3, 5, 256 }
pat! { root_x_vc_pat_37 want_x_vc_pat_37 3, 7, 0 }
/// All channels; the tables are looked at on their own.
#[inline(always)]
pub fn no_tables<'a>() -> &'a [u8] {
    fix(0, 11, 0);
    let mut i = 0;
    while i < 8 {
        fix(0, 19 + 12 * i, 0);
        i += 1;
    }
    input(0)
}
pair! { root_x_mfvc_channels want_x_mfvc_channels
    if let Ok(v) = MultifunctionVirtualChannel::try_from(no_tables()) {
        let mut it = v.extended_virtual_channels;
        let mut i = 0;
        while i < 9 {
            match it.next() {
                None => {
                    tag(nth(0, i), h("None"));
                    return;
                }
                Some(c) => {
                    tag(nth(0, i), h("Some"));
                    c.vc_resource_capability.obs(nth(A, i));
                    c.vc_resource_control.obs(nth(B, i));
                    c.vc_resource_status.obs(nth(C, i));
                }
            }
            i += 1;
        }
    };
    if let Ok(_) = MultifunctionVirtualChannel::try_from(no_tables()) {
        use multifunction_virtual_channel::*;
        let d = input(0);
        let n = (d[4] & 7) as usize + 1;
        let mut i = 0;
        while i < 9 {
            let o = 16 + 12 * i;
            if i >= n || d.len() < o + 12 {
                tag(nth(0, i), h("None"));
                return;
            }
            tag(nth(0, i), h("Some"));
            VcResourceCapability::from(d32(d, o)).obs(nth(A, i));
            VcResourceControl::from(d32(d, o + 4)).obs(nth(B, i));
            VcResourceStatus::from(d16(d, o + 10)).obs(nth(C, i));
            i += 1;
        }
    };
}
macro_rules! fat { ($r:ident $w:ident $size:expr, $select:expr, $n:expr) => { pair! { $r $w
    {
        fix(0, 11, 0);
        fix(0, 22, $select << 1);
        let d = input(0);
        if d.len() >= 28 && d[5] >> 2 & 3 == $size {
            if let Ok(v) = MultifunctionVirtualChannel::try_from(d) {
                let mut it = v.extended_virtual_channels;
                if let Some(c) = it.next() {
                    if let Some(t) = c.function_arbitration_table {
                        obs_iter(t, 0, $n + 2);
                    }
                }
            }
        }
    };
    {
        fix(0, 11, 0);
        fix(0, 22, $select << 1);
        let d = input(0);
        if d.len() >= 28 && d[5] >> 2 & 3 == $size {
            if let Ok(_) = MultifunctionVirtualChannel::try_from(d) {
                let bits = 1 << $size;
                if d[19] >= 2 {
                    if let Some(t) = table(d, 0, d[19] as usize * 16, phases($select) * bits / 8) {
                        obs_ref(0, $n + 2, |i| entry(t, bits, i));
                    }
                }
            }
        }
    };
} } }
fat! { root_x_mfvc_fat_00 want_x_mfvc_fat_00 0, 0, 0 }
fat! { root_x_mfvc_fat_01 want_x_mfvc_fat_01 0, 1, 32 }
fat! { root_x_mfvc_fat_05 want_x_mfvc_fat_05 0, 5, 256 }
fat! { root_x_mfvc_fat_12 want_x_mfvc_fat_12 1, 2, 64 }
fat! { root_x_mfvc_fat_14 want_x_mfvc_fat_14 1, 4, 128 }
fat! { root_x_mfvc_fat_16 want_x_mfvc_fat_16 1, 6, 0 }
fat! { root_x_mfvc_fat_23 want_x_mfvc_fat_23 2, 3, 128 }
fat! { root_x_mfvc_fat_35 want_x_mfvc_fat_35 3, 5, 256 }
macro_rules! mvat { ($r:ident $w:ident $select:expr, $n:expr) => { pair! { $r $w
    {
        fix(0, 12, $select << 1);
        if let Ok(v) = MultifunctionVirtualChannel::try_from(input(0)) {
            if let Some(t) = v.vc_arbitration_table {
                obs_iter(t, 0, $n + 2);
            }
        }
    };
    {
        fix(0, 12, $select << 1);
        let d = input(0);
        if let Ok(_) = MultifunctionVirtualChannel::try_from(d) {
            if d[11] != 0 {
                if let Some(t) = table(d, 0, d[11] as usize * 16, if $select > 3 { 0 } else { phases($select) / 2 }) {
                    obs_ref(0, $n + 2, |i| entry(t, 4, i).map(|v| virtual_channel::VcArbitrationTableEntry { vc_id: v & 7 }));
                }
            }
        }
    };
} } }
mvat! { root_x_mfvc_vat_0 want_x_mfvc_vat_0 0, 0 }
mvat! { root_x_mfvc_vat_1 want_x_mfvc_vat_1 1, 32 }
mvat! { root_x_mfvc_vat_2 want_x_mfvc_vat_2 2, 64 }
mvat! { root_x_mfvc_vat_3 want_x_mfvc_vat_3 3, 128 }
mvat! { root_x_mfvc_vat_5 want_x_mfvc_vat_5 5, 0 }

// ---- encoding back ------------------------------------------------------------------------
/// Decoding the `$bits` bits of an unknown `$int` as `$t` and encoding again gives them back.
macro_rules! back { ($r:ident $w:ident $t:ty, $int:ty, $bits:expr) => { pair! { $r $w
    <$int>::from(<$t>::from((sym(0, 64) & $bits) as $int)).obs(0);
    ((sym(0, 64) & $bits) as $int).obs(0);
} } }
// src src/header.rs
back! { root_x_rt_bist want_x_rt_bist BuiltInSelfTest, u8, 0xcf }
back! { root_x_rt_pin want_x_rt_pin InterruptPin, u8, 0xff }
back! { root_x_rt_rom want_x_rt_rom ExpansionRom, u32, 0xffff_ffff }
pair! { root_x_rt_rom64 want_x_rt_rom64
    u64::from(ExpansionRom::from(s32(0))).obs(0);
    (s32(0) as u64).obs(0);
}
pair! { root_x_rt_header_type want_x_rt_header_type
    if let Ok(hdr) = Header::try_from(input(0)) {
        u8::from(&hdr.header_type).obs(A);
        u8::from(hdr.header_type).obs(B);
    };
    if let Ok(_) = Header::try_from(input(0)) {
        (input(0)[14] & 0x7f).obs(A);
        (input(0)[14] & 0x7f).obs(B);
    };
}
/// The reserved low bits of the limit are not kept; the upper halves are not used by 16-bit
/// ranges.
pair! { root_x_rt_io_range want_x_rt_io_range
    <[[u16; 2]; 2]>::from(IoAccessAddressRange::from([s16(0), s16(1), s16(2), s16(3)])).obs(0);
    {
        let wide = s16(0) & 3 != 0;
        [
            [s16(0), if wide { s16(1) } else { 0 }],
            [s16(2) & !3, if wide { s16(3) } else { 0 }],
        ]
        .obs(0)
    };
}
// src src/capabilities/power_management_interface.rs
back! { root_x_rt_data_select want_x_rt_data_select power_management_interface::DataSelect, u8, 0xff }
// src src/capabilities/pci_express.rs
back! { root_x_rt_link_speed want_x_rt_link_speed pci_express::LinkSpeed, u8, 0xff }
back! { root_x_rt_link_width want_x_rt_link_width pci_express::LinkWidth, u8, 0xff }
back! { root_x_rt_timeout_ranges want_x_rt_timeout_ranges pci_express::CompletionTimeoutRanges, u8, 0xff }
back! { root_x_rt_tph_completer want_x_rt_tph_completer pci_express::TphCompleter, u8, 0x3 }
back! { root_x_rt_ln_system want_x_rt_ln_system pci_express::LnSystemCls, u8, 0x3 }
back! { root_x_rt_obff want_x_rt_obff pci_express::Obff, u8, 0x3 }
back! { root_x_rt_end_end want_x_rt_end_end pci_express::MaxEndEndTlpPrefixes, u8, 0x3 }
back! { root_x_rt_emergency want_x_rt_emergency pci_express::EmergencyPowerReduction, u8, 0x3 }
back! { root_x_rt_timeout_value want_x_rt_timeout_value pci_express::CompletionTimeoutValue, u8, 0xff }
back! { root_x_rt_obff_enable want_x_rt_obff_enable pci_express::ObffEnable, u8, 0x3 }
pair! { root_x_rt_prefix_blocking want_x_rt_prefix_blocking
    bool::from(pci_express::EndEndTlpPrefixBlocking::from(sym(0, 1) != 0)).obs(0);
    (sym(0, 1) != 0).obs(0);
}
// src src/capabilities/hypertransport.rs
pair! { root_x_rt_revision want_x_rt_revision
    u8::from(&hypertransport::RevisionId::from(s8(0))).obs(0);
    s8(0).obs(0);
}
// src src/capabilities/accelerated_graphics_port.rs
back! { root_x_rt_cal_cycle want_x_rt_cal_cycle accelerated_graphics_port::CalCycle, u8, 0x7 }
back! { root_x_rt_rate_support want_x_rt_rate_support accelerated_graphics_port::DataRateSupport, u8, 0xf }
back! { root_x_rt_rate_enabled want_x_rt_rate_enabled accelerated_graphics_port::DataRateEnabled, u8, 0x7 }
// src src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
back! { root_x_rt_sf_coverage want_x_rt_sf_coverage designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSfCoverage, u8, 0x1f }
// src src/extended_capabilities/latency_tolerance_reporting.rs
back! { root_x_rt_max_latency want_x_rt_max_latency latency_tolerance_reporting::MaxLatency, u16, 0x1fff }
// src src/extended_capabilities/l1_pm_substates.rs
back! { root_x_rt_power_on_scale want_x_rt_power_on_scale l1_pm_substates::PortTPowerOnScale, u8, 0x3 }
pair! { root_x_rt_l1pm want_x_rt_l1pm
    if let Ok(l) = L1PmSubstates::try_from(input(0)) {
        u8::from(l.l1_pm_substates_capabilities.port_t_power_on.clone()).obs(D);
        u32::from(l.l1_pm_substates_capabilities).obs(A);
        u32::from(l.l1_pm_substates_control_1).obs(B);
        u32::from(l.l1_pm_substates_control_2).obs(C);
    };
    {
        let d = input(0);
        if d.len() >= 12 {
            (d[2] & 0xfb).obs(D);
            (d32(d, 0) & 0x00fb_ff1f).obs(A);
            (d32(d, 4) & 0xe3ff_ff0f).obs(B);
            (d32(d, 8) & 0x0000_00fb).obs(C);
        }
    };
}
// src src/extended_capabilities/multifunction_virtual_channel.rs
back! { root_x_rt_fa_select want_x_rt_fa_select multifunction_virtual_channel::FunctionArbitrationSelect, u8, 0xff }
back! { root_x_rt_vc_status want_x_rt_vc_status multifunction_virtual_channel::VcResourceStatus, u16, 0x3 }
back! { root_x_rt_vc_capability want_x_rt_vc_capability multifunction_virtual_channel::VcResourceCapability, u32, 0xff7f_00ff }
back! { root_x_rt_vc_control want_x_rt_vc_control multifunction_virtual_channel::VcResourceControl, u32, 0x870f_00ff }
pair! { root_x_rt_fa_capability want_x_rt_fa_capability
    u8::from(multifunction_virtual_channel::VcResourceCapability::from(s32(0)).function_arbitration_capability).obs(0);
    (s32(0) as u8).obs(0);
}
pair! { root_x_rt_evc want_x_rt_evc
    {
        let mut b = [0u8; 12];
        let mut i = 0;
        while i < 12 {
            b[i] = s8(i as u32);
            i += 1;
        }
        <[u8; 12]>::from(multifunction_virtual_channel::ExtendedVirtualChannel::from(b)).obs(0);
    };
    {
        let keep = [0xff, 0, 0x7f, 0xff, 0xff, 0, 0x0f, 0x87, 0, 0, 0x03, 0];
        let mut b = [0u8; 12];
        let mut i = 0;
        while i < 12 {
            b[i] = s8(i as u32) & keep[i];
            i += 1;
        }
        b.obs(0);
    };
}
// src src/extended_capabilities/virtual_channel.rs
back! { root_x_rt_pa_select want_x_rt_pa_select virtual_channel::PortArbitrationSelect, u8, 0xff }
// src src/extended_capabilities/protocol_multiplexing.rs
pair! { root_x_rt_pmux_entry want_x_rt_pmux_entry
    <[u8; 4]>::from(protocol_multiplexing::PmuxProtocolArrayEntry { protocol_id: s16(0), authority_id: s16(1) }).obs(0);
    [s16(0) as u8, (s16(0) >> 8) as u8, s16(1) as u8, (s16(1) >> 8) as u8].obs(0);
}
// src src/extended_capabilities/root_complex_link_declaration.rs
back! { root_x_rt_element_type want_x_rt_element_type root_complex_link_declaration::ElementType, u8, 0xff }

// ---- one item further: the rest of a list is the list of the rest -------------------------
pair! { root_x_ea_step want_x_ea_step
    {
        let mut it = enhanced_allocation::EnhancedAllocationEntries::new(input(0), s8(0));
        if it.next().is_some() {
            it.next().obs(0);
        }
    };
    {
        let d = input(0);
        let mut it = enhanced_allocation::EnhancedAllocationEntries::new(d, s8(0));
        if it.next().is_some() {
            let rest = d.get(4 * (1 + (d[0] & 7) as usize)..).unwrap_or(&[]);
            enhanced_allocation::EnhancedAllocationEntries::new(rest, s8(0) - 1).next().obs(0);
        }
    };
}
pair! { root_x_link_step want_x_link_step
    {
        let mut it = root_complex_link_declaration::LinkEntries::new(input(0), s8(0));
        if it.next().is_some() {
            it.next().obs(0);
        }
    };
    {
        let mut it = root_complex_link_declaration::LinkEntries::new(input(0), s8(0));
        if it.next().is_some() {
            root_complex_link_declaration::LinkEntries::new(&input(0)[16..], s8(0) - 1).next().obs(0);
        }
    };
}
pair! { root_x_lane_step want_x_lane_step
    {
        let mut it = secondary_pci_express::EqualizationControlLanes::new(input(0));
        if it.next().is_some() {
            it.next().obs(0);
        }
    };
    {
        let mut it = secondary_pci_express::EqualizationControlLanes::new(input(0));
        if it.next().is_some() {
            secondary_pci_express::EqualizationControlLanes::new(&input(0)[2..]).next().obs(0);
        }
    };
}

// ---- with the library's feature caps_ea_real_entry_size -----------------------------------
#[cfg(feature = "real")]
mod real {
    use super::*;
    use enhanced_allocation::EnhancedAllocationEntries as E;
    use enhanced_allocation::ResourceRangeAddress as R;
    #[inline(always)]
    fn size(d: &[u8]) -> usize {
        12 + 4 * (d[4] >> 1 & 1) as usize + 4 * (d[8] >> 1 & 1) as usize
    }
    #[no_mangle]
    pub extern "C" fn root_f_ea() {
        let mut it = E::new(input(0), s8(0));
        let first = it.next();
        tag(0, if first.is_some() { h("Some") } else { h("None") });
        if let Some(e) = first {
            e.base.obs(A);
            e.max_offset.obs(B);
            e.entry_size.obs(D);
            it.next().obs(C);
        }
    }
    #[no_mangle]
    pub extern "C" fn want_f_ea() {
        let d = input(0);
        let some = s8(0) > 0 && d.len() >= 12 && d.len() >= size(d);
        tag(0, if some { h("Some") } else { h("None") });
        if some {
            let b64 = d[4] & 2 != 0;
            let lo = d32(d, 4) & !3;
            let hi = if b64 { d32(d, 12) } else { 0 };
            if b64 { R::U64((hi as u64) << 32 | lo as u64) } else { R::U32(lo) }.obs(A);
            let lo = d32(d, 8) | 3;
            if d[8] & 2 != 0 { R::U64((d32(d, if b64 { 16 } else { 12 }) as u64) << 32 | lo as u64) } else { R::U32(lo) }.obs(B);
            (d[0] & 7).obs(D);
            E::new(&d[size(d)..], s8(0) - 1).next().obs(C);
        }
    }
}
