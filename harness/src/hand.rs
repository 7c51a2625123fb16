//! Observers written by hand: iterators and types with private fields.
use crate::{h, obs, obs_iter, step, Obs, PEEK};
use pcics::capabilities::*;
use pcics::extended_capabilities::*;
use pcics::header::*;

/// A one-byte newtype whose field is private.
#[inline(always)]
unsafe fn byte_of<T>(x: &T) -> u8 {
    *(x as *const T as *const u8)
}

impl Obs for CapabilityDataError {
    fn obs(&self, _: u64) {}
}
impl Obs for ExtendedCapabilityDataError {
    fn obs(&self, _: u64) {}
}
impl<const N: usize> Obs for BaseAddresses<N> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        self.orig().obs(p);
    }
}
macro_rules! iters { ($($t:ty, $n:expr;)*) => { $(impl<'a> Obs for $t {
    #[inline(never)]
    fn obs(&self, p: u64) { obs_iter(self.clone(), p, $n) }
})* } }
iters! {
    enhanced_allocation::EnhancedAllocationEntries<'a>, PEEK;
    access_control_services::EgressControlVectors<'a>, PEEK;
    multifunction_virtual_channel::ExtendedVirtualChannels<'a>, PEEK;
    multifunction_virtual_channel::FunctionArbitrationTable<'a>, PEEK;
    virtual_channel::ExtendedVirtualChannels<'a>, PEEK;
    virtual_channel::PortArbitrationTable<'a>, PEEK;
    virtual_channel::VcArbitrationTable<'a>, PEEK;
    ResizableBar<'a>, PEEK;
    protocol_multiplexing::PmuxProtocolArray<'a>, PEEK;
}
impl<'a> Obs for root_complex_link_declaration::LinkEntries<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        self.state.obs(step(p, h("state")));
        obs_iter(self.clone(), p, PEEK)
    }
}
impl Obs for multifunction_virtual_channel::FunctionArbitrationTableEntry {
    fn obs(&self, p: u64) {
        obs(p, unsafe { byte_of(self) } as u64, 8)
    }
}
impl Obs for virtual_channel::PortArbitrationTableEntry {
    fn obs(&self, p: u64) {
        obs(p, unsafe { byte_of(self) } as u64, 8)
    }
}
impl Obs for virtual_channel::PortArbitrationTableEntrySize {
    fn obs(&self, p: u64) {
        self.bits().obs(p)
    }
}
impl Obs for virtual_channel::ExtendedVirtualChannelError {
    fn obs(&self, _: u64) {}
}
impl Obs for secondary_pci_express::LaneEqualizationControl {
    #[inline(always)]
    fn obs(&self, p: u64) {
        self.downstream_port_transmitter_preset.obs(step(p, h("downstream_port_transmitter_preset")));
        self.downstream_port_receiver_preset_hint.obs(step(p, h("downstream_port_receiver_preset_hint")));
        self.upstream_port_transmitter_preset.obs(step(p, h("upstream_port_transmitter_preset")));
        self.upstream_port_receiver_preset_hint.obs(step(p, h("upstream_port_receiver_preset_hint")));
    }
}
