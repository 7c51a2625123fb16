// Generated by tools/gen_obs.py from the public type definitions; then committed.
#![allow(unused_variables, unreachable_patterns, unused_imports)]
use crate::{h, obs, step, tag, Obs};

impl Obs for pcics::capabilities::CompactPciHotSwap {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::CompactPciResourceControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::PciHotPlug {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::Agp8x {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::SecureDevice {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::CapabilityError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::CapabilityError::Pointer => tag(p, h("Pointer")),
            pcics::capabilities::CapabilityError::Header { ptr, .. } => {
                tag(p, h("Header"));
                ptr.obs(step(step(p, h("Header")), h("ptr")));
            }
            pcics::capabilities::CapabilityError::Data { ptr, source, .. } => {
                tag(p, h("Data"));
                ptr.obs(step(step(p, h("Data")), h("ptr")));
                source.obs(step(step(p, h("Data")), h("source")));
            }
            pcics::capabilities::CapabilityError::PciExpress { ptr, source, .. } => {
                tag(p, h("PciExpress"));
                ptr.obs(step(step(p, h("PciExpress")), h("ptr")));
                source.obs(step(step(p, h("PciExpress")), h("source")));
            }
            pcics::capabilities::CapabilityError::Hypertransport { ptr, source, .. } => {
                tag(p, h("Hypertransport"));
                ptr.obs(step(step(p, h("Hypertransport")), h("ptr")));
                source.obs(step(step(p, h("Hypertransport")), h("source")));
            }
            pcics::capabilities::CapabilityError::VendorSpecific { ptr, source, .. } => {
                tag(p, h("VendorSpecific"));
                ptr.obs(step(step(p, h("VendorSpecific")), h("ptr")));
                source.obs(step(step(p, h("VendorSpecific")), h("source")));
            }
            pcics::capabilities::CapabilityError::MessageSignaledInterrups { ptr, source, .. } => {
                tag(p, h("MessageSignaledInterrups"));
                ptr.obs(step(step(p, h("MessageSignaledInterrups")), h("ptr")));
                source.obs(step(step(p, h("MessageSignaledInterrups")), h("source")));
            }
            pcics::capabilities::CapabilityError::PciX { ptr, source, .. } => {
                tag(p, h("PciX"));
                ptr.obs(step(step(p, h("PciX")), h("ptr")));
                source.obs(step(step(p, h("PciX")), h("source")));
            }
            pcics::capabilities::CapabilityError::PciXBridge { ptr, source, .. } => {
                tag(p, h("PciXBridge"));
                ptr.obs(step(step(p, h("PciXBridge")), h("ptr")));
                source.obs(step(step(p, h("PciXBridge")), h("source")));
            }
            pcics::capabilities::CapabilityError::EnhancedAllocation { ptr, source, .. } => {
                tag(p, h("EnhancedAllocation"));
                ptr.obs(step(step(p, h("EnhancedAllocation")), h("ptr")));
                source.obs(step(step(p, h("EnhancedAllocation")), h("source")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
// private: pcics::capabilities::CapabilityDataError
// private: pcics::capabilities::Capabilities
impl<'a> Obs for pcics::capabilities::Capability<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.pointer.obs(step(p, h("pointer")));
        self.kind.obs(step(p, h("kind")));
    }
}
impl<'a> Obs for pcics::capabilities::CapabilityKind<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::CapabilityKind::NullCapability => tag(p, h("NullCapability")),
            pcics::capabilities::CapabilityKind::PowerManagementInterface(x0) => {
                tag(p, h("PowerManagementInterface"));
                x0.obs(step(p, h("PowerManagementInterface")));
            }
            pcics::capabilities::CapabilityKind::AcceleratedGraphicsPort(x0) => {
                tag(p, h("AcceleratedGraphicsPort"));
                x0.obs(step(p, h("AcceleratedGraphicsPort")));
            }
            pcics::capabilities::CapabilityKind::VitalProductData(x0) => {
                tag(p, h("VitalProductData"));
                x0.obs(step(p, h("VitalProductData")));
            }
            pcics::capabilities::CapabilityKind::SlotIdentification(x0) => {
                tag(p, h("SlotIdentification"));
                x0.obs(step(p, h("SlotIdentification")));
            }
            pcics::capabilities::CapabilityKind::MessageSignaledInterrups(x0) => {
                tag(p, h("MessageSignaledInterrups"));
                x0.obs(step(p, h("MessageSignaledInterrups")));
            }
            pcics::capabilities::CapabilityKind::CompactPciHotSwap(x0) => {
                tag(p, h("CompactPciHotSwap"));
                x0.obs(step(p, h("CompactPciHotSwap")));
            }
            pcics::capabilities::CapabilityKind::PciX(x0) => {
                tag(p, h("PciX"));
                x0.obs(step(p, h("PciX")));
            }
            pcics::capabilities::CapabilityKind::PciXBridge(x0) => {
                tag(p, h("PciXBridge"));
                x0.obs(step(p, h("PciXBridge")));
            }
            pcics::capabilities::CapabilityKind::Hypertransport(x0) => {
                tag(p, h("Hypertransport"));
                x0.obs(step(p, h("Hypertransport")));
            }
            pcics::capabilities::CapabilityKind::VendorSpecific(x0) => {
                tag(p, h("VendorSpecific"));
                x0.obs(step(p, h("VendorSpecific")));
            }
            pcics::capabilities::CapabilityKind::DebugPort(x0) => {
                tag(p, h("DebugPort"));
                x0.obs(step(p, h("DebugPort")));
            }
            pcics::capabilities::CapabilityKind::CompactPciResourceControl(x0) => {
                tag(p, h("CompactPciResourceControl"));
                x0.obs(step(p, h("CompactPciResourceControl")));
            }
            pcics::capabilities::CapabilityKind::PciHotPlug(x0) => {
                tag(p, h("PciHotPlug"));
                x0.obs(step(p, h("PciHotPlug")));
            }
            pcics::capabilities::CapabilityKind::BridgeSubsystemVendorId(x0) => {
                tag(p, h("BridgeSubsystemVendorId"));
                x0.obs(step(p, h("BridgeSubsystemVendorId")));
            }
            pcics::capabilities::CapabilityKind::Agp8x(x0) => {
                tag(p, h("Agp8x"));
                x0.obs(step(p, h("Agp8x")));
            }
            pcics::capabilities::CapabilityKind::SecureDevice(x0) => {
                tag(p, h("SecureDevice"));
                x0.obs(step(p, h("SecureDevice")));
            }
            pcics::capabilities::CapabilityKind::PciExpress(x0) => {
                tag(p, h("PciExpress"));
                x0.obs(step(p, h("PciExpress")));
            }
            pcics::capabilities::CapabilityKind::MsiX(x0) => {
                tag(p, h("MsiX"));
                x0.obs(step(p, h("MsiX")));
            }
            pcics::capabilities::CapabilityKind::Sata(x0) => {
                tag(p, h("Sata"));
                x0.obs(step(p, h("Sata")));
            }
            pcics::capabilities::CapabilityKind::AdvancedFeatures(x0) => {
                tag(p, h("AdvancedFeatures"));
                x0.obs(step(p, h("AdvancedFeatures")));
            }
            pcics::capabilities::CapabilityKind::EnhancedAllocation(x0) => {
                tag(p, h("EnhancedAllocation"));
                x0.obs(step(p, h("EnhancedAllocation")));
            }
            pcics::capabilities::CapabilityKind::FlatteningPortalBridge(x0) => {
                tag(p, h("FlatteningPortalBridge"));
                x0.obs(step(p, h("FlatteningPortalBridge")));
            }
            pcics::capabilities::CapabilityKind::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::accelerated_graphics_port::AcceleratedGraphicsPort {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.identifier.obs(step(p, h("identifier")));
        self.status.obs(step(p, h("status")));
        self.command.obs(step(p, h("command")));
        self.isochronous_status.obs(step(p, h("isochronous_status")));
        self.control.obs(step(p, h("control")));
        self.aperture_size.obs(step(p, h("aperture_size")));
        self.enabled_aperture_page_size.obs(step(p, h("enabled_aperture_page_size")));
        self.gart_pointer.obs(step(p, h("gart_pointer")));
        self.isochronous_command.obs(step(p, h("isochronous_command")));
    }
}
impl Obs for pcics::capabilities::accelerated_graphics_port::Identifier {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.minor.obs(step(p, h("minor")));
        self.major.obs(step(p, h("major")));
    }
}
impl Obs for pcics::capabilities::accelerated_graphics_port::Status {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.rq.obs(step(p, h("rq")));
        self.isoch_support.obs(step(p, h("isoch_support")));
        self.reserved.obs(step(p, h("reserved")));
        self.arqsz.obs(step(p, h("arqsz")));
        self.cal_cycle.obs(step(p, h("cal_cycle")));
        self.sba.obs(step(p, h("sba")));
        self.ita_coh.obs(step(p, h("ita_coh")));
        self.gart64b.obs(step(p, h("gart64b")));
        self.htrans.obs(step(p, h("htrans")));
        self.over4g.obs(step(p, h("over4g")));
        self.fw.obs(step(p, h("fw")));
        self.agp_3_0_mode.obs(step(p, h("agp_3_0_mode")));
        self.rate.obs(step(p, h("rate")));
    }
}
impl Obs for pcics::capabilities::accelerated_graphics_port::CalCycle {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::accelerated_graphics_port::CalCycle::Period4ms => tag(p, h("Period4ms")),
            pcics::capabilities::accelerated_graphics_port::CalCycle::Period16ms => tag(p, h("Period16ms")),
            pcics::capabilities::accelerated_graphics_port::CalCycle::Period64ms => tag(p, h("Period64ms")),
            pcics::capabilities::accelerated_graphics_port::CalCycle::Period256ms => tag(p, h("Period256ms")),
            pcics::capabilities::accelerated_graphics_port::CalCycle::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            pcics::capabilities::accelerated_graphics_port::CalCycle::CalibrationCycleNotNeeded => tag(p, h("CalibrationCycleNotNeeded")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::accelerated_graphics_port::DataRateSupport {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::accelerated_graphics_port::DataRateSupport::Speed4x => tag(p, h("Speed4x")),
            pcics::capabilities::accelerated_graphics_port::DataRateSupport::Speed8x => tag(p, h("Speed8x")),
            pcics::capabilities::accelerated_graphics_port::DataRateSupport::Speed4xAnd8x => tag(p, h("Speed4xAnd8x")),
            pcics::capabilities::accelerated_graphics_port::DataRateSupport::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::accelerated_graphics_port::Command {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.prq.obs(step(p, h("prq")));
        self.parqsz.obs(step(p, h("parqsz")));
        self.pcal_cycle.obs(step(p, h("pcal_cycle")));
        self.sba_enable.obs(step(p, h("sba_enable")));
        self.agp_enable.obs(step(p, h("agp_enable")));
        self.gart64b.obs(step(p, h("gart64b")));
        self.over4g.obs(step(p, h("over4g")));
        self.fw_enable.obs(step(p, h("fw_enable")));
        self.drate.obs(step(p, h("drate")));
    }
}
impl Obs for pcics::capabilities::accelerated_graphics_port::DataRateEnabled {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::accelerated_graphics_port::DataRateEnabled::Speed4x => tag(p, h("Speed4x")),
            pcics::capabilities::accelerated_graphics_port::DataRateEnabled::Speed8x => tag(p, h("Speed8x")),
            pcics::capabilities::accelerated_graphics_port::DataRateEnabled::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::accelerated_graphics_port::IsochronousStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.maxbw.obs(step(p, h("maxbw")));
        self.isoch_n.obs(step(p, h("isoch_n")));
        self.isoch_y.obs(step(p, h("isoch_y")));
        self.isoch_l.obs(step(p, h("isoch_l")));
        self.isoch_error_code.obs(step(p, h("isoch_error_code")));
    }
}
impl Obs for pcics::capabilities::accelerated_graphics_port::IsochY {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.0.obs(p);
    }
}
impl Obs for pcics::capabilities::accelerated_graphics_port::IsochErrorCode {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.0.obs(p);
    }
}
impl Obs for pcics::capabilities::accelerated_graphics_port::Control {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.cal_cycle_dis.obs(step(p, h("cal_cycle_dis")));
        self.aperenb.obs(step(p, h("aperenb")));
        self.gtlben.obs(step(p, h("gtlben")));
    }
}
impl Obs for pcics::capabilities::accelerated_graphics_port::ApertureSize {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.0.obs(p);
    }
}
impl Obs for pcics::capabilities::accelerated_graphics_port::EnabledAperturePageSize {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.0.obs(p);
    }
}
impl Obs for pcics::capabilities::accelerated_graphics_port::GartPointer {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.gartlo.obs(step(p, h("gartlo")));
        self.garthi.obs(step(p, h("garthi")));
    }
}
impl Obs for pcics::capabilities::accelerated_graphics_port::IsochronousCommand {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.pisoch_n.obs(step(p, h("pisoch_n")));
        self.pisoch_y.obs(step(p, h("pisoch_y")));
    }
}
impl Obs for pcics::capabilities::advanced_features::AdvancedFeatures {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.length.obs(step(p, h("length")));
        self.capabilities.obs(step(p, h("capabilities")));
        self.control.obs(step(p, h("control")));
        self.status.obs(step(p, h("status")));
    }
}
impl Obs for pcics::capabilities::advanced_features::Capabilities {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.transactions_pending.obs(step(p, h("transactions_pending")));
        self.function_level_reset.obs(step(p, h("function_level_reset")));
    }
}
impl Obs for pcics::capabilities::advanced_features::Control {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.initiate_flr.obs(step(p, h("initiate_flr")));
    }
}
impl Obs for pcics::capabilities::advanced_features::Status {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.transactions_pending.obs(step(p, h("transactions_pending")));
    }
}
impl Obs for pcics::capabilities::bridge_subsystem_vendor_id::BridgeSubsystemVendorId {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.reserved.obs(step(p, h("reserved")));
        self.subsystem_vendor_id.obs(step(p, h("subsystem_vendor_id")));
        self.subsystem_id.obs(step(p, h("subsystem_id")));
    }
}
impl Obs for pcics::capabilities::debug_port::DebugPort {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.offset.obs(step(p, h("offset")));
        self.bar_number.obs(step(p, h("bar_number")));
    }
}
impl Obs for pcics::capabilities::enhanced_allocation::EnhancedAllocationError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::enhanced_allocation::EnhancedAllocationError::NumEntries => tag(p, h("NumEntries")),
            pcics::capabilities::enhanced_allocation::EnhancedAllocationError::Type1SecondDw => tag(p, h("Type1SecondDw")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl<'a> Obs for pcics::capabilities::enhanced_allocation::EnhancedAllocation<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.num_entries.obs(step(p, h("num_entries")));
        self.type_1_second_dw.obs(step(p, h("type_1_second_dw")));
        self.entries.obs(step(p, h("entries")));
    }
}
// private: pcics::capabilities::enhanced_allocation::EnhancedAllocationEntries
impl Obs for pcics::capabilities::enhanced_allocation::Type1SecondDw {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.fixed_secondary_bus_number.obs(step(p, h("fixed_secondary_bus_number")));
        self.fixed_subordinate_bus_number.obs(step(p, h("fixed_subordinate_bus_number")));
    }
}
impl Obs for pcics::capabilities::enhanced_allocation::EnhancedAllocationEntry {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.entry_size.obs(step(p, h("entry_size")));
        self.bar_equivalent_indicator.obs(step(p, h("bar_equivalent_indicator")));
        self.primary_properties.obs(step(p, h("primary_properties")));
        self.secondary_properties.obs(step(p, h("secondary_properties")));
        self.writable.obs(step(p, h("writable")));
        self.enable.obs(step(p, h("enable")));
        self.base.obs(step(p, h("base")));
        self.max_offset.obs(step(p, h("max_offset")));
    }
}
impl Obs for pcics::capabilities::enhanced_allocation::BarEquivalentIndicator {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::enhanced_allocation::BarEquivalentIndicator::Location10h => tag(p, h("Location10h")),
            pcics::capabilities::enhanced_allocation::BarEquivalentIndicator::Location14h => tag(p, h("Location14h")),
            pcics::capabilities::enhanced_allocation::BarEquivalentIndicator::Location18h => tag(p, h("Location18h")),
            pcics::capabilities::enhanced_allocation::BarEquivalentIndicator::Location1Ch => tag(p, h("Location1Ch")),
            pcics::capabilities::enhanced_allocation::BarEquivalentIndicator::Location20h => tag(p, h("Location20h")),
            pcics::capabilities::enhanced_allocation::BarEquivalentIndicator::Location24h => tag(p, h("Location24h")),
            pcics::capabilities::enhanced_allocation::BarEquivalentIndicator::BehindType1Function => tag(p, h("BehindType1Function")),
            pcics::capabilities::enhanced_allocation::BarEquivalentIndicator::EquivalentNotIndicated => tag(p, h("EquivalentNotIndicated")),
            pcics::capabilities::enhanced_allocation::BarEquivalentIndicator::ExpansionRomBaseAddress => tag(p, h("ExpansionRomBaseAddress")),
            pcics::capabilities::enhanced_allocation::BarEquivalentIndicator::VfBar0 => tag(p, h("VfBar0")),
            pcics::capabilities::enhanced_allocation::BarEquivalentIndicator::VfBar1 => tag(p, h("VfBar1")),
            pcics::capabilities::enhanced_allocation::BarEquivalentIndicator::VfBar2 => tag(p, h("VfBar2")),
            pcics::capabilities::enhanced_allocation::BarEquivalentIndicator::VfBar3 => tag(p, h("VfBar3")),
            pcics::capabilities::enhanced_allocation::BarEquivalentIndicator::VfBar4 => tag(p, h("VfBar4")),
            pcics::capabilities::enhanced_allocation::BarEquivalentIndicator::VfBar5 => tag(p, h("VfBar5")),
            pcics::capabilities::enhanced_allocation::BarEquivalentIndicator::Reserved => tag(p, h("Reserved")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::enhanced_allocation::ResourceDefinition {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::enhanced_allocation::ResourceDefinition::MemorySpaceNonPrefetchable => tag(p, h("MemorySpaceNonPrefetchable")),
            pcics::capabilities::enhanced_allocation::ResourceDefinition::MemorySpacePrefetchable => tag(p, h("MemorySpacePrefetchable")),
            pcics::capabilities::enhanced_allocation::ResourceDefinition::IoSpace => tag(p, h("IoSpace")),
            pcics::capabilities::enhanced_allocation::ResourceDefinition::PfForVfMemorySpacePrefetchable => tag(p, h("PfForVfMemorySpacePrefetchable")),
            pcics::capabilities::enhanced_allocation::ResourceDefinition::PfForVfMemorySpaceNonPrefetchable => tag(p, h("PfForVfMemorySpaceNonPrefetchable")),
            pcics::capabilities::enhanced_allocation::ResourceDefinition::Type1ForAbbMemoryNonPrefetchable => tag(p, h("Type1ForAbbMemoryNonPrefetchable")),
            pcics::capabilities::enhanced_allocation::ResourceDefinition::Type1ForAbbMemoryPrefetchable => tag(p, h("Type1ForAbbMemoryPrefetchable")),
            pcics::capabilities::enhanced_allocation::ResourceDefinition::Type1ForAbbIoSpace => tag(p, h("Type1ForAbbIoSpace")),
            pcics::capabilities::enhanced_allocation::ResourceDefinition::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            pcics::capabilities::enhanced_allocation::ResourceDefinition::UnavailableMemorySpace => tag(p, h("UnavailableMemorySpace")),
            pcics::capabilities::enhanced_allocation::ResourceDefinition::UnavailableIoSpace => tag(p, h("UnavailableIoSpace")),
            pcics::capabilities::enhanced_allocation::ResourceDefinition::Unavailable => tag(p, h("Unavailable")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::enhanced_allocation::ResourceRangeAddress {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::enhanced_allocation::ResourceRangeAddress::U32(x0) => {
                tag(p, h("U32"));
                x0.obs(step(p, h("U32")));
            }
            pcics::capabilities::enhanced_allocation::ResourceRangeAddress::U64(x0) => {
                tag(p, h("U64"));
                x0.obs(step(p, h("U64")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::flattening_portal_bridge::FlatteningPortalBridge {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.reserved.obs(step(p, h("reserved")));
        self.fpb_capabilities.obs(step(p, h("fpb_capabilities")));
        self.fpb_rid_vector_control.obs(step(p, h("fpb_rid_vector_control")));
        self.fpb_mem_low_vector_control.obs(step(p, h("fpb_mem_low_vector_control")));
        self.fpb_mem_high_vector_control.obs(step(p, h("fpb_mem_high_vector_control")));
        self.fpb_vector_access_control.obs(step(p, h("fpb_vector_access_control")));
        self.fpb_vector_access_data.obs(step(p, h("fpb_vector_access_data")));
    }
}
impl Obs for pcics::capabilities::flattening_portal_bridge::FpbCapabilities {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.fpb_rid_decode_mechanism_supported.obs(step(p, h("fpb_rid_decode_mechanism_supported")));
        self.fpb_mem_low_decode_mechanism_supported.obs(step(p, h("fpb_mem_low_decode_mechanism_supported")));
        self.fpb_mem_high_decode_mechanism_supported.obs(step(p, h("fpb_mem_high_decode_mechanism_supported")));
        self.fpb_num_sec_dev.obs(step(p, h("fpb_num_sec_dev")));
        self.fpb_rid_vector_size_supported.obs(step(p, h("fpb_rid_vector_size_supported")));
        self.fpb_mem_low_vector_size_supported.obs(step(p, h("fpb_mem_low_vector_size_supported")));
        self.fpb_mem_high_vector_size_supported.obs(step(p, h("fpb_mem_high_vector_size_supported")));
    }
}
impl Obs for pcics::capabilities::flattening_portal_bridge::FpbRidVectorSizeSupported {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::flattening_portal_bridge::FpbRidVectorSizeSupported::Size256bits => tag(p, h("Size256bits")),
            pcics::capabilities::flattening_portal_bridge::FpbRidVectorSizeSupported::Size1Kbits => tag(p, h("Size1Kbits")),
            pcics::capabilities::flattening_portal_bridge::FpbRidVectorSizeSupported::Size8kbits => tag(p, h("Size8kbits")),
            pcics::capabilities::flattening_portal_bridge::FpbRidVectorSizeSupported::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::flattening_portal_bridge::FpbMemLowVectorSizeSupported {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::flattening_portal_bridge::FpbMemLowVectorSizeSupported::Size256bits => tag(p, h("Size256bits")),
            pcics::capabilities::flattening_portal_bridge::FpbMemLowVectorSizeSupported::Size512bits => tag(p, h("Size512bits")),
            pcics::capabilities::flattening_portal_bridge::FpbMemLowVectorSizeSupported::Size1Kbits => tag(p, h("Size1Kbits")),
            pcics::capabilities::flattening_portal_bridge::FpbMemLowVectorSizeSupported::Size2Kbits => tag(p, h("Size2Kbits")),
            pcics::capabilities::flattening_portal_bridge::FpbMemLowVectorSizeSupported::Size4Kbits => tag(p, h("Size4Kbits")),
            pcics::capabilities::flattening_portal_bridge::FpbMemLowVectorSizeSupported::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorSizeSupported {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorSizeSupported::Size256bits => tag(p, h("Size256bits")),
            pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorSizeSupported::Size512bits => tag(p, h("Size512bits")),
            pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorSizeSupported::Size1Kbits => tag(p, h("Size1Kbits")),
            pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorSizeSupported::Size2Kbits => tag(p, h("Size2Kbits")),
            pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorSizeSupported::Size4Kbits => tag(p, h("Size4Kbits")),
            pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorSizeSupported::Size8Kbits => tag(p, h("Size8Kbits")),
            pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorSizeSupported::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::flattening_portal_bridge::FpbRidVectorControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.fpb_rid_decode_mechanism_enable.obs(step(p, h("fpb_rid_decode_mechanism_enable")));
        self.fpb_rid_vector_granularity.obs(step(p, h("fpb_rid_vector_granularity")));
        self.fpb_rid_vector_start.obs(step(p, h("fpb_rid_vector_start")));
        self.rid_secondary_start.obs(step(p, h("rid_secondary_start")));
    }
}
impl Obs for pcics::capabilities::flattening_portal_bridge::FpbRidVectorGranularity {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::flattening_portal_bridge::FpbRidVectorGranularity::Granularity8RIDs => tag(p, h("Granularity8RIDs")),
            pcics::capabilities::flattening_portal_bridge::FpbRidVectorGranularity::Granularity64RIDs => tag(p, h("Granularity64RIDs")),
            pcics::capabilities::flattening_portal_bridge::FpbRidVectorGranularity::Granularity256RIDs => tag(p, h("Granularity256RIDs")),
            pcics::capabilities::flattening_portal_bridge::FpbRidVectorGranularity::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::flattening_portal_bridge::FpbMemLowVectorControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.fpb_mem_low_decode_mechanism_enable.obs(step(p, h("fpb_mem_low_decode_mechanism_enable")));
        self.fpb_mem_low_vector_granularity.obs(step(p, h("fpb_mem_low_vector_granularity")));
        self.fpb_mem_low_vector_start.obs(step(p, h("fpb_mem_low_vector_start")));
    }
}
impl Obs for pcics::capabilities::flattening_portal_bridge::FpbMemLowVectorGranularity {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::flattening_portal_bridge::FpbMemLowVectorGranularity::Granularity1MB => tag(p, h("Granularity1MB")),
            pcics::capabilities::flattening_portal_bridge::FpbMemLowVectorGranularity::Granularity2MB => tag(p, h("Granularity2MB")),
            pcics::capabilities::flattening_portal_bridge::FpbMemLowVectorGranularity::Granularity4MB => tag(p, h("Granularity4MB")),
            pcics::capabilities::flattening_portal_bridge::FpbMemLowVectorGranularity::Granularity8MB => tag(p, h("Granularity8MB")),
            pcics::capabilities::flattening_portal_bridge::FpbMemLowVectorGranularity::Granularity16MB => tag(p, h("Granularity16MB")),
            pcics::capabilities::flattening_portal_bridge::FpbMemLowVectorGranularity::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.fpb_mem_high_decode_mechanism_enable.obs(step(p, h("fpb_mem_high_decode_mechanism_enable")));
        self.fpb_mem_high_vector_granularity.obs(step(p, h("fpb_mem_high_vector_granularity")));
        self.fpb_mem_high_vector_start.obs(step(p, h("fpb_mem_high_vector_start")));
    }
}
impl Obs for pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorGranularity {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorGranularity::Granularity256MB => tag(p, h("Granularity256MB")),
            pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorGranularity::Granularity512MB => tag(p, h("Granularity512MB")),
            pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorGranularity::Granularity1GB => tag(p, h("Granularity1GB")),
            pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorGranularity::Granularity2GB => tag(p, h("Granularity2GB")),
            pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorGranularity::Granularity4GB => tag(p, h("Granularity4GB")),
            pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorGranularity::Granularity8GB => tag(p, h("Granularity8GB")),
            pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorGranularity::Granularity16GB => tag(p, h("Granularity16GB")),
            pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorGranularity::Granularity32GB => tag(p, h("Granularity32GB")),
            pcics::capabilities::flattening_portal_bridge::FpbMemHighVectorGranularity::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::flattening_portal_bridge::FpbVectorAccessControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.fpb_vector_access_offset.obs(step(p, h("fpb_vector_access_offset")));
        self.fpb_vector_select.obs(step(p, h("fpb_vector_select")));
    }
}
impl Obs for pcics::capabilities::flattening_portal_bridge::FpbVectorSelect {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::flattening_portal_bridge::FpbVectorSelect::Rid => tag(p, h("Rid")),
            pcics::capabilities::flattening_portal_bridge::FpbVectorSelect::MemLow => tag(p, h("MemLow")),
            pcics::capabilities::flattening_portal_bridge::FpbVectorSelect::MemHigh => tag(p, h("MemHigh")),
            pcics::capabilities::flattening_portal_bridge::FpbVectorSelect::Reserved => tag(p, h("Reserved")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::hypertransport::HypertransportError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::hypertransport::HypertransportError::CapabilityType => tag(p, h("CapabilityType")),
            pcics::capabilities::hypertransport::HypertransportError::SlaveOrPrimaryInterface => tag(p, h("SlaveOrPrimaryInterface")),
            pcics::capabilities::hypertransport::HypertransportError::HostOrSecondaryInterface => tag(p, h("HostOrSecondaryInterface")),
            pcics::capabilities::hypertransport::HypertransportError::Switch => tag(p, h("Switch")),
            pcics::capabilities::hypertransport::HypertransportError::ReservedHost => tag(p, h("ReservedHost")),
            pcics::capabilities::hypertransport::HypertransportError::InterruptDiscoveryAndConfiguration => tag(p, h("InterruptDiscoveryAndConfiguration")),
            pcics::capabilities::hypertransport::HypertransportError::RevisionId => tag(p, h("RevisionId")),
            pcics::capabilities::hypertransport::HypertransportError::UnitIdClumping => tag(p, h("UnitIdClumping")),
            pcics::capabilities::hypertransport::HypertransportError::ExtendedConfigurationSpaceAccess => tag(p, h("ExtendedConfigurationSpaceAccess")),
            pcics::capabilities::hypertransport::HypertransportError::AddressMapping => tag(p, h("AddressMapping")),
            pcics::capabilities::hypertransport::HypertransportError::MsiMapping => tag(p, h("MsiMapping")),
            pcics::capabilities::hypertransport::HypertransportError::DirectRoute => tag(p, h("DirectRoute")),
            pcics::capabilities::hypertransport::HypertransportError::VCSet => tag(p, h("VCSet")),
            pcics::capabilities::hypertransport::HypertransportError::X86Encoding => tag(p, h("X86Encoding")),
            pcics::capabilities::hypertransport::HypertransportError::Gen3 => tag(p, h("Gen3")),
            pcics::capabilities::hypertransport::HypertransportError::FunctionLevelExtension => tag(p, h("FunctionLevelExtension")),
            pcics::capabilities::hypertransport::HypertransportError::PowerManagement => tag(p, h("PowerManagement")),
            pcics::capabilities::hypertransport::HypertransportError::HighNodeCount => tag(p, h("HighNodeCount")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::hypertransport::Hypertransport {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::hypertransport::Hypertransport::SlaveOrPrimaryInterface(x0) => {
                tag(p, h("SlaveOrPrimaryInterface"));
                x0.obs(step(p, h("SlaveOrPrimaryInterface")));
            }
            pcics::capabilities::hypertransport::Hypertransport::HostOrSecondaryInterface(x0) => {
                tag(p, h("HostOrSecondaryInterface"));
                x0.obs(step(p, h("HostOrSecondaryInterface")));
            }
            pcics::capabilities::hypertransport::Hypertransport::Switch(x0) => {
                tag(p, h("Switch"));
                x0.obs(step(p, h("Switch")));
            }
            pcics::capabilities::hypertransport::Hypertransport::ReservedHost(x0) => {
                tag(p, h("ReservedHost"));
                x0.obs(step(p, h("ReservedHost")));
            }
            pcics::capabilities::hypertransport::Hypertransport::InterruptDiscoveryAndConfiguration(x0) => {
                tag(p, h("InterruptDiscoveryAndConfiguration"));
                x0.obs(step(p, h("InterruptDiscoveryAndConfiguration")));
            }
            pcics::capabilities::hypertransport::Hypertransport::RevisionId(x0) => {
                tag(p, h("RevisionId"));
                x0.obs(step(p, h("RevisionId")));
            }
            pcics::capabilities::hypertransport::Hypertransport::UnitIdClumping(x0) => {
                tag(p, h("UnitIdClumping"));
                x0.obs(step(p, h("UnitIdClumping")));
            }
            pcics::capabilities::hypertransport::Hypertransport::ExtendedConfigurationSpaceAccess(x0) => {
                tag(p, h("ExtendedConfigurationSpaceAccess"));
                x0.obs(step(p, h("ExtendedConfigurationSpaceAccess")));
            }
            pcics::capabilities::hypertransport::Hypertransport::AddressMapping(x0) => {
                tag(p, h("AddressMapping"));
                x0.obs(step(p, h("AddressMapping")));
            }
            pcics::capabilities::hypertransport::Hypertransport::MsiMapping(x0) => {
                tag(p, h("MsiMapping"));
                x0.obs(step(p, h("MsiMapping")));
            }
            pcics::capabilities::hypertransport::Hypertransport::DirectRoute(x0) => {
                tag(p, h("DirectRoute"));
                x0.obs(step(p, h("DirectRoute")));
            }
            pcics::capabilities::hypertransport::Hypertransport::VCSet(x0) => {
                tag(p, h("VCSet"));
                x0.obs(step(p, h("VCSet")));
            }
            pcics::capabilities::hypertransport::Hypertransport::RetryMode(x0) => {
                tag(p, h("RetryMode"));
                x0.obs(step(p, h("RetryMode")));
            }
            pcics::capabilities::hypertransport::Hypertransport::X86Encoding(x0) => {
                tag(p, h("X86Encoding"));
                x0.obs(step(p, h("X86Encoding")));
            }
            pcics::capabilities::hypertransport::Hypertransport::Gen3(x0) => {
                tag(p, h("Gen3"));
                x0.obs(step(p, h("Gen3")));
            }
            pcics::capabilities::hypertransport::Hypertransport::FunctionLevelExtension(x0) => {
                tag(p, h("FunctionLevelExtension"));
                x0.obs(step(p, h("FunctionLevelExtension")));
            }
            pcics::capabilities::hypertransport::Hypertransport::PowerManagement(x0) => {
                tag(p, h("PowerManagement"));
                x0.obs(step(p, h("PowerManagement")));
            }
            pcics::capabilities::hypertransport::Hypertransport::HighNodeCount(x0) => {
                tag(p, h("HighNodeCount"));
                x0.obs(step(p, h("HighNodeCount")));
            }
            pcics::capabilities::hypertransport::Hypertransport::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::hypertransport::SlaveOrPrimaryInterface {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.command.obs(step(p, h("command")));
        self.link_control_0.obs(step(p, h("link_control_0")));
        self.link_config_0.obs(step(p, h("link_config_0")));
        self.link_control_1.obs(step(p, h("link_control_1")));
        self.link_config_1.obs(step(p, h("link_config_1")));
        self.revision_id.obs(step(p, h("revision_id")));
        self.link_freq_0.obs(step(p, h("link_freq_0")));
        self.link_error_0.obs(step(p, h("link_error_0")));
        self.link_freq_cap_0.obs(step(p, h("link_freq_cap_0")));
        self.feature.obs(step(p, h("feature")));
        self.link_freq_1.obs(step(p, h("link_freq_1")));
        self.link_error_1.obs(step(p, h("link_error_1")));
        self.link_freq_cap_1.obs(step(p, h("link_freq_cap_1")));
        self.enumeration_scratchpad.obs(step(p, h("enumeration_scratchpad")));
        self.error_handling.obs(step(p, h("error_handling")));
        self.mem_base_upper.obs(step(p, h("mem_base_upper")));
        self.mem_limit_upper.obs(step(p, h("mem_limit_upper")));
        self.bus_number.obs(step(p, h("bus_number")));
    }
}
impl Obs for pcics::capabilities::hypertransport::SlaveOrPrimaryCommand {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.base_unitid.obs(step(p, h("base_unitid")));
        self.unit_count.obs(step(p, h("unit_count")));
        self.master_host.obs(step(p, h("master_host")));
        self.default_direction.obs(step(p, h("default_direction")));
        self.drop_on_uninitialized_link.obs(step(p, h("drop_on_uninitialized_link")));
    }
}
impl Obs for pcics::capabilities::hypertransport::LinkControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.source_id_enable.obs(step(p, h("source_id_enable")));
        self.crc_flood_enable.obs(step(p, h("crc_flood_enable")));
        self.crc_start_test.obs(step(p, h("crc_start_test")));
        self.crc_force_error.obs(step(p, h("crc_force_error")));
        self.link_failure.obs(step(p, h("link_failure")));
        self.initialization_complete.obs(step(p, h("initialization_complete")));
        self.end_of_chain.obs(step(p, h("end_of_chain")));
        self.transmitter_off.obs(step(p, h("transmitter_off")));
        self.crc_error.obs(step(p, h("crc_error")));
        self.isochronous_flow_control_enable.obs(step(p, h("isochronous_flow_control_enable")));
        self.ldtstop_tristate_enable.obs(step(p, h("ldtstop_tristate_enable")));
        self.extended_ctl_time.obs(step(p, h("extended_ctl_time")));
        self.enable_64_bit_addressing.obs(step(p, h("enable_64_bit_addressing")));
    }
}
impl Obs for pcics::capabilities::hypertransport::LinkConfiguration {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.max_link_width_in.obs(step(p, h("max_link_width_in")));
        self.doubleword_flow_control_in.obs(step(p, h("doubleword_flow_control_in")));
        self.max_link_width_out.obs(step(p, h("max_link_width_out")));
        self.doubleword_flow_control_out.obs(step(p, h("doubleword_flow_control_out")));
        self.link_width_in.obs(step(p, h("link_width_in")));
        self.doubleword_flow_control_in_enable.obs(step(p, h("doubleword_flow_control_in_enable")));
        self.link_width_out.obs(step(p, h("link_width_out")));
        self.doubleword_flow_control_out_enable.obs(step(p, h("doubleword_flow_control_out_enable")));
    }
}
impl Obs for pcics::capabilities::hypertransport::LinkWidth {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::hypertransport::LinkWidth::Width8bits => tag(p, h("Width8bits")),
            pcics::capabilities::hypertransport::LinkWidth::Width16bits => tag(p, h("Width16bits")),
            pcics::capabilities::hypertransport::LinkWidth::Width32bits => tag(p, h("Width32bits")),
            pcics::capabilities::hypertransport::LinkWidth::Width2bits => tag(p, h("Width2bits")),
            pcics::capabilities::hypertransport::LinkWidth::Width4bits => tag(p, h("Width4bits")),
            pcics::capabilities::hypertransport::LinkWidth::NotConnected => tag(p, h("NotConnected")),
            pcics::capabilities::hypertransport::LinkWidth::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::hypertransport::RevisionId {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.minor.obs(step(p, h("minor")));
        self.major.obs(step(p, h("major")));
    }
}
impl Obs for pcics::capabilities::hypertransport::LinkFrequency {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::hypertransport::LinkFrequency::Rate200MHz => tag(p, h("Rate200MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::Rate300MHz => tag(p, h("Rate300MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::Rate400MHz => tag(p, h("Rate400MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::Rate500MHz => tag(p, h("Rate500MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::Rate600MHz => tag(p, h("Rate600MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::Rate800MHz => tag(p, h("Rate800MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::Rate1000MHz => tag(p, h("Rate1000MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::Rate1200MHz => tag(p, h("Rate1200MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::Rate1400MHz => tag(p, h("Rate1400MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::Rate1600MHz => tag(p, h("Rate1600MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::Rate1800MHz => tag(p, h("Rate1800MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::Rate2000MHz => tag(p, h("Rate2000MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::Rate2200MHz => tag(p, h("Rate2200MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::Rate2400MHz => tag(p, h("Rate2400MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::Rate2600MHz => tag(p, h("Rate2600MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::VendorSpecific => tag(p, h("VendorSpecific")),
            pcics::capabilities::hypertransport::LinkFrequency::Rate2800MHz => tag(p, h("Rate2800MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::Rate3000MHz => tag(p, h("Rate3000MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::Rate3200MHz => tag(p, h("Rate3200MHz")),
            pcics::capabilities::hypertransport::LinkFrequency::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::hypertransport::LinkError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.protocol_error.obs(step(p, h("protocol_error")));
        self.overflow_error.obs(step(p, h("overflow_error")));
        self.end_of_chain_error.obs(step(p, h("end_of_chain_error")));
        self.ctl_timeout.obs(step(p, h("ctl_timeout")));
    }
}
impl Obs for pcics::capabilities::hypertransport::LinkFrequencyCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.supports_200mhz.obs(step(p, h("supports_200mhz")));
        self.supports_300mhz.obs(step(p, h("supports_300mhz")));
        self.supports_400mhz.obs(step(p, h("supports_400mhz")));
        self.supports_500mhz.obs(step(p, h("supports_500mhz")));
        self.supports_600mhz.obs(step(p, h("supports_600mhz")));
        self.supports_800mhz.obs(step(p, h("supports_800mhz")));
        self.supports_1000mhz.obs(step(p, h("supports_1000mhz")));
        self.supports_1200mhz.obs(step(p, h("supports_1200mhz")));
        self.supports_1400mhz.obs(step(p, h("supports_1400mhz")));
        self.supports_1600mhz.obs(step(p, h("supports_1600mhz")));
        self.supports_1800mhz.obs(step(p, h("supports_1800mhz")));
        self.supports_2000mhz.obs(step(p, h("supports_2000mhz")));
        self.supports_2200mhz.obs(step(p, h("supports_2200mhz")));
        self.supports_2400mhz.obs(step(p, h("supports_2400mhz")));
        self.supports_2600mhz.obs(step(p, h("supports_2600mhz")));
        self.supports_vendor_specific.obs(step(p, h("supports_vendor_specific")));
    }
}
impl Obs for pcics::capabilities::hypertransport::FeatureCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.isochronous_flow_control_mode.obs(step(p, h("isochronous_flow_control_mode")));
        self.ldtstop.obs(step(p, h("ldtstop")));
        self.crc_test_mode.obs(step(p, h("crc_test_mode")));
        self.extended_ctl_time_required.obs(step(p, h("extended_ctl_time_required")));
        self.qword_addressing.obs(step(p, h("qword_addressing")));
        self.unitid_reorder_disable.obs(step(p, h("unitid_reorder_disable")));
        self.source_identification_extension.obs(step(p, h("source_identification_extension")));
        self.extended_register_set.obs(step(p, h("extended_register_set")));
        self.upstream_configuration_enable.obs(step(p, h("upstream_configuration_enable")));
    }
}
impl Obs for pcics::capabilities::hypertransport::ErrorHandling {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.protocol_error_flood_enable.obs(step(p, h("protocol_error_flood_enable")));
        self.overflow_error_flood_enable.obs(step(p, h("overflow_error_flood_enable")));
        self.protocol_error_fatal_enable.obs(step(p, h("protocol_error_fatal_enable")));
        self.overflow_error_fatal_enable.obs(step(p, h("overflow_error_fatal_enable")));
        self.end_of_chain_error_fatal_enable.obs(step(p, h("end_of_chain_error_fatal_enable")));
        self.response_error_fatal_enable.obs(step(p, h("response_error_fatal_enable")));
        self.crc_error_fatal_enable.obs(step(p, h("crc_error_fatal_enable")));
        self.system_error_fatal_enable.obs(step(p, h("system_error_fatal_enable")));
        self.chain_fail.obs(step(p, h("chain_fail")));
        self.response_error.obs(step(p, h("response_error")));
        self.protocol_error_nonfatal_enable.obs(step(p, h("protocol_error_nonfatal_enable")));
        self.overflow_error_nonfatal_enable.obs(step(p, h("overflow_error_nonfatal_enable")));
        self.end_of_chain_error_nonfatal_enable.obs(step(p, h("end_of_chain_error_nonfatal_enable")));
        self.response_error_nonfatal_enable.obs(step(p, h("response_error_nonfatal_enable")));
        self.crc_error_nonfatal_enable.obs(step(p, h("crc_error_nonfatal_enable")));
        self.system_error_nonfatal_enable.obs(step(p, h("system_error_nonfatal_enable")));
    }
}
impl Obs for pcics::capabilities::hypertransport::HostOrSecondaryInterface {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.command.obs(step(p, h("command")));
        self.link_control.obs(step(p, h("link_control")));
        self.link_config.obs(step(p, h("link_config")));
        self.revision_id.obs(step(p, h("revision_id")));
        self.link_freq.obs(step(p, h("link_freq")));
        self.link_error.obs(step(p, h("link_error")));
        self.link_freq_cap.obs(step(p, h("link_freq_cap")));
        self.feature.obs(step(p, h("feature")));
        self.enumeration_scratchpad.obs(step(p, h("enumeration_scratchpad")));
        self.error_handling.obs(step(p, h("error_handling")));
        self.mem_base_upper.obs(step(p, h("mem_base_upper")));
        self.mem_limit_upper.obs(step(p, h("mem_limit_upper")));
    }
}
impl Obs for pcics::capabilities::hypertransport::HostOrSecondaryCommand {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.warm_reset.obs(step(p, h("warm_reset")));
        self.double_ended.obs(step(p, h("double_ended")));
        self.device_number.obs(step(p, h("device_number")));
        self.chain_side.obs(step(p, h("chain_side")));
        self.host_hide.obs(step(p, h("host_hide")));
        self.act_as_slave.obs(step(p, h("act_as_slave")));
        self.host_inbound_end_of_chain_error.obs(step(p, h("host_inbound_end_of_chain_error")));
        self.drop_on_uninitialized_link.obs(step(p, h("drop_on_uninitialized_link")));
    }
}
impl Obs for pcics::capabilities::hypertransport::Switch {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::hypertransport::ReservedHost {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::hypertransport::InterruptDiscoveryAndConfiguration {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::hypertransport::UnitIdClumping {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::hypertransport::ExtendedConfigurationSpaceAccess {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::hypertransport::AddressMapping {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::hypertransport::MsiMapping {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.enabled.obs(step(p, h("enabled")));
        self.fixed.obs(step(p, h("fixed")));
        self.base_address_lower.obs(step(p, h("base_address_lower")));
        self.base_address_upper.obs(step(p, h("base_address_upper")));
    }
}
impl Obs for pcics::capabilities::hypertransport::DirectRoute {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::hypertransport::VCSet {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::hypertransport::RetryMode {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::hypertransport::X86Encoding {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::hypertransport::Gen3 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::hypertransport::FunctionLevelExtension {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::hypertransport::PowerManagement {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::hypertransport::HighNodeCount {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::message_signaled_interrups::MessageSignaledInterrupsError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::message_signaled_interrups::MessageSignaledInterrupsError::MessageControl => tag(p, h("MessageControl")),
            pcics::capabilities::message_signaled_interrups::MessageSignaledInterrupsError::Size32bit => tag(p, h("Size32bit")),
            pcics::capabilities::message_signaled_interrups::MessageSignaledInterrupsError::Size64bit => tag(p, h("Size64bit")),
            pcics::capabilities::message_signaled_interrups::MessageSignaledInterrupsError::Size32bitPerVector => tag(p, h("Size32bitPerVector")),
            pcics::capabilities::message_signaled_interrups::MessageSignaledInterrupsError::Size64bitPerVector => tag(p, h("Size64bitPerVector")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::message_signaled_interrups::MessageSignaledInterrups {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.message_control.obs(step(p, h("message_control")));
        self.message_address.obs(step(p, h("message_address")));
        self.message_data.obs(step(p, h("message_data")));
        self.extended_message_data.obs(step(p, h("extended_message_data")));
        self.mask_bits.obs(step(p, h("mask_bits")));
        self.pending_bits.obs(step(p, h("pending_bits")));
    }
}
impl Obs for pcics::capabilities::message_signaled_interrups::MessageControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.msi_enable.obs(step(p, h("msi_enable")));
        self.multiple_message_capable.obs(step(p, h("multiple_message_capable")));
        self.multiple_message_enable.obs(step(p, h("multiple_message_enable")));
        self.a_64_bit_address_capable.obs(step(p, h("a_64_bit_address_capable")));
        self.per_vector_masking_capable.obs(step(p, h("per_vector_masking_capable")));
        self.extended_message_data_capable.obs(step(p, h("extended_message_data_capable")));
        self.extended_message_data_enable.obs(step(p, h("extended_message_data_enable")));
    }
}
impl Obs for pcics::capabilities::message_signaled_interrups::MessageAddress {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::message_signaled_interrups::MessageAddress::Dword(x0) => {
                tag(p, h("Dword"));
                x0.obs(step(p, h("Dword")));
            }
            pcics::capabilities::message_signaled_interrups::MessageAddress::Qword(x0) => {
                tag(p, h("Qword"));
                x0.obs(step(p, h("Qword")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::message_signaled_interrups::MultipleMessage {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.0.obs(p);
    }
}
impl Obs for pcics::capabilities::msi_x::MsiX {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.message_control.obs(step(p, h("message_control")));
        self.table.obs(step(p, h("table")));
        self.pending_bit_array.obs(step(p, h("pending_bit_array")));
    }
}
impl Obs for pcics::capabilities::msi_x::MessageControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.table_size.obs(step(p, h("table_size")));
        self.function_mask.obs(step(p, h("function_mask")));
        self.msi_x_enable.obs(step(p, h("msi_x_enable")));
    }
}
impl Obs for pcics::capabilities::msi_x::Bir {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::msi_x::Bir::Bar10h => tag(p, h("Bar10h")),
            pcics::capabilities::msi_x::Bir::Bar14h => tag(p, h("Bar14h")),
            pcics::capabilities::msi_x::Bir::Bar18h => tag(p, h("Bar18h")),
            pcics::capabilities::msi_x::Bir::Bar1Ch => tag(p, h("Bar1Ch")),
            pcics::capabilities::msi_x::Bir::Bar20h => tag(p, h("Bar20h")),
            pcics::capabilities::msi_x::Bir::Bar24h => tag(p, h("Bar24h")),
            pcics::capabilities::msi_x::Bir::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::msi_x::Table {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.bir.obs(step(p, h("bir")));
        self.offset.obs(step(p, h("offset")));
    }
}
impl Obs for pcics::capabilities::msi_x::PendingBitArray {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.bir.obs(step(p, h("bir")));
        self.offset.obs(step(p, h("offset")));
    }
}
impl Obs for pcics::capabilities::pci_express::PciExpressError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::PciExpressError::RequiredBytesSlice => tag(p, h("RequiredBytesSlice")),
            pcics::capabilities::pci_express::PciExpressError::RootBytesSlice => tag(p, h("RootBytesSlice")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::PciExpress {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.version.obs(step(p, h("version")));
        self.device_type.obs(step(p, h("device_type")));
        self.slot_implemented.obs(step(p, h("slot_implemented")));
        self.interrupt_message_number.obs(step(p, h("interrupt_message_number")));
        self.tcs_routing_support.obs(step(p, h("tcs_routing_support")));
        self.device.obs(step(p, h("device")));
        self.device_2.obs(step(p, h("device_2")));
    }
}
impl Obs for pcics::capabilities::pci_express::DeviceType {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::DeviceType::Endpoint { link, link_2, .. } => {
                tag(p, h("Endpoint"));
                link.obs(step(step(p, h("Endpoint")), h("link")));
                link_2.obs(step(step(p, h("Endpoint")), h("link_2")));
            }
            pcics::capabilities::pci_express::DeviceType::LegacyEndpoint { link, link_2, .. } => {
                tag(p, h("LegacyEndpoint"));
                link.obs(step(step(p, h("LegacyEndpoint")), h("link")));
                link_2.obs(step(step(p, h("LegacyEndpoint")), h("link_2")));
            }
            pcics::capabilities::pci_express::DeviceType::RootComplexIntegratedEndpoint => tag(p, h("RootComplexIntegratedEndpoint")),
            pcics::capabilities::pci_express::DeviceType::RootComplexEventCollector { root, .. } => {
                tag(p, h("RootComplexEventCollector"));
                root.obs(step(step(p, h("RootComplexEventCollector")), h("root")));
            }
            pcics::capabilities::pci_express::DeviceType::RootPort { link, link_2, slot, slot_2, root, .. } => {
                tag(p, h("RootPort"));
                link.obs(step(step(p, h("RootPort")), h("link")));
                link_2.obs(step(step(p, h("RootPort")), h("link_2")));
                slot.obs(step(step(p, h("RootPort")), h("slot")));
                slot_2.obs(step(step(p, h("RootPort")), h("slot_2")));
                root.obs(step(step(p, h("RootPort")), h("root")));
            }
            pcics::capabilities::pci_express::DeviceType::UpstreamPort { link, link_2, .. } => {
                tag(p, h("UpstreamPort"));
                link.obs(step(step(p, h("UpstreamPort")), h("link")));
                link_2.obs(step(step(p, h("UpstreamPort")), h("link_2")));
            }
            pcics::capabilities::pci_express::DeviceType::DownstreamPort { link, link_2, slot, slot_2, .. } => {
                tag(p, h("DownstreamPort"));
                link.obs(step(step(p, h("DownstreamPort")), h("link")));
                link_2.obs(step(step(p, h("DownstreamPort")), h("link_2")));
                slot.obs(step(step(p, h("DownstreamPort")), h("slot")));
                slot_2.obs(step(step(p, h("DownstreamPort")), h("slot_2")));
            }
            pcics::capabilities::pci_express::DeviceType::PcieToPciBridge { link, link_2, .. } => {
                tag(p, h("PcieToPciBridge"));
                link.obs(step(step(p, h("PcieToPciBridge")), h("link")));
                link_2.obs(step(step(p, h("PcieToPciBridge")), h("link_2")));
            }
            pcics::capabilities::pci_express::DeviceType::PciToPcieBridge { link, link_2, slot, slot_2, .. } => {
                tag(p, h("PciToPcieBridge"));
                link.obs(step(step(p, h("PciToPcieBridge")), h("link")));
                link_2.obs(step(step(p, h("PciToPcieBridge")), h("link_2")));
                slot.obs(step(step(p, h("PciToPcieBridge")), h("slot")));
                slot_2.obs(step(step(p, h("PciToPcieBridge")), h("slot_2")));
            }
            pcics::capabilities::pci_express::DeviceType::Reserved { id, link, link_2, slot, slot_2, root, .. } => {
                tag(p, h("Reserved"));
                id.obs(step(step(p, h("Reserved")), h("id")));
                link.obs(step(step(p, h("Reserved")), h("link")));
                link_2.obs(step(step(p, h("Reserved")), h("link_2")));
                slot.obs(step(step(p, h("Reserved")), h("slot")));
                slot_2.obs(step(step(p, h("Reserved")), h("slot_2")));
                root.obs(step(step(p, h("Reserved")), h("root")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::Device {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.capabilities.obs(step(p, h("capabilities")));
        self.control.obs(step(p, h("control")));
        self.status.obs(step(p, h("status")));
    }
}
impl Obs for pcics::capabilities::pci_express::DeviceCapabilities {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.max_payload_size_supported.obs(step(p, h("max_payload_size_supported")));
        self.phantom_functions_supported.obs(step(p, h("phantom_functions_supported")));
        self.extended_tag_field_supported.obs(step(p, h("extended_tag_field_supported")));
        self.endpoint_l0s_acceptable_latency.obs(step(p, h("endpoint_l0s_acceptable_latency")));
        self.endpoint_l1_acceptable_latency.obs(step(p, h("endpoint_l1_acceptable_latency")));
        self.attention_button_present.obs(step(p, h("attention_button_present")));
        self.attention_indicator_present.obs(step(p, h("attention_indicator_present")));
        self.power_indicator_present.obs(step(p, h("power_indicator_present")));
        self.role_based_error_reporting.obs(step(p, h("role_based_error_reporting")));
        self.captured_slot_power_limit.obs(step(p, h("captured_slot_power_limit")));
        self.function_level_reset_capability.obs(step(p, h("function_level_reset_capability")));
    }
}
impl Obs for pcics::capabilities::pci_express::MaxSize {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::MaxSize::B128 => tag(p, h("B128")),
            pcics::capabilities::pci_express::MaxSize::B256 => tag(p, h("B256")),
            pcics::capabilities::pci_express::MaxSize::B512 => tag(p, h("B512")),
            pcics::capabilities::pci_express::MaxSize::B1024 => tag(p, h("B1024")),
            pcics::capabilities::pci_express::MaxSize::B2048 => tag(p, h("B2048")),
            pcics::capabilities::pci_express::MaxSize::B4096 => tag(p, h("B4096")),
            pcics::capabilities::pci_express::MaxSize::Reserved0 => tag(p, h("Reserved0")),
            pcics::capabilities::pci_express::MaxSize::Reserved1 => tag(p, h("Reserved1")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::PhantomFunctionsSupported {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::PhantomFunctionsSupported::NoBits => tag(p, h("NoBits")),
            pcics::capabilities::pci_express::PhantomFunctionsSupported::MostSignificantBit => tag(p, h("MostSignificantBit")),
            pcics::capabilities::pci_express::PhantomFunctionsSupported::TwoMostSignificantBits => tag(p, h("TwoMostSignificantBits")),
            pcics::capabilities::pci_express::PhantomFunctionsSupported::AllBits => tag(p, h("AllBits")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::ExtendedTagFieldSupported {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::ExtendedTagFieldSupported::Five => tag(p, h("Five")),
            pcics::capabilities::pci_express::ExtendedTagFieldSupported::Eight => tag(p, h("Eight")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::EndpointL0sAcceptableLatency {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::EndpointL0sAcceptableLatency::Max64ns => tag(p, h("Max64ns")),
            pcics::capabilities::pci_express::EndpointL0sAcceptableLatency::Max128ns => tag(p, h("Max128ns")),
            pcics::capabilities::pci_express::EndpointL0sAcceptableLatency::Max256ns => tag(p, h("Max256ns")),
            pcics::capabilities::pci_express::EndpointL0sAcceptableLatency::Max512ns => tag(p, h("Max512ns")),
            pcics::capabilities::pci_express::EndpointL0sAcceptableLatency::Max1us => tag(p, h("Max1us")),
            pcics::capabilities::pci_express::EndpointL0sAcceptableLatency::Max2us => tag(p, h("Max2us")),
            pcics::capabilities::pci_express::EndpointL0sAcceptableLatency::Max4us => tag(p, h("Max4us")),
            pcics::capabilities::pci_express::EndpointL0sAcceptableLatency::NoLimit => tag(p, h("NoLimit")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::EndpointL1AcceptableLatency {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::EndpointL1AcceptableLatency::Max1us => tag(p, h("Max1us")),
            pcics::capabilities::pci_express::EndpointL1AcceptableLatency::Max2us => tag(p, h("Max2us")),
            pcics::capabilities::pci_express::EndpointL1AcceptableLatency::Max4us => tag(p, h("Max4us")),
            pcics::capabilities::pci_express::EndpointL1AcceptableLatency::Max8us => tag(p, h("Max8us")),
            pcics::capabilities::pci_express::EndpointL1AcceptableLatency::Max16us => tag(p, h("Max16us")),
            pcics::capabilities::pci_express::EndpointL1AcceptableLatency::Max32us => tag(p, h("Max32us")),
            pcics::capabilities::pci_express::EndpointL1AcceptableLatency::Max64us => tag(p, h("Max64us")),
            pcics::capabilities::pci_express::EndpointL1AcceptableLatency::NoLimit => tag(p, h("NoLimit")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::SlotPowerLimit {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.value.obs(step(p, h("value")));
        self.scale.obs(step(p, h("scale")));
    }
}
impl Obs for pcics::capabilities::pci_express::DeviceControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.correctable_error_reporting_enable.obs(step(p, h("correctable_error_reporting_enable")));
        self.non_fatal_error_reporting_enable.obs(step(p, h("non_fatal_error_reporting_enable")));
        self.fatal_error_reporting_enable.obs(step(p, h("fatal_error_reporting_enable")));
        self.unsupported_request_reporting_enable.obs(step(p, h("unsupported_request_reporting_enable")));
        self.enable_relaxed_ordering.obs(step(p, h("enable_relaxed_ordering")));
        self.max_payload_size.obs(step(p, h("max_payload_size")));
        self.extended_tag_field_enable.obs(step(p, h("extended_tag_field_enable")));
        self.phantom_functions_enable.obs(step(p, h("phantom_functions_enable")));
        self.aux_power_pm_enable.obs(step(p, h("aux_power_pm_enable")));
        self.enable_no_snoop.obs(step(p, h("enable_no_snoop")));
        self.max_read_request_size.obs(step(p, h("max_read_request_size")));
        self.bcre_or_flreset.obs(step(p, h("bcre_or_flreset")));
    }
}
impl Obs for pcics::capabilities::pci_express::DeviceStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.correctable_error_detected.obs(step(p, h("correctable_error_detected")));
        self.non_fatal_error_detected.obs(step(p, h("non_fatal_error_detected")));
        self.fatal_error_detected.obs(step(p, h("fatal_error_detected")));
        self.unsupported_request_detected.obs(step(p, h("unsupported_request_detected")));
        self.aux_power_detected.obs(step(p, h("aux_power_detected")));
        self.transactions_pending.obs(step(p, h("transactions_pending")));
    }
}
impl Obs for pcics::capabilities::pci_express::Link {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.capabilities.obs(step(p, h("capabilities")));
        self.control.obs(step(p, h("control")));
        self.status.obs(step(p, h("status")));
    }
}
impl Obs for pcics::capabilities::pci_express::LinkCapabilities {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.max_link_speed.obs(step(p, h("max_link_speed")));
        self.maximum_link_width.obs(step(p, h("maximum_link_width")));
        self.active_state_power_management_support.obs(step(p, h("active_state_power_management_support")));
        self.l0s_exit_latency.obs(step(p, h("l0s_exit_latency")));
        self.l1_exit_latency.obs(step(p, h("l1_exit_latency")));
        self.clock_power_management.obs(step(p, h("clock_power_management")));
        self.surprise_down_error_reporting_capable.obs(step(p, h("surprise_down_error_reporting_capable")));
        self.data_link_layer_link_active_reporting_capable.obs(step(p, h("data_link_layer_link_active_reporting_capable")));
        self.link_bandwidth_notification_capability.obs(step(p, h("link_bandwidth_notification_capability")));
        self.aspm_optionality_compliance.obs(step(p, h("aspm_optionality_compliance")));
        self.port_number.obs(step(p, h("port_number")));
    }
}
impl Obs for pcics::capabilities::pci_express::LinkSpeed {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::LinkSpeed::Rate2GTps => tag(p, h("Rate2GTps")),
            pcics::capabilities::pci_express::LinkSpeed::Rate5GTps => tag(p, h("Rate5GTps")),
            pcics::capabilities::pci_express::LinkSpeed::Rate8GTps => tag(p, h("Rate8GTps")),
            pcics::capabilities::pci_express::LinkSpeed::Rate16GTps => tag(p, h("Rate16GTps")),
            pcics::capabilities::pci_express::LinkSpeed::Rate32GTps => tag(p, h("Rate32GTps")),
            pcics::capabilities::pci_express::LinkSpeed::Rate64GTps => tag(p, h("Rate64GTps")),
            pcics::capabilities::pci_express::LinkSpeed::RateRsvdp => tag(p, h("RateRsvdp")),
            pcics::capabilities::pci_express::LinkSpeed::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::LinkWidth {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::LinkWidth::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            pcics::capabilities::pci_express::LinkWidth::X1 => tag(p, h("X1")),
            pcics::capabilities::pci_express::LinkWidth::X2 => tag(p, h("X2")),
            pcics::capabilities::pci_express::LinkWidth::X4 => tag(p, h("X4")),
            pcics::capabilities::pci_express::LinkWidth::X8 => tag(p, h("X8")),
            pcics::capabilities::pci_express::LinkWidth::X12 => tag(p, h("X12")),
            pcics::capabilities::pci_express::LinkWidth::X16 => tag(p, h("X16")),
            pcics::capabilities::pci_express::LinkWidth::X32 => tag(p, h("X32")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::ActiveStatePowerManagement {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::ActiveStatePowerManagement::NoAspm => tag(p, h("NoAspm")),
            pcics::capabilities::pci_express::ActiveStatePowerManagement::L0s => tag(p, h("L0s")),
            pcics::capabilities::pci_express::ActiveStatePowerManagement::L1 => tag(p, h("L1")),
            pcics::capabilities::pci_express::ActiveStatePowerManagement::L0sAndL1 => tag(p, h("L0sAndL1")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::L0sExitLatency {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::L0sExitLatency::Lt64ns => tag(p, h("Lt64ns")),
            pcics::capabilities::pci_express::L0sExitLatency::Ge64nsAndLt128ns => tag(p, h("Ge64nsAndLt128ns")),
            pcics::capabilities::pci_express::L0sExitLatency::Ge128nsAndLt256ns => tag(p, h("Ge128nsAndLt256ns")),
            pcics::capabilities::pci_express::L0sExitLatency::Ge256nsAndLt512ns => tag(p, h("Ge256nsAndLt512ns")),
            pcics::capabilities::pci_express::L0sExitLatency::Ge512nsAndLt1us => tag(p, h("Ge512nsAndLt1us")),
            pcics::capabilities::pci_express::L0sExitLatency::Ge1usAndLt2us => tag(p, h("Ge1usAndLt2us")),
            pcics::capabilities::pci_express::L0sExitLatency::Ge2usAndLt4us => tag(p, h("Ge2usAndLt4us")),
            pcics::capabilities::pci_express::L0sExitLatency::Gt4ns => tag(p, h("Gt4ns")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::L1ExitLatency {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::L1ExitLatency::Lt1us => tag(p, h("Lt1us")),
            pcics::capabilities::pci_express::L1ExitLatency::Ge1usAndLt2us => tag(p, h("Ge1usAndLt2us")),
            pcics::capabilities::pci_express::L1ExitLatency::Ge2usAndLt4us => tag(p, h("Ge2usAndLt4us")),
            pcics::capabilities::pci_express::L1ExitLatency::Ge4usAndLt8us => tag(p, h("Ge4usAndLt8us")),
            pcics::capabilities::pci_express::L1ExitLatency::Ge8usAndLt16us => tag(p, h("Ge8usAndLt16us")),
            pcics::capabilities::pci_express::L1ExitLatency::Ge16usAndLt32us => tag(p, h("Ge16usAndLt32us")),
            pcics::capabilities::pci_express::L1ExitLatency::Ge32usAndLt64us => tag(p, h("Ge32usAndLt64us")),
            pcics::capabilities::pci_express::L1ExitLatency::Gt64ns => tag(p, h("Gt64ns")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::LinkControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.active_state_power_management_control.obs(step(p, h("active_state_power_management_control")));
        self.read_completion_boundary.obs(step(p, h("read_completion_boundary")));
        self.link_disable.obs(step(p, h("link_disable")));
        self.retrain_link.obs(step(p, h("retrain_link")));
        self.common_clock_configuration.obs(step(p, h("common_clock_configuration")));
        self.extended_synch.obs(step(p, h("extended_synch")));
        self.enable_clock_power_management.obs(step(p, h("enable_clock_power_management")));
        self.hardware_autonomous_width_disable.obs(step(p, h("hardware_autonomous_width_disable")));
        self.link_bandwidth_management_interrupt_enable.obs(step(p, h("link_bandwidth_management_interrupt_enable")));
        self.link_autonomous_bandwidth_interrupt_enable.obs(step(p, h("link_autonomous_bandwidth_interrupt_enable")));
    }
}
impl Obs for pcics::capabilities::pci_express::ReadCompletionBoundary {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::ReadCompletionBoundary::B64 => tag(p, h("B64")),
            pcics::capabilities::pci_express::ReadCompletionBoundary::B128 => tag(p, h("B128")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::LinkStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.current_link_speed.obs(step(p, h("current_link_speed")));
        self.negotiated_link_width.obs(step(p, h("negotiated_link_width")));
        self.link_training_error.obs(step(p, h("link_training_error")));
        self.link_training.obs(step(p, h("link_training")));
        self.slot_clock_configuration.obs(step(p, h("slot_clock_configuration")));
        self.data_link_layer_link_active.obs(step(p, h("data_link_layer_link_active")));
        self.link_bandwidth_management_status.obs(step(p, h("link_bandwidth_management_status")));
        self.link_autonomous_bandwidth_status.obs(step(p, h("link_autonomous_bandwidth_status")));
    }
}
impl Obs for pcics::capabilities::pci_express::Slot {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.capabilities.obs(step(p, h("capabilities")));
        self.control.obs(step(p, h("control")));
        self.status.obs(step(p, h("status")));
    }
}
impl Obs for pcics::capabilities::pci_express::SlotCapabilities {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.attention_button_present.obs(step(p, h("attention_button_present")));
        self.power_controller_present.obs(step(p, h("power_controller_present")));
        self.mrl_sensor_present.obs(step(p, h("mrl_sensor_present")));
        self.attention_indicator_present.obs(step(p, h("attention_indicator_present")));
        self.power_indicator_present.obs(step(p, h("power_indicator_present")));
        self.hot_plug_surprise.obs(step(p, h("hot_plug_surprise")));
        self.hot_plug_capable.obs(step(p, h("hot_plug_capable")));
        self.slot_power_limit.obs(step(p, h("slot_power_limit")));
        self.electromechanical_interlock_present.obs(step(p, h("electromechanical_interlock_present")));
        self.no_command_completed_support.obs(step(p, h("no_command_completed_support")));
        self.physical_slot_number.obs(step(p, h("physical_slot_number")));
    }
}
impl Obs for pcics::capabilities::pci_express::SlotControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.attention_button_pressed_enable.obs(step(p, h("attention_button_pressed_enable")));
        self.power_fault_detected_enable.obs(step(p, h("power_fault_detected_enable")));
        self.mrl_sensor_changed_enable.obs(step(p, h("mrl_sensor_changed_enable")));
        self.presence_detect_changed_enable.obs(step(p, h("presence_detect_changed_enable")));
        self.command_completed_interrupt_enable.obs(step(p, h("command_completed_interrupt_enable")));
        self.hot_plug_interrupt_enable.obs(step(p, h("hot_plug_interrupt_enable")));
        self.attention_indicator_control.obs(step(p, h("attention_indicator_control")));
        self.power_indicator_control.obs(step(p, h("power_indicator_control")));
        self.power_controller_control.obs(step(p, h("power_controller_control")));
        self.electromechanical_interlock_control.obs(step(p, h("electromechanical_interlock_control")));
        self.data_link_layer_state_changed_enable.obs(step(p, h("data_link_layer_state_changed_enable")));
    }
}
impl Obs for pcics::capabilities::pci_express::IndicatorControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::IndicatorControl::Reserved => tag(p, h("Reserved")),
            pcics::capabilities::pci_express::IndicatorControl::On => tag(p, h("On")),
            pcics::capabilities::pci_express::IndicatorControl::Blink => tag(p, h("Blink")),
            pcics::capabilities::pci_express::IndicatorControl::Off => tag(p, h("Off")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::SlotStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.attention_button_pressed.obs(step(p, h("attention_button_pressed")));
        self.power_fault_detected.obs(step(p, h("power_fault_detected")));
        self.mrl_sensor_changed.obs(step(p, h("mrl_sensor_changed")));
        self.presence_detect_changed.obs(step(p, h("presence_detect_changed")));
        self.command_completed.obs(step(p, h("command_completed")));
        self.mrl_sensor_state.obs(step(p, h("mrl_sensor_state")));
        self.presence_detect_state.obs(step(p, h("presence_detect_state")));
        self.electromechanical_interlock_status.obs(step(p, h("electromechanical_interlock_status")));
        self.data_link_layer_state_changed.obs(step(p, h("data_link_layer_state_changed")));
    }
}
impl Obs for pcics::capabilities::pci_express::Root {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.control.obs(step(p, h("control")));
        self.capabilities.obs(step(p, h("capabilities")));
        self.status.obs(step(p, h("status")));
    }
}
impl Obs for pcics::capabilities::pci_express::RootControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.system_error_on_correctable_error_enable.obs(step(p, h("system_error_on_correctable_error_enable")));
        self.system_error_on_non_fatal_error_enable.obs(step(p, h("system_error_on_non_fatal_error_enable")));
        self.system_error_on_fatal_error_enable.obs(step(p, h("system_error_on_fatal_error_enable")));
        self.pme_interrupt_enable.obs(step(p, h("pme_interrupt_enable")));
        self.crs_software_visibility_enable.obs(step(p, h("crs_software_visibility_enable")));
    }
}
impl Obs for pcics::capabilities::pci_express::RootCapabilities {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.crs_software_visibility.obs(step(p, h("crs_software_visibility")));
    }
}
impl Obs for pcics::capabilities::pci_express::RootStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.pme_requester_id.obs(step(p, h("pme_requester_id")));
        self.pme_status.obs(step(p, h("pme_status")));
        self.pme_pending.obs(step(p, h("pme_pending")));
    }
}
impl Obs for pcics::capabilities::pci_express::Device2 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.capabilities.obs(step(p, h("capabilities")));
        self.control.obs(step(p, h("control")));
        self.status.obs(step(p, h("status")));
    }
}
impl Obs for pcics::capabilities::pci_express::DeviceCapabilities2 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.completion_timeout_ranges_supported.obs(step(p, h("completion_timeout_ranges_supported")));
        self.completion_timeout_disable_supported.obs(step(p, h("completion_timeout_disable_supported")));
        self.ari_forwarding_supported.obs(step(p, h("ari_forwarding_supported")));
        self.atomic_op_routing_supported.obs(step(p, h("atomic_op_routing_supported")));
        self.u32_atomicop_completer_supported.obs(step(p, h("u32_atomicop_completer_supported")));
        self.u64_atomicop_completer_supported.obs(step(p, h("u64_atomicop_completer_supported")));
        self.u128_cas_completer_supported.obs(step(p, h("u128_cas_completer_supported")));
        self.no_ro_enabled_pr_pr_passing.obs(step(p, h("no_ro_enabled_pr_pr_passing")));
        self.ltr_mechanism_supported.obs(step(p, h("ltr_mechanism_supported")));
        self.tph_completer_supported.obs(step(p, h("tph_completer_supported")));
        self.ln_system_cls.obs(step(p, h("ln_system_cls")));
        self.support_10bit_tag_completer.obs(step(p, h("support_10bit_tag_completer")));
        self.support_10bit_tag_requester.obs(step(p, h("support_10bit_tag_requester")));
        self.obff_supported.obs(step(p, h("obff_supported")));
        self.extended_fmt_field_supported.obs(step(p, h("extended_fmt_field_supported")));
        self.end_end_tlp_prefix_supported.obs(step(p, h("end_end_tlp_prefix_supported")));
        self.max_end_end_tlp_prefixes.obs(step(p, h("max_end_end_tlp_prefixes")));
        self.emergency_power_reduction_supported.obs(step(p, h("emergency_power_reduction_supported")));
        self.emergency_power_reduction_initialization_required.obs(step(p, h("emergency_power_reduction_initialization_required")));
        self.frs_supported.obs(step(p, h("frs_supported")));
    }
}
impl Obs for pcics::capabilities::pci_express::CompletionTimeoutRanges {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::CompletionTimeoutRanges::NotSupported => tag(p, h("NotSupported")),
            pcics::capabilities::pci_express::CompletionTimeoutRanges::RangeA => tag(p, h("RangeA")),
            pcics::capabilities::pci_express::CompletionTimeoutRanges::RangeB => tag(p, h("RangeB")),
            pcics::capabilities::pci_express::CompletionTimeoutRanges::RangesAB => tag(p, h("RangesAB")),
            pcics::capabilities::pci_express::CompletionTimeoutRanges::RangesBC => tag(p, h("RangesBC")),
            pcics::capabilities::pci_express::CompletionTimeoutRanges::RangesABC => tag(p, h("RangesABC")),
            pcics::capabilities::pci_express::CompletionTimeoutRanges::RangesBCD => tag(p, h("RangesBCD")),
            pcics::capabilities::pci_express::CompletionTimeoutRanges::RangesABCD => tag(p, h("RangesABCD")),
            pcics::capabilities::pci_express::CompletionTimeoutRanges::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::TphCompleter {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::TphCompleter::NotSupported => tag(p, h("NotSupported")),
            pcics::capabilities::pci_express::TphCompleter::Tph => tag(p, h("Tph")),
            pcics::capabilities::pci_express::TphCompleter::Reserved => tag(p, h("Reserved")),
            pcics::capabilities::pci_express::TphCompleter::TphAndExtendedTph => tag(p, h("TphAndExtendedTph")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::LnSystemCls {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::LnSystemCls::NotSupported => tag(p, h("NotSupported")),
            pcics::capabilities::pci_express::LnSystemCls::Cachelines64Byte => tag(p, h("Cachelines64Byte")),
            pcics::capabilities::pci_express::LnSystemCls::Cachelines128Byte => tag(p, h("Cachelines128Byte")),
            pcics::capabilities::pci_express::LnSystemCls::Reserved => tag(p, h("Reserved")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::Obff {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::Obff::NotSupported => tag(p, h("NotSupported")),
            pcics::capabilities::pci_express::Obff::Message => tag(p, h("Message")),
            pcics::capabilities::pci_express::Obff::Wake => tag(p, h("Wake")),
            pcics::capabilities::pci_express::Obff::WakeAndMessage => tag(p, h("WakeAndMessage")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::MaxEndEndTlpPrefixes {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::MaxEndEndTlpPrefixes::Max4 => tag(p, h("Max4")),
            pcics::capabilities::pci_express::MaxEndEndTlpPrefixes::Max1 => tag(p, h("Max1")),
            pcics::capabilities::pci_express::MaxEndEndTlpPrefixes::Max2 => tag(p, h("Max2")),
            pcics::capabilities::pci_express::MaxEndEndTlpPrefixes::Max3 => tag(p, h("Max3")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::EmergencyPowerReduction {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::EmergencyPowerReduction::NotSupported => tag(p, h("NotSupported")),
            pcics::capabilities::pci_express::EmergencyPowerReduction::DeviceSpecific => tag(p, h("DeviceSpecific")),
            pcics::capabilities::pci_express::EmergencyPowerReduction::FormFactorOrDeviceSpecific => tag(p, h("FormFactorOrDeviceSpecific")),
            pcics::capabilities::pci_express::EmergencyPowerReduction::Reserved => tag(p, h("Reserved")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::DeviceControl2 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.completion_timeout_value.obs(step(p, h("completion_timeout_value")));
        self.completion_timeout_disable.obs(step(p, h("completion_timeout_disable")));
        self.ari_forwarding_enable.obs(step(p, h("ari_forwarding_enable")));
        self.atomic_op_requester_enable.obs(step(p, h("atomic_op_requester_enable")));
        self.atomic_op_egress_blocking.obs(step(p, h("atomic_op_egress_blocking")));
        self.ido_request_enable.obs(step(p, h("ido_request_enable")));
        self.ido_completion_enable.obs(step(p, h("ido_completion_enable")));
        self.ltr_mechanism_enable.obs(step(p, h("ltr_mechanism_enable")));
        self.emergency_power_reduction_request.obs(step(p, h("emergency_power_reduction_request")));
        self.enable_10bit_tag_requester.obs(step(p, h("enable_10bit_tag_requester")));
        self.obff_enable.obs(step(p, h("obff_enable")));
        self.end_end_tlp_prefix_blocking.obs(step(p, h("end_end_tlp_prefix_blocking")));
    }
}
impl Obs for pcics::capabilities::pci_express::CompletionTimeoutValue {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::CompletionTimeoutValue::DefaultRange50usTo50ms => tag(p, h("DefaultRange50usTo50ms")),
            pcics::capabilities::pci_express::CompletionTimeoutValue::RangeA50usTo100us => tag(p, h("RangeA50usTo100us")),
            pcics::capabilities::pci_express::CompletionTimeoutValue::RangeA1msTo10ms => tag(p, h("RangeA1msTo10ms")),
            pcics::capabilities::pci_express::CompletionTimeoutValue::RangeB16msTo55mss => tag(p, h("RangeB16msTo55mss")),
            pcics::capabilities::pci_express::CompletionTimeoutValue::RangeB65msTo210ms => tag(p, h("RangeB65msTo210ms")),
            pcics::capabilities::pci_express::CompletionTimeoutValue::RangeC260msTo900ms => tag(p, h("RangeC260msTo900ms")),
            pcics::capabilities::pci_express::CompletionTimeoutValue::RangeC1000msTo3500ms => tag(p, h("RangeC1000msTo3500ms")),
            pcics::capabilities::pci_express::CompletionTimeoutValue::RangeD4sTo13s => tag(p, h("RangeD4sTo13s")),
            pcics::capabilities::pci_express::CompletionTimeoutValue::RangeD17sTo64s => tag(p, h("RangeD17sTo64s")),
            pcics::capabilities::pci_express::CompletionTimeoutValue::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::ObffEnable {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::ObffEnable::Disabled => tag(p, h("Disabled")),
            pcics::capabilities::pci_express::ObffEnable::MessageSignalingA => tag(p, h("MessageSignalingA")),
            pcics::capabilities::pci_express::ObffEnable::MessageSignalingB => tag(p, h("MessageSignalingB")),
            pcics::capabilities::pci_express::ObffEnable::WakeSignaling => tag(p, h("WakeSignaling")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::DeviceStatus2 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::pci_express::EndEndTlpPrefixBlocking {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::EndEndTlpPrefixBlocking::ForwardingEnabled => tag(p, h("ForwardingEnabled")),
            pcics::capabilities::pci_express::EndEndTlpPrefixBlocking::ForwardingBlocked => tag(p, h("ForwardingBlocked")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::Link2 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.capabilities.obs(step(p, h("capabilities")));
        self.control.obs(step(p, h("control")));
        self.status.obs(step(p, h("status")));
    }
}
impl Obs for pcics::capabilities::pci_express::LinkCapabilities2 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.supported_link_speeds_vector.obs(step(p, h("supported_link_speeds_vector")));
        self.crosslink_supported.obs(step(p, h("crosslink_supported")));
        self.lower_skp_os_generation_supported_speeds_vector.obs(step(p, h("lower_skp_os_generation_supported_speeds_vector")));
        self.lower_skp_os_reception_supported_speeds_vector.obs(step(p, h("lower_skp_os_reception_supported_speeds_vector")));
        self.retimer_presence_detect_supported.obs(step(p, h("retimer_presence_detect_supported")));
        self.two_retimers_presence_detect_supported.obs(step(p, h("two_retimers_presence_detect_supported")));
        self.drs_supported.obs(step(p, h("drs_supported")));
    }
}
impl Obs for pcics::capabilities::pci_express::SupportedLinkSpeedsVector {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.speed_2_5_gtps.obs(step(p, h("speed_2_5_gtps")));
        self.speed_5_0_gtps.obs(step(p, h("speed_5_0_gtps")));
        self.speed_8_0_gtps.obs(step(p, h("speed_8_0_gtps")));
        self.speed_16_0_gtps.obs(step(p, h("speed_16_0_gtps")));
        self.speed_32_0_gtps.obs(step(p, h("speed_32_0_gtps")));
        self.speed_64_0_gtps.obs(step(p, h("speed_64_0_gtps")));
        self.reserved.obs(step(p, h("reserved")));
    }
}
impl Obs for pcics::capabilities::pci_express::LinkControl2 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.target_link_speed.obs(step(p, h("target_link_speed")));
        self.enter_compliance.obs(step(p, h("enter_compliance")));
        self.hardware_autonomous_speed_disable.obs(step(p, h("hardware_autonomous_speed_disable")));
        self.selectable_de_emphasis.obs(step(p, h("selectable_de_emphasis")));
        self.transmit_margin.obs(step(p, h("transmit_margin")));
        self.enter_modified_compliance.obs(step(p, h("enter_modified_compliance")));
        self.compliance_sos.obs(step(p, h("compliance_sos")));
        self.compliance_preset_or_de_emphasis.obs(step(p, h("compliance_preset_or_de_emphasis")));
    }
}
impl Obs for pcics::capabilities::pci_express::DeEmphasis {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::DeEmphasis::Minus3_5dB => tag(p, h("Minus3_5dB")),
            pcics::capabilities::pci_express::DeEmphasis::Minus6dB => tag(p, h("Minus6dB")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::TransmitMargin {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.0.obs(p);
    }
}
impl Obs for pcics::capabilities::pci_express::CompliancePresetOrDeEmphasis {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.0.obs(p);
    }
}
impl Obs for pcics::capabilities::pci_express::LinkStatus2 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.current_de_emphasis_level.obs(step(p, h("current_de_emphasis_level")));
        self.equalization_complete.obs(step(p, h("equalization_complete")));
        self.equalization_phase_1_successful.obs(step(p, h("equalization_phase_1_successful")));
        self.equalization_phase_2_successful.obs(step(p, h("equalization_phase_2_successful")));
        self.equalization_phase_3_successful.obs(step(p, h("equalization_phase_3_successful")));
        self.link_equalization_request.obs(step(p, h("link_equalization_request")));
        self.retimer_presence_detected.obs(step(p, h("retimer_presence_detected")));
        self.two_retimers_presence_detected.obs(step(p, h("two_retimers_presence_detected")));
        self.crosslink_resolution.obs(step(p, h("crosslink_resolution")));
        self.downstream_component_presence.obs(step(p, h("downstream_component_presence")));
        self.drs_message_received.obs(step(p, h("drs_message_received")));
    }
}
impl Obs for pcics::capabilities::pci_express::CrosslinkResolution {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::CrosslinkResolution::NotSupported => tag(p, h("NotSupported")),
            pcics::capabilities::pci_express::CrosslinkResolution::UpstreamPort => tag(p, h("UpstreamPort")),
            pcics::capabilities::pci_express::CrosslinkResolution::DownstreamPort => tag(p, h("DownstreamPort")),
            pcics::capabilities::pci_express::CrosslinkResolution::NotCompleted => tag(p, h("NotCompleted")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::DownstreamComponentPresence {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::DownstreamComponentPresence::DownNotDetermined => tag(p, h("DownNotDetermined")),
            pcics::capabilities::pci_express::DownstreamComponentPresence::DownNotPresent => tag(p, h("DownNotPresent")),
            pcics::capabilities::pci_express::DownstreamComponentPresence::DownPresent => tag(p, h("DownPresent")),
            pcics::capabilities::pci_express::DownstreamComponentPresence::UpPresent => tag(p, h("UpPresent")),
            pcics::capabilities::pci_express::DownstreamComponentPresence::UpPresentAndDrsReceived => tag(p, h("UpPresentAndDrsReceived")),
            pcics::capabilities::pci_express::DownstreamComponentPresence::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::Slot2 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.capabilities.obs(step(p, h("capabilities")));
        self.control.obs(step(p, h("control")));
        self.status.obs(step(p, h("status")));
    }
}
impl Obs for pcics::capabilities::pci_express::SlotCapabilities2 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::pci_express::SlotControl2 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::pci_express::SlotStatus2 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::capabilities::pci_express::TransmitterPreset {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::TransmitterPreset::P0 => tag(p, h("P0")),
            pcics::capabilities::pci_express::TransmitterPreset::P1 => tag(p, h("P1")),
            pcics::capabilities::pci_express::TransmitterPreset::P2 => tag(p, h("P2")),
            pcics::capabilities::pci_express::TransmitterPreset::P3 => tag(p, h("P3")),
            pcics::capabilities::pci_express::TransmitterPreset::P4 => tag(p, h("P4")),
            pcics::capabilities::pci_express::TransmitterPreset::P5 => tag(p, h("P5")),
            pcics::capabilities::pci_express::TransmitterPreset::P6 => tag(p, h("P6")),
            pcics::capabilities::pci_express::TransmitterPreset::P7 => tag(p, h("P7")),
            pcics::capabilities::pci_express::TransmitterPreset::P8 => tag(p, h("P8")),
            pcics::capabilities::pci_express::TransmitterPreset::P9 => tag(p, h("P9")),
            pcics::capabilities::pci_express::TransmitterPreset::P10 => tag(p, h("P10")),
            pcics::capabilities::pci_express::TransmitterPreset::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_express::ReceiverPresetHint {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_express::ReceiverPresetHint::Minus6dB => tag(p, h("Minus6dB")),
            pcics::capabilities::pci_express::ReceiverPresetHint::Minus7dB => tag(p, h("Minus7dB")),
            pcics::capabilities::pci_express::ReceiverPresetHint::Minus8dB => tag(p, h("Minus8dB")),
            pcics::capabilities::pci_express::ReceiverPresetHint::Minus9dB => tag(p, h("Minus9dB")),
            pcics::capabilities::pci_express::ReceiverPresetHint::Minus10dB => tag(p, h("Minus10dB")),
            pcics::capabilities::pci_express::ReceiverPresetHint::Minus11dB => tag(p, h("Minus11dB")),
            pcics::capabilities::pci_express::ReceiverPresetHint::Minus12dB => tag(p, h("Minus12dB")),
            pcics::capabilities::pci_express::ReceiverPresetHint::Reserved => tag(p, h("Reserved")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_x::PciXError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_x::PciXError::CommandAndStatus => tag(p, h("CommandAndStatus")),
            pcics::capabilities::pci_x::PciXError::EccMode2Only => tag(p, h("EccMode2Only")),
            pcics::capabilities::pci_x::PciXError::EccMode1OrMode2 => tag(p, h("EccMode1OrMode2")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_x::PciX {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.command.obs(step(p, h("command")));
        self.status.obs(step(p, h("status")));
        self.ecc.obs(step(p, h("ecc")));
    }
}
impl Obs for pcics::capabilities::pci_x::Command {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.uncorrectable_data_error_recovery_enable.obs(step(p, h("uncorrectable_data_error_recovery_enable")));
        self.enable_relaxed_ordering.obs(step(p, h("enable_relaxed_ordering")));
        self.maximum_memory_read_byte_count.obs(step(p, h("maximum_memory_read_byte_count")));
        self.maximum_outstanding_split_transactions.obs(step(p, h("maximum_outstanding_split_transactions")));
    }
}
impl Obs for pcics::capabilities::pci_x::MaximumByteCount {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.0.obs(p);
    }
}
impl Obs for pcics::capabilities::pci_x::MaximumOutstandingSplitTransactions {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.0.obs(p);
    }
}
impl Obs for pcics::capabilities::pci_x::Status {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.function_number.obs(step(p, h("function_number")));
        self.device_number.obs(step(p, h("device_number")));
        self.bus_number.obs(step(p, h("bus_number")));
        self.device_64_bit.obs(step(p, h("device_64_bit")));
        self.pci_x_133_capable.obs(step(p, h("pci_x_133_capable")));
        self.slit_completion_discarded.obs(step(p, h("slit_completion_discarded")));
        self.unexpected_split_completion.obs(step(p, h("unexpected_split_completion")));
        self.device_complexity.obs(step(p, h("device_complexity")));
        self.designed_maximum_memory_read_byte_count.obs(step(p, h("designed_maximum_memory_read_byte_count")));
        self.designed_maximum_outstanding_split_transactions.obs(step(p, h("designed_maximum_outstanding_split_transactions")));
        self.designed_maximum_cumulative_read_size.obs(step(p, h("designed_maximum_cumulative_read_size")));
        self.received_split_completion_error_message.obs(step(p, h("received_split_completion_error_message")));
        self.pci_x_266_capable.obs(step(p, h("pci_x_266_capable")));
        self.pci_x_533_capable.obs(step(p, h("pci_x_533_capable")));
    }
}
impl Obs for pcics::capabilities::pci_x::DeviceComplexity {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_x::DeviceComplexity::Simple => tag(p, h("Simple")),
            pcics::capabilities::pci_x::DeviceComplexity::Bridge => tag(p, h("Bridge")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_x::MaximumCumulativeReadSize {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.0.obs(p);
    }
}
impl Obs for pcics::capabilities::pci_x::Ecc {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_x::Ecc::None => tag(p, h("None")),
            pcics::capabilities::pci_x::Ecc::Mode2Only { control_and_status, first_address, second_address, attribute, .. } => {
                tag(p, h("Mode2Only"));
                control_and_status.obs(step(step(p, h("Mode2Only")), h("control_and_status")));
                first_address.obs(step(step(p, h("Mode2Only")), h("first_address")));
                second_address.obs(step(step(p, h("Mode2Only")), h("second_address")));
                attribute.obs(step(step(p, h("Mode2Only")), h("attribute")));
            }
            pcics::capabilities::pci_x::Ecc::Mode1OrMode2 { control_and_status, first_address, second_address, attribute, .. } => {
                tag(p, h("Mode1OrMode2"));
                control_and_status.obs(step(step(p, h("Mode1OrMode2")), h("control_and_status")));
                first_address.obs(step(step(p, h("Mode1OrMode2")), h("first_address")));
                second_address.obs(step(step(p, h("Mode1OrMode2")), h("second_address")));
                attribute.obs(step(step(p, h("Mode1OrMode2")), h("attribute")));
            }
            pcics::capabilities::pci_x::Ecc::Reserved => tag(p, h("Reserved")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_x::EccControlAndStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.select_secondary_ecc_registers.obs(step(p, h("select_secondary_ecc_registers")));
        self.error_present_in_other_ecc_register_bank.obs(step(p, h("error_present_in_other_ecc_register_bank")));
        self.additional_correctable_ecc_error.obs(step(p, h("additional_correctable_ecc_error")));
        self.additional_uncorrectable_ecc_error.obs(step(p, h("additional_uncorrectable_ecc_error")));
        self.ecc_error_phase.obs(step(p, h("ecc_error_phase")));
        self.ecc_error_corrected.obs(step(p, h("ecc_error_corrected")));
        self.syndrome.obs(step(p, h("syndrome")));
        self.error_first_command.obs(step(p, h("error_first_command")));
        self.error_second_command.obs(step(p, h("error_second_command")));
        self.error_upper_attributes.obs(step(p, h("error_upper_attributes")));
        self.ecc_control_update_enable.obs(step(p, h("ecc_control_update_enable")));
        self.disable_single_bit_error_correction.obs(step(p, h("disable_single_bit_error_correction")));
        self.ecc_mode.obs(step(p, h("ecc_mode")));
    }
}
impl Obs for pcics::capabilities::pci_x::EccErrorPhase {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_x::EccErrorPhase::NoError => tag(p, h("NoError")),
            pcics::capabilities::pci_x::EccErrorPhase::First32bits => tag(p, h("First32bits")),
            pcics::capabilities::pci_x::EccErrorPhase::Second32bits => tag(p, h("Second32bits")),
            pcics::capabilities::pci_x::EccErrorPhase::AttributePhase => tag(p, h("AttributePhase")),
            pcics::capabilities::pci_x::EccErrorPhase::Phase32or16bit => tag(p, h("Phase32or16bit")),
            pcics::capabilities::pci_x::EccErrorPhase::Phase64bit => tag(p, h("Phase64bit")),
            pcics::capabilities::pci_x::EccErrorPhase::Reserved => tag(p, h("Reserved")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_x::Syndrome {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.e0.obs(step(p, h("e0")));
        self.e1.obs(step(p, h("e1")));
        self.e2.obs(step(p, h("e2")));
        self.e3.obs(step(p, h("e3")));
        self.e4.obs(step(p, h("e4")));
        self.e5.obs(step(p, h("e5")));
        self.e6.obs(step(p, h("e6")));
        self.e7.obs(step(p, h("e7")));
    }
}
impl Obs for pcics::capabilities::pci_x::PciXBridgeError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_x::PciXBridgeError::Mandatory => tag(p, h("Mandatory")),
            pcics::capabilities::pci_x::PciXBridgeError::BridgeEccMode2Only => tag(p, h("BridgeEccMode2Only")),
            pcics::capabilities::pci_x::PciXBridgeError::BridgeEccMode1OrMode2 => tag(p, h("BridgeEccMode1OrMode2")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_x::PciXBridge {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.secondary_status.obs(step(p, h("secondary_status")));
        self.bridge_status.obs(step(p, h("bridge_status")));
        self.upstream_split_transaction_control.obs(step(p, h("upstream_split_transaction_control")));
        self.downstream_split_transaction_control.obs(step(p, h("downstream_split_transaction_control")));
        self.ecc.obs(step(p, h("ecc")));
    }
}
impl Obs for pcics::capabilities::pci_x::SecondaryStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.device_64_bit.obs(step(p, h("device_64_bit")));
        self.pci_x_133_capable.obs(step(p, h("pci_x_133_capable")));
        self.slit_completion_discarded.obs(step(p, h("slit_completion_discarded")));
        self.unexpected_split_completion.obs(step(p, h("unexpected_split_completion")));
        self.split_completion_overrun.obs(step(p, h("split_completion_overrun")));
        self.split_request_delayed.obs(step(p, h("split_request_delayed")));
        self.secondary_bus_mode.obs(step(p, h("secondary_bus_mode")));
        self.error_protection.obs(step(p, h("error_protection")));
        self.secondary_bus_frequency.obs(step(p, h("secondary_bus_frequency")));
        self.pci_x_266_capable.obs(step(p, h("pci_x_266_capable")));
        self.pci_x_533_capable.obs(step(p, h("pci_x_533_capable")));
    }
}
impl Obs for pcics::capabilities::pci_x::SecondaryBusMode {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_x::SecondaryBusMode::Conventional => tag(p, h("Conventional")),
            pcics::capabilities::pci_x::SecondaryBusMode::Mode1 => tag(p, h("Mode1")),
            pcics::capabilities::pci_x::SecondaryBusMode::PciX266 => tag(p, h("PciX266")),
            pcics::capabilities::pci_x::SecondaryBusMode::PciX533 => tag(p, h("PciX533")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_x::ErrorProtection {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_x::ErrorProtection::Parity => tag(p, h("Parity")),
            pcics::capabilities::pci_x::ErrorProtection::Ecc => tag(p, h("Ecc")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_x::SecondaryBusFrequency {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::pci_x::SecondaryBusFrequency::NotAvailable => tag(p, h("NotAvailable")),
            pcics::capabilities::pci_x::SecondaryBusFrequency::Freq66MHz => tag(p, h("Freq66MHz")),
            pcics::capabilities::pci_x::SecondaryBusFrequency::Freq100MHz => tag(p, h("Freq100MHz")),
            pcics::capabilities::pci_x::SecondaryBusFrequency::Freq133MHz => tag(p, h("Freq133MHz")),
            pcics::capabilities::pci_x::SecondaryBusFrequency::Reserved => tag(p, h("Reserved")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::pci_x::BridgeStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.function_number.obs(step(p, h("function_number")));
        self.device_number.obs(step(p, h("device_number")));
        self.bus_number.obs(step(p, h("bus_number")));
        self.device_64_bit.obs(step(p, h("device_64_bit")));
        self.pci_x_133_capable.obs(step(p, h("pci_x_133_capable")));
        self.slit_completion_discarded.obs(step(p, h("slit_completion_discarded")));
        self.unexpected_split_completion.obs(step(p, h("unexpected_split_completion")));
        self.split_completion_overrun.obs(step(p, h("split_completion_overrun")));
        self.split_request_delayed.obs(step(p, h("split_request_delayed")));
        self.device_id_messaging_capable.obs(step(p, h("device_id_messaging_capable")));
        self.pci_x_266_capable.obs(step(p, h("pci_x_266_capable")));
        self.pci_x_533_capable.obs(step(p, h("pci_x_533_capable")));
    }
}
impl Obs for pcics::capabilities::pci_x::SplitTransactionControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.split_transaction_capacity.obs(step(p, h("split_transaction_capacity")));
        self.split_transaction_commitment_limit.obs(step(p, h("split_transaction_commitment_limit")));
    }
}
impl Obs for pcics::capabilities::power_management_interface::PowerManagementInterface {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.capabilities.obs(step(p, h("capabilities")));
        self.control.obs(step(p, h("control")));
        self.bridge.obs(step(p, h("bridge")));
        self.data.obs(step(p, h("data")));
    }
}
impl Obs for pcics::capabilities::power_management_interface::Capabilities {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.version.obs(step(p, h("version")));
        self.pme_clock.obs(step(p, h("pme_clock")));
        self.immediate_readiness_on_return_to_d0.obs(step(p, h("immediate_readiness_on_return_to_d0")));
        self.device_specific_initialization.obs(step(p, h("device_specific_initialization")));
        self.aux_current.obs(step(p, h("aux_current")));
        self.d1_support.obs(step(p, h("d1_support")));
        self.d2_support.obs(step(p, h("d2_support")));
        self.pme_support.obs(step(p, h("pme_support")));
    }
}
impl Obs for pcics::capabilities::power_management_interface::AuxCurrent {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::power_management_interface::AuxCurrent::SelfPowered => tag(p, h("SelfPowered")),
            pcics::capabilities::power_management_interface::AuxCurrent::MaxCurrent55mA => tag(p, h("MaxCurrent55mA")),
            pcics::capabilities::power_management_interface::AuxCurrent::MaxCurrent100mA => tag(p, h("MaxCurrent100mA")),
            pcics::capabilities::power_management_interface::AuxCurrent::MaxCurrent160mA => tag(p, h("MaxCurrent160mA")),
            pcics::capabilities::power_management_interface::AuxCurrent::MaxCurrent220mA => tag(p, h("MaxCurrent220mA")),
            pcics::capabilities::power_management_interface::AuxCurrent::MaxCurrent270mA => tag(p, h("MaxCurrent270mA")),
            pcics::capabilities::power_management_interface::AuxCurrent::MaxCurrent320mA => tag(p, h("MaxCurrent320mA")),
            pcics::capabilities::power_management_interface::AuxCurrent::MaxCurrent375mA => tag(p, h("MaxCurrent375mA")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::power_management_interface::PmeSupport {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.d0.obs(step(p, h("d0")));
        self.d1.obs(step(p, h("d1")));
        self.d2.obs(step(p, h("d2")));
        self.d3_hot.obs(step(p, h("d3_hot")));
        self.d3_cold.obs(step(p, h("d3_cold")));
    }
}
impl Obs for pcics::capabilities::power_management_interface::Control {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.power_state.obs(step(p, h("power_state")));
        self.no_soft_reset.obs(step(p, h("no_soft_reset")));
        self.pme_enabled.obs(step(p, h("pme_enabled")));
        self.data_select.obs(step(p, h("data_select")));
        self.data_scale.obs(step(p, h("data_scale")));
        self.pme_status.obs(step(p, h("pme_status")));
    }
}
impl Obs for pcics::capabilities::power_management_interface::PowerState {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::power_management_interface::PowerState::D0 => tag(p, h("D0")),
            pcics::capabilities::power_management_interface::PowerState::D1 => tag(p, h("D1")),
            pcics::capabilities::power_management_interface::PowerState::D2 => tag(p, h("D2")),
            pcics::capabilities::power_management_interface::PowerState::D3Hot => tag(p, h("D3Hot")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::power_management_interface::Bridge {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.reserved.obs(step(p, h("reserved")));
        self.b2_b3.obs(step(p, h("b2_b3")));
        self.bpcc_enabled.obs(step(p, h("bpcc_enabled")));
    }
}
impl Obs for pcics::capabilities::power_management_interface::Data {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.value.obs(step(p, h("value")));
        self.select.obs(step(p, h("select")));
        self.scale.obs(step(p, h("scale")));
    }
}
impl Obs for pcics::capabilities::power_management_interface::DataSelect {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::power_management_interface::DataSelect::PowerConsumedD0 => tag(p, h("PowerConsumedD0")),
            pcics::capabilities::power_management_interface::DataSelect::PowerConsumedD1 => tag(p, h("PowerConsumedD1")),
            pcics::capabilities::power_management_interface::DataSelect::PowerConsumedD2 => tag(p, h("PowerConsumedD2")),
            pcics::capabilities::power_management_interface::DataSelect::PowerConsumedD3 => tag(p, h("PowerConsumedD3")),
            pcics::capabilities::power_management_interface::DataSelect::PowerDissipatedD0 => tag(p, h("PowerDissipatedD0")),
            pcics::capabilities::power_management_interface::DataSelect::PowerDissipatedD1 => tag(p, h("PowerDissipatedD1")),
            pcics::capabilities::power_management_interface::DataSelect::PowerDissipatedD2 => tag(p, h("PowerDissipatedD2")),
            pcics::capabilities::power_management_interface::DataSelect::PowerDissipatedD3 => tag(p, h("PowerDissipatedD3")),
            pcics::capabilities::power_management_interface::DataSelect::CommonLogic => tag(p, h("CommonLogic")),
            pcics::capabilities::power_management_interface::DataSelect::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::power_management_interface::DataScale {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::power_management_interface::DataScale::Unknown => tag(p, h("Unknown")),
            pcics::capabilities::power_management_interface::DataScale::Tenth => tag(p, h("Tenth")),
            pcics::capabilities::power_management_interface::DataScale::Hundredth => tag(p, h("Hundredth")),
            pcics::capabilities::power_management_interface::DataScale::Thousandth => tag(p, h("Thousandth")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::sata::Sata {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.revision.obs(step(p, h("revision")));
        self.bar_offset.obs(step(p, h("bar_offset")));
        self.bar_location.obs(step(p, h("bar_location")));
    }
}
impl Obs for pcics::capabilities::sata::Revision {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.minor.obs(step(p, h("minor")));
        self.major.obs(step(p, h("major")));
    }
}
impl Obs for pcics::capabilities::sata::BarLocation {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::sata::BarLocation::Bar0 => tag(p, h("Bar0")),
            pcics::capabilities::sata::BarLocation::Bar1 => tag(p, h("Bar1")),
            pcics::capabilities::sata::BarLocation::Bar2 => tag(p, h("Bar2")),
            pcics::capabilities::sata::BarLocation::Bar3 => tag(p, h("Bar3")),
            pcics::capabilities::sata::BarLocation::Bar4 => tag(p, h("Bar4")),
            pcics::capabilities::sata::BarLocation::Bar5 => tag(p, h("Bar5")),
            pcics::capabilities::sata::BarLocation::SataCapability1 => tag(p, h("SataCapability1")),
            pcics::capabilities::sata::BarLocation::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::sata::BarOffset {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.0.obs(p);
    }
}
impl Obs for pcics::capabilities::slot_identification::SlotIdentification {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.expansion_slot.obs(step(p, h("expansion_slot")));
        self.chassis_number.obs(step(p, h("chassis_number")));
    }
}
impl Obs for pcics::capabilities::slot_identification::ExpansionSlot {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.expansion_slots_provided.obs(step(p, h("expansion_slots_provided")));
        self.first_in_chassis.obs(step(p, h("first_in_chassis")));
    }
}
impl Obs for pcics::capabilities::vendor_specific::VendorSpecificError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::vendor_specific::VendorSpecificError::LengthUnreadable => tag(p, h("LengthUnreadable")),
            pcics::capabilities::vendor_specific::VendorSpecificError::Length { val, .. } => {
                tag(p, h("Length"));
                val.obs(step(step(p, h("Length")), h("val")));
            }
            pcics::capabilities::vendor_specific::VendorSpecificError::Data { size, .. } => {
                tag(p, h("Data"));
                size.obs(step(step(p, h("Data")), h("size")));
            }
            pcics::capabilities::vendor_specific::VendorSpecificError::Virtio => tag(p, h("Virtio")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl<'a> Obs for pcics::capabilities::vendor_specific::VendorSpecific<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::vendor_specific::VendorSpecific::Unspecified(x0) => {
                tag(p, h("Unspecified"));
                x0.obs(step(p, h("Unspecified")));
            }
            pcics::capabilities::vendor_specific::VendorSpecific::Virtio(x0) => {
                tag(p, h("Virtio"));
                x0.obs(step(p, h("Virtio")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::vendor_specific::Virtio {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::capabilities::vendor_specific::Virtio::CommonCfg { bar, offset, size, .. } => {
                tag(p, h("CommonCfg"));
                bar.obs(step(step(p, h("CommonCfg")), h("bar")));
                offset.obs(step(step(p, h("CommonCfg")), h("offset")));
                size.obs(step(step(p, h("CommonCfg")), h("size")));
            }
            pcics::capabilities::vendor_specific::Virtio::Notify { bar, offset, size, multiplier, .. } => {
                tag(p, h("Notify"));
                bar.obs(step(step(p, h("Notify")), h("bar")));
                offset.obs(step(step(p, h("Notify")), h("offset")));
                size.obs(step(step(p, h("Notify")), h("size")));
                multiplier.obs(step(step(p, h("Notify")), h("multiplier")));
            }
            pcics::capabilities::vendor_specific::Virtio::Isr { bar, offset, size, .. } => {
                tag(p, h("Isr"));
                bar.obs(step(step(p, h("Isr")), h("bar")));
                offset.obs(step(step(p, h("Isr")), h("offset")));
                size.obs(step(step(p, h("Isr")), h("size")));
            }
            pcics::capabilities::vendor_specific::Virtio::DeviceCfg { bar, offset, size, .. } => {
                tag(p, h("DeviceCfg"));
                bar.obs(step(step(p, h("DeviceCfg")), h("bar")));
                offset.obs(step(step(p, h("DeviceCfg")), h("offset")));
                size.obs(step(step(p, h("DeviceCfg")), h("size")));
            }
            pcics::capabilities::vendor_specific::Virtio::Unknown { bar, offset, size, .. } => {
                tag(p, h("Unknown"));
                bar.obs(step(step(p, h("Unknown")), h("bar")));
                offset.obs(step(step(p, h("Unknown")), h("offset")));
                size.obs(step(step(p, h("Unknown")), h("size")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::capabilities::vital_product_data::VitalProductData {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.vpd_address.obs(step(p, h("vpd_address")));
        self.transfer_completed.obs(step(p, h("transfer_completed")));
        self.vpd_data.obs(step(p, h("vpd_data")));
    }
}
impl Obs for pcics::extended_capabilities::ExtendedCapabilityError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::ExtendedCapabilityError::Offset => tag(p, h("Offset")),
            pcics::extended_capabilities::ExtendedCapabilityError::Header { offset, .. } => {
                tag(p, h("Header"));
                offset.obs(step(step(p, h("Header")), h("offset")));
            }
            pcics::extended_capabilities::ExtendedCapabilityError::EmptyHeader { offset, .. } => {
                tag(p, h("EmptyHeader"));
                offset.obs(step(step(p, h("EmptyHeader")), h("offset")));
            }
            pcics::extended_capabilities::ExtendedCapabilityError::Data { offset, source, .. } => {
                tag(p, h("Data"));
                offset.obs(step(step(p, h("Data")), h("offset")));
                source.obs(step(step(p, h("Data")), h("source")));
            }
            pcics::extended_capabilities::ExtendedCapabilityError::RootComplexLinkDeclaration { offset, source, .. } => {
                tag(p, h("RootComplexLinkDeclaration"));
                offset.obs(step(step(p, h("RootComplexLinkDeclaration")), h("offset")));
                source.obs(step(step(p, h("RootComplexLinkDeclaration")), h("source")));
            }
            pcics::extended_capabilities::ExtendedCapabilityError::MultifunctionVirtualChannel { offset, source, .. } => {
                tag(p, h("MultifunctionVirtualChannel"));
                offset.obs(step(step(p, h("MultifunctionVirtualChannel")), h("offset")));
                source.obs(step(step(p, h("MultifunctionVirtualChannel")), h("source")));
            }
            pcics::extended_capabilities::ExtendedCapabilityError::SingleRootIoVirtualization { offset, source, .. } => {
                tag(p, h("SingleRootIoVirtualization"));
                offset.obs(step(step(p, h("SingleRootIoVirtualization")), h("offset")));
                source.obs(step(step(p, h("SingleRootIoVirtualization")), h("source")));
            }
            pcics::extended_capabilities::ExtendedCapabilityError::AdvancedErrorReporting { offset, source, .. } => {
                tag(p, h("AdvancedErrorReporting"));
                offset.obs(step(step(p, h("AdvancedErrorReporting")), h("offset")));
                source.obs(step(step(p, h("AdvancedErrorReporting")), h("source")));
            }
            pcics::extended_capabilities::ExtendedCapabilityError::DownstreamPortContainment { offset, source, .. } => {
                tag(p, h("DownstreamPortContainment"));
                offset.obs(step(step(p, h("DownstreamPortContainment")), h("offset")));
                source.obs(step(step(p, h("DownstreamPortContainment")), h("source")));
            }
            pcics::extended_capabilities::ExtendedCapabilityError::ResizableBar { offset, source, .. } => {
                tag(p, h("ResizableBar"));
                offset.obs(step(step(p, h("ResizableBar")), h("offset")));
                source.obs(step(step(p, h("ResizableBar")), h("source")));
            }
            pcics::extended_capabilities::ExtendedCapabilityError::DynamicPowerAllocation { offset, source, .. } => {
                tag(p, h("DynamicPowerAllocation"));
                offset.obs(step(step(p, h("DynamicPowerAllocation")), h("offset")));
                source.obs(step(step(p, h("DynamicPowerAllocation")), h("source")));
            }
            pcics::extended_capabilities::ExtendedCapabilityError::ProtocolMultiplexing { offset, source, .. } => {
                tag(p, h("ProtocolMultiplexing"));
                offset.obs(step(step(p, h("ProtocolMultiplexing")), h("offset")));
                source.obs(step(step(p, h("ProtocolMultiplexing")), h("source")));
            }
            pcics::extended_capabilities::ExtendedCapabilityError::DesignatedVendorSpecificExtendedCapability { offset, source, .. } => {
                tag(p, h("DesignatedVendorSpecificExtendedCapability"));
                offset.obs(step(step(p, h("DesignatedVendorSpecificExtendedCapability")), h("offset")));
                source.obs(step(step(p, h("DesignatedVendorSpecificExtendedCapability")), h("source")));
            }
            pcics::extended_capabilities::ExtendedCapabilityError::VfResizableBar { offset, source, .. } => {
                tag(p, h("VfResizableBar"));
                offset.obs(step(step(p, h("VfResizableBar")), h("offset")));
                source.obs(step(step(p, h("VfResizableBar")), h("source")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
// private: pcics::extended_capabilities::ExtendedCapabilityDataError
// private: pcics::extended_capabilities::ExtendedCapabilities
impl Obs for pcics::extended_capabilities::ExtendedCapabilityHeader {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.extended_capability_id.obs(step(p, h("extended_capability_id")));
        self.capability_version.obs(step(p, h("capability_version")));
        self.next_capability_offset.obs(step(p, h("next_capability_offset")));
    }
}
impl<'a> Obs for pcics::extended_capabilities::ExtendedCapability<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.kind.obs(step(p, h("kind")));
        self.version.obs(step(p, h("version")));
        self.offset.obs(step(p, h("offset")));
    }
}
impl<'a> Obs for pcics::extended_capabilities::ExtendedCapabilityKind<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::ExtendedCapabilityKind::Null => tag(p, h("Null")),
            pcics::extended_capabilities::ExtendedCapabilityKind::AdvancedErrorReporting(x0) => {
                tag(p, h("AdvancedErrorReporting"));
                x0.obs(step(p, h("AdvancedErrorReporting")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::VirtualChannel(x0) => {
                tag(p, h("VirtualChannel"));
                x0.obs(step(p, h("VirtualChannel")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::DeviceSerialNumber(x0) => {
                tag(p, h("DeviceSerialNumber"));
                x0.obs(step(p, h("DeviceSerialNumber")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::PowerBudgeting(x0) => {
                tag(p, h("PowerBudgeting"));
                x0.obs(step(p, h("PowerBudgeting")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::RootComplexLinkDeclaration(x0) => {
                tag(p, h("RootComplexLinkDeclaration"));
                x0.obs(step(p, h("RootComplexLinkDeclaration")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::RootComplexInternalLinkControl(x0) => {
                tag(p, h("RootComplexInternalLinkControl"));
                x0.obs(step(p, h("RootComplexInternalLinkControl")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::RootComplexEventCollectorEndpointAssociation(x0) => {
                tag(p, h("RootComplexEventCollectorEndpointAssociation"));
                x0.obs(step(p, h("RootComplexEventCollectorEndpointAssociation")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::MultifunctionVirtualChannel(x0) => {
                tag(p, h("MultifunctionVirtualChannel"));
                x0.obs(step(p, h("MultifunctionVirtualChannel")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::VirtualChannelMfvcPresent(x0) => {
                tag(p, h("VirtualChannelMfvcPresent"));
                x0.obs(step(p, h("VirtualChannelMfvcPresent")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::RootComplexRegisterBlockHeader(x0) => {
                tag(p, h("RootComplexRegisterBlockHeader"));
                x0.obs(step(p, h("RootComplexRegisterBlockHeader")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::VendorSpecificExtendedCapability(x0) => {
                tag(p, h("VendorSpecificExtendedCapability"));
                x0.obs(step(p, h("VendorSpecificExtendedCapability")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::ConfigurationAccessCorrelation(x0) => {
                tag(p, h("ConfigurationAccessCorrelation"));
                x0.obs(step(p, h("ConfigurationAccessCorrelation")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::AccessControlServices(x0) => {
                tag(p, h("AccessControlServices"));
                x0.obs(step(p, h("AccessControlServices")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::AlternativeRoutingIdInterpretation(x0) => {
                tag(p, h("AlternativeRoutingIdInterpretation"));
                x0.obs(step(p, h("AlternativeRoutingIdInterpretation")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::AddressTranslationServices(x0) => {
                tag(p, h("AddressTranslationServices"));
                x0.obs(step(p, h("AddressTranslationServices")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::SingleRootIoVirtualization(x0) => {
                tag(p, h("SingleRootIoVirtualization"));
                x0.obs(step(p, h("SingleRootIoVirtualization")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::MultiRootIoVirtualization(x0) => {
                tag(p, h("MultiRootIoVirtualization"));
                x0.obs(step(p, h("MultiRootIoVirtualization")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::Multicast(x0) => {
                tag(p, h("Multicast"));
                x0.obs(step(p, h("Multicast")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::PageRequestInterface(x0) => {
                tag(p, h("PageRequestInterface"));
                x0.obs(step(p, h("PageRequestInterface")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::ReservedForAmd(x0) => {
                tag(p, h("ReservedForAmd"));
                x0.obs(step(p, h("ReservedForAmd")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::ResizableBar(x0) => {
                tag(p, h("ResizableBar"));
                x0.obs(step(p, h("ResizableBar")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::DynamicPowerAllocation(x0) => {
                tag(p, h("DynamicPowerAllocation"));
                x0.obs(step(p, h("DynamicPowerAllocation")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::TphRequester(x0) => {
                tag(p, h("TphRequester"));
                x0.obs(step(p, h("TphRequester")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::LatencyToleranceReporting(x0) => {
                tag(p, h("LatencyToleranceReporting"));
                x0.obs(step(p, h("LatencyToleranceReporting")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::SecondaryPciExpress(x0) => {
                tag(p, h("SecondaryPciExpress"));
                x0.obs(step(p, h("SecondaryPciExpress")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::ProtocolMultiplexing(x0) => {
                tag(p, h("ProtocolMultiplexing"));
                x0.obs(step(p, h("ProtocolMultiplexing")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::ProcessAddressSpaceId(x0) => {
                tag(p, h("ProcessAddressSpaceId"));
                x0.obs(step(p, h("ProcessAddressSpaceId")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::LnRequester(x0) => {
                tag(p, h("LnRequester"));
                x0.obs(step(p, h("LnRequester")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::DownstreamPortContainment(x0) => {
                tag(p, h("DownstreamPortContainment"));
                x0.obs(step(p, h("DownstreamPortContainment")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::L1PmSubstates(x0) => {
                tag(p, h("L1PmSubstates"));
                x0.obs(step(p, h("L1PmSubstates")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::PrecisionTimeMeasurement(x0) => {
                tag(p, h("PrecisionTimeMeasurement"));
                x0.obs(step(p, h("PrecisionTimeMeasurement")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::PciExpressOverMphy(x0) => {
                tag(p, h("PciExpressOverMphy"));
                x0.obs(step(p, h("PciExpressOverMphy")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::FrsQueuing(x0) => {
                tag(p, h("FrsQueuing"));
                x0.obs(step(p, h("FrsQueuing")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::ReadinessTimeReporting(x0) => {
                tag(p, h("ReadinessTimeReporting"));
                x0.obs(step(p, h("ReadinessTimeReporting")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::DesignatedVendorSpecificExtendedCapability(x0) => {
                tag(p, h("DesignatedVendorSpecificExtendedCapability"));
                x0.obs(step(p, h("DesignatedVendorSpecificExtendedCapability")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::VfResizableBar(x0) => {
                tag(p, h("VfResizableBar"));
                x0.obs(step(p, h("VfResizableBar")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::DataLinkFeature(x0) => {
                tag(p, h("DataLinkFeature"));
                x0.obs(step(p, h("DataLinkFeature")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::PhysicalLayer16GTps(x0) => {
                tag(p, h("PhysicalLayer16GTps"));
                x0.obs(step(p, h("PhysicalLayer16GTps")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::LaneMarginingAtTheReceiver(x0) => {
                tag(p, h("LaneMarginingAtTheReceiver"));
                x0.obs(step(p, h("LaneMarginingAtTheReceiver")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::HierarchyId(x0) => {
                tag(p, h("HierarchyId"));
                x0.obs(step(p, h("HierarchyId")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::NativePcieEnclosureManagement(x0) => {
                tag(p, h("NativePcieEnclosureManagement"));
                x0.obs(step(p, h("NativePcieEnclosureManagement")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::PhysicalLayer32GTps(x0) => {
                tag(p, h("PhysicalLayer32GTps"));
                x0.obs(step(p, h("PhysicalLayer32GTps")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::AlternateProtocol(x0) => {
                tag(p, h("AlternateProtocol"));
                x0.obs(step(p, h("AlternateProtocol")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::SystemFirmwareIntermediary(x0) => {
                tag(p, h("SystemFirmwareIntermediary"));
                x0.obs(step(p, h("SystemFirmwareIntermediary")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::ShadowFunctions(x0) => {
                tag(p, h("ShadowFunctions"));
                x0.obs(step(p, h("ShadowFunctions")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::DataObjectExchange(x0) => {
                tag(p, h("DataObjectExchange"));
                x0.obs(step(p, h("DataObjectExchange")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::Device3(x0) => {
                tag(p, h("Device3"));
                x0.obs(step(p, h("Device3")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::IntegrityAndDataEncryption(x0) => {
                tag(p, h("IntegrityAndDataEncryption"));
                x0.obs(step(p, h("IntegrityAndDataEncryption")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::PhysicalLayer64GTps(x0) => {
                tag(p, h("PhysicalLayer64GTps"));
                x0.obs(step(p, h("PhysicalLayer64GTps")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::FlitLogging(x0) => {
                tag(p, h("FlitLogging"));
                x0.obs(step(p, h("FlitLogging")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::FlitPerformanceMeasurement(x0) => {
                tag(p, h("FlitPerformanceMeasurement"));
                x0.obs(step(p, h("FlitPerformanceMeasurement")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::FlitErrorInjection(x0) => {
                tag(p, h("FlitErrorInjection"));
                x0.obs(step(p, h("FlitErrorInjection")));
            }
            pcics::extended_capabilities::ExtendedCapabilityKind::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::MultiRootIoVirtualization {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::extended_capabilities::ReservedForAmd {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::extended_capabilities::DataLinkFeature {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::extended_capabilities::PhysicalLayer16GTps {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::extended_capabilities::LaneMarginingAtTheReceiver {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::extended_capabilities::HierarchyId {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::extended_capabilities::NativePcieEnclosureManagement {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::extended_capabilities::PhysicalLayer32GTps {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::extended_capabilities::AlternateProtocol {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::extended_capabilities::SystemFirmwareIntermediary {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::extended_capabilities::ShadowFunctions {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::extended_capabilities::DataObjectExchange {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::extended_capabilities::Device3 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::extended_capabilities::IntegrityAndDataEncryption {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::extended_capabilities::PhysicalLayer64GTps {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::extended_capabilities::FlitLogging {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::extended_capabilities::FlitPerformanceMeasurement {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl Obs for pcics::extended_capabilities::FlitErrorInjection {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);

    }
}
impl<'a> Obs for pcics::extended_capabilities::access_control_services::AccessControlServices<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.acs_capability.obs(step(p, h("acs_capability")));
        self.acs_control.obs(step(p, h("acs_control")));
    }
}
impl Obs for pcics::extended_capabilities::access_control_services::AcsCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.acs_source_validation.obs(step(p, h("acs_source_validation")));
        self.acs_translation_blocking.obs(step(p, h("acs_translation_blocking")));
        self.acs_p2p_request_redirect.obs(step(p, h("acs_p2p_request_redirect")));
        self.acs_p2p_completion_redirect.obs(step(p, h("acs_p2p_completion_redirect")));
        self.acs_upstream_forwarding.obs(step(p, h("acs_upstream_forwarding")));
        self.acs_p2p_egress_control.obs(step(p, h("acs_p2p_egress_control")));
        self.acs_direct_translated_p2p.obs(step(p, h("acs_direct_translated_p2p")));
        self.egress_control_vector_size.obs(step(p, h("egress_control_vector_size")));
    }
}
impl Obs for pcics::extended_capabilities::access_control_services::AcsControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.acs_source_validation_enable.obs(step(p, h("acs_source_validation_enable")));
        self.acs_translation_blocking_enable.obs(step(p, h("acs_translation_blocking_enable")));
        self.acs_p2p_request_redirect_enable.obs(step(p, h("acs_p2p_request_redirect_enable")));
        self.acs_p2p_completion_redirect_enable.obs(step(p, h("acs_p2p_completion_redirect_enable")));
        self.acs_upstream_forwarding_enable.obs(step(p, h("acs_upstream_forwarding_enable")));
        self.acs_p2p_egress_control_enable.obs(step(p, h("acs_p2p_egress_control_enable")));
        self.acs_direct_translated_p2p_enable.obs(step(p, h("acs_direct_translated_p2p_enable")));
    }
}
// private: pcics::extended_capabilities::access_control_services::EgressControlVectors
impl Obs for pcics::extended_capabilities::address_translation_services::AddressTranslationServices {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.ats_capability.obs(step(p, h("ats_capability")));
        self.ats_control.obs(step(p, h("ats_control")));
    }
}
impl Obs for pcics::extended_capabilities::address_translation_services::AtsCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.invalidate_queue_depth.obs(step(p, h("invalidate_queue_depth")));
        self.page_aligned_request.obs(step(p, h("page_aligned_request")));
        self.global_invalidate_supported.obs(step(p, h("global_invalidate_supported")));
    }
}
impl Obs for pcics::extended_capabilities::address_translation_services::AtsControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.smallest_translation_unit.obs(step(p, h("smallest_translation_unit")));
        self.enable.obs(step(p, h("enable")));
    }
}
impl Obs for pcics::extended_capabilities::advanced_error_reporting::AdvancedErrorReportingError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::advanced_error_reporting::AdvancedErrorReportingError::Common => tag(p, h("Common")),
            pcics::extended_capabilities::advanced_error_reporting::AdvancedErrorReportingError::TlpPrefixLog => tag(p, h("TlpPrefixLog")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::advanced_error_reporting::AdvancedErrorReporting {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.uncorrectable_error_status.obs(step(p, h("uncorrectable_error_status")));
        self.uncorrectable_error_mask.obs(step(p, h("uncorrectable_error_mask")));
        self.uncorrectable_error_severity.obs(step(p, h("uncorrectable_error_severity")));
        self.correctable_error_status.obs(step(p, h("correctable_error_status")));
        self.correctable_error_mask.obs(step(p, h("correctable_error_mask")));
        self.advanced_error_capabilities_and_control.obs(step(p, h("advanced_error_capabilities_and_control")));
        self.header_log.obs(step(p, h("header_log")));
        self.root_error_command.obs(step(p, h("root_error_command")));
        self.root_error_status.obs(step(p, h("root_error_status")));
        self.error_source_identification.obs(step(p, h("error_source_identification")));
        self.tlp_prefix_log.obs(step(p, h("tlp_prefix_log")));
    }
}
impl Obs for pcics::extended_capabilities::advanced_error_reporting::UncorrectableError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.link_training_error.obs(step(p, h("link_training_error")));
        self.data_link_protocol_error_status.obs(step(p, h("data_link_protocol_error_status")));
        self.surprise_down_error_status.obs(step(p, h("surprise_down_error_status")));
        self.poisoned_tlp_received_status.obs(step(p, h("poisoned_tlp_received_status")));
        self.flow_control_protocol_error_status.obs(step(p, h("flow_control_protocol_error_status")));
        self.completion_timeout_status.obs(step(p, h("completion_timeout_status")));
        self.completer_abort_status.obs(step(p, h("completer_abort_status")));
        self.unexpected_completion_status.obs(step(p, h("unexpected_completion_status")));
        self.receiver_overflow_status.obs(step(p, h("receiver_overflow_status")));
        self.malformed_tlp_status.obs(step(p, h("malformed_tlp_status")));
        self.ecrc_error_status.obs(step(p, h("ecrc_error_status")));
        self.unsupported_request_error_status.obs(step(p, h("unsupported_request_error_status")));
        self.acs_violation_status.obs(step(p, h("acs_violation_status")));
        self.uncorrectable_internal_error_status.obs(step(p, h("uncorrectable_internal_error_status")));
        self.mc_blocked_tlp_status.obs(step(p, h("mc_blocked_tlp_status")));
        self.atomicop_egress_blocked_status.obs(step(p, h("atomicop_egress_blocked_status")));
        self.tlp_prefix_blocked_error_status.obs(step(p, h("tlp_prefix_blocked_error_status")));
        self.poisoned_tlp_egress_blocked_status.obs(step(p, h("poisoned_tlp_egress_blocked_status")));
    }
}
impl Obs for pcics::extended_capabilities::advanced_error_reporting::CorrectableError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.receiver_error_status.obs(step(p, h("receiver_error_status")));
        self.bad_tlp_status.obs(step(p, h("bad_tlp_status")));
        self.bad_dllp_status.obs(step(p, h("bad_dllp_status")));
        self.replay_num_rollover_status.obs(step(p, h("replay_num_rollover_status")));
        self.replay_timer_timeout_status.obs(step(p, h("replay_timer_timeout_status")));
        self.advisory_non_fatal_error_status.obs(step(p, h("advisory_non_fatal_error_status")));
        self.corrected_internal_error_status.obs(step(p, h("corrected_internal_error_status")));
        self.header_log_overflow_status.obs(step(p, h("header_log_overflow_status")));
    }
}
impl Obs for pcics::extended_capabilities::advanced_error_reporting::AdvancedErrorCapabilitiesAndControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.first_error_pointer.obs(step(p, h("first_error_pointer")));
        self.ecrc_generation_capable.obs(step(p, h("ecrc_generation_capable")));
        self.ecrc_generation_enable.obs(step(p, h("ecrc_generation_enable")));
        self.ecrc_check_capable.obs(step(p, h("ecrc_check_capable")));
        self.ecrc_check_enable.obs(step(p, h("ecrc_check_enable")));
        self.multiple_header_recording_capable.obs(step(p, h("multiple_header_recording_capable")));
        self.multiple_header_recording_enable.obs(step(p, h("multiple_header_recording_enable")));
        self.tlp_prefix_log_present.obs(step(p, h("tlp_prefix_log_present")));
        self.completion_timeout_prefix_or_header_log_capable.obs(step(p, h("completion_timeout_prefix_or_header_log_capable")));
    }
}
impl Obs for pcics::extended_capabilities::advanced_error_reporting::HeaderLog {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.0.obs(p);
    }
}
impl Obs for pcics::extended_capabilities::advanced_error_reporting::RootErrorCommand {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.correctable_error_reporting_enable.obs(step(p, h("correctable_error_reporting_enable")));
        self.non_fatal_error_reporting_enable.obs(step(p, h("non_fatal_error_reporting_enable")));
        self.fatal_error_reporting_enable.obs(step(p, h("fatal_error_reporting_enable")));
    }
}
impl Obs for pcics::extended_capabilities::advanced_error_reporting::RootErrorStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.err_cor_received.obs(step(p, h("err_cor_received")));
        self.multiple_err_cor_received.obs(step(p, h("multiple_err_cor_received")));
        self.err_fatal_or_nonfatal_received.obs(step(p, h("err_fatal_or_nonfatal_received")));
        self.multiple_err_fatal_or_nonfatal_received.obs(step(p, h("multiple_err_fatal_or_nonfatal_received")));
        self.first_uncorrectable_fatal.obs(step(p, h("first_uncorrectable_fatal")));
        self.non_fatal_error_messages_received.obs(step(p, h("non_fatal_error_messages_received")));
        self.fatal_error_messages_received.obs(step(p, h("fatal_error_messages_received")));
        self.advanced_error_interrupt_message_number.obs(step(p, h("advanced_error_interrupt_message_number")));
    }
}
impl Obs for pcics::extended_capabilities::advanced_error_reporting::ErrorSourceIdentification {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.err_cor_source_identification.obs(step(p, h("err_cor_source_identification")));
        self.err_fatal_or_nonfatal_source_identification.obs(step(p, h("err_fatal_or_nonfatal_source_identification")));
    }
}
impl Obs for pcics::extended_capabilities::advanced_error_reporting::TlpPrefixLog {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.0.obs(p);
    }
}
impl Obs for pcics::extended_capabilities::alternative_routing_id_interpolation::AlternativeRoutingIdInterpretation {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.ari_capability.obs(step(p, h("ari_capability")));
        self.ari_control.obs(step(p, h("ari_control")));
    }
}
impl Obs for pcics::extended_capabilities::alternative_routing_id_interpolation::AriCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.mfvc_function_groups_capability.obs(step(p, h("mfvc_function_groups_capability")));
        self.acs_function_groups_capability.obs(step(p, h("acs_function_groups_capability")));
        self.next_function_number.obs(step(p, h("next_function_number")));
    }
}
impl Obs for pcics::extended_capabilities::alternative_routing_id_interpolation::AriControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.mfvc_function_groups_enable.obs(step(p, h("mfvc_function_groups_enable")));
        self.acs_function_groups_enable.obs(step(p, h("acs_function_groups_enable")));
        self.function_group.obs(step(p, h("function_group")));
    }
}
impl Obs for pcics::extended_capabilities::configuration_access_correlation::ConfigurationAccessCorrelation {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.device_correlation.obs(step(p, h("device_correlation")));
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::DesignatedVendorSpecificExtendedCapabilityError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::DesignatedVendorSpecificExtendedCapabilityError::Mandatory => tag(p, h("Mandatory")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::DesignatedVendorSpecificExtendedCapabilityError::VendorSpecificRegisters { dvsec_vendor_id, dvsec_revision, dvsec_length, dvsec_id, real, .. } => {
                tag(p, h("VendorSpecificRegisters"));
                dvsec_vendor_id.obs(step(step(p, h("VendorSpecificRegisters")), h("dvsec_vendor_id")));
                dvsec_revision.obs(step(step(p, h("VendorSpecificRegisters")), h("dvsec_revision")));
                dvsec_length.obs(step(step(p, h("VendorSpecificRegisters")), h("dvsec_length")));
                dvsec_id.obs(step(step(p, h("VendorSpecificRegisters")), h("dvsec_id")));
                real.obs(step(step(p, h("VendorSpecificRegisters")), h("real")));
            }
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::DesignatedVendorSpecificExtendedCapabilityError::ComputeExpressLink { source, .. } => {
                tag(p, h("ComputeExpressLink"));
                source.obs(step(step(p, h("ComputeExpressLink")), h("source")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl<'a> Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::DesignatedVendorSpecificExtendedCapability<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.dvsec_vendor_id.obs(step(p, h("dvsec_vendor_id")));
        self.dvsec_revision.obs(step(p, h("dvsec_revision")));
        self.dvsec_length.obs(step(p, h("dvsec_length")));
        self.dvsec_id.obs(step(p, h("dvsec_id")));
        self.dvsec_type.obs(step(p, h("dvsec_type")));
    }
}
impl<'a> Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::DvsecType<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::DvsecType::Unspecified(x0) => {
                tag(p, h("Unspecified"));
                x0.obs(step(p, h("Unspecified")));
            }
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::DvsecType::ComputeExpressLink(x0) => {
                tag(p, h("ComputeExpressLink"));
                x0.obs(step(p, h("ComputeExpressLink")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::ComputeExpressLinkError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::ComputeExpressLinkError::PcieDvsecForCxlDevice => tag(p, h("PcieDvsecForCxlDevice")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::ComputeExpressLink {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::ComputeExpressLink::PcieDvsecForCxlDevice(x0) => {
                tag(p, h("PcieDvsecForCxlDevice"));
                x0.obs(step(p, h("PcieDvsecForCxlDevice")));
            }
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::ComputeExpressLink::NonCxlFunctionMapDvsec(..) => tag(p, h("NonCxlFunctionMapDvsec")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::ComputeExpressLink::Cxl20ExtensionsDvsecForPorts(..) => tag(p, h("Cxl20ExtensionsDvsecForPorts")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::ComputeExpressLink::GpfDvsecForCxlPorts(..) => tag(p, h("GpfDvsecForCxlPorts")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::ComputeExpressLink::GpfDvsecForCxlDevices(..) => tag(p, h("GpfDvsecForCxlDevices")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::ComputeExpressLink::PcieDvsecForFlexBusPort(..) => tag(p, h("PcieDvsecForFlexBusPort")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::ComputeExpressLink::RegisterLocatorDvsec(..) => tag(p, h("RegisterLocatorDvsec")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::ComputeExpressLink::MldDvsec(..) => tag(p, h("MldDvsec")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::ComputeExpressLink::PcieDvsecForTestCapability(..) => tag(p, h("PcieDvsecForTestCapability")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::ComputeExpressLink::Undefined(x0) => {
                tag(p, h("Undefined"));
                x0.obs(step(p, h("Undefined")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::PcieDvsecForCxlDevice {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.cxl_capability.obs(step(p, h("cxl_capability")));
        self.cxl_control.obs(step(p, h("cxl_control")));
        self.cxl_status.obs(step(p, h("cxl_status")));
        self.cxl_control2.obs(step(p, h("cxl_control2")));
        self.cxl_status2.obs(step(p, h("cxl_status2")));
        self.cxl_lock.obs(step(p, h("cxl_lock")));
        self.cxl_capability2.obs(step(p, h("cxl_capability2")));
        self.cxl_range_1_size.obs(step(p, h("cxl_range_1_size")));
        self.cxl_range_1_base.obs(step(p, h("cxl_range_1_base")));
        self.cxl_range_2_size.obs(step(p, h("cxl_range_2_size")));
        self.cxl_range_2_base.obs(step(p, h("cxl_range_2_base")));
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CxlCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.cache_capable.obs(step(p, h("cache_capable")));
        self.io_capable.obs(step(p, h("io_capable")));
        self.mem_capable.obs(step(p, h("mem_capable")));
        self.mem_hwinit_mode.obs(step(p, h("mem_hwinit_mode")));
        self.hdm_count.obs(step(p, h("hdm_count")));
        self.cache_writeback_and_invalidate_capable.obs(step(p, h("cache_writeback_and_invalidate_capable")));
        self.cxl_reset_capable.obs(step(p, h("cxl_reset_capable")));
        self.cxl_reset_timeout.obs(step(p, h("cxl_reset_timeout")));
        self.cxl_reset_mem_clr_capable.obs(step(p, h("cxl_reset_mem_clr_capable")));
        self.multiple_logical_device.obs(step(p, h("multiple_logical_device")));
        self.viral_capable.obs(step(p, h("viral_capable")));
        self.pm_init_completion_reporting_capable.obs(step(p, h("pm_init_completion_reporting_capable")));
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::HdmCount {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::HdmCount::ZeroRanges => tag(p, h("ZeroRanges")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::HdmCount::OneHdmRange => tag(p, h("OneHdmRange")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::HdmCount::TwoHdmRanges => tag(p, h("TwoHdmRanges")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::HdmCount::Reserved => tag(p, h("Reserved")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CxlResetTimeout {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CxlResetTimeout::MaxTime10ms => tag(p, h("MaxTime10ms")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CxlResetTimeout::MaxTime100ms => tag(p, h("MaxTime100ms")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CxlResetTimeout::MaxTime1s => tag(p, h("MaxTime1s")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CxlResetTimeout::MaxTime10s => tag(p, h("MaxTime10s")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CxlResetTimeout::MaxTime100s => tag(p, h("MaxTime100s")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CxlResetTimeout::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CxlControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.cache_enable.obs(step(p, h("cache_enable")));
        self.io_enable.obs(step(p, h("io_enable")));
        self.mem_enable.obs(step(p, h("mem_enable")));
        self.cache_sf_coverage.obs(step(p, h("cache_sf_coverage")));
        self.cache_sf_granularity.obs(step(p, h("cache_sf_granularity")));
        self.cache_clean_eviction.obs(step(p, h("cache_clean_eviction")));
        self.viral_enable.obs(step(p, h("viral_enable")));
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSfCoverage {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSfCoverage::NoSnoopFilter => tag(p, h("NoSnoopFilter")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSfCoverage::SnoopFilter(x0) => {
                tag(p, h("SnoopFilter"));
                x0.obs(step(p, h("SnoopFilter")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSfGranularity {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSfGranularity::Tracking64B => tag(p, h("Tracking64B")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSfGranularity::Tracking128B => tag(p, h("Tracking128B")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSfGranularity::Tracking256B => tag(p, h("Tracking256B")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSfGranularity::Tracking512B => tag(p, h("Tracking512B")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSfGranularity::Tracking1KB => tag(p, h("Tracking1KB")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSfGranularity::Tracking2KB => tag(p, h("Tracking2KB")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSfGranularity::Tracking4KB => tag(p, h("Tracking4KB")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSfGranularity::Reserved => tag(p, h("Reserved")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheCleanEviction {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheCleanEviction::Needed => tag(p, h("Needed")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheCleanEviction::NotNeeded => tag(p, h("NotNeeded")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CxlStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.viral_status.obs(step(p, h("viral_status")));
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CxlControl2 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.disable_caching.obs(step(p, h("disable_caching")));
        self.initiate_cache_write_back_and_invalidation.obs(step(p, h("initiate_cache_write_back_and_invalidation")));
        self.initiate_cxl_reset.obs(step(p, h("initiate_cxl_reset")));
        self.cxl_reset_mem_clr_enable.obs(step(p, h("cxl_reset_mem_clr_enable")));
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CxlStatus2 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.cache_invalid.obs(step(p, h("cache_invalid")));
        self.cxl_reset_complete.obs(step(p, h("cxl_reset_complete")));
        self.cxl_reset_error.obs(step(p, h("cxl_reset_error")));
        self.power_management_initialization_complete.obs(step(p, h("power_management_initialization_complete")));
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CxlLock {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.config_lock.obs(step(p, h("config_lock")));
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CxlCapability2 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.cache_size_unit.obs(step(p, h("cache_size_unit")));
        self.cache_size.obs(step(p, h("cache_size")));
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSizeUnit {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSizeUnit::NotReported => tag(p, h("NotReported")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSizeUnit::Unit64K => tag(p, h("Unit64K")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSizeUnit::Unit1MB => tag(p, h("Unit1MB")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CacheSizeUnit::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CxlRangeSize {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.memory_info_valid.obs(step(p, h("memory_info_valid")));
        self.memory_active.obs(step(p, h("memory_active")));
        self.media_type.obs(step(p, h("media_type")));
        self.memory_class.obs(step(p, h("memory_class")));
        self.desired_interleave.obs(step(p, h("desired_interleave")));
        self.memory_active_timeout.obs(step(p, h("memory_active_timeout")));
        self.memory_size.obs(step(p, h("memory_size")));
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::MediaType {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::MediaType::Volatile => tag(p, h("Volatile")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::MediaType::NonVolatile => tag(p, h("NonVolatile")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::MediaType::Cdat => tag(p, h("Cdat")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::MediaType::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::MemoryClass {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::MemoryClass::Memory => tag(p, h("Memory")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::MemoryClass::Storage => tag(p, h("Storage")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::MemoryClass::Cdat => tag(p, h("Cdat")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::MemoryClass::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::DesiredInterleave {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::DesiredInterleave::NoInterleave => tag(p, h("NoInterleave")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::DesiredInterleave::Granularity256B => tag(p, h("Granularity256B")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::DesiredInterleave::Granularity4KB => tag(p, h("Granularity4KB")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::DesiredInterleave::Granularity512B => tag(p, h("Granularity512B")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::DesiredInterleave::Granularity1KB => tag(p, h("Granularity1KB")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::DesiredInterleave::Granularity2KB => tag(p, h("Granularity2KB")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::DesiredInterleave::Granularity8KB => tag(p, h("Granularity8KB")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::DesiredInterleave::Granularity16KB => tag(p, h("Granularity16KB")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::DesiredInterleave::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::MemoryActiveTimeout {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::MemoryActiveTimeout::MaxTime1s => tag(p, h("MaxTime1s")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::MemoryActiveTimeout::MaxTime4s => tag(p, h("MaxTime4s")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::MemoryActiveTimeout::MaxTime16s => tag(p, h("MaxTime16s")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::MemoryActiveTimeout::MaxTime64s => tag(p, h("MaxTime64s")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::MemoryActiveTimeout::MaxTime256s => tag(p, h("MaxTime256s")),
            pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::MemoryActiveTimeout::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::CxlRangeBase {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.memory_base.obs(step(p, h("memory_base")));
    }
}
impl Obs for pcics::extended_capabilities::device_serial_number::DeviceSerialNumber {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.lower_dword.obs(step(p, h("lower_dword")));
        self.upper_dword.obs(step(p, h("upper_dword")));
    }
}
impl Obs for pcics::extended_capabilities::downstream_port_containment::DownstreamPortContainmentError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::downstream_port_containment::DownstreamPortContainmentError::Mandatory => tag(p, h("Mandatory")),
            pcics::extended_capabilities::downstream_port_containment::DownstreamPortContainmentError::RpExtensions => tag(p, h("RpExtensions")),
            pcics::extended_capabilities::downstream_port_containment::DownstreamPortContainmentError::RpPioImpspecLog => tag(p, h("RpPioImpspecLog")),
            pcics::extended_capabilities::downstream_port_containment::DownstreamPortContainmentError::RpPioTlpPrefixLog { number, .. } => {
                tag(p, h("RpPioTlpPrefixLog"));
                number.obs(step(step(p, h("RpPioTlpPrefixLog")), h("number")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::downstream_port_containment::DownstreamPortContainment {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.dpc_capability.obs(step(p, h("dpc_capability")));
        self.dpc_control.obs(step(p, h("dpc_control")));
        self.dpc_status.obs(step(p, h("dpc_status")));
        self.dpc_error_source_id.obs(step(p, h("dpc_error_source_id")));
        self.rp_extensions.obs(step(p, h("rp_extensions")));
    }
}
impl Obs for pcics::extended_capabilities::downstream_port_containment::RpExtensions {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.rp_pio_status.obs(step(p, h("rp_pio_status")));
        self.rp_pio_mask.obs(step(p, h("rp_pio_mask")));
        self.rp_pio_severity.obs(step(p, h("rp_pio_severity")));
        self.rp_pio_syserr.obs(step(p, h("rp_pio_syserr")));
        self.rp_pio_exception.obs(step(p, h("rp_pio_exception")));
        self.rp_pio_header_log.obs(step(p, h("rp_pio_header_log")));
        self.rp_pio_impspec_log.obs(step(p, h("rp_pio_impspec_log")));
        self.rp_pio_tlp_prefix_log.obs(step(p, h("rp_pio_tlp_prefix_log")));
    }
}
impl Obs for pcics::extended_capabilities::downstream_port_containment::DpcCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.dpc_interrupt_message_number.obs(step(p, h("dpc_interrupt_message_number")));
        self.rp_extensions_for_dpc.obs(step(p, h("rp_extensions_for_dpc")));
        self.poisoned_tlp_egress_blocking_supported.obs(step(p, h("poisoned_tlp_egress_blocking_supported")));
        self.dpc_software_triggering_supported.obs(step(p, h("dpc_software_triggering_supported")));
        self.rp_pio_log_size.obs(step(p, h("rp_pio_log_size")));
        self.dl_active_err_cor_signaling_supported.obs(step(p, h("dl_active_err_cor_signaling_supported")));
    }
}
impl Obs for pcics::extended_capabilities::downstream_port_containment::DpcControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.dpc_trigger_enable.obs(step(p, h("dpc_trigger_enable")));
        self.dpc_completion_control.obs(step(p, h("dpc_completion_control")));
        self.dpc_interrupt_enable.obs(step(p, h("dpc_interrupt_enable")));
        self.dpc_err_cor_enable.obs(step(p, h("dpc_err_cor_enable")));
        self.poisoned_tlp_egress_blocking_enable.obs(step(p, h("poisoned_tlp_egress_blocking_enable")));
        self.dpc_software_trigger.obs(step(p, h("dpc_software_trigger")));
        self.dl_active_err_cor_enable.obs(step(p, h("dl_active_err_cor_enable")));
    }
}
impl Obs for pcics::extended_capabilities::downstream_port_containment::DpcTrigger {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::downstream_port_containment::DpcTrigger::Disabled => tag(p, h("Disabled")),
            pcics::extended_capabilities::downstream_port_containment::DpcTrigger::ErrFatalMessage => tag(p, h("ErrFatalMessage")),
            pcics::extended_capabilities::downstream_port_containment::DpcTrigger::ErrNonFatalMessage => tag(p, h("ErrNonFatalMessage")),
            pcics::extended_capabilities::downstream_port_containment::DpcTrigger::Reserved => tag(p, h("Reserved")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::downstream_port_containment::DpcStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.dpc_trigger_status.obs(step(p, h("dpc_trigger_status")));
        self.dpc_trigger_reason.obs(step(p, h("dpc_trigger_reason")));
        self.dpc_interrupt_status.obs(step(p, h("dpc_interrupt_status")));
        self.dpc_rp_busy.obs(step(p, h("dpc_rp_busy")));
        self.rp_pio_first_error_pointer.obs(step(p, h("rp_pio_first_error_pointer")));
    }
}
impl Obs for pcics::extended_capabilities::downstream_port_containment::DpcTriggerReason {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::downstream_port_containment::DpcTriggerReason::UnmaskedUncorrectableError => tag(p, h("UnmaskedUncorrectableError")),
            pcics::extended_capabilities::downstream_port_containment::DpcTriggerReason::ReceivingAnErrNonFatal => tag(p, h("ReceivingAnErrNonFatal")),
            pcics::extended_capabilities::downstream_port_containment::DpcTriggerReason::ReceivingAnErrFatal => tag(p, h("ReceivingAnErrFatal")),
            pcics::extended_capabilities::downstream_port_containment::DpcTriggerReason::RpPioError => tag(p, h("RpPioError")),
            pcics::extended_capabilities::downstream_port_containment::DpcTriggerReason::DpcSoftwareTriggerBit => tag(p, h("DpcSoftwareTriggerBit")),
            pcics::extended_capabilities::downstream_port_containment::DpcTriggerReason::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::downstream_port_containment::RpPio {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.cfg_ur_cpl.obs(step(p, h("cfg_ur_cpl")));
        self.cfg_ca_cpl.obs(step(p, h("cfg_ca_cpl")));
        self.cfg_cto.obs(step(p, h("cfg_cto")));
        self.io_ur_cpl.obs(step(p, h("io_ur_cpl")));
        self.io_ca_cpl.obs(step(p, h("io_ca_cpl")));
        self.io_cto.obs(step(p, h("io_cto")));
        self.mem_ur_cpl.obs(step(p, h("mem_ur_cpl")));
        self.mem_ca_cpl.obs(step(p, h("mem_ca_cpl")));
        self.mem_cto.obs(step(p, h("mem_cto")));
    }
}
impl Obs for pcics::extended_capabilities::dynamic_power_allocation::DynamicPowerAllocationError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::dynamic_power_allocation::DynamicPowerAllocationError::Mandatory => tag(p, h("Mandatory")),
            pcics::extended_capabilities::dynamic_power_allocation::DynamicPowerAllocationError::DpaAllocationArray { expected, found, .. } => {
                tag(p, h("DpaAllocationArray"));
                expected.obs(step(step(p, h("DpaAllocationArray")), h("expected")));
                found.obs(step(step(p, h("DpaAllocationArray")), h("found")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl<'a> Obs for pcics::extended_capabilities::dynamic_power_allocation::DynamicPowerAllocation<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.dpa_capability.obs(step(p, h("dpa_capability")));
        self.dpa_latency_indicator.obs(step(p, h("dpa_latency_indicator")));
        self.dpa_status.obs(step(p, h("dpa_status")));
        self.dpa_control.obs(step(p, h("dpa_control")));
        self.dpa_power_allocation_array.obs(step(p, h("dpa_power_allocation_array")));
    }
}
impl Obs for pcics::extended_capabilities::dynamic_power_allocation::DpaCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.substate_max.obs(step(p, h("substate_max")));
        self.transition_latency_unit.obs(step(p, h("transition_latency_unit")));
        self.power_allocation_scale.obs(step(p, h("power_allocation_scale")));
        self.transition_latency_value_0.obs(step(p, h("transition_latency_value_0")));
        self.transition_latency_value_1.obs(step(p, h("transition_latency_value_1")));
    }
}
impl Obs for pcics::extended_capabilities::dynamic_power_allocation::TransitionLatencyUnit {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::dynamic_power_allocation::TransitionLatencyUnit::Unit1ms => tag(p, h("Unit1ms")),
            pcics::extended_capabilities::dynamic_power_allocation::TransitionLatencyUnit::Unit10ms => tag(p, h("Unit10ms")),
            pcics::extended_capabilities::dynamic_power_allocation::TransitionLatencyUnit::Unit100ms => tag(p, h("Unit100ms")),
            pcics::extended_capabilities::dynamic_power_allocation::TransitionLatencyUnit::Reserved => tag(p, h("Reserved")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::dynamic_power_allocation::PowerAllocationScale {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::dynamic_power_allocation::PowerAllocationScale::Mul10 => tag(p, h("Mul10")),
            pcics::extended_capabilities::dynamic_power_allocation::PowerAllocationScale::Mul1_0 => tag(p, h("Mul1_0")),
            pcics::extended_capabilities::dynamic_power_allocation::PowerAllocationScale::Mul0_1 => tag(p, h("Mul0_1")),
            pcics::extended_capabilities::dynamic_power_allocation::PowerAllocationScale::Mul0_01 => tag(p, h("Mul0_01")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::dynamic_power_allocation::DpaStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.substate_status.obs(step(p, h("substate_status")));
        self.substate_control_enabled.obs(step(p, h("substate_control_enabled")));
    }
}
impl Obs for pcics::extended_capabilities::dynamic_power_allocation::DpaControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.substate_control.obs(step(p, h("substate_control")));
    }
}
impl<'a> Obs for pcics::extended_capabilities::dynamic_power_allocation::DpaPowerAllocationArray<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.0.obs(p);
    }
}
impl Obs for pcics::extended_capabilities::frs_queuing::FrsQueuing {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.frs_queuing_capability.obs(step(p, h("frs_queuing_capability")));
        self.frs_queuing_status.obs(step(p, h("frs_queuing_status")));
        self.frs_queuing_control.obs(step(p, h("frs_queuing_control")));
        self.frs_message_queue.obs(step(p, h("frs_message_queue")));
    }
}
impl Obs for pcics::extended_capabilities::frs_queuing::FrsQueuingCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.frs_queue_max_depth.obs(step(p, h("frs_queue_max_depth")));
        self.frs_interrupt_message_number.obs(step(p, h("frs_interrupt_message_number")));
    }
}
impl Obs for pcics::extended_capabilities::frs_queuing::FrsQueuingStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.frs_message_received.obs(step(p, h("frs_message_received")));
        self.frs_message_overflow.obs(step(p, h("frs_message_overflow")));
    }
}
impl Obs for pcics::extended_capabilities::frs_queuing::FrsQueuingControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.frs_interrupt_enable.obs(step(p, h("frs_interrupt_enable")));
    }
}
impl Obs for pcics::extended_capabilities::frs_queuing::FrsMessageQueue {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.frs_message_queue_function_id.obs(step(p, h("frs_message_queue_function_id")));
        self.frs_message_queue_reason.obs(step(p, h("frs_message_queue_reason")));
        self.frs_message_queue_depth.obs(step(p, h("frs_message_queue_depth")));
    }
}
impl Obs for pcics::extended_capabilities::l1_pm_substates::L1PmSubstates {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.l1_pm_substates_capabilities.obs(step(p, h("l1_pm_substates_capabilities")));
        self.l1_pm_substates_control_1.obs(step(p, h("l1_pm_substates_control_1")));
        self.l1_pm_substates_control_2.obs(step(p, h("l1_pm_substates_control_2")));
    }
}
impl Obs for pcics::extended_capabilities::l1_pm_substates::L1PmSubstatesCapabilities {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.pci_pm_l1_2_supported.obs(step(p, h("pci_pm_l1_2_supported")));
        self.pci_pm_l1_1_supported.obs(step(p, h("pci_pm_l1_1_supported")));
        self.aspm_l1_2_supported.obs(step(p, h("aspm_l1_2_supported")));
        self.aspm_l1_1_supported.obs(step(p, h("aspm_l1_1_supported")));
        self.l1_pm_substates_supported.obs(step(p, h("l1_pm_substates_supported")));
        self.port_common_mode_restore_time.obs(step(p, h("port_common_mode_restore_time")));
        self.port_t_power_on.obs(step(p, h("port_t_power_on")));
    }
}
impl Obs for pcics::extended_capabilities::l1_pm_substates::PortTPowerOn {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.value.obs(step(p, h("value")));
        self.scale.obs(step(p, h("scale")));
    }
}
impl Obs for pcics::extended_capabilities::l1_pm_substates::PortTPowerOnScale {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::l1_pm_substates::PortTPowerOnScale::Time2us => tag(p, h("Time2us")),
            pcics::extended_capabilities::l1_pm_substates::PortTPowerOnScale::Time10us => tag(p, h("Time10us")),
            pcics::extended_capabilities::l1_pm_substates::PortTPowerOnScale::Time100us => tag(p, h("Time100us")),
            pcics::extended_capabilities::l1_pm_substates::PortTPowerOnScale::Reserved => tag(p, h("Reserved")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::l1_pm_substates::L1PmSubstatesControl1 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.pci_pm_l1_2_enable.obs(step(p, h("pci_pm_l1_2_enable")));
        self.pci_pm_l1_1_enable.obs(step(p, h("pci_pm_l1_1_enable")));
        self.aspm_l1_2_enable.obs(step(p, h("aspm_l1_2_enable")));
        self.aspm_l1_1_enable.obs(step(p, h("aspm_l1_1_enable")));
        self.common_mode_restore_time.obs(step(p, h("common_mode_restore_time")));
        self.ltr_l1_2_threshold.obs(step(p, h("ltr_l1_2_threshold")));
    }
}
impl Obs for pcics::extended_capabilities::l1_pm_substates::L1PmSubstatesControl2 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.t_power_on.obs(step(p, h("t_power_on")));
    }
}
impl Obs for pcics::extended_capabilities::latency_tolerance_reporting::LatencyToleranceReporting {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.max_snoop_latency.obs(step(p, h("max_snoop_latency")));
        self.max_no_snoop_latency.obs(step(p, h("max_no_snoop_latency")));
    }
}
impl Obs for pcics::extended_capabilities::latency_tolerance_reporting::MaxLatency {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.value.obs(step(p, h("value")));
        self.scale.obs(step(p, h("scale")));
    }
}
impl Obs for pcics::extended_capabilities::ln_requester::LnRequester {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.lnr_capability.obs(step(p, h("lnr_capability")));
        self.lnr_control.obs(step(p, h("lnr_control")));
    }
}
impl Obs for pcics::extended_capabilities::ln_requester::LnrCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.lnr_64_supported.obs(step(p, h("lnr_64_supported")));
        self.lnr_128_supported.obs(step(p, h("lnr_128_supported")));
        self.lnr_registration_max.obs(step(p, h("lnr_registration_max")));
    }
}
impl Obs for pcics::extended_capabilities::ln_requester::LnrControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.lnr_enable.obs(step(p, h("lnr_enable")));
        self.lnr_cls.obs(step(p, h("lnr_cls")));
        self.lnr_registration_limit.obs(step(p, h("lnr_registration_limit")));
    }
}
impl Obs for pcics::extended_capabilities::multicast::Multicast {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.multicast_capability.obs(step(p, h("multicast_capability")));
        self.multicast_control.obs(step(p, h("multicast_control")));
        self.mc_base_address.obs(step(p, h("mc_base_address")));
        self.mc_receive.obs(step(p, h("mc_receive")));
        self.mc_block_all.obs(step(p, h("mc_block_all")));
        self.mc_block_untranslated.obs(step(p, h("mc_block_untranslated")));
        self.mc_overlay_bar.obs(step(p, h("mc_overlay_bar")));
    }
}
impl Obs for pcics::extended_capabilities::multicast::MulticastCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.mc_max_group.obs(step(p, h("mc_max_group")));
        self.mc_window_size_requested.obs(step(p, h("mc_window_size_requested")));
        self.mc_ecrc_regeneration_supported.obs(step(p, h("mc_ecrc_regeneration_supported")));
    }
}
impl Obs for pcics::extended_capabilities::multicast::MulticastControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.mc_num_group.obs(step(p, h("mc_num_group")));
        self.mc_enable.obs(step(p, h("mc_enable")));
    }
}
impl Obs for pcics::extended_capabilities::multicast::McBaseAddress {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.mc_index_position.obs(step(p, h("mc_index_position")));
        self.mc_base_address.obs(step(p, h("mc_base_address")));
    }
}
impl Obs for pcics::extended_capabilities::multicast::McOverlayBar {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.mc_overlay_size.obs(step(p, h("mc_overlay_size")));
        self.mc_overlay_bar.obs(step(p, h("mc_overlay_bar")));
    }
}
impl Obs for pcics::extended_capabilities::multifunction_virtual_channel::MultifunctionVirtualChannelError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::multifunction_virtual_channel::MultifunctionVirtualChannelError::PortVcData => tag(p, h("PortVcData")),
            pcics::extended_capabilities::multifunction_virtual_channel::MultifunctionVirtualChannelError::VcArbitrationTableOffset => tag(p, h("VcArbitrationTableOffset")),
            pcics::extended_capabilities::multifunction_virtual_channel::MultifunctionVirtualChannelError::VcArbitrationTableData => tag(p, h("VcArbitrationTableData")),
            pcics::extended_capabilities::multifunction_virtual_channel::MultifunctionVirtualChannelError::VcArbitrationTableLength { expected, real, .. } => {
                tag(p, h("VcArbitrationTableLength"));
                expected.obs(step(step(p, h("VcArbitrationTableLength")), h("expected")));
                real.obs(step(step(p, h("VcArbitrationTableLength")), h("real")));
            }
            pcics::extended_capabilities::multifunction_virtual_channel::MultifunctionVirtualChannelError::FunctionArbitrationTable0 => tag(p, h("FunctionArbitrationTable0")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl<'a> Obs for pcics::extended_capabilities::multifunction_virtual_channel::MultifunctionVirtualChannel<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.port_vc_capability_1.obs(step(p, h("port_vc_capability_1")));
        self.port_vc_capability_2.obs(step(p, h("port_vc_capability_2")));
        self.port_vc_control.obs(step(p, h("port_vc_control")));
        self.port_vc_status.obs(step(p, h("port_vc_status")));
        self.vc_arbitration_table.obs(step(p, h("vc_arbitration_table")));
        self.extended_virtual_channels.obs(step(p, h("extended_virtual_channels")));
    }
}
impl Obs for pcics::extended_capabilities::multifunction_virtual_channel::PortVcCapability1 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.extended_vc_count.obs(step(p, h("extended_vc_count")));
        self.low_priority_extended_vc_count.obs(step(p, h("low_priority_extended_vc_count")));
        self.reference_clock.obs(step(p, h("reference_clock")));
        self.function_arbitration_table_entry_size.obs(step(p, h("function_arbitration_table_entry_size")));
    }
}
impl Obs for pcics::extended_capabilities::multifunction_virtual_channel::FunctionArbitrationTableEntrySize {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.0.obs(p);
    }
}
// private: pcics::extended_capabilities::multifunction_virtual_channel::ExtendedVirtualChannels
impl<'a> Obs for pcics::extended_capabilities::multifunction_virtual_channel::ExtendedVirtualChannel<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.vc_resource_capability.obs(step(p, h("vc_resource_capability")));
        self.vc_resource_control.obs(step(p, h("vc_resource_control")));
        self.vc_resource_status.obs(step(p, h("vc_resource_status")));
        self.function_arbitration_table.obs(step(p, h("function_arbitration_table")));
    }
}
impl Obs for pcics::extended_capabilities::multifunction_virtual_channel::VcResourceCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.function_arbitration_capability.obs(step(p, h("function_arbitration_capability")));
        self.maximum_time_slots.obs(step(p, h("maximum_time_slots")));
        self.function_arbitration_table_offset.obs(step(p, h("function_arbitration_table_offset")));
    }
}
impl Obs for pcics::extended_capabilities::multifunction_virtual_channel::FunctionArbitrationCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.hardware_fixed_arbitration.obs(step(p, h("hardware_fixed_arbitration")));
        self.wrr_32_phases.obs(step(p, h("wrr_32_phases")));
        self.wrr_64_phases.obs(step(p, h("wrr_64_phases")));
        self.wrr_128_phases.obs(step(p, h("wrr_128_phases")));
        self.time_based_wrr_128_phases.obs(step(p, h("time_based_wrr_128_phases")));
        self.wrr_256_phases.obs(step(p, h("wrr_256_phases")));
        self.reserved.obs(step(p, h("reserved")));
    }
}
impl Obs for pcics::extended_capabilities::multifunction_virtual_channel::VcResourceControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.tc_to_vc_map.obs(step(p, h("tc_to_vc_map")));
        self.load_function_arbitration_table.obs(step(p, h("load_function_arbitration_table")));
        self.function_arbitration_select.obs(step(p, h("function_arbitration_select")));
        self.vc_id.obs(step(p, h("vc_id")));
        self.vc_enable.obs(step(p, h("vc_enable")));
    }
}
impl Obs for pcics::extended_capabilities::multifunction_virtual_channel::FunctionArbitrationSelect {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::multifunction_virtual_channel::FunctionArbitrationSelect::HardwareFixedArbitration => tag(p, h("HardwareFixedArbitration")),
            pcics::extended_capabilities::multifunction_virtual_channel::FunctionArbitrationSelect::Wrr32phases => tag(p, h("Wrr32phases")),
            pcics::extended_capabilities::multifunction_virtual_channel::FunctionArbitrationSelect::Wrr64phases => tag(p, h("Wrr64phases")),
            pcics::extended_capabilities::multifunction_virtual_channel::FunctionArbitrationSelect::Wrr128phases => tag(p, h("Wrr128phases")),
            pcics::extended_capabilities::multifunction_virtual_channel::FunctionArbitrationSelect::TimeBasedWrr128phases => tag(p, h("TimeBasedWrr128phases")),
            pcics::extended_capabilities::multifunction_virtual_channel::FunctionArbitrationSelect::Wrr256phases => tag(p, h("Wrr256phases")),
            pcics::extended_capabilities::multifunction_virtual_channel::FunctionArbitrationSelect::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::multifunction_virtual_channel::VcResourceStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.function_arbitration_table_status.obs(step(p, h("function_arbitration_table_status")));
        self.vc_negotiation_pending.obs(step(p, h("vc_negotiation_pending")));
    }
}
// private: pcics::extended_capabilities::multifunction_virtual_channel::FunctionArbitrationTable
// private: pcics::extended_capabilities::multifunction_virtual_channel::FunctionArbitrationTableEntry
impl Obs for pcics::extended_capabilities::page_request_interface::PageRequestInterface {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.page_request_control.obs(step(p, h("page_request_control")));
        self.page_request_status.obs(step(p, h("page_request_status")));
        self.outstanding_page_request_capacity.obs(step(p, h("outstanding_page_request_capacity")));
        self.outstanding_page_request_allocation.obs(step(p, h("outstanding_page_request_allocation")));
    }
}
impl Obs for pcics::extended_capabilities::page_request_interface::PageRequestControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.enable.obs(step(p, h("enable")));
        self.reset.obs(step(p, h("reset")));
    }
}
impl Obs for pcics::extended_capabilities::page_request_interface::PageRequestStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.response_failure.obs(step(p, h("response_failure")));
        self.unexpected_page_request_group_index.obs(step(p, h("unexpected_page_request_group_index")));
        self.stopped.obs(step(p, h("stopped")));
        self.prg_response_pasid_required.obs(step(p, h("prg_response_pasid_required")));
    }
}
impl Obs for pcics::extended_capabilities::pci_express_over_m_phy::PciExpressOverMphy {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.mpcie_capabilities.obs(step(p, h("mpcie_capabilities")));
        self.mpcie_control.obs(step(p, h("mpcie_control")));
        self.mpcie_status.obs(step(p, h("mpcie_status")));
        self.mpcie_lane_error_status.obs(step(p, h("mpcie_lane_error_status")));
        self.mpcie_phy_control_address.obs(step(p, h("mpcie_phy_control_address")));
        self.mpcie_phy_control_data.obs(step(p, h("mpcie_phy_control_data")));
    }
}
impl Obs for pcics::extended_capabilities::pci_express_over_m_phy::MpcieCapabilities {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.mpcie_link_speed_capability.obs(step(p, h("mpcie_link_speed_capability")));
        self.configuration_software_supported.obs(step(p, h("configuration_software_supported")));
        self.maximum_tx_lane_width_capability.obs(step(p, h("maximum_tx_lane_width_capability")));
        self.maximum_rx_lane_width_capability.obs(step(p, h("maximum_rx_lane_width_capability")));
    }
}
impl Obs for pcics::extended_capabilities::pci_express_over_m_phy::MpcieControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.mpcie_target_link_speed_control.obs(step(p, h("mpcie_target_link_speed_control")));
    }
}
impl Obs for pcics::extended_capabilities::pci_express_over_m_phy::MpcieStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.mpcie_current_link_speed_status.obs(step(p, h("mpcie_current_link_speed_status")));
        self.mpcie_configuration_software_status.obs(step(p, h("mpcie_configuration_software_status")));
        self.tx_lane_width_status.obs(step(p, h("tx_lane_width_status")));
        self.rx_lane_width_status.obs(step(p, h("rx_lane_width_status")));
    }
}
impl Obs for pcics::extended_capabilities::pci_express_over_m_phy::MpciePhyControlAddress {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.lower_addr.obs(step(p, h("lower_addr")));
        self.upper_addr.obs(step(p, h("upper_addr")));
        self.phy_location.obs(step(p, h("phy_location")));
        self.read.obs(step(p, h("read")));
        self.config.obs(step(p, h("config")));
    }
}
impl Obs for pcics::extended_capabilities::pci_express_over_m_phy::MpciePhyControlData {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.phy_register_data.obs(step(p, h("phy_register_data")));
        self.phy_control_error.obs(step(p, h("phy_control_error")));
        self.rrap_abort_a.obs(step(p, h("rrap_abort_a")));
        self.phy_control_pending.obs(step(p, h("phy_control_pending")));
    }
}
impl Obs for pcics::extended_capabilities::pci_express_over_m_phy::MpcieLinkSpeed {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.hs_g1.obs(step(p, h("hs_g1")));
        self.hs_g2.obs(step(p, h("hs_g2")));
    }
}
impl Obs for pcics::extended_capabilities::pci_express_over_m_phy::LaneWidthSupported {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.x1.obs(step(p, h("x1")));
        self.x2.obs(step(p, h("x2")));
        self.x4.obs(step(p, h("x4")));
        self.x8.obs(step(p, h("x8")));
        self.x12.obs(step(p, h("x12")));
        self.x16.obs(step(p, h("x16")));
        self.x32.obs(step(p, h("x32")));
    }
}
impl Obs for pcics::extended_capabilities::pci_express_over_m_phy::LaneWidthStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::pci_express_over_m_phy::LaneWidthStatus::X1 => tag(p, h("X1")),
            pcics::extended_capabilities::pci_express_over_m_phy::LaneWidthStatus::X2 => tag(p, h("X2")),
            pcics::extended_capabilities::pci_express_over_m_phy::LaneWidthStatus::X4 => tag(p, h("X4")),
            pcics::extended_capabilities::pci_express_over_m_phy::LaneWidthStatus::X8 => tag(p, h("X8")),
            pcics::extended_capabilities::pci_express_over_m_phy::LaneWidthStatus::X12 => tag(p, h("X12")),
            pcics::extended_capabilities::pci_express_over_m_phy::LaneWidthStatus::X16 => tag(p, h("X16")),
            pcics::extended_capabilities::pci_express_over_m_phy::LaneWidthStatus::X32 => tag(p, h("X32")),
            pcics::extended_capabilities::pci_express_over_m_phy::LaneWidthStatus::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::pci_express_over_m_phy::PhyLocation {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::pci_express_over_m_phy::PhyLocation::LocalPhy => tag(p, h("LocalPhy")),
            pcics::extended_capabilities::pci_express_over_m_phy::PhyLocation::RemotePhy => tag(p, h("RemotePhy")),
            pcics::extended_capabilities::pci_express_over_m_phy::PhyLocation::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::power_budgeting::PowerBudgeting {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.data_select.obs(step(p, h("data_select")));
        self.data.obs(step(p, h("data")));
        self.power_budget_capability.obs(step(p, h("power_budget_capability")));
    }
}
impl Obs for pcics::extended_capabilities::power_budgeting::Data {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.base_power.obs(step(p, h("base_power")));
        self.data_scale.obs(step(p, h("data_scale")));
        self.pm_sub_state.obs(step(p, h("pm_sub_state")));
        self.pm_state.obs(step(p, h("pm_state")));
        self.operation_condition_type.obs(step(p, h("operation_condition_type")));
        self.power_rail.obs(step(p, h("power_rail")));
    }
}
impl Obs for pcics::extended_capabilities::power_budgeting::BasePower {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::power_budgeting::BasePower::Value(x0) => {
                tag(p, h("Value"));
                x0.obs(step(p, h("Value")));
            }
            pcics::extended_capabilities::power_budgeting::BasePower::Gt239Le250 => tag(p, h("Gt239Le250")),
            pcics::extended_capabilities::power_budgeting::BasePower::Gt250Le275 => tag(p, h("Gt250Le275")),
            pcics::extended_capabilities::power_budgeting::BasePower::Gt275Le300 => tag(p, h("Gt275Le300")),
            pcics::extended_capabilities::power_budgeting::BasePower::Gt300 => tag(p, h("Gt300")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::power_budgeting::DataScale {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::power_budgeting::DataScale::One => tag(p, h("One")),
            pcics::extended_capabilities::power_budgeting::DataScale::Deci => tag(p, h("Deci")),
            pcics::extended_capabilities::power_budgeting::DataScale::Centi => tag(p, h("Centi")),
            pcics::extended_capabilities::power_budgeting::DataScale::Milli => tag(p, h("Milli")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::power_budgeting::PmSubState {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::power_budgeting::PmSubState::Default => tag(p, h("Default")),
            pcics::extended_capabilities::power_budgeting::PmSubState::Specific(x0) => {
                tag(p, h("Specific"));
                x0.obs(step(p, h("Specific")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::power_budgeting::PmState {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::power_budgeting::PmState::D0 => tag(p, h("D0")),
            pcics::extended_capabilities::power_budgeting::PmState::D1 => tag(p, h("D1")),
            pcics::extended_capabilities::power_budgeting::PmState::D2 => tag(p, h("D2")),
            pcics::extended_capabilities::power_budgeting::PmState::D3 => tag(p, h("D3")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::power_budgeting::OperationConditionType {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::power_budgeting::OperationConditionType::PmeAux => tag(p, h("PmeAux")),
            pcics::extended_capabilities::power_budgeting::OperationConditionType::Auxiliary => tag(p, h("Auxiliary")),
            pcics::extended_capabilities::power_budgeting::OperationConditionType::Idle => tag(p, h("Idle")),
            pcics::extended_capabilities::power_budgeting::OperationConditionType::Sustained => tag(p, h("Sustained")),
            pcics::extended_capabilities::power_budgeting::OperationConditionType::SustainedEmergencyPowerReductionState => tag(p, h("SustainedEmergencyPowerReductionState")),
            pcics::extended_capabilities::power_budgeting::OperationConditionType::MaximumEmergencyPowerReductionState => tag(p, h("MaximumEmergencyPowerReductionState")),
            pcics::extended_capabilities::power_budgeting::OperationConditionType::Maximum => tag(p, h("Maximum")),
            pcics::extended_capabilities::power_budgeting::OperationConditionType::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::power_budgeting::PowerRail {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::power_budgeting::PowerRail::Power12v => tag(p, h("Power12v")),
            pcics::extended_capabilities::power_budgeting::PowerRail::Power3_3v => tag(p, h("Power3_3v")),
            pcics::extended_capabilities::power_budgeting::PowerRail::Power1_5vOr1_8v => tag(p, h("Power1_5vOr1_8v")),
            pcics::extended_capabilities::power_budgeting::PowerRail::Thermal => tag(p, h("Thermal")),
            pcics::extended_capabilities::power_budgeting::PowerRail::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::power_budgeting::PowerBudgetCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.system_allocated.obs(step(p, h("system_allocated")));
    }
}
impl Obs for pcics::extended_capabilities::precision_time_measurement::PrecisionTimeMeasurement {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.ptm_capability.obs(step(p, h("ptm_capability")));
        self.ptm_control.obs(step(p, h("ptm_control")));
    }
}
impl Obs for pcics::extended_capabilities::precision_time_measurement::PtmCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.ptm_requester_capable.obs(step(p, h("ptm_requester_capable")));
        self.ptm_responder_capable.obs(step(p, h("ptm_responder_capable")));
        self.ptm_root_capable.obs(step(p, h("ptm_root_capable")));
        self.local_clock_granularity.obs(step(p, h("local_clock_granularity")));
    }
}
impl Obs for pcics::extended_capabilities::precision_time_measurement::PtmControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.ptm_enable.obs(step(p, h("ptm_enable")));
        self.root_select.obs(step(p, h("root_select")));
        self.effective_granularity.obs(step(p, h("effective_granularity")));
    }
}
impl Obs for pcics::extended_capabilities::process_address_space_id::ProcessAddressSpaceId {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.pacid_capability.obs(step(p, h("pacid_capability")));
        self.pacid_control.obs(step(p, h("pacid_control")));
    }
}
impl Obs for pcics::extended_capabilities::process_address_space_id::PacidCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.execute_permission_supported.obs(step(p, h("execute_permission_supported")));
        self.privileged_mode_supported.obs(step(p, h("privileged_mode_supported")));
        self.max_pasid_width.obs(step(p, h("max_pasid_width")));
    }
}
impl Obs for pcics::extended_capabilities::process_address_space_id::PacidControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.pasid_enable.obs(step(p, h("pasid_enable")));
        self.execute_permission_enable.obs(step(p, h("execute_permission_enable")));
        self.privileged_mode_enable.obs(step(p, h("privileged_mode_enable")));
    }
}
impl Obs for pcics::extended_capabilities::protocol_multiplexing::ProtocolMultiplexingError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::protocol_multiplexing::ProtocolMultiplexingError::Mandatory => tag(p, h("Mandatory")),
            pcics::extended_capabilities::protocol_multiplexing::ProtocolMultiplexingError::PmuxProtocolArray { expected, found, .. } => {
                tag(p, h("PmuxProtocolArray"));
                expected.obs(step(step(p, h("PmuxProtocolArray")), h("expected")));
                found.obs(step(step(p, h("PmuxProtocolArray")), h("found")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl<'a> Obs for pcics::extended_capabilities::protocol_multiplexing::ProtocolMultiplexing<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.pmux_capability.obs(step(p, h("pmux_capability")));
        self.pmux_control.obs(step(p, h("pmux_control")));
        self.pmux_status.obs(step(p, h("pmux_status")));
        self.pmux_protocol_array.obs(step(p, h("pmux_protocol_array")));
    }
}
impl Obs for pcics::extended_capabilities::protocol_multiplexing::PmuxCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.pmux_protocol_array_size.obs(step(p, h("pmux_protocol_array_size")));
        self.pmux_supported_link_speeds.obs(step(p, h("pmux_supported_link_speeds")));
    }
}
impl Obs for pcics::extended_capabilities::protocol_multiplexing::PmuxSupportedLinkSpeeds {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.speed_2_5_gtps.obs(step(p, h("speed_2_5_gtps")));
        self.speed_5_0_gtps.obs(step(p, h("speed_5_0_gtps")));
        self.speed_8_0_gtps.obs(step(p, h("speed_8_0_gtps")));
        self.speed_16_0_gtps.obs(step(p, h("speed_16_0_gtps")));
    }
}
impl Obs for pcics::extended_capabilities::protocol_multiplexing::PmuxControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.pmux_channel_0_assignment.obs(step(p, h("pmux_channel_0_assignment")));
        self.pmux_channel_1_assignment.obs(step(p, h("pmux_channel_1_assignment")));
        self.pmux_channel_2_assignment.obs(step(p, h("pmux_channel_2_assignment")));
        self.pmux_channel_3_assignment.obs(step(p, h("pmux_channel_3_assignment")));
    }
}
impl Obs for pcics::extended_capabilities::protocol_multiplexing::PmuxStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.pmux_channel_0_disabled_link_speed.obs(step(p, h("pmux_channel_0_disabled_link_speed")));
        self.pmux_channel_0_disabled_link_width.obs(step(p, h("pmux_channel_0_disabled_link_width")));
        self.pmux_channel_0_disabled_link_protocol_specific.obs(step(p, h("pmux_channel_0_disabled_link_protocol_specific")));
        self.pmux_channel_1_disabled_link_speed.obs(step(p, h("pmux_channel_1_disabled_link_speed")));
        self.pmux_channel_1_disabled_link_width.obs(step(p, h("pmux_channel_1_disabled_link_width")));
        self.pmux_channel_1_disabled_link_protocol_specific.obs(step(p, h("pmux_channel_1_disabled_link_protocol_specific")));
        self.pmux_channel_2_disabled_link_speed.obs(step(p, h("pmux_channel_2_disabled_link_speed")));
        self.pmux_channel_2_disabled_link_width.obs(step(p, h("pmux_channel_2_disabled_link_width")));
        self.pmux_channel_2_disabled_link_protocol_specific.obs(step(p, h("pmux_channel_2_disabled_link_protocol_specific")));
        self.pmux_channel_3_disabled_link_speed.obs(step(p, h("pmux_channel_3_disabled_link_speed")));
        self.pmux_channel_3_disabled_link_width.obs(step(p, h("pmux_channel_3_disabled_link_width")));
        self.pmux_channel_3_disabled_link_protocol_specific.obs(step(p, h("pmux_channel_3_disabled_link_protocol_specific")));
    }
}
impl Obs for pcics::extended_capabilities::protocol_multiplexing::PmuxProtocolArrayEntry {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.protocol_id.obs(step(p, h("protocol_id")));
        self.authority_id.obs(step(p, h("authority_id")));
    }
}
impl Obs for pcics::extended_capabilities::readiness_time_reporting::ReadinessTimeReporting {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.reset_time.obs(step(p, h("reset_time")));
        self.dl_up_time.obs(step(p, h("dl_up_time")));
        self.valid.obs(step(p, h("valid")));
        self.flr_time.obs(step(p, h("flr_time")));
        self.d3hot_to_d0_time.obs(step(p, h("d3hot_to_d0_time")));
    }
}
impl Obs for pcics::extended_capabilities::readiness_time_reporting::ReadinessTime {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.value.obs(step(p, h("value")));
        self.scale.obs(step(p, h("scale")));
    }
}
impl Obs for pcics::extended_capabilities::resizable_bar::ResizableBarError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::resizable_bar::ResizableBarError::FirstEntry => tag(p, h("FirstEntry")),
            pcics::extended_capabilities::resizable_bar::ResizableBarError::NumberOfResizableBars { value, .. } => {
                tag(p, h("NumberOfResizableBars"));
                value.obs(step(step(p, h("NumberOfResizableBars")), h("value")));
            }
            pcics::extended_capabilities::resizable_bar::ResizableBarError::ShortData => tag(p, h("ShortData")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::resizable_bar::ResizableBarEntry {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.capability.obs(step(p, h("capability")));
        self.control.obs(step(p, h("control")));
    }
}
impl Obs for pcics::extended_capabilities::resizable_bar::ResizableBarCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.support_map_from_1mb_to_128tb.obs(step(p, h("support_map_from_1mb_to_128tb")));
    }
}
impl Obs for pcics::extended_capabilities::resizable_bar::ResizableBarControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.bar_index.obs(step(p, h("bar_index")));
        self.number_of_resizable_bars.obs(step(p, h("number_of_resizable_bars")));
        self.bar_size.obs(step(p, h("bar_size")));
        self.support_map_from_256tb_to_8eb.obs(step(p, h("support_map_from_256tb_to_8eb")));
    }
}
impl Obs for pcics::extended_capabilities::root_complex_event_collector_endpoint_association::RootComplexEventCollectorEndpointAssociation {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.association_bitmap_for_rcieps.obs(step(p, h("association_bitmap_for_rcieps")));
    }
}
impl Obs for pcics::extended_capabilities::root_complex_internal_link_control::RootComplexInternalLinkControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.root_complex_link_capabilities.obs(step(p, h("root_complex_link_capabilities")));
        self.root_complex_link_control.obs(step(p, h("root_complex_link_control")));
        self.root_complex_link_status.obs(step(p, h("root_complex_link_status")));
    }
}
impl Obs for pcics::extended_capabilities::root_complex_internal_link_control::RootComplexLinkCapabilities {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.max_link_speed.obs(step(p, h("max_link_speed")));
        self.maximum_link_width.obs(step(p, h("maximum_link_width")));
        self.active_state_power_management_support.obs(step(p, h("active_state_power_management_support")));
        self.l0s_exit_latency.obs(step(p, h("l0s_exit_latency")));
        self.l1_exit_latency.obs(step(p, h("l1_exit_latency")));
        self.supported_link_speeds_vector.obs(step(p, h("supported_link_speeds_vector")));
    }
}
impl Obs for pcics::extended_capabilities::root_complex_internal_link_control::RootComplexLinkControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.active_state_power_management_control.obs(step(p, h("active_state_power_management_control")));
        self.extended_synch.obs(step(p, h("extended_synch")));
    }
}
impl Obs for pcics::extended_capabilities::root_complex_internal_link_control::RootComplexLinkStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.current_link_speed.obs(step(p, h("current_link_speed")));
        self.negotiated_link_width.obs(step(p, h("negotiated_link_width")));
    }
}
impl Obs for pcics::extended_capabilities::root_complex_link_declaration::DeviceSerialNumber {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.lower_dword.obs(step(p, h("lower_dword")));
        self.upper_dword.obs(step(p, h("upper_dword")));
    }
}
impl Obs for pcics::extended_capabilities::root_complex_link_declaration::RootComplexLinkDeclarationError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::root_complex_link_declaration::RootComplexLinkDeclarationError::ElementSelfDescription => tag(p, h("ElementSelfDescription")),
            pcics::extended_capabilities::root_complex_link_declaration::RootComplexLinkDeclarationError::NumberOfLinkEntries { element_self_description, .. } => {
                tag(p, h("NumberOfLinkEntries"));
                element_self_description.obs(step(step(p, h("NumberOfLinkEntries")), h("element_self_description")));
            }
            pcics::extended_capabilities::root_complex_link_declaration::RootComplexLinkDeclarationError::ReservedSpace { element_self_description, .. } => {
                tag(p, h("ReservedSpace"));
                element_self_description.obs(step(step(p, h("ReservedSpace")), h("element_self_description")));
            }
            pcics::extended_capabilities::root_complex_link_declaration::RootComplexLinkDeclarationError::LinkEntry1 { element_self_description, .. } => {
                tag(p, h("LinkEntry1"));
                element_self_description.obs(step(step(p, h("LinkEntry1")), h("element_self_description")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl<'a> Obs for pcics::extended_capabilities::root_complex_link_declaration::RootComplexLinkDeclaration<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.element_self_description.obs(step(p, h("element_self_description")));
        self.link_entries.obs(step(p, h("link_entries")));
    }
}
impl Obs for pcics::extended_capabilities::root_complex_link_declaration::ElementSelfDescription {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.element_type.obs(step(p, h("element_type")));
        self.reserved.obs(step(p, h("reserved")));
        self.number_of_link_entries.obs(step(p, h("number_of_link_entries")));
        self.component_id.obs(step(p, h("component_id")));
        self.port_number.obs(step(p, h("port_number")));
    }
}
impl Obs for pcics::extended_capabilities::root_complex_link_declaration::ElementType {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::root_complex_link_declaration::ElementType::ConfigurationSpaceElement => tag(p, h("ConfigurationSpaceElement")),
            pcics::extended_capabilities::root_complex_link_declaration::ElementType::SystemEgressPortOrInternalSink => tag(p, h("SystemEgressPortOrInternalSink")),
            pcics::extended_capabilities::root_complex_link_declaration::ElementType::InternalRootComplexLink => tag(p, h("InternalRootComplexLink")),
            pcics::extended_capabilities::root_complex_link_declaration::ElementType::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::root_complex_link_declaration::LinkEntriesState {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::root_complex_link_declaration::LinkEntriesState::Valid => tag(p, h("Valid")),
            pcics::extended_capabilities::root_complex_link_declaration::LinkEntriesState::Incomplete => tag(p, h("Incomplete")),
            pcics::extended_capabilities::root_complex_link_declaration::LinkEntriesState::Invalid => tag(p, h("Invalid")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::root_complex_link_declaration::LinkEntry {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.link_description.obs(step(p, h("link_description")));
        self.link_address.obs(step(p, h("link_address")));
    }
}
impl Obs for pcics::extended_capabilities::root_complex_link_declaration::LinkDescription {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.link_valid.obs(step(p, h("link_valid")));
        self.link_type.obs(step(p, h("link_type")));
        self.associate_rcrb_header.obs(step(p, h("associate_rcrb_header")));
        self.target_component_id.obs(step(p, h("target_component_id")));
        self.target_port_number.obs(step(p, h("target_port_number")));
    }
}
impl Obs for pcics::extended_capabilities::root_complex_link_declaration::LinkAddress {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::root_complex_link_declaration::LinkAddress::MemoryMappedSpace(x0) => {
                tag(p, h("MemoryMappedSpace"));
                x0.obs(step(p, h("MemoryMappedSpace")));
            }
            pcics::extended_capabilities::root_complex_link_declaration::LinkAddress::ConfigurationSpace { n, reserved, function, device, bus, address, .. } => {
                tag(p, h("ConfigurationSpace"));
                n.obs(step(step(p, h("ConfigurationSpace")), h("n")));
                reserved.obs(step(step(p, h("ConfigurationSpace")), h("reserved")));
                function.obs(step(step(p, h("ConfigurationSpace")), h("function")));
                device.obs(step(step(p, h("ConfigurationSpace")), h("device")));
                bus.obs(step(step(p, h("ConfigurationSpace")), h("bus")));
                address.obs(step(step(p, h("ConfigurationSpace")), h("address")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::root_complex_register_block_header::RootComplexRegisterBlockHeader {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.vendor_id.obs(step(p, h("vendor_id")));
        self.device_id.obs(step(p, h("device_id")));
        self.rcrb_capabilities.obs(step(p, h("rcrb_capabilities")));
        self.rcrb_control.obs(step(p, h("rcrb_control")));
    }
}
impl Obs for pcics::extended_capabilities::root_complex_register_block_header::RcrbCapabilities {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.crs_software_visibility.obs(step(p, h("crs_software_visibility")));
    }
}
impl Obs for pcics::extended_capabilities::root_complex_register_block_header::RcrbControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.crs_software_visibility_enable.obs(step(p, h("crs_software_visibility_enable")));
    }
}
impl<'a> Obs for pcics::extended_capabilities::secondary_pci_express::SecondaryPciExpress<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.link_control_3.obs(step(p, h("link_control_3")));
        self.lane_error_status.obs(step(p, h("lane_error_status")));
    }
}
impl Obs for pcics::extended_capabilities::secondary_pci_express::LinkControl3 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.perform_equalization.obs(step(p, h("perform_equalization")));
        self.link_equalization_request_interrupt_enable.obs(step(p, h("link_equalization_request_interrupt_enable")));
        self.lower_skp_os_generation_vector.obs(step(p, h("lower_skp_os_generation_vector")));
    }
}
impl Obs for pcics::extended_capabilities::secondary_pci_express::LaneErrorStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.0.obs(p);
    }
}
// private: pcics::extended_capabilities::secondary_pci_express::EqualizationControlLanes
// private: pcics::extended_capabilities::secondary_pci_express::LaneEqualizationControl
impl Obs for pcics::extended_capabilities::single_root_io_virtualization::SingleRootIoVirtualizationError {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::single_root_io_virtualization::SingleRootIoVirtualizationError::ElementSelfDescription => tag(p, h("ElementSelfDescription")),
            pcics::extended_capabilities::single_root_io_virtualization::SingleRootIoVirtualizationError::LinkEntries => tag(p, h("LinkEntries")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::single_root_io_virtualization::SingleRootIoVirtualization {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.sriov_capabilities.obs(step(p, h("sriov_capabilities")));
        self.sriov_control.obs(step(p, h("sriov_control")));
        self.sriov_status.obs(step(p, h("sriov_status")));
        self.initial_vfs.obs(step(p, h("initial_vfs")));
        self.total_vfs.obs(step(p, h("total_vfs")));
        self.num_vfs.obs(step(p, h("num_vfs")));
        self.function_dependency_link.obs(step(p, h("function_dependency_link")));
        self.first_vf_offset.obs(step(p, h("first_vf_offset")));
        self.vf_stride.obs(step(p, h("vf_stride")));
        self.vf_device_id.obs(step(p, h("vf_device_id")));
        self.page_sizes.obs(step(p, h("page_sizes")));
        self.base_addresses.obs(step(p, h("base_addresses")));
        self.vf_migration_state_array_offset.obs(step(p, h("vf_migration_state_array_offset")));
    }
}
impl Obs for pcics::extended_capabilities::single_root_io_virtualization::SriovCapabilities {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.vf_migration_capable.obs(step(p, h("vf_migration_capable")));
        self.ari_capable_hierarchy_preserved.obs(step(p, h("ari_capable_hierarchy_preserved")));
        self.vf_10bit_tag_requester_supported.obs(step(p, h("vf_10bit_tag_requester_supported")));
        self.vf_migration_interrupt_message_number.obs(step(p, h("vf_migration_interrupt_message_number")));
    }
}
impl Obs for pcics::extended_capabilities::single_root_io_virtualization::SriovControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.vf_enable.obs(step(p, h("vf_enable")));
        self.vf_migration_enable.obs(step(p, h("vf_migration_enable")));
        self.vf_migration_interrupt_enable.obs(step(p, h("vf_migration_interrupt_enable")));
        self.vf_mse.obs(step(p, h("vf_mse")));
        self.ari_capable_hierarchy.obs(step(p, h("ari_capable_hierarchy")));
        self.vf_10bit_tag_requester_enable.obs(step(p, h("vf_10bit_tag_requester_enable")));
    }
}
impl Obs for pcics::extended_capabilities::single_root_io_virtualization::SriovStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.vf_migration_status.obs(step(p, h("vf_migration_status")));
    }
}
impl Obs for pcics::extended_capabilities::single_root_io_virtualization::PageSizes {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.supported.obs(step(p, h("supported")));
        self.system.obs(step(p, h("system")));
    }
}
impl<'a> Obs for pcics::extended_capabilities::tph_requester::TphRequester<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.tph_requester_capability.obs(step(p, h("tph_requester_capability")));
        self.tph_requester_control.obs(step(p, h("tph_requester_control")));
    }
}
impl<'a> Obs for pcics::extended_capabilities::tph_requester::TphRequesterCapability<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.no_st_mode_supported.obs(step(p, h("no_st_mode_supported")));
        self.interrupt_vector_mode_supported.obs(step(p, h("interrupt_vector_mode_supported")));
        self.device_specific_mode_supported.obs(step(p, h("device_specific_mode_supported")));
        self.extended_tph_requester_supported.obs(step(p, h("extended_tph_requester_supported")));
        self.st_table.obs(step(p, h("st_table")));
    }
}
impl<'a> Obs for pcics::extended_capabilities::tph_requester::StTable<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::tph_requester::StTable::NotPresent => tag(p, h("NotPresent")),
            pcics::extended_capabilities::tph_requester::StTable::Valid { size, data, .. } => {
                tag(p, h("Valid"));
                size.obs(step(step(p, h("Valid")), h("size")));
                data.obs(step(step(p, h("Valid")), h("data")));
            }
            pcics::extended_capabilities::tph_requester::StTable::Invalid { size, data, .. } => {
                tag(p, h("Invalid"));
                size.obs(step(step(p, h("Invalid")), h("size")));
                data.obs(step(step(p, h("Invalid")), h("data")));
            }
            pcics::extended_capabilities::tph_requester::StTable::MsiXTable { size, .. } => {
                tag(p, h("MsiXTable"));
                size.obs(step(step(p, h("MsiXTable")), h("size")));
            }
            pcics::extended_capabilities::tph_requester::StTable::Reserved => tag(p, h("Reserved")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::tph_requester::TphStTableEntry {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.st_lower.obs(step(p, h("st_lower")));
        self.st_upper.obs(step(p, h("st_upper")));
    }
}
impl Obs for pcics::extended_capabilities::tph_requester::TphRequesterControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.st_mode_select.obs(step(p, h("st_mode_select")));
        self.tph_requester_enable.obs(step(p, h("tph_requester_enable")));
    }
}
impl Obs for pcics::extended_capabilities::tph_requester::StModeSelect {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::tph_requester::StModeSelect::NoStMode => tag(p, h("NoStMode")),
            pcics::extended_capabilities::tph_requester::StModeSelect::InterruptVectorMode => tag(p, h("InterruptVectorMode")),
            pcics::extended_capabilities::tph_requester::StModeSelect::DeviceSpecificMode => tag(p, h("DeviceSpecificMode")),
            pcics::extended_capabilities::tph_requester::StModeSelect::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::tph_requester::TphRequesterEnable {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::tph_requester::TphRequesterEnable::NotPermitted => tag(p, h("NotPermitted")),
            pcics::extended_capabilities::tph_requester::TphRequesterEnable::TphPermitted => tag(p, h("TphPermitted")),
            pcics::extended_capabilities::tph_requester::TphRequesterEnable::Reserved => tag(p, h("Reserved")),
            pcics::extended_capabilities::tph_requester::TphRequesterEnable::TphAndExtendedTphPermitted => tag(p, h("TphAndExtendedTphPermitted")),
            _ => tag(p, h("<other>")),
        }
    }
}
impl<'a> Obs for pcics::extended_capabilities::vendor_specific_extended_capability::VendorSpecificExtendedCapability<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.header.obs(step(p, h("header")));
        self.registers.obs(step(p, h("registers")));
    }
}
impl Obs for pcics::extended_capabilities::vendor_specific_extended_capability::VsecHeader {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.vsec_id.obs(step(p, h("vsec_id")));
        self.vsec_rev.obs(step(p, h("vsec_rev")));
        self.vsec_length.obs(step(p, h("vsec_length")));
    }
}
impl<'a> Obs for pcics::extended_capabilities::vendor_specific_extended_capability::VsecRegisters<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::vendor_specific_extended_capability::VsecRegisters::Valid(x0) => {
                tag(p, h("Valid"));
                x0.obs(step(p, h("Valid")));
            }
            pcics::extended_capabilities::vendor_specific_extended_capability::VsecRegisters::InvalidLength(x0) => {
                tag(p, h("InvalidLength"));
                x0.obs(step(p, h("InvalidLength")));
            }
            pcics::extended_capabilities::vendor_specific_extended_capability::VsecRegisters::Incomplete(x0) => {
                tag(p, h("Incomplete"));
                x0.obs(step(p, h("Incomplete")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl<'a> Obs for pcics::extended_capabilities::virtual_channel::VirtualChannel<'a> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.port_vc_capability_1.obs(step(p, h("port_vc_capability_1")));
        self.port_vc_capability_2.obs(step(p, h("port_vc_capability_2")));
        self.port_vc_control.obs(step(p, h("port_vc_control")));
        self.port_vc_status.obs(step(p, h("port_vc_status")));
    }
}
impl Obs for pcics::extended_capabilities::virtual_channel::PortVcCapability1 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.extended_vc_count.obs(step(p, h("extended_vc_count")));
        self.low_priority_extended_vc_count.obs(step(p, h("low_priority_extended_vc_count")));
        self.reference_clock.obs(step(p, h("reference_clock")));
        self.port_arbitration_table_entry_size.obs(step(p, h("port_arbitration_table_entry_size")));
    }
}
impl Obs for pcics::extended_capabilities::virtual_channel::ReferenceClock {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::virtual_channel::ReferenceClock::Rc100ns => tag(p, h("Rc100ns")),
            pcics::extended_capabilities::virtual_channel::ReferenceClock::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
// private: pcics::extended_capabilities::virtual_channel::PortArbitrationTableEntrySize
// private: pcics::extended_capabilities::virtual_channel::ExtendedVirtualChannels
// private: pcics::extended_capabilities::virtual_channel::ExtendedVirtualChannelError
impl Obs for pcics::extended_capabilities::virtual_channel::ExtendedVirtualChannel {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.vc_resource_capability.obs(step(p, h("vc_resource_capability")));
        self.vc_resource_control.obs(step(p, h("vc_resource_control")));
        self.vc_resource_status.obs(step(p, h("vc_resource_status")));
    }
}
impl Obs for pcics::extended_capabilities::virtual_channel::VcResourceCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.port_arbitration_capability.obs(step(p, h("port_arbitration_capability")));
        self.advanced_packet_switching.obs(step(p, h("advanced_packet_switching")));
        self.reject_snoop_transactions.obs(step(p, h("reject_snoop_transactions")));
        self.maximum_time_slots.obs(step(p, h("maximum_time_slots")));
        self.port_arbitration_table_offset.obs(step(p, h("port_arbitration_table_offset")));
    }
}
impl Obs for pcics::extended_capabilities::virtual_channel::PortArbitrationCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.hardware_fixed_arbitration.obs(step(p, h("hardware_fixed_arbitration")));
        self.wrr_32_phases.obs(step(p, h("wrr_32_phases")));
        self.wrr_64_phases.obs(step(p, h("wrr_64_phases")));
        self.wrr_128_phases.obs(step(p, h("wrr_128_phases")));
        self.time_based_wrr_128_phases.obs(step(p, h("time_based_wrr_128_phases")));
        self.wrr_256_phases.obs(step(p, h("wrr_256_phases")));
        self.reserved.obs(step(p, h("reserved")));
    }
}
// private: pcics::extended_capabilities::virtual_channel::PortArbitrationTable
// private: pcics::extended_capabilities::virtual_channel::PortArbitrationTableEntry
impl Obs for pcics::extended_capabilities::virtual_channel::VcResourceControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.tc_or_vc_map.obs(step(p, h("tc_or_vc_map")));
        self.load_port_arbitration_table.obs(step(p, h("load_port_arbitration_table")));
        self.port_arbitration_select.obs(step(p, h("port_arbitration_select")));
        self.vc_id.obs(step(p, h("vc_id")));
        self.vc_enable.obs(step(p, h("vc_enable")));
    }
}
impl Obs for pcics::extended_capabilities::virtual_channel::PortArbitrationSelect {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::virtual_channel::PortArbitrationSelect::HardwareFixedArbitration => tag(p, h("HardwareFixedArbitration")),
            pcics::extended_capabilities::virtual_channel::PortArbitrationSelect::Wrr32phases => tag(p, h("Wrr32phases")),
            pcics::extended_capabilities::virtual_channel::PortArbitrationSelect::Wrr64phases => tag(p, h("Wrr64phases")),
            pcics::extended_capabilities::virtual_channel::PortArbitrationSelect::Wrr128phases => tag(p, h("Wrr128phases")),
            pcics::extended_capabilities::virtual_channel::PortArbitrationSelect::TimeBasedWrr128phases => tag(p, h("TimeBasedWrr128phases")),
            pcics::extended_capabilities::virtual_channel::PortArbitrationSelect::Wrr256phases => tag(p, h("Wrr256phases")),
            pcics::extended_capabilities::virtual_channel::PortArbitrationSelect::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::virtual_channel::VcResourceStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.port_arbitration_table_status.obs(step(p, h("port_arbitration_table_status")));
        self.vc_negotiation_pending.obs(step(p, h("vc_negotiation_pending")));
    }
}
impl Obs for pcics::extended_capabilities::virtual_channel::PortVcCapability2 {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.vc_arbitration_capability.obs(step(p, h("vc_arbitration_capability")));
        self.vc_arbitration_table_offset.obs(step(p, h("vc_arbitration_table_offset")));
    }
}
impl Obs for pcics::extended_capabilities::virtual_channel::VcArbitrationCapability {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.hardware_fixed_arbitration.obs(step(p, h("hardware_fixed_arbitration")));
        self.wrr_32_phases.obs(step(p, h("wrr_32_phases")));
        self.wrr_64_phases.obs(step(p, h("wrr_64_phases")));
        self.wrr_128_phases.obs(step(p, h("wrr_128_phases")));
        self.reserved.obs(step(p, h("reserved")));
    }
}
// private: pcics::extended_capabilities::virtual_channel::VcArbitrationTable
impl Obs for pcics::extended_capabilities::virtual_channel::VcArbitrationTableEntry {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.vc_id.obs(step(p, h("vc_id")));
    }
}
impl Obs for pcics::extended_capabilities::virtual_channel::PortVcControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.load_vc_arbitration_table.obs(step(p, h("load_vc_arbitration_table")));
        self.vc_arbitration_select.obs(step(p, h("vc_arbitration_select")));
    }
}
impl Obs for pcics::extended_capabilities::virtual_channel::VcArbitrationSelect {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::extended_capabilities::virtual_channel::VcArbitrationSelect::HardwareFixedArbitration => tag(p, h("HardwareFixedArbitration")),
            pcics::extended_capabilities::virtual_channel::VcArbitrationSelect::Wrr32phases => tag(p, h("Wrr32phases")),
            pcics::extended_capabilities::virtual_channel::VcArbitrationSelect::Wrr64phases => tag(p, h("Wrr64phases")),
            pcics::extended_capabilities::virtual_channel::VcArbitrationSelect::Wrr128phases => tag(p, h("Wrr128phases")),
            pcics::extended_capabilities::virtual_channel::VcArbitrationSelect::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::extended_capabilities::virtual_channel::PortVcStatus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.vc_arbitration_table_status.obs(step(p, h("vc_arbitration_table_status")));
    }
}
impl Obs for pcics::header::Header {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.vendor_id.obs(step(p, h("vendor_id")));
        self.device_id.obs(step(p, h("device_id")));
        self.command.obs(step(p, h("command")));
        self.status.obs(step(p, h("status")));
        self.revision_id.obs(step(p, h("revision_id")));
        self.class_code.obs(step(p, h("class_code")));
        self.cache_line_size.obs(step(p, h("cache_line_size")));
        self.latency_timer.obs(step(p, h("latency_timer")));
        self.is_multi_function.obs(step(p, h("is_multi_function")));
        self.header_type.obs(step(p, h("header_type")));
        self.bist.obs(step(p, h("bist")));
        self.capabilities_pointer.obs(step(p, h("capabilities_pointer")));
        self.interrupt_line.obs(step(p, h("interrupt_line")));
        self.interrupt_pin.obs(step(p, h("interrupt_pin")));
    }
}
impl Obs for pcics::header::HeaderType {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::header::HeaderType::Normal(x0) => {
                tag(p, h("Normal"));
                x0.obs(step(p, h("Normal")));
            }
            pcics::header::HeaderType::Bridge(x0) => {
                tag(p, h("Bridge"));
                x0.obs(step(p, h("Bridge")));
            }
            pcics::header::HeaderType::Cardbus(x0) => {
                tag(p, h("Cardbus"));
                x0.obs(step(p, h("Cardbus")));
            }
            pcics::header::HeaderType::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::header::Normal {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.base_addresses.obs(step(p, h("base_addresses")));
        self.cardbus_cis_pointer.obs(step(p, h("cardbus_cis_pointer")));
        self.sub_vendor_id.obs(step(p, h("sub_vendor_id")));
        self.sub_device_id.obs(step(p, h("sub_device_id")));
        self.expansion_rom.obs(step(p, h("expansion_rom")));
        self.min_grant.obs(step(p, h("min_grant")));
        self.max_latency.obs(step(p, h("max_latency")));
    }
}
impl Obs for pcics::header::Bridge {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.base_addresses.obs(step(p, h("base_addresses")));
        self.primary_bus_number.obs(step(p, h("primary_bus_number")));
        self.secondary_bus_number.obs(step(p, h("secondary_bus_number")));
        self.subordinate_bus_number.obs(step(p, h("subordinate_bus_number")));
        self.secondary_latency_timer.obs(step(p, h("secondary_latency_timer")));
        self.io_address_range.obs(step(p, h("io_address_range")));
        self.secondary_status.obs(step(p, h("secondary_status")));
        self.memory_base.obs(step(p, h("memory_base")));
        self.memory_limit.obs(step(p, h("memory_limit")));
        self.prefetchable_memory.obs(step(p, h("prefetchable_memory")));
        self.expansion_rom.obs(step(p, h("expansion_rom")));
        self.bridge_control.obs(step(p, h("bridge_control")));
    }
}
impl Obs for pcics::header::BridgeIoAddressRange {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::header::BridgeIoAddressRange::NotImplemented => tag(p, h("NotImplemented")),
            pcics::header::BridgeIoAddressRange::IoAddr16 { base, limit, .. } => {
                tag(p, h("IoAddr16"));
                base.obs(step(step(p, h("IoAddr16")), h("base")));
                limit.obs(step(step(p, h("IoAddr16")), h("limit")));
            }
            pcics::header::BridgeIoAddressRange::IoAddr32 { base, limit, .. } => {
                tag(p, h("IoAddr32"));
                base.obs(step(step(p, h("IoAddr32")), h("base")));
                limit.obs(step(step(p, h("IoAddr32")), h("limit")));
            }
            pcics::header::BridgeIoAddressRange::Malformed { base, limit, .. } => {
                tag(p, h("Malformed"));
                base.obs(step(step(p, h("Malformed")), h("base")));
                limit.obs(step(step(p, h("Malformed")), h("limit")));
            }
            pcics::header::BridgeIoAddressRange::Reserved { base, limit, .. } => {
                tag(p, h("Reserved"));
                base.obs(step(step(p, h("Reserved")), h("base")));
                limit.obs(step(step(p, h("Reserved")), h("limit")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::header::BridgePrefetchableMemory {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::header::BridgePrefetchableMemory::NotImplemented => tag(p, h("NotImplemented")),
            pcics::header::BridgePrefetchableMemory::MemAddr32 { base, limit, .. } => {
                tag(p, h("MemAddr32"));
                base.obs(step(step(p, h("MemAddr32")), h("base")));
                limit.obs(step(step(p, h("MemAddr32")), h("limit")));
            }
            pcics::header::BridgePrefetchableMemory::MemAddr64 { base, limit, .. } => {
                tag(p, h("MemAddr64"));
                base.obs(step(step(p, h("MemAddr64")), h("base")));
                limit.obs(step(step(p, h("MemAddr64")), h("limit")));
            }
            pcics::header::BridgePrefetchableMemory::Malformed { base, limit, .. } => {
                tag(p, h("Malformed"));
                base.obs(step(step(p, h("Malformed")), h("base")));
                limit.obs(step(step(p, h("Malformed")), h("limit")));
            }
            pcics::header::BridgePrefetchableMemory::Reserved { base, limit, .. } => {
                tag(p, h("Reserved"));
                base.obs(step(step(p, h("Reserved")), h("base")));
                limit.obs(step(step(p, h("Reserved")), h("limit")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::header::Cardbus {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.base_addresses.obs(step(p, h("base_addresses")));
        self.secondary_status.obs(step(p, h("secondary_status")));
        self.pci_bus_number.obs(step(p, h("pci_bus_number")));
        self.cardbus_bus_number.obs(step(p, h("cardbus_bus_number")));
        self.subordinate_bus_number.obs(step(p, h("subordinate_bus_number")));
        self.cardbus_latency_timer.obs(step(p, h("cardbus_latency_timer")));
        self.memory_base_address_0.obs(step(p, h("memory_base_address_0")));
        self.memory_limit_address_0.obs(step(p, h("memory_limit_address_0")));
        self.memory_base_address_1.obs(step(p, h("memory_base_address_1")));
        self.memory_limit_address_1.obs(step(p, h("memory_limit_address_1")));
        self.io_access_address_range_0.obs(step(p, h("io_access_address_range_0")));
        self.io_access_address_range_1.obs(step(p, h("io_access_address_range_1")));
        self.bridge_control.obs(step(p, h("bridge_control")));
        self.subsystem_vendor_id.obs(step(p, h("subsystem_vendor_id")));
        self.subsystem_device_id.obs(step(p, h("subsystem_device_id")));
        self.legacy_mode_base_address.obs(step(p, h("legacy_mode_base_address")));
        self.reserved.obs(step(p, h("reserved")));
    }
}
impl Obs for pcics::header::BuiltInSelfTest {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.is_capable.obs(step(p, h("is_capable")));
        self.is_running.obs(step(p, h("is_running")));
        self.completion_code.obs(step(p, h("completion_code")));
    }
}
impl Obs for pcics::header::InterruptPin {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::header::InterruptPin::Unused => tag(p, h("Unused")),
            pcics::header::InterruptPin::IntA => tag(p, h("IntA")),
            pcics::header::InterruptPin::IntB => tag(p, h("IntB")),
            pcics::header::InterruptPin::IntC => tag(p, h("IntC")),
            pcics::header::InterruptPin::IntD => tag(p, h("IntD")),
            pcics::header::InterruptPin::Reserved(x0) => {
                tag(p, h("Reserved"));
                x0.obs(step(p, h("Reserved")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::header::IoAccessAddressRange {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::header::IoAccessAddressRange::Addr16Bit { base, limit, .. } => {
                tag(p, h("Addr16Bit"));
                base.obs(step(step(p, h("Addr16Bit")), h("base")));
                limit.obs(step(step(p, h("Addr16Bit")), h("limit")));
            }
            pcics::header::IoAccessAddressRange::Addr32Bit { base, limit, .. } => {
                tag(p, h("Addr32Bit"));
                base.obs(step(step(p, h("Addr32Bit")), h("base")));
                limit.obs(step(step(p, h("Addr32Bit")), h("limit")));
            }
            pcics::header::IoAccessAddressRange::Unknown { io_address_capability, base_lower, base_upper, limit_lower, limit_upper, .. } => {
                tag(p, h("Unknown"));
                io_address_capability.obs(step(step(p, h("Unknown")), h("io_address_capability")));
                base_lower.obs(step(step(p, h("Unknown")), h("base_lower")));
                base_upper.obs(step(step(p, h("Unknown")), h("base_upper")));
                limit_lower.obs(step(step(p, h("Unknown")), h("limit_lower")));
                limit_upper.obs(step(step(p, h("Unknown")), h("limit_upper")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::header::ExpansionRom {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.address.obs(step(p, h("address")));
        self.reserved.obs(step(p, h("reserved")));
        self.is_enabled.obs(step(p, h("is_enabled")));
    }
}
impl Obs for pcics::header::BaseAddress {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.region.obs(step(p, h("region")));
        self.base_address_type.obs(step(p, h("base_address_type")));
    }
}
impl Obs for pcics::header::BaseAddressType {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::header::BaseAddressType::MemorySpace32 { prefetchable, base_address, .. } => {
                tag(p, h("MemorySpace32"));
                prefetchable.obs(step(step(p, h("MemorySpace32")), h("prefetchable")));
                base_address.obs(step(step(p, h("MemorySpace32")), h("base_address")));
            }
            pcics::header::BaseAddressType::MemorySpaceBelow1M { prefetchable, base_address, .. } => {
                tag(p, h("MemorySpaceBelow1M"));
                prefetchable.obs(step(step(p, h("MemorySpaceBelow1M")), h("prefetchable")));
                base_address.obs(step(step(p, h("MemorySpaceBelow1M")), h("base_address")));
            }
            pcics::header::BaseAddressType::MemorySpace64 { prefetchable, base_address, .. } => {
                tag(p, h("MemorySpace64"));
                prefetchable.obs(step(step(p, h("MemorySpace64")), h("prefetchable")));
                base_address.obs(step(step(p, h("MemorySpace64")), h("base_address")));
            }
            pcics::header::BaseAddressType::MemorySpaceReserved { prefetchable, base_address, .. } => {
                tag(p, h("MemorySpaceReserved"));
                prefetchable.obs(step(step(p, h("MemorySpaceReserved")), h("prefetchable")));
                base_address.obs(step(step(p, h("MemorySpaceReserved")), h("base_address")));
            }
            pcics::header::BaseAddressType::MemorySpace64Broken { prefetchable, .. } => {
                tag(p, h("MemorySpace64Broken"));
                prefetchable.obs(step(step(p, h("MemorySpace64Broken")), h("prefetchable")));
            }
            pcics::header::BaseAddressType::IoSpace { base_address, .. } => {
                tag(p, h("IoSpace"));
                base_address.obs(step(step(p, h("IoSpace")), h("base_address")));
            }
            _ => tag(p, h("<other>")),
        }
    }
}
impl Obs for pcics::header::BridgeControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.parity_error_response_enable.obs(step(p, h("parity_error_response_enable")));
        self.serr_enable.obs(step(p, h("serr_enable")));
        self.isa_enable.obs(step(p, h("isa_enable")));
        self.vga_enable.obs(step(p, h("vga_enable")));
        self.vga_16_enable.obs(step(p, h("vga_16_enable")));
        self.master_abort_mode.obs(step(p, h("master_abort_mode")));
        self.secondary_bus_reset.obs(step(p, h("secondary_bus_reset")));
        self.fast_back_to_back_enable.obs(step(p, h("fast_back_to_back_enable")));
        self.primary_discard_timer.obs(step(p, h("primary_discard_timer")));
        self.secondary_discard_timer.obs(step(p, h("secondary_discard_timer")));
        self.discard_timer_status.obs(step(p, h("discard_timer_status")));
        self.discard_timer_serr_enable.obs(step(p, h("discard_timer_serr_enable")));
    }
}
impl Obs for pcics::header::CardbusBridgeControl {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.parity_error_response_enable.obs(step(p, h("parity_error_response_enable")));
        self.serr_enable.obs(step(p, h("serr_enable")));
        self.isa_enable.obs(step(p, h("isa_enable")));
        self.vga_enable.obs(step(p, h("vga_enable")));
        self.master_abort_mode.obs(step(p, h("master_abort_mode")));
        self.cardbus_reset.obs(step(p, h("cardbus_reset")));
        self.ireq_int_enable.obs(step(p, h("ireq_int_enable")));
        self.memory_0_prefetch_enable.obs(step(p, h("memory_0_prefetch_enable")));
        self.memory_1_prefetch_enable.obs(step(p, h("memory_1_prefetch_enable")));
        self.write_posting_enable.obs(step(p, h("write_posting_enable")));
    }
}
impl Obs for pcics::header::ClassCode {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.interface.obs(step(p, h("interface")));
        self.sub.obs(step(p, h("sub")));
        self.base.obs(step(p, h("base")));
    }
}
impl Obs for pcics::header::Command {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.io_space.obs(step(p, h("io_space")));
        self.memory_space.obs(step(p, h("memory_space")));
        self.bus_master.obs(step(p, h("bus_master")));
        self.special_cycles.obs(step(p, h("special_cycles")));
        self.memory_write_and_invalidate_enable.obs(step(p, h("memory_write_and_invalidate_enable")));
        self.vga_palette_snoop.obs(step(p, h("vga_palette_snoop")));
        self.parity_error_response.obs(step(p, h("parity_error_response")));
        self.stepping.obs(step(p, h("stepping")));
        self.serr_enable.obs(step(p, h("serr_enable")));
        self.fast_back_to_back_enable.obs(step(p, h("fast_back_to_back_enable")));
        self.interrupt_disable.obs(step(p, h("interrupt_disable")));
        self.reserved.obs(step(p, h("reserved")));
    }
}
impl<const T: char> Obs for pcics::header::Status<T> {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        self.reserved.obs(step(p, h("reserved")));
        self.interrupt_status.obs(step(p, h("interrupt_status")));
        self.capabilities_list.obs(step(p, h("capabilities_list")));
        self.is_66mhz_capable.obs(step(p, h("is_66mhz_capable")));
        self.user_definable_features.obs(step(p, h("user_definable_features")));
        self.fast_back_to_back_capable.obs(step(p, h("fast_back_to_back_capable")));
        self.master_data_parity_error.obs(step(p, h("master_data_parity_error")));
        self.devsel_timing.obs(step(p, h("devsel_timing")));
        self.signaled_target_abort.obs(step(p, h("signaled_target_abort")));
        self.received_target_abort.obs(step(p, h("received_target_abort")));
        self.received_master_abort.obs(step(p, h("received_master_abort")));
        self.system_error.obs(step(p, h("system_error")));
        self.detected_parity_error.obs(step(p, h("detected_parity_error")));
    }
}
impl Obs for pcics::header::DevselTiming {
    #[inline(never)]
    fn obs(&self, p: u64) {
        crate::mark(p);
        match self {
            pcics::header::DevselTiming::Fast => tag(p, h("Fast")),
            pcics::header::DevselTiming::Medium => tag(p, h("Medium")),
            pcics::header::DevselTiming::Slow => tag(p, h("Slow")),
            pcics::header::DevselTiming::Undefined => tag(p, h("Undefined")),
            _ => tag(p, h("<other>")),
        }
    }
}
