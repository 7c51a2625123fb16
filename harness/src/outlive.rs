//! Type-level witness of C32, one per line: nothing decoded borrows from anything but the data (and
//! the header) it was decoded from.  Where it does, the line does not compile.
#![allow(unused)]
use pcics::capabilities::*;
use pcics::extended_capabilities::*;
use pcics::header::*;
use pcics::Header;
use pcics::extended_capabilities::multifunction_virtual_channel as mf;
use pcics::extended_capabilities::virtual_channel as vc;

// Structures that keep no part of the data outlive it.
fn owned_header() -> Option<Header> { let d = [0u8; 64]; Header::try_from(&d[..]).ok() }
fn owned_bridge_subsystem_vendor_id() -> Option<BridgeSubsystemVendorId> { let d = [0u8; 256]; BridgeSubsystemVendorId::try_from(&d[..]).ok() }
fn owned_hypertransport() -> Option<Hypertransport> { let d = [0u8; 256]; Hypertransport::try_from(&d[..]).ok() }
fn owned_message_signaled_interrups() -> Option<MessageSignaledInterrups> { let d = [0u8; 256]; MessageSignaledInterrups::try_from(&d[..]).ok() }
fn owned_msi_x() -> Option<MsiX> { let d = [0u8; 256]; MsiX::try_from(&d[..]).ok() }
fn owned_pci_express() -> Option<PciExpress> { let d = [0u8; 256]; PciExpress::try_from(&d[..]).ok() }
fn owned_slot_identification() -> Option<SlotIdentification> { let d = [0u8; 256]; SlotIdentification::try_from(&d[..]).ok() }
fn owned_accelerated_graphics_port() -> Option<AcceleratedGraphicsPort> { let d = [0u8; 256]; AcceleratedGraphicsPort::try_from(&d[..]).ok() }
fn owned_advanced_features() -> Option<AdvancedFeatures> { let d = [0u8; 256]; AdvancedFeatures::try_from(&d[..]).ok() }
fn owned_debug_port() -> Option<DebugPort> { let d = [0u8; 256]; DebugPort::try_from(&d[..]).ok() }
fn owned_flattening_portal_bridge() -> Option<FlatteningPortalBridge> { let d = [0u8; 256]; FlatteningPortalBridge::try_from(&d[..]).ok() }
fn owned_pci_x() -> Option<PciX> { let d = [0u8; 256]; PciX::try_from(&d[..]).ok() }
fn owned_pci_x_bridge() -> Option<PciXBridge> { let d = [0u8; 256]; PciXBridge::try_from(&d[..]).ok() }
fn owned_power_management_interface() -> Option<PowerManagementInterface> { let d = [0u8; 256]; PowerManagementInterface::try_from(&d[..]).ok() }
fn owned_sata() -> Option<Sata> { let d = [0u8; 256]; Sata::try_from(&d[..]).ok() }
fn owned_vital_product_data() -> Option<VitalProductData> { let d = [0u8; 256]; VitalProductData::try_from(&d[..]).ok() }
fn owned_single_root_io_virtualization() -> Option<SingleRootIoVirtualization> { let d = [0u8; 256]; SingleRootIoVirtualization::try_from(&d[..]).ok() }
fn owned_address_translation_services() -> Option<AddressTranslationServices> { let d = [0u8; 256]; AddressTranslationServices::try_from(&d[..]).ok() }
fn owned_advanced_error_reporting() -> Option<AdvancedErrorReporting> { let d = [0u8; 256]; AdvancedErrorReporting::try_from(&d[..]).ok() }
fn owned_alternative_routing_id_interpretation() -> Option<AlternativeRoutingIdInterpretation> { let d = [0u8; 256]; AlternativeRoutingIdInterpretation::try_from(&d[..]).ok() }
fn owned_configuration_access_correlation() -> Option<ConfigurationAccessCorrelation> { let d = [0u8; 256]; ConfigurationAccessCorrelation::try_from(&d[..]).ok() }
fn owned_device_serial_number() -> Option<DeviceSerialNumber> { let d = [0u8; 256]; DeviceSerialNumber::try_from(&d[..]).ok() }
fn owned_downstream_port_containment() -> Option<DownstreamPortContainment> { let d = [0u8; 256]; DownstreamPortContainment::try_from(&d[..]).ok() }
fn owned_frs_queuing() -> Option<FrsQueuing> { let d = [0u8; 256]; FrsQueuing::try_from(&d[..]).ok() }
fn owned_l1_pm_substates() -> Option<L1PmSubstates> { let d = [0u8; 256]; L1PmSubstates::try_from(&d[..]).ok() }
fn owned_latency_tolerance_reporting() -> Option<LatencyToleranceReporting> { let d = [0u8; 256]; LatencyToleranceReporting::try_from(&d[..]).ok() }
fn owned_ln_requester() -> Option<LnRequester> { let d = [0u8; 256]; LnRequester::try_from(&d[..]).ok() }
fn owned_multicast() -> Option<Multicast> { let d = [0u8; 256]; Multicast::try_from(&d[..]).ok() }
fn owned_page_request_interface() -> Option<PageRequestInterface> { let d = [0u8; 256]; PageRequestInterface::try_from(&d[..]).ok() }
fn owned_pci_express_over_mphy() -> Option<PciExpressOverMphy> { let d = [0u8; 256]; PciExpressOverMphy::try_from(&d[..]).ok() }
fn owned_power_budgeting() -> Option<PowerBudgeting> { let d = [0u8; 256]; PowerBudgeting::try_from(&d[..]).ok() }
fn owned_precision_time_measurement() -> Option<PrecisionTimeMeasurement> { let d = [0u8; 256]; PrecisionTimeMeasurement::try_from(&d[..]).ok() }
fn owned_process_address_space_id() -> Option<ProcessAddressSpaceId> { let d = [0u8; 256]; ProcessAddressSpaceId::try_from(&d[..]).ok() }
fn owned_readiness_time_reporting() -> Option<ReadinessTimeReporting> { let d = [0u8; 256]; ReadinessTimeReporting::try_from(&d[..]).ok() }
fn owned_root_complex_event_collector_endpoint_association() -> Option<RootComplexEventCollectorEndpointAssociation> { let d = [0u8; 256]; RootComplexEventCollectorEndpointAssociation::try_from(&d[..]).ok() }
fn owned_root_complex_internal_link_control() -> Option<RootComplexInternalLinkControl> { let d = [0u8; 256]; RootComplexInternalLinkControl::try_from(&d[..]).ok() }
fn owned_root_complex_register_block_header() -> Option<RootComplexRegisterBlockHeader> { let d = [0u8; 256]; RootComplexRegisterBlockHeader::try_from(&d[..]).ok() }
fn owned_virtio() -> Option<vendor_specific::Virtio> { let d = [0u8; 64]; vendor_specific::Virtio::try_from(&d[..]).ok() }
// Errors outlive the data.
fn error_cap(h: Header) -> Option<CapabilityError> { let d = [0u8; 192]; Capabilities::new(&d, &h).next()?.err() }
fn error_ecap() -> Option<ExtendedCapabilityError> { let d = [0u8; 4096]; ExtendedCapabilities::new(&d).next()?.err() }
// Members outlive the list, and what is in a member outlives the member.
fn member_cap<'a>(d: &'a [u8], h: &'a Header) -> Option<Capability<'a>> { Capabilities::new(d, h).next()?.ok() }
fn member_cap_kind<'a>(l: &mut Capabilities<'a>) -> Option<CapabilityKind<'a>> { let c = l.next()?.ok()?; Some(c.kind) }
fn member_ecap<'a>(d: &'a [u8]) -> Option<ExtendedCapability<'a>> { ExtendedCapabilities::new(d).next()?.ok() }
fn member_ecap_kind<'a>(l: &mut ExtendedCapabilities<'a>) -> Option<ExtendedCapabilityKind<'a>> { let c = l.next()?.ok()?; Some(c.kind) }
fn member_two<'a>(l: &mut ExtendedCapabilities<'a>) -> [Option<Result<ExtendedCapability<'a>, ExtendedCapabilityError>>; 2] { let a = l.next(); let b = l.next(); [a, b] }
fn member_cap_two<'a>(l: &mut Capabilities<'a>) -> [Option<Result<Capability<'a>, CapabilityError>>; 2] { let a = l.next(); let b = l.next(); [a, b] }
fn raw_vendor<'a>(k: &CapabilityKind<'a>) -> Option<&'a [u8]> { match k { CapabilityKind::VendorSpecific(VendorSpecific::Unspecified(d)) => Some(*d), _ => None } }
// Lists, tables and raw data outlive the structure they were taken from.
fn list_ea<'a>(v: &EnhancedAllocation<'a>) -> enhanced_allocation::EnhancedAllocationEntries<'a> { v.entries.clone() }
fn list_evc<'a>(v: &VirtualChannel<'a>) -> vc::ExtendedVirtualChannels<'a> { v.extended_virtual_channels() }
fn list_vat<'a>(v: &VirtualChannel<'a>) -> vc::VcArbitrationTable<'a> { v.vc_arbitration_table() }
fn list_pat<'a>(v: &VirtualChannel<'a>, e: &vc::ExtendedVirtualChannel) -> vc::PortArbitrationTable<'a> { v.port_arbitration_table(e) }
fn list_pat_each<'a>(v: VirtualChannel<'a>) -> Option<vc::PortArbitrationTable<'a>> { let e = v.extended_virtual_channels().next()?.ok()?; Some(v.port_arbitration_table(&e)) }
fn list_mf_evc<'a>(v: &MultifunctionVirtualChannel<'a>) -> mf::ExtendedVirtualChannels<'a> { v.extended_virtual_channels.clone() }
fn list_mf_vat<'a>(v: &MultifunctionVirtualChannel<'a>) -> Option<vc::VcArbitrationTable<'a>> { v.vc_arbitration_table.clone() }
fn list_mf_item<'a>(v: &MultifunctionVirtualChannel<'a>) -> Option<mf::ExtendedVirtualChannel<'a>> { let mut l = v.extended_virtual_channels.clone(); l.next() }
fn list_mf_fat<'a>(v: &MultifunctionVirtualChannel<'a>) -> Option<mf::FunctionArbitrationTable<'a>> { let c = v.extended_virtual_channels.clone().next()?; c.function_arbitration_table }
fn list_acs<'a>(v: &AccessControlServices<'a>) -> access_control_services::EgressControlVectors<'a> { v.egress_control_vectors() }
fn list_lanes<'a>(v: &SecondaryPciExpress<'a>, w: pci_express::LinkWidth) -> secondary_pci_express::EqualizationControlLanes<'a> { v.equalization_control_lanes(w) }
fn list_pmux<'a>(v: &ProtocolMultiplexing<'a>) -> protocol_multiplexing::PmuxProtocolArray<'a> { v.pmux_protocol_array.clone() }
fn list_links<'a>(v: &RootComplexLinkDeclaration<'a>) -> root_complex_link_declaration::LinkEntries<'a> { v.link_entries.clone() }
fn list_rebar<'a>(d: &'a [u8]) -> Option<ResizableBar<'a>> { let v = ResizableBar::try_from(d).ok()?; let w = v.clone(); Some(w) }
fn list_vfrebar<'a>(d: &'a [u8]) -> Option<VfResizableBar<'a>> { let v = VfResizableBar::try_from(d).ok()?; let w = v.clone(); Some(w) }
fn raw_dpa<'a>(v: &DynamicPowerAllocation<'a>) -> &'a [u8] { v.dpa_power_allocation_array.0 }
fn raw_tph<'a>(v: &TphRequester<'a>) -> tph_requester::StTable<'a> { v.tph_requester_capability.st_table.clone() }
fn raw_tph_data<'a>(v: &tph_requester::StTable<'a>) -> Option<&'a [u8]> { match v { tph_requester::StTable::Valid { data, .. } => Some(*data), _ => None } }
fn raw_vsec<'a>(v: &VendorSpecificExtendedCapability<'a>) -> Option<&'a [u8]> { match v.registers { vendor_specific_extended_capability::VsecRegisters::Valid(d) => Some(d), _ => None } }
fn raw_dvsec<'a>(v: &DesignatedVendorSpecificExtendedCapability<'a>) -> Option<&'a [u8]> { match v.dvsec_type { designated_vendor_specific_extended_capability::DvsecType::Unspecified(d) => Some(d), _ => None } }
// Items of lists and tables keep no part of the data.
fn item_bar() -> Option<BaseAddress> { BaseAddresses::new([0u32; 6]).next() }
fn item_ea() -> Option<enhanced_allocation::EnhancedAllocationEntry> { let d = [0u8; 64]; enhanced_allocation::EnhancedAllocationEntries::new(&d, 1).next() }
fn item_evc() -> Option<vc::ExtendedVirtualChannel> { let d = [0u8; 64]; vc::ExtendedVirtualChannels::new(&d, 1).next()?.ok() }
fn item_pat() -> Option<vc::PortArbitrationTableEntry> { let d = [0u8; 64]; vc::PortArbitrationTable::new(&d, 4).next() }
fn item_vat() -> Option<vc::VcArbitrationTableEntry> { let d = [0u8; 64]; vc::VcArbitrationTable::new(&d).next() }
fn item_fat() -> Option<mf::FunctionArbitrationTableEntry> { let d = [0u8; 64]; mf::FunctionArbitrationTable::new(&d, 4).next() }
fn item_rebar() -> Option<resizable_bar::ResizableBarEntry> { let d = [0u8; 64]; ResizableBar::try_from(&d[..]).ok()?.next() }
fn item_lane() -> Option<secondary_pci_express::LaneEqualizationControl> { let d = [0u8; 64]; secondary_pci_express::EqualizationControlLanes::new(&d).next() }
fn item_pmux() -> Option<protocol_multiplexing::PmuxProtocolArrayEntry> { let d = [0u8; 64]; ProtocolMultiplexing::try_from(&d[..]).ok()?.pmux_protocol_array.next() }
fn item_link() -> Option<root_complex_link_declaration::LinkEntry> { let d = [0u8; 64]; RootComplexLinkDeclaration::try_from(&d[..]).ok()?.link_entries.next() }
