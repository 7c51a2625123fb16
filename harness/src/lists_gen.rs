// Written by tools/gen_lists.py
use super::*;

cap!(root_cap_00, want_cap_00, root_chain_00, want_chain_00, false, |id| id == 0x00, |id, rest, hdr, ptr| Ok(Kind::NullCapability));
cap!(root_cap_01, want_cap_01, root_chain_01, want_chain_01, false, |id| id == 0x01, |id, rest, hdr, ptr| PowerManagementInterface::try_from(rest).map(Kind::PowerManagementInterface).map_err(|source| CapabilityError::Data { ptr, source }));
cap!(root_cap_02, want_cap_02, root_chain_02, want_chain_02, false, |id| id == 0x02, |id, rest, hdr, ptr| AcceleratedGraphicsPort::try_from(rest).map(Kind::AcceleratedGraphicsPort).map_err(|source| CapabilityError::Data { ptr, source }));
cap!(root_cap_03, want_cap_03, root_chain_03, want_chain_03, false, |id| id == 0x03, |id, rest, hdr, ptr| VitalProductData::try_from(rest).map(Kind::VitalProductData).map_err(|source| CapabilityError::Data { ptr, source }));
cap!(root_cap_04, want_cap_04, root_chain_04, want_chain_04, false, |id| id == 0x04, |id, rest, hdr, ptr| SlotIdentification::try_from(rest).map(Kind::SlotIdentification).map_err(|source| CapabilityError::Data { ptr, source }));
cap!(root_cap_05, want_cap_05, root_chain_05, want_chain_05, false, |id| id == 0x05, |id, rest, hdr, ptr| MessageSignaledInterrups::try_from(rest).map(Kind::MessageSignaledInterrups).map_err(|source| CapabilityError::MessageSignaledInterrups { ptr, source }));
cap!(root_cap_06, want_cap_06, root_chain_06, want_chain_06, false, |id| id == 0x06, |id, rest, hdr, ptr| Ok(Kind::CompactPciHotSwap(CompactPciHotSwap)));
cap!(root_cap_07, want_cap_07, root_chain_07, want_chain_07, false, |id| id == 0x07, |id, rest, hdr, ptr| if matches!(hdr.header_type, HeaderType::Bridge(_)) { PciXBridge::try_from(rest).map(Kind::PciXBridge).map_err(|source| CapabilityError::PciXBridge { ptr, source }) } else { PciX::try_from(rest).map(Kind::PciX).map_err(|source| CapabilityError::PciX { ptr, source }) });
cap!(root_cap_08, want_cap_08, root_chain_08, want_chain_08, false, |id| id == 0x08, |id, rest, hdr, ptr| Hypertransport::try_from(rest).map(Kind::Hypertransport).map_err(|source| CapabilityError::Hypertransport { ptr, source }));
cap!(root_cap_09, want_cap_09, root_chain_09, want_chain_09, true, |id| id == 0x09, |id, rest, hdr, ptr| VendorSpecific::try_new(rest, hdr).map(Kind::VendorSpecific).map_err(|source| CapabilityError::VendorSpecific { ptr, source }));
cap!(root_cap_0a, want_cap_0a, root_chain_0a, want_chain_0a, false, |id| id == 0x0a, |id, rest, hdr, ptr| DebugPort::try_from(rest).map(Kind::DebugPort).map_err(|source| CapabilityError::Data { ptr, source }));
cap!(root_cap_0b, want_cap_0b, root_chain_0b, want_chain_0b, false, |id| id == 0x0b, |id, rest, hdr, ptr| Ok(Kind::CompactPciResourceControl(CompactPciResourceControl)));
cap!(root_cap_0c, want_cap_0c, root_chain_0c, want_chain_0c, false, |id| id == 0x0c, |id, rest, hdr, ptr| Ok(Kind::PciHotPlug(PciHotPlug)));
cap!(root_cap_0d, want_cap_0d, root_chain_0d, want_chain_0d, false, |id| id == 0x0d, |id, rest, hdr, ptr| BridgeSubsystemVendorId::try_from(rest).map(Kind::BridgeSubsystemVendorId).map_err(|source| CapabilityError::Data { ptr, source }));
cap!(root_cap_0e, want_cap_0e, root_chain_0e, want_chain_0e, false, |id| id == 0x0e, |id, rest, hdr, ptr| Ok(Kind::Agp8x(Agp8x)));
cap!(root_cap_0f, want_cap_0f, root_chain_0f, want_chain_0f, false, |id| id == 0x0f, |id, rest, hdr, ptr| Ok(Kind::SecureDevice(SecureDevice)));
cap!(root_cap_10, want_cap_10, root_chain_10, want_chain_10, false, |id| id == 0x10, |id, rest, hdr, ptr| PciExpress::try_from(rest).map(Kind::PciExpress).map_err(|source| CapabilityError::PciExpress { ptr, source }));
cap!(root_cap_11, want_cap_11, root_chain_11, want_chain_11, false, |id| id == 0x11, |id, rest, hdr, ptr| MsiX::try_from(rest).map(Kind::MsiX).map_err(|source| CapabilityError::Data { ptr, source }));
cap!(root_cap_12, want_cap_12, root_chain_12, want_chain_12, false, |id| id == 0x12, |id, rest, hdr, ptr| Sata::try_from(rest).map(Kind::Sata).map_err(|source| CapabilityError::Data { ptr, source }));
cap!(root_cap_13, want_cap_13, root_chain_13, want_chain_13, false, |id| id == 0x13, |id, rest, hdr, ptr| AdvancedFeatures::try_from(rest).map(Kind::AdvancedFeatures).map_err(|source| CapabilityError::Data { ptr, source }));
cap!(root_cap_14, want_cap_14, root_chain_14, want_chain_14, true, |id| id == 0x14, |id, rest, hdr, ptr| EnhancedAllocation::try_new(rest, hdr).map(Kind::EnhancedAllocation).map_err(|source| CapabilityError::EnhancedAllocation { ptr, source }));
cap!(root_cap_15, want_cap_15, root_chain_15, want_chain_15, false, |id| id == 0x15, |id, rest, hdr, ptr| FlatteningPortalBridge::try_from(rest).map(Kind::FlatteningPortalBridge).map_err(|source| CapabilityError::Data { ptr, source }));
cap!(root_cap_rsvd, want_cap_rsvd, root_chain_rsvd, want_chain_rsvd, false, |id| id > 0x15, |id, rest, hdr, ptr| Ok(Kind::Reserved(id)));
ecap!(root_ecap_0001, want_ecap_0001, root_echain_0001, want_echain_0001, false, |d| d as u16 == 0x0001, |id, whole, rest, offset| AdvancedErrorReporting::try_from(rest).map(EKind::AdvancedErrorReporting).map_err(|source| ExtendedCapabilityError::AdvancedErrorReporting { offset, source }));
ecap!(root_ecap_0002, want_ecap_0002, root_echain_0002, want_echain_0002, false, |d| d as u16 == 0x0002, |id, whole, rest, offset| VirtualChannel::try_from(rest).map(EKind::VirtualChannel).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_0003, want_ecap_0003, root_echain_0003, want_echain_0003, false, |d| d as u16 == 0x0003, |id, whole, rest, offset| DeviceSerialNumber::try_from(rest).map(EKind::DeviceSerialNumber).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_0004, want_ecap_0004, root_echain_0004, want_echain_0004, false, |d| d as u16 == 0x0004, |id, whole, rest, offset| PowerBudgeting::try_from(rest).map(EKind::PowerBudgeting).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_0005, want_ecap_0005, root_echain_0005, want_echain_0005, true, |d| d as u16 == 0x0005, |id, whole, rest, offset| RootComplexLinkDeclaration::try_from(rest).map(EKind::RootComplexLinkDeclaration).map_err(|source| ExtendedCapabilityError::RootComplexLinkDeclaration { offset, source }));
ecap!(root_ecap_0006, want_ecap_0006, root_echain_0006, want_echain_0006, false, |d| d as u16 == 0x0006, |id, whole, rest, offset| RootComplexInternalLinkControl::try_from(rest).map(EKind::RootComplexInternalLinkControl).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_0007, want_ecap_0007, root_echain_0007, want_echain_0007, false, |d| d as u16 == 0x0007, |id, whole, rest, offset| RootComplexEventCollectorEndpointAssociation::try_from(rest).map(EKind::RootComplexEventCollectorEndpointAssociation).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_0008, want_ecap_0008, root_echain_0008, want_echain_0008, true, |d| d as u16 == 0x0008, |id, whole, rest, offset| MultifunctionVirtualChannel::try_from(whole).map(EKind::MultifunctionVirtualChannel).map_err(|source| ExtendedCapabilityError::MultifunctionVirtualChannel { offset, source }));
ecap!(root_ecap_0009, want_ecap_0009, root_echain_0009, want_echain_0009, false, |d| d as u16 == 0x0009, |id, whole, rest, offset| VirtualChannel::try_from(rest).map(EKind::VirtualChannelMfvcPresent).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_000a, want_ecap_000a, root_echain_000a, want_echain_000a, false, |d| d as u16 == 0x000a, |id, whole, rest, offset| RootComplexRegisterBlockHeader::try_from(whole).map(EKind::RootComplexRegisterBlockHeader).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_000b, want_ecap_000b, root_echain_000b, want_echain_000b, true, |d| d as u16 == 0x000b, |id, whole, rest, offset| VendorSpecificExtendedCapability::try_from(rest).map(EKind::VendorSpecificExtendedCapability).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_000c, want_ecap_000c, root_echain_000c, want_echain_000c, false, |d| d as u16 == 0x000c, |id, whole, rest, offset| ConfigurationAccessCorrelation::try_from(whole).map(EKind::ConfigurationAccessCorrelation).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_000d, want_ecap_000d, root_echain_000d, want_echain_000d, false, |d| d as u16 == 0x000d, |id, whole, rest, offset| AccessControlServices::try_from(rest).map(EKind::AccessControlServices).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_000e, want_ecap_000e, root_echain_000e, want_echain_000e, false, |d| d as u16 == 0x000e, |id, whole, rest, offset| AlternativeRoutingIdInterpretation::try_from(rest).map(EKind::AlternativeRoutingIdInterpretation).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_000f, want_ecap_000f, root_echain_000f, want_echain_000f, false, |d| d as u16 == 0x000f, |id, whole, rest, offset| AddressTranslationServices::try_from(rest).map(EKind::AddressTranslationServices).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_0010, want_ecap_0010, root_echain_0010, want_echain_0010, false, |d| d as u16 == 0x0010, |id, whole, rest, offset| SingleRootIoVirtualization::try_from(rest).map(EKind::SingleRootIoVirtualization).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_0011, want_ecap_0011, root_echain_0011, want_echain_0011, false, |d| d as u16 == 0x0011, |id, whole, rest, offset| Ok(EKind::MultiRootIoVirtualization(MultiRootIoVirtualization)));
ecap!(root_ecap_0012, want_ecap_0012, root_echain_0012, want_echain_0012, false, |d| d as u16 == 0x0012, |id, whole, rest, offset| Multicast::try_from(whole).map(EKind::Multicast).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_0013, want_ecap_0013, root_echain_0013, want_echain_0013, false, |d| d as u16 == 0x0013, |id, whole, rest, offset| PageRequestInterface::try_from(rest).map(EKind::PageRequestInterface).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_0014, want_ecap_0014, root_echain_0014, want_echain_0014, false, |d| d as u16 == 0x0014, |id, whole, rest, offset| Ok(EKind::ReservedForAmd(ReservedForAmd)));
ecap!(root_ecap_0015, want_ecap_0015, root_echain_0015, want_echain_0015, true, |d| d as u16 == 0x0015, |id, whole, rest, offset| ResizableBar::try_from(whole).map(EKind::ResizableBar).map_err(|source| ExtendedCapabilityError::ResizableBar { offset, source }));
ecap!(root_ecap_0016, want_ecap_0016, root_echain_0016, want_echain_0016, false, |d| d as u16 == 0x0016, |id, whole, rest, offset| DynamicPowerAllocation::try_from(whole).map(EKind::DynamicPowerAllocation).map_err(|source| ExtendedCapabilityError::DynamicPowerAllocation { offset, source }));
ecap!(root_ecap_0017, want_ecap_0017, root_echain_0017, want_echain_0017, true, |d| d as u16 == 0x0017, |id, whole, rest, offset| TphRequester::try_from(rest).map(EKind::TphRequester).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_0018, want_ecap_0018, root_echain_0018, want_echain_0018, false, |d| d as u16 == 0x0018, |id, whole, rest, offset| LatencyToleranceReporting::try_from(rest).map(EKind::LatencyToleranceReporting).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_0019, want_ecap_0019, root_echain_0019, want_echain_0019, false, |d| d as u16 == 0x0019, |id, whole, rest, offset| SecondaryPciExpress::try_from(rest).map(EKind::SecondaryPciExpress).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_001a, want_ecap_001a, root_echain_001a, want_echain_001a, true, |d| d as u16 == 0x001a, |id, whole, rest, offset| ProtocolMultiplexing::try_from(whole).map(EKind::ProtocolMultiplexing).map_err(|source| ExtendedCapabilityError::ProtocolMultiplexing { offset, source }));
ecap!(root_ecap_001b, want_ecap_001b, root_echain_001b, want_echain_001b, false, |d| d as u16 == 0x001b, |id, whole, rest, offset| ProcessAddressSpaceId::try_from(rest).map(EKind::ProcessAddressSpaceId).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_001c, want_ecap_001c, root_echain_001c, want_echain_001c, false, |d| d as u16 == 0x001c, |id, whole, rest, offset| LnRequester::try_from(whole).map(EKind::LnRequester).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_001d, want_ecap_001d, root_echain_001d, want_echain_001d, false, |d| d as u16 == 0x001d, |id, whole, rest, offset| DownstreamPortContainment::try_from(rest).map(EKind::DownstreamPortContainment).map_err(|source| ExtendedCapabilityError::DownstreamPortContainment { offset, source }));
ecap!(root_ecap_001e, want_ecap_001e, root_echain_001e, want_echain_001e, false, |d| d as u16 == 0x001e, |id, whole, rest, offset| L1PmSubstates::try_from(rest).map(EKind::L1PmSubstates).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_001f, want_ecap_001f, root_echain_001f, want_echain_001f, false, |d| d as u16 == 0x001f, |id, whole, rest, offset| PrecisionTimeMeasurement::try_from(rest).map(EKind::PrecisionTimeMeasurement).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_0020, want_ecap_0020, root_echain_0020, want_echain_0020, false, |d| d as u16 == 0x0020, |id, whole, rest, offset| PciExpressOverMphy::try_from(whole).map(EKind::PciExpressOverMphy).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_0021, want_ecap_0021, root_echain_0021, want_echain_0021, false, |d| d as u16 == 0x0021, |id, whole, rest, offset| FrsQueuing::try_from(whole).map(EKind::FrsQueuing).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_0022, want_ecap_0022, root_echain_0022, want_echain_0022, false, |d| d as u16 == 0x0022, |id, whole, rest, offset| ReadinessTimeReporting::try_from(whole).map(EKind::ReadinessTimeReporting).map_err(|source| ExtendedCapabilityError::Data { offset, source }));
ecap!(root_ecap_0023, want_ecap_0023, root_echain_0023, want_echain_0023, true, |d| d as u16 == 0x0023, |id, whole, rest, offset| DesignatedVendorSpecificExtendedCapability::try_from(whole).map(EKind::DesignatedVendorSpecificExtendedCapability).map_err(|source| ExtendedCapabilityError::DesignatedVendorSpecificExtendedCapability { offset, source }));
ecap!(root_ecap_0024, want_ecap_0024, root_echain_0024, want_echain_0024, true, |d| d as u16 == 0x0024, |id, whole, rest, offset| VfResizableBar::try_from(whole).map(EKind::VfResizableBar).map_err(|source| ExtendedCapabilityError::VfResizableBar { offset, source }));
ecap!(root_ecap_0025, want_ecap_0025, root_echain_0025, want_echain_0025, false, |d| d as u16 == 0x0025, |id, whole, rest, offset| Ok(EKind::DataLinkFeature(DataLinkFeature)));
ecap!(root_ecap_0026, want_ecap_0026, root_echain_0026, want_echain_0026, false, |d| d as u16 == 0x0026, |id, whole, rest, offset| Ok(EKind::PhysicalLayer16GTps(PhysicalLayer16GTps)));
ecap!(root_ecap_0027, want_ecap_0027, root_echain_0027, want_echain_0027, false, |d| d as u16 == 0x0027, |id, whole, rest, offset| Ok(EKind::LaneMarginingAtTheReceiver(LaneMarginingAtTheReceiver)));
ecap!(root_ecap_0028, want_ecap_0028, root_echain_0028, want_echain_0028, false, |d| d as u16 == 0x0028, |id, whole, rest, offset| Ok(EKind::HierarchyId(HierarchyId)));
ecap!(root_ecap_0029, want_ecap_0029, root_echain_0029, want_echain_0029, false, |d| d as u16 == 0x0029, |id, whole, rest, offset| Ok(EKind::NativePcieEnclosureManagement(NativePcieEnclosureManagement)));
ecap!(root_ecap_002a, want_ecap_002a, root_echain_002a, want_echain_002a, false, |d| d as u16 == 0x002a, |id, whole, rest, offset| Ok(EKind::PhysicalLayer32GTps(PhysicalLayer32GTps)));
ecap!(root_ecap_002b, want_ecap_002b, root_echain_002b, want_echain_002b, false, |d| d as u16 == 0x002b, |id, whole, rest, offset| Ok(EKind::AlternateProtocol(AlternateProtocol)));
ecap!(root_ecap_002c, want_ecap_002c, root_echain_002c, want_echain_002c, false, |d| d as u16 == 0x002c, |id, whole, rest, offset| Ok(EKind::SystemFirmwareIntermediary(SystemFirmwareIntermediary)));
ecap!(root_ecap_002d, want_ecap_002d, root_echain_002d, want_echain_002d, false, |d| d as u16 == 0x002d, |id, whole, rest, offset| Ok(EKind::ShadowFunctions(ShadowFunctions)));
ecap!(root_ecap_002e, want_ecap_002e, root_echain_002e, want_echain_002e, false, |d| d as u16 == 0x002e, |id, whole, rest, offset| Ok(EKind::DataObjectExchange(DataObjectExchange)));
ecap!(root_ecap_002f, want_ecap_002f, root_echain_002f, want_echain_002f, false, |d| d as u16 == 0x002f, |id, whole, rest, offset| Ok(EKind::Device3(Device3)));
ecap!(root_ecap_0030, want_ecap_0030, root_echain_0030, want_echain_0030, false, |d| d as u16 == 0x0030, |id, whole, rest, offset| Ok(EKind::IntegrityAndDataEncryption(IntegrityAndDataEncryption)));
ecap!(root_ecap_0031, want_ecap_0031, root_echain_0031, want_echain_0031, false, |d| d as u16 == 0x0031, |id, whole, rest, offset| Ok(EKind::PhysicalLayer64GTps(PhysicalLayer64GTps)));
ecap!(root_ecap_0032, want_ecap_0032, root_echain_0032, want_echain_0032, false, |d| d as u16 == 0x0032, |id, whole, rest, offset| Ok(EKind::FlitLogging(FlitLogging)));
ecap!(root_ecap_0033, want_ecap_0033, root_echain_0033, want_echain_0033, false, |d| d as u16 == 0x0033, |id, whole, rest, offset| Ok(EKind::FlitPerformanceMeasurement(FlitPerformanceMeasurement)));
ecap!(root_ecap_0034, want_ecap_0034, root_echain_0034, want_echain_0034, false, |d| d as u16 == 0x0034, |id, whole, rest, offset| Ok(EKind::FlitErrorInjection(FlitErrorInjection)));
ecap!(root_ecap_null, want_ecap_null, root_echain_null, want_echain_null, false, |d| d as u16 == 0 && d != 0, |id, whole, rest, offset| Ok(EKind::Null));
ecap!(root_ecap_empty, want_ecap_empty, root_echain_empty, want_echain_empty, false, |d| d == 0, |id, whole, rest, offset| Ok(EKind::Null));
ecap!(root_ecap_rsvd, want_ecap_rsvd, root_echain_rsvd, want_echain_rsvd, false, |d| d as u16 > 0x34, |id, whole, rest, offset| Ok(EKind::Reserved(id)));
