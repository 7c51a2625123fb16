//! Entry points of the analysis.
use crate::{assume, at, h, havoc, input, obs, obs_iter, snap, step, sym, tag, Obs};
use core::convert::TryFrom;
use pcics::capabilities::*;
use pcics::extended_capabilities::*;
use pcics::header::*;
use pcics::{Capabilities, ExtendedCapabilities, Header};

/// Decoder of one structure from a byte slice (region 0).
macro_rules! dec { ($($root:ident: $ty:ty;)*) => { $(
    #[no_mangle]
    pub extern "C" fn $root() {
        <$ty>::try_from(input(0)).obs(0)
    }
)* } }
dec! {
    root_header: Header;
    root_c01_power_management: PowerManagementInterface;
    root_c02_agp: AcceleratedGraphicsPort;
    root_c03_vpd: VitalProductData;
    root_c04_slot_id: SlotIdentification;
    root_c05_msi: MessageSignaledInterrups;
    root_c07_pci_x: PciX;
    root_c07_pci_x_bridge: PciXBridge;
    root_c08_hypertransport: Hypertransport;
    root_c0a_debug_port: DebugPort;
    root_c0d_bridge_subsystem: BridgeSubsystemVendorId;
    root_c10_pci_express: PciExpress;
    root_c11_msi_x: MsiX;
    root_c12_sata: Sata;
    root_c13_advanced_features: AdvancedFeatures;
    root_c15_fpb: FlatteningPortalBridge;
    root_virtio: vendor_specific::Virtio;
    root_e01_aer: AdvancedErrorReporting;
    root_e02_vc: VirtualChannel;
    root_e03_dsn: DeviceSerialNumber;
    root_e04_power_budgeting: PowerBudgeting;
    root_e05_rc_link_declaration: RootComplexLinkDeclaration;
    root_e06_rc_internal_link: RootComplexInternalLinkControl;
    root_e07_rcec_association: RootComplexEventCollectorEndpointAssociation;
    root_e08_mfvc: MultifunctionVirtualChannel;
    root_e0a_rcrb: RootComplexRegisterBlockHeader;
    root_e0b_vsec: VendorSpecificExtendedCapability;
    root_e0c_cac: ConfigurationAccessCorrelation;
    root_e0d_acs: AccessControlServices;
    root_e0e_ari: AlternativeRoutingIdInterpretation;
    root_e0f_ats: AddressTranslationServices;
    root_e10_sriov: SingleRootIoVirtualization;
    root_e12_multicast: Multicast;
    root_e13_pri: PageRequestInterface;
    root_e15_rebar: ResizableBar;
    root_e16_dpa: DynamicPowerAllocation;
    root_e17_tph: TphRequester;
    root_e18_ltr: LatencyToleranceReporting;
    root_e19_secondary_pcie: SecondaryPciExpress;
    root_e1a_pmux: ProtocolMultiplexing;
    root_e1b_pasid: ProcessAddressSpaceId;
    root_e1c_lnr: LnRequester;
    root_e1d_dpc: DownstreamPortContainment;
    root_e1e_l1pm: L1PmSubstates;
    root_e1f_ptm: PrecisionTimeMeasurement;
    root_e20_m_phy: PciExpressOverMphy;
    root_e21_frs: FrsQueuing;
    root_e22_rtr: ReadinessTimeReporting;
    root_e23_dvsec: DesignatedVendorSpecificExtendedCapability;
}

/// An arbitrary header: whatever 64 arbitrary bytes (region 1) decode to, with an arbitrary
/// capabilities pointer.
#[inline(always)]
pub fn any_header() -> Option<Header> {
    let mut hdr = Header::try_from(input(1)).ok()?;
    hdr.capabilities_pointer = sym(0, 8) as u8;
    Some(hdr)
}
#[no_mangle]
pub extern "C" fn root_e02_vc_channel() {
    let v = VirtualChannel::try_from(input(0)).ok();
    v.and_then(|v| v.extended_virtual_channels().next()).obs(0)
}
#[no_mangle]
pub extern "C" fn root_e05_dsn() {
    root_complex_link_declaration::DeviceSerialNumber::try_from(input(0)).obs(0)
}
#[no_mangle]
pub extern "C" fn root_c09_vendor_specific() {
    if let Some(hdr) = any_header() {
        VendorSpecific::try_new(input(0), &hdr).obs(0)
    }
}
#[no_mangle]
pub extern "C" fn root_c14_enhanced_allocation() {
    if let Some(hdr) = any_header() {
        EnhancedAllocation::try_new(input(0), &hdr).obs(0)
    }
}
