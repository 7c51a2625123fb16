//! Decoded structures as values (written by tools/gen_same.py): structures that compare equal show
//! the same contents, a structure equals its clone and its clone shows the same contents.
use crate::{fix, h, input, obs_iter, step, Obs};
use pcics::capabilities::*;
use pcics::extended_capabilities::*;
use pcics::Header;

const SAME: u64 = step(0, h("same"));

macro_rules! same { ($($q:ident $qw:ident $n:expr, $ty:ty, { $($o:expr => $v:expr,)* };)*) => { $(
    #[no_mangle]
    pub extern "C" fn $q() {
        $(fix(0, $o, $v); fix(1, $o, $v);)*
        if let (Ok(a), Ok(b)) = (<$ty>::try_from(cut(0, $n)), <$ty>::try_from(cut(1, $n))) {
            if a == b {
                a.obs(0);
            }
        }
    }
    #[no_mangle]
    pub extern "C" fn $qw() {
        $(fix(0, $o, $v); fix(1, $o, $v);)*
        if let (Ok(a), Ok(b)) = (<$ty>::try_from(cut(0, $n)), <$ty>::try_from(cut(1, $n))) {
            if a == b {
                b.obs(0);
            }
        }
    }
)* } }
macro_rules! cloned { ($($r:ident $rw:ident $n:expr, $ty:ty;)*) => { $(
    #[no_mangle]
    pub extern "C" fn $r() {
        if let Ok(a) = <$ty>::try_from(cut(0, $n)) {
            (a == a.clone()).obs(SAME);
            a.clone().obs(0);
        }
    }
    #[no_mangle]
    pub extern "C" fn $rw() {
        if let Ok(a) = <$ty>::try_from(cut(0, $n)) {
            true.obs(SAME);
            a.obs(0);
        }
    }
)* } }
#[inline(always)]
fn cut<'a>(r: u32, n: usize) -> &'a [u8] {
    let d = input(r);
    crate::assume(d.len() <= n);
    d
}
same! {
    root_q_header_normal want_q_header_normal 4096, Header, { 14 => 0, 16 => 0, 17 => 0, 18 => 0, 19 => 0, 20 => 0, 21 => 0, 22 => 0, 23 => 0, 24 => 0, 25 => 0, 26 => 0, 27 => 0, 28 => 0, 29 => 0, 30 => 0, 31 => 0, 32 => 0, 33 => 0, 34 => 0, 35 => 0, 36 => 0, 37 => 0, 38 => 0, 39 => 0,  };
    root_q_header_bridge want_q_header_bridge 4096, Header, { 14 => 1, 16 => 0, 17 => 0, 18 => 0, 19 => 0, 20 => 0, 21 => 0, 22 => 0, 23 => 0,  };
    root_q_header_cardbus want_q_header_cardbus 4096, Header, { 14 => 2, 16 => 0, 17 => 0, 18 => 0, 19 => 0,  };
    root_q_header_type want_q_header_type 4096, Header, { 0 => 0, 1 => 0, 2 => 0, 3 => 0, 4 => 0, 5 => 0, 6 => 0, 7 => 0, 8 => 0, 9 => 0, 10 => 0, 11 => 0, 12 => 0, 13 => 0, 15 => 0, 16 => 0, 17 => 0, 18 => 0, 19 => 0, 20 => 0, 21 => 0, 22 => 0, 23 => 0, 24 => 0, 25 => 0, 26 => 0, 27 => 0, 28 => 0, 29 => 0, 30 => 0, 31 => 0, 32 => 0, 33 => 0, 34 => 0, 35 => 0, 36 => 0, 37 => 0, 38 => 0, 39 => 0, 40 => 0, 41 => 0, 42 => 0, 43 => 0, 44 => 0, 45 => 0, 46 => 0, 47 => 0, 48 => 0, 49 => 0, 50 => 0, 51 => 0, 52 => 0, 53 => 0, 54 => 0, 55 => 0, 56 => 0, 57 => 0, 58 => 0, 59 => 0, 60 => 0, 61 => 0, 62 => 0, 63 => 0,  };
    root_q_c01_power_management want_q_c01_power_management 4096, PowerManagementInterface, {  };
    root_q_c02_agp want_q_c02_agp 4096, AcceleratedGraphicsPort, {  };
    root_q_c03_vpd want_q_c03_vpd 4096, VitalProductData, {  };
    root_q_c04_slot_id want_q_c04_slot_id 4096, SlotIdentification, {  };
    root_q_c05_msi_32 want_q_c05_msi_32 4096, MessageSignaledInterrups, { 0 => 0, 1 => 0,  };
    root_q_c05_msi_64 want_q_c05_msi_64 4096, MessageSignaledInterrups, { 0 => 128, 1 => 0,  };
    root_q_c05_msi_32m want_q_c05_msi_32m 4096, MessageSignaledInterrups, { 0 => 0, 1 => 1,  };
    root_q_c05_msi_64m want_q_c05_msi_64m 4096, MessageSignaledInterrups, { 0 => 128, 1 => 1,  };
    root_q_c05_msi_control want_q_c05_msi_control 4096, MessageSignaledInterrups, { 2 => 0, 3 => 0, 4 => 0, 5 => 0, 6 => 0, 7 => 0, 8 => 0, 9 => 0, 10 => 0, 11 => 0, 12 => 0, 13 => 0, 14 => 0, 15 => 0, 16 => 0, 17 => 0, 18 => 0, 19 => 0, 20 => 0, 21 => 0, 22 => 0, 23 => 0,  };
    root_q_c07_pci_x want_q_c07_pci_x 4096, PciX, {  };
    root_q_c07_pci_x_bridge want_q_c07_pci_x_bridge 4096, PciXBridge, {  };
    root_q_c08_hypertransport want_q_c08_hypertransport 4096, Hypertransport, {  };
    root_q_c0a_debug_port want_q_c0a_debug_port 4096, DebugPort, {  };
    root_q_c0d_bridge_subsystem want_q_c0d_bridge_subsystem 4096, BridgeSubsystemVendorId, {  };
    root_q_c10_pci_express want_q_c10_pci_express 4096, PciExpress, {  };
    root_q_c11_msi_x want_q_c11_msi_x 4096, MsiX, {  };
    root_q_c12_sata want_q_c12_sata 4096, Sata, {  };
    root_q_c13_advanced_features want_q_c13_advanced_features 4096, AdvancedFeatures, {  };
    root_q_c15_fpb want_q_c15_fpb 4096, FlatteningPortalBridge, {  };
    root_q_virtio want_q_virtio 4096, vendor_specific::Virtio, {  };
    root_q_e01_aer want_q_e01_aer 4096, AdvancedErrorReporting, {  };
    root_q_e02_vc want_q_e02_vc 24, VirtualChannel, {  };
    root_q_e03_dsn want_q_e03_dsn 4096, DeviceSerialNumber, {  };
    root_q_e04_power_budgeting want_q_e04_power_budgeting 4096, PowerBudgeting, {  };
    root_q_e05_rc_link_declaration want_q_e05_rc_link_declaration 30, RootComplexLinkDeclaration, {  };
    root_q_e06_rc_internal_link want_q_e06_rc_internal_link 4096, RootComplexInternalLinkControl, {  };
    root_q_e07_rcec_association want_q_e07_rcec_association 4096, RootComplexEventCollectorEndpointAssociation, {  };
    root_q_e08_mfvc want_q_e08_mfvc 24, MultifunctionVirtualChannel, {  };
    root_q_e0a_rcrb want_q_e0a_rcrb 4096, RootComplexRegisterBlockHeader, {  };
    root_q_e0b_vsec_body want_q_e0b_vsec_body 12, VendorSpecificExtendedCapability, { 2 => 176, 3 => 0,  };
    root_q_e0b_vsec_cut want_q_e0b_vsec_cut 12, VendorSpecificExtendedCapability, { 2 => 224, 3 => 0,  };
    root_q_e0b_vsec_length want_q_e0b_vsec_length 4, VendorSpecificExtendedCapability, { 0 => 0, 1 => 0, 4 => 0, 5 => 0, 6 => 0, 7 => 0, 8 => 0, 9 => 0, 10 => 0, 11 => 0,  };
    root_q_e0c_cac want_q_e0c_cac 4096, ConfigurationAccessCorrelation, {  };
    root_q_e0d_acs want_q_e0d_acs 8, AccessControlServices, {  };
    root_q_e0e_ari want_q_e0e_ari 4096, AlternativeRoutingIdInterpretation, {  };
    root_q_e0f_ats want_q_e0f_ats 4096, AddressTranslationServices, {  };
    root_q_e10_sriov_fields want_q_e10_sriov_fields 4096, SingleRootIoVirtualization, { 32 => 0, 33 => 0, 34 => 0, 35 => 0, 36 => 0, 37 => 0, 38 => 0, 39 => 0, 40 => 0, 41 => 0, 42 => 0, 43 => 0, 44 => 0, 45 => 0, 46 => 0, 47 => 0, 48 => 0, 49 => 0, 50 => 0, 51 => 0, 52 => 0, 53 => 0, 54 => 0, 55 => 0,  };
    root_q_e12_multicast want_q_e12_multicast 4096, Multicast, {  };
    root_q_e13_pri want_q_e13_pri 4096, PageRequestInterface, {  };
    root_q_e15_rebar want_q_e15_rebar 4096, ResizableBar, {  };
    root_q_e16_dpa want_q_e16_dpa 46, DynamicPowerAllocation, {  };
    root_q_e17_tph want_q_e17_tph 14, TphRequester, {  };
    root_q_e18_ltr want_q_e18_ltr 4096, LatencyToleranceReporting, {  };
    root_q_e19_secondary_pcie want_q_e19_secondary_pcie 14, SecondaryPciExpress, {  };
    root_q_e1a_pmux want_q_e1a_pmux 20, ProtocolMultiplexing, {  };
    root_q_e1b_pasid want_q_e1b_pasid 4096, ProcessAddressSpaceId, {  };
    root_q_e1c_lnr want_q_e1c_lnr 4096, LnRequester, {  };
    root_q_e1d_dpc want_q_e1d_dpc 4096, DownstreamPortContainment, {  };
    root_q_e1e_l1pm want_q_e1e_l1pm 4096, L1PmSubstates, {  };
    root_q_e1f_ptm want_q_e1f_ptm 4096, PrecisionTimeMeasurement, {  };
    root_q_e20_m_phy want_q_e20_m_phy 4096, PciExpressOverMphy, {  };
    root_q_e21_frs want_q_e21_frs 4096, FrsQueuing, {  };
    root_q_e22_rtr want_q_e22_rtr 4096, ReadinessTimeReporting, {  };
    root_q_e23_dvsec want_q_e23_dvsec 12, DesignatedVendorSpecificExtendedCapability, {  };
}
cloned! {
    root_r_header want_r_header 4096, Header;
    root_r_c01_power_management want_r_c01_power_management 4096, PowerManagementInterface;
    root_r_c02_agp want_r_c02_agp 4096, AcceleratedGraphicsPort;
    root_r_c03_vpd want_r_c03_vpd 4096, VitalProductData;
    root_r_c04_slot_id want_r_c04_slot_id 4096, SlotIdentification;
    root_r_c07_pci_x want_r_c07_pci_x 4096, PciX;
    root_r_c07_pci_x_bridge want_r_c07_pci_x_bridge 4096, PciXBridge;
    root_r_c08_hypertransport want_r_c08_hypertransport 4096, Hypertransport;
    root_r_c0a_debug_port want_r_c0a_debug_port 4096, DebugPort;
    root_r_c0d_bridge_subsystem want_r_c0d_bridge_subsystem 4096, BridgeSubsystemVendorId;
    root_r_c10_pci_express want_r_c10_pci_express 4096, PciExpress;
    root_r_c11_msi_x want_r_c11_msi_x 4096, MsiX;
    root_r_c12_sata want_r_c12_sata 4096, Sata;
    root_r_c13_advanced_features want_r_c13_advanced_features 4096, AdvancedFeatures;
    root_r_c15_fpb want_r_c15_fpb 4096, FlatteningPortalBridge;
    root_r_e01_aer want_r_e01_aer 4096, AdvancedErrorReporting;
    root_r_e02_vc want_r_e02_vc 24, VirtualChannel;
    root_r_e03_dsn want_r_e03_dsn 4096, DeviceSerialNumber;
    root_r_e04_power_budgeting want_r_e04_power_budgeting 4096, PowerBudgeting;
    root_r_e05_rc_link_declaration want_r_e05_rc_link_declaration 30, RootComplexLinkDeclaration;
    root_r_e06_rc_internal_link want_r_e06_rc_internal_link 4096, RootComplexInternalLinkControl;
    root_r_e07_rcec_association want_r_e07_rcec_association 4096, RootComplexEventCollectorEndpointAssociation;
    root_r_e08_mfvc want_r_e08_mfvc 24, MultifunctionVirtualChannel;
    root_r_e0a_rcrb want_r_e0a_rcrb 4096, RootComplexRegisterBlockHeader;
    root_r_e0b_vsec want_r_e0b_vsec 12, VendorSpecificExtendedCapability;
    root_r_e0c_cac want_r_e0c_cac 4096, ConfigurationAccessCorrelation;
    root_r_e0d_acs want_r_e0d_acs 8, AccessControlServices;
    root_r_e0e_ari want_r_e0e_ari 4096, AlternativeRoutingIdInterpretation;
    root_r_e0f_ats want_r_e0f_ats 4096, AddressTranslationServices;
    root_r_e10_sriov want_r_e10_sriov 4096, SingleRootIoVirtualization;
    root_r_e12_multicast want_r_e12_multicast 4096, Multicast;
    root_r_e13_pri want_r_e13_pri 4096, PageRequestInterface;
    root_r_e15_rebar want_r_e15_rebar 4096, ResizableBar;
    root_r_e16_dpa want_r_e16_dpa 46, DynamicPowerAllocation;
    root_r_e17_tph want_r_e17_tph 14, TphRequester;
    root_r_e18_ltr want_r_e18_ltr 4096, LatencyToleranceReporting;
    root_r_e19_secondary_pcie want_r_e19_secondary_pcie 14, SecondaryPciExpress;
    root_r_e1a_pmux want_r_e1a_pmux 20, ProtocolMultiplexing;
    root_r_e1b_pasid want_r_e1b_pasid 4096, ProcessAddressSpaceId;
    root_r_e1c_lnr want_r_e1c_lnr 4096, LnRequester;
    root_r_e1d_dpc want_r_e1d_dpc 4096, DownstreamPortContainment;
    root_r_e1e_l1pm want_r_e1e_l1pm 4096, L1PmSubstates;
    root_r_e1f_ptm want_r_e1f_ptm 4096, PrecisionTimeMeasurement;
    root_r_e20_m_phy want_r_e20_m_phy 4096, PciExpressOverMphy;
    root_r_e21_frs want_r_e21_frs 4096, FrsQueuing;
    root_r_e22_rtr want_r_e22_rtr 4096, ReadinessTimeReporting;
    root_r_e23_dvsec want_r_e23_dvsec 12, DesignatedVendorSpecificExtendedCapability;
}
// base addresses are compared by what they yield
#[no_mangle]
pub extern "C" fn root_q_header_bar() {
    fix(0, 0, 0); fix(1, 0, 0); fix(0, 1, 0); fix(1, 1, 0); fix(0, 2, 0); fix(1, 2, 0); fix(0, 3, 0); fix(1, 3, 0); fix(0, 4, 0); fix(1, 4, 0); fix(0, 5, 0); fix(1, 5, 0); fix(0, 6, 0); fix(1, 6, 0); fix(0, 7, 0); fix(1, 7, 0); fix(0, 8, 0); fix(1, 8, 0); fix(0, 9, 0); fix(1, 9, 0); fix(0, 10, 0); fix(1, 10, 0); fix(0, 11, 0); fix(1, 11, 0); fix(0, 12, 0); fix(1, 12, 0); fix(0, 13, 0); fix(1, 13, 0); fix(0, 14, 0); fix(1, 14, 0); fix(0, 15, 0); fix(1, 15, 0); fix(0, 20, 0); fix(1, 20, 0); fix(0, 21, 0); fix(1, 21, 0); fix(0, 22, 0); fix(1, 22, 0); fix(0, 23, 0); fix(1, 23, 0); fix(0, 24, 0); fix(1, 24, 0); fix(0, 25, 0); fix(1, 25, 0); fix(0, 26, 0); fix(1, 26, 0); fix(0, 27, 0); fix(1, 27, 0); fix(0, 28, 0); fix(1, 28, 0); fix(0, 29, 0); fix(1, 29, 0); fix(0, 30, 0); fix(1, 30, 0); fix(0, 31, 0); fix(1, 31, 0); fix(0, 32, 0); fix(1, 32, 0); fix(0, 33, 0); fix(1, 33, 0); fix(0, 34, 0); fix(1, 34, 0); fix(0, 35, 0); fix(1, 35, 0); fix(0, 36, 0); fix(1, 36, 0); fix(0, 37, 0); fix(1, 37, 0); fix(0, 38, 0); fix(1, 38, 0); fix(0, 39, 0); fix(1, 39, 0); fix(0, 40, 0); fix(1, 40, 0); fix(0, 41, 0); fix(1, 41, 0); fix(0, 42, 0); fix(1, 42, 0); fix(0, 43, 0); fix(1, 43, 0); fix(0, 44, 0); fix(1, 44, 0); fix(0, 45, 0); fix(1, 45, 0); fix(0, 46, 0); fix(1, 46, 0); fix(0, 47, 0); fix(1, 47, 0); fix(0, 48, 0); fix(1, 48, 0); fix(0, 49, 0); fix(1, 49, 0); fix(0, 50, 0); fix(1, 50, 0); fix(0, 51, 0); fix(1, 51, 0); fix(0, 52, 0); fix(1, 52, 0); fix(0, 53, 0); fix(1, 53, 0); fix(0, 54, 0); fix(1, 54, 0); fix(0, 55, 0); fix(1, 55, 0); fix(0, 56, 0); fix(1, 56, 0); fix(0, 57, 0); fix(1, 57, 0); fix(0, 58, 0); fix(1, 58, 0); fix(0, 59, 0); fix(1, 59, 0); fix(0, 60, 0); fix(1, 60, 0); fix(0, 61, 0); fix(1, 61, 0); fix(0, 62, 0); fix(1, 62, 0); fix(0, 63, 0); fix(1, 63, 0);
    if let (Ok(a), Ok(b)) = (Header::try_from(input(0)), Header::try_from(input(1))) {
        if a == b {
            let x = a;
            let y = match x.header_type { pcics::header::HeaderType::Normal(y) => y.base_addresses, _ => return };
            obs_iter(y, 0, 2);
        }
    }
}
// base addresses are compared by what they yield
#[no_mangle]
pub extern "C" fn want_q_header_bar() {
    fix(0, 0, 0); fix(1, 0, 0); fix(0, 1, 0); fix(1, 1, 0); fix(0, 2, 0); fix(1, 2, 0); fix(0, 3, 0); fix(1, 3, 0); fix(0, 4, 0); fix(1, 4, 0); fix(0, 5, 0); fix(1, 5, 0); fix(0, 6, 0); fix(1, 6, 0); fix(0, 7, 0); fix(1, 7, 0); fix(0, 8, 0); fix(1, 8, 0); fix(0, 9, 0); fix(1, 9, 0); fix(0, 10, 0); fix(1, 10, 0); fix(0, 11, 0); fix(1, 11, 0); fix(0, 12, 0); fix(1, 12, 0); fix(0, 13, 0); fix(1, 13, 0); fix(0, 14, 0); fix(1, 14, 0); fix(0, 15, 0); fix(1, 15, 0); fix(0, 20, 0); fix(1, 20, 0); fix(0, 21, 0); fix(1, 21, 0); fix(0, 22, 0); fix(1, 22, 0); fix(0, 23, 0); fix(1, 23, 0); fix(0, 24, 0); fix(1, 24, 0); fix(0, 25, 0); fix(1, 25, 0); fix(0, 26, 0); fix(1, 26, 0); fix(0, 27, 0); fix(1, 27, 0); fix(0, 28, 0); fix(1, 28, 0); fix(0, 29, 0); fix(1, 29, 0); fix(0, 30, 0); fix(1, 30, 0); fix(0, 31, 0); fix(1, 31, 0); fix(0, 32, 0); fix(1, 32, 0); fix(0, 33, 0); fix(1, 33, 0); fix(0, 34, 0); fix(1, 34, 0); fix(0, 35, 0); fix(1, 35, 0); fix(0, 36, 0); fix(1, 36, 0); fix(0, 37, 0); fix(1, 37, 0); fix(0, 38, 0); fix(1, 38, 0); fix(0, 39, 0); fix(1, 39, 0); fix(0, 40, 0); fix(1, 40, 0); fix(0, 41, 0); fix(1, 41, 0); fix(0, 42, 0); fix(1, 42, 0); fix(0, 43, 0); fix(1, 43, 0); fix(0, 44, 0); fix(1, 44, 0); fix(0, 45, 0); fix(1, 45, 0); fix(0, 46, 0); fix(1, 46, 0); fix(0, 47, 0); fix(1, 47, 0); fix(0, 48, 0); fix(1, 48, 0); fix(0, 49, 0); fix(1, 49, 0); fix(0, 50, 0); fix(1, 50, 0); fix(0, 51, 0); fix(1, 51, 0); fix(0, 52, 0); fix(1, 52, 0); fix(0, 53, 0); fix(1, 53, 0); fix(0, 54, 0); fix(1, 54, 0); fix(0, 55, 0); fix(1, 55, 0); fix(0, 56, 0); fix(1, 56, 0); fix(0, 57, 0); fix(1, 57, 0); fix(0, 58, 0); fix(1, 58, 0); fix(0, 59, 0); fix(1, 59, 0); fix(0, 60, 0); fix(1, 60, 0); fix(0, 61, 0); fix(1, 61, 0); fix(0, 62, 0); fix(1, 62, 0); fix(0, 63, 0); fix(1, 63, 0);
    if let (Ok(a), Ok(b)) = (Header::try_from(input(0)), Header::try_from(input(1))) {
        if a == b {
            let x = b;
            let y = match x.header_type { pcics::header::HeaderType::Normal(y) => y.base_addresses, _ => return };
            obs_iter(y, 0, 2);
        }
    }
}
// base addresses are compared by what they yield
#[no_mangle]
pub extern "C" fn root_q_sriov_bar() {
    fix(0, 0, 0); fix(1, 0, 0); fix(0, 1, 0); fix(1, 1, 0); fix(0, 2, 0); fix(1, 2, 0); fix(0, 3, 0); fix(1, 3, 0); fix(0, 4, 0); fix(1, 4, 0); fix(0, 5, 0); fix(1, 5, 0); fix(0, 6, 0); fix(1, 6, 0); fix(0, 7, 0); fix(1, 7, 0); fix(0, 8, 0); fix(1, 8, 0); fix(0, 9, 0); fix(1, 9, 0); fix(0, 10, 0); fix(1, 10, 0); fix(0, 11, 0); fix(1, 11, 0); fix(0, 12, 0); fix(1, 12, 0); fix(0, 13, 0); fix(1, 13, 0); fix(0, 14, 0); fix(1, 14, 0); fix(0, 15, 0); fix(1, 15, 0); fix(0, 16, 0); fix(1, 16, 0); fix(0, 17, 0); fix(1, 17, 0); fix(0, 18, 0); fix(1, 18, 0); fix(0, 19, 0); fix(1, 19, 0); fix(0, 20, 0); fix(1, 20, 0); fix(0, 21, 0); fix(1, 21, 0); fix(0, 22, 0); fix(1, 22, 0); fix(0, 23, 0); fix(1, 23, 0); fix(0, 24, 0); fix(1, 24, 0); fix(0, 25, 0); fix(1, 25, 0); fix(0, 26, 0); fix(1, 26, 0); fix(0, 27, 0); fix(1, 27, 0); fix(0, 28, 0); fix(1, 28, 0); fix(0, 29, 0); fix(1, 29, 0); fix(0, 30, 0); fix(1, 30, 0); fix(0, 31, 0); fix(1, 31, 0); fix(0, 36, 0); fix(1, 36, 0); fix(0, 37, 0); fix(1, 37, 0); fix(0, 38, 0); fix(1, 38, 0); fix(0, 39, 0); fix(1, 39, 0); fix(0, 40, 0); fix(1, 40, 0); fix(0, 41, 0); fix(1, 41, 0); fix(0, 42, 0); fix(1, 42, 0); fix(0, 43, 0); fix(1, 43, 0); fix(0, 44, 0); fix(1, 44, 0); fix(0, 45, 0); fix(1, 45, 0); fix(0, 46, 0); fix(1, 46, 0); fix(0, 47, 0); fix(1, 47, 0); fix(0, 48, 0); fix(1, 48, 0); fix(0, 49, 0); fix(1, 49, 0); fix(0, 50, 0); fix(1, 50, 0); fix(0, 51, 0); fix(1, 51, 0); fix(0, 52, 0); fix(1, 52, 0); fix(0, 53, 0); fix(1, 53, 0); fix(0, 54, 0); fix(1, 54, 0); fix(0, 55, 0); fix(1, 55, 0); fix(0, 56, 0); fix(1, 56, 0); fix(0, 57, 0); fix(1, 57, 0); fix(0, 58, 0); fix(1, 58, 0); fix(0, 59, 0); fix(1, 59, 0);
    if let (Ok(a), Ok(b)) = (SingleRootIoVirtualization::try_from(input(0)), SingleRootIoVirtualization::try_from(input(1))) {
        if a == b {
            let x = a;
            let y = x.base_addresses;
            obs_iter(y, 0, 2);
        }
    }
}
// base addresses are compared by what they yield
#[no_mangle]
pub extern "C" fn want_q_sriov_bar() {
    fix(0, 0, 0); fix(1, 0, 0); fix(0, 1, 0); fix(1, 1, 0); fix(0, 2, 0); fix(1, 2, 0); fix(0, 3, 0); fix(1, 3, 0); fix(0, 4, 0); fix(1, 4, 0); fix(0, 5, 0); fix(1, 5, 0); fix(0, 6, 0); fix(1, 6, 0); fix(0, 7, 0); fix(1, 7, 0); fix(0, 8, 0); fix(1, 8, 0); fix(0, 9, 0); fix(1, 9, 0); fix(0, 10, 0); fix(1, 10, 0); fix(0, 11, 0); fix(1, 11, 0); fix(0, 12, 0); fix(1, 12, 0); fix(0, 13, 0); fix(1, 13, 0); fix(0, 14, 0); fix(1, 14, 0); fix(0, 15, 0); fix(1, 15, 0); fix(0, 16, 0); fix(1, 16, 0); fix(0, 17, 0); fix(1, 17, 0); fix(0, 18, 0); fix(1, 18, 0); fix(0, 19, 0); fix(1, 19, 0); fix(0, 20, 0); fix(1, 20, 0); fix(0, 21, 0); fix(1, 21, 0); fix(0, 22, 0); fix(1, 22, 0); fix(0, 23, 0); fix(1, 23, 0); fix(0, 24, 0); fix(1, 24, 0); fix(0, 25, 0); fix(1, 25, 0); fix(0, 26, 0); fix(1, 26, 0); fix(0, 27, 0); fix(1, 27, 0); fix(0, 28, 0); fix(1, 28, 0); fix(0, 29, 0); fix(1, 29, 0); fix(0, 30, 0); fix(1, 30, 0); fix(0, 31, 0); fix(1, 31, 0); fix(0, 36, 0); fix(1, 36, 0); fix(0, 37, 0); fix(1, 37, 0); fix(0, 38, 0); fix(1, 38, 0); fix(0, 39, 0); fix(1, 39, 0); fix(0, 40, 0); fix(1, 40, 0); fix(0, 41, 0); fix(1, 41, 0); fix(0, 42, 0); fix(1, 42, 0); fix(0, 43, 0); fix(1, 43, 0); fix(0, 44, 0); fix(1, 44, 0); fix(0, 45, 0); fix(1, 45, 0); fix(0, 46, 0); fix(1, 46, 0); fix(0, 47, 0); fix(1, 47, 0); fix(0, 48, 0); fix(1, 48, 0); fix(0, 49, 0); fix(1, 49, 0); fix(0, 50, 0); fix(1, 50, 0); fix(0, 51, 0); fix(1, 51, 0); fix(0, 52, 0); fix(1, 52, 0); fix(0, 53, 0); fix(1, 53, 0); fix(0, 54, 0); fix(1, 54, 0); fix(0, 55, 0); fix(1, 55, 0); fix(0, 56, 0); fix(1, 56, 0); fix(0, 57, 0); fix(1, 57, 0); fix(0, 58, 0); fix(1, 58, 0); fix(0, 59, 0); fix(1, 59, 0);
    if let (Ok(a), Ok(b)) = (SingleRootIoVirtualization::try_from(input(0)), SingleRootIoVirtualization::try_from(input(1))) {
        if a == b {
            let x = b;
            let y = x.base_addresses;
            obs_iter(y, 0, 2);
        }
    }
}
