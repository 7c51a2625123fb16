//! Published sizes and offsets, default values, and the order of link speeds and widths.
use crate::{h, nth, step, sym, Obs};
use pcics::capabilities::*;
use pcics::extended_capabilities::*;
use pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device as cxl;
use pcics::header::*;
use pcics::Header;

macro_rules! consts { ($($r:ident $w:ident { $($name:expr, $c:expr, $v:expr;)* })*) => { $(
    #[no_mangle]
    pub extern "C" fn $r() {
        $(($c).obs(step(0, h($name)));)*
    }
    #[no_mangle]
    pub extern "C" fn $w() {
        $(($v).obs(step(0, h($name)));)*
    }
)* } }
consts! {
    root_d_layout want_d_layout {
        "device dependent region offset", pcics::DDR_OFFSET as u64, 0x40u64;
        "device dependent region length", pcics::DDR_LENGTH as u64, 0xc0u64;
        "extended space offset", pcics::ECS_OFFSET as u64, 0x100u64;
        "extended space length", pcics::ECS_LENGTH as u64, 0xf00u64;
        "header", Header::TOTAL_SIZE as u64, 64u64;
        "common header", Header::COMMON_SIZE as u64, 16u64;
        "capability header", Capability::HEADER_SIZE as u64, 2u64;
        "extended capability header", ExtendedCapability::HEADER_SIZE as u64, 4u64;
        "extended capability header bytes", ECH_BYTES as u64, 4u64;
        "lane settings offset", secondary_pci_express::ECL_OFFSET as u64, 12u64;
        "first link entry", root_complex_link_declaration::LinkEntries::FIRST_ENTRY_OFFSET as u64, 12u64;
    }
    root_d_sizes want_d_sizes {
        "bridge subsystem", BridgeSubsystemVendorId::SIZE as u64, 6u64;
        "virtio", vendor_specific::Virtio::SIZE as u64, 13u64;
        "pci express", PciExpress::SIZE as u64, 58u64;
        "flattening portal bridge", FlatteningPortalBridge::SIZE as u64, 34u64;
        "msi-x", MsiX::SIZE as u64, 10u64;
        "msi 32", message_signaled_interrups::MSI_32BIT_SIZE as u64, 10u64;
        "msi 64", message_signaled_interrups::MSI_64BIT_SIZE as u64, 14u64;
        "msi 32 masking", message_signaled_interrups::MSI_32BIT_PVM_SIZE as u64, 18u64;
        "msi 64 masking", message_signaled_interrups::MSI_64BIT_PVM_SIZE as u64, 22u64;
        "slave or primary", hypertransport::SlaveOrPrimaryInterface::SIZE as u64, 26u64;
        "host or secondary", hypertransport::HostOrSecondaryInterface::SIZE as u64, 22u64;
        "msi mapping", hypertransport::MsiMapping::SIZE as u64, 10u64;
        "sr-iov", SingleRootIoVirtualization::BYTES as u64, 60u64;
        "aer common", AdvancedErrorReporting::COMMON_SIZE as u64, 0x28u64;
        "aer root", AdvancedErrorReporting::RP_AND_RCEC_SIZE as u64, 0x34u64;
        "aer full", AdvancedErrorReporting::FULL_SIZE as u64, 0x44u64;
        "header log", AdvancedErrorReporting::HEADER_LOG_SIZE as u64, 16u64;
        "prefix log", AdvancedErrorReporting::TLP_PREFIX_LOG_SIZE as u64, 16u64;
        "multicast", Multicast::SIZE as u64, 48u64;
        "ln requester", LnRequester::SIZE as u64, 8u64;
        "configuration access", ConfigurationAccessCorrelation::SIZE as u64, 8u64;
        "m-phy", PciExpressOverMphy::SIZE as u64, 28u64;
        "readiness", ReadinessTimeReporting::SIZE as u64, 12u64;
        "register block", RootComplexRegisterBlockHeader::SIZE as u64, 20u64;
        "internal link", RootComplexInternalLinkControl::SIZE as u64, 8u64;
        "virtual channel", virtual_channel::ExtendedVirtualChannel::SIZE as u64, 12u64;
        "function virtual channel", multifunction_virtual_channel::ExtendedVirtualChannel::SIZE as u64, 12u64;
        "resizable bar entry", ResizableBar::ENTRY_SIZE as u64, 8u64;
        "multiplexing entry", protocol_multiplexing::PmuxProtocolArrayEntry::SIZE as u64, 4u64;
        "extended header", ExtendedCapabilityHeader::SIZE as u64, 4u64;
        "revision", hypertransport::RevisionId::SIZE as u64, 1u64;
        "message control", message_signaled_interrups::MessageControl::SIZE as u64, 2u64;
        "element self description", root_complex_link_declaration::ElementSelfDescription::BYTES as u64, 4u64;
        "link entry dwords", root_complex_link_declaration::LinkEntry::DWORDS as u64, 4u64;
        "event collector", RootComplexEventCollectorEndpointAssociation::SIZE as u64, 4u64;
        "designated vendor-specific", DesignatedVendorSpecificExtendedCapability::MIN_SIZE as u64, 10u64;
        "frs", FrsQueuing::SIZE as u64, 16u64;
        "frs capability", frs_queuing::FrsQueuingCapability::SIZE as u64, 4u64;
        "frs status", frs_queuing::FrsQueuingStatus::SIZE as u64, 2u64;
        "frs control", frs_queuing::FrsQueuingControl::SIZE as u64, 2u64;
        "frs queue", frs_queuing::FrsMessageQueue::SIZE as u64, 4u64;
        "link entry", root_complex_link_declaration::LinkEntry::SIZE as u64, 16u64;
    }
    root_d_cxl want_d_cxl {
        "cxl device", cxl::PcieDvsecForCxlDevice::SIZE as u64, 46u64;
        "cxl capability", cxl::CxlCapability::SIZE as u64, 2u64;
        "cxl control", cxl::CxlControl::SIZE as u64, 2u64;
        "cxl status", cxl::CxlStatus::SIZE as u64, 2u64;
        "cxl control 2", cxl::CxlControl2::SIZE as u64, 2u64;
        "cxl status 2", cxl::CxlStatus2::SIZE as u64, 2u64;
        "cxl lock", cxl::CxlLock::SIZE as u64, 2u64;
        "cxl capability 2", cxl::CxlCapability2::SIZE as u64, 2u64;
        "cxl range size", cxl::CxlRangeSize::SIZE as u64, 8u64;
        "cxl range base", cxl::CxlRangeBase::SIZE as u64, 8u64;
    }
    root_d_timeouts want_d_timeouts {
        "a start", pci_express::CompletionTimeoutRanges::A.start, 50e-6f64;
        "a end", pci_express::CompletionTimeoutRanges::A.end, 10e-3f64;
        "b start", pci_express::CompletionTimeoutRanges::B.start, 10e-3f64;
        "b end", pci_express::CompletionTimeoutRanges::B.end, 250e-3f64;
        "c start", pci_express::CompletionTimeoutRanges::C.start, 250e-3f64;
        "c end", pci_express::CompletionTimeoutRanges::C.end, 4f64;
        "d start", pci_express::CompletionTimeoutRanges::D.start, 4f64;
        "d end", pci_express::CompletionTimeoutRanges::D.end, 64f64;
    }
    root_d_defaults want_d_defaults {
        "pin", InterruptPin::default(), InterruptPin::from(0);
        "io range", IoAccessAddressRange::default(), IoAccessAddressRange::from([[0, 0], [0, 0]]);
        "bist", BuiltInSelfTest::default(), BuiltInSelfTest::from(0);
        "rom", ExpansionRom::default(), ExpansionRom::from(0);
        "command", Command::default(), Command::from(0);
        "bridge control", BridgeControl::default(), BridgeControl::from(0);
        "cardbus control", CardbusBridgeControl::default(), CardbusBridgeControl::from(0);
        "class", ClassCode::default(), ClassCode::from([0, 0, 0]);
        "link width", hypertransport::LinkWidth::default(), hypertransport::LinkWidth::from(0);
        "link frequency", hypertransport::LinkFrequency::default(), hypertransport::LinkFrequency::Rate200MHz;
        "msi", MessageSignaledInterrups::default(), match MessageSignaledInterrups::try_from(&[0u8; 22][..]) { Ok(x) => x, Err(_) => return };
    }
}
const SIZES: [&str; 44] = [
    "1MB", "2MB", "4MB", "8MB", "16MB", "32MB", "64MB", "128MB", "256MB", "512MB", "1GB", "2GB", "4GB", "8GB", "16GB", "32GB", "64GB", "128GB",
    "256GB", "512GB", "1TB", "2TB", "4TB", "8TB", "16TB", "32TB", "64TB", "128TB", "256TB", "512TB", "1PB", "2PB", "4PB", "8PB", "16PB", "32PB",
    "64PB", "128PB", "256PB", "512PB", "1EB", "2EB", "4EB", "8EB",
];
#[inline(never)]
fn names(s: &[&'static str; 44]) {
    let mut i = 0;
    while i < 44 {
        s[i].obs(nth(0, i));
        i += 1;
    }
}
#[no_mangle]
pub extern "C" fn root_d_bar_sizes() {
    names(&resizable_bar::ResizableBarEntry::BAR_SIZES);
}
#[no_mangle]
pub extern "C" fn want_d_bar_sizes() {
    names(&SIZES);
}

const SPEED: u64 = step(0, h("speed"));
const WIDTH: u64 = step(0, h("width"));
const LANES: [u8; 8] = [1, 2, 4, 8, 12, 16, 32, 32];
fn cmp<T: Ord>(a: T, b: T) -> u8 {
    (a < b) as u8 | ((a > b) as u8) << 1 | ((a == b) as u8) << 2 | ((a.cmp(&b) as i8 + 1) as u8) << 3
}
#[no_mangle]
pub extern "C" fn root_d_order() {
    let (i, j) = (sym(0, 3) as u8, sym(1, 3) as u8);
    if i >= 1 && i <= 6 && j >= 1 && j <= 6 {
        cmp(pci_express::LinkSpeed::from(i), pci_express::LinkSpeed::from(j)).obs(SPEED);
    }
    let (a, b) = (LANES[i as usize], LANES[j as usize]);
    cmp(pci_express::LinkWidth::from(a), pci_express::LinkWidth::from(b)).obs(WIDTH);
}
#[no_mangle]
pub extern "C" fn want_d_order() {
    let (i, j) = (sym(0, 3) as u8, sym(1, 3) as u8);
    if i >= 1 && i <= 6 && j >= 1 && j <= 6 {
        cmp(i, j).obs(SPEED);
    }
    cmp(LANES[i as usize], LANES[j as usize]).obs(WIDTH);
}

const LENGTHS: [u64; 8] = [0, 32, 64, 128, 128, 256, 0, 0];
const VC_LENGTHS: [u64; 8] = [0, 32, 64, 128, 0, 0, 0, 0];
#[no_mangle]
pub extern "C" fn root_d_phases() {
    let c = sym(0, 3) as u8;
    (virtual_channel::PortArbitrationSelect::from(c).port_arbitration_table_length() as u64).obs(step(0, h("port")));
    (multifunction_virtual_channel::FunctionArbitrationSelect::from(c).function_arbitration_table_length() as u64).obs(step(0, h("function")));
    (virtual_channel::VcArbitrationSelect::from(c).vc_arbitration_table_length() as u64).obs(step(0, h("vc")));
}
#[no_mangle]
pub extern "C" fn want_d_phases() {
    let c = sym(0, 3) as usize;
    LENGTHS[c].obs(step(0, h("port")));
    LENGTHS[c].obs(step(0, h("function")));
    VC_LENGTHS[c].obs(step(0, h("vc")));
}
