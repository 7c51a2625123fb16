#!/usr/bin/env python3
"""Writes harness/src/lists.rs and spec/lists.spec: for every capability ID, the list walker on one
side and the decoder that the PCI code table assigns to that ID, applied to the capability's own
bytes, on the other.  The two tables below are the oracle (PCI Code and ID Assignment)."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
D = 'Data'
CAPS = [  # id, decoder (None: no fields decoded), kind, error variant
    (0x00, None, 'NullCapability', None), (0x01, 'PowerManagementInterface', 0, D), (0x02, 'AcceleratedGraphicsPort', 0, D),
    (0x03, 'VitalProductData', 0, D), (0x04, 'SlotIdentification', 0, D), (0x05, 'MessageSignaledInterrups', 0, 1),
    (0x06, None, 'CompactPciHotSwap', 1), (0x07, 'PCIX', 0, 0), (0x08, 'Hypertransport', 0, 1), (0x09, 'VendorSpecific', 0, 1),
    (0x0a, 'DebugPort', 0, D), (0x0b, None, 'CompactPciResourceControl', 1), (0x0c, None, 'PciHotPlug', 1),
    (0x0d, 'BridgeSubsystemVendorId', 0, D), (0x0e, None, 'Agp8x', 1), (0x0f, None, 'SecureDevice', 1),
    (0x10, 'PciExpress', 0, 1), (0x11, 'MsiX', 0, D), (0x12, 'Sata', 0, D), (0x13, 'AdvancedFeatures', 0, D),
    (0x14, 'EnhancedAllocation', 0, 1), (0x15, 'FlatteningPortalBridge', 0, D)]
W = 1  # decoder takes the structure including its extended capability header
ECAPS = [  # id, decoder, kind, error variant, header included
    (0x01, 'AdvancedErrorReporting', 0, 1, 0), (0x02, 'VirtualChannel', 0, D, 0), (0x03, 'DeviceSerialNumber', 0, D, 0),
    (0x04, 'PowerBudgeting', 0, D, 0), (0x05, 'RootComplexLinkDeclaration', 0, 1, 0), (0x06, 'RootComplexInternalLinkControl', 0, D, 0),
    (0x07, 'RootComplexEventCollectorEndpointAssociation', 0, D, 0), (0x08, 'MultifunctionVirtualChannel', 0, 1, W),
    (0x09, 'VirtualChannel', 'VirtualChannelMfvcPresent', D, 0), (0x0a, 'RootComplexRegisterBlockHeader', 0, D, W),
    (0x0b, 'VendorSpecificExtendedCapability', 0, D, 0), (0x0c, 'ConfigurationAccessCorrelation', 0, D, W),
    (0x0d, 'AccessControlServices', 0, D, 0), (0x0e, 'AlternativeRoutingIdInterpretation', 0, D, 0),
    (0x0f, 'AddressTranslationServices', 0, D, 0), (0x10, 'SingleRootIoVirtualization', 0, D, 0), (0x11, None, 'MultiRootIoVirtualization', 1, 0),
    (0x12, 'Multicast', 0, D, W), (0x13, 'PageRequestInterface', 0, D, 0), (0x14, None, 'ReservedForAmd', 1, 0),
    (0x15, 'ResizableBar', 0, 1, W), (0x16, 'DynamicPowerAllocation', 0, 1, W), (0x17, 'TphRequester', 0, D, 0),
    (0x18, 'LatencyToleranceReporting', 0, D, 0), (0x19, 'SecondaryPciExpress', 0, D, 0), (0x1a, 'ProtocolMultiplexing', 0, 1, W),
    (0x1b, 'ProcessAddressSpaceId', 0, D, 0), (0x1c, 'LnRequester', 0, D, W), (0x1d, 'DownstreamPortContainment', 0, 1, 0),
    (0x1e, 'L1PmSubstates', 0, D, 0), (0x1f, 'PrecisionTimeMeasurement', 0, D, 0), (0x20, 'PciExpressOverMphy', 0, D, W),
    (0x21, 'FrsQueuing', 0, D, W), (0x22, 'ReadinessTimeReporting', 0, D, W),
    (0x23, 'DesignatedVendorSpecificExtendedCapability', 0, 1, W), (0x24, 'VfResizableBar', 0, 1, W)] + [
    (0x25 + i, None, n, 1, 0) for i, n in enumerate('''DataLinkFeature PhysicalLayer16GTps LaneMarginingAtTheReceiver HierarchyId
    NativePcieEnclosureManagement PhysicalLayer32GTps AlternateProtocol SystemFirmwareIntermediary ShadowFunctions DataObjectExchange
    Device3 IntegrityAndDataEncryption PhysicalLayer64GTps FlitLogging FlitPerformanceMeasurement FlitErrorInjection'''.split())]
# structures of variable extent: analysed at one position in the list
FIXED = {0x09, 0x14}
EFIXED = {0x05, 0x08, 0x0b, 0x15, 0x17, 0x1a, 0x23, 0x24}
HINT = {0x05: '', 0x08: ' @4b.0:8<<4 @53.0:8<<4 @5f.0:8<<4', 0x0b: ' @46.4:12', 0x23: ' @46.4:12'}
CHINT = {0x09: ' @16.0:8', 0x14: ' @16.0:6<<4'}

rs = ['// Written by tools/gen_lists.py', 'use super::*;', '']
sp = ['// Written by tools/gen_lists.py']
def kind_unit(k, n):
    return f'Kind::{n}' if n == 'NullCapability' else f'Kind::{n}({n})'
for (i, dec, kind, err) in CAPS:
    kind = kind or dec
    if dec is None:
        e = f'Ok({kind_unit(0, kind)})'
    elif dec == 'PCIX':
        e = ('if matches!(hdr.header_type, HeaderType::Bridge(_)) { PciXBridge::try_from(rest).map(Kind::PciXBridge)'
             '.map_err(|source| CapabilityError::PciXBridge { ptr, source }) } else { PciX::try_from(rest).map(Kind::PciX)'
             '.map_err(|source| CapabilityError::PciX { ptr, source }) }')
    else:
        ev = D if err == D else kind
        call = f'{dec}::try_new(rest, hdr)' if dec in ('VendorSpecific', 'EnhancedAllocation') else f'{dec}::try_from(rest)'
        e = f'{call}.map(Kind::{kind}).map_err(|source| CapabilityError::{ev} {{ ptr, source }})'
    rs.append(f'cap!(root_cap_{i:02x}, want_cap_{i:02x}, root_chain_{i:02x}, want_chain_{i:02x}, {'true' if i in FIXED else 'false'}, |id| id == {i:#04x}, |id, rest, hdr, ptr| {e});')
    sp += [f'root root_cap_{i:02x} same want_cap_{i:02x} : C05 C04', '  src src/capabilities.rs', ('  order s0:8 w0@1.0:8' if i not in FIXED else '  order' + CHINT[i] + ' @15.0:8')]
rs.append('cap!(root_cap_rsvd, want_cap_rsvd, root_chain_rsvd, want_chain_rsvd, false, |id| id > 0x15, |id, rest, hdr, ptr| Ok(Kind::Reserved(id)));')
sp += ['root root_cap_rsvd same want_cap_rsvd : C05 C04', '  src src/capabilities.rs', '  order s0:8 w0@1.0:8']
for (i, dec, kind, err, w) in ECAPS:
    kind = kind or dec
    if dec is None:
        e = f'Ok(EKind::{kind}({kind}))'
    else:
        ev = D if err == D else kind
        e = f"{dec}::try_from({'whole' if w else 'rest'}).map(EKind::{kind}).map_err(|source| ExtendedCapabilityError::{ev} {{ offset, source }})"
    rs.append(f'ecap!(root_ecap_{i:04x}, want_ecap_{i:04x}, root_echain_{i:04x}, want_echain_{i:04x}, {'true' if i in EFIXED else 'false'}, |d| d as u16 == {i:#06x}, |id, whole, rest, offset| {e});')
    sp += [f'root root_ecap_{i:04x} same want_ecap_{i:04x} : C07 C06', '  src src/extended_capabilities.rs', ('  order @2.4:12 w0@2.4:12' if i not in EFIXED else '  order' + HINT.get(i, '') + ' @42.4:12')]
rs.append('ecap!(root_ecap_null, want_ecap_null, root_echain_null, want_echain_null, false, |d| d as u16 == 0 && d != 0, |id, whole, rest, offset| Ok(EKind::Null));')
rs.append('ecap!(root_ecap_empty, want_ecap_empty, root_echain_empty, want_echain_empty, false, |d| d == 0, |id, whole, rest, offset| Ok(EKind::Null));')
rs.append('ecap!(root_ecap_rsvd, want_ecap_rsvd, root_echain_rsvd, want_echain_rsvd, false, |d| d as u16 > 0x34, |id, whole, rest, offset| Ok(EKind::Reserved(id)));')
for n in ('null', 'empty', 'rsvd'):
    sp += [f'root root_ecap_{n} same want_ecap_{n} : C07 C06', '  src src/extended_capabilities.rs', '  order @2.4:12 w0@2.4:12']
for i in ['%02x' % c[0] for c in CAPS] + ['rsvd']:
    sp += [f'root root_chain_{i} same want_chain_{i} : C05 C04', '  src src/capabilities.rs']
    if i == '09':
        sp += ['  order @a.0:8 @62.0:8 @3a.0:8']
for i in ['%04x' % c[0] for c in ECAPS] + ['null', 'rsvd']:
    sp += [f'root root_echain_{i} same want_echain_{i} : C07 C06', '  src src/extended_capabilities.rs']
    if i in ('000b', '0023'):
        sp += ['  order @6.4:12 @146.4:12 @86.4:12']
    if i == '0008':
        sp += ['  order @b.0:8<<4 @13.0:8<<4 @1f.0:8<<4 @14b.0:8<<4 @153.0:8<<4 @15f.0:8<<4 @8b.0:8<<4 @93.0:8<<4 @9f.0:8<<4']
open(os.path.join(HERE, '../harness/src/lists_gen.rs'), 'w').write('\n'.join(rs) + '\n')
open(os.path.join(HERE, '../spec/lists.spec'), 'w').write('\n'.join(sp) + '\n')
