From 924ea8b68412c97ef5b4285541f9d29009eca3cc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:36 +0000
Subject: [PATCH 01/22] fix: decode header-including extended capabilities at
 their own offset

MFVC, RCRB, CAC, Multicast, (VF) Resizable BAR, DPA, PMUX, LNR, M-PCIe,
FRS Queuing, RTR and DVSEC were always decoded from the start of the
extended configuration space, whatever offset the capability is at.
---
 src/extended_capabilities.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 2d2f0fe..811270e 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -282,6 +282,8 @@ fn parse_ecap<'a>(
     let (id, version, next_cap_offset) = P3::<_, 16, 4, 12>(*dword).lsb_into();
     *next_capability_offset = next_cap_offset;
 
+    // Capability data with and without Extended Capability Header
+    let ecap = &bytes[ecs_offset..];
     let ecap_data = &bytes[ecap_data_offset..];
 
     use ExtendedCapabilityKind as Kind;
@@ -316,7 +318,7 @@ fn parse_ecap<'a>(
             .map(Kind::RootComplexEventCollectorEndpointAssociation)
             .context(DataSnafu { offset })?,
         // MFVC use data with PCI Express Extended Capability Header for simpler calculations
-        0x0008 => bytes
+        0x0008 => ecap
             .try_into()
             .map(Kind::MultifunctionVirtualChannel)
             .context(MultifunctionVirtualChannelSnafu { offset })?,
@@ -324,7 +326,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::VirtualChannelMfvcPresent)
             .context(DataSnafu { offset })?,
-        0x000A => bytes
+        0x000A => ecap
             .try_into()
             .map(Kind::RootComplexRegisterBlockHeader)
             .context(DataSnafu { offset })?,
@@ -332,7 +334,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::VendorSpecificExtendedCapability)
             .context(DataSnafu { offset })?,
-        0x000C => bytes
+        0x000C => ecap
             .try_into()
             .map(Kind::ConfigurationAccessCorrelation)
             .context(DataSnafu { offset })?,
@@ -353,7 +355,7 @@ fn parse_ecap<'a>(
             .map(Kind::SingleRootIoVirtualization)
             .context(DataSnafu { offset })?,
         0x0011 => Kind::MultiRootIoVirtualization(MultiRootIoVirtualization),
-        0x0012 => bytes
+        0x0012 => ecap
             .try_into()
             .map(Kind::Multicast)
             .context(DataSnafu { offset })?,
@@ -362,11 +364,11 @@ fn parse_ecap<'a>(
             .map(Kind::PageRequestInterface)
             .context(DataSnafu { offset })?,
         0x0014 => Kind::ReservedForAmd(ReservedForAmd),
-        0x0015 => bytes
+        0x0015 => ecap
             .try_into()
             .map(Kind::ResizableBar)
             .context(ResizableBarSnafu { offset })?,
-        0x0016 => bytes
+        0x0016 => ecap
             .try_into()
             .map(Kind::DynamicPowerAllocation)
             .context(DynamicPowerAllocationSnafu { offset })?,
@@ -382,7 +384,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::SecondaryPciExpress)
             .context(DataSnafu { offset })?,
-        0x001A => bytes
+        0x001A => ecap
             .try_into()
             .map(Kind::ProtocolMultiplexing)
             .context(ProtocolMultiplexingSnafu { offset })?,
@@ -390,7 +392,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::ProcessAddressSpaceId)
             .context(DataSnafu { offset })?,
-        0x001C => bytes
+        0x001C => ecap
             .try_into()
             .map(Kind::LnRequester)
             .context(DataSnafu { offset })?,
@@ -406,23 +408,23 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::PrecisionTimeMeasurement)
             .context(DataSnafu { offset })?,
-        0x0020 => bytes
+        0x0020 => ecap
             .try_into()
             .map(Kind::PciExpressOverMphy)
             .context(DataSnafu { offset })?,
-        0x0021 => bytes
+        0x0021 => ecap
             .try_into()
             .map(Kind::FrsQueuing)
             .context(DataSnafu { offset })?,
-        0x0022 => bytes
+        0x0022 => ecap
             .try_into()
             .map(Kind::ReadinessTimeReporting)
             .context(DataSnafu { offset })?,
-        0x0023 => bytes
+        0x0023 => ecap
             .try_into()
             .map(Kind::DesignatedVendorSpecificExtendedCapability)
             .context(DesignatedVendorSpecificExtendedCapabilitySnafu { offset })?,
-        0x0024 => bytes
+        0x0024 => ecap
             .try_into()
             .map(Kind::VfResizableBar)
             .context(VfResizableBarSnafu { offset })?,
-- 
2.43.0


From 85cab18c6cb2a90caa1724bed22613feeef6e27b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:36 +0000
Subject: [PATCH 02/22] fix: end the capability list after an unreadable
 capability header

The pointer was left as is, so iteration repeated the same error forever.
---
 src/capabilities.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index cb57c93..814cff9 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -369,6 +369,7 @@ fn parse_cap<'a>(bytes: &'a [u8], pointer: &mut u8, header: &'a Header) -> Capab
         *pointer = *next;
         (*id, rest)
     } else {
+        *pointer = 0;
         return Err(CapabilityError::Header { ptr });
     };
     use CapabilityKind as Kind;
-- 
2.43.0


From 1c03d636212424e4540bae5ceae982d0686cbf20 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:13 +0000
Subject: [PATCH 03/22] fix: mask the reserved low bits of next capability
 pointers

The bottom two bits of the capabilities pointer and of every next pointer
are reserved; software must mask them before using the value as an offset.
---
 src/capabilities.rs          | 7 +++++--
 src/extended_capabilities.rs | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index 814cff9..8b0357d 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -332,6 +332,9 @@ pub struct CapabilityDataError {
     size: usize,
 }
 
+/// The bottom two bits of a capability pointer are reserved and must be masked off before use
+const POINTER_MASK: u8 = !0b11;
+
 /// An iterator through *Capabilities List*
 ///
 /// Used to point to a linked list of new capabilities implemented by this device. This
@@ -345,7 +348,7 @@ pub struct Capabilities<'a> {
 }
 impl<'a> Capabilities<'a> {
     pub fn new(data: &'a [u8], header: &'a Header) -> Self {
-        Self { data, header, pointer: header.capabilities_pointer }
+        Self { data, header, pointer: header.capabilities_pointer & POINTER_MASK }
     }
 }
 impl<'a> Iterator for Capabilities<'a> {
@@ -366,7 +369,7 @@ fn parse_cap<'a>(bytes: &'a [u8], pointer: &mut u8, header: &'a Header) -> Capab
         CapabilityError::Pointer
     })?;
     let (id, cap_data) = if let Some([id, next, rest @ ..]) = bytes.get(offset..) {
-        *pointer = *next;
+        *pointer = *next & POINTER_MASK;
         (*id, rest)
     } else {
         *pointer = 0;
diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 811270e..447a495 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -279,8 +279,9 @@ fn parse_ecap<'a>(
     if *dword == 0 {
         return Err(ExtendedCapabilityError::EmptyHeader { offset });
     }
-    let (id, version, next_cap_offset) = P3::<_, 16, 4, 12>(*dword).lsb_into();
-    *next_capability_offset = next_cap_offset;
+    let (id, version, next_cap_offset): (u16, u8, u16) = P3::<_, 16, 4, 12>(*dword).lsb_into();
+    // The bottom two bits are reserved and must be masked off before use
+    *next_capability_offset = next_cap_offset & !0b11;
 
     // Capability data with and without Extended Capability Header
     let ecap = &bytes[ecs_offset..];
-- 
2.43.0


From 6daeb5fad3c7ba039d8dd660a7036ab3bbb94e46 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:02 +0000
Subject: [PATCH 04/22] fix: end iteration of looped capability lists

A (extended) capability list whose next pointers form a loop was iterated
forever. Bound the number of items by the number of places a capability can
start at, which no loop-free list exceeds.
---
 src/capabilities.rs          | 21 ++++++++++++++++++---
 src/extended_capabilities.rs | 19 +++++++++++++++++--
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index 8b0357d..e2fc80e 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -345,18 +345,33 @@ pub struct Capabilities<'a> {
     data: &'a [u8],
     header: &'a Header,
     pointer: u8,
+    /// Items that may still be produced
+    remains: u8,
 }
 impl<'a> Capabilities<'a> {
+    /// Every capability starts at its own DWORD of the device dependent region, plus one final
+    /// error for a pointer outside of it. A longer list has a loop.
+    const MAX_ITEMS: u8 = ((crate::ECS_OFFSET - DDR_OFFSET) / 4 + 1) as u8;
+
     pub fn new(data: &'a [u8], header: &'a Header) -> Self {
-        Self { data, header, pointer: header.capabilities_pointer & POINTER_MASK }
+        Self {
+            data,
+            header,
+            pointer: header.capabilities_pointer & POINTER_MASK,
+            remains: Self::MAX_ITEMS,
+        }
     }
 }
 impl<'a> Iterator for Capabilities<'a> {
     type Item = CapabilityResult<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Stop iterating if next pointer is null
-        (self.pointer != 0).then(|| parse_cap(self.data, &mut self.pointer, self.header))
+        // Stop iterating if next pointer is null or the list is looped
+        if self.pointer == 0 || self.remains == 0 {
+            return None;
+        }
+        self.remains -= 1;
+        Some(parse_cap(self.data, &mut self.pointer, self.header))
     }
 }
 
diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 447a495..a21c88e 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -106,6 +106,9 @@ use super::ECS_OFFSET;
 /// Extended Capability Header length in bytes
 pub const ECH_BYTES: usize = 4;
 
+/// End of Extended Configuration Space
+const ECS_END: usize = 0x1000;
+
 
 /// Extended capability parsing error
 #[derive(Snafu, Debug, Clone, PartialEq, Eq)]
@@ -186,19 +189,31 @@ pub struct ExtendedCapabilities<'a> {
     ecs: &'a [u8],
     /// PCI Configuration Space offset
     next_capability_offset: u16,
+    /// Items that may still be produced
+    remains: u16,
 }
 impl<'a> ExtendedCapabilities<'a> {
+    /// Every capability starts at its own DWORD of the extended configuration space, plus one
+    /// final error for an offset outside of it. A longer list has a loop.
+    const MAX_ITEMS: u16 = ((ECS_END - ECS_OFFSET) / 4 + 1) as u16;
+
     pub fn new(ecs: &'a [u8]) -> Self {
-        Self { ecs, next_capability_offset: ECS_OFFSET as u16 }
+        Self {
+            ecs,
+            next_capability_offset: ECS_OFFSET as u16,
+            remains: Self::MAX_ITEMS,
+        }
     }
 }
 impl<'a> Iterator for ExtendedCapabilities<'a> {
     type Item = ExtendedCapabilityResult<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.next_capability_offset == 0 {
+        // Stop iterating if next offset is null or the list is looped
+        if self.next_capability_offset == 0 || self.remains == 0 {
             return None;
         }
+        self.remains -= 1;
         match parse_ecap(self.ecs, &mut self.next_capability_offset) {
             Err(ExtendedCapabilityError::EmptyHeader { .. }) => None,
             v => Some(v),
-- 
2.43.0


From 7508ecce2d9191c2284dc096ef09699d809194a2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:02 +0000
Subject: [PATCH 05/22] fix: do not panic on absent or truncated VC arbitration
 tables

A zero table offset underflowed and a table outside of the available data
was sliced out of bounds.
---
 src/extended_capabilities/virtual_channel.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index abf4c87..596fe71 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -118,11 +118,8 @@ impl<'a> VirtualChannel<'a> {
             .port_vc_control
             .vc_arbitration_select
             .vc_arbitration_table_length();
-        let start = offset as usize * DQWORD - ECH_BYTES;
         // VC Arbitration Table entry length is 4 bits, so there are 2 entries in one byte
-        let end = start + entries_number / 2;
-        let data = &self.data[start..end];
-        VcArbitrationTable::new(data)
+        VcArbitrationTable::new(self.table_data(offset, entries_number / 2))
     }
     pub fn port_arbitration_table(
         &'a self,
@@ -137,10 +134,16 @@ impl<'a> VirtualChannel<'a> {
             .vc_resource_control
             .port_arbitration_select
             .port_arbitration_table_length();
-        let start = offset as usize * DQWORD - ECH_BYTES;
-        let end = start + entry_size_bits * entries_number / 8;
-        let data = &self.data[start..end];
-        PortArbitrationTable::new(data, entry_size_bits)
+        let length = entry_size_bits * entries_number / 8;
+        PortArbitrationTable::new(self.table_data(offset, length), entry_size_bits)
+    }
+    /// Data of an arbitration table; empty if the table is not present (zero offset) or does not
+    /// fit in the available data
+    fn table_data(&self, offset: u8, length: usize) -> &'a [u8] {
+        (offset as usize * DQWORD)
+            .checked_sub(ECH_BYTES)
+            .and_then(|start| self.data.get(start..start + length))
+            .unwrap_or_default()
     }
 }
 impl<'a> TryFrom<&'a [u8]> for VirtualChannel<'a> {
-- 
2.43.0


From abcf5a0ba2b3af2de3d1a22297fae79812ba43eb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:02 +0000
Subject: [PATCH 06/22] fix: do not panic when lane equalization control
 registers are truncated

Yield the lanes that are present instead of slicing out of bounds.
---
 src/extended_capabilities/secondary_pci_express.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/secondary_pci_express.rs b/src/extended_capabilities/secondary_pci_express.rs
index 0e428b2..4f43d42 100644
--- a/src/extended_capabilities/secondary_pci_express.rs
+++ b/src/extended_capabilities/secondary_pci_express.rs
@@ -79,7 +79,7 @@ impl<'a> SecondaryPciExpress<'a> {
     ) -> EqualizationControlLanes<'a> {
         // One Lane Equalization Control 2 bytes width
         let end = (u8::from(link_width) as usize) * 2;
-        EqualizationControlLanes::new(&self.ecl_data[..end])
+        EqualizationControlLanes::new(self.ecl_data.get(..end).unwrap_or(self.ecl_data))
     }
 }
 impl<'a> TryFrom<&'a [u8]> for SecondaryPciExpress<'a> {
-- 
2.43.0


From 8a3ce074cac8714edf24a336acfc98c1350f90d3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:02 +0000
Subject: [PATCH 07/22] fix: read TLP Prefix Log at its place

The common registers are already consumed at this point; skipping their
size once more read the log 28h bytes too far.
---
 src/extended_capabilities/advanced_error_reporting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/advanced_error_reporting.rs b/src/extended_capabilities/advanced_error_reporting.rs
index 6322fe8..e09f010 100644
--- a/src/extended_capabilities/advanced_error_reporting.rs
+++ b/src/extended_capabilities/advanced_error_reporting.rs
@@ -267,7 +267,7 @@ impl TryFrom<&[u8]> for AdvancedErrorReporting {
             } = P2(slice)
                 .try_into()
                 .map_err(|_| AdvancedErrorReportingError::TlpPrefixLog)?;
-            let _: [u8; Self::RP_AND_RCEC_SIZE] = _rp_and_rcec;
+            let _: [u8; Self::RP_AND_RCEC_SIZE - Self::COMMON_SIZE] = _rp_and_rcec;
             let Le(tlp_prefix_log) = From::<[u8; Self::TLP_PREFIX_LOG_SIZE]>::from(tlp_prefix_log);
             Some(TlpPrefixLog(tlp_prefix_log))
         } else {
-- 
2.43.0


From 01db7a2ae929922b03dc6739705b5a4036536e45 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:02 +0000
Subject: [PATCH 08/22] fix: read all bits of the ACS Egress Control Vector

The Egress Control Vector Size field is 8 bits wide, and a size that is not
a multiple of 32 needs one more DWORD.
---
 src/extended_capabilities/access_control_services.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index d7bfed8..49110fa 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -65,7 +65,8 @@ pub struct AccessControlServices<'a> {
 impl<'a> AccessControlServices<'a> {
     pub fn egress_control_vectors(&self) -> EgressControlVectors<'a> {
         let size = self.acs_capability.egress_control_vector_size as usize;
-        let end = size / (u32::BITS as usize) * ECV_BYTES;
+        let bits = u32::BITS as usize;
+        let end = (size + bits - 1) / bits * ECV_BYTES;
         EgressControlVectors::new(self.data.get(..end).unwrap_or_default(), size)
     }
 }
@@ -124,7 +125,7 @@ impl From<u16> for AcsCapability {
             acs_direct_translated_p2p,
             (),
             egress_control_vector_size,
-        )) = P9::<_, 1, 1, 1, 1, 1, 1, 1, 1, 7>(word).into();
+        )) = P9::<_, 1, 1, 1, 1, 1, 1, 1, 1, 8>(word).into();
         Self {
             acs_source_validation,
             acs_translation_blocking,
-- 
2.43.0


From b159913d157074dd163b906729148ae1d1dd3966 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:02 +0000
Subject: [PATCH 09/22] fix: recognise extended capabilities 002Dh - 0034h

The kinds exist and report these IDs, but were never produced.
---
 src/extended_capabilities.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index a21c88e..37e141f 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -452,6 +452,14 @@ fn parse_ecap<'a>(
         0x002A => Kind::PhysicalLayer32GTps(PhysicalLayer32GTps),
         0x002B => Kind::AlternateProtocol(AlternateProtocol),
         0x002C => Kind::SystemFirmwareIntermediary(SystemFirmwareIntermediary),
+        0x002D => Kind::ShadowFunctions(ShadowFunctions),
+        0x002E => Kind::DataObjectExchange(DataObjectExchange),
+        0x002F => Kind::Device3(Device3),
+        0x0030 => Kind::IntegrityAndDataEncryption(IntegrityAndDataEncryption),
+        0x0031 => Kind::PhysicalLayer64GTps(PhysicalLayer64GTps),
+        0x0032 => Kind::FlitLogging(FlitLogging),
+        0x0033 => Kind::FlitPerformanceMeasurement(FlitPerformanceMeasurement),
+        0x0034 => Kind::FlitErrorInjection(FlitErrorInjection),
         v => Kind::Reserved(v),
     };
     Ok(ExtendedCapability {
-- 
2.43.0


From d5e44f09e8b0c4c1d0c30c9d84d88d45ced12a88 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:02 +0000
Subject: [PATCH 10/22] fix: report Substate_Max plus one as expected DPA
 allocation array length

---
 src/extended_capabilities/dynamic_power_allocation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/dynamic_power_allocation.rs b/src/extended_capabilities/dynamic_power_allocation.rs
index 50fc5b6..8274f95 100644
--- a/src/extended_capabilities/dynamic_power_allocation.rs
+++ b/src/extended_capabilities/dynamic_power_allocation.rs
@@ -98,7 +98,7 @@ impl<'a> TryFrom<&'a [u8]> for DynamicPowerAllocation<'a> {
         let substate_max = substate_max as usize;
         tail.get(..substate_max + 1)
             .ok_or(DynamicPowerAllocationError::DpaAllocationArray {
-                expected: substate_max,
+                expected: substate_max + 1,
                 found: tail.len(),
             })
             .map(|slice| Self {
-- 
2.43.0


From e7dd26891deba1cbedb1017f4536de4ee188815e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:42 +0000
Subject: [PATCH 11/22] fix: report an unreadable second DW of a bridge's
 Enhanced Allocation as such

---
 src/capabilities/enhanced_allocation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/enhanced_allocation.rs b/src/capabilities/enhanced_allocation.rs
index 92ed617..bbe42ea 100644
--- a/src/capabilities/enhanced_allocation.rs
+++ b/src/capabilities/enhanced_allocation.rs
@@ -88,7 +88,7 @@ impl<'a> EnhancedAllocation<'a> {
                         entries: EnhancedAllocationEntries::new(slice, num_entries),
                     })
                 } else {
-                    Err(EnhancedAllocationError::NumEntries)
+                    Err(EnhancedAllocationError::Type1SecondDw)
                 }
             } else {
                 Ok(Self {
-- 
2.43.0


From 708c7430310d84d7022529a906c03605bf6fb9c6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 12/22] fix: encode the LTR latency scale at the bit it is
 decoded from

---
 src/extended_capabilities/l1_pm_substates.rs             | 4 +++-
 src/extended_capabilities/latency_tolerance_reporting.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extended_capabilities/l1_pm_substates.rs b/src/extended_capabilities/l1_pm_substates.rs
index c724ba5..d9012ad 100644
--- a/src/extended_capabilities/l1_pm_substates.rs
+++ b/src/extended_capabilities/l1_pm_substates.rs
@@ -255,7 +255,9 @@ impl From<L1PmSubstatesControl1> for u32 {
             | u8::from(data.pci_pm_l1_1_enable) << 1
             | u8::from(data.aspm_l1_2_enable) << 2
             | u8::from(data.aspm_l1_1_enable) << 3;
-        let [b2, b3] = u16::from(data.ltr_l1_2_threshold).to_le_bytes();
+        // Unlike in the Latency Tolerance Reporting registers the scale is in the three upper bits
+        let MaxLatency { value, scale } = data.ltr_l1_2_threshold;
+        let [b2, b3] = ((scale as u16) << 13 | value).to_le_bytes();
         u32::from_le_bytes([b0, data.common_mode_restore_time, b2, b3])
     }
 }
diff --git a/src/extended_capabilities/latency_tolerance_reporting.rs b/src/extended_capabilities/latency_tolerance_reporting.rs
index 595ab9c..47277f0 100644
--- a/src/extended_capabilities/latency_tolerance_reporting.rs
+++ b/src/extended_capabilities/latency_tolerance_reporting.rs
@@ -86,6 +86,6 @@ impl From<u16> for MaxLatency {
 
 impl From<MaxLatency> for u16 {
     fn from(data: MaxLatency) -> Self {
-        (data.scale as u16) << 13 | data.value
+        (data.scale as u16) << 10 | data.value
     }
 }
-- 
2.43.0


From 16fbb49778d50d74b8b7eb04f100d0496313a392 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:08 +0000
Subject: [PATCH 13/22] fix: PCI-X maximum cumulative read size is in kilobytes

---
 src/capabilities/pci_x.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/pci_x.rs b/src/capabilities/pci_x.rs
index c5cac1b..78d70b9 100644
--- a/src/capabilities/pci_x.rs
+++ b/src/capabilities/pci_x.rs
@@ -398,7 +398,7 @@ impl MaximumCumulativeReadSize {
         1 << (self.0 + 3)
     }
     pub fn bytes(&self) -> usize {
-        1 << self.0
+        1 << (self.0 + 10)
     }
 }
 
-- 
2.43.0


From fc9ffcaca014faa17716e76726fd6d741788f7a8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 14/22] fix: encode the address capability of CardBus I/O
 ranges

---
 src/header.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 86721a8..2ed8fc9 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -764,14 +764,23 @@ impl From<IoAccessAddressRange > for [[u16;2]; 2] {
             },
             IoAccessAddressRange::Addr32Bit { base, limit } => {
                 let base = base.to_le_bytes();
-                let base_upper = u16::from_le_bytes([base[0] & !0b11, base[1]]);
-                let base_lower = u16::from_le_bytes([base[2], base[3]]);
+                let base_lower = u16::from_le_bytes([base[0] & !0b11 | 0b01, base[1]]);
+                let base_upper = u16::from_le_bytes([base[2], base[3]]);
                 let limit = limit.to_le_bytes();
-                let limit_upper = u16::from_le_bytes([limit[0], limit[1]]);
-                let limit_lower = u16::from_le_bytes([limit[2], limit[3]]);
-                [[base_upper, base_lower], [limit_upper, limit_lower]]
+                let limit_lower = u16::from_le_bytes([limit[0], limit[1]]);
+                let limit_upper = u16::from_le_bytes([limit[2], limit[3]]);
+                [[base_lower, base_upper], [limit_lower, limit_upper]]
+            },
+            IoAccessAddressRange::Unknown {
+                io_address_capability,
+                base_lower,
+                base_upper,
+                limit_lower,
+                limit_upper,
+            } => {
+                let base_lower = base_lower & !0b11 | (io_address_capability & 0b11) as u16;
+                [[base_lower, base_upper], [limit_lower, limit_upper]]
             },
-            _ => unreachable!(),
         }
     }
 }
-- 
2.43.0


From 30abec509d58a130b3e0a676af98dcf0f09e0990 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:14 +0000
Subject: [PATCH 15/22] fix: encode reserved and broken base addresses, no
 panic for a 64-bit one in the last register

---
 src/header/bar.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/header/bar.rs b/src/header/bar.rs
index 3bdc60f..0f7fb14 100644
--- a/src/header/bar.rs
+++ b/src/header/bar.rs
@@ -98,12 +98,19 @@ impl<const N: usize> FromIterator<BaseAddress> for [u32; N] {
                 },
                 BaseAddressType::MemorySpace64 { prefetchable, base_address, } => {
                     dwords[i] = (base_address as u32) & !0b1111 | 0b100 | ((prefetchable as u32) << 3);
-                    dwords[i + 1] = (base_address >> 32) as u32;
+                    if let Some(dword) = dwords.get_mut(i + 1) {
+                        *dword = (base_address >> 32) as u32;
+                    }
                 },
                 BaseAddressType::IoSpace { base_address, } => {
                     dwords[i] = base_address & !0b11 | 0b01;
                 },
-                _ => (),
+                BaseAddressType::MemorySpaceReserved { prefetchable, base_address, } => {
+                    dwords[i] = base_address & !0b1111 | 0b110 | ((prefetchable as u32) << 3);
+                },
+                BaseAddressType::MemorySpace64Broken { prefetchable, } => {
+                    dwords[i] = 0b100 | ((prefetchable as u32) << 3);
+                },
             }
 
         }
-- 
2.43.0


From 3bf1b9b71330925aa2f9edc2e90226c422b60c48 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 16/22] fix: completion timeout range C starts at 250 ms

---
 src/capabilities/pci_express.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/pci_express.rs b/src/capabilities/pci_express.rs
index 0bab228..ccb9f9d 100644
--- a/src/capabilities/pci_express.rs
+++ b/src/capabilities/pci_express.rs
@@ -1637,7 +1637,7 @@ pub enum CompletionTimeoutRanges {
 impl CompletionTimeoutRanges {
     pub const A: Range<f64> = 50e-6..10e-3;
     pub const B: Range<f64> = 10e-3..250e-3;
-    pub const C: Range<f64> = 250e-6..4.0;
+    pub const C: Range<f64> = 250e-3..4.0;
     pub const D: Range<f64> = 4.0..64.0;
 }
 impl From<u8> for CompletionTimeoutRanges {
-- 
2.43.0


From 8bddc7f5114ef198140fe03c2b33fda1550f489c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 17/22] fix: an ACS egress control vector size of 00h stands
 for 256 bits

---
 src/extended_capabilities/access_control_services.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index 49110fa..02ea7af 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -64,7 +64,11 @@ pub struct AccessControlServices<'a> {
 
 impl<'a> AccessControlServices<'a> {
     pub fn egress_control_vectors(&self) -> EgressControlVectors<'a> {
-        let size = self.acs_capability.egress_control_vector_size as usize;
+        let size = match self.acs_capability.egress_control_vector_size {
+            // 00h encodes 256 bits
+            0 if self.acs_capability.acs_p2p_egress_control => 256,
+            size => size as usize,
+        };
         let bits = u32::BITS as usize;
         let end = (size + bits - 1) / bits * ECV_BYTES;
         EgressControlVectors::new(self.data.get(..end).unwrap_or_default(), size)
-- 
2.43.0


From 3b93484ba701ff0bc8cc0caadb16a7738d44b9d7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:23 +0000
Subject: [PATCH 18/22] fix: make the decoded lane equalization settings
 readable

---
 src/extended_capabilities/secondary_pci_express.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/extended_capabilities/secondary_pci_express.rs b/src/extended_capabilities/secondary_pci_express.rs
index 4f43d42..fb5bea9 100644
--- a/src/extended_capabilities/secondary_pci_express.rs
+++ b/src/extended_capabilities/secondary_pci_express.rs
@@ -176,13 +176,13 @@ impl<'a> Iterator for EqualizationControlLanes<'a> {
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct LaneEqualizationControl {
     /// Downstream Port 8.0 GT/s Transmitter Preset
-    downstream_port_transmitter_preset: TransmitterPreset,
+    pub downstream_port_transmitter_preset: TransmitterPreset,
     /// Downstream Port 8.0 GT/s Receiver Preset Hint
-    downstream_port_receiver_preset_hint: ReceiverPresetHint,
+    pub downstream_port_receiver_preset_hint: ReceiverPresetHint,
     /// Upstream Port 8.0 GT/s Transmitter Preset
-    upstream_port_transmitter_preset: TransmitterPreset,
+    pub upstream_port_transmitter_preset: TransmitterPreset,
     /// Upstream Port 8.0 GT/s Receiver Preset Hint
-    upstream_port_receiver_preset_hint: ReceiverPresetHint,
+    pub upstream_port_receiver_preset_hint: ReceiverPresetHint,
 }
 
 impl From<u16> for LaneEqualizationControl {
-- 
2.43.0


From 6c13042b203f3b32bd508b4ed64f8cf64224287d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:06 +0000
Subject: [PATCH 19/22] fix: compare the state of link entries

---
 src/extended_capabilities/root_complex_link_declaration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/root_complex_link_declaration.rs b/src/extended_capabilities/root_complex_link_declaration.rs
index 4583339..73a3c58 100644
--- a/src/extended_capabilities/root_complex_link_declaration.rs
+++ b/src/extended_capabilities/root_complex_link_declaration.rs
@@ -260,7 +260,7 @@ impl<'a> LinkEntries<'a> {
 
 impl<'a> PartialEq for LinkEntries<'a> {
     fn eq(&self, other: &Self) -> bool {
-        self.clone().eq(other.clone())
+        self.state == other.state && self.clone().eq(other.clone())
     }
 }
 impl<'a> Eq for LinkEntries<'a> {}
-- 
2.43.0


From 59b231bf3bc7ccfe2ba7ce8bc2a9530ba531a3ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:09 +0000
Subject: [PATCH 20/22] fix: compare the byte a port arbitration table is in

---
 src/extended_capabilities/virtual_channel.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index 596fe71..e073fb0 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -427,6 +427,7 @@ impl<'a> PartialEq for PortArbitrationTable<'a> {
         self.data.clone().eq(other.data.clone())
             && self.entry_size_bits == other.entry_size_bits
             && self.shift == other.shift
+            && self.byte == other.byte
     }
 }
 impl<'a> Eq for PortArbitrationTable<'a> {}
-- 
2.43.0


From 5aa7a11162de27f846b98f02bfd43019a6f8734c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:27 +0000
Subject: [PATCH 21/22] fix: a port arbitration table borrows from the data
 alone

The table was tied to the lifetime of the borrowed virtual channel structure and of the channel it
was asked for, although it only keeps a part of the configuration space data, so it could not be
kept or returned once either of them was gone.
---
 src/extended_capabilities/virtual_channel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index e073fb0..da7e75a 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -122,8 +122,8 @@ impl<'a> VirtualChannel<'a> {
         VcArbitrationTable::new(self.table_data(offset, entries_number / 2))
     }
     pub fn port_arbitration_table(
-        &'a self,
-        evc: &'a ExtendedVirtualChannel,
+        &self,
+        evc: &ExtendedVirtualChannel,
     ) -> PortArbitrationTable<'a> {
         let offset = evc.vc_resource_capability.port_arbitration_table_offset;
         let entry_size_bits = self
-- 
2.43.0


From c9d13aff853c4f05e8a0ba6f44a699d2c97dfef2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:29 +0000
Subject: [PATCH 22/22] fix: LTR latency values lost their upper bits on 32-bit
 machines

---
 src/extended_capabilities/latency_tolerance_reporting.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extended_capabilities/latency_tolerance_reporting.rs b/src/extended_capabilities/latency_tolerance_reporting.rs
index 47277f0..566aa57 100644
--- a/src/extended_capabilities/latency_tolerance_reporting.rs
+++ b/src/extended_capabilities/latency_tolerance_reporting.rs
@@ -69,9 +69,9 @@ pub struct MaxLatency {
     pub scale: u8,
 }
 impl MaxLatency {
-    pub fn value(&self) -> usize {
+    pub fn value(&self) -> u64 {
         match self.scale {
-            scale @ 0..=5 => (self.value as usize) << (5 * scale),
+            scale @ 0..=5 => (self.value as u64) << (5 * scale),
             _ => 0,
         }
     }
-- 
2.43.0

