root root_e23_dvsec : C24 C02
  src src/extended_capabilities/designated_vendor_specific_extended_capability.rs
  order @6.4:12
  . = len < 10 ? Err : @0x6[4+:12] < 10 ? Err : len < @0x6[4+:12] ? Err : @0x4[0+:16] == 0x1e98 && @0x8[0+:16] == 0 && @0x6[4+:12] < 56 ? Err : Ok
  Ok.dvsec_vendor_id = @0x4[0+:16]
  Ok.dvsec_revision = @0x6[0+:4]
  Ok.dvsec_length = @0x6[4+:12]
  Ok.dvsec_id = @0x8[0+:16]
  Ok.dvsec_type = @0x4[0+:16] == 0x1e98 ? ComputeExpressLink : Unspecified
  Ok.dvsec_type.ComputeExpressLink = match @0x8[0+:16] { 0: PcieDvsecForCxlDevice, 2: NonCxlFunctionMapDvsec, 3: Cxl20ExtensionsDvsecForPorts,
      4: GpfDvsecForCxlPorts, 5: GpfDvsecForCxlDevices, 7: PcieDvsecForFlexBusPort, 8: RegisterLocatorDvsec, 9: MldDvsec,
      0xa: PcieDvsecForTestCapability, _: Undefined }
  Ok.dvsec_type.ComputeExpressLink.Undefined = @0x8[0+:16]
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_capability.cache_capable = @0xa.0
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_capability.io_capable = @0xa.1
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_capability.mem_capable = @0xa.2
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_capability.mem_hwinit_mode = @0xa.3
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_capability.hdm_count = match @0xa[4+:2] { 0: ZeroRanges, 1: OneHdmRange,
      2: TwoHdmRanges, 3: Reserved, }
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_capability.cache_writeback_and_invalidate_capable = @0xa.6
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_capability.cxl_reset_capable = @0xa.7
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_capability.cxl_reset_timeout = match @0xb[0+:3] { 0: MaxTime10ms,
      1: MaxTime100ms, 2: MaxTime1s, 3: MaxTime10s, 4: MaxTime100s, _: Reserved }
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_capability.cxl_reset_timeout.Reserved = @0xb[0+:3]
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_capability.cxl_reset_mem_clr_capable = @0xb.3
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_capability.multiple_logical_device = @0xb.5
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_capability.viral_capable = @0xb.6
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_capability.pm_init_completion_reporting_capable = @0xb.7
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_control.cache_enable = @0xc.0
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_control.io_enable = @0xc.1
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_control.mem_enable = @0xc.2
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_control.cache_sf_coverage = match @0xc[3+:5] { 0: NoSnoopFilter, _: SnoopFilter }
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_control.cache_sf_coverage.SnoopFilter = match @0xc[3+:5] { 1: 0x10000,
      2: 0x20000, 3: 0x40000, 4: 0x80000, 5: 0x100000, 6: 0x200000, 7: 0x400000, 8: 0x800000, 9: 0x1000000, 0xa: 0x2000000, 0xb: 0x4000000,
      0xc: 0x8000000, 0xd: 0x10000000, 0xe: 0x20000000, 0xf: 0x40000000, 0x10: 0x80000000, 0x11: 0x100000000, 0x12: 0x200000000,
      0x13: 0x400000000, 0x14: 0x800000000, 0x15: 0x1000000000, 0x16: 0x2000000000, 0x17: 0x4000000000, 0x18: 0x8000000000,
      0x19: 0x10000000000, 0x1a: 0x20000000000, 0x1b: 0x40000000000, 0x1c: 0x80000000000, 0x1d: 0x100000000000, 0x1e: 0x200000000000,
      0x1f: 0x400000000000, }
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_control.cache_sf_granularity = match @0xd[0+:3] { 0: Tracking64B,
      1: Tracking128B, 2: Tracking256B, 3: Tracking512B, 4: Tracking1KB, 5: Tracking2KB, 6: Tracking4KB, 7: Reserved, }
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_control.cache_clean_eviction = @0xd.3 ? NotNeeded : Needed
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_control.viral_enable = @0xd.6
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_status.viral_status = @0xf.6
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_control2.disable_caching = @0x10.0
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_control2.initiate_cache_write_back_and_invalidation = @0x10.1
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_control2.initiate_cxl_reset = @0x10.2
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_control2.cxl_reset_mem_clr_enable = @0x10.3
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_status2.cache_invalid = @0x12.0
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_status2.cxl_reset_complete = @0x12.1
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_status2.cxl_reset_error = @0x12.2
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_status2.power_management_initialization_complete = @0x13.7
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_lock.config_lock = @0x14.0
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_capability2.cache_size_unit = match @0x16[0+:4] { 0: NotReported, 1: Unit64K,
      2: Unit1MB, _: Reserved }
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_capability2.cache_size_unit.Reserved = @0x16[0+:4]
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_capability2.cache_size = @0x17[0+:8]
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_1_size.memory_info_valid = @0x1c.0
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_1_size.memory_active = @0x1c.1
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_1_size.media_type = match @0x1c[2+:3] { 0: Volatile, 1: NonVolatile,
      2: Cdat, _: Reserved }
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_1_size.media_type.Reserved = @0x1c[2+:3]
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_1_size.memory_class = match @0x1c[5+:3] { 0: Memory, 1: Storage, 2: Cdat,
      _: Reserved }
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_1_size.memory_class.Reserved = @0x1c[5+:3]
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_1_size.desired_interleave = match @0x1d[0+:5] { 0: NoInterleave,
      1: Granularity256B, 2: Granularity4KB, 3: Granularity512B, 4: Granularity1KB, 5: Granularity2KB, 6: Granularity8KB, 7: Granularity16KB,
      _: Reserved }
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_1_size.desired_interleave.Reserved = @0x1d[0+:5]
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_1_size.memory_active_timeout = match @0x1d[5+:3] { 0: MaxTime1s,
      1: MaxTime4s, 2: MaxTime16s, 3: MaxTime64s, 4: MaxTime256s, _: Reserved }
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_1_size.memory_active_timeout.Reserved = @0x1d[5+:3]
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_1_size.memory_size = @0x1f[4+:4] << 28 | @0x18[0+:32] << 32
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_1_base.memory_base = @0x24[0+:32] | @0x20[0+:32] << 32
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_2_size.memory_info_valid = @0x2c.0
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_2_size.memory_active = @0x2c.1
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_2_size.media_type = match @0x2c[2+:3] { 0: Volatile, 1: NonVolatile,
      2: Cdat, _: Reserved }
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_2_size.media_type.Reserved = @0x2c[2+:3]
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_2_size.memory_class = match @0x2c[5+:3] { 0: Memory, 1: Storage, 2: Cdat,
      _: Reserved }
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_2_size.memory_class.Reserved = @0x2c[5+:3]
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_2_size.desired_interleave = match @0x2d[0+:5] { 0: NoInterleave,
      1: Granularity256B, 2: Granularity4KB, 3: Granularity512B, 4: Granularity1KB, 5: Granularity2KB, 6: Granularity8KB, 7: Granularity16KB,
      _: Reserved }
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_2_size.desired_interleave.Reserved = @0x2d[0+:5]
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_2_size.memory_active_timeout = match @0x2d[5+:3] { 0: MaxTime1s,
      1: MaxTime4s, 2: MaxTime16s, 3: MaxTime64s, 4: MaxTime256s, _: Reserved }
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_2_size.memory_active_timeout.Reserved = @0x2d[5+:3]
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_2_size.memory_size = @0x2f[4+:4] << 28 | @0x28[0+:32] << 32
  Ok.dvsec_type.ComputeExpressLink.PcieDvsecForCxlDevice.cxl_range_2_base.memory_base = @0x34[0+:32] | @0x30[0+:32] << 32
  Ok.dvsec_type.Unspecified = slice(10, @0x6[4+:12] - 10)
  Err = len < 10 ? Mandatory : @0x6[4+:12] < 10 ? VendorSpecificRegisters : len < @0x6[4+:12] ? VendorSpecificRegisters : ComputeExpressLink
  Err.ComputeExpressLink.source = PcieDvsecForCxlDevice
  Err.VendorSpecificRegisters.dvsec_vendor_id = @0x4[0+:16]
  Err.VendorSpecificRegisters.dvsec_revision = @0x6[0+:4]
  Err.VendorSpecificRegisters.dvsec_length = @0x6[4+:12]
  Err.VendorSpecificRegisters.dvsec_id = @0x8[0+:16]
  Err.VendorSpecificRegisters.real = len
