root root_c15_fpb : C13 C02
  src src/capabilities/flattening_portal_bridge.rs
  . = len < 34 ? Err : Ok
  Ok.reserved = @0x0[0+:16]
  Ok.fpb_capabilities.fpb_rid_decode_mechanism_supported = @0x2.0
  Ok.fpb_capabilities.fpb_mem_low_decode_mechanism_supported = @0x2.1
  Ok.fpb_capabilities.fpb_mem_high_decode_mechanism_supported = @0x2.2
  Ok.fpb_capabilities.fpb_num_sec_dev = @0x2[3+:5]
  Ok.fpb_capabilities.fpb_rid_vector_size_supported = match @0x3[0+:3] { 0: Size256bits, 2: Size1Kbits, 5: Size8kbits, _: Reserved }
  Ok.fpb_capabilities.fpb_rid_vector_size_supported.Reserved = @0x3[0+:3]
  Ok.fpb_capabilities.fpb_mem_low_vector_size_supported = match @0x4[0+:3] { 0: Size256bits, 1: Size512bits, 2: Size1Kbits, 3: Size2Kbits,
      4: Size4Kbits, _: Reserved }
  Ok.fpb_capabilities.fpb_mem_low_vector_size_supported.Reserved = @0x4[0+:3]
  Ok.fpb_capabilities.fpb_mem_high_vector_size_supported = match @0x5[0+:3] { 0: Size256bits, 1: Size512bits, 2: Size1Kbits, 3: Size2Kbits,
      4: Size4Kbits, 5: Size8Kbits, _: Reserved }
  Ok.fpb_capabilities.fpb_mem_high_vector_size_supported.Reserved = @0x5[0+:3]
  Ok.fpb_rid_vector_control.fpb_rid_decode_mechanism_enable = @0x6.0
  Ok.fpb_rid_vector_control.fpb_rid_vector_granularity = match @0x6[4+:4] { 0: Granularity8RIDs, 3: Granularity64RIDs, 5: Granularity256RIDs,
      _: Reserved }
  Ok.fpb_rid_vector_control.fpb_rid_vector_granularity.Reserved = @0x6[4+:4]
  Ok.fpb_rid_vector_control.fpb_rid_vector_start = match @0x6[4+:4] { 1: @0x8[4+:12] << 4, 2: @0x8[5+:11] << 5, 3: @0x8[6+:10] << 6,
      4: @0x8[7+:9] << 7, 5: @0x9[0+:8] << 8, 6: @0x9[1+:7] << 9, 7: @0x9[2+:6] << 10, 8: @0x9[3+:5] << 11, 9: @0x9[4+:4] << 12,
      0xa: @0x9[5+:3] << 13, 0xb: @0x9[6+:2] << 14, 0xc: @0x9.7 << 15, _: @0x8[3+:13] << 3 }
  Ok.fpb_rid_vector_control.rid_secondary_start = @0xa[3+:13]
  Ok.fpb_mem_low_vector_control.fpb_mem_low_decode_mechanism_enable = @0xe.0
  Ok.fpb_mem_low_vector_control.fpb_mem_low_vector_granularity = match @0xe[4+:4] { 0: Granularity1MB, 1: Granularity2MB, 2: Granularity4MB,
      3: Granularity8MB, 4: Granularity16MB, _: Reserved }
  Ok.fpb_mem_low_vector_control.fpb_mem_low_vector_granularity.Reserved = @0xe[4+:4]
  Ok.fpb_mem_low_vector_control.fpb_mem_low_vector_start = match @0xe[4+:4] { 1: @0x10[5+:11] << 21, 2: @0x10[6+:10] << 22,
      3: @0x10[7+:9] << 23, 4: @0x11[0+:8] << 24, 5: @0x11[1+:7] << 25, 6: @0x11[2+:6] << 26, 7: @0x11[3+:5] << 27, 8: @0x11[4+:4] << 28,
      9: @0x11[5+:3] << 29, 0xa: @0x11[6+:2] << 30, 0xb: @0x11.7 << 31, _: @0x10[4+:12] << 20 }
  Ok.fpb_mem_high_vector_control.fpb_mem_high_decode_mechanism_enable = @0x12.0
  Ok.fpb_mem_high_vector_control.fpb_mem_high_vector_granularity = match @0x12[4+:4] { 0: Granularity256MB, 1: Granularity512MB,
      2: Granularity1GB, 3: Granularity2GB, 4: Granularity4GB, 5: Granularity8GB, 6: Granularity16GB, 7: Granularity32GB, _: Reserved }
  Ok.fpb_mem_high_vector_control.fpb_mem_high_vector_granularity.Reserved = @0x12[4+:4]
  Ok.fpb_mem_high_vector_control.fpb_mem_high_vector_start = match @0x12[4+:4] { 0: @0x15[4+:36] << 28, 1: @0x15[5+:35] << 29,
      2: @0x15[6+:34] << 30, 3: @0x15[7+:33] << 31, 4: @0x16[0+:32] << 32, 5: @0x16[1+:31] << 33, 6: @0x16[2+:30] << 34,
      7: @0x16[3+:29] << 35, 8: @0x16[4+:28] << 36, 9: @0x16[5+:27] << 37, 0xa: @0x16[6+:26] << 38, 0xb: @0x16[7+:25] << 39,
      0xc: @0x17[0+:24] << 40, 0xd: @0x17[1+:23] << 41, 0xe: @0x17[2+:22] << 42, 0xf: @0x17[3+:21] << 43, }
  Ok.fpb_vector_access_control.fpb_vector_access_offset = @0x1a[0+:8]
  Ok.fpb_vector_access_control.fpb_vector_select = match @0x1b[6+:2] { 0: Rid, 1: MemLow, 2: MemHigh, 3: Reserved, }
  Ok.fpb_vector_access_data = @0x1e[0+:32]
