root root_header : C08 C02
  src src/header.rs
  . = len < 64 ? Err : Ok
  Ok.vendor_id = @0x0[0+:16]
  Ok.device_id = @0x2[0+:16]
  Ok.command.io_space = @0x4.0
  Ok.command.memory_space = @0x4.1
  Ok.command.bus_master = @0x4.2
  Ok.command.special_cycles = @0x4.3
  Ok.command.memory_write_and_invalidate_enable = @0x4.4
  Ok.command.vga_palette_snoop = @0x4.5
  Ok.command.parity_error_response = @0x4.6
  Ok.command.stepping = @0x4.7
  Ok.command.serr_enable = @0x5.0
  Ok.command.fast_back_to_back_enable = @0x5.1
  Ok.command.interrupt_disable = @0x5.2
  Ok.command.reserved = @0x5[3+:5]
  Ok.status.reserved = @0x6[0+:3]
  Ok.status.interrupt_status = @0x6.3
  Ok.status.capabilities_list = @0x6.4
  Ok.status.is_66mhz_capable = @0x6.5
  Ok.status.user_definable_features = @0x6.6
  Ok.status.fast_back_to_back_capable = @0x6.7
  Ok.status.master_data_parity_error = @0x7.0
  Ok.status.devsel_timing = match @0x7[1+:2] { 0: Fast, 1: Medium, 2: Slow, 3: Undefined, }
  Ok.status.signaled_target_abort = @0x7.3
  Ok.status.received_target_abort = @0x7.4
  Ok.status.received_master_abort = @0x7.5
  Ok.status.system_error = @0x7.6
  Ok.status.detected_parity_error = @0x7.7
  Ok.revision_id = @0x8[0+:8]
  Ok.class_code.interface = @0x9[0+:8]
  Ok.class_code.sub = @0xa[0+:8]
  Ok.class_code.base = @0xb[0+:8]
  Ok.cache_line_size = @0xc[0+:8]
  Ok.latency_timer = @0xd[0+:8]
  Ok.is_multi_function = @0xe.7
  Ok.header_type = match @0xe[0+:7] { 0: Normal, 1: Bridge, 2: Cardbus, _: Reserved }
  Ok.header_type.Reserved = @0xe[0+:7]
  Ok.header_type.{Cardbus,Bridge,Normal}.base_addresses.[0] = @0x10[0+:32]
  Ok.header_type.Cardbus.secondary_status.reserved = @0x16[0+:3]
  Ok.header_type.Cardbus.secondary_status.interrupt_status = @0x16.3
  Ok.header_type.Cardbus.secondary_status.capabilities_list = @0x16.4
  Ok.header_type.Cardbus.secondary_status.is_66mhz_capable = @0x16.5
  Ok.header_type.Cardbus.secondary_status.user_definable_features = @0x16.6
  Ok.header_type.Cardbus.secondary_status.fast_back_to_back_capable = @0x16.7
  Ok.header_type.Cardbus.secondary_status.master_data_parity_error = @0x17.0
  Ok.header_type.Cardbus.secondary_status.devsel_timing = match @0x17[1+:2] { 0: Fast, 1: Medium, 2: Slow, 3: Undefined, }
  Ok.header_type.Cardbus.secondary_status.signaled_target_abort = @0x17.3
  Ok.header_type.Cardbus.secondary_status.received_target_abort = @0x17.4
  Ok.header_type.Cardbus.secondary_status.received_master_abort = @0x17.5
  Ok.header_type.Cardbus.secondary_status.system_error = @0x17.6
  Ok.header_type.Cardbus.secondary_status.detected_parity_error = @0x17.7
  Ok.header_type.Cardbus.pci_bus_number = @0x18[0+:8]
  Ok.header_type.Cardbus.cardbus_bus_number = @0x19[0+:8]
  Ok.header_type.{Cardbus,Bridge}.subordinate_bus_number = @0x1a[0+:8]
  Ok.header_type.Cardbus.cardbus_latency_timer = @0x1b[0+:8]
  Ok.header_type.Cardbus.memory_base_address_0 = @0x1c[0+:32]
  Ok.header_type.Cardbus.memory_limit_address_0 = @0x20[0+:32]
  Ok.header_type.Cardbus.memory_base_address_1 = @0x24[0+:32]
  Ok.header_type.Cardbus.memory_limit_address_1 = @0x28[0+:32]
  Ok.header_type.Cardbus.io_access_address_range_0 = match @0x2c[0+:2] { 0: Addr16Bit, 1: Addr32Bit, _: Unknown }
  Ok.header_type.Cardbus.io_access_address_range_0.Unknown.io_address_capability = @0x2c[0+:2]
  Ok.header_type.Cardbus.io_access_address_range_0.Unknown.base_lower = @0x2c[2+:14] << 2
  Ok.header_type.Cardbus.io_access_address_range_0.Unknown.base_upper = @0x2e[0+:16]
  Ok.header_type.Cardbus.io_access_address_range_0.Unknown.limit_lower = @0x30[2+:14] << 2
  Ok.header_type.Cardbus.io_access_address_range_0.Unknown.limit_upper = @0x32[0+:16]
  Ok.header_type.Cardbus.io_access_address_range_0.Addr32Bit.base = @0x2c[2+:30] << 2
  Ok.header_type.Cardbus.io_access_address_range_0.Addr32Bit.limit = @0x30[2+:30] << 2
  Ok.header_type.Cardbus.io_access_address_range_0.Addr16Bit.base = @0x2c[2+:14] << 2
  Ok.header_type.Cardbus.io_access_address_range_0.Addr16Bit.limit = @0x30[2+:14] << 2
  Ok.header_type.Cardbus.io_access_address_range_1 = match @0x34[0+:2] { 0: Addr16Bit, 1: Addr32Bit, _: Unknown }
  Ok.header_type.Cardbus.io_access_address_range_1.Unknown.io_address_capability = @0x34[0+:2]
  Ok.header_type.Cardbus.io_access_address_range_1.Unknown.base_lower = @0x34[2+:14] << 2
  Ok.header_type.Cardbus.io_access_address_range_1.Unknown.base_upper = @0x36[0+:16]
  Ok.header_type.Cardbus.io_access_address_range_1.Unknown.limit_lower = @0x38[2+:14] << 2
  Ok.header_type.Cardbus.io_access_address_range_1.Unknown.limit_upper = @0x3a[0+:16]
  Ok.header_type.Cardbus.io_access_address_range_1.Addr32Bit.base = @0x34[2+:30] << 2
  Ok.header_type.Cardbus.io_access_address_range_1.Addr32Bit.limit = @0x38[2+:30] << 2
  Ok.header_type.Cardbus.io_access_address_range_1.Addr16Bit.base = @0x34[2+:14] << 2
  Ok.header_type.Cardbus.io_access_address_range_1.Addr16Bit.limit = @0x38[2+:14] << 2
  Ok.header_type.{Cardbus,Bridge}.bridge_control.parity_error_response_enable = @0x3e.0
  Ok.header_type.{Cardbus,Bridge}.bridge_control.serr_enable = @0x3e.1
  Ok.header_type.{Cardbus,Bridge}.bridge_control.isa_enable = @0x3e.2
  Ok.header_type.{Cardbus,Bridge}.bridge_control.vga_enable = @0x3e.3
  Ok.header_type.{Cardbus,Bridge}.bridge_control.master_abort_mode = @0x3e.5
  Ok.header_type.Cardbus.bridge_control.cardbus_reset = @0x3e.6
  Ok.header_type.Cardbus.bridge_control.ireq_int_enable = @0x3e.7
  Ok.header_type.Cardbus.bridge_control.memory_0_prefetch_enable = @0x3f.0
  Ok.header_type.Cardbus.bridge_control.memory_1_prefetch_enable = @0x3f.1
  Ok.header_type.Cardbus.bridge_control.write_posting_enable = @0x3f.2
  Ok.header_type.Cardbus.{subsystem_vendor_id,subsystem_device_id,legacy_mode_base_address,reserved} = None
  Ok.header_type.{Bridge,Normal}.base_addresses.[1] = @0x14[0+:32]
  Ok.header_type.Bridge.primary_bus_number = @0x18[0+:8]
  Ok.header_type.Bridge.secondary_bus_number = @0x19[0+:8]
  Ok.header_type.Bridge.secondary_latency_timer = @0x1b[0+:8]
  Ok.header_type.Bridge.io_address_range = match (@0x1c[0+:4] << 4 | @0x1d[0+:4]) {
      0: (@0x1c == 0 && @0x1d == 0 ? NotImplemented : IoAddr16), 0x11: IoAddr32, _: (@0x1c[0+:4] == @0x1d[0+:4] ? Reserved : Malformed) }
  Ok.header_type.Bridge.io_address_range.{Reserved,Malformed}.base = @0x1c[0+:8]
  Ok.header_type.Bridge.io_address_range.Reserved.limit = @0x1d
  Ok.header_type.Bridge.io_address_range.Malformed.limit = @0x1d[0+:8]
  Ok.header_type.Bridge.io_address_range.IoAddr32.base = @0x1c[4+:4] << 12 | @0x30[0+:16] << 16
  Ok.header_type.Bridge.io_address_range.IoAddr32.limit = @0x1d[4+:4] << 12 | @0x32[0+:16] << 16
  Ok.header_type.Bridge.io_address_range.IoAddr16.base = @0x1c[4+:4] << 12
  Ok.header_type.Bridge.io_address_range.IoAddr16.limit = @0x1d[4+:4] << 12
  Ok.header_type.Bridge.secondary_status.reserved = @0x1e[0+:3]
  Ok.header_type.Bridge.secondary_status.interrupt_status = @0x1e.3
  Ok.header_type.Bridge.secondary_status.capabilities_list = @0x1e.4
  Ok.header_type.Bridge.secondary_status.is_66mhz_capable = @0x1e.5
  Ok.header_type.Bridge.secondary_status.user_definable_features = @0x1e.6
  Ok.header_type.Bridge.secondary_status.fast_back_to_back_capable = @0x1e.7
  Ok.header_type.Bridge.secondary_status.master_data_parity_error = @0x1f.0
  Ok.header_type.Bridge.secondary_status.devsel_timing = match @0x1f[1+:2] { 0: Fast, 1: Medium, 2: Slow, 3: Undefined, }
  Ok.header_type.Bridge.secondary_status.signaled_target_abort = @0x1f.3
  Ok.header_type.Bridge.secondary_status.received_target_abort = @0x1f.4
  Ok.header_type.Bridge.secondary_status.received_master_abort = @0x1f.5
  Ok.header_type.Bridge.secondary_status.system_error = @0x1f.6
  Ok.header_type.Bridge.secondary_status.detected_parity_error = @0x1f.7
  Ok.header_type.Bridge.memory_base = @0x20[0+:16]
  Ok.header_type.Bridge.memory_limit = @0x22[0+:16]
  Ok.header_type.Bridge.prefetchable_memory = match (@0x24[0+:4] << 4 | @0x26[0+:4]) {
      0: (@0x24[0+:16] == 0 && @0x26[0+:16] == 0 ? NotImplemented : MemAddr32), 0x11: MemAddr64, _: (@0x24[0+:4] == @0x26[0+:4] ? Reserved : Malformed) }
  Ok.header_type.Bridge.prefetchable_memory.{Reserved,Malformed}.base = @0x24[0+:16]
  Ok.header_type.Bridge.prefetchable_memory.Reserved.limit = @0x26[0+:16]
  Ok.header_type.Bridge.prefetchable_memory.Malformed.limit = @0x26[0+:16]
  Ok.header_type.Bridge.prefetchable_memory.MemAddr64.base = @0x24[4+:12] << 20 | @0x28[0+:32] << 32
  Ok.header_type.Bridge.prefetchable_memory.MemAddr64.limit = @0x26[4+:12] << 20 | @0x2c[0+:32] << 32
  Ok.header_type.Bridge.prefetchable_memory.MemAddr32.base = @0x24[4+:12] << 20
  Ok.header_type.Bridge.prefetchable_memory.MemAddr32.limit = @0x26[4+:12] << 20
  Ok.header_type.Bridge.expansion_rom.address = @0x39[3+:21] << 11
  Ok.header_type.Bridge.expansion_rom.reserved = @0x38[1+:10]
  Ok.header_type.Bridge.expansion_rom.is_enabled = @0x38.0
  Ok.header_type.Bridge.bridge_control.vga_16_enable = @0x3e.4
  Ok.header_type.Bridge.bridge_control.secondary_bus_reset = @0x3e.6
  Ok.header_type.Bridge.bridge_control.fast_back_to_back_enable = @0x3e.7
  Ok.header_type.Bridge.bridge_control.primary_discard_timer = @0x3f.0
  Ok.header_type.Bridge.bridge_control.secondary_discard_timer = @0x3f.1
  Ok.header_type.Bridge.bridge_control.discard_timer_status = @0x3f.2
  Ok.header_type.Bridge.bridge_control.discard_timer_serr_enable = @0x3f.3
  Ok.header_type.Normal.base_addresses.[2] = @0x18[0+:32]
  Ok.header_type.Normal.base_addresses.[3] = @0x1c[0+:32]
  Ok.header_type.Normal.base_addresses.[4] = @0x20[0+:32]
  Ok.header_type.Normal.base_addresses.[5] = @0x24[0+:32]
  Ok.header_type.Normal.cardbus_cis_pointer = @0x28[0+:32]
  Ok.header_type.Normal.sub_vendor_id = @0x2c[0+:16]
  Ok.header_type.Normal.sub_device_id = @0x2e[0+:16]
  Ok.header_type.Normal.expansion_rom.address = @0x31[3+:21] << 11
  Ok.header_type.Normal.expansion_rom.reserved = @0x30[1+:10]
  Ok.header_type.Normal.expansion_rom.is_enabled = @0x30.0
  Ok.header_type.Normal.min_grant = @0x3e[0+:8]
  Ok.header_type.Normal.max_latency = @0x3f[0+:8]
  Ok.bist.is_capable = @0xf.7
  Ok.bist.is_running = @0xf.6
  Ok.bist.completion_code = @0xf[0+:4]
  Ok.capabilities_pointer = match @0xe[0+:7] { 0|1: @0x34[2+:6] << 2, 2: @0x14[2+:6] << 2, _: 0 }
  Ok.interrupt_line = match @0xe[0+:7] { 0|1|2: @0x3c[0+:8], _: 0 }
  Ok.interrupt_pin = match @0xe[0+:7] { 0|1|2: match @0x3d[0+:8] { 0: Unused, 1: IntA, 2: IntB, 3: IntC, 4: IntD, _: Reserved }, _: Unused }
  Ok.interrupt_pin.Reserved = @0x3d[0+:8]
