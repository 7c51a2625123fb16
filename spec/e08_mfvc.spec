root root_e08_mfvc : C18 C02
  src src/extended_capabilities/multifunction_virtual_channel.rs
  order @b.0:8<<4 @13.0:8<<4 @1f.0:8<<4
  let sel = @0xc[1+:3]
  let tab = match sel { 1: 16, 2: 32, 3: 64, _: 0 }
  let at = @0xb << 4
  . = len < 16 ? Err : @0xb == 0 ? Ok : @0xb == 1 ? Err : len < at ? Err : len < at + tab ? Err : Ok
  Err = len < 16 ? PortVcData : @0xb == 1 ? VcArbitrationTableOffset : len < at ? VcArbitrationTableData : VcArbitrationTableLength
  Err.VcArbitrationTableLength.expected = tab
  Err.VcArbitrationTableLength.real = len - at
  Ok.port_vc_capability_1.extended_vc_count = @0x4[0+:3]
  Ok.port_vc_capability_1.low_priority_extended_vc_count = @0x4[4+:3]
  Ok.port_vc_capability_1.reference_clock = match @0x5[0+:2] { 0: Rc100ns, _: Reserved }
  Ok.port_vc_capability_1.reference_clock.Reserved = @0x5[0+:2]
  Ok.port_vc_capability_1.function_arbitration_table_entry_size = @0x5[2+:2]
  Ok.port_vc_capability_2.vc_arbitration_capability.hardware_fixed_arbitration = @0x8.0
  Ok.port_vc_capability_2.vc_arbitration_capability.wrr_32_phases = @0x8.1
  Ok.port_vc_capability_2.vc_arbitration_capability.wrr_64_phases = @0x8.2
  Ok.port_vc_capability_2.vc_arbitration_capability.wrr_128_phases = @0x8.3
  Ok.port_vc_capability_2.vc_arbitration_capability.reserved = @0x8[4+:4]
  Ok.port_vc_capability_2.vc_arbitration_table_offset = @0xb
  Ok.port_vc_control.load_vc_arbitration_table = @0xc.0
  Ok.port_vc_control.vc_arbitration_select = match sel { 0: HardwareFixedArbitration, 1: Wrr32phases, 2: Wrr64phases, 3: Wrr128phases, _: Reserved }
  Ok.port_vc_control.vc_arbitration_select.Reserved = sel
  Ok.port_vc_status.vc_arbitration_table_status = @0xe.0
  Ok.vc_arbitration_table = @0xb == 0 ? None : Some
  Ok.vc_arbitration_table.Some.{#0,#1,#2} = tab == 0 ? None : Some
  Ok.vc_arbitration_table.Some.#0.Some.vc_id = byte(at) & 7
  Ok.vc_arbitration_table.Some.#1.Some.vc_id = (byte(at) >> 4) & 7
  let eb = 1 << @0x5[2+:2]
  let em = (1 << eb) - 1
  let fo0 = @0x13 << 4
  let fs0 = @0x16[1+:3]
  let fl0 = (match fs0 { 1: 4, 2: 8, 3|4: 16, 5: 32, _: 0 }) << @0x5[2+:2]
  Ok.extended_virtual_channels.#0 = len < 28 ? None : Some
  Ok.extended_virtual_channels.#0.Some.vc_resource_capability.function_arbitration_capability.hardware_fixed_arbitration = @0x10.0
  Ok.extended_virtual_channels.#0.Some.vc_resource_capability.function_arbitration_capability.wrr_32_phases = @0x10.1
  Ok.extended_virtual_channels.#0.Some.vc_resource_capability.function_arbitration_capability.wrr_64_phases = @0x10.2
  Ok.extended_virtual_channels.#0.Some.vc_resource_capability.function_arbitration_capability.wrr_128_phases = @0x10.3
  Ok.extended_virtual_channels.#0.Some.vc_resource_capability.function_arbitration_capability.time_based_wrr_128_phases = @0x10.4
  Ok.extended_virtual_channels.#0.Some.vc_resource_capability.function_arbitration_capability.wrr_256_phases = @0x10.5
  Ok.extended_virtual_channels.#0.Some.vc_resource_capability.function_arbitration_capability.reserved = @0x10[6+:2]
  Ok.extended_virtual_channels.#0.Some.vc_resource_capability.maximum_time_slots = @0x12[0+:7]
  Ok.extended_virtual_channels.#0.Some.vc_resource_capability.function_arbitration_table_offset = @0x13
  Ok.extended_virtual_channels.#0.Some.vc_resource_control.tc_to_vc_map = @0x14
  Ok.extended_virtual_channels.#0.Some.vc_resource_control.load_function_arbitration_table = @0x16.0
  Ok.extended_virtual_channels.#0.Some.vc_resource_control.function_arbitration_select = match fs0 { 0: HardwareFixedArbitration, 1: Wrr32phases, 2: Wrr64phases,
      3: Wrr128phases, 4: TimeBasedWrr128phases, 5: Wrr256phases, _: Reserved }
  Ok.extended_virtual_channels.#0.Some.vc_resource_control.function_arbitration_select.Reserved = fs0
  Ok.extended_virtual_channels.#0.Some.vc_resource_control.vc_id = @0x17[0+:3]
  Ok.extended_virtual_channels.#0.Some.vc_resource_control.vc_enable = @0x17.7
  Ok.extended_virtual_channels.#0.Some.vc_resource_status.function_arbitration_table_status = @0x1a.0
  Ok.extended_virtual_channels.#0.Some.vc_resource_status.vc_negotiation_pending = @0x1a.1
  Ok.extended_virtual_channels.#0.Some.function_arbitration_table = @0x13 < 2 ? None : len < fo0 + fl0 ? None : Some
  Ok.extended_virtual_channels.#0.Some.function_arbitration_table.Some.{#0,#1,#2} = fl0 == 0 ? None : Some
  Ok.extended_virtual_channels.#0.Some.function_arbitration_table.Some.#0.Some = byte(fo0) & em
  Ok.extended_virtual_channels.#0.Some.function_arbitration_table.Some.#1.Some = eb == 8 ? byte(fo0 + 1) : (byte(fo0) >> eb) & em
  let fo1 = @0x1f << 4
  let fs1 = @0x22[1+:3]
  let fl1 = (match fs1 { 1: 4, 2: 8, 3|4: 16, 5: 32, _: 0 }) << @0x5[2+:2]
  Ok.extended_virtual_channels.#1 = @0x4[0+:3] < 1 ? None : len < 40 ? None : Some
  Ok.extended_virtual_channels.#1.Some.vc_resource_capability.function_arbitration_capability.hardware_fixed_arbitration = @0x1c.0
  Ok.extended_virtual_channels.#1.Some.vc_resource_capability.function_arbitration_capability.wrr_32_phases = @0x1c.1
  Ok.extended_virtual_channels.#1.Some.vc_resource_capability.function_arbitration_capability.wrr_64_phases = @0x1c.2
  Ok.extended_virtual_channels.#1.Some.vc_resource_capability.function_arbitration_capability.wrr_128_phases = @0x1c.3
  Ok.extended_virtual_channels.#1.Some.vc_resource_capability.function_arbitration_capability.time_based_wrr_128_phases = @0x1c.4
  Ok.extended_virtual_channels.#1.Some.vc_resource_capability.function_arbitration_capability.wrr_256_phases = @0x1c.5
  Ok.extended_virtual_channels.#1.Some.vc_resource_capability.function_arbitration_capability.reserved = @0x1c[6+:2]
  Ok.extended_virtual_channels.#1.Some.vc_resource_capability.maximum_time_slots = @0x1e[0+:7]
  Ok.extended_virtual_channels.#1.Some.vc_resource_capability.function_arbitration_table_offset = @0x1f
  Ok.extended_virtual_channels.#1.Some.vc_resource_control.tc_to_vc_map = @0x20
  Ok.extended_virtual_channels.#1.Some.vc_resource_control.load_function_arbitration_table = @0x22.0
  Ok.extended_virtual_channels.#1.Some.vc_resource_control.function_arbitration_select = match fs1 { 0: HardwareFixedArbitration, 1: Wrr32phases, 2: Wrr64phases,
      3: Wrr128phases, 4: TimeBasedWrr128phases, 5: Wrr256phases, _: Reserved }
  Ok.extended_virtual_channels.#1.Some.vc_resource_control.function_arbitration_select.Reserved = fs1
  Ok.extended_virtual_channels.#1.Some.vc_resource_control.vc_id = @0x23[0+:3]
  Ok.extended_virtual_channels.#1.Some.vc_resource_control.vc_enable = @0x23.7
  Ok.extended_virtual_channels.#1.Some.vc_resource_status.function_arbitration_table_status = @0x26.0
  Ok.extended_virtual_channels.#1.Some.vc_resource_status.vc_negotiation_pending = @0x26.1
  Ok.extended_virtual_channels.#1.Some.function_arbitration_table = @0x1f < 2 ? None : len < fo1 + fl1 ? None : Some
  Ok.extended_virtual_channels.#1.Some.function_arbitration_table.Some.{#0,#1,#2} = fl1 == 0 ? None : Some
  Ok.extended_virtual_channels.#1.Some.function_arbitration_table.Some.#0.Some = byte(fo1) & em
  Ok.extended_virtual_channels.#1.Some.function_arbitration_table.Some.#1.Some = eb == 8 ? byte(fo1 + 1) : (byte(fo1) >> eb) & em
  Ok.extended_virtual_channels.#2 = @0x4[0+:3] < 2 ? None : len < 52 ? None : Some
