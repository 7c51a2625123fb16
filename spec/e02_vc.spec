root root_e02_vc : C18 C02
  src src/extended_capabilities/virtual_channel.rs
  . = len < 12 ? Err : Ok
  Ok.port_vc_capability_1.extended_vc_count = @0x0[0+:3]
  Ok.port_vc_capability_1.low_priority_extended_vc_count = @0x0[4+:3]
  Ok.port_vc_capability_1.reference_clock = match @0x1[0+:2] { 0: Rc100ns, _: Reserved }
  Ok.port_vc_capability_1.reference_clock.Reserved = @0x1[0+:2]
  Ok.port_vc_capability_1.port_arbitration_table_entry_size = match @0x1[2+:2] { 0: 1, 1: 2, 2: 4, 3: 8, }
  Ok.port_vc_capability_2.vc_arbitration_capability.hardware_fixed_arbitration = @0x4.0
  Ok.port_vc_capability_2.vc_arbitration_capability.wrr_32_phases = @0x4.1
  Ok.port_vc_capability_2.vc_arbitration_capability.wrr_64_phases = @0x4.2
  Ok.port_vc_capability_2.vc_arbitration_capability.wrr_128_phases = @0x4.3
  Ok.port_vc_capability_2.vc_arbitration_capability.reserved = @0x4[4+:4]
  Ok.port_vc_capability_2.vc_arbitration_table_offset = @0x7[0+:8]
  Ok.port_vc_control.load_vc_arbitration_table = @0x8.0
  Ok.port_vc_control.vc_arbitration_select = match @0x8[1+:3] { 0: HardwareFixedArbitration, 1: Wrr32phases, 2: Wrr64phases, 3: Wrr128phases,
      _: Reserved }
  Ok.port_vc_control.vc_arbitration_select.Reserved = @0x8[1+:3]
  Ok.port_vc_status.vc_arbitration_table_status = @0xa.0
root root_e02_vc_channel : C18 C01
  src src/extended_capabilities/virtual_channel.rs
  . = len < 24 ? None : Some
  Some = Ok
  Some.Ok.vc_resource_capability.port_arbitration_capability.hardware_fixed_arbitration = @0xc.0
  Some.Ok.vc_resource_capability.port_arbitration_capability.wrr_32_phases = @0xc.1
  Some.Ok.vc_resource_capability.port_arbitration_capability.wrr_64_phases = @0xc.2
  Some.Ok.vc_resource_capability.port_arbitration_capability.wrr_128_phases = @0xc.3
  Some.Ok.vc_resource_capability.port_arbitration_capability.time_based_wrr_128_phases = @0xc.4
  Some.Ok.vc_resource_capability.port_arbitration_capability.wrr_256_phases = @0xc.5
  Some.Ok.vc_resource_capability.port_arbitration_capability.reserved = @0xc[6+:2]
  Some.Ok.vc_resource_capability.advanced_packet_switching = @0xd.6
  Some.Ok.vc_resource_capability.reject_snoop_transactions = @0xd.7
  Some.Ok.vc_resource_capability.maximum_time_slots = @0xe[0+:7]
  Some.Ok.vc_resource_capability.port_arbitration_table_offset = @0xf
  Some.Ok.vc_resource_control.tc_or_vc_map = @0x10
  Some.Ok.vc_resource_control.load_port_arbitration_table = @0x12.0
  Some.Ok.vc_resource_control.port_arbitration_select = match @0x12[1+:3] { 0: HardwareFixedArbitration, 1: Wrr32phases, 2: Wrr64phases, 3: Wrr128phases,
      4: TimeBasedWrr128phases, 5: Wrr256phases, _: Reserved }
  Some.Ok.vc_resource_control.port_arbitration_select.Reserved = @0x12[1+:3]
  Some.Ok.vc_resource_control.vc_id = @0x13[0+:3]
  Some.Ok.vc_resource_control.vc_enable = @0x13.7
  Some.Ok.vc_resource_status.port_arbitration_table_status = @0x16.0
  Some.Ok.vc_resource_status.vc_negotiation_pending = @0x16.1
