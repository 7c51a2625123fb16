root root_e16_dpa : C21 C02
  src src/extended_capabilities/dynamic_power_allocation.rs
  . = len < 16 ? Err : len < 17 + @0x4[0+:5] ? Err : Ok
  Ok.dpa_capability.substate_max = @0x4[0+:5]
  Ok.dpa_capability.transition_latency_unit = match @0x5[0+:2] { 0: Unit1ms, 1: Unit10ms, 2: Unit100ms, 3: Reserved, }
  Ok.dpa_capability.power_allocation_scale = match @0x5[4+:2] { 0: Mul10, 1: Mul1_0, 2: Mul0_1, 3: Mul0_01, }
  Ok.dpa_capability.transition_latency_value_0 = @0x6[0+:8]
  Ok.dpa_capability.transition_latency_value_1 = @0x7[0+:8]
  Ok.dpa_latency_indicator = @0x8[0+:32]
  Ok.dpa_status.substate_status = @0xc[0+:5]
  Ok.dpa_status.substate_control_enabled = @0xd.0
  Ok.dpa_control.substate_control = @0xe[0+:5]
  Ok.dpa_power_allocation_array = slice(0x10, @0x4[0+:5] + 1)
  Err = len < 16 ? Mandatory : DpaAllocationArray
  Err.DpaAllocationArray.expected = @0x4[0+:5] + 1
  Err.DpaAllocationArray.found = len - 16
