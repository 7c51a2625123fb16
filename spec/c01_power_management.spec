root root_c01_power_management : C13 C02
  src src/capabilities/power_management_interface.rs
  . = len < 6 ? Err : Ok
  Ok.capabilities.version = @0x0[0+:3]
  Ok.capabilities.pme_clock = @0x0.3
  Ok.capabilities.immediate_readiness_on_return_to_d0 = @0x0.4
  Ok.capabilities.device_specific_initialization = @0x0.5
  Ok.capabilities.aux_current = match @0x0[6+:3] { 0: SelfPowered, 1: MaxCurrent55mA, 2: MaxCurrent100mA, 3: MaxCurrent160mA,
      4: MaxCurrent220mA, 5: MaxCurrent270mA, 6: MaxCurrent320mA, 7: MaxCurrent375mA, }
  Ok.capabilities.d1_support = @0x1.1
  Ok.capabilities.d2_support = @0x1.2
  Ok.capabilities.pme_support.d0 = @0x1.3
  Ok.capabilities.pme_support.d1 = @0x1.4
  Ok.capabilities.pme_support.d2 = @0x1.5
  Ok.capabilities.pme_support.d3_hot = @0x1.6
  Ok.capabilities.pme_support.d3_cold = @0x1.7
  Ok.control.power_state = match @0x2[0+:2] { 0: D0, 1: D1, 2: D2, 3: D3Hot, }
  Ok.control.no_soft_reset = @0x2.3
  Ok.control.pme_enabled = @0x3.0
  Ok.control.data_select = match @0x3[1+:4] { 0: PowerConsumedD0, 1: PowerConsumedD1, 2: PowerConsumedD2, 3: PowerConsumedD3,
      4: PowerDissipatedD0, 5: PowerDissipatedD1, 6: PowerDissipatedD2, 7: PowerDissipatedD3, 8: CommonLogic, _: Reserved }
  Ok.control.data_select.Reserved = @0x3[1+:4]
  Ok.control.data_scale = match @0x3[5+:2] { 0: Unknown, 1: Tenth, 2: Hundredth, 3: Thousandth, }
  Ok.control.pme_status = @0x3.7
  Ok.bridge.reserved = @0x4[0+:6]
  Ok.bridge.b2_b3 = @0x4.6
  Ok.bridge.bpcc_enabled = @0x4.7
  Ok.data = @0x5[0+:8]
