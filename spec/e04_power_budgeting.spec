root root_e04_power_budgeting : C21 C02
  src src/extended_capabilities/power_budgeting.rs
  . = len < 12 ? Err : Ok
  Ok.data_select = @0x0[0+:8]
  Ok.data.base_power = match @0x4[0+:8] { 0xf0: Gt239Le250, 0xf1: Gt250Le275, 0xf2: Gt275Le300,
      0xf3|0xf4|0xf5|0xf6|0xf7|0xf8|0xf9|0xfa|0xfb|0xfc|0xfd|0xfe|0xff: Gt300, _: Value }
  Ok.data.base_power.Value = @0x4[0+:8]
  Ok.data.data_scale = match @0x5[0+:2] { 0: One, 1: Deci, 2: Centi, 3: Milli, }
  Ok.data.pm_sub_state = match @0x5[2+:3] { 0: Default, _: Specific }
  Ok.data.pm_sub_state.Specific = @0x5[2+:3]
  Ok.data.pm_state = match @0x5[5+:2] { 0: D0, 1: D1, 2: D2, 3: D3, }
  Ok.data.operation_condition_type = @0x5.7 ? match @0x6[0+:2] { 0: Auxiliary, 1: Sustained, 2: MaximumEmergencyPowerReductionState,
      3: Maximum, } : match @0x6[0+:2] { 0: PmeAux, 1: Idle, 2: SustainedEmergencyPowerReductionState, 3: Reserved, }
  Ok.data.operation_condition_type.Reserved = 6
  Ok.data.power_rail = match @0x6[2+:3] { 0: Power12v, 1: Power3_3v, 2: Power1_5vOr1_8v, 3: Thermal, _: Reserved }
  Ok.data.power_rail.Reserved = @0x6[2+:3]
  Ok.power_budget_capability.system_allocated = @0x8.0
