root root_e06_rc_internal_link : C23 C02
  src src/extended_capabilities/root_complex_internal_link_control.rs
  . = len < 8 ? Err : Ok
  Ok.root_complex_link_capabilities.max_link_speed = match @0x0[0+:4] { 1: Rate2GTps, 2: Rate5GTps, 3: Rate8GTps, 4: Rate16GTps,
      5: Rate32GTps, 6: Rate64GTps, 7: RateRsvdp, _: Reserved }
  Ok.root_complex_link_capabilities.max_link_speed.Reserved = @0x0[0+:4]
  Ok.root_complex_link_capabilities.maximum_link_width = match @0x0[4+:6] { 1: X1, 2: X2, 4: X4, 8: X8, 0xc: X12, 0x10: X16, 0x20: X32, _: Reserved }
  Ok.root_complex_link_capabilities.maximum_link_width.Reserved = @0x0[4+:6]
  Ok.root_complex_link_capabilities.active_state_power_management_support = match @0x1[2+:2] { 0: NoAspm, 1: L0s, 2: L1, 3: L0sAndL1, }
  Ok.root_complex_link_capabilities.l0s_exit_latency = match @0x1[4+:3] { 0: Lt64ns, 1: Ge64nsAndLt128ns, 2: Ge128nsAndLt256ns,
      3: Ge256nsAndLt512ns, 4: Ge512nsAndLt1us, 5: Ge1usAndLt2us, 6: Ge2usAndLt4us, 7: Gt4ns, }
  Ok.root_complex_link_capabilities.l1_exit_latency = @0x1.7 ? match @0x2[0+:2] { 0: Ge1usAndLt2us, 1: Ge4usAndLt8us, 2: Ge16usAndLt32us,
      3: Gt64ns, } : match @0x2[0+:2] { 0: Lt1us, 1: Ge2usAndLt4us, 2: Ge8usAndLt16us, 3: Ge32usAndLt64us, }
  Ok.root_complex_link_capabilities.supported_link_speeds_vector.speed_2_5_gtps = @0x2.2
  Ok.root_complex_link_capabilities.supported_link_speeds_vector.speed_5_0_gtps = @0x2.3
  Ok.root_complex_link_capabilities.supported_link_speeds_vector.speed_8_0_gtps = @0x2.4
  Ok.root_complex_link_capabilities.supported_link_speeds_vector.speed_16_0_gtps = @0x2.5
  Ok.root_complex_link_capabilities.supported_link_speeds_vector.speed_32_0_gtps = @0x2.6
  Ok.root_complex_link_capabilities.supported_link_speeds_vector.speed_64_0_gtps = @0x2.7
  Ok.root_complex_link_capabilities.supported_link_speeds_vector.reserved = @0x3.0
  Ok.root_complex_link_control.active_state_power_management_control = match @0x4[0+:2] { 0: NoAspm, 1: L0s, 2: L1, 3: L0sAndL1, }
  Ok.root_complex_link_control.extended_synch = @0x4.7
  Ok.root_complex_link_status.current_link_speed = match @0x6[0+:4] { 1: Rate2GTps, 2: Rate5GTps, 3: Rate8GTps, 4: Rate16GTps, 5: Rate32GTps,
      6: Rate64GTps, 7: RateRsvdp, _: Reserved }
  Ok.root_complex_link_status.current_link_speed.Reserved = @0x6[0+:4]
  Ok.root_complex_link_status.negotiated_link_width = match @0x6[4+:6] { 1: X1, 2: X2, 4: X4, 8: X8, 0xc: X12, 0x10: X16, 0x20: X32, _: Reserved }
  Ok.root_complex_link_status.negotiated_link_width.Reserved = @0x6[4+:6]
