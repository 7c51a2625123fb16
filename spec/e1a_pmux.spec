root root_e1a_pmux : C25 C02
  src src/extended_capabilities/protocol_multiplexing.rs
  . = len < 16 ? Err : len < 16 + 4 * @0x4[0+:6] ? Err : Ok
  Ok.pmux_capability.pmux_protocol_array_size = @0x4[0+:6]
  Ok.pmux_capability.pmux_supported_link_speeds.speed_2_5_gtps = @0x5.0
  Ok.pmux_capability.pmux_supported_link_speeds.speed_5_0_gtps = @0x5.1
  Ok.pmux_capability.pmux_supported_link_speeds.speed_8_0_gtps = @0x5.2
  Ok.pmux_capability.pmux_supported_link_speeds.speed_16_0_gtps = @0x5.3
  Ok.pmux_control.pmux_channel_0_assignment = @0x8[0+:6]
  Ok.pmux_control.pmux_channel_1_assignment = @0x9[0+:6]
  Ok.pmux_control.pmux_channel_2_assignment = @0xa[0+:6]
  Ok.pmux_control.pmux_channel_3_assignment = @0xb[0+:6]
  Ok.pmux_status.pmux_channel_0_disabled_link_speed = @0xc.0
  Ok.pmux_status.pmux_channel_0_disabled_link_width = @0xc.1
  Ok.pmux_status.pmux_channel_0_disabled_link_protocol_specific = @0xc.2
  Ok.pmux_status.pmux_channel_1_disabled_link_speed = @0xd.0
  Ok.pmux_status.pmux_channel_1_disabled_link_width = @0xd.1
  Ok.pmux_status.pmux_channel_1_disabled_link_protocol_specific = @0xd.2
  Ok.pmux_status.pmux_channel_2_disabled_link_speed = @0xe.0
  Ok.pmux_status.pmux_channel_2_disabled_link_width = @0xe.1
  Ok.pmux_status.pmux_channel_2_disabled_link_protocol_specific = @0xe.2
  Ok.pmux_status.pmux_channel_3_disabled_link_speed = @0xf.0
  Ok.pmux_status.pmux_channel_3_disabled_link_width = @0xf.1
  Ok.pmux_status.pmux_channel_3_disabled_link_protocol_specific = @0xf.2
  Ok.pmux_protocol_array.#0 = match @0x4[0+:6] { 0: None, _: Some }
  Ok.pmux_protocol_array.#0.Some.protocol_id = @0x10[0+:16]
  Ok.pmux_protocol_array.#0.Some.authority_id = @0x12[0+:16]
  Ok.pmux_protocol_array.#1 = match @0x4[0+:6] { 1: None, _: Some }
  Ok.pmux_protocol_array.#1.Some.protocol_id = @0x14[0+:16]
  Ok.pmux_protocol_array.#1.Some.authority_id = @0x16[0+:16]
  Ok.pmux_protocol_array.#2 = match @0x4[0+:6] { 2: None, _: Some }
  Err = len < 16 ? Mandatory : PmuxProtocolArray
  Err.PmuxProtocolArray.expected = @0x4[0+:6] << 2
  Err.PmuxProtocolArray.found = len - 16
