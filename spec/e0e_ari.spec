root root_e0e_ari : C19 C02
  src src/extended_capabilities/alternative_routing_id_interpolation.rs
  . = len < 4 ? Err : Ok
  Ok.ari_capability.mfvc_function_groups_capability = @0x0.0
  Ok.ari_capability.acs_function_groups_capability = @0x0.1
  Ok.ari_capability.next_function_number = @0x1[0+:8]
  Ok.ari_control.mfvc_function_groups_enable = @0x2.0
  Ok.ari_control.acs_function_groups_enable = @0x2.1
  Ok.ari_control.function_group = @0x2[4+:3]
