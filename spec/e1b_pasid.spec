root root_e1b_pasid : C19 C02
  src src/extended_capabilities/process_address_space_id.rs
  . = len < 4 ? Err : Ok
  Ok.pacid_capability.execute_permission_supported = @0x0.1
  Ok.pacid_capability.privileged_mode_supported = @0x0.2
  Ok.pacid_capability.max_pasid_width = @0x1[0+:5]
  Ok.pacid_control.pasid_enable = @0x2.0
  Ok.pacid_control.execute_permission_enable = @0x2.1
  Ok.pacid_control.privileged_mode_enable = @0x2.2
