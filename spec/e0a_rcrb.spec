root root_e0a_rcrb : C23 C02
  src src/extended_capabilities/root_complex_register_block_header.rs
  . = len < 20 ? Err : Ok
  Ok.vendor_id = @0x4[0+:16]
  Ok.device_id = @0x6[0+:16]
  Ok.rcrb_capabilities.crs_software_visibility = @0x8.0
  Ok.rcrb_control.crs_software_visibility_enable = @0xc.0
