root root_e0c_cac : C23 C02
  src src/extended_capabilities/configuration_access_correlation.rs
  . = len < 8 ? Err : Ok
  Ok.device_correlation = @0x4[0+:32]
