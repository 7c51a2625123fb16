root root_e03_dsn : C23 C02
  src src/extended_capabilities/device_serial_number.rs
  . = len < 8 ? Err : Ok
  Ok.lower_dword = @0x0[0+:32]
  Ok.upper_dword = @0x4[0+:32]
