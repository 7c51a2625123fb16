root root_c0a_debug_port : C13 C02
  src src/capabilities/debug_port.rs
  . = len < 2 ? Err : Ok
  Ok.offset = @0x0[0+:13]
  Ok.bar_number = @0x1[5+:3]
