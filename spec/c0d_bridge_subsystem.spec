root root_c0d_bridge_subsystem : C13 C02
  src src/capabilities/bridge_subsystem_vendor_id.rs
  . = len < 6 ? Err : Ok
  Ok.reserved = @0x0[0+:16]
  Ok.subsystem_vendor_id = @0x2[0+:16]
  Ok.subsystem_id = @0x4[0+:16]
