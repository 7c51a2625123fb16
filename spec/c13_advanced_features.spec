root root_c13_advanced_features : C13 C02
  src src/capabilities/advanced_features.rs
  . = len < 4 ? Err : Ok
  Ok.length = @0x0[0+:8]
  Ok.capabilities.transactions_pending = @0x1.0
  Ok.capabilities.function_level_reset = @0x1.1
  Ok.control.initiate_flr = @0x2.0
  Ok.status.transactions_pending = @0x3.0
