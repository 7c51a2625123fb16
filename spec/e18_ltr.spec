root root_e18_ltr : C21 C02
  src src/extended_capabilities/latency_tolerance_reporting.rs
  . = len < 4 ? Err : Ok
  Ok.max_snoop_latency.value = @0x0[0+:10]
  Ok.max_snoop_latency.scale = @0x1[2+:3]
  Ok.max_no_snoop_latency.value = @0x2[0+:10]
  Ok.max_no_snoop_latency.scale = @0x3[2+:3]
