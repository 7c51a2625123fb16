root root_e22_rtr : C21 C02
  src src/extended_capabilities/readiness_time_reporting.rs
  . = len < 12 ? Err : Ok
  Ok.reset_time.value = @0x4[0+:9]
  Ok.reset_time.scale = @0x5[1+:3]
  Ok.dl_up_time.value = @0x5[4+:9]
  Ok.dl_up_time.scale = @0x6[5+:3]
  Ok.valid = @0x7.7
  Ok.flr_time.value = @0x8[0+:9]
  Ok.flr_time.scale = @0x9[1+:3]
  Ok.d3hot_to_d0_time.value = @0x9[4+:9]
  Ok.d3hot_to_d0_time.scale = @0xa[5+:3]
