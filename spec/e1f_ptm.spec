root root_e1f_ptm : C21 C02
  src src/extended_capabilities/precision_time_measurement.rs
  . = len < 8 ? Err : Ok
  Ok.ptm_capability.ptm_requester_capable = @0x0.0
  Ok.ptm_capability.ptm_responder_capable = @0x0.1
  Ok.ptm_capability.ptm_root_capable = @0x0.2
  Ok.ptm_capability.local_clock_granularity = @0x1[0+:8]
  Ok.ptm_control.ptm_enable = @0x4.0
  Ok.ptm_control.root_select = @0x4.1
  Ok.ptm_control.effective_granularity = @0x5[0+:8]
