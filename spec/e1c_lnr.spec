root root_e1c_lnr : C20 C02
  src src/extended_capabilities/ln_requester.rs
  . = len < 8 ? Err : Ok
  Ok.lnr_capability.lnr_64_supported = @0x4.0
  Ok.lnr_capability.lnr_128_supported = @0x4.1
  Ok.lnr_capability.lnr_registration_max = @0x5[0+:5]
  Ok.lnr_control.lnr_enable = @0x6.0
  Ok.lnr_control.lnr_cls = @0x6.1
  Ok.lnr_control.lnr_registration_limit = @0x7[0+:5]
