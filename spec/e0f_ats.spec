root root_e0f_ats : C19 C02
  src src/extended_capabilities/address_translation_services.rs
  . = len < 4 ? Err : Ok
  Ok.ats_capability.invalidate_queue_depth = @0x0[0+:5]
  Ok.ats_capability.page_aligned_request = @0x0.5
  Ok.ats_capability.global_invalidate_supported = @0x0.6
  Ok.ats_control.smallest_translation_unit = @0x2[0+:5]
  Ok.ats_control.enable = @0x3.7
