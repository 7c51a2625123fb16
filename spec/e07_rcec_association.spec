root root_e07_rcec_association : C23 C02
  src src/extended_capabilities/root_complex_event_collector_endpoint_association.rs
  . = len < 4 ? Err : Ok
  Ok.association_bitmap_for_rcieps = @0x0[0+:32]
