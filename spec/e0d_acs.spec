root root_e0d_acs : C19 C02
  src src/extended_capabilities/access_control_services.rs
  . = len < 4 ? Err : Ok
  Ok.acs_capability.acs_source_validation = @0x0.0
  Ok.acs_capability.acs_translation_blocking = @0x0.1
  Ok.acs_capability.acs_p2p_request_redirect = @0x0.2
  Ok.acs_capability.acs_p2p_completion_redirect = @0x0.3
  Ok.acs_capability.acs_upstream_forwarding = @0x0.4
  Ok.acs_capability.acs_p2p_egress_control = @0x0.5
  Ok.acs_capability.acs_direct_translated_p2p = @0x0.6
  Ok.acs_capability.egress_control_vector_size = @0x1[0+:8]
  Ok.acs_control.acs_source_validation_enable = @0x2.0
  Ok.acs_control.acs_translation_blocking_enable = @0x2.1
  Ok.acs_control.acs_p2p_request_redirect_enable = @0x2.2
  Ok.acs_control.acs_p2p_completion_redirect_enable = @0x2.3
  Ok.acs_control.acs_upstream_forwarding_enable = @0x2.4
  Ok.acs_control.acs_p2p_egress_control_enable = @0x2.5
  Ok.acs_control.acs_direct_translated_p2p_enable = @0x2.6
