root root_e13_pri : C19 C02
  src src/extended_capabilities/page_request_interface.rs
  . = len < 12 ? Err : Ok
  Ok.page_request_control.enable = @0x0.0
  Ok.page_request_control.reset = @0x0.1
  Ok.page_request_status.response_failure = @0x2.0
  Ok.page_request_status.unexpected_page_request_group_index = @0x2.1
  Ok.page_request_status.stopped = @0x3.0
  Ok.page_request_status.prg_response_pasid_required = @0x3.7
  Ok.outstanding_page_request_capacity = @0x4[0+:32]
  Ok.outstanding_page_request_allocation = @0x8[0+:32]
