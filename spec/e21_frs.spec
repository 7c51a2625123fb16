root root_e21_frs : C21 C02
  src src/extended_capabilities/frs_queuing.rs
  . = len < 16 ? Err : Ok
  Ok.frs_queuing_capability.frs_queue_max_depth = @0x4[0+:12]
  Ok.frs_queuing_capability.frs_interrupt_message_number = @0x6[0+:5]
  Ok.frs_queuing_status.frs_message_received = @0x8.0
  Ok.frs_queuing_status.frs_message_overflow = @0x8.1
  Ok.frs_queuing_control.frs_interrupt_enable = @0xa.0
  Ok.frs_message_queue.frs_message_queue_function_id = @0xc[0+:16]
  Ok.frs_message_queue.frs_message_queue_reason = @0xe[0+:4]
  Ok.frs_message_queue.frs_message_queue_depth = @0xe[4+:12]
