root root_e01_aer : C17 C02
  src src/extended_capabilities/advanced_error_reporting.rs
  . = @0x15.3 ? (len < 68 ? Err : Ok) : (len < 40 ? Err : Ok)
  Ok.uncorrectable_error_status.link_training_error = @0x0.0
  Ok.uncorrectable_error_status.data_link_protocol_error_status = @0x0.4
  Ok.uncorrectable_error_status.surprise_down_error_status = @0x0.5
  Ok.uncorrectable_error_status.poisoned_tlp_received_status = @0x1.4
  Ok.uncorrectable_error_status.flow_control_protocol_error_status = @0x1.5
  Ok.uncorrectable_error_status.completion_timeout_status = @0x1.6
  Ok.uncorrectable_error_status.completer_abort_status = @0x1.7
  Ok.uncorrectable_error_status.unexpected_completion_status = @0x2.0
  Ok.uncorrectable_error_status.receiver_overflow_status = @0x2.1
  Ok.uncorrectable_error_status.malformed_tlp_status = @0x2.2
  Ok.uncorrectable_error_status.ecrc_error_status = @0x2.3
  Ok.uncorrectable_error_status.unsupported_request_error_status = @0x2.4
  Ok.uncorrectable_error_status.acs_violation_status = @0x2.5
  Ok.uncorrectable_error_status.uncorrectable_internal_error_status = @0x2.6
  Ok.uncorrectable_error_status.mc_blocked_tlp_status = @0x2.7
  Ok.uncorrectable_error_status.atomicop_egress_blocked_status = @0x3.0
  Ok.uncorrectable_error_status.tlp_prefix_blocked_error_status = @0x3.1
  Ok.uncorrectable_error_status.poisoned_tlp_egress_blocked_status = @0x3.2
  Ok.uncorrectable_error_mask.link_training_error = @0x4.0
  Ok.uncorrectable_error_mask.data_link_protocol_error_status = @0x4.4
  Ok.uncorrectable_error_mask.surprise_down_error_status = @0x4.5
  Ok.uncorrectable_error_mask.poisoned_tlp_received_status = @0x5.4
  Ok.uncorrectable_error_mask.flow_control_protocol_error_status = @0x5.5
  Ok.uncorrectable_error_mask.completion_timeout_status = @0x5.6
  Ok.uncorrectable_error_mask.completer_abort_status = @0x5.7
  Ok.uncorrectable_error_mask.unexpected_completion_status = @0x6.0
  Ok.uncorrectable_error_mask.receiver_overflow_status = @0x6.1
  Ok.uncorrectable_error_mask.malformed_tlp_status = @0x6.2
  Ok.uncorrectable_error_mask.ecrc_error_status = @0x6.3
  Ok.uncorrectable_error_mask.unsupported_request_error_status = @0x6.4
  Ok.uncorrectable_error_mask.acs_violation_status = @0x6.5
  Ok.uncorrectable_error_mask.uncorrectable_internal_error_status = @0x6.6
  Ok.uncorrectable_error_mask.mc_blocked_tlp_status = @0x6.7
  Ok.uncorrectable_error_mask.atomicop_egress_blocked_status = @0x7.0
  Ok.uncorrectable_error_mask.tlp_prefix_blocked_error_status = @0x7.1
  Ok.uncorrectable_error_mask.poisoned_tlp_egress_blocked_status = @0x7.2
  Ok.uncorrectable_error_severity.link_training_error = @0x8.0
  Ok.uncorrectable_error_severity.data_link_protocol_error_status = @0x8.4
  Ok.uncorrectable_error_severity.surprise_down_error_status = @0x8.5
  Ok.uncorrectable_error_severity.poisoned_tlp_received_status = @0x9.4
  Ok.uncorrectable_error_severity.flow_control_protocol_error_status = @0x9.5
  Ok.uncorrectable_error_severity.completion_timeout_status = @0x9.6
  Ok.uncorrectable_error_severity.completer_abort_status = @0x9.7
  Ok.uncorrectable_error_severity.unexpected_completion_status = @0xa.0
  Ok.uncorrectable_error_severity.receiver_overflow_status = @0xa.1
  Ok.uncorrectable_error_severity.malformed_tlp_status = @0xa.2
  Ok.uncorrectable_error_severity.ecrc_error_status = @0xa.3
  Ok.uncorrectable_error_severity.unsupported_request_error_status = @0xa.4
  Ok.uncorrectable_error_severity.acs_violation_status = @0xa.5
  Ok.uncorrectable_error_severity.uncorrectable_internal_error_status = @0xa.6
  Ok.uncorrectable_error_severity.mc_blocked_tlp_status = @0xa.7
  Ok.uncorrectable_error_severity.atomicop_egress_blocked_status = @0xb.0
  Ok.uncorrectable_error_severity.tlp_prefix_blocked_error_status = @0xb.1
  Ok.uncorrectable_error_severity.poisoned_tlp_egress_blocked_status = @0xb.2
  Ok.correctable_error_status.receiver_error_status = @0xc.0
  Ok.correctable_error_status.bad_tlp_status = @0xc.6
  Ok.correctable_error_status.bad_dllp_status = @0xc.7
  Ok.correctable_error_status.replay_num_rollover_status = @0xd.0
  Ok.correctable_error_status.replay_timer_timeout_status = @0xd.4
  Ok.correctable_error_status.advisory_non_fatal_error_status = @0xd.5
  Ok.correctable_error_status.corrected_internal_error_status = @0xd.6
  Ok.correctable_error_status.header_log_overflow_status = @0xd.7
  Ok.correctable_error_mask.receiver_error_status = @0x10.0
  Ok.correctable_error_mask.bad_tlp_status = @0x10.6
  Ok.correctable_error_mask.bad_dllp_status = @0x10.7
  Ok.correctable_error_mask.replay_num_rollover_status = @0x11.0
  Ok.correctable_error_mask.replay_timer_timeout_status = @0x11.4
  Ok.correctable_error_mask.advisory_non_fatal_error_status = @0x11.5
  Ok.correctable_error_mask.corrected_internal_error_status = @0x11.6
  Ok.correctable_error_mask.header_log_overflow_status = @0x11.7
  Ok.advanced_error_capabilities_and_control.first_error_pointer = @0x14[0+:5]
  Ok.advanced_error_capabilities_and_control.ecrc_generation_capable = @0x14.5
  Ok.advanced_error_capabilities_and_control.ecrc_generation_enable = @0x14.6
  Ok.advanced_error_capabilities_and_control.ecrc_check_capable = @0x14.7
  Ok.advanced_error_capabilities_and_control.ecrc_check_enable = @0x15.0
  Ok.advanced_error_capabilities_and_control.multiple_header_recording_capable = @0x15.1
  Ok.advanced_error_capabilities_and_control.multiple_header_recording_enable = @0x15.2
  Ok.advanced_error_capabilities_and_control.tlp_prefix_log_present = @0x15.3
  Ok.advanced_error_capabilities_and_control.completion_timeout_prefix_or_header_log_capable = @0x15.4
  Ok.header_log.[0] = @0x18[0+:32]
  Ok.header_log.[1] = @0x1c[0+:32]
  Ok.header_log.[2] = @0x20[0+:32]
  Ok.header_log.[3] = @0x24[0+:32]
  Ok.{root_error_command,root_error_status,error_source_identification} = len < 52 ? None : Some
  Ok.root_error_command.Some.correctable_error_reporting_enable = @0x28.0
  Ok.root_error_command.Some.non_fatal_error_reporting_enable = @0x28.1
  Ok.root_error_command.Some.fatal_error_reporting_enable = @0x28.2
  Ok.root_error_status.Some.err_cor_received = @0x2c.0
  Ok.root_error_status.Some.multiple_err_cor_received = @0x2c.1
  Ok.root_error_status.Some.err_fatal_or_nonfatal_received = @0x2c.2
  Ok.root_error_status.Some.multiple_err_fatal_or_nonfatal_received = @0x2c.3
  Ok.root_error_status.Some.first_uncorrectable_fatal = @0x2c.4
  Ok.root_error_status.Some.non_fatal_error_messages_received = @0x2c.5
  Ok.root_error_status.Some.fatal_error_messages_received = @0x2c.6
  Ok.root_error_status.Some.advanced_error_interrupt_message_number = @0x2f[3+:5]
  Ok.error_source_identification.Some.err_cor_source_identification = @0x30[0+:16]
  Ok.error_source_identification.Some.err_fatal_or_nonfatal_source_identification = @0x32[0+:16]
  Ok.tlp_prefix_log = @0x15.3 ? Some : None
  Ok.tlp_prefix_log.Some.[0] = @0x34[0+:32]
  Ok.tlp_prefix_log.Some.[1] = @0x38[0+:32]
  Ok.tlp_prefix_log.Some.[2] = @0x3c[0+:32]
  Ok.tlp_prefix_log.Some.[3] = @0x40[0+:32]
  Err = len < 40 ? Common : TlpPrefixLog
