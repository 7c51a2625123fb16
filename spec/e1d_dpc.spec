root root_e1d_dpc : C17 C02
  src src/extended_capabilities/downstream_port_containment.rs
  . = @0x0.5 ? (match @0x1[0+:4] { 0|1|2|3|4: (len < 44 ? Err : Ok), 5: (len < 48 ? Err : Ok), 6: (len < 52 ? Err : Ok),
      7: (len < 56 ? Err : Ok), 8: (len < 60 ? Err : Ok), _: (len < 64 ? Err : Ok) }) : (len < 8 ? Err : Ok)
  Ok.dpc_capability.dpc_interrupt_message_number = @0x0[0+:5]
  Ok.dpc_capability.rp_extensions_for_dpc = @0x0.5
  Ok.dpc_capability.poisoned_tlp_egress_blocking_supported = @0x0.6
  Ok.dpc_capability.dpc_software_triggering_supported = @0x0.7
  Ok.dpc_capability.rp_pio_log_size = @0x1[0+:4]
  Ok.dpc_capability.dl_active_err_cor_signaling_supported = @0x1.4
  Ok.dpc_control.dpc_trigger_enable = match @0x2[0+:2] { 0: Disabled, 1: ErrFatalMessage, 2: ErrNonFatalMessage, 3: Reserved, }
  Ok.dpc_control.dpc_completion_control = @0x2.2
  Ok.dpc_control.dpc_interrupt_enable = @0x2.3
  Ok.dpc_control.dpc_err_cor_enable = @0x2.4
  Ok.dpc_control.poisoned_tlp_egress_blocking_enable = @0x2.5
  Ok.dpc_control.dpc_software_trigger = @0x2.6
  Ok.dpc_control.dl_active_err_cor_enable = @0x2.7
  Ok.dpc_status.dpc_trigger_status = @0x4.0
  Ok.dpc_status.dpc_trigger_reason = match @0x4[1+:2] { 0: UnmaskedUncorrectableError, 1: ReceivingAnErrNonFatal, 2: ReceivingAnErrFatal,
      3: match @0x4[5+:2] { 0: RpPioError, 1: DpcSoftwareTriggerBit, _: Reserved }, }
  Ok.dpc_status.dpc_trigger_reason.Reserved = @0x4[5+:2]
  Ok.dpc_status.dpc_interrupt_status = @0x4.3
  Ok.dpc_status.dpc_rp_busy = @0x4.4
  Ok.dpc_status.rp_pio_first_error_pointer = @0x5[0+:5]
  Ok.dpc_error_source_id = @0x6[0+:16]
  Ok.rp_extensions = @0x0.5 ? Some : None
  Ok.rp_extensions.Some.rp_pio_status.cfg_ur_cpl = @0x8.0
  Ok.rp_extensions.Some.rp_pio_status.cfg_ca_cpl = @0x8.1
  Ok.rp_extensions.Some.rp_pio_status.cfg_cto = @0x8.2
  Ok.rp_extensions.Some.rp_pio_status.io_ur_cpl = @0x9.0
  Ok.rp_extensions.Some.rp_pio_status.io_ca_cpl = @0x9.1
  Ok.rp_extensions.Some.rp_pio_status.io_cto = @0x9.2
  Ok.rp_extensions.Some.rp_pio_status.mem_ur_cpl = @0xa.0
  Ok.rp_extensions.Some.rp_pio_status.mem_ca_cpl = @0xa.1
  Ok.rp_extensions.Some.rp_pio_status.mem_cto = @0xa.2
  Ok.rp_extensions.Some.rp_pio_mask.cfg_ur_cpl = @0xc.0
  Ok.rp_extensions.Some.rp_pio_mask.cfg_ca_cpl = @0xc.1
  Ok.rp_extensions.Some.rp_pio_mask.cfg_cto = @0xc.2
  Ok.rp_extensions.Some.rp_pio_mask.io_ur_cpl = @0xd.0
  Ok.rp_extensions.Some.rp_pio_mask.io_ca_cpl = @0xd.1
  Ok.rp_extensions.Some.rp_pio_mask.io_cto = @0xd.2
  Ok.rp_extensions.Some.rp_pio_mask.mem_ur_cpl = @0xe.0
  Ok.rp_extensions.Some.rp_pio_mask.mem_ca_cpl = @0xe.1
  Ok.rp_extensions.Some.rp_pio_mask.mem_cto = @0xe.2
  Ok.rp_extensions.Some.rp_pio_severity.cfg_ur_cpl = @0x10.0
  Ok.rp_extensions.Some.rp_pio_severity.cfg_ca_cpl = @0x10.1
  Ok.rp_extensions.Some.rp_pio_severity.cfg_cto = @0x10.2
  Ok.rp_extensions.Some.rp_pio_severity.io_ur_cpl = @0x11.0
  Ok.rp_extensions.Some.rp_pio_severity.io_ca_cpl = @0x11.1
  Ok.rp_extensions.Some.rp_pio_severity.io_cto = @0x11.2
  Ok.rp_extensions.Some.rp_pio_severity.mem_ur_cpl = @0x12.0
  Ok.rp_extensions.Some.rp_pio_severity.mem_ca_cpl = @0x12.1
  Ok.rp_extensions.Some.rp_pio_severity.mem_cto = @0x12.2
  Ok.rp_extensions.Some.rp_pio_syserr.cfg_ur_cpl = @0x14.0
  Ok.rp_extensions.Some.rp_pio_syserr.cfg_ca_cpl = @0x14.1
  Ok.rp_extensions.Some.rp_pio_syserr.cfg_cto = @0x14.2
  Ok.rp_extensions.Some.rp_pio_syserr.io_ur_cpl = @0x15.0
  Ok.rp_extensions.Some.rp_pio_syserr.io_ca_cpl = @0x15.1
  Ok.rp_extensions.Some.rp_pio_syserr.io_cto = @0x15.2
  Ok.rp_extensions.Some.rp_pio_syserr.mem_ur_cpl = @0x16.0
  Ok.rp_extensions.Some.rp_pio_syserr.mem_ca_cpl = @0x16.1
  Ok.rp_extensions.Some.rp_pio_syserr.mem_cto = @0x16.2
  Ok.rp_extensions.Some.rp_pio_exception.cfg_ur_cpl = @0x18.0
  Ok.rp_extensions.Some.rp_pio_exception.cfg_ca_cpl = @0x18.1
  Ok.rp_extensions.Some.rp_pio_exception.cfg_cto = @0x18.2
  Ok.rp_extensions.Some.rp_pio_exception.io_ur_cpl = @0x19.0
  Ok.rp_extensions.Some.rp_pio_exception.io_ca_cpl = @0x19.1
  Ok.rp_extensions.Some.rp_pio_exception.io_cto = @0x19.2
  Ok.rp_extensions.Some.rp_pio_exception.mem_ur_cpl = @0x1a.0
  Ok.rp_extensions.Some.rp_pio_exception.mem_ca_cpl = @0x1a.1
  Ok.rp_extensions.Some.rp_pio_exception.mem_cto = @0x1a.2
  Ok.rp_extensions.Some.rp_pio_header_log.[0] = @0x1c[0+:32]
  Ok.rp_extensions.Some.rp_pio_header_log.[1] = @0x20[0+:32]
  Ok.rp_extensions.Some.rp_pio_header_log.[2] = @0x24[0+:32]
  Ok.rp_extensions.Some.rp_pio_header_log.[3] = @0x28[0+:32]
  Ok.rp_extensions.Some.rp_pio_impspec_log = match @0x1[0+:4] { 0|1|2|3|4: None, _: Some }
  Ok.rp_extensions.Some.rp_pio_impspec_log.Some = @0x2c[0+:32]
  Ok.rp_extensions.Some.rp_pio_tlp_prefix_log = match @0x1[0+:4] { 0|1|2|3|4|5: None, _: Some }
  Ok.rp_extensions.Some.rp_pio_tlp_prefix_log.Some.[0] = @0x30[0+:32]
  Ok.rp_extensions.Some.rp_pio_tlp_prefix_log.Some.[1] = match @0x1[0+:4] { 6: 0, _: @0x34[0+:32] }
  Ok.rp_extensions.Some.rp_pio_tlp_prefix_log.Some.[2] = @0x1.3 ? @0x38[0+:32] : 0
  Ok.rp_extensions.Some.rp_pio_tlp_prefix_log.Some.[3] = match @0x1[0+:4] { 6|7|8: 0, _: @0x3c[0+:32] }
  Err = len < 8 ? Mandatory : len < 44 ? RpExtensions : len < 48 ? RpPioImpspecLog : RpPioTlpPrefixLog
  Err.RpPioTlpPrefixLog.number = (len - 48) >> 2
