root root_c08_hypertransport : C14 C02
  src src/capabilities/hypertransport.rs
  . = match @0x1[3+:5] { 0|1|2|3: (len < 26 ? Err : Ok), 4|5|6|7: (len < 22 ? Err : Ok), 0x15: (len < 10 ? Err : Ok), _: (len < 2 ? Err : Ok) }
  Ok = match @0x1[3+:5] { 0|1|2|3: SlaveOrPrimaryInterface, 4|5|6|7: HostOrSecondaryInterface, 8: Switch, 9: ReservedHost,
      0x10: InterruptDiscoveryAndConfiguration, 0x11: RevisionId, 0x12: UnitIdClumping, 0x13: ExtendedConfigurationSpaceAccess,
      0x14: AddressMapping, 0x15: MsiMapping, 0x16: DirectRoute, 0x17: VCSet, 0x18: RetryMode, 0x19: X86Encoding, 0x1a: Gen3,
      0x1b: FunctionLevelExtension, 0x1c: PowerManagement, 0x1d: HighNodeCount, _: Reserved }
  Ok.Reserved = @0x1[3+:5]
  Ok.MsiMapping.enabled = @0x0.0
  Ok.MsiMapping.fixed = @0x0.1
  Ok.MsiMapping.base_address_lower = @0x2[0+:32]
  Ok.MsiMapping.base_address_upper = @0x6[0+:32]
  Ok.RevisionId.minor = @0x0[0+:5]
  Ok.RevisionId.major = @0x0[5+:3]
  Ok.HostOrSecondaryInterface.command.warm_reset = @0x0.0
  Ok.HostOrSecondaryInterface.command.double_ended = @0x0.1
  Ok.HostOrSecondaryInterface.command.device_number = @0x0[2+:5]
  Ok.HostOrSecondaryInterface.command.chain_side = @0x0.7
  Ok.HostOrSecondaryInterface.command.host_hide = @0x1.0
  Ok.HostOrSecondaryInterface.command.act_as_slave = @0x1.2
  Ok.HostOrSecondaryInterface.command.host_inbound_end_of_chain_error = @0x1.3
  Ok.{HostOrSecondaryInterface,SlaveOrPrimaryInterface}.command.drop_on_uninitialized_link = @0x1.4
  Ok.HostOrSecondaryInterface.link_control.source_id_enable = @0x2.0
  Ok.HostOrSecondaryInterface.link_control.crc_flood_enable = @0x2.1
  Ok.HostOrSecondaryInterface.link_control.crc_start_test = @0x2.2
  Ok.HostOrSecondaryInterface.link_control.crc_force_error = @0x2.3
  Ok.HostOrSecondaryInterface.link_control.link_failure = @0x2.4
  Ok.HostOrSecondaryInterface.link_control.initialization_complete = @0x2.5
  Ok.HostOrSecondaryInterface.link_control.end_of_chain = @0x2.6
  Ok.HostOrSecondaryInterface.link_control.transmitter_off = @0x2.7
  Ok.HostOrSecondaryInterface.link_control.crc_error = @0x3[0+:4]
  Ok.HostOrSecondaryInterface.link_control.isochronous_flow_control_enable = @0x3.4
  Ok.HostOrSecondaryInterface.link_control.ldtstop_tristate_enable = @0x3.5
  Ok.HostOrSecondaryInterface.link_control.extended_ctl_time = @0x3.6
  Ok.HostOrSecondaryInterface.link_control.enable_64_bit_addressing = @0x3.7
  Ok.HostOrSecondaryInterface.link_config.max_link_width_in = match @0x4[0+:3] { 0: Width8bits, 1: Width16bits, 3: Width32bits,
      4: Width2bits, 5: Width4bits, 7: NotConnected, _: Reserved }
  Ok.HostOrSecondaryInterface.link_config.max_link_width_in.Reserved = @0x4[0+:3]
  Ok.HostOrSecondaryInterface.link_config.doubleword_flow_control_in = @0x4.3
  Ok.HostOrSecondaryInterface.link_config.max_link_width_out = match @0x4[4+:3] { 0: Width8bits, 1: Width16bits, 3: Width32bits,
      4: Width2bits, 5: Width4bits, 7: NotConnected, _: Reserved }
  Ok.HostOrSecondaryInterface.link_config.max_link_width_out.Reserved = @0x4[4+:3]
  Ok.HostOrSecondaryInterface.link_config.doubleword_flow_control_out = @0x4.7
  Ok.HostOrSecondaryInterface.link_config.link_width_in = match @0x5[0+:3] { 0: Width8bits, 1: Width16bits, 3: Width32bits, 4: Width2bits,
      5: Width4bits, 7: NotConnected, _: Reserved }
  Ok.HostOrSecondaryInterface.link_config.link_width_in.Reserved = @0x5[0+:3]
  Ok.HostOrSecondaryInterface.link_config.doubleword_flow_control_in_enable = @0x5.3
  Ok.HostOrSecondaryInterface.link_config.link_width_out = match @0x5[4+:3] { 0: Width8bits, 1: Width16bits, 3: Width32bits, 4: Width2bits,
      5: Width4bits, 7: NotConnected, _: Reserved }
  Ok.HostOrSecondaryInterface.link_config.link_width_out.Reserved = @0x5[4+:3]
  Ok.HostOrSecondaryInterface.link_config.doubleword_flow_control_out_enable = @0x5.7
  Ok.HostOrSecondaryInterface.revision_id.minor = @0x6[0+:5]
  Ok.HostOrSecondaryInterface.revision_id.major = @0x6[5+:3]
  Ok.HostOrSecondaryInterface.link_freq = @0x7[0+:4]
  Ok.HostOrSecondaryInterface.link_error.protocol_error = @0x7.4
  Ok.HostOrSecondaryInterface.link_error.overflow_error = @0x7.5
  Ok.HostOrSecondaryInterface.link_error.end_of_chain_error = @0x7.6
  Ok.HostOrSecondaryInterface.link_error.ctl_timeout = @0x7.7
  Ok.HostOrSecondaryInterface.link_freq_cap.supports_200mhz = @0x8.0
  Ok.HostOrSecondaryInterface.link_freq_cap.supports_300mhz = @0x8.1
  Ok.HostOrSecondaryInterface.link_freq_cap.supports_400mhz = @0x8.2
  Ok.HostOrSecondaryInterface.link_freq_cap.supports_500mhz = @0x8.3
  Ok.HostOrSecondaryInterface.link_freq_cap.supports_600mhz = @0x8.4
  Ok.HostOrSecondaryInterface.link_freq_cap.supports_800mhz = @0x8.5
  Ok.HostOrSecondaryInterface.link_freq_cap.supports_1000mhz = @0x8.6
  Ok.HostOrSecondaryInterface.link_freq_cap.supports_1200mhz = @0x8.7
  Ok.HostOrSecondaryInterface.link_freq_cap.supports_1400mhz = @0x9.0
  Ok.HostOrSecondaryInterface.link_freq_cap.supports_1600mhz = @0x9.1
  Ok.HostOrSecondaryInterface.link_freq_cap.supports_1800mhz = @0x9.2
  Ok.HostOrSecondaryInterface.link_freq_cap.supports_2000mhz = @0x9.3
  Ok.HostOrSecondaryInterface.link_freq_cap.supports_2200mhz = @0x9.4
  Ok.HostOrSecondaryInterface.link_freq_cap.supports_2400mhz = @0x9.5
  Ok.HostOrSecondaryInterface.link_freq_cap.supports_2600mhz = @0x9.6
  Ok.HostOrSecondaryInterface.link_freq_cap.supports_vendor_specific = @0x9.7
  Ok.HostOrSecondaryInterface.feature.isochronous_flow_control_mode = @0xa.0
  Ok.HostOrSecondaryInterface.feature.ldtstop = @0xa.1
  Ok.HostOrSecondaryInterface.feature.crc_test_mode = @0xa.2
  Ok.HostOrSecondaryInterface.feature.extended_ctl_time_required = @0xa.3
  Ok.HostOrSecondaryInterface.feature.qword_addressing = @0xa.4
  Ok.HostOrSecondaryInterface.feature.unitid_reorder_disable = @0xa.5
  Ok.HostOrSecondaryInterface.feature.source_identification_extension = @0xa.6
  Ok.HostOrSecondaryInterface.feature.extended_register_set = @0xb.0
  Ok.HostOrSecondaryInterface.feature.upstream_configuration_enable = @0xb.1
  Ok.HostOrSecondaryInterface.enumeration_scratchpad = @0xe[0+:16]
  Ok.HostOrSecondaryInterface.error_handling.protocol_error_flood_enable = @0x10.0
  Ok.HostOrSecondaryInterface.error_handling.overflow_error_flood_enable = @0x10.1
  Ok.HostOrSecondaryInterface.error_handling.protocol_error_fatal_enable = @0x10.2
  Ok.HostOrSecondaryInterface.error_handling.overflow_error_fatal_enable = @0x10.3
  Ok.HostOrSecondaryInterface.error_handling.end_of_chain_error_fatal_enable = @0x10.4
  Ok.HostOrSecondaryInterface.error_handling.response_error_fatal_enable = @0x10.5
  Ok.HostOrSecondaryInterface.error_handling.crc_error_fatal_enable = @0x10.6
  Ok.HostOrSecondaryInterface.error_handling.system_error_fatal_enable = @0x10.7
  Ok.HostOrSecondaryInterface.error_handling.chain_fail = @0x11.0
  Ok.HostOrSecondaryInterface.error_handling.response_error = @0x11.1
  Ok.HostOrSecondaryInterface.error_handling.protocol_error_nonfatal_enable = @0x11.2
  Ok.HostOrSecondaryInterface.error_handling.overflow_error_nonfatal_enable = @0x11.3
  Ok.HostOrSecondaryInterface.error_handling.end_of_chain_error_nonfatal_enable = @0x11.4
  Ok.HostOrSecondaryInterface.error_handling.response_error_nonfatal_enable = @0x11.5
  Ok.HostOrSecondaryInterface.error_handling.crc_error_nonfatal_enable = @0x11.6
  Ok.HostOrSecondaryInterface.error_handling.system_error_nonfatal_enable = @0x11.7
  Ok.HostOrSecondaryInterface.mem_base_upper = @0x12[0+:8]
  Ok.HostOrSecondaryInterface.mem_limit_upper = @0x13[0+:8]
  Ok.SlaveOrPrimaryInterface.command.base_unitid = @0x0[0+:5]
  Ok.SlaveOrPrimaryInterface.command.unit_count = @0x0[5+:5]
  Ok.SlaveOrPrimaryInterface.command.master_host = @0x1.2
  Ok.SlaveOrPrimaryInterface.command.default_direction = @0x1.3
  Ok.SlaveOrPrimaryInterface.link_control_0.source_id_enable = @0x2.0
  Ok.SlaveOrPrimaryInterface.link_control_0.crc_flood_enable = @0x2.1
  Ok.SlaveOrPrimaryInterface.link_control_0.crc_start_test = @0x2.2
  Ok.SlaveOrPrimaryInterface.link_control_0.crc_force_error = @0x2.3
  Ok.SlaveOrPrimaryInterface.link_control_0.link_failure = @0x2.4
  Ok.SlaveOrPrimaryInterface.link_control_0.initialization_complete = @0x2.5
  Ok.SlaveOrPrimaryInterface.link_control_0.end_of_chain = @0x2.6
  Ok.SlaveOrPrimaryInterface.link_control_0.transmitter_off = @0x2.7
  Ok.SlaveOrPrimaryInterface.link_control_0.crc_error = @0x3[0+:4]
  Ok.SlaveOrPrimaryInterface.link_control_0.isochronous_flow_control_enable = @0x3.4
  Ok.SlaveOrPrimaryInterface.link_control_0.ldtstop_tristate_enable = @0x3.5
  Ok.SlaveOrPrimaryInterface.link_control_0.extended_ctl_time = @0x3.6
  Ok.SlaveOrPrimaryInterface.link_control_0.enable_64_bit_addressing = @0x3.7
  Ok.SlaveOrPrimaryInterface.link_config_0.max_link_width_in = match @0x4[0+:3] { 0: Width8bits, 1: Width16bits, 3: Width32bits,
      4: Width2bits, 5: Width4bits, 7: NotConnected, _: Reserved }
  Ok.SlaveOrPrimaryInterface.link_config_0.max_link_width_in.Reserved = @0x4[0+:3]
  Ok.SlaveOrPrimaryInterface.link_config_0.doubleword_flow_control_in = @0x4.3
  Ok.SlaveOrPrimaryInterface.link_config_0.max_link_width_out = match @0x4[4+:3] { 0: Width8bits, 1: Width16bits, 3: Width32bits,
      4: Width2bits, 5: Width4bits, 7: NotConnected, _: Reserved }
  Ok.SlaveOrPrimaryInterface.link_config_0.max_link_width_out.Reserved = @0x4[4+:3]
  Ok.SlaveOrPrimaryInterface.link_config_0.doubleword_flow_control_out = @0x4.7
  Ok.SlaveOrPrimaryInterface.link_config_0.link_width_in = match @0x5[0+:3] { 0: Width8bits, 1: Width16bits, 3: Width32bits, 4: Width2bits,
      5: Width4bits, 7: NotConnected, _: Reserved }
  Ok.SlaveOrPrimaryInterface.link_config_0.link_width_in.Reserved = @0x5[0+:3]
  Ok.SlaveOrPrimaryInterface.link_config_0.doubleword_flow_control_in_enable = @0x5.3
  Ok.SlaveOrPrimaryInterface.link_config_0.link_width_out = match @0x5[4+:3] { 0: Width8bits, 1: Width16bits, 3: Width32bits, 4: Width2bits,
      5: Width4bits, 7: NotConnected, _: Reserved }
  Ok.SlaveOrPrimaryInterface.link_config_0.link_width_out.Reserved = @0x5[4+:3]
  Ok.SlaveOrPrimaryInterface.link_config_0.doubleword_flow_control_out_enable = @0x5.7
  Ok.SlaveOrPrimaryInterface.link_control_1.source_id_enable = @0x6.0
  Ok.SlaveOrPrimaryInterface.link_control_1.crc_flood_enable = @0x6.1
  Ok.SlaveOrPrimaryInterface.link_control_1.crc_start_test = @0x6.2
  Ok.SlaveOrPrimaryInterface.link_control_1.crc_force_error = @0x6.3
  Ok.SlaveOrPrimaryInterface.link_control_1.link_failure = @0x6.4
  Ok.SlaveOrPrimaryInterface.link_control_1.initialization_complete = @0x6.5
  Ok.SlaveOrPrimaryInterface.link_control_1.end_of_chain = @0x6.6
  Ok.SlaveOrPrimaryInterface.link_control_1.transmitter_off = @0x6.7
  Ok.SlaveOrPrimaryInterface.link_control_1.crc_error = @0x7[0+:4]
  Ok.SlaveOrPrimaryInterface.link_control_1.isochronous_flow_control_enable = @0x7.4
  Ok.SlaveOrPrimaryInterface.link_control_1.ldtstop_tristate_enable = @0x7.5
  Ok.SlaveOrPrimaryInterface.link_control_1.extended_ctl_time = @0x7.6
  Ok.SlaveOrPrimaryInterface.link_control_1.enable_64_bit_addressing = @0x7.7
  Ok.SlaveOrPrimaryInterface.link_config_1.max_link_width_in = match @0x8[0+:3] { 0: Width8bits, 1: Width16bits, 3: Width32bits,
      4: Width2bits, 5: Width4bits, 7: NotConnected, _: Reserved }
  Ok.SlaveOrPrimaryInterface.link_config_1.max_link_width_in.Reserved = @0x8[0+:3]
  Ok.SlaveOrPrimaryInterface.link_config_1.doubleword_flow_control_in = @0x8.3
  Ok.SlaveOrPrimaryInterface.link_config_1.max_link_width_out = match @0x8[4+:3] { 0: Width8bits, 1: Width16bits, 3: Width32bits,
      4: Width2bits, 5: Width4bits, 7: NotConnected, _: Reserved }
  Ok.SlaveOrPrimaryInterface.link_config_1.max_link_width_out.Reserved = @0x8[4+:3]
  Ok.SlaveOrPrimaryInterface.link_config_1.doubleword_flow_control_out = @0x8.7
  Ok.SlaveOrPrimaryInterface.link_config_1.link_width_in = match @0x9[0+:3] { 0: Width8bits, 1: Width16bits, 3: Width32bits, 4: Width2bits,
      5: Width4bits, 7: NotConnected, _: Reserved }
  Ok.SlaveOrPrimaryInterface.link_config_1.link_width_in.Reserved = @0x9[0+:3]
  Ok.SlaveOrPrimaryInterface.link_config_1.doubleword_flow_control_in_enable = @0x9.3
  Ok.SlaveOrPrimaryInterface.link_config_1.link_width_out = match @0x9[4+:3] { 0: Width8bits, 1: Width16bits, 3: Width32bits, 4: Width2bits,
      5: Width4bits, 7: NotConnected, _: Reserved }
  Ok.SlaveOrPrimaryInterface.link_config_1.link_width_out.Reserved = @0x9[4+:3]
  Ok.SlaveOrPrimaryInterface.link_config_1.doubleword_flow_control_out_enable = @0x9.7
  Ok.SlaveOrPrimaryInterface.revision_id.minor = @0xa[0+:5]
  Ok.SlaveOrPrimaryInterface.revision_id.major = @0xa[5+:3]
  Ok.SlaveOrPrimaryInterface.link_freq_0 = @0xb[0+:4]
  Ok.SlaveOrPrimaryInterface.link_error_0.protocol_error = @0xb.4
  Ok.SlaveOrPrimaryInterface.link_error_0.overflow_error = @0xb.5
  Ok.SlaveOrPrimaryInterface.link_error_0.end_of_chain_error = @0xb.6
  Ok.SlaveOrPrimaryInterface.link_error_0.ctl_timeout = @0xb.7
  Ok.SlaveOrPrimaryInterface.link_freq_cap_0.supports_200mhz = @0xc.0
  Ok.SlaveOrPrimaryInterface.link_freq_cap_0.supports_300mhz = @0xc.1
  Ok.SlaveOrPrimaryInterface.link_freq_cap_0.supports_400mhz = @0xc.2
  Ok.SlaveOrPrimaryInterface.link_freq_cap_0.supports_500mhz = @0xc.3
  Ok.SlaveOrPrimaryInterface.link_freq_cap_0.supports_600mhz = @0xc.4
  Ok.SlaveOrPrimaryInterface.link_freq_cap_0.supports_800mhz = @0xc.5
  Ok.SlaveOrPrimaryInterface.link_freq_cap_0.supports_1000mhz = @0xc.6
  Ok.SlaveOrPrimaryInterface.link_freq_cap_0.supports_1200mhz = @0xc.7
  Ok.SlaveOrPrimaryInterface.link_freq_cap_0.supports_1400mhz = @0xd.0
  Ok.SlaveOrPrimaryInterface.link_freq_cap_0.supports_1600mhz = @0xd.1
  Ok.SlaveOrPrimaryInterface.link_freq_cap_0.supports_1800mhz = @0xd.2
  Ok.SlaveOrPrimaryInterface.link_freq_cap_0.supports_2000mhz = @0xd.3
  Ok.SlaveOrPrimaryInterface.link_freq_cap_0.supports_2200mhz = @0xd.4
  Ok.SlaveOrPrimaryInterface.link_freq_cap_0.supports_2400mhz = @0xd.5
  Ok.SlaveOrPrimaryInterface.link_freq_cap_0.supports_2600mhz = @0xd.6
  Ok.SlaveOrPrimaryInterface.link_freq_cap_0.supports_vendor_specific = @0xd.7
  Ok.SlaveOrPrimaryInterface.feature.isochronous_flow_control_mode = @0xe.0
  Ok.SlaveOrPrimaryInterface.feature.ldtstop = @0xe.1
  Ok.SlaveOrPrimaryInterface.feature.crc_test_mode = @0xe.2
  Ok.SlaveOrPrimaryInterface.feature.extended_ctl_time_required = @0xe.3
  Ok.SlaveOrPrimaryInterface.feature.qword_addressing = @0xe.4
  Ok.SlaveOrPrimaryInterface.feature.unitid_reorder_disable = @0xe.5
  Ok.SlaveOrPrimaryInterface.feature.source_identification_extension = @0xe.6
  Ok.SlaveOrPrimaryInterface.feature.{extended_register_set,upstream_configuration_enable} = 0
  Ok.SlaveOrPrimaryInterface.link_freq_1 = @0xf[0+:4]
  Ok.SlaveOrPrimaryInterface.link_error_1.protocol_error = @0xf.4
  Ok.SlaveOrPrimaryInterface.link_error_1.overflow_error = @0xf.5
  Ok.SlaveOrPrimaryInterface.link_error_1.end_of_chain_error = @0xf.6
  Ok.SlaveOrPrimaryInterface.link_error_1.ctl_timeout = @0xf.7
  Ok.SlaveOrPrimaryInterface.link_freq_cap_1.supports_200mhz = @0x10.0
  Ok.SlaveOrPrimaryInterface.link_freq_cap_1.supports_300mhz = @0x10.1
  Ok.SlaveOrPrimaryInterface.link_freq_cap_1.supports_400mhz = @0x10.2
  Ok.SlaveOrPrimaryInterface.link_freq_cap_1.supports_500mhz = @0x10.3
  Ok.SlaveOrPrimaryInterface.link_freq_cap_1.supports_600mhz = @0x10.4
  Ok.SlaveOrPrimaryInterface.link_freq_cap_1.supports_800mhz = @0x10.5
  Ok.SlaveOrPrimaryInterface.link_freq_cap_1.supports_1000mhz = @0x10.6
  Ok.SlaveOrPrimaryInterface.link_freq_cap_1.supports_1200mhz = @0x10.7
  Ok.SlaveOrPrimaryInterface.link_freq_cap_1.supports_1400mhz = @0x11.0
  Ok.SlaveOrPrimaryInterface.link_freq_cap_1.supports_1600mhz = @0x11.1
  Ok.SlaveOrPrimaryInterface.link_freq_cap_1.supports_1800mhz = @0x11.2
  Ok.SlaveOrPrimaryInterface.link_freq_cap_1.supports_2000mhz = @0x11.3
  Ok.SlaveOrPrimaryInterface.link_freq_cap_1.supports_2200mhz = @0x11.4
  Ok.SlaveOrPrimaryInterface.link_freq_cap_1.supports_2400mhz = @0x11.5
  Ok.SlaveOrPrimaryInterface.link_freq_cap_1.supports_2600mhz = @0x11.6
  Ok.SlaveOrPrimaryInterface.link_freq_cap_1.supports_vendor_specific = @0x11.7
  Ok.SlaveOrPrimaryInterface.enumeration_scratchpad = @0x12[0+:16]
  Ok.SlaveOrPrimaryInterface.error_handling.protocol_error_flood_enable = @0x14.0
  Ok.SlaveOrPrimaryInterface.error_handling.overflow_error_flood_enable = @0x14.1
  Ok.SlaveOrPrimaryInterface.error_handling.protocol_error_fatal_enable = @0x14.2
  Ok.SlaveOrPrimaryInterface.error_handling.overflow_error_fatal_enable = @0x14.3
  Ok.SlaveOrPrimaryInterface.error_handling.end_of_chain_error_fatal_enable = @0x14.4
  Ok.SlaveOrPrimaryInterface.error_handling.response_error_fatal_enable = @0x14.5
  Ok.SlaveOrPrimaryInterface.error_handling.crc_error_fatal_enable = @0x14.6
  Ok.SlaveOrPrimaryInterface.error_handling.system_error_fatal_enable = @0x14.7
  Ok.SlaveOrPrimaryInterface.error_handling.chain_fail = @0x15.0
  Ok.SlaveOrPrimaryInterface.error_handling.response_error = @0x15.1
  Ok.SlaveOrPrimaryInterface.error_handling.protocol_error_nonfatal_enable = @0x15.2
  Ok.SlaveOrPrimaryInterface.error_handling.overflow_error_nonfatal_enable = @0x15.3
  Ok.SlaveOrPrimaryInterface.error_handling.end_of_chain_error_nonfatal_enable = @0x15.4
  Ok.SlaveOrPrimaryInterface.error_handling.response_error_nonfatal_enable = @0x15.5
  Ok.SlaveOrPrimaryInterface.error_handling.crc_error_nonfatal_enable = @0x15.6
  Ok.SlaveOrPrimaryInterface.error_handling.system_error_nonfatal_enable = @0x15.7
  Ok.SlaveOrPrimaryInterface.mem_base_upper = @0x16[0+:8]
  Ok.SlaveOrPrimaryInterface.mem_limit_upper = @0x17[0+:8]
  Ok.SlaveOrPrimaryInterface.bus_number = @0x18[0+:8]
  Err = match @0x1[3+:5] { 0|1|2|3: (len < 2 ? CapabilityType : SlaveOrPrimaryInterface),
      4|5|6|7: (len < 2 ? CapabilityType : HostOrSecondaryInterface), 0x15: (len < 2 ? CapabilityType : MsiMapping), _: CapabilityType }
