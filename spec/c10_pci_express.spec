root root_c10_pci_express : C11 C02
  src src/capabilities/pci_express.rs
  . = match @0x0[4+:4] { 4|0xa: (len < 34 ? Err : Ok), _: (len < 26 ? Err : Ok) }
  Ok.version = @0x0[0+:4]
  Ok.device_type = match @0x0[4+:4] { 0: Endpoint, 1: LegacyEndpoint, 4: RootPort, 5: UpstreamPort, 6: DownstreamPort, 7: PcieToPciBridge,
      8: PciToPcieBridge, 9: RootComplexIntegratedEndpoint, 0xa: RootComplexEventCollector, _: Reserved }
  Ok.device_type.Reserved.id = @0x0[4+:4]
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.capabilities.max_link_speed = match @0xa[0+:4] { 1: Rate2GTps,
      2: Rate5GTps, 3: Rate8GTps, 4: Rate16GTps, 5: Rate32GTps, 6: Rate64GTps, 7: RateRsvdp, _: Reserved }
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.capabilities.max_link_speed.Reserved = @0xa[0+:4]
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.capabilities.maximum_link_width = match @0xa[4+:6] { 1: X1,
      2: X2, 4: X4, 8: X8, 0xc: X12, 0x10: X16, 0x20: X32, _: Reserved }
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.capabilities.maximum_link_width.Reserved = @0xa[4+:6]
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.capabilities.active_state_power_management_support = match @0xb[2+:2] { 0: NoAspm,
      1: L0s, 2: L1, 3: L0sAndL1, }
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.capabilities.l0s_exit_latency = match @0xb[4+:3] { 0: Lt64ns,
      1: Ge64nsAndLt128ns, 2: Ge128nsAndLt256ns, 3: Ge256nsAndLt512ns, 4: Ge512nsAndLt1us, 5: Ge1usAndLt2us, 6: Ge2usAndLt4us, 7: Gt4ns, }
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.capabilities.l1_exit_latency = @0xb.7 ? match @0xc[0+:2] { 0: Ge1usAndLt2us,
      1: Ge4usAndLt8us, 2: Ge16usAndLt32us, 3: Gt64ns, } : match @0xc[0+:2] { 0: Lt1us, 1: Ge2usAndLt4us, 2: Ge8usAndLt16us,
      3: Ge32usAndLt64us, }
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.capabilities.clock_power_management = @0xc.2
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.capabilities.surprise_down_error_reporting_capable = @0xc.3
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.capabilities.data_link_layer_link_active_reporting_capable = @0xc.4
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.capabilities.link_bandwidth_notification_capability = @0xc.5
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.capabilities.aspm_optionality_compliance = @0xc.6
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.capabilities.port_number = @0xd[0+:8]
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.control.active_state_power_management_control = match @0xe[0+:2] { 0: NoAspm,
      1: L0s, 2: L1, 3: L0sAndL1, }
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.control.read_completion_boundary = @0xe.3 ? B128 : B64
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.control.link_disable = @0xe.4
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.control.retrain_link = @0xe.5
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.control.common_clock_configuration = @0xe.6
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.control.extended_synch = @0xe.7
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.control.enable_clock_power_management = @0xf.0
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.control.hardware_autonomous_width_disable = @0xf.1
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.control.link_bandwidth_management_interrupt_enable = @0xf.2
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.control.link_autonomous_bandwidth_interrupt_enable = @0xf.3
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.status.current_link_speed = match @0x10[0+:4] { 1: Rate2GTps,
      2: Rate5GTps, 3: Rate8GTps, 4: Rate16GTps, 5: Rate32GTps, 6: Rate64GTps, 7: RateRsvdp, _: Reserved }
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.status.current_link_speed.Reserved = @0x10[0+:4]
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.status.negotiated_link_width = match @0x10[4+:6] { 1: X1,
      2: X2, 4: X4, 8: X8, 0xc: X12, 0x10: X16, 0x20: X32, _: Reserved }
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.status.negotiated_link_width.Reserved = @0x10[4+:6]
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.status.link_training_error = @0x11.2
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.status.link_training = @0x11.3
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.status.slot_clock_configuration = @0x11.4
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.status.data_link_layer_link_active = @0x11.5
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.status.link_bandwidth_management_status = @0x11.6
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link.status.link_autonomous_bandwidth_status = @0x11.7
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2 = match @0x0[1+:3] { 0: None,
      _: (len < 50 ? None : Some) }
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.supported_link_speeds_vector.speed_2_5_gtps = @0x2a.1
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.supported_link_speeds_vector.speed_5_0_gtps = @0x2a.2
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.supported_link_speeds_vector.speed_8_0_gtps = @0x2a.3
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.supported_link_speeds_vector.speed_16_0_gtps = @0x2a.4
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.supported_link_speeds_vector.speed_32_0_gtps = @0x2a.5
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.supported_link_speeds_vector.speed_64_0_gtps = @0x2a.6
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.supported_link_speeds_vector.reserved = @0x2a.7
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.crosslink_supported = @0x2b.0
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.lower_skp_os_generation_supported_speeds_vector.speed_2_5_gtps = @0x2b.1
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.lower_skp_os_generation_supported_speeds_vector.speed_5_0_gtps = @0x2b.2
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.lower_skp_os_generation_supported_speeds_vector.speed_8_0_gtps = @0x2b.3
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.lower_skp_os_generation_supported_speeds_vector.speed_16_0_gtps = @0x2b.4
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.lower_skp_os_generation_supported_speeds_vector.speed_32_0_gtps = @0x2b.5
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.lower_skp_os_generation_supported_speeds_vector.speed_64_0_gtps = @0x2b.6
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.lower_skp_os_generation_supported_speeds_vector.reserved = @0x2b.7
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.lower_skp_os_reception_supported_speeds_vector.speed_2_5_gtps = @0x2c.0
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.lower_skp_os_reception_supported_speeds_vector.speed_5_0_gtps = @0x2c.1
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.lower_skp_os_reception_supported_speeds_vector.speed_8_0_gtps = @0x2c.2
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.lower_skp_os_reception_supported_speeds_vector.speed_16_0_gtps = @0x2c.3
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.lower_skp_os_reception_supported_speeds_vector.speed_32_0_gtps = @0x2c.4
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.lower_skp_os_reception_supported_speeds_vector.speed_64_0_gtps = @0x2c.5
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.lower_skp_os_reception_supported_speeds_vector.reserved = @0x2c.6
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.retimer_presence_detect_supported = @0x2c.7
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.two_retimers_presence_detect_supported = @0x2d.0
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.capabilities.drs_supported = @0x2d.7
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.control.target_link_speed = match @0x2e[0+:4] { 1: Rate2GTps,
      2: Rate5GTps, 3: Rate8GTps, 4: Rate16GTps, 5: Rate32GTps, 6: Rate64GTps, 7: RateRsvdp, _: Reserved }
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.control.target_link_speed.Reserved = @0x2e[0+:4]
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.control.enter_compliance = @0x2e.4
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.control.hardware_autonomous_speed_disable = @0x2e.5
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.control.selectable_de_emphasis = @0x2e.6 ? Minus3_5dB : Minus6dB
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.control.transmit_margin = @0x2e[7+:3]
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.control.enter_modified_compliance = @0x2f.2
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.control.compliance_sos = @0x2f.3
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.control.compliance_preset_or_de_emphasis = @0x2f[4+:4]
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.status.current_de_emphasis_level = @0x30.0 ? Minus3_5dB : Minus6dB
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.status.equalization_complete = @0x30.1
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.status.equalization_phase_1_successful = @0x30.2
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.status.equalization_phase_2_successful = @0x30.3
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.status.equalization_phase_3_successful = @0x30.4
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.status.link_equalization_request = @0x30.5
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.status.retimer_presence_detected = @0x30.6
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.status.two_retimers_presence_detected = @0x30.7
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.status.crosslink_resolution = match @0x31[0+:2] { 0: NotSupported,
      1: UpstreamPort, 2: DownstreamPort, 3: NotCompleted, }
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.status.downstream_component_presence = match @0x31[4+:3] { 0: DownNotDetermined,
      1: DownNotPresent, 2: DownPresent, 4: UpPresent, 5: UpPresentAndDrsReceived, _: Reserved }
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.status.downstream_component_presence.Reserved = @0x31[4+:3]
  Ok.device_type.{Reserved,PciToPcieBridge,PcieToPciBridge,DownstreamPort,UpstreamPort,RootPort,LegacyEndpoint,Endpoint}.link_2.Some.status.drs_message_received = @0x31.7
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.capabilities.attention_button_present = @0x12.0
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.capabilities.power_controller_present = @0x12.1
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.capabilities.mrl_sensor_present = @0x12.2
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.capabilities.attention_indicator_present = @0x12.3
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.capabilities.power_indicator_present = @0x12.4
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.capabilities.hot_plug_surprise = @0x12.5
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.capabilities.hot_plug_capable = @0x12.6
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.capabilities.slot_power_limit.value = @0x12[7+:8]
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.capabilities.slot_power_limit.scale = @0x13.7 ? (@0x14.0 ? 0x3a83126f : 0x3dcccccd) : (@0x14.0 ? 0x3c23d70a : 0x3f800000)
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.capabilities.electromechanical_interlock_present = @0x14.1
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.capabilities.no_command_completed_support = @0x14.2
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.capabilities.physical_slot_number = @0x14[3+:13]
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.control.attention_button_pressed_enable = @0x16.0
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.control.power_fault_detected_enable = @0x16.1
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.control.mrl_sensor_changed_enable = @0x16.2
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.control.presence_detect_changed_enable = @0x16.3
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.control.command_completed_interrupt_enable = @0x16.4
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.control.hot_plug_interrupt_enable = @0x16.5
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.control.attention_indicator_control = match @0x16[6+:2] { 0: Reserved,
      1: On, 2: Blink, 3: Off, }
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.control.power_indicator_control = match @0x17[0+:2] { 0: Reserved,
      1: On, 2: Blink, 3: Off, }
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.control.power_controller_control = @0x17.2
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.control.electromechanical_interlock_control = @0x17.3
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.control.data_link_layer_state_changed_enable = @0x17.4
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.status.attention_button_pressed = @0x18.0
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.status.power_fault_detected = @0x18.1
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.status.mrl_sensor_changed = @0x18.2
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.status.presence_detect_changed = @0x18.3
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.status.command_completed = @0x18.4
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.status.mrl_sensor_state = @0x18.5
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.status.presence_detect_state = @0x18.6
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.status.electromechanical_interlock_status = @0x18.7
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot.status.data_link_layer_state_changed = @0x19.0
  Ok.device_type.{Reserved,PciToPcieBridge,DownstreamPort,RootPort}.slot_2 = match @0x0[1+:3] { 0: None, _: (len < 58 ? None : Some) }
  Ok.device_type.Reserved.root = len < 34 ? None : Some
  Ok.device_type.Reserved.root.Some.control.system_error_on_correctable_error_enable = @0x1a.0
  Ok.device_type.Reserved.root.Some.control.system_error_on_non_fatal_error_enable = @0x1a.1
  Ok.device_type.Reserved.root.Some.control.system_error_on_fatal_error_enable = @0x1a.2
  Ok.device_type.Reserved.root.Some.control.pme_interrupt_enable = @0x1a.3
  Ok.device_type.Reserved.root.Some.control.crs_software_visibility_enable = @0x1a.4
  Ok.device_type.Reserved.root.Some.capabilities.crs_software_visibility = @0x1c.0
  Ok.device_type.Reserved.root.Some.status.pme_requester_id = @0x1e[0+:16]
  Ok.device_type.Reserved.root.Some.status.pme_status = @0x20.0
  Ok.device_type.Reserved.root.Some.status.pme_pending = @0x20.1
  Ok.device_type.{RootPort,RootComplexEventCollector}.root.control.system_error_on_correctable_error_enable = @0x1a.0
  Ok.device_type.{RootPort,RootComplexEventCollector}.root.control.system_error_on_non_fatal_error_enable = @0x1a.1
  Ok.device_type.{RootPort,RootComplexEventCollector}.root.control.system_error_on_fatal_error_enable = @0x1a.2
  Ok.device_type.{RootPort,RootComplexEventCollector}.root.control.pme_interrupt_enable = @0x1a.3
  Ok.device_type.{RootPort,RootComplexEventCollector}.root.control.crs_software_visibility_enable = @0x1a.4
  Ok.device_type.{RootPort,RootComplexEventCollector}.root.capabilities.crs_software_visibility = @0x1c.0
  Ok.device_type.{RootPort,RootComplexEventCollector}.root.status.pme_requester_id = @0x1e[0+:16]
  Ok.device_type.{RootPort,RootComplexEventCollector}.root.status.pme_status = @0x20.0
  Ok.device_type.{RootPort,RootComplexEventCollector}.root.status.pme_pending = @0x20.1
  Ok.slot_implemented = @0x1.0
  Ok.interrupt_message_number = @0x1[1+:5]
  Ok.tcs_routing_support = @0x1.6
  Ok.device.capabilities.max_payload_size_supported = match @0x2[0+:3] { 0: B128, 1: B256, 2: B512, 3: B1024, 4: B2048, 5: B4096,
      6: Reserved0, 7: Reserved1, }
  Ok.device.capabilities.phantom_functions_supported = match @0x2[3+:2] { 0: NoBits, 1: MostSignificantBit, 2: TwoMostSignificantBits, 3: AllBits, }
  Ok.device.capabilities.extended_tag_field_supported = @0x2.5 ? Eight : Five
  Ok.device.capabilities.endpoint_l0s_acceptable_latency = match @0x2[6+:3] { 0: Max64ns, 1: Max128ns, 2: Max256ns, 3: Max512ns, 4: Max1us,
      5: Max2us, 6: Max4us, 7: NoLimit, }
  Ok.device.capabilities.endpoint_l1_acceptable_latency = match @0x3[1+:3] { 0: Max1us, 1: Max2us, 2: Max4us, 3: Max8us, 4: Max16us,
      5: Max32us, 6: Max64us, 7: NoLimit, }
  Ok.device.capabilities.attention_button_present = @0x3.4
  Ok.device.capabilities.attention_indicator_present = @0x3.5
  Ok.device.capabilities.power_indicator_present = @0x3.6
  Ok.device.capabilities.role_based_error_reporting = @0x3.7
  Ok.device.capabilities.captured_slot_power_limit.value = @0x4[2+:8]
  Ok.device.capabilities.captured_slot_power_limit.scale = match @0x5[2+:2] { 0: 0x3f800000, 1: 0x3dcccccd, 2: 0x3c23d70a, 3: 0x3a83126f, }
  Ok.device.capabilities.function_level_reset_capability = @0x5.4
  Ok.device.control.correctable_error_reporting_enable = @0x6.0
  Ok.device.control.non_fatal_error_reporting_enable = @0x6.1
  Ok.device.control.fatal_error_reporting_enable = @0x6.2
  Ok.device.control.unsupported_request_reporting_enable = @0x6.3
  Ok.device.control.enable_relaxed_ordering = @0x6.4
  Ok.device.control.max_payload_size = match @0x6[5+:3] { 0: B128, 1: B256, 2: B512, 3: B1024, 4: B2048, 5: B4096, 6: Reserved0, 7: Reserved1, }
  Ok.device.control.extended_tag_field_enable = @0x7.0
  Ok.device.control.phantom_functions_enable = @0x7.1
  Ok.device.control.aux_power_pm_enable = @0x7.2
  Ok.device.control.enable_no_snoop = @0x7.3
  Ok.device.control.max_read_request_size = match @0x7[4+:3] { 0: B128, 1: B256, 2: B512, 3: B1024, 4: B2048, 5: B4096, 6: Reserved0, 7: Reserved1, }
  Ok.device.control.bcre_or_flreset = @0x7.7
  Ok.device.status.correctable_error_detected = @0x8.0
  Ok.device.status.non_fatal_error_detected = @0x8.1
  Ok.device.status.fatal_error_detected = @0x8.2
  Ok.device.status.unsupported_request_detected = @0x8.3
  Ok.device.status.aux_power_detected = @0x8.4
  Ok.device.status.transactions_pending = @0x8.5
  Ok.device_2 = match @0x0[1+:3] { 0: None, _: (len < 42 ? None : Some) }
  Ok.device_2.Some.capabilities.completion_timeout_ranges_supported = match @0x22[0+:4] { 0: NotSupported, 1: RangeA, 2: RangeB, 3: RangesAB,
      6: RangesBC, 7: RangesABC, 0xe: RangesBCD, 0xf: RangesABCD, _: Reserved }
  Ok.device_2.Some.capabilities.completion_timeout_ranges_supported.Reserved = @0x22[0+:4]
  Ok.device_2.Some.capabilities.completion_timeout_disable_supported = @0x22.4
  Ok.device_2.Some.capabilities.ari_forwarding_supported = @0x22.5
  Ok.device_2.Some.capabilities.atomic_op_routing_supported = @0x22.6
  Ok.device_2.Some.capabilities.u32_atomicop_completer_supported = @0x22.7
  Ok.device_2.Some.capabilities.u64_atomicop_completer_supported = @0x23.0
  Ok.device_2.Some.capabilities.u128_cas_completer_supported = @0x23.1
  Ok.device_2.Some.capabilities.no_ro_enabled_pr_pr_passing = @0x23.2
  Ok.device_2.Some.capabilities.ltr_mechanism_supported = @0x23.3
  Ok.device_2.Some.capabilities.tph_completer_supported = match @0x23[4+:2] { 0: NotSupported, 1: Tph, 2: Reserved, 3: TphAndExtendedTph, }
  Ok.device_2.Some.capabilities.ln_system_cls = match @0x23[6+:2] { 0: NotSupported, 1: Cachelines64Byte, 2: Cachelines128Byte, 3: Reserved, }
  Ok.device_2.Some.capabilities.support_10bit_tag_completer = @0x24.0
  Ok.device_2.Some.capabilities.support_10bit_tag_requester = @0x24.1
  Ok.device_2.Some.capabilities.obff_supported = match @0x24[2+:2] { 0: NotSupported, 1: Message, 2: Wake, 3: WakeAndMessage, }
  Ok.device_2.Some.capabilities.extended_fmt_field_supported = @0x24.4
  Ok.device_2.Some.capabilities.end_end_tlp_prefix_supported = @0x24.5
  Ok.device_2.Some.capabilities.max_end_end_tlp_prefixes = match @0x24[6+:2] { 0: Max4, 1: Max1, 2: Max2, 3: Max3, }
  Ok.device_2.Some.capabilities.emergency_power_reduction_supported = match @0x25[0+:2] { 0: NotSupported, 1: DeviceSpecific,
      2: FormFactorOrDeviceSpecific, 3: Reserved, }
  Ok.device_2.Some.capabilities.emergency_power_reduction_initialization_required = @0x25.2
  Ok.device_2.Some.capabilities.frs_supported = @0x25.7
  Ok.device_2.Some.control.completion_timeout_value = match @0x26[0+:4] { 0: DefaultRange50usTo50ms, 1: RangeA50usTo100us,
      2: RangeA1msTo10ms, 5: RangeB16msTo55mss, 6: RangeB65msTo210ms, 9: RangeC260msTo900ms, 0xa: RangeC1000msTo3500ms, 0xd: RangeD4sTo13s,
      0xe: RangeD17sTo64s, _: Reserved }
  Ok.device_2.Some.control.completion_timeout_value.Reserved = @0x26[0+:4]
  Ok.device_2.Some.control.completion_timeout_disable = @0x26.4
  Ok.device_2.Some.control.ari_forwarding_enable = @0x26.5
  Ok.device_2.Some.control.atomic_op_requester_enable = @0x26.6
  Ok.device_2.Some.control.atomic_op_egress_blocking = @0x26.7
  Ok.device_2.Some.control.ido_request_enable = @0x27.0
  Ok.device_2.Some.control.ido_completion_enable = @0x27.1
  Ok.device_2.Some.control.ltr_mechanism_enable = @0x27.2
  Ok.device_2.Some.control.emergency_power_reduction_request = @0x27.3
  Ok.device_2.Some.control.enable_10bit_tag_requester = @0x27.4
  Ok.device_2.Some.control.obff_enable = match @0x27[5+:2] { 0: Disabled, 1: MessageSignalingA, 2: MessageSignalingB, 3: WakeSignaling, }
  Ok.device_2.Some.control.end_end_tlp_prefix_blocking = @0x27.7 ? ForwardingBlocked : ForwardingEnabled
  Err = len < 26 ? RequiredBytesSlice : RootBytesSlice
