root root_e19_secondary_pcie : C25 C02
  src src/extended_capabilities/secondary_pci_express.rs
  . = len < 8 ? Err : Ok
  Ok.link_control_3.perform_equalization = @0x0.0
  Ok.link_control_3.link_equalization_request_interrupt_enable = @0x0.1
  Ok.link_control_3.lower_skp_os_generation_vector.speed_2_5_gtps = @0x1.1
  Ok.link_control_3.lower_skp_os_generation_vector.speed_5_0_gtps = @0x1.2
  Ok.link_control_3.lower_skp_os_generation_vector.speed_8_0_gtps = @0x1.3
  Ok.link_control_3.lower_skp_os_generation_vector.speed_16_0_gtps = @0x1.4
  Ok.link_control_3.lower_skp_os_generation_vector.speed_32_0_gtps = @0x1.5
  Ok.link_control_3.lower_skp_os_generation_vector.speed_64_0_gtps = @0x1.6
  Ok.link_control_3.lower_skp_os_generation_vector.reserved = @0x1.7
  Ok.lane_error_status = @0x4[0+:32]
