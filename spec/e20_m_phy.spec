root root_e20_m_phy : C25 C02
  src src/extended_capabilities/pci_express_over_m_phy.rs
  . = len < 28 ? Err : Ok
  Ok.mpcie_capabilities.mpcie_link_speed_capability.hs_g1 = @0x4.0
  Ok.mpcie_capabilities.mpcie_link_speed_capability.hs_g2 = @0x4.1
  Ok.mpcie_capabilities.configuration_software_supported = @0x5.7
  Ok.mpcie_capabilities.maximum_tx_lane_width_capability.x1 = @0x6.0
  Ok.mpcie_capabilities.maximum_tx_lane_width_capability.x2 = @0x6.1
  Ok.mpcie_capabilities.maximum_tx_lane_width_capability.x4 = @0x6.2
  Ok.mpcie_capabilities.maximum_tx_lane_width_capability.x8 = @0x6.3
  Ok.mpcie_capabilities.maximum_tx_lane_width_capability.x12 = @0x6.4
  Ok.mpcie_capabilities.maximum_tx_lane_width_capability.x16 = @0x6.5
  Ok.mpcie_capabilities.maximum_tx_lane_width_capability.x32 = @0x6.6
  Ok.mpcie_capabilities.maximum_rx_lane_width_capability.x1 = @0x7.0
  Ok.mpcie_capabilities.maximum_rx_lane_width_capability.x2 = @0x7.1
  Ok.mpcie_capabilities.maximum_rx_lane_width_capability.x4 = @0x7.2
  Ok.mpcie_capabilities.maximum_rx_lane_width_capability.x8 = @0x7.3
  Ok.mpcie_capabilities.maximum_rx_lane_width_capability.x12 = @0x7.4
  Ok.mpcie_capabilities.maximum_rx_lane_width_capability.x16 = @0x7.5
  Ok.mpcie_capabilities.maximum_rx_lane_width_capability.x32 = @0x7.6
  Ok.mpcie_control.mpcie_target_link_speed_control.hs_g1 = @0x8.0
  Ok.mpcie_control.mpcie_target_link_speed_control.hs_g2 = @0x8.1
  Ok.mpcie_status.mpcie_current_link_speed_status.hs_g1 = @0xc.0
  Ok.mpcie_status.mpcie_current_link_speed_status.hs_g2 = @0xc.1
  Ok.mpcie_status.mpcie_configuration_software_status = @0xd.7
  Ok.mpcie_status.tx_lane_width_status = match @0xe[0+:8] { 1: X1, 2: X2, 4: X4, 8: X8, 0xc: X12, 0x10: X16, 0x20: X32, _: Reserved }
  Ok.mpcie_status.tx_lane_width_status.Reserved = @0xe[0+:8]
  Ok.mpcie_status.rx_lane_width_status = match @0xf[0+:8] { 1: X1, 2: X2, 4: X4, 8: X8, 0xc: X12, 0x10: X16, 0x20: X32, _: Reserved }
  Ok.mpcie_status.rx_lane_width_status.Reserved = @0xf[0+:8]
  Ok.mpcie_lane_error_status = @0x10[0+:32]
  Ok.mpcie_phy_control_address.lower_addr = @0x14[0+:8]
  Ok.mpcie_phy_control_address.upper_addr = @0x16[0+:5] | @0x17.0 << 5
  Ok.mpcie_phy_control_address.phy_location = match @0x17[1+:3] { 0: LocalPhy, 1: RemotePhy, _: Reserved }
  Ok.mpcie_phy_control_address.phy_location.Reserved = @0x17[1+:3]
  Ok.mpcie_phy_control_address.read = @0x17.6
  Ok.mpcie_phy_control_address.config = @0x17.7
  Ok.mpcie_phy_control_data.phy_register_data = @0x18[0+:8]
  Ok.mpcie_phy_control_data.phy_control_error = @0x1b.5
  Ok.mpcie_phy_control_data.rrap_abort_a = @0x1b.6
  Ok.mpcie_phy_control_data.phy_control_pending = @0x1b.7
