root root_c07_pci_x_bridge : C13 C02
  src src/capabilities/pci_x.rs
  . = match @0x1[4+:2] { 1|2: (len < 30 ? Err : Ok), _: (len < 14 ? Err : Ok) }
  Ok.secondary_status.device_64_bit = @0x0.0
  Ok.secondary_status.pci_x_133_capable = @0x0.1
  Ok.secondary_status.slit_completion_discarded = @0x0.2
  Ok.secondary_status.unexpected_split_completion = @0x0.3
  Ok.secondary_status.split_completion_overrun = @0x0.4
  Ok.secondary_status.split_request_delayed = @0x0.5
  Ok.secondary_status.secondary_bus_mode = match @0x0[6+:4] { 0: Conventional, 8|9|0xa|0xb: PciX266, 0xc|0xd|0xe|0xf: PciX533, _: Mode1 }
  Ok.secondary_status.error_protection = match @0x1[0+:2] { 0: Parity, _: Ecc }
  Ok.secondary_status.secondary_bus_frequency = match @0x0[6+:4] { 0: NotAvailable, 2|6|0xa|0xe: Freq100MHz, 3|7|0xb|0xf: Freq133MHz,
      4|8|0xc: Reserved, _: Freq66MHz }
  Ok.secondary_status.pci_x_266_capable = @0x1.6
  Ok.secondary_status.pci_x_533_capable = @0x1.7
  Ok.bridge_status.function_number = @0x2[0+:3]
  Ok.bridge_status.device_number = @0x2[3+:5]
  Ok.bridge_status.bus_number = @0x3[0+:8]
  Ok.bridge_status.device_64_bit = @0x4.0
  Ok.bridge_status.pci_x_133_capable = @0x4.1
  Ok.bridge_status.slit_completion_discarded = @0x4.2
  Ok.bridge_status.unexpected_split_completion = @0x4.3
  Ok.bridge_status.split_completion_overrun = @0x4.4
  Ok.bridge_status.split_request_delayed = @0x4.5
  Ok.bridge_status.device_id_messaging_capable = @0x5.5
  Ok.bridge_status.pci_x_266_capable = @0x5.6
  Ok.bridge_status.pci_x_533_capable = @0x5.7
  Ok.upstream_split_transaction_control.split_transaction_capacity = @0x6[0+:16]
  Ok.upstream_split_transaction_control.split_transaction_commitment_limit = @0x8[0+:16]
  Ok.downstream_split_transaction_control.split_transaction_capacity = @0xa[0+:16]
  Ok.downstream_split_transaction_control.split_transaction_commitment_limit = @0xc[0+:16]
  Ok.ecc = match @0x1[4+:2] { 0: None, 1: Mode2Only, 2: Mode1OrMode2, 3: Reserved, }
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.select_secondary_ecc_registers = @0xe.0
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.error_present_in_other_ecc_register_bank = @0xe.1
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.additional_correctable_ecc_error = @0xe.2
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.additional_uncorrectable_ecc_error = @0xe.3
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.ecc_error_phase = match @0xe[4+:3] { 0: NoError, 1: First32bits, 2: Second32bits,
      3: AttributePhase, 4: Phase32or16bit, 5: Phase64bit, _: Reserved }
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.ecc_error_corrected = @0xe.7
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.syndrome.e0 = @0xf.0
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.syndrome.e1 = @0xf.1
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.syndrome.e2 = @0xf.2
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.syndrome.e3 = @0xf.3
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.syndrome.e4 = @0xf.4
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.syndrome.e5 = @0xf.5
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.syndrome.e6 = @0xf.6
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.syndrome.e7 = @0xf.7
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.error_first_command = @0x10[0+:4]
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.error_second_command = @0x10[4+:4]
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.error_upper_attributes = @0x11[0+:4]
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.ecc_control_update_enable = @0x11.4
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.disable_single_bit_error_correction = @0x11.6
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.ecc_mode = @0x11.7
  Ok.ecc.{Mode1OrMode2,Mode2Only}.first_address = @0x12[0+:32]
  Ok.ecc.{Mode1OrMode2,Mode2Only}.second_address = @0x16[0+:32]
  Ok.ecc.{Mode1OrMode2,Mode2Only}.attribute = @0x1a[0+:32]
  Err = @0x1.4 ? (len < 14 ? Mandatory : BridgeEccMode2Only) : (len < 14 ? Mandatory : BridgeEccMode1OrMode2)
