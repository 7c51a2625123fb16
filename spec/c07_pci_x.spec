root root_c07_pci_x : C13 C02
  src src/capabilities/pci_x.rs
  . = match @0x1[4+:2] { 1|2: (len < 22 ? Err : Ok), _: (len < 6 ? Err : Ok) }
  Ok.command.uncorrectable_data_error_recovery_enable = @0x0.0
  Ok.command.enable_relaxed_ordering = @0x0.1
  Ok.command.maximum_memory_read_byte_count = @0x0[2+:2]
  Ok.command.maximum_outstanding_split_transactions = @0x0[4+:3]
  Ok.status.function_number = @0x2[0+:3]
  Ok.status.device_number = @0x2[3+:5]
  Ok.status.bus_number = @0x3[0+:8]
  Ok.status.device_64_bit = @0x4.0
  Ok.status.pci_x_133_capable = @0x4.1
  Ok.status.slit_completion_discarded = @0x4.2
  Ok.status.unexpected_split_completion = @0x4.3
  Ok.status.device_complexity = @0x4.4 ? Bridge : Simple
  Ok.status.designed_maximum_memory_read_byte_count = @0x4[5+:2]
  Ok.status.designed_maximum_outstanding_split_transactions = @0x4[7+:3]
  Ok.status.designed_maximum_cumulative_read_size = @0x5[2+:3]
  Ok.status.received_split_completion_error_message = @0x5.5
  Ok.status.pci_x_266_capable = @0x5.6
  Ok.status.pci_x_533_capable = @0x5.7
  Ok.ecc = match @0x1[4+:2] { 0: None, 1: Mode2Only, 2: Mode1OrMode2, 3: Reserved, }
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.select_secondary_ecc_registers = @0x6.0
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.error_present_in_other_ecc_register_bank = @0x6.1
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.additional_correctable_ecc_error = @0x6.2
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.additional_uncorrectable_ecc_error = @0x6.3
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.ecc_error_phase = match @0x6[4+:3] { 0: NoError, 1: First32bits, 2: Second32bits,
      3: AttributePhase, 4: Phase32or16bit, 5: Phase64bit, _: Reserved }
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.ecc_error_corrected = @0x6.7
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.syndrome.e0 = @0x7.0
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.syndrome.e1 = @0x7.1
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.syndrome.e2 = @0x7.2
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.syndrome.e3 = @0x7.3
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.syndrome.e4 = @0x7.4
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.syndrome.e5 = @0x7.5
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.syndrome.e6 = @0x7.6
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.syndrome.e7 = @0x7.7
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.error_first_command = @0x8[0+:4]
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.error_second_command = @0x8[4+:4]
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.error_upper_attributes = @0x9[0+:4]
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.ecc_control_update_enable = @0x9.4
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.disable_single_bit_error_correction = @0x9.6
  Ok.ecc.{Mode1OrMode2,Mode2Only}.control_and_status.ecc_mode = @0x9.7
  Ok.ecc.{Mode1OrMode2,Mode2Only}.first_address = @0xa[0+:32]
  Ok.ecc.{Mode1OrMode2,Mode2Only}.second_address = @0xe[0+:32]
  Ok.ecc.{Mode1OrMode2,Mode2Only}.attribute = @0x12[0+:32]
  Err = @0x1.4 ? (len < 6 ? CommandAndStatus : EccMode2Only) : (len < 6 ? CommandAndStatus : EccMode1OrMode2)
