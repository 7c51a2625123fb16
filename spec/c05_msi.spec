root root_c05_msi : C12 C02
  src src/capabilities/message_signaled_interrups.rs
  . = match @0x0[7+:2] { 0: (len < 10 ? Err : Ok), 1: (len < 14 ? Err : Ok), 2: (len < 18 ? Err : Ok), 3: (len < 22 ? Err : Ok), }
  Ok.message_control.msi_enable = @0x0.0
  Ok.message_control.multiple_message_capable = @0x0[1+:3]
  Ok.message_control.multiple_message_enable = @0x0[4+:3]
  Ok.message_control.a_64_bit_address_capable = @0x0.7
  Ok.message_control.per_vector_masking_capable = @0x1.0
  Ok.message_control.extended_message_data_capable = @0x1.1
  Ok.message_control.extended_message_data_enable = @0x1.2
  Ok.message_address = @0x0.7 ? Qword : Dword
  Ok.message_address.Dword = @0x2[0+:32]
  Ok.message_address.Qword = @0x2[0+:64]
  Ok.message_data = @0x0.7 ? @0xa[0+:16] : @0x6[0+:16]
  Ok.extended_message_data = @0x0.7 ? @0xc[0+:16] : @0x8[0+:16]
  Ok.{mask_bits,pending_bits} = match @0x0[7+:2] { 2|3: Some, _: None }
  Ok.mask_bits.Some = @0x0.7 ? @0xe[0+:32] : @0xa[0+:32]
  Ok.pending_bits.Some = @0x0.7 ? @0x12[0+:32] : @0xe[0+:32]
  Err = match @0x0[7+:2] { 0: (len < 2 ? MessageControl : Size32bit), 1: (len < 2 ? MessageControl : Size64bit),
      2: (len < 2 ? MessageControl : Size32bitPerVector), 3: (len < 2 ? MessageControl : Size64bitPerVector), }
