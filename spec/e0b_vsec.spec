root root_e0b_vsec : C24 C02
  src src/extended_capabilities/vendor_specific_extended_capability.rs
  order @2.4:12
  . = len < 4 ? Err : Ok
  Ok.header.vsec_id = @0x0[0+:16]
  Ok.header.vsec_rev = @0x2[0+:4]
  Ok.header.vsec_length = @0x2[4+:12]
  Ok.registers = @0x2[4+:12] < 8 ? InvalidLength : len < @0x2[4+:12] - 4 ? Incomplete : Valid
  Ok.registers.Incomplete = slice(4, len - 4)
  Ok.registers.InvalidLength = @0x2[4+:12]
  Ok.registers.Valid = slice(4, @0x2[4+:12] - 8)
