root root_c12_sata : C13 C02
  src src/capabilities/sata.rs
  . = len < 6 ? Err : Ok
  Ok.revision.minor = @0x0[0+:4]
  Ok.revision.major = @0x0[4+:4]
  Ok.bar_offset = @0x2[4+:20]
  Ok.bar_location = match @0x2[0+:4] { 4: Bar0, 5: Bar1, 6: Bar2, 7: Bar3, 8: Bar4, 9: Bar5, 0xf: SataCapability1, _: Reserved }
  Ok.bar_location.Reserved = @0x2[0+:4]
