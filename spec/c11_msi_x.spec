root root_c11_msi_x : C12 C02
  src src/capabilities/msi_x.rs
  . = len < 10 ? Err : Ok
  Ok.message_control.table_size = @0x0[0+:11]
  Ok.message_control.function_mask = @0x1.6
  Ok.message_control.msi_x_enable = @0x1.7
  Ok.table.bir = match @0x2[0+:3] { 0: Bar10h, 1: Bar14h, 2: Bar18h, 3: Bar1Ch, 4: Bar20h, 5: Bar24h, _: Reserved }
  Ok.table.bir.Reserved = @0x2[0+:3]
  Ok.table.offset = @0x2[3+:29] << 3
  Ok.pending_bit_array.bir = match @0x6[0+:3] { 0: Bar10h, 1: Bar14h, 2: Bar18h, 3: Bar1Ch, 4: Bar20h, 5: Bar24h, _: Reserved }
  Ok.pending_bit_array.bir.Reserved = @0x6[0+:3]
  Ok.pending_bit_array.offset = @0x6[3+:29] << 3
