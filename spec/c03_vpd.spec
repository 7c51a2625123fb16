root root_c03_vpd : C13 C02
  src src/capabilities/vital_product_data.rs
  . = len < 6 ? Err : Ok
  Ok.vpd_address = @0x0[0+:15]
  Ok.transfer_completed = @0x1.7
  Ok.vpd_data = @0x2[0+:32]
