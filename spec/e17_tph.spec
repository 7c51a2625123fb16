root root_e17_tph : C20 C02
  src src/extended_capabilities/tph_requester.rs
  . = len < 8 ? Err : Ok
  Ok.tph_requester_capability.no_st_mode_supported = @0x0.0
  Ok.tph_requester_capability.interrupt_vector_mode_supported = @0x0.1
  Ok.tph_requester_capability.device_specific_mode_supported = @0x0.2
  Ok.tph_requester_capability.extended_tph_requester_supported = @0x1.0
  Ok.tph_requester_capability.st_table = match @0x1[1+:2] { 0: NotPresent, 1: (@0x2[0+:11] < 64 && len >= 8 + 2 * (@0x2[0+:11] + 1) ? Valid : Invalid), 2: MsiXTable, 3: Reserved }
  Ok.tph_requester_capability.st_table.{MsiXTable,Invalid}.size = @0x2[0+:11]
  Ok.tph_requester_capability.st_table.Invalid.data = slice(8, len - 8)
  Ok.tph_requester_capability.st_table.Valid.size = @0x2[0+:11]
  Ok.tph_requester_capability.st_table.Valid.data = slice(8, 2 * (@0x2[0+:11] + 1))
  Ok.tph_requester_control.st_mode_select = match @0x4[0+:3] { 0: NoStMode, 1: InterruptVectorMode, 2: DeviceSpecificMode, _: Reserved }
  Ok.tph_requester_control.st_mode_select.Reserved = @0x4[0+:3]
  Ok.tph_requester_control.tph_requester_enable = match @0x5[0+:2] { 0: NotPermitted, 1: TphPermitted, 2: Reserved, 3: TphAndExtendedTphPermitted, }
