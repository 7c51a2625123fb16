root root_e12_multicast : C20 C02
  src src/extended_capabilities/multicast.rs
  . = len < 40 ? Err : Ok
  Ok.multicast_capability.mc_max_group = @0x4[0+:6]
  Ok.multicast_capability.mc_window_size_requested = @0x5[0+:6]
  Ok.multicast_capability.mc_ecrc_regeneration_supported = @0x5.7
  Ok.multicast_control.mc_num_group = @0x6[0+:6]
  Ok.multicast_control.mc_enable = @0x7.7
  Ok.mc_base_address.mc_index_position = @0x8[0+:6]
  Ok.mc_base_address.mc_base_address = @0x9[4+:52] << 12
  Ok.mc_receive = @0x10[0+:64]
  Ok.mc_block_all = @0x18[0+:64]
  Ok.mc_block_untranslated = @0x20[0+:64]
  Ok.mc_overlay_bar = len < 48 ? None : Some
  Ok.mc_overlay_bar.Some.mc_overlay_size = @0x28[0+:6]
  Ok.mc_overlay_bar.Some.mc_overlay_bar = @0x28[6+:58] << 6
