// Written by tools/gen_ends.py
root root_t_caps_self same want_t_caps_self : C03
  src src/capabilities.rs
root root_t_caps_self_bits same want_t_caps_self_bits : C03
  src src/capabilities.rs
root root_t_caps_two same want_t_caps_two : C03
  src src/capabilities.rs
root root_t_caps_three same want_t_caps_three : C03
  src src/capabilities.rs
root root_t_caps_rho same want_t_caps_rho : C03
  src src/capabilities.rs
root root_t_caps_bad same want_t_caps_bad : C03
  src src/capabilities.rs
root root_t_caps_low same want_t_caps_low : C03
  src src/capabilities.rs
root root_t_caps_id_00 same want_t_caps_id_00 : C03
  src src/capabilities.rs
root root_t_caps_id_01 same want_t_caps_id_01 : C03
  src src/capabilities.rs
root root_t_caps_id_02 same want_t_caps_id_02 : C03
  src src/capabilities.rs
root root_t_caps_id_03 same want_t_caps_id_03 : C03
  src src/capabilities.rs
root root_t_caps_id_04 same want_t_caps_id_04 : C03
  src src/capabilities.rs
root root_t_caps_id_05 same want_t_caps_id_05 : C03
  src src/capabilities.rs
root root_t_caps_id_06 same want_t_caps_id_06 : C03
  src src/capabilities.rs
root root_t_caps_id_07 same want_t_caps_id_07 : C03
  src src/capabilities.rs
root root_t_caps_id_08 same want_t_caps_id_08 : C03
  src src/capabilities.rs
root root_t_caps_id_09 same want_t_caps_id_09 : C03
  src src/capabilities.rs
root root_t_caps_id_0a same want_t_caps_id_0a : C03
  src src/capabilities.rs
root root_t_caps_id_0b same want_t_caps_id_0b : C03
  src src/capabilities.rs
root root_t_caps_id_0c same want_t_caps_id_0c : C03
  src src/capabilities.rs
root root_t_caps_id_0d same want_t_caps_id_0d : C03
  src src/capabilities.rs
root root_t_caps_id_0e same want_t_caps_id_0e : C03
  src src/capabilities.rs
root root_t_caps_id_0f same want_t_caps_id_0f : C03
  src src/capabilities.rs
root root_t_caps_id_10 same want_t_caps_id_10 : C03
  src src/capabilities.rs
root root_t_caps_id_11 same want_t_caps_id_11 : C03
  src src/capabilities.rs
root root_t_caps_id_12 same want_t_caps_id_12 : C03
  src src/capabilities.rs
root root_t_caps_id_13 same want_t_caps_id_13 : C03
  src src/capabilities.rs
root root_t_caps_id_14 same want_t_caps_id_14 : C03
  src src/capabilities.rs
root root_t_caps_id_15 same want_t_caps_id_15 : C03
  src src/capabilities.rs
root root_t_caps_id_rsvd same want_t_caps_id_rsvd : C03
  src src/capabilities.rs
root root_t_caps_short same want_t_caps_short : C03
  src src/capabilities.rs
root root_t_caps_out same want_t_caps_out : C03
  src src/capabilities.rs
root root_t_ecaps_self same want_t_ecaps_self : C03
  src src/extended_capabilities.rs
root root_t_ecaps_self_bits same want_t_ecaps_self_bits : C03
  src src/extended_capabilities.rs
root root_t_ecaps_two same want_t_ecaps_two : C03
  src src/extended_capabilities.rs
root root_t_ecaps_rho same want_t_ecaps_rho : C03
  src src/extended_capabilities.rs
root root_t_ecaps_bad same want_t_ecaps_bad : C03
  src src/extended_capabilities.rs
root root_t_ecaps_low same want_t_ecaps_low : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_01 same want_t_ecaps_id_01 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_02 same want_t_ecaps_id_02 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_03 same want_t_ecaps_id_03 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_04 same want_t_ecaps_id_04 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_05 same want_t_ecaps_id_05 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_06 same want_t_ecaps_id_06 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_07 same want_t_ecaps_id_07 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_08 same want_t_ecaps_id_08 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_09 same want_t_ecaps_id_09 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_0a same want_t_ecaps_id_0a : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_0b same want_t_ecaps_id_0b : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_0c same want_t_ecaps_id_0c : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_0d same want_t_ecaps_id_0d : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_0e same want_t_ecaps_id_0e : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_0f same want_t_ecaps_id_0f : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_10 same want_t_ecaps_id_10 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_11 same want_t_ecaps_id_11 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_12 same want_t_ecaps_id_12 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_13 same want_t_ecaps_id_13 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_14 same want_t_ecaps_id_14 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_15 same want_t_ecaps_id_15 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_16 same want_t_ecaps_id_16 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_17 same want_t_ecaps_id_17 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_18 same want_t_ecaps_id_18 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_19 same want_t_ecaps_id_19 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_1a same want_t_ecaps_id_1a : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_1b same want_t_ecaps_id_1b : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_1c same want_t_ecaps_id_1c : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_1d same want_t_ecaps_id_1d : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_1e same want_t_ecaps_id_1e : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_1f same want_t_ecaps_id_1f : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_20 same want_t_ecaps_id_20 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_21 same want_t_ecaps_id_21 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_22 same want_t_ecaps_id_22 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_23 same want_t_ecaps_id_23 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_24 same want_t_ecaps_id_24 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_25 same want_t_ecaps_id_25 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_26 same want_t_ecaps_id_26 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_27 same want_t_ecaps_id_27 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_28 same want_t_ecaps_id_28 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_29 same want_t_ecaps_id_29 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_2a same want_t_ecaps_id_2a : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_2b same want_t_ecaps_id_2b : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_2c same want_t_ecaps_id_2c : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_2d same want_t_ecaps_id_2d : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_2e same want_t_ecaps_id_2e : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_2f same want_t_ecaps_id_2f : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_30 same want_t_ecaps_id_30 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_31 same want_t_ecaps_id_31 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_32 same want_t_ecaps_id_32 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_33 same want_t_ecaps_id_33 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_34 same want_t_ecaps_id_34 : C03
  src src/extended_capabilities.rs
root root_t_ecaps_id_rsvd same want_t_ecaps_id_rsvd : C03
  src src/extended_capabilities.rs
root root_t_ecaps_short same want_t_ecaps_short : C03
  src src/extended_capabilities.rs
root root_t_ecaps_out same want_t_ecaps_out : C03
  src src/extended_capabilities.rs
root root_t_ecaps_zero same want_t_ecaps_zero : C03
  src src/extended_capabilities.rs
root root_t_bars_6 same want_t_bars_6 : C03
  src src/header/bar.rs
root root_t_bars_2 same want_t_bars_2 : C03
  src src/header/bar.rs
root root_t_bars_1 same want_t_bars_1 : C03
  src src/header/bar.rs
root root_t_rebar same want_t_rebar : C03
  src src/extended_capabilities/resizable_bar.rs
root root_t_vc same want_t_vc : C03
  src src/extended_capabilities/virtual_channel.rs
root root_t_vc_vat same want_t_vc_vat : C03
  src src/extended_capabilities/virtual_channel.rs
root root_t_mfvc same want_t_mfvc : C03
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_t_mfvc_vat same want_t_mfvc_vat : C03
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_t_acs same want_t_acs : C03
  src src/extended_capabilities/access_control_services.rs
root root_t_lanes same want_t_lanes : C03
  src src/extended_capabilities/secondary_pci_express.rs
root root_t_pmux same want_t_pmux : C03
  src src/extended_capabilities/protocol_multiplexing.rs
root root_t_links same want_t_links : C03
  src src/extended_capabilities/root_complex_link_declaration.rs
root root_t_ea_1 same want_t_ea_1 : C03
  src src/capabilities/enhanced_allocation.rs
root root_t_pat same want_t_pat : C03
  src src/extended_capabilities/virtual_channel.rs
root root_t_fat same want_t_fat : C03
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_t_ea_still same want_t_ea_still : C03
  src src/capabilities/enhanced_allocation.rs
root root_t_ecaps_still same want_t_ecaps_still : C03
  src src/extended_capabilities.rs
root root_t_links_still same want_t_links_still : C03
  src src/extended_capabilities/root_complex_link_declaration.rs
root root_t_lanes_still same want_t_lanes_still : C03
  src src/extended_capabilities/secondary_pci_express.rs
root root_t_pmux_still same want_t_pmux_still : C03
  src src/extended_capabilities/protocol_multiplexing.rs
root root_t_vc_still same want_t_vc_still : C03
  src src/extended_capabilities/virtual_channel.rs
root root_t_mfvc_still same want_t_mfvc_still : C03
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_t_acs_still same want_t_acs_still : C03
  src src/extended_capabilities/access_control_services.rs
root root_t_vat_still same want_t_vat_still : C03
  src src/extended_capabilities/virtual_channel.rs
root root_t_bars_still same want_t_bars_still : C03
  src src/header/bar.rs
root root_k_acs : C03
  rule rank
  src src/extended_capabilities/access_control_services.rs
root root_k_bars : C03
  rule rank
  src src/header/bar.rs
root root_k_caps : C03
  rule rank
  src src/capabilities.rs
root root_k_ea : C03
  rule rank
  src src/capabilities/enhanced_allocation.rs
root root_k_ecaps : C03
  rule rank
  src src/extended_capabilities.rs
root root_k_lanes : C03
  rule rank
  src src/extended_capabilities/secondary_pci_express.rs
root root_k_links : C03
  rule rank
  src src/extended_capabilities/root_complex_link_declaration.rs
root root_k_mfvc : C03
  rule rank
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_k_pmux : C03
  rule rank
  src src/extended_capabilities/protocol_multiplexing.rs
root root_k_rebar : C03
  rule rank
  src src/extended_capabilities/resizable_bar.rs
root root_k_vat : C03
  rule rank
  src src/extended_capabilities/virtual_channel.rs
root root_k_vc : C03
  rule rank
  src src/extended_capabilities/virtual_channel.rs
root root_l_caps_full same want_l_caps_full : C04
  src src/capabilities.rs
root root_l_ecaps_full same want_l_ecaps_full : C06
  src src/extended_capabilities.rs
