// Written by tools/gen_values.py
root root_v_bars same want_v_bars : C27
  src src/header/bar.rs
root root_e_bars same want_e_bars : C27
  src src/header/bar.rs
  order mix:36
root root_v_bars_two same want_v_bars_two : C27
  src src/header/bar.rs
root root_v_rebar same want_v_rebar : C27
  src src/extended_capabilities/resizable_bar.rs
root root_e_rebar same want_e_rebar : C27
  src src/extended_capabilities/resizable_bar.rs
  order mix:36
root root_v_links same want_v_links : C27
  src src/extended_capabilities/root_complex_link_declaration.rs
root root_e_links same want_e_links : C27
  src src/extended_capabilities/root_complex_link_declaration.rs
  order mix:36
root root_v_pmux same want_v_pmux : C27
  src src/extended_capabilities/protocol_multiplexing.rs
root root_e_pmux same want_e_pmux : C27
  src src/extended_capabilities/protocol_multiplexing.rs
  order mix:36
root root_v_acs same want_v_acs : C27
  src src/extended_capabilities/access_control_services.rs
root root_e_acs same want_e_acs : C27
  src src/extended_capabilities/access_control_services.rs
  order mix:36
root root_v_pat same want_v_pat : C27
  src src/extended_capabilities/virtual_channel.rs
root root_e_pat same want_e_pat : C27
  src src/extended_capabilities/virtual_channel.rs
  order mix:36
root root_v_fat same want_v_fat : C27
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_e_fat same want_e_fat : C27
  src src/extended_capabilities/multifunction_virtual_channel.rs
  order mix:36
root root_v_vat same want_v_vat : C27
  src src/extended_capabilities/virtual_channel.rs
root root_e_vat same want_e_vat : C27
  src src/extended_capabilities/virtual_channel.rs
  order mix:36
root root_v_vc same want_v_vc : C27
  src src/extended_capabilities/virtual_channel.rs
root root_e_vc same want_e_vc : C27
  src src/extended_capabilities/virtual_channel.rs
  order mix:36
root root_v_mfvc same want_v_mfvc : C27
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_e_mfvc same want_e_mfvc : C27
  src src/extended_capabilities/multifunction_virtual_channel.rs
  order mix:36
root root_v_mfvc_two same want_v_mfvc_two : C27
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_v_ea same want_v_ea : C27
  src src/capabilities/enhanced_allocation.rs
root root_v_caps same want_v_caps : C27
  src src/capabilities.rs
root root_e_caps same want_e_caps : C27
  src src/capabilities.rs
  order mix:36
root root_v_ecaps same want_v_ecaps : C27
  src src/extended_capabilities.rs
root root_e_ecaps same want_e_ecaps : C27
  src src/extended_capabilities.rs
  order mix:36
root root_a_acs same want_a_acs : C27
  src src/extended_capabilities/access_control_services.rs
  order mix:36
root root_a_pat same want_a_pat : C27
  src src/extended_capabilities/virtual_channel.rs
  order mix:36
root root_a_fat same want_a_fat : C27
  src src/extended_capabilities/multifunction_virtual_channel.rs
  order mix:36
root root_a_vat same want_a_vat : C27
  src src/extended_capabilities/virtual_channel.rs
  order mix:36
root root_e_state same want_e_state : C27
  src src/extended_capabilities/root_complex_link_declaration.rs
  order mix:36
