// Written by tools/gen_steps.py
root root_n_bars same want_n_bars : C29
  src src/header/bar.rs
root root_z_bars same want_z_bars : C29
  src src/header/bar.rs
root root_n_rebar same want_n_rebar : C29
  src src/extended_capabilities/resizable_bar.rs
root root_z_rebar same want_z_rebar : C29
  src src/extended_capabilities/resizable_bar.rs
root root_n_links same want_n_links : C29
  src src/extended_capabilities/root_complex_link_declaration.rs
root root_z_links same want_z_links : C29
  src src/extended_capabilities/root_complex_link_declaration.rs
root root_n_pmux same want_n_pmux : C29
  src src/extended_capabilities/protocol_multiplexing.rs
root root_z_pmux same want_z_pmux : C29
  src src/extended_capabilities/protocol_multiplexing.rs
root root_n_acs same want_n_acs : C29
  src src/extended_capabilities/access_control_services.rs
root root_z_acs same want_z_acs : C29
  src src/extended_capabilities/access_control_services.rs
root root_n_pat same want_n_pat : C29
  src src/extended_capabilities/virtual_channel.rs
root root_z_pat same want_z_pat : C29
  src src/extended_capabilities/virtual_channel.rs
root root_n_fat same want_n_fat : C29
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_z_fat same want_z_fat : C29
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_n_vat same want_n_vat : C29
  src src/extended_capabilities/virtual_channel.rs
root root_z_vat same want_z_vat : C29
  src src/extended_capabilities/virtual_channel.rs
root root_n_vc same want_n_vc : C29
  src src/extended_capabilities/virtual_channel.rs
root root_z_vc same want_z_vc : C29
  src src/extended_capabilities/virtual_channel.rs
root root_n_mfvc same want_n_mfvc : C29
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_z_mfvc same want_z_mfvc : C29
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_n_lanes same want_n_lanes : C29
  src src/extended_capabilities/secondary_pci_express.rs
root root_z_lanes same want_z_lanes : C29
  src src/extended_capabilities/secondary_pci_express.rs
root root_n_ea same want_n_ea : C29
  src src/capabilities/enhanced_allocation.rs
root root_z_ea same want_z_ea : C29
  src src/capabilities/enhanced_allocation.rs
root root_n_caps same want_n_caps : C29
  src src/capabilities.rs
root root_z_caps same want_z_caps : C29
  src src/capabilities.rs
root root_n_ecaps same want_n_ecaps : C29
  src src/extended_capabilities.rs
root root_z_ecaps same want_z_ecaps : C29
  src src/extended_capabilities.rs
root root_n_caps_any same want_n_caps_any : C29
  src src/capabilities.rs
root root_z_caps_any same want_z_caps_any : C29
  src src/capabilities.rs
root root_n_ecaps_any same want_n_ecaps_any : C29
  src src/extended_capabilities.rs
root root_z_ecaps_any same want_z_ecaps_any : C29
  src src/extended_capabilities.rs
