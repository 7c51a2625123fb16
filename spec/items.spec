root root_i_pm_data same want_i_pm_data : C28
  src src/capabilities/power_management_interface.rs
  order mix:80
  order contents
root root_i_lane same want_i_lane : C28
  src src/extended_capabilities/secondary_pci_express.rs
  order mix:80
  order contents
root root_i_link same want_i_link : C28
  src src/extended_capabilities/root_complex_link_declaration.rs
  order mix:80
  order contents
root root_i_rebar same want_i_rebar : C28
  src src/extended_capabilities/resizable_bar.rs
  order mix:80
  order contents
root root_i_pmux same want_i_pmux : C28
  src src/extended_capabilities/protocol_multiplexing.rs
  order mix:80
  order contents
root root_i_pat same want_i_pat : C28
  src src/extended_capabilities/virtual_channel.rs
  order mix:80
  order contents
root root_i_fat same want_i_fat : C28
  src src/extended_capabilities/multifunction_virtual_channel.rs
  order mix:80
  order contents
root root_i_vat same want_i_vat : C28
  src src/extended_capabilities/virtual_channel.rs
  order mix:80
  order contents
root root_i_vc same want_i_vc : C28
  src src/extended_capabilities/virtual_channel.rs
  order mix:80
  order contents
root root_i_mfvc same want_i_mfvc : C28
  src src/extended_capabilities/multifunction_virtual_channel.rs
  order mix:80
  order contents
root root_i_bar same want_i_bar : C28
  src src/header/bar.rs
  order mix:80
  order contents
root root_i_ea_entry same want_i_ea_entry : C28
  src src/capabilities/enhanced_allocation.rs
  order mix:80
  order contents
root root_i_ea same want_i_ea : C28
  src src/capabilities/enhanced_allocation.rs
  order mix:80
  order contents
root root_i_ea_bridge same want_i_ea_bridge : C28
  src src/capabilities/enhanced_allocation.rs
  order mix:80
  order contents
root root_i_vendor same want_i_vendor : C28
  src src/capabilities/vendor_specific.rs
  order mix:80
  order contents
root root_i_cap same want_i_cap : C28
  src src/capabilities.rs
  order mix:80
  order contents
root root_i_ecap same want_i_ecap : C28
  src src/extended_capabilities.rs
  order mix:80
  order contents
root root_o_pm_data same want_o_pm_data : C28
  src src/capabilities/power_management_interface.rs
root root_o_lane same want_o_lane : C28
  src src/extended_capabilities/secondary_pci_express.rs
root root_o_link same want_o_link : C28
  src src/extended_capabilities/root_complex_link_declaration.rs
root root_o_rebar same want_o_rebar : C28
  src src/extended_capabilities/resizable_bar.rs
root root_o_pmux same want_o_pmux : C28
  src src/extended_capabilities/protocol_multiplexing.rs
root root_o_pat same want_o_pat : C28
  src src/extended_capabilities/virtual_channel.rs
root root_o_fat same want_o_fat : C28
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_o_vat same want_o_vat : C28
  src src/extended_capabilities/virtual_channel.rs
root root_o_vc same want_o_vc : C28
  src src/extended_capabilities/virtual_channel.rs
root root_o_mfvc same want_o_mfvc : C28
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_o_bar same want_o_bar : C28
  src src/header/bar.rs
root root_o_ea_entry same want_o_ea_entry : C28
  src src/capabilities/enhanced_allocation.rs
root root_o_ea same want_o_ea : C28
  src src/capabilities/enhanced_allocation.rs
root root_o_ea_bridge same want_o_ea_bridge : C28
  src src/capabilities/enhanced_allocation.rs
root root_o_ecap same want_o_ecap : C28
  src src/extended_capabilities.rs
root root_i_cap_apart same want_i_cap_apart : C02
  src src/capabilities.rs
  order mix:80
root root_i_ecap_apart same want_i_ecap_apart : C02
  src src/extended_capabilities.rs
  order mix:80
