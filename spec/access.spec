// Written by tools/gen_access.py from the pairs in harness/src/access.rs
root root_x_hdr_rom same want_x_hdr_rom : C08 C01
  src src/header.rs
root root_x_hdr_cardbus same want_x_hdr_cardbus : C08 C01
  src src/header.rs
root root_x_hdr_bridge_io same want_x_hdr_bridge_io : C08 C01
  src src/header.rs
root root_x_hdr_bridge_mem same want_x_hdr_bridge_mem : C08 C01
  src src/header.rs
root root_x_bars_6 same want_x_bars_6 : C09 C01
  src src/header/bar.rs
root root_x_bars_2 same want_x_bars_2 : C09 C01
  src src/header/bar.rs
root root_x_bars_1 same want_x_bars_1 : C09 C01
  src src/header/bar.rs
root root_x_bars_back_6 same want_x_bars_back_6 : C26 C01
  src src/header/bar.rs
root root_x_bars_back_2 same want_x_bars_back_2 : C26 C01
  src src/header/bar.rs
root root_x_bars_back_1 same want_x_bars_back_1 : C26 C01
  src src/header/bar.rs
root root_x_class same want_x_class : C10 C01
  src src/header/class_code.rs
root root_x_pm_data same want_x_pm_data : C13 C01
  src src/capabilities/power_management_interface.rs
root root_x_sata_offset same want_x_sata_offset : C13 C01
  src src/capabilities/sata.rs
root root_x_pcix_values same want_x_pcix_values : C13 C01
  src src/capabilities/pci_x.rs
root root_x_pcix_bus_mode same want_x_pcix_bus_mode : C13 C01
  src src/capabilities/pci_x.rs
root root_x_msi_vectors same want_x_msi_vectors : C12 C01
  src src/capabilities/message_signaled_interrups.rs
root root_x_ht_freq same want_x_ht_freq : C14 C01
  src src/capabilities/hypertransport.rs
root root_x_ht_msi same want_x_ht_msi : C14 C01
  src src/capabilities/hypertransport.rs
root root_x_ht_code same want_x_ht_code : C14 C01
  src src/capabilities/hypertransport.rs
root root_x_ecap_header same want_x_ecap_header : C06 C01
  src src/extended_capabilities.rs
root root_x_pcie_kind same want_x_pcie_kind : C11 C01
  src src/capabilities/pci_express.rs
root root_x_pcie_power same want_x_pcie_power : C11 C01
  src src/capabilities/pci_express.rs
root root_x_pcie_timeouts same want_x_pcie_timeouts : C11 C01
  src src/capabilities/pci_express.rs
root root_x_dpc_reason same want_x_dpc_reason : C17 C01
  src src/extended_capabilities/downstream_port_containment.rs
root root_x_ltr_value same want_x_ltr_value : C21 C01
  src src/extended_capabilities/latency_tolerance_reporting.rs
root root_x_l1pm_value same want_x_l1pm_value : C21 C01
  src src/extended_capabilities/l1_pm_substates.rs
root root_x_rtr_value same want_x_rtr_value : C21 C01
  src src/extended_capabilities/readiness_time_reporting.rs
root root_x_pb_multiplier same want_x_pb_multiplier : C21 C01
  src src/extended_capabilities/power_budgeting.rs
root root_x_rebar_power same want_x_rebar_power : C22 C01
  src src/extended_capabilities/resizable_bar.rs
  order s2:64
root root_x_rebar same want_x_rebar : C22 C01
  src src/extended_capabilities/resizable_bar.rs
root root_x_vc_channels same want_x_vc_channels : C18 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_acs_vectors same want_x_acs_vectors : C19 C01
  src src/extended_capabilities/access_control_services.rs
root root_x_lanes same want_x_lanes : C25 C01
  src src/extended_capabilities/secondary_pci_express.rs
root root_x_lane same want_x_lane : C25 C01
  src src/extended_capabilities/secondary_pci_express.rs
root root_x_pmux same want_x_pmux : C25 C01
  src src/extended_capabilities/protocol_multiplexing.rs
root root_x_links same want_x_links : C23 C01
  src src/extended_capabilities/root_complex_link_declaration.rs
root root_x_link_address same want_x_link_address : C23 C01
  src src/extended_capabilities/root_complex_link_declaration.rs
root root_x_cxl same want_x_cxl : C24 C01
  src src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
root root_x_vc_vat_0 same want_x_vc_vat_0 : C18 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_vc_vat_1 same want_x_vc_vat_1 : C18 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_vc_vat_2 same want_x_vc_vat_2 : C18 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_vc_vat_3 same want_x_vc_vat_3 : C18 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_vc_vat_4 same want_x_vc_vat_4 : C18 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_vc_pat_00 same want_x_vc_pat_00 : C18 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_vc_pat_01 same want_x_vc_pat_01 : C18 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_vc_pat_05 same want_x_vc_pat_05 : C18 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_vc_pat_12 same want_x_vc_pat_12 : C18 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_vc_pat_14 same want_x_vc_pat_14 : C18 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_vc_pat_16 same want_x_vc_pat_16 : C18 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_vc_pat_23 same want_x_vc_pat_23 : C18 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_vc_pat_25 same want_x_vc_pat_25 : C18 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_vc_pat_31 same want_x_vc_pat_31 : C18 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_vc_pat_35 same want_x_vc_pat_35 : C18 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_vc_pat_37 same want_x_vc_pat_37 : C18 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_mfvc_channels same want_x_mfvc_channels : C18 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_mfvc_fat_00 same want_x_mfvc_fat_00 : C18 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_mfvc_fat_01 same want_x_mfvc_fat_01 : C18 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_mfvc_fat_05 same want_x_mfvc_fat_05 : C18 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_mfvc_fat_12 same want_x_mfvc_fat_12 : C18 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_mfvc_fat_14 same want_x_mfvc_fat_14 : C18 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_mfvc_fat_16 same want_x_mfvc_fat_16 : C18 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_mfvc_fat_23 same want_x_mfvc_fat_23 : C18 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_mfvc_fat_35 same want_x_mfvc_fat_35 : C18 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_mfvc_vat_0 same want_x_mfvc_vat_0 : C18 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_mfvc_vat_1 same want_x_mfvc_vat_1 : C18 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_mfvc_vat_2 same want_x_mfvc_vat_2 : C18 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_mfvc_vat_3 same want_x_mfvc_vat_3 : C18 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_mfvc_vat_5 same want_x_mfvc_vat_5 : C18 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_rt_bist same want_x_rt_bist : C26 C01
  src src/header.rs
root root_x_rt_pin same want_x_rt_pin : C26 C01
  src src/header.rs
root root_x_rt_rom same want_x_rt_rom : C26 C01
  src src/header.rs
root root_x_rt_rom64 same want_x_rt_rom64 : C26 C01
  src src/header.rs
root root_x_rt_header_type same want_x_rt_header_type : C26 C01
  src src/header.rs
root root_x_rt_io_range same want_x_rt_io_range : C26 C01
  src src/header.rs
root root_x_rt_data_select same want_x_rt_data_select : C26 C01
  src src/capabilities/power_management_interface.rs
root root_x_rt_link_speed same want_x_rt_link_speed : C26 C01
  src src/capabilities/pci_express.rs
root root_x_rt_link_width same want_x_rt_link_width : C26 C01
  src src/capabilities/pci_express.rs
root root_x_rt_timeout_ranges same want_x_rt_timeout_ranges : C26 C01
  src src/capabilities/pci_express.rs
root root_x_rt_tph_completer same want_x_rt_tph_completer : C26 C01
  src src/capabilities/pci_express.rs
root root_x_rt_ln_system same want_x_rt_ln_system : C26 C01
  src src/capabilities/pci_express.rs
root root_x_rt_obff same want_x_rt_obff : C26 C01
  src src/capabilities/pci_express.rs
root root_x_rt_end_end same want_x_rt_end_end : C26 C01
  src src/capabilities/pci_express.rs
root root_x_rt_emergency same want_x_rt_emergency : C26 C01
  src src/capabilities/pci_express.rs
root root_x_rt_timeout_value same want_x_rt_timeout_value : C26 C01
  src src/capabilities/pci_express.rs
root root_x_rt_obff_enable same want_x_rt_obff_enable : C26 C01
  src src/capabilities/pci_express.rs
root root_x_rt_prefix_blocking same want_x_rt_prefix_blocking : C26 C01
  src src/capabilities/pci_express.rs
root root_x_rt_revision same want_x_rt_revision : C26 C01
  src src/capabilities/hypertransport.rs
root root_x_rt_cal_cycle same want_x_rt_cal_cycle : C26 C01
  src src/capabilities/accelerated_graphics_port.rs
root root_x_rt_rate_support same want_x_rt_rate_support : C26 C01
  src src/capabilities/accelerated_graphics_port.rs
root root_x_rt_rate_enabled same want_x_rt_rate_enabled : C26 C01
  src src/capabilities/accelerated_graphics_port.rs
root root_x_rt_sf_coverage same want_x_rt_sf_coverage : C26 C01
  src src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
root root_x_rt_max_latency same want_x_rt_max_latency : C26 C01
  src src/extended_capabilities/latency_tolerance_reporting.rs
root root_x_rt_power_on_scale same want_x_rt_power_on_scale : C26 C01
  src src/extended_capabilities/l1_pm_substates.rs
root root_x_rt_l1pm same want_x_rt_l1pm : C26 C01
  src src/extended_capabilities/l1_pm_substates.rs
root root_x_rt_fa_select same want_x_rt_fa_select : C26 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_rt_vc_status same want_x_rt_vc_status : C26 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_rt_vc_capability same want_x_rt_vc_capability : C26 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_rt_vc_control same want_x_rt_vc_control : C26 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_rt_fa_capability same want_x_rt_fa_capability : C26 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_rt_evc same want_x_rt_evc : C26 C01
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_x_rt_pa_select same want_x_rt_pa_select : C26 C01
  src src/extended_capabilities/virtual_channel.rs
root root_x_rt_pmux_entry same want_x_rt_pmux_entry : C26 C01
  src src/extended_capabilities/protocol_multiplexing.rs
root root_x_rt_element_type same want_x_rt_element_type : C26 C01
  src src/extended_capabilities/root_complex_link_declaration.rs
root root_x_ea_step same want_x_ea_step : C16 C01
  src src/capabilities/enhanced_allocation.rs
root root_x_link_step same want_x_link_step : C23 C01
  src src/extended_capabilities/root_complex_link_declaration.rs
root root_x_lane_step same want_x_lane_step : C25 C01
  src src/extended_capabilities/secondary_pci_express.rs
root root_f_ea same want_f_ea : C16F
  src src/capabilities/enhanced_allocation.rs
