// Written by tools/gen_same.py
root root_q_header_normal same want_q_header_normal : C28
  src src/header.rs
  order mix:80
  order contents
root root_q_header_bridge same want_q_header_bridge : C28
  src src/header.rs
  order mix:80
  order contents
root root_q_header_cardbus same want_q_header_cardbus : C28
  src src/header.rs
  order mix:80
  order contents
root root_q_header_type same want_q_header_type : C28
  src src/header.rs
  order mix:80
  order contents
root root_q_c01_power_management same want_q_c01_power_management : C28
  src src/capabilities/power_management_interface.rs
  order mix:80
  order contents
root root_q_c02_agp same want_q_c02_agp : C28
  src src/capabilities/accelerated_graphics_port.rs
  order mix:80
  order contents
root root_q_c03_vpd same want_q_c03_vpd : C28
  src src/capabilities/vital_product_data.rs
  order mix:80
  order contents
root root_q_c04_slot_id same want_q_c04_slot_id : C28
  src src/capabilities/slot_identification.rs
  order mix:80
  order contents
root root_q_c05_msi_32 same want_q_c05_msi_32 : C28
  src src/capabilities/message_signaled_interrups.rs
  order mix:80
  order contents
root root_q_c05_msi_64 same want_q_c05_msi_64 : C28
  src src/capabilities/message_signaled_interrups.rs
  order mix:80
  order contents
root root_q_c05_msi_32m same want_q_c05_msi_32m : C28
  src src/capabilities/message_signaled_interrups.rs
  order mix:80
  order contents
root root_q_c05_msi_64m same want_q_c05_msi_64m : C28
  src src/capabilities/message_signaled_interrups.rs
  order mix:80
  order contents
root root_q_c05_msi_control same want_q_c05_msi_control : C28
  src src/capabilities/message_signaled_interrups.rs
  order mix:80
  order contents
root root_q_c07_pci_x same want_q_c07_pci_x : C28
  src src/capabilities/pci_x.rs
  order mix:80
  order contents
root root_q_c07_pci_x_bridge same want_q_c07_pci_x_bridge : C28
  src src/capabilities/pci_x.rs
  order mix:80
  order contents
root root_q_c08_hypertransport same want_q_c08_hypertransport : C28
  src src/capabilities/hypertransport.rs
  order mix:80
  order contents
root root_q_c0a_debug_port same want_q_c0a_debug_port : C28
  src src/capabilities/debug_port.rs
  order mix:80
  order contents
root root_q_c0d_bridge_subsystem same want_q_c0d_bridge_subsystem : C28
  src src/capabilities/bridge_subsystem_vendor_id.rs
  order mix:80
  order contents
root root_q_c10_pci_express same want_q_c10_pci_express : C28
  src src/capabilities/pci_express.rs
  order mix:80
  order contents
root root_q_c11_msi_x same want_q_c11_msi_x : C28
  src src/capabilities/msi_x.rs
  order mix:80
  order contents
root root_q_c12_sata same want_q_c12_sata : C28
  src src/capabilities/sata.rs
  order mix:80
  order contents
root root_q_c13_advanced_features same want_q_c13_advanced_features : C28
  src src/capabilities/advanced_features.rs
  order mix:80
  order contents
root root_q_c15_fpb same want_q_c15_fpb : C28
  src src/capabilities/flattening_portal_bridge.rs
  order mix:80
  order contents
root root_q_virtio same want_q_virtio : C28
  src src/capabilities/vendor_specific.rs
  order mix:80
  order contents
root root_q_e01_aer same want_q_e01_aer : C28
  src src/extended_capabilities/advanced_error_reporting.rs
  order mix:80
  order contents
root root_q_e02_vc same want_q_e02_vc : C28
  src src/extended_capabilities/virtual_channel.rs
  order mix:80
  order contents
root root_q_e03_dsn same want_q_e03_dsn : C28
  src src/extended_capabilities/device_serial_number.rs
  order mix:80
  order contents
root root_q_e04_power_budgeting same want_q_e04_power_budgeting : C28
  src src/extended_capabilities/power_budgeting.rs
  order mix:80
  order contents
root root_q_e05_rc_link_declaration same want_q_e05_rc_link_declaration : C28
  src src/extended_capabilities/root_complex_link_declaration.rs
  order mix:80
  order contents
root root_q_e06_rc_internal_link same want_q_e06_rc_internal_link : C28
  src src/extended_capabilities/root_complex_internal_link_control.rs
  order mix:80
  order contents
root root_q_e07_rcec_association same want_q_e07_rcec_association : C28
  src src/extended_capabilities/root_complex_event_collector_endpoint_association.rs
  order mix:80
  order contents
root root_q_e08_mfvc same want_q_e08_mfvc : C28
  src src/extended_capabilities/multifunction_virtual_channel.rs
  order mix:80
  order contents
root root_q_e0a_rcrb same want_q_e0a_rcrb : C28
  src src/extended_capabilities/root_complex_register_block_header.rs
  order mix:80
  order contents
root root_q_e0b_vsec_body same want_q_e0b_vsec_body : C28
  src src/extended_capabilities/vendor_specific_extended_capability.rs
  order mix:80
  order contents
root root_q_e0b_vsec_cut same want_q_e0b_vsec_cut : C28
  src src/extended_capabilities/vendor_specific_extended_capability.rs
  order mix:80
  order contents
root root_q_e0b_vsec_length same want_q_e0b_vsec_length : C28
  src src/extended_capabilities/vendor_specific_extended_capability.rs
  order mix:80
  order contents
root root_q_e0c_cac same want_q_e0c_cac : C28
  src src/extended_capabilities/configuration_access_correlation.rs
  order mix:80
  order contents
root root_q_e0d_acs same want_q_e0d_acs : C28
  src src/extended_capabilities/access_control_services.rs
  order mix:80
  order contents
root root_q_e0e_ari same want_q_e0e_ari : C28
  src src/extended_capabilities/alternative_routing_id_interpolation.rs
  order mix:80
  order contents
root root_q_e0f_ats same want_q_e0f_ats : C28
  src src/extended_capabilities/address_translation_services.rs
  order mix:80
  order contents
root root_q_e10_sriov_fields same want_q_e10_sriov_fields : C28
  src src/extended_capabilities/single_root_io_virtualization.rs
  order mix:80
  order contents
root root_q_e12_multicast same want_q_e12_multicast : C28
  src src/extended_capabilities/multicast.rs
  order mix:80
  order contents
root root_q_e13_pri same want_q_e13_pri : C28
  src src/extended_capabilities/page_request_interface.rs
  order mix:80
  order contents
root root_q_e15_rebar same want_q_e15_rebar : C28
  src src/extended_capabilities/resizable_bar.rs
  order mix:80
  order contents
root root_q_e16_dpa same want_q_e16_dpa : C28
  src src/extended_capabilities/dynamic_power_allocation.rs
  order mix:80
  order contents
root root_q_e17_tph same want_q_e17_tph : C28
  src src/extended_capabilities/tph_requester.rs
  order mix:80
  order contents
root root_q_e18_ltr same want_q_e18_ltr : C28
  src src/extended_capabilities/latency_tolerance_reporting.rs
  order mix:80
  order contents
root root_q_e19_secondary_pcie same want_q_e19_secondary_pcie : C28
  src src/extended_capabilities/secondary_pci_express.rs
  order mix:80
  order contents
root root_q_e1a_pmux same want_q_e1a_pmux : C28
  src src/extended_capabilities/protocol_multiplexing.rs
  order mix:80
  order contents
root root_q_e1b_pasid same want_q_e1b_pasid : C28
  src src/extended_capabilities/process_address_space_id.rs
  order mix:80
  order contents
root root_q_e1c_lnr same want_q_e1c_lnr : C28
  src src/extended_capabilities/ln_requester.rs
  order mix:80
  order contents
root root_q_e1d_dpc same want_q_e1d_dpc : C28
  src src/extended_capabilities/downstream_port_containment.rs
  order mix:80
  order contents
root root_q_e1e_l1pm same want_q_e1e_l1pm : C28
  src src/extended_capabilities/l1_pm_substates.rs
  order mix:80
  order contents
root root_q_e1f_ptm same want_q_e1f_ptm : C28
  src src/extended_capabilities/precision_time_measurement.rs
  order mix:80
  order contents
root root_q_e20_m_phy same want_q_e20_m_phy : C28
  src src/extended_capabilities/pci_express_over_m_phy.rs
  order mix:80
  order contents
root root_q_e21_frs same want_q_e21_frs : C28
  src src/extended_capabilities/frs_queuing.rs
  order mix:80
  order contents
root root_q_e22_rtr same want_q_e22_rtr : C28
  src src/extended_capabilities/readiness_time_reporting.rs
  order mix:80
  order contents
root root_q_e23_dvsec same want_q_e23_dvsec : C28
  src src/extended_capabilities/designated_vendor_specific_extended_capability.rs
  order mix:80
  order contents
root root_r_header same want_r_header : C28
  src src/header.rs
root root_r_c01_power_management same want_r_c01_power_management : C28
  src src/capabilities/power_management_interface.rs
root root_r_c02_agp same want_r_c02_agp : C28
  src src/capabilities/accelerated_graphics_port.rs
root root_r_c03_vpd same want_r_c03_vpd : C28
  src src/capabilities/vital_product_data.rs
root root_r_c04_slot_id same want_r_c04_slot_id : C28
  src src/capabilities/slot_identification.rs
root root_r_c07_pci_x same want_r_c07_pci_x : C28
  src src/capabilities/pci_x.rs
root root_r_c07_pci_x_bridge same want_r_c07_pci_x_bridge : C28
  src src/capabilities/pci_x.rs
root root_r_c08_hypertransport same want_r_c08_hypertransport : C28
  src src/capabilities/hypertransport.rs
root root_r_c0a_debug_port same want_r_c0a_debug_port : C28
  src src/capabilities/debug_port.rs
root root_r_c0d_bridge_subsystem same want_r_c0d_bridge_subsystem : C28
  src src/capabilities/bridge_subsystem_vendor_id.rs
root root_r_c10_pci_express same want_r_c10_pci_express : C28
  src src/capabilities/pci_express.rs
root root_r_c11_msi_x same want_r_c11_msi_x : C28
  src src/capabilities/msi_x.rs
root root_r_c12_sata same want_r_c12_sata : C28
  src src/capabilities/sata.rs
root root_r_c13_advanced_features same want_r_c13_advanced_features : C28
  src src/capabilities/advanced_features.rs
root root_r_c15_fpb same want_r_c15_fpb : C28
  src src/capabilities/flattening_portal_bridge.rs
root root_r_e01_aer same want_r_e01_aer : C28
  src src/extended_capabilities/advanced_error_reporting.rs
root root_r_e02_vc same want_r_e02_vc : C28
  src src/extended_capabilities/virtual_channel.rs
root root_r_e03_dsn same want_r_e03_dsn : C28
  src src/extended_capabilities/device_serial_number.rs
root root_r_e04_power_budgeting same want_r_e04_power_budgeting : C28
  src src/extended_capabilities/power_budgeting.rs
root root_r_e05_rc_link_declaration same want_r_e05_rc_link_declaration : C28
  src src/extended_capabilities/root_complex_link_declaration.rs
root root_r_e06_rc_internal_link same want_r_e06_rc_internal_link : C28
  src src/extended_capabilities/root_complex_internal_link_control.rs
root root_r_e07_rcec_association same want_r_e07_rcec_association : C28
  src src/extended_capabilities/root_complex_event_collector_endpoint_association.rs
root root_r_e08_mfvc same want_r_e08_mfvc : C28
  src src/extended_capabilities/multifunction_virtual_channel.rs
root root_r_e0a_rcrb same want_r_e0a_rcrb : C28
  src src/extended_capabilities/root_complex_register_block_header.rs
root root_r_e0b_vsec same want_r_e0b_vsec : C28
  src src/extended_capabilities/vendor_specific_extended_capability.rs
root root_r_e0c_cac same want_r_e0c_cac : C28
  src src/extended_capabilities/configuration_access_correlation.rs
root root_r_e0d_acs same want_r_e0d_acs : C28
  src src/extended_capabilities/access_control_services.rs
root root_r_e0e_ari same want_r_e0e_ari : C28
  src src/extended_capabilities/alternative_routing_id_interpolation.rs
root root_r_e0f_ats same want_r_e0f_ats : C28
  src src/extended_capabilities/address_translation_services.rs
root root_r_e10_sriov same want_r_e10_sriov : C28
  src src/extended_capabilities/single_root_io_virtualization.rs
root root_r_e12_multicast same want_r_e12_multicast : C28
  src src/extended_capabilities/multicast.rs
root root_r_e13_pri same want_r_e13_pri : C28
  src src/extended_capabilities/page_request_interface.rs
root root_r_e15_rebar same want_r_e15_rebar : C28
  src src/extended_capabilities/resizable_bar.rs
root root_r_e16_dpa same want_r_e16_dpa : C28
  src src/extended_capabilities/dynamic_power_allocation.rs
root root_r_e17_tph same want_r_e17_tph : C28
  src src/extended_capabilities/tph_requester.rs
root root_r_e18_ltr same want_r_e18_ltr : C28
  src src/extended_capabilities/latency_tolerance_reporting.rs
root root_r_e19_secondary_pcie same want_r_e19_secondary_pcie : C28
  src src/extended_capabilities/secondary_pci_express.rs
root root_r_e1a_pmux same want_r_e1a_pmux : C28
  src src/extended_capabilities/protocol_multiplexing.rs
root root_r_e1b_pasid same want_r_e1b_pasid : C28
  src src/extended_capabilities/process_address_space_id.rs
root root_r_e1c_lnr same want_r_e1c_lnr : C28
  src src/extended_capabilities/ln_requester.rs
root root_r_e1d_dpc same want_r_e1d_dpc : C28
  src src/extended_capabilities/downstream_port_containment.rs
root root_r_e1e_l1pm same want_r_e1e_l1pm : C28
  src src/extended_capabilities/l1_pm_substates.rs
root root_r_e1f_ptm same want_r_e1f_ptm : C28
  src src/extended_capabilities/precision_time_measurement.rs
root root_r_e20_m_phy same want_r_e20_m_phy : C28
  src src/extended_capabilities/pci_express_over_m_phy.rs
root root_r_e21_frs same want_r_e21_frs : C28
  src src/extended_capabilities/frs_queuing.rs
root root_r_e22_rtr same want_r_e22_rtr : C28
  src src/extended_capabilities/readiness_time_reporting.rs
root root_r_e23_dvsec same want_r_e23_dvsec : C28
  src src/extended_capabilities/designated_vendor_specific_extended_capability.rs
root root_q_header_bar same want_q_header_bar : C28
  src src/header.rs
  order mix:80
root root_q_sriov_bar same want_q_sriov_bar : C28
  src src/extended_capabilities/single_root_io_virtualization.rs
  order mix:80
