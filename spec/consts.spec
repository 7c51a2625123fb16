root root_d_layout same want_d_layout : C30
  src src/lib.rs
root root_d_sizes same want_d_sizes : C30
  src src/capabilities.rs
root root_d_defaults same want_d_defaults : C30
  src src/header.rs
root root_d_bar_sizes same want_d_bar_sizes : C30
  src src/extended_capabilities/resizable_bar.rs
  order contents
root root_d_order same want_d_order : C30
  src src/capabilities/pci_express.rs
root root_d_cxl same want_d_cxl : C30
  src src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
root root_d_timeouts same want_d_timeouts : C30
  src src/capabilities/pci_express.rs
root root_d_phases same want_d_phases : C18
  src src/extended_capabilities/virtual_channel.rs
