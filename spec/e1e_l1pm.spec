root root_e1e_l1pm : C21 C02
  src src/extended_capabilities/l1_pm_substates.rs
  . = len < 12 ? Err : Ok
  Ok.l1_pm_substates_capabilities.pci_pm_l1_2_supported = @0x0.0
  Ok.l1_pm_substates_capabilities.pci_pm_l1_1_supported = @0x0.1
  Ok.l1_pm_substates_capabilities.aspm_l1_2_supported = @0x0.2
  Ok.l1_pm_substates_capabilities.aspm_l1_1_supported = @0x0.3
  Ok.l1_pm_substates_capabilities.l1_pm_substates_supported = @0x0.4
  Ok.l1_pm_substates_capabilities.port_common_mode_restore_time = @0x1[0+:8]
  Ok.l1_pm_substates_capabilities.port_t_power_on.value = @0x2[3+:5]
  Ok.l1_pm_substates_capabilities.port_t_power_on.scale = match @0x2[0+:2] { 0: Time2us, 1: Time10us, 2: Time100us, 3: Reserved, }
  Ok.l1_pm_substates_control_1.pci_pm_l1_2_enable = @0x4.0
  Ok.l1_pm_substates_control_1.pci_pm_l1_1_enable = @0x4.1
  Ok.l1_pm_substates_control_1.aspm_l1_2_enable = @0x4.2
  Ok.l1_pm_substates_control_1.aspm_l1_1_enable = @0x4.3
  Ok.l1_pm_substates_control_1.common_mode_restore_time = @0x5[0+:8]
  Ok.l1_pm_substates_control_1.ltr_l1_2_threshold.value = @0x6[0+:10]
  Ok.l1_pm_substates_control_1.ltr_l1_2_threshold.scale = @0x7[5+:3]
  Ok.l1_pm_substates_control_2.t_power_on.value = @0x8[3+:5]
  Ok.l1_pm_substates_control_2.t_power_on.scale = match @0x8[0+:2] { 0: Time2us, 1: Time10us, 2: Time100us, 3: Reserved, }
