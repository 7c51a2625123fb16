root root_e10_sriov : C19 C02
  src src/extended_capabilities/single_root_io_virtualization.rs
  . = len < 60 ? Err : Ok
  Ok.sriov_capabilities.vf_migration_capable = @0x0.0
  Ok.sriov_capabilities.ari_capable_hierarchy_preserved = @0x0.1
  Ok.sriov_capabilities.vf_10bit_tag_requester_supported = @0x0.2
  Ok.sriov_capabilities.vf_migration_interrupt_message_number = @0x2[5+:11]
  Ok.sriov_control.vf_enable = @0x4.0
  Ok.sriov_control.vf_migration_enable = @0x4.1
  Ok.sriov_control.vf_migration_interrupt_enable = @0x4.2
  Ok.sriov_control.vf_mse = @0x4.3
  Ok.sriov_control.ari_capable_hierarchy = @0x4.4
  Ok.sriov_control.vf_10bit_tag_requester_enable = @0x4.5
  Ok.sriov_status.vf_migration_status = @0x6.0
  Ok.initial_vfs = @0x8[0+:16]
  Ok.total_vfs = @0xa[0+:16]
  Ok.num_vfs = @0xc[0+:16]
  Ok.function_dependency_link = @0xe[0+:8]
  Ok.first_vf_offset = @0x10[0+:16]
  Ok.vf_stride = @0x12[0+:16]
  Ok.vf_device_id = @0x16[0+:16]
  Ok.page_sizes.supported = @0x18[0+:32]
  Ok.page_sizes.system = @0x1c[0+:32]
  Ok.base_addresses.[0] = @0x20[0+:32]
  Ok.base_addresses.[1] = @0x24[0+:32]
  Ok.base_addresses.[2] = @0x28[0+:32]
  Ok.base_addresses.[3] = @0x2c[0+:32]
  Ok.base_addresses.[4] = @0x30[0+:32]
  Ok.base_addresses.[5] = @0x34[0+:32]
  Ok.vf_migration_state_array_offset = @0x38[0+:32]
