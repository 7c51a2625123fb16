root root_e05_rc_link_declaration : C23 C02
  src src/extended_capabilities/root_complex_link_declaration.rs
  . = match @0x1[0+:8] { 0: Err, _: (len < 28 ? Err : Ok) }
  Ok.element_self_description.element_type = match @0x0[0+:4] { 0: ConfigurationSpaceElement, 1: SystemEgressPortOrInternalSink,
      2: InternalRootComplexLink, _: Reserved }
  Ok.element_self_description.element_type.Reserved = @0x0[0+:4]
  Ok.element_self_description.reserved = @0x0[4+:4]
  Ok.element_self_description.number_of_link_entries = @0x1[0+:8]
  Ok.element_self_description.component_id = @0x2[0+:8]
  Ok.element_self_description.port_number = @0x3[0+:8]
  Ok.link_entries.state = len >= 12 + 16 * @0x1 ? Valid : (len & 15) == 12 ? Incomplete : Invalid
  Ok.link_entries.#0 = Some
  Ok.link_entries.#0.Some.link_description.link_valid = @0xc.0
  Ok.link_entries.#0.Some.link_description.link_type = @0xc.1
  Ok.link_entries.#0.Some.link_description.associate_rcrb_header = @0xc.2
  Ok.link_entries.#0.Some.link_description.target_component_id = @0xe[0+:8]
  Ok.link_entries.#0.Some.link_description.target_port_number = @0xf[0+:8]
  Ok.link_entries.#0.Some.link_address = @0xc.1 ? ConfigurationSpace : MemoryMappedSpace
  Ok.link_entries.#0.Some.link_address.ConfigurationSpace.n = match @0x14[0+:3] { 0: 8, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, }
  Ok.link_entries.#0.Some.link_address.ConfigurationSpace.reserved = @0x14[3+:9]
  Ok.link_entries.#0.Some.link_address.ConfigurationSpace.function = @0x15[4+:3]
  Ok.link_entries.#0.Some.link_address.ConfigurationSpace.device = @0x15[7+:5]
  Ok.link_entries.#0.Some.link_address.ConfigurationSpace.bus = match @0x14[0+:3] { 0: @0x16[4+:8], 1: @0x16.4, 2: @0x16[4+:2],
      3: @0x16[4+:3], 4: @0x16[4+:4], 5: @0x16[4+:5], 6: @0x16[4+:6], 7: @0x16[4+:7], }
  Ok.link_entries.#0.Some.link_address.MemoryMappedSpace = @0x14[0+:64]
  Ok.link_entries.#0.Some.link_address.ConfigurationSpace.address = match @0x14[0+:3] { 0: @0x17[4+:36] << 28, 1: @0x16[5+:43] << 21,
      2: @0x16[6+:42] << 22, 3: @0x16[7+:41] << 23, 4: @0x17[0+:40] << 24, 5: @0x17[1+:39] << 25, 6: @0x17[2+:38] << 26,
      7: @0x17[3+:37] << 27, }
  Ok.link_entries.#1 = match @0x1[0+:8] { 1: None, _: (len < 44 ? None : Some) }
  Ok.link_entries.#1.Some.link_description.link_valid = @0x1c.0
  Ok.link_entries.#1.Some.link_description.link_type = @0x1c.1
  Ok.link_entries.#1.Some.link_description.associate_rcrb_header = @0x1c.2
  Ok.link_entries.#1.Some.link_description.target_component_id = @0x1e[0+:8]
  Ok.link_entries.#1.Some.link_description.target_port_number = @0x1f[0+:8]
  Ok.link_entries.#1.Some.link_address = @0x1c.1 ? ConfigurationSpace : MemoryMappedSpace
  Ok.link_entries.#1.Some.link_address.ConfigurationSpace.n = match @0x24[0+:3] { 0: 8, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, }
  Ok.link_entries.#1.Some.link_address.ConfigurationSpace.reserved = @0x24[3+:9]
  Ok.link_entries.#1.Some.link_address.ConfigurationSpace.function = @0x25[4+:3]
  Ok.link_entries.#1.Some.link_address.ConfigurationSpace.device = @0x25[7+:5]
  Ok.link_entries.#1.Some.link_address.ConfigurationSpace.bus = match @0x24[0+:3] { 0: @0x26[4+:8], 1: @0x26.4, 2: @0x26[4+:2],
      3: @0x26[4+:3], 4: @0x26[4+:4], 5: @0x26[4+:5], 6: @0x26[4+:6], 7: @0x26[4+:7], }
  Ok.link_entries.#1.Some.link_address.MemoryMappedSpace = @0x24[0+:64]
  Ok.link_entries.#1.Some.link_address.ConfigurationSpace.address = match @0x24[0+:3] { 0: @0x27[4+:36] << 28, 1: @0x26[5+:43] << 21,
      2: @0x26[6+:42] << 22, 3: @0x26[7+:41] << 23, 4: @0x27[0+:40] << 24, 5: @0x27[1+:39] << 25, 6: @0x27[2+:38] << 26,
      7: @0x27[3+:37] << 27, }
  Ok.link_entries.#2 = match @0x1[0+:8] { 2: None, _: (len < 60 ? None : Some) }
  Err = match @0x1[0+:8] { 0: (len < 4 ? ElementSelfDescription : NumberOfLinkEntries),
      _: (len < 4 ? ElementSelfDescription : len < 12 ? ReservedSpace : LinkEntry1) }
  Err.{LinkEntry1,ReservedSpace,NumberOfLinkEntries}.element_self_description.element_type = match @0x0[0+:4] { 0: ConfigurationSpaceElement,
      1: SystemEgressPortOrInternalSink, 2: InternalRootComplexLink, _: Reserved }
  Err.{LinkEntry1,ReservedSpace,NumberOfLinkEntries}.element_self_description.element_type.Reserved = @0x0[0+:4]
  Err.{LinkEntry1,ReservedSpace,NumberOfLinkEntries}.element_self_description.reserved = @0x0[4+:4]
  Err.{LinkEntry1,ReservedSpace}.element_self_description.number_of_link_entries = @0x1[0+:8]
  Err.{LinkEntry1,ReservedSpace,NumberOfLinkEntries}.element_self_description.component_id = @0x2[0+:8]
  Err.{LinkEntry1,ReservedSpace,NumberOfLinkEntries}.element_self_description.port_number = @0x3[0+:8]
  Err.NumberOfLinkEntries.element_self_description.number_of_link_entries = 0
root root_e05_dsn : C23 C02
  src src/extended_capabilities/root_complex_link_declaration.rs
  . = len < 8 ? Err : Ok
  Ok.lower_dword = @0x0[0+:32]
  Ok.upper_dword = @0x4[0+:32]
