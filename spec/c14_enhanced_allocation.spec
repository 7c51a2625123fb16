root root_c14_enhanced_allocation : C16 C02
  src src/capabilities/enhanced_allocation.rs
  order @0.0:6<<4
  let ok = len1 >= 64
  let bridge = r1@0xe[0+:7] == 1
  let n = @0x0[0+:6]
  . when ok = len < 2 ? Err : bridge && len < 6 ? Err : Ok
  Err = len < 2 ? NumEntries : Type1SecondDw
  Ok.num_entries = n
  Ok.type_1_second_dw = bridge ? Some : None
  Ok.type_1_second_dw.Some.fixed_secondary_bus_number = @0x2
  Ok.type_1_second_dw.Some.fixed_subordinate_bus_number = @0x3
  let o0 = bridge ? 6 : 2
  let es0 = byte(o0) & 7
  let b64_0 = (byte(o0 + 4) >> 1) & 1
  let m64_0 = (byte(o0 + 8) >> 1) & 1
  let need0 = o0 + 12 + ((b64_0 + m64_0) << 2)
  Ok.entries.#0 = n <= 0 ? None : len < o0 + 12 ? None : len < need0 ? None : len < o0 + ((es0 + 1) << 2) ? None : Some
  Ok.entries.#0.Some.entry_size = es0
  Ok.entries.#0.Some.bar_equivalent_indicator = match byte(o0) >> 4 { 0: Location10h, 1: Location14h, 2: Location18h, 3: Location1Ch, 4: Location20h,
      5: Location24h, 6: BehindType1Function, 7: EquivalentNotIndicated, 8: ExpansionRomBaseAddress, 9: VfBar0, 10: VfBar1, 11: VfBar2,
      12: VfBar3, 13: VfBar4, 14: VfBar5, 15: Reserved }
  Ok.entries.#0.Some.primary_properties = match byte(o0 + 1) { 0: MemorySpaceNonPrefetchable, 1: MemorySpacePrefetchable, 2: IoSpace, 3: PfForVfMemorySpacePrefetchable,
      4: PfForVfMemorySpaceNonPrefetchable, 5: Type1ForAbbMemoryNonPrefetchable, 6: Type1ForAbbMemoryPrefetchable, 7: Type1ForAbbIoSpace,
      0xfd: UnavailableMemorySpace, 0xfe: UnavailableIoSpace, 0xff: Unavailable, _: Reserved }
  Ok.entries.#0.Some.primary_properties.Reserved = byte(o0 + 1)
  Ok.entries.#0.Some.secondary_properties = match byte(o0 + 2) { 0: MemorySpaceNonPrefetchable, 1: MemorySpacePrefetchable, 2: IoSpace, 3: PfForVfMemorySpacePrefetchable,
      4: PfForVfMemorySpaceNonPrefetchable, 5: Type1ForAbbMemoryNonPrefetchable, 6: Type1ForAbbMemoryPrefetchable, 7: Type1ForAbbIoSpace,
      0xfd: UnavailableMemorySpace, 0xfe: UnavailableIoSpace, 0xff: Unavailable, _: Reserved }
  Ok.entries.#0.Some.secondary_properties.Reserved = byte(o0 + 2)
  Ok.entries.#0.Some.writable = (byte(o0 + 3) >> 6) & 1
  Ok.entries.#0.Some.enable = byte(o0 + 3) >> 7
  Ok.entries.#0.Some.base = b64_0 ? U64 : U32
  Ok.entries.#0.Some.max_offset = m64_0 ? U64 : U32
  Ok.entries.#0.Some.base.U32 = le4(o0 + 4) & 0xfffffffc
  Ok.entries.#0.Some.max_offset.U32 = le4(o0 + 8) | 3
  Ok.entries.#0.Some.base.U64 = (le4(o0 + 4) & 0xfffffffc) | le4(o0 + 12) << 32
  Ok.entries.#0.Some.max_offset.U64 = le4(o0 + 8) | 3 | le4(b64_0 ? o0 + 16 : o0 + 12) << 32
  let o1 = o0 + ((es0 + 1) << 2)
  let es1 = byte(o1) & 7
  let b64_1 = (byte(o1 + 4) >> 1) & 1
  let m64_1 = (byte(o1 + 8) >> 1) & 1
  let need1 = o1 + 12 + ((b64_1 + m64_1) << 2)
  Ok.entries.#1 = n <= 1 ? None : len < o1 + 12 ? None : len < need1 ? None : len < o1 + ((es1 + 1) << 2) ? None : Some
  Ok.entries.#1.Some.entry_size = es1
  Ok.entries.#1.Some.bar_equivalent_indicator = match byte(o1) >> 4 { 0: Location10h, 1: Location14h, 2: Location18h, 3: Location1Ch, 4: Location20h,
      5: Location24h, 6: BehindType1Function, 7: EquivalentNotIndicated, 8: ExpansionRomBaseAddress, 9: VfBar0, 10: VfBar1, 11: VfBar2,
      12: VfBar3, 13: VfBar4, 14: VfBar5, 15: Reserved }
  Ok.entries.#1.Some.primary_properties = match byte(o1 + 1) { 0: MemorySpaceNonPrefetchable, 1: MemorySpacePrefetchable, 2: IoSpace, 3: PfForVfMemorySpacePrefetchable,
      4: PfForVfMemorySpaceNonPrefetchable, 5: Type1ForAbbMemoryNonPrefetchable, 6: Type1ForAbbMemoryPrefetchable, 7: Type1ForAbbIoSpace,
      0xfd: UnavailableMemorySpace, 0xfe: UnavailableIoSpace, 0xff: Unavailable, _: Reserved }
  Ok.entries.#1.Some.primary_properties.Reserved = byte(o1 + 1)
  Ok.entries.#1.Some.secondary_properties = match byte(o1 + 2) { 0: MemorySpaceNonPrefetchable, 1: MemorySpacePrefetchable, 2: IoSpace, 3: PfForVfMemorySpacePrefetchable,
      4: PfForVfMemorySpaceNonPrefetchable, 5: Type1ForAbbMemoryNonPrefetchable, 6: Type1ForAbbMemoryPrefetchable, 7: Type1ForAbbIoSpace,
      0xfd: UnavailableMemorySpace, 0xfe: UnavailableIoSpace, 0xff: Unavailable, _: Reserved }
  Ok.entries.#1.Some.secondary_properties.Reserved = byte(o1 + 2)
  Ok.entries.#1.Some.writable = (byte(o1 + 3) >> 6) & 1
  Ok.entries.#1.Some.enable = byte(o1 + 3) >> 7
  Ok.entries.#1.Some.base = b64_1 ? U64 : U32
  Ok.entries.#1.Some.max_offset = m64_1 ? U64 : U32
  Ok.entries.#1.Some.base.U32 = le4(o1 + 4) & 0xfffffffc
  Ok.entries.#1.Some.max_offset.U32 = le4(o1 + 8) | 3
  Ok.entries.#1.Some.base.U64 = (le4(o1 + 4) & 0xfffffffc) | le4(o1 + 12) << 32
  Ok.entries.#1.Some.max_offset.U64 = le4(o1 + 8) | 3 | le4(b64_1 ? o1 + 16 : o1 + 12) << 32
  let o2 = o1 + ((es1 + 1) << 2)
  let es2 = byte(o2) & 7
  let b64_2 = (byte(o2 + 4) >> 1) & 1
  let m64_2 = (byte(o2 + 8) >> 1) & 1
  let need2 = o2 + 12 + ((b64_2 + m64_2) << 2)
  Ok.entries.#2 = n <= 2 ? None : len < o2 + 12 ? None : len < need2 ? None : len < o2 + ((es2 + 1) << 2) ? None : Some
