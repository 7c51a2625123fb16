root root_e15_rebar : C22 C02
  src src/extended_capabilities/resizable_bar.rs
  . = match @0x8[5+:3] { 1: (len < 12 ? Err : Ok), 2: (len < 20 ? Err : Ok), 3: (len < 28 ? Err : Ok), 4: (len < 36 ? Err : Ok),
      5: (len < 44 ? Err : Ok), 6: (len < 52 ? Err : Ok), _: Err }
  Ok.#0 = Some
  Ok.#0.Some.capability.support_map_from_1mb_to_128tb = @0x4[0+:32]
  Ok.#0.Some.control.bar_index = @0x8[0+:3]
  Ok.#0.Some.control.number_of_resizable_bars = @0x8[5+:3]
  Ok.#0.Some.control.bar_size = @0x9[0+:6]
  Ok.#0.Some.control.support_map_from_256tb_to_8eb = @0xa[0+:16]
  Ok.#1 = match @0x8[5+:3] { 1: None, _: Some }
  Ok.#1.Some.capability.support_map_from_1mb_to_128tb = @0xc[0+:32]
  Ok.#1.Some.control.bar_index = @0x10[0+:3]
  Ok.#1.Some.control.number_of_resizable_bars = @0x10[5+:3]
  Ok.#1.Some.control.bar_size = @0x11[0+:6]
  Ok.#1.Some.control.support_map_from_256tb_to_8eb = @0x12[0+:16]
  Ok.#2 = match @0x8[5+:3] { 2: None, _: Some }
  Err = match @0x8[5+:3] { 0|7: (len < 12 ? FirstEntry : NumberOfResizableBars), 1: FirstEntry, _: (len < 12 ? FirstEntry : ShortData) }
  Err.NumberOfResizableBars.value = @0x8[5+:3]
