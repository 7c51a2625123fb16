root root_c04_slot_id : C13 C02
  src src/capabilities/slot_identification.rs
  . = len < 2 ? Err : Ok
  Ok.expansion_slot.expansion_slots_provided = @0x0[0+:5]
  Ok.expansion_slot.first_in_chassis = @0x0.5
  Ok.chassis_number = @0x1[0+:8]
