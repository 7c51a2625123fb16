root root_c09_vendor_specific : C15 C02
  src src/capabilities/vendor_specific.rs
  order @0.0:8
  let ok = len1 >= 64
  let virtio = r1@0x0[0+:16] == 0x1af4 && r1@0x2[0+:16] >= 0x1000 && r1@0x2[0+:16] <= 0x107f
  // byte 0 is the length of the whole structure, id and next pointer included
  . when ok = len < 1 ? Err : @0x0 < 3 ? Err : len < @0x0 - 2 ? Err : virtio && @0x0 < 16 ? Err : Ok
  Err = len < 1 ? LengthUnreadable : @0x0 < 2 ? Length : @0x0 == 2 ? Data : len < @0x0 - 2 ? Data : Virtio
  Err.Length.val = @0x0
  Err.Data.size = @0x0 - 2
  Ok = virtio ? Virtio : Unspecified
  Ok.Unspecified = slice(1, @0x0 - 3)
  Ok.Virtio = match @0x1 { 1: CommonCfg, 2: Notify, 3: Isr, 4: DeviceCfg, _: Unknown }
  Ok.Virtio.{Unknown,DeviceCfg,Isr,Notify,CommonCfg}.bar = @0x2[0+:8]
  Ok.Virtio.{Unknown,DeviceCfg,Isr,Notify,CommonCfg}.offset = @0x6[0+:32]
  Ok.Virtio.{Unknown,DeviceCfg,Isr,Notify,CommonCfg}.size = @0xa[0+:32]
  Ok.Virtio.Notify.multiplier = @0x0 < 20 ? None : Some
  Ok.Virtio.Notify.multiplier.Some = @0xe[0+:32]
