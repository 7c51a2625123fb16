root root_virtio : C15 C02
  src src/capabilities/vendor_specific.rs
  . = len < 13 ? Err : Ok
  Ok = match @0x0[0+:8] { 1: CommonCfg, 2: Notify, 3: Isr, 4: DeviceCfg, _: Unknown }
  Ok.{Unknown,DeviceCfg,Isr,Notify,CommonCfg}.bar = @0x1[0+:8]
  Ok.{Unknown,DeviceCfg,Isr,Notify,CommonCfg}.offset = @0x5[0+:32]
  Ok.{Unknown,DeviceCfg,Isr,Notify,CommonCfg}.size = @0x9[0+:32]
  Ok.Notify.multiplier = len < 17 ? None : Some
  Ok.Notify.multiplier.Some = @0xd[0+:32]
  Err = Virtio
