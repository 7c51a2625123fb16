root root_c02_agp : C13 C02
  src src/capabilities/accelerated_graphics_port.rs
  . = len < 10 ? Err : Ok
  Ok.identifier.minor = @0x0[0+:4]
  Ok.identifier.major = @0x0[4+:4]
  Ok.status.rq = @0x5[0+:8]
  Ok.status.isoch_support = @0x4.1
  Ok.status.reserved = @0x4.0
  Ok.status.arqsz = @0x3[5+:3]
  Ok.status.cal_cycle = match @0x3[2+:3] { 0: Period4ms, 1: Period16ms, 2: Period64ms, 3: Period256ms, 7: CalibrationCycleNotNeeded, _: Reserved }
  Ok.status.cal_cycle.Reserved = @0x3[2+:3]
  Ok.status.sba = @0x3.1
  Ok.status.ita_coh = @0x3.0
  Ok.status.gart64b = @0x2.7
  Ok.status.htrans = @0x2.6
  Ok.status.over4g = @0x2.5
  Ok.status.fw = @0x2.4
  Ok.status.agp_3_0_mode = @0x2.3
  Ok.status.rate = match @0x2[0+:3] { 1: Speed4x, 2: Speed8x, 3: Speed4xAnd8x, _: Reserved }
  Ok.status.rate.Reserved = @0x2[0+:3]
  Ok.command.prq = @0x9[0+:8]
  Ok.command.parqsz = @0x7[5+:3]
  Ok.command.pcal_cycle = match @0x7[2+:3] { 0: Period4ms, 1: Period16ms, 2: Period64ms, 3: Period256ms, 7: CalibrationCycleNotNeeded, _: Reserved }
  Ok.command.pcal_cycle.Reserved = @0x7[2+:3]
  Ok.command.sba_enable = @0x7.1
  Ok.command.agp_enable = @0x7.0
  Ok.command.gart64b = @0x6.7
  Ok.command.over4g = @0x6.5
  Ok.command.fw_enable = @0x6.4
  Ok.command.drate = match @0x6[0+:3] { 1: Speed4x, 2: Speed8x, _: Reserved }
  Ok.command.drate.Reserved = @0x6[0+:3]
  Ok.isochronous_status = @0x4.1 ? (len < 14 ? None : Some) : None
  Ok.isochronous_status.Some.maxbw = @0xc[0+:8]
  Ok.isochronous_status.Some.isoch_n = @0xb[0+:8]
  Ok.isochronous_status.Some.isoch_y = @0xa[6+:2]
  Ok.isochronous_status.Some.isoch_l = @0xa[3+:3]
  Ok.isochronous_status.Some.isoch_error_code = @0xa[0+:2]
  Ok.control = len < 18 ? None : Some
  Ok.control.Some.cal_cycle_dis = @0xf.1
  Ok.control.Some.aperenb = @0xf.0
  Ok.control.Some.gtlben = @0xe.7
  Ok.aperture_size = len < 20 ? None : Some
  Ok.aperture_size.Some = @0x12[0+:16]
  Ok.enabled_aperture_page_size = len < 22 ? None : Some
  Ok.enabled_aperture_page_size.Some = @0x14[0+:16]
  Ok.gart_pointer = len < 26 ? None : Some
  Ok.gart_pointer.Some.gartlo = @0x16[0+:32]
  Ok.gart_pointer.Some.garthi = len < 30 ? 0 : @0x1a[0+:32]
  Ok.isochronous_command = @0x4.1 ? (len < 32 ? None : Some) : None
  Ok.isochronous_command.Some.pisoch_n = @0x1f[0+:8]
  Ok.isochronous_command.Some.pisoch_y = @0x1e[6+:2]
