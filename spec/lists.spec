// Written by tools/gen_lists.py
root root_cap_00 same want_cap_00 : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_01 same want_cap_01 : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_02 same want_cap_02 : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_03 same want_cap_03 : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_04 same want_cap_04 : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_05 same want_cap_05 : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_06 same want_cap_06 : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_07 same want_cap_07 : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_08 same want_cap_08 : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_09 same want_cap_09 : C05 C04
  src src/capabilities.rs
  order @16.0:8 @15.0:8
root root_cap_0a same want_cap_0a : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_0b same want_cap_0b : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_0c same want_cap_0c : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_0d same want_cap_0d : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_0e same want_cap_0e : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_0f same want_cap_0f : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_10 same want_cap_10 : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_11 same want_cap_11 : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_12 same want_cap_12 : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_13 same want_cap_13 : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_14 same want_cap_14 : C05 C04
  src src/capabilities.rs
  order @16.0:6<<4 @15.0:8
root root_cap_15 same want_cap_15 : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_cap_rsvd same want_cap_rsvd : C05 C04
  src src/capabilities.rs
  order s0:8 w0@1.0:8
root root_ecap_0001 same want_ecap_0001 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0002 same want_ecap_0002 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0003 same want_ecap_0003 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0004 same want_ecap_0004 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0005 same want_ecap_0005 : C07 C06
  src src/extended_capabilities.rs
  order @42.4:12
root root_ecap_0006 same want_ecap_0006 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0007 same want_ecap_0007 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0008 same want_ecap_0008 : C07 C06
  src src/extended_capabilities.rs
  order @4b.0:8<<4 @53.0:8<<4 @5f.0:8<<4 @42.4:12
root root_ecap_0009 same want_ecap_0009 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_000a same want_ecap_000a : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_000b same want_ecap_000b : C07 C06
  src src/extended_capabilities.rs
  order @46.4:12 @42.4:12
root root_ecap_000c same want_ecap_000c : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_000d same want_ecap_000d : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_000e same want_ecap_000e : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_000f same want_ecap_000f : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0010 same want_ecap_0010 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0011 same want_ecap_0011 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0012 same want_ecap_0012 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0013 same want_ecap_0013 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0014 same want_ecap_0014 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0015 same want_ecap_0015 : C07 C06
  src src/extended_capabilities.rs
  order @42.4:12
root root_ecap_0016 same want_ecap_0016 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0017 same want_ecap_0017 : C07 C06
  src src/extended_capabilities.rs
  order @42.4:12
root root_ecap_0018 same want_ecap_0018 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0019 same want_ecap_0019 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_001a same want_ecap_001a : C07 C06
  src src/extended_capabilities.rs
  order @42.4:12
root root_ecap_001b same want_ecap_001b : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_001c same want_ecap_001c : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_001d same want_ecap_001d : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_001e same want_ecap_001e : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_001f same want_ecap_001f : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0020 same want_ecap_0020 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0021 same want_ecap_0021 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0022 same want_ecap_0022 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0023 same want_ecap_0023 : C07 C06
  src src/extended_capabilities.rs
  order @46.4:12 @42.4:12
root root_ecap_0024 same want_ecap_0024 : C07 C06
  src src/extended_capabilities.rs
  order @42.4:12
root root_ecap_0025 same want_ecap_0025 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0026 same want_ecap_0026 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0027 same want_ecap_0027 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0028 same want_ecap_0028 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0029 same want_ecap_0029 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_002a same want_ecap_002a : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_002b same want_ecap_002b : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_002c same want_ecap_002c : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_002d same want_ecap_002d : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_002e same want_ecap_002e : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_002f same want_ecap_002f : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0030 same want_ecap_0030 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0031 same want_ecap_0031 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0032 same want_ecap_0032 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0033 same want_ecap_0033 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_0034 same want_ecap_0034 : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_null same want_ecap_null : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_empty same want_ecap_empty : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_ecap_rsvd same want_ecap_rsvd : C07 C06
  src src/extended_capabilities.rs
  order @2.4:12 w0@2.4:12
root root_chain_00 same want_chain_00 : C05 C04
  src src/capabilities.rs
root root_chain_01 same want_chain_01 : C05 C04
  src src/capabilities.rs
root root_chain_02 same want_chain_02 : C05 C04
  src src/capabilities.rs
root root_chain_03 same want_chain_03 : C05 C04
  src src/capabilities.rs
root root_chain_04 same want_chain_04 : C05 C04
  src src/capabilities.rs
root root_chain_05 same want_chain_05 : C05 C04
  src src/capabilities.rs
root root_chain_06 same want_chain_06 : C05 C04
  src src/capabilities.rs
root root_chain_07 same want_chain_07 : C05 C04
  src src/capabilities.rs
root root_chain_08 same want_chain_08 : C05 C04
  src src/capabilities.rs
root root_chain_09 same want_chain_09 : C05 C04
  src src/capabilities.rs
  order @a.0:8 @62.0:8 @3a.0:8
root root_chain_0a same want_chain_0a : C05 C04
  src src/capabilities.rs
root root_chain_0b same want_chain_0b : C05 C04
  src src/capabilities.rs
root root_chain_0c same want_chain_0c : C05 C04
  src src/capabilities.rs
root root_chain_0d same want_chain_0d : C05 C04
  src src/capabilities.rs
root root_chain_0e same want_chain_0e : C05 C04
  src src/capabilities.rs
root root_chain_0f same want_chain_0f : C05 C04
  src src/capabilities.rs
root root_chain_10 same want_chain_10 : C05 C04
  src src/capabilities.rs
root root_chain_11 same want_chain_11 : C05 C04
  src src/capabilities.rs
root root_chain_12 same want_chain_12 : C05 C04
  src src/capabilities.rs
root root_chain_13 same want_chain_13 : C05 C04
  src src/capabilities.rs
root root_chain_14 same want_chain_14 : C05 C04
  src src/capabilities.rs
root root_chain_15 same want_chain_15 : C05 C04
  src src/capabilities.rs
root root_chain_rsvd same want_chain_rsvd : C05 C04
  src src/capabilities.rs
root root_echain_0001 same want_echain_0001 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0002 same want_echain_0002 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0003 same want_echain_0003 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0004 same want_echain_0004 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0005 same want_echain_0005 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0006 same want_echain_0006 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0007 same want_echain_0007 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0008 same want_echain_0008 : C07 C06
  src src/extended_capabilities.rs
  order @b.0:8<<4 @13.0:8<<4 @1f.0:8<<4 @14b.0:8<<4 @153.0:8<<4 @15f.0:8<<4 @8b.0:8<<4 @93.0:8<<4 @9f.0:8<<4
root root_echain_0009 same want_echain_0009 : C07 C06
  src src/extended_capabilities.rs
root root_echain_000a same want_echain_000a : C07 C06
  src src/extended_capabilities.rs
root root_echain_000b same want_echain_000b : C07 C06
  src src/extended_capabilities.rs
  order @6.4:12 @146.4:12 @86.4:12
root root_echain_000c same want_echain_000c : C07 C06
  src src/extended_capabilities.rs
root root_echain_000d same want_echain_000d : C07 C06
  src src/extended_capabilities.rs
root root_echain_000e same want_echain_000e : C07 C06
  src src/extended_capabilities.rs
root root_echain_000f same want_echain_000f : C07 C06
  src src/extended_capabilities.rs
root root_echain_0010 same want_echain_0010 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0011 same want_echain_0011 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0012 same want_echain_0012 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0013 same want_echain_0013 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0014 same want_echain_0014 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0015 same want_echain_0015 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0016 same want_echain_0016 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0017 same want_echain_0017 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0018 same want_echain_0018 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0019 same want_echain_0019 : C07 C06
  src src/extended_capabilities.rs
root root_echain_001a same want_echain_001a : C07 C06
  src src/extended_capabilities.rs
root root_echain_001b same want_echain_001b : C07 C06
  src src/extended_capabilities.rs
root root_echain_001c same want_echain_001c : C07 C06
  src src/extended_capabilities.rs
root root_echain_001d same want_echain_001d : C07 C06
  src src/extended_capabilities.rs
root root_echain_001e same want_echain_001e : C07 C06
  src src/extended_capabilities.rs
root root_echain_001f same want_echain_001f : C07 C06
  src src/extended_capabilities.rs
root root_echain_0020 same want_echain_0020 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0021 same want_echain_0021 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0022 same want_echain_0022 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0023 same want_echain_0023 : C07 C06
  src src/extended_capabilities.rs
  order @6.4:12 @146.4:12 @86.4:12
root root_echain_0024 same want_echain_0024 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0025 same want_echain_0025 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0026 same want_echain_0026 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0027 same want_echain_0027 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0028 same want_echain_0028 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0029 same want_echain_0029 : C07 C06
  src src/extended_capabilities.rs
root root_echain_002a same want_echain_002a : C07 C06
  src src/extended_capabilities.rs
root root_echain_002b same want_echain_002b : C07 C06
  src src/extended_capabilities.rs
root root_echain_002c same want_echain_002c : C07 C06
  src src/extended_capabilities.rs
root root_echain_002d same want_echain_002d : C07 C06
  src src/extended_capabilities.rs
root root_echain_002e same want_echain_002e : C07 C06
  src src/extended_capabilities.rs
root root_echain_002f same want_echain_002f : C07 C06
  src src/extended_capabilities.rs
root root_echain_0030 same want_echain_0030 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0031 same want_echain_0031 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0032 same want_echain_0032 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0033 same want_echain_0033 : C07 C06
  src src/extended_capabilities.rs
root root_echain_0034 same want_echain_0034 : C07 C06
  src src/extended_capabilities.rs
root root_echain_null same want_echain_null : C07 C06
  src src/extended_capabilities.rs
root root_echain_rsvd same want_echain_rsvd : C07 C06
  src src/extended_capabilities.rs
