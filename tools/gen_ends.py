import re
s=open('/verif/harness/src/ends.rs').read()
W={'caps':'src/capabilities.rs','ecaps':'src/extended_capabilities.rs','bars':'src/header/bar.rs','rebar':'src/extended_capabilities/resizable_bar.rs',
'vc':'src/extended_capabilities/virtual_channel.rs','vat':'src/extended_capabilities/virtual_channel.rs','pat':'src/extended_capabilities/virtual_channel.rs','mfvc':'src/extended_capabilities/multifunction_virtual_channel.rs','fat':'src/extended_capabilities/multifunction_virtual_channel.rs',
'acs':'src/extended_capabilities/access_control_services.rs','lanes':'src/extended_capabilities/secondary_pci_express.rs','pmux':'src/extended_capabilities/protocol_multiplexing.rs','links':'src/extended_capabilities/root_complex_link_declaration.rs','ea':'src/capabilities/enhanced_allocation.rs'}
o=['// Written by tools/gen_ends.py']
for m in re.finditer(r'root_t_(\w+) want',s):
    o+=[f'root root_t_{m[1]} same want_t_{m[1]} : C03',f"  src {W[m[1].split('_')[0]]}"]
for m in sorted(set(re.findall(r'root_k_(\w+)',s))):
    o+=[f'root root_k_{m} : C03','  rule rank',f"  src {W[m]}"]
o+=['root root_l_caps_full same want_l_caps_full : C04','  src src/capabilities.rs','root root_l_ecaps_full same want_l_ecaps_full : C06','  src src/extended_capabilities.rs']
open('/verif/spec/ends.spec','w').write('\n'.join(o)+'\n')
