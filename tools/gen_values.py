import re
exec(open('/verif/tools/gen_ends.py').read().split('o=[')[0])
s=open('/verif/harness/src/values.rs').read()
o=['// Written by tools/gen_values.py']
for m in re.finditer(r'root_v_(\w+) want_v',s):
    for k in 've':
        if k=='e' and m[1] in ('ea','mfvc_two','bars_two'): continue
        o+=[f'root root_{k}_{m[1]} same want_{k}_{m[1]} : C27',f"  src {W[m[1].split('_')[0]]}"]+(['  order mix:36'] if k=='e' else [])
for m in re.finditer(r'root_a_(\w+) want_a',s):
    o+=[f'root root_a_{m[1]} same want_a_{m[1]} : C27',f"  src {W[m[1].split('_')[0]]}",'  order mix:36']
o+=['root root_e_state same want_e_state : C27','  src src/extended_capabilities/root_complex_link_declaration.rs','  order mix:36']
open('/verif/spec/values.spec','w').write('\n'.join(o)+'\n')
