import re
exec(open('/verif/tools/gen_ends.py').read().split('o=[')[0])
s=open('/verif/harness/src/steps.rs').read()
o=['// Written by tools/gen_steps.py']
for m in re.finditer(r'root_n_(\w+) want_n',s):
    for k in 'nz': o+=[f'root root_{k}_{m[1]} same want_{k}_{m[1]} : C29',f"  src {W[m[1].split('_')[0]]}"]
open('/verif/spec/steps.spec','w').write('\n'.join(o)+'\n')
