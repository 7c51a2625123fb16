#!/usr/bin/env python3
"""One-off generator of harness/src/obs.rs (the field-by-field observers) from the public type
definitions.  Its output is committed; checks do not run it."""
import re,glob,sys
SRC='/repo/src/'
def strip(src):
    i=src.find('#[cfg(test)]')
    if i>=0: src=src[:i]
    out=[];k=0;n=len(src)
    # drop comments and attributes, respecting strings
    while k<n:
        if src.startswith('//',k):
            while k<n and src[k]!='\n': k+=1
        elif src.startswith('#[',k) or src.startswith('#![',k):
            d=0;instr=False
            while k<n:
                c=src[k]
                if instr:
                    if c=='\\': k+=1
                    elif c=='"': instr=False
                elif c=='"': instr=True
                elif c=='[': d+=1
                elif c==']':
                    d-=1
                    if d==0: k+=1;break
                k+=1
        else:
            out.append(src[k]);k+=1
    return ''.join(out)
def match(s,i):
    o=s[i];c={'{':'}','(':')'}[o];d=0
    while i<len(s):
        if s[i]==o: d+=1
        elif s[i]==c:
            d-=1
            if d==0: return i
        i+=1
def split(s):
    out=[];d=0;cur=''
    for c in s:
        if c in '({[<': d+=1
        if c in ')}]>': d-=1
        if c==',' and d==0: out.append(cur.strip());cur=''
        else: cur+=c
    if cur.strip(): out.append(cur.strip())
    return out
def types():
    for f in sorted(glob.glob(SRC+'**/*.rs',recursive=True)):
        s=strip(open(f).read())
        mod=f[len(SRC):-3].replace('/','::')
        if mod.startswith('header::'): mod='header'
        if mod.endswith('compute_express_link'): s=re.sub(r'^    pub struct.*$','',s,flags=re.M)
        for m in re.finditer(r'^(?:    )?pub (struct|enum) (\w+)(<[^{;(]*>)?\s*([{(;])',s,re.M):
            kind,name,gen,op=m.groups(); gen=gen or ''
            st=m.end()-1
            body=s[st+1:match(s,st)] if op in '{(' else ''
            yield mod,kind,name,gen,op,re.sub(r'\s+',' ',body).strip()
HAND=set(sys.argv[1:])
names=set()
def F(n): names.add(n); return 'h("%s")'%n
print('''// Generated by tools/gen_obs.py from the public type definitions; then committed.
#![allow(unused_variables, unreachable_patterns, unused_imports)]
use crate::{h, obs, step, tag, Obs};
''')
SKIP={'Capabilities@capabilities','ExtendedCapabilities@extended_capabilities','BaseAddresses@header::bar','EnhancedAllocationEntries@capabilities::enhanced_allocation'}
for mod,kind,name,gen,op,body in types():
    full='pcics::'+mod+'::'+name
    if name in ('LinkEntries','ResizableBar','PmuxProtocolArray'): continue
    fields=split(body)
    g='';ga=''
    if "'a" in gen: g="<'a>";ga="<'a>"
    if 'const N' in gen: continue
    if 'const T' in gen: g='<const T: char>';ga='<T>'
    if kind=='struct':
        if op=='{':
            pf=[x[4:].split(':')[0].strip() for x in fields if x.startswith('pub ')]
            if not pf: 
                if fields: 
                    print(f'// private: {full}'); 
                    continue
            lines=[f'        self.{f}.obs(step(p, {F(f)}));' for f in pf]
        elif op=='(':
            pf=[i for i,x in enumerate(fields) if x.startswith('pub ')]
            if not pf:
                print(f'// private: {full}'); continue
            lines=[f'        self.{i}.obs(p);' if len(fields)==1 else f'        self.{i}.obs(step(p, {F(str(i))}));' for i in pf]
        else: lines=[]
        b='\n'.join(lines)
        print(f'impl{g} Obs for {full}{ga} {{\n    #[inline(never)]\n    fn obs(&self, p: u64) {{\n        crate::mark(p);\n{b}\n    }}\n}}')
    else:
        arms=[]
        for v in fields:
            m=re.match(r'(\w+)\s*(=.*)?$',v)
            if m:
                vn=m.group(1); names.add(vn)
                arms.append(f'            {full}::{vn} => tag(p, h("{vn}")),'); continue
            m=re.match(r'(\w+)\s*\((.*)\)$',v)
            if m and name=='ComputeExpressLink' and m.group(1) not in ('PcieDvsecForCxlDevice','Undefined'):
                vn=m.group(1); names.add(vn)
                arms.append(f'            {full}::{vn}(..) => tag(p, h("{vn}")),'); continue
            if m:
                vn=m.group(1); names.add(vn); fs=split(m.group(2))
                bs=', '.join(f'x{i}' for i in range(len(fs)))
                st='\n'.join(f'                x{i}.obs(step(p, h("{vn}")));' if len(fs)==1 else f'                x{i}.obs(step(step(p, h("{vn}")), {F(str(i))}));' for i in range(len(fs)))
                arms.append(f'            {full}::{vn}({bs}) => {{\n                tag(p, h("{vn}"));\n{st}\n            }}'); continue
            m=re.match(r'(\w+)\s*\{(.*)\}$',v)
            vn=m.group(1); names.add(vn); fs=[x.split(':')[0].strip() for x in split(m.group(2))]
            st='\n'.join(f'                {f}.obs(step(step(p, h("{vn}")), {F(f)}));' for f in fs)
            arms.append(f'            {full}::{vn} {{ {", ".join(fs)}, .. }} => {{\n                tag(p, h("{vn}"));\n{st}\n            }}')
        b='\n'.join(arms)
        print(f'impl{g} Obs for {full}{ga} {{\n    #[inline(never)]\n    fn obs(&self, p: u64) {{\n        crate::mark(p);\n        match self {{\n{b}\n            _ => tag(p, h("<other>")),\n        }}\n    }}\n}}')
sys.stderr.write('\n'.join(sorted(names))+'\n')
