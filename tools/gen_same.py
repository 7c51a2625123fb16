"""Writes harness/src/same.rs and spec/same.spec: two decoded values that compare equal show the same
contents, a value equals its clone, and the clone shows what the value shows."""
import re, glob
s = open('/verif/harness/src/roots.rs').read()
L = re.findall(r'^    root_(\w+): ([\w:]+);', s, re.M)
specs = ''.join(open(f).read() for f in glob.glob('/verif/spec/*.spec') if 'same' not in f)
src = {}
for m in re.finditer(r'^root root_(\w+)[^\n]*\n((?:  [^\n]*\n)*)', specs, re.M):
    k = re.search(r'  src (\S+)', m[2])
    if k: src[m[1]] = k[1]
# structures that keep the data they were decoded from: how much of it is compared
CUT = {'e16_dpa': 46, 'e02_vc': 24, 'e05_rc_link_declaration': 30, 'e08_mfvc': 24, 'e0b_vsec': 12, 'e0b_vsec_length': 4, 'e0d_acs': 8, 'e17_tph': 14, 'e19_secondary_pcie': 14, 'e1a_pmux': 20, 'e23_dvsec': 12}
# layouts that depend on the data are compared one at a time: name -> {suffix: bytes that are fixed}
Z = lambda *r: {i: 0 for a, b in r for i in range(a, b)}
VAR = {
    'header': {'normal': {0xe: 0, **Z((0x10, 0x28))}, 'bridge': {0xe: 1, **Z((0x10, 0x18))}, 'cardbus': {0xe: 2, **Z((0x10, 0x14))},
               'type': Z((0, 0xe), (0xf, 0x40))},
    'c05_msi': {'32': {0: 0, 1: 0}, '64': {0: 0x80, 1: 0}, '32m': {0: 0, 1: 1}, '64m': {0: 0x80, 1: 1}, 'control': Z((2, 24))},
    'e10_sriov': {'fields': Z((0x20, 0x38))},
    'e0b_vsec': {'body': {2: 0xb0, 3: 0}, 'cut': {2: 0xe0, 3: 0}, 'length': {0: 0, 1: 0, **Z((4, 12))}},
}
NOCLONE = {'c05_msi', 'virtio'}
o = []
h = ['''//! Decoded structures as values (written by tools/gen_same.py): structures that compare equal show
//! the same contents, a structure equals its clone and its clone shows the same contents.
use crate::{fix, h, input, obs_iter, step, Obs};
use pcics::capabilities::*;
use pcics::extended_capabilities::*;
use pcics::Header;

const SAME: u64 = step(0, h("same"));

macro_rules! same { ($($q:ident $qw:ident $n:expr, $ty:ty, { $($o:expr => $v:expr,)* };)*) => { $(
    #[no_mangle]
    pub extern "C" fn $q() {
        $(fix(0, $o, $v); fix(1, $o, $v);)*
        if let (Ok(a), Ok(b)) = (<$ty>::try_from(cut(0, $n)), <$ty>::try_from(cut(1, $n))) {
            if a == b {
                a.obs(0);
            }
        }
    }
    #[no_mangle]
    pub extern "C" fn $qw() {
        $(fix(0, $o, $v); fix(1, $o, $v);)*
        if let (Ok(a), Ok(b)) = (<$ty>::try_from(cut(0, $n)), <$ty>::try_from(cut(1, $n))) {
            if a == b {
                b.obs(0);
            }
        }
    }
)* } }
macro_rules! cloned { ($($r:ident $rw:ident $n:expr, $ty:ty;)*) => { $(
    #[no_mangle]
    pub extern "C" fn $r() {
        if let Ok(a) = <$ty>::try_from(cut(0, $n)) {
            (a == a.clone()).obs(SAME);
            a.clone().obs(0);
        }
    }
    #[no_mangle]
    pub extern "C" fn $rw() {
        if let Ok(a) = <$ty>::try_from(cut(0, $n)) {
            true.obs(SAME);
            a.obs(0);
        }
    }
)* } }
#[inline(always)]
fn cut<'a>(r: u32, n: usize) -> &'a [u8] {
    let d = input(r);
    crate::assume(d.len() <= n);
    d
}
same! {''']
o = ['// Written by tools/gen_same.py']
for k in 'qr':
    for n, t in L:
        if k == 'r' and n in NOCLONE: continue
        for x, fx in VAR.get(n, {'': {}}).items() if k == 'q' else [('', {})]:
            m = n + ('_' + x if x else '')
            f = ', { %s }' % ''.join(f'{a} => {b}, ' for a, b in sorted(fx.items())) if k == 'q' else ''
            h.append(f'    root_{k}_{m} want_{k}_{m} {CUT.get(m, CUT.get(n, 4096))}, {t}{f};')
            o += [f'root root_{k}_{m} same want_{k}_{m} : C28', f'  src {src[n]}'] + (['  order mix:80', '  order contents'] if k == 'q' else [])
    h.append('}')
    if k == 'q': h.append('cloned! {')
for n, ty, off, end, get in [('header_bar', 'Header', 16, 64, 'match x.header_type { pcics::header::HeaderType::Normal(y) => y.base_addresses, _ => return }'), ('sriov_bar', 'SingleRootIoVirtualization', 32, 60, 'x.base_addresses')]:
    for k, v in [('root', 'a'), ('want', 'b')]:
        h.append(f'''// base addresses are compared by what they yield
#[no_mangle]
pub extern "C" fn {k}_q_{n}() {{
    {' '.join(f'fix(0, {i}, 0); fix(1, {i}, 0);' for i in range(end) if not off <= i < off + 4)}
    if let (Ok(a), Ok(b)) = ({ty}::try_from(input(0)), {ty}::try_from(input(1))) {{
        if a == b {{
            let x = {v};
            let y = {get};
            obs_iter(y, 0, 2);
        }}
    }}
}}''')
    o += [f'root root_q_{n} same want_q_{n} : C28', '  src ' + ('src/header.rs' if ty == 'Header' else src['e10_sriov']), '  order mix:80']
open('/verif/harness/src/same.rs', 'w').write('\n'.join(h) + '\n')
open('/verif/spec/same.spec', 'w').write('\n'.join(o) + '\n')
