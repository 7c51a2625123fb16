#!/usr/bin/env python3
"""Mutation campaign (development aid, no check uses it): changes one token of /repo's source in scratch
copies, lowers and analyses the entry points whose source file was changed (then all others), and lists
the mutants nothing notices.   mutate.py OUT.jsonl WORKERS COUNT SEED [file-substring]"""
import json, os, random, re, shutil, subprocess, sys, threading, queue, glob
OUT, NW, CNT, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
SUB = sys.argv[5] if len(sys.argv) > 5 else ''
W = '/tmp/mw'
A = '/verif/analyzer/target/release/bitflow'
random.seed(SEED)
def code_end(s):
    m = re.search(r'^#\[cfg\(test\)\]\s*\nmod ', s, re.M)
    return m.start() if m else len(s)
def masked(s):
    """comments, strings and attributes blanked out, same length"""
    def b(m): return re.sub(r'[^\n]', ' ', m.group(0))
    s = re.sub(r'/\*[\s\S]*?\*/|//[^\n]*|"(?:\\.|[^"\\])*"', b, s)
    return re.sub(r'#!?\[[^\]]*\]', b, s)
def mutants(path):
    s = open(path).read(); e = code_end(s); t = masked(s[:e])
    r = []
    def add(a, b, new, op): r.append((path, a, b, new, op))
    for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:u8|u16|u32|u64|usize)?(?![\w.])', t):
        x = m.group(1); v = int(x.replace('_', ''), 0)
        for d in (1, -1):
            if v + d < 0: continue
            n = hex(v + d) if x.startswith('0x') else bin(v + d) if x.startswith('0b') else str(v + d)
            add(m.start(1), m.end(1), n, 'lit')
    for pat, new, op in [(r' < ', ' <= ', 'rel'), (r' <= ', ' < ', 'rel'), (r' > ', ' >= ', 'rel'), (r' >= ', ' > ', 'rel'), (r' == ', ' != ', 'eq'), (r' != ', ' == ', 'eq'),
                         (r' && ', ' || ', 'log'), (r' \|\| ', ' && ', 'log'), (r' << ', ' >> ', 'sh'), (r' >> ', ' << ', 'sh'), (r' \+ ', ' - ', 'arith'), (r' - ', ' + ', 'arith'),
                         (r' & ', ' | ', 'bit'), (r' \| ', ' & ', 'bit'), (r'\btrue\b', 'false', 'bool'), (r'\bfalse\b', 'true', 'bool'), (r' \* ', ' + ', 'arith'), (r' % ', ' / ', 'arith')]:
        for m in re.finditer(pat, t): add(m.start(), m.end(), new, op)
    # neighbouring lines "ident," in a tuple or struct, and neighbouring match arm results
    L = [m for m in re.finditer(r'^( +)([a-z_0-9]+|\(\)),\n', t, re.M)]
    for a, b in zip(L, L[1:]):
        if a.end() == b.start() and a.group(2) != b.group(2):
            add(a.start(2), b.end(2), s[b.start(2):b.end(2)] + s[a.end(2):b.start(2)] + s[a.start(2):a.end(2)], 'swap')
    L = [m for m in re.finditer(r'^ +[^\n]*? => ([^\n{]+),\n', t, re.M)]
    for a, b in zip(L, L[1:]):
        if a.end() == b.start():
            add(a.start(1), b.end(1), s[b.start(1):b.end(1)] + s[a.end(1):b.start(1)] + s[a.start(1):a.end(1)], 'arm')
    # narrowing, widths shifted between neighbours, negated conditions, lost statements, other methods, other fields
    for m in re.finditer(r' as (u16|u32|u64|usize)\b', t):
        add(m.start(), m.end(), ' as u8' + m.group(0), 'narrow')
        if m.group(1) in ('u64', 'usize'): add(m.start(), m.end(), ' as u16' + m.group(0), 'narrow')
    for m in re.finditer(r'\bP\d+::<\w+, ([\d, ]+)>', t):
        w = [x.strip() for x in m.group(1).split(',')]
        for i in range(len(w) - 1):
            for d in (1, -1):
                x, y = int(w[i]) + d, int(w[i + 1]) - d
                if x > 0 and y > 0: add(m.start(1), m.end(1), ', '.join(w[:i] + [str(x), str(y)] + w[i + 2:]), 'width')
    for m in re.finditer(r'\bif (?!let\b)([^{;\n]+) \{', t): add(m.start(1), m.end(1), '!(' + s[m.start(1):m.end(1)] + ')', 'neg')
    for m in re.finditer(r'^ +(?:self\.[a-z_.]+|\*?[a-z_]+(?:\[\w+\])?) [-+|&]?= [^\n;]+;\n', t, re.M): add(m.start(), m.end(), '\n', 'del')
    for m in re.finditer(r'^( +)if [^\n]*\{\n +return [^\n;]+;\n +\}\n', t, re.M): add(m.start(), m.end(), '\n', 'del')
    for x, y in [('checked_sub', 'wrapping_sub'), ('saturating_sub', 'wrapping_sub'), ('.min(', '.max('), ('.first(', '.last('), ('.chunks(', '.chunks_exact('), ('.chunks_exact(', '.chunks('), ('from_le_bytes', 'from_be_bytes'), ('to_le_bytes', 'to_be_bytes'),
                 ('rotate_left', 'rotate_right'), ('..=', '..'), ('.take(', '.skip('), ('.rev()', ''), ('.is_some()', '.is_none()'), ('unwrap_or_default()', 'unwrap()'), ('.and_then(', '.map('), ('Le(', 'Be('), ('Lsb(', 'Msb(')]:
        for m in re.finditer(re.escape(x), t): add(m.start(), m.end(), y, 'meth')
    for m in re.finditer(r'\bSelf \{\n((?: +[a-z_0-9]+(?:: [^\n]*)?,\n)+)', t):
        names = re.findall(r'^ +([a-z_0-9]+),$', m.group(1), re.M)
        for k in re.finditer(r'^ +([a-z_0-9]+)(,)$', m.group(1), re.M):
            i = names.index(k.group(1))
            for o in (names[i - 1], names[(i + 1) % len(names)]):
                if o != k.group(1): add(m.start(1) + k.start(2), m.start(1) + k.end(2), f': {o}.clone(),', 'field')
    # field: other_field
    for m in re.finditer(r'\b([a-z_0-9]+)\.get\(\.\.', t): add(m.end() - 2, m.end(), '1..', 'slice')
    return r
ONLY = set(filter(None, os.environ.get('OPS', '').split(',')))
files = [f for f in glob.glob('/repo/src/**/*.rs', recursive=True) if SUB in f]
ms = [m for f in files for m in mutants(f) if not ONLY or m[4] in ONLY]
random.shuffle(ms)
# at most every file gets its share
ms = ms[:CNT]
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d['file'], d['at'], d['new']))
spec = {}
cur = None
for f in glob.glob('/verif/spec/*.spec'):
    for l in open(f):
        m = re.match(r'root (\S+).*: (.*)', l)
        if m: cur = m.group(1); spec[cur] = ['', m.group(2).split()]
        m = re.match(r'  src (\S+)', l)
        if m: spec[cur][0] = m.group(1)
HEAVY = {'root_ecap_0008', 'root_f_ea'}
q = queue.Queue()
for m in ms:
    if (m[0][6:], m[1], m[3]) not in done: q.put(m)
print(len(ms), 'mutants of', len(files), 'files;', q.qsize(), 'to do', flush=True)
lock = threading.Lock()
out = open(OUT, 'a')
def worker(i):
    d = f'{W}/{i}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp', '-r', '/repo/src', '/repo/Cargo.toml', '/repo/README.md', d + '/'], check=False)
    os.makedirs(d + '/repo'); 
    for n in ('src', 'Cargo.toml', 'README.md'): shutil.move(f'{d}/{n}', f'{d}/repo/{n}')
    if os.path.exists('/repo/Cargo.lock'): shutil.copy('/repo/Cargo.lock', d + '/repo/')
    shutil.copytree('/verif/harness', d + '/harness', ignore=shutil.ignore_patterns('target'))
    c = open(d + '/harness/Cargo.toml').read().replace('/repo', d + '/repo'); open(d + '/harness/Cargo.toml', 'w').write(c)
    env = dict(os.environ, CARGO_TARGET_DIR=d + '/t', RUSTFLAGS='--emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp --cap-lints allow')
    while True:
        try: f, a, b, new, op = q.get_nowait()
        except queue.Empty: return
        s = open(f).read(); rel = f[6:]
        t = s[:a] + new + s[b:]
        open(f'{d}/repo/{rel}', 'w').write(t)
        rec = {'file': rel, 'at': a, 'line': s.count('\n', 0, a) + 1, 'old': s[a:b], 'new': new, 'op': op, 'text': s[s.rfind('\n', 0, a) + 1:s.find('\n', b)].strip()[:200]}
        subprocess.run(f'rm -f {d}/t/x86_64-unknown-linux-gnu/debug/deps/*.ll', shell=True)
        p = subprocess.run(['cargo', 'build', '--offline', '--target', 'x86_64-unknown-linux-gnu', '-q'], cwd=d + '/harness', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            rec['res'] = 'nobuild'
        else:
            lls = glob.glob(f'{d}/t/x86_64-unknown-linux-gnu/debug/deps/*.ll')
            if not any('pcics' in x for x in lls):
                rec['res'] = 'no ll'
            else:
                own = [r for r, (x, p) in spec.items() if x == rel and r not in HEAVY]
                rest = [r for r, (x, p) in spec.items() if x != rel and r not in HEAVY]
                rec['res'] = 'SURVIVED'
                for roots in (own, rest):
                    if not roots: continue
                    o = f'{d}/o.json'
                    if os.path.exists(o): os.remove(o)
                    # --only '' analyses values and panics of the named entry points
                    try:
                        subprocess.run([A, 'check', '--prop', 'X', '--only', '', '--spec', '/verif/spec', '--names', '/verif/harness/src', '--jobs', '2', '--cap', '40', '--total', '300', '--roots', ','.join(roots), '--out', o] + lls, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
                        r = json.load(open(o))
                    except Exception as x:
                        rec['res'] = 'error ' + str(x)[:100]; break
                    if r['bad']:
                        rec['res'] = 'killed'
                        ps = {}
                        for k in r['bad']:
                            for p in ([ 'C01'] if k['path'] == 'panic' else spec.get(k['root'], ['', []])[1]): ps[p] = ps.get(p, 0) + 1
                        rec['props'] = sorted(ps); rec['n'] = len(r['bad']); rec['where'] = r['bad'][0]['root'] + '::' + r['bad'][0]['path']; break
                    if r['undecided']:
                        rec['undec'] = rec.get('undec', 0) + len(r['undecided']); rec['uwhere'] = r['undecided'][0]['root'] + ' ' + r['undecided'][0]['detail'][:80]
        open(f'{d}/repo/{rel}', 'w').write(s)
        with lock:
            out.write(json.dumps(rec) + '\n'); out.flush()
ts = [threading.Thread(target=worker, args=(i,)) for i in range(NW)]
[t.start() for t in ts]; [t.join() for t in ts]
