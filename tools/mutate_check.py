#!/usr/bin/env python3
"""mutate_check.py OUT.jsonl N SEED PROP FILE...   like mutate.py, for sources outside the library (command-line tool, Python bindings): the quick check of
PROP is run on a scratch copy."""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT, N, SEED, PROP, FILES = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5:]
W = os.environ.get('MUT_DIR', '/tmp/mutc')
shutil.rmtree(W, ignore_errors=True); os.makedirs(W + '/repo')
subprocess.run('git -C /repo archive HEAD | tar x -C %s/repo --exclude=geodiff/tests/testdata' % W, shell=True, check=True)
env = dict(os.environ, GEODIFF_REPO=W + '/repo', GEODIFF_BUILD=W + '/b', GEODIFF_EVIDENCE=W + '/ev', VERIF_SEED='1')
OPS = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' > ', ' >= '), (r'&&', '||'), (r'\|\|', '&&'), (r'\band\b', 'or'), (r'\bor\b', 'and'), (r'\bnot\b', ''), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r'\bNone\b', '0'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\b0\b', '1'), (r'\b(\d+)\b', lambda m: str(int(m.group(1)) + 1)), (r'\bi \+ 1\b', 'i'), (r'"([^"]{2,})"', '""'), (r"'([^']{2,})'", "''"), (r'-1', '0'), (r'if \( !', 'if ( '), (r'\bbreak;', ';'), (r'return .*', 'return 0'), (r'\b([a-z]\w+), ([a-z]\w+)', r'\2, \1'), (r'\braise .*', 'pass')]
c = []
for f in FILES:
    for n, l in enumerate(open('%s/repo/%s' % (W, f)).read().split('\n')):
        s = l.strip()
        if not s or s.startswith(('//', '#', '*', '"""', 'import', 'from ')): continue
        for a, b in OPS:
            for m in re.finditer(a, l):
                new = l[:m.start()] + (m.expand(b) if isinstance(b, str) else b(m)) + l[m.end():]
                if new != l: c.append((f, n, l, new))
        ind = re.match(r'\s*', l).group(0)
        if s.endswith(';') and not s.startswith(('return', 'const', 'std::')): c.append((f, n, l, ind + ';'))
        if f.endswith('.py') and not s.endswith((':', ',')) and l.count('(') == l.count(')') and not s.startswith(('def ', 'class ', ')')): c.append((f, n, l, ind + 'pass'))
random.seed(SEED)
by = {}
for x in c: by.setdefault(x[:2], []).append(x)
keys = sorted(by); random.shuffle(keys)
print(len(c), 'mutants of', len(keys), 'lines', flush=True)
for k in keys[:N]:
    f, n, old, new = random.choice(by[k])
    p = '%s/repo/%s' % (W, f)
    raw = open(p).read(); L = raw.split('\n'); L[n] = new
    open(p, 'w').write('\n'.join(L))
    t = time.time()
    if f.endswith('.py') and subprocess.run(['python3', '-m', 'py_compile', p], stderr=subprocess.DEVNULL).returncode: res, o = 'broken', ''
    else:
        x = subprocess.run(['timeout', '900', 'python3', V + '/check.py', PROP, 'quick'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        o = x.stdout
        res = 'killed' if x.returncode == 1 and 'VIOLATION property' in o else 'survived' if x.returncode == 0 else 'broken'
    open(p, 'w').write(raw)
    open(OUT, 'a').write(json.dumps(dict(file=f, line=n + 1, old=old.strip(), new=new.strip(), result=res, t=round(time.time() - t), tail=o[-200:] if res == 'broken' else '')) + '\n')
shutil.rmtree(W, ignore_errors=True)
