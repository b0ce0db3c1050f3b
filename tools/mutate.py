#!/usr/bin/env python3
"""mutate.py OUT.jsonl N SEED [FILE...]   random single-line mutants of /repo's sources, each run through a shortened pass of the searches;
survivors are what to look at. Works in /tmp/mut with its own build; /repo is only read."""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
W = os.environ.get('MUT_DIR', '/tmp/mut')
DIV = int(os.environ.get('MUT_DIV', '8'))
JOBS = os.environ.get('MUT_JOBS', '8')
os.environ['GEODIFF_REPO'] = W + '/repo'
os.environ['GEODIFF_BUILD'] = W + '/b'
sys.path.insert(0, V)
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W + '/repo'); os.makedirs(W + '/s')
subprocess.run('git -C /repo archive HEAD geodiff/src geodiff/cmake_templates | tar x -C %s/repo' % W, shell=True, check=True)
import build
build.REPO = W + '/repo'
base = build.build('plain', 'harness')
cmds = {}
# command lines as build.py makes them
real = build.run
def spy(cmd):
    if '-c' in cmd:
        cmds[cmd[cmd.index('-c') + 1]] = cmd
    else: cmds['link'] = cmd
build.run = spy
try: build.build('plain', 'harness')
except Exception: pass
build.run = real
props = [l.split() for l in subprocess.check_output([base, '--list'], text=True).splitlines()]
quick = {p[0]: int(p[1]) for p in props}
SQ = ['C06', 'C01', 'C02', 'C14', 'C15', 'C13.create', 'C13.apply', 'C18', 'C28', 'C07', 'C19', 'C20', 'C12', 'C04', 'C03', 'C16', 'C17', 'C05.gen', 'C08', 'C09', 'C10', 'C11', 'C13.rebase', 'C21', 'C25', 'C22.sched', 'C22.procs', 'C27.toPostgres', 'C27.toGeoPackage', 'C27.pgpg', 'C26.diff', 'C26.apply', 'C26.schema', 'C26.rebase', 'C26.fault', 'C01.collated', 'C01.bulk', 'C06.bulk', 'C17.bulk', 'C10.bulk', 'C08.keys', 'C12.others', 'C30.files', 'C30.server', 'C29.files', 'C29.server', 'C20.mem', 'C31', 'C24']
ORDER = {'postgres': ['C26.diff', 'C26.apply', 'C26.schema', 'C26.rebase', 'C26.fault', 'C27.toPostgres', 'C27.toGeoPackage', 'C27.pgpg', 'C28', 'C29.server', 'C30.server', 'C20.mem'],
         'rebase': ['C08', 'C09', 'C10', 'C11', 'C13.rebase', 'C21', 'C12', 'C19', 'C28', 'C25', 'C20', 'C07', 'C05.gen', 'C17', 'C08.keys', 'C12.others', 'C22.sched', 'C30.files', 'C29.files', 'C20.mem', 'C31'],
         'tableschema': ['C27.toPostgres', 'C27.toGeoPackage', 'C27.pgpg', 'C26.schema', 'C01', 'C13.create', 'C15', 'C30.files', 'C01.collated'],
         'sqlite': SQ, '': SQ[15:] + SQ[:15]}
files = sys.argv[4:] or ['geodiff/src/' + f for f in ('changesetreader.cpp', 'changesetutils.cpp', 'changesetwriter.cpp', 'driver.cpp', 'geodiff.cpp', 'geodifflogger.cpp', 'geodiffrebase.cpp', 'geodiffutils.cpp', 'tableschema.cpp', 'drivers/postgresdriver.cpp', 'drivers/postgresutils.cpp', 'drivers/sqlitedriver.cpp', 'drivers/sqliteutils.cpp')]
OPS = [(r'==', '!='), (r'!=', '=='), (r' <= ', ' < '), (r' >= ', ' > '), (r' < ', ' <= '), (r' > ', ' >= '), (r'&&', '||'), (r'\|\|', '&&'), (r' \+ 1\b', ''), (r' - 1\b', ''),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b([2-9]|[1-9]\d+)\b', lambda m: str(int(m.group(1)) + 1)), (r'if \( !', 'if ( '), (r'(?<=if )\( (.*) \)$', r'( !( \1 ) )'),
       (r'(?<=if )\( (.*) \)$', '( false )'), (r'continue;', 'break;'), (r'break;', ';'), (r' AND ', ' OR '), (r' IS NOT ', ' != '), (r'IS NULL', 'IS NOT NULL'), (r'!=', '<'), (r'\boldValues\b', 'newValues'), (r'\bnewValues\b', 'oldValues'),
       (r'\+=', '='), (r'GEODIFF_ERROR', 'GEODIFF_SUCCESS'), (r'max_element', 'min_element'), (r'std::max', 'std::min'), (r'\bSQLITE_(DONE|ROW|OK)\b', 'SQLITE_BUSY'), (r'sizeof\((.*)\)', r'(sizeof(\1)-1)'), (r'<<', '>>'), (r'\+\+', '--'), (r'%w', '%s'), (r'%q', '%s'), (r'"([^"]{2,})"', '""')]
cands = []
for f in files:
    t = open('%s/repo/%s' % (W, f), newline='').read().split('\n')
    comment = False
    for n, l in enumerate(t):
        s = l.strip()
        if '/*' in s: comment = True
        if comment:
            if '*/' in s: comment = False
            continue
        if not s or s.startswith(('//', '#', '*', 'assert', 'case ', 'for ( auto it', 'template')) or 'Logger::' in s: continue
        code = l.split('  //')[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if a.startswith('"') and ('throw' in code or 'Exception' in code): continue
                new = code[:m.start()] + (m.expand(b) if isinstance(b, str) else b(m)) + code[m.end():]
                if new != code: cands.append((f, n, l, new))
        if re.match(r'^[\w\]\[>\.\-:\( \)]+.*;$', s) and not re.match(r'^(return|const|std::|int |bool |size_t|auto|static|struct|class|using|ChangesetEntry |Value |sqlite3 |char)', s) or s.startswith('throw'):
            cands.append((f, n, l, re.match(r'\s*', l).group(0) + ';'))
random.seed(SEED)
# lines equally likely, not operators
by = {}
for c in cands: by.setdefault((c[0], c[1]), []).append(c)
keys = sorted(by); random.shuffle(keys)
print(len(cands), 'mutants of', len(keys), 'lines', flush=True)
out = open(OUT, 'a')
stat = dict(killed=0, survived=0, broken=0)
for k in keys[:N]:
    f, n, old, new = random.choice(by[k])
    p = '%s/repo/%s' % (W, f)
    raw = open(p, newline='').read()
    lines = raw.split('\n'); lines[n] = new
    open(p, 'w', newline='').write('\n'.join(lines))
    c = list(cmds[p]); o = c[-1]
    shutil.copy(o, W + '/keep.o')
    r = dict(file=f, line=n + 1, old=old.strip(), new=new.strip())
    b = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    t0 = time.time()
    if b.returncode: r['result'] = 'broken'
    else:
        same = open(o, 'rb').read() == open(W + '/keep.o', 'rb').read()
        linked = subprocess.run(cmds['link'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode == 0
        r['result'] = 'survived' if linked else 'broken'
        key = 'postgres' if 'postgres' in f else 'rebase' if 'rebase' in f else 'sqlite' if 'sqlite' in f else 'tableschema' if 'tableschema' in f else ''
        for q in ORDER[key] if linked else []:
            cases = max(60 if q.startswith(('C07', 'C22')) else 400, quick[q] // DIV)
            x = subprocess.run(['timeout', '-k', '5', '300', base, q, '--cases', str(cases), '--seed', '1', '--jobs', JOBS, '--shrink', '0', '--out', W + '/x.json', '--scratch', '/dev/shm/mut.%d' % os.getpid(), '--replays', W + '/s'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if x.returncode:
                r['result'] = 'killed'; r['by'] = q; r['rc'] = x.returncode; break
    stat[r['result']] += 1
    r['t'] = round(time.time() - t0)
    out.write(json.dumps(r) + '\n'); out.flush()
    shutil.copy(W + '/keep.o', o)
    open(p, 'w', newline='').write(raw)
print(stat)
shutil.rmtree(W, ignore_errors=True)
