#!/opt/veriftools/pyvenv/bin/python
"""C23: the Python bindings against direct calls of the C interface (Hypothesis generates and shrinks).

Two workers run the same calls in two directories with equal content: one through /repo/pygeodiff, the other with plain
ctypes calls of the shared library. A second part loads a stand-in library that records its arguments and returns a given
code, for return codes the real library hardly ever gives."""
import warnings
warnings.simplefilter('ignore')
import argparse, ctypes, gc, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GEODIFF_REPO', '/repo')
CALLS = {  # python name: (C name, roles of the arguments)
    'create_changeset': ('GEODIFF_createChangeset', 'ddo'),
    'invert_changeset': ('GEODIFF_invertChangeset', 'co'),
    'create_rebased_changeset': ('GEODIFF_createRebasedChangeset', 'ddcoj'),
    'rebase': ('GEODIFF_rebase', 'dddj'),
    'apply_changeset': ('GEODIFF_applyChangeset', 'dc'),
    'list_changes': ('GEODIFF_listChanges', 'cj'),
    'list_changes_summary': ('GEODIFF_listChangesSummary', 'cj'),
    'has_changes': ('GEODIFF_hasChanges', 'c'),
    'changes_count': ('GEODIFF_changesCount', 'c'),
}

# ---------------------------------------------------------------- workers: one JSON request per line
def norm(t):
    return re.sub(r'geodiff_[A-Za-z0-9_]*', 'geodiff_TMP', t)

def worker(kind, lib):
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    log = []
    if kind == 'python':
        sys.path.insert(0, REPO)
        import pygeodiff
        g = [pygeodiff.GeoDiff(lib)]
        kinds = [(pygeodiff.GeoDiffLibConflictError, 'conflict'), (pygeodiff.GeoDiffLibUnsupportedChangeError, 'unsupported'), (pygeodiff.GeoDiffLibVersionError, 'version'), (pygeodiff.GeoDiffLibError, 'error')]
        def setlog():
            def cb(level, msg):
                log.append([level, norm(msg.decode('utf-8', 'surrogateescape'))])
            g[0].set_logger_callback(cb)
        def setlevel(n):
            g[0].set_maximum_logger_level(n)
        def call(name, args):
            f = getattr(g[0], name)
            try:
                r = f(*args)
            except Exception as e:
                for k, n in kinds:
                    if type(e) is k:
                        return ['raised', n]
                return ['raised', 'other ' + repr(e)]
            return ['value', r if r is None or isinstance(r, (bool, int)) else repr(r)]
        def version():
            return g[0].version()
        def again():
            g[0] = pygeodiff.GeoDiff(lib)
    else:
        C = ctypes.CDLL(lib)
        C.GEODIFF_init()
        C.GEODIFF_version.restype = ctypes.c_char_p
        CB = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_char_p)
        keep = []
        def setlog():
            def cb(level, msg):
                log.append([level, norm(msg.decode('utf-8', 'surrogateescape'))])
            keep.append(CB(cb))
            C.GEODIFF_setLoggerCallback(keep[-1])
        def setlevel(n):
            C.GEODIFF_setMaximumLoggerLevel(ctypes.c_int(n))
        def call(name, args):
            f = getattr(C, CALLS[name][0])
            f.restype = ctypes.c_int
            f.argtypes = [ctypes.c_char_p] * len(args)
            rc = f(*[a.encode('utf-8') for a in args])
            if name == 'has_changes':
                return ['raised', 'error'] if rc < 0 else ['value', rc == 1]
            if name == 'changes_count':
                return ['raised', 'error'] if rc < 0 else ['value', rc]
            return {0: ['value', None], 1: ['raised', 'error'], 2: ['raised', 'conflict'], 3: ['raised', 'unsupported']}.get(rc, ['raised', 'version'])
        def version():
            return C.GEODIFF_version().decode()
        def again():
            pass
    setlog()
    setlevel(4)
    for line in sys.stdin:
        q = json.loads(line)
        os.environ['TMPDIR'] = q['tmp']
        ctypes.CDLL(None).setenv(b'TMPDIR', q['tmp'].encode(), 1)
        d, res = q['dir'], []
        for op in q['ops']:
            del log[:]
            r = None
            if op[0] == 'level':
                setlevel(op[1])
            elif op[0] == 'callback':
                setlog()
                gc.collect()
            elif op[0] == 'instance':
                again()
                gc.collect()
            elif op[0] == 'version':
                r = version()
            else:
                r = call(op[0], [a if a == '' else d + a for a in op[1]])
            res.append([r, [[l, m.replace(d, 'DIR/')] for l, m in log]])
        out.write(json.dumps(res) + '\n')
        out.flush()

class Worker:
    def __init__(self, kind, lib, extra=()):
        self.args = [sys.executable, '-B', '-W', 'ignore', os.path.abspath(__file__), '--worker', kind, '--lib', lib] + list(extra)
        self.p = None
    def ask(self, q):
        if self.p is None:
            self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding='utf-8')
        try:
            self.p.stdin.write(json.dumps(q) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ''
        if not line:
            rc = self.p.wait()
            self.p = None
            return ('crash', rc)
        return json.loads(line)
    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None

# ---------------------------------------------------------------- first part: real library
def build_db(path, tables, rows):
    import sqlite3
    db = sqlite3.connect(path)
    for (name, coldef), data in zip(tables, rows):
        n = '"%s"' % name.replace('"', '""')
        db.execute('CREATE TABLE %s (id INTEGER PRIMARY KEY, a TEXT, %s)' % (n, coldef))
        for k, (a, b) in sorted(data.items(), key=lambda x: int(x[0])):
            db.execute('INSERT INTO %s VALUES (?,?,?)' % n, (int(k), a, bytes.fromhex(b[1:]) if isinstance(b, str) and b.startswith('\x00') else b))
    db.commit()
    db.close()

def tree(d):
    t = {}
    for root, ds, fs in os.walk(d):
        for n in ds:
            t[os.path.relpath(os.path.join(root, n), d)] = b'dir'
        for n in fs:
            with open(os.path.join(root, n), 'rb') as f:
                t[os.path.relpath(os.path.join(root, n), d)] = f.read()
    return t

class Fail(Exception):
    pass

def run_case(case, scratch, wp, wr, lib):
    """returns (nontrivial, labels)"""
    d = os.path.join(scratch, 'case')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    dirs = {}
    first = None
    for k in ('python', 'direct'):
        x = os.path.join(d, k)
        os.makedirs(x + '/sub dir')
        os.makedirs(x + '/tmp')
        dirs[k] = x + '/'
        if first is None:
            for n, rows in (('base', case['base']), ('ours', case['ours']), ('theirs', case['theirs'])):
                build_db(x + '/' + case['stem'] + n + '.gpkg', case['tables'], rows)
            with open(x + '/notes.txt', 'w') as f:
                f.write('hello')
            open(x + '/empty.bin', 'w').close()
            first = x
        else:
            for n in os.listdir(first):
                if os.path.isfile(first + '/' + n):
                    shutil.copyfile(first + '/' + n, x + '/' + n)
    s = case['stem']
    prep = [['create_changeset', [s + 'base.gpkg', s + 'ours.gpkg', s + 'o.bin']], ['create_changeset', [s + 'base.gpkg', s + 'theirs.gpkg', s + 't.bin']], ['level', 4]]
    ans = {}
    for k, w in (('python', wp), ('direct', wr)):
        ans[k] = w.ask({'dir': dirs[k], 'tmp': dirs[k] + 'tmp/', 'ops': prep + case['ops'] + [['callback'], ['level', 4]]})
        if isinstance(ans[k], tuple):
            raise Fail('the process making %s calls ended with %s' % (k, ans[k][1]))
    labels, out = set(), False
    for op, a, b in zip(prep + case['ops'], ans['python'], ans['direct']):
        if a[0] != b[0]:
            raise Fail('%s: Python gives %s, the C call %s' % (op, a[0], b[0]))
        if a[1] != b[1]:
            raise Fail('%s: messages through Python %s, directly %s' % (op, a[1][:5], b[1][:5]))
        if op in case['ops']:
            labels.add(op[0])
            if isinstance(a[0], list):
                labels.add('raises ' + str(a[0][1]) if a[0][0] == 'raised' else 'succeeds')
                out = True
            if a[1]:
                labels.add('messages')
    ta, tb = tree(dirs['python']), tree(dirs['direct'])
    if sorted(ta) != sorted(tb):
        raise Fail('files after the Python calls %s, after the C calls %s' % (sorted(ta), sorted(tb)))
    for n in ta:
        if ta[n] != tb[n]:
            raise Fail('%s differs: %d bytes after the Python calls, %d after the C calls' % (n, len(ta[n]), len(tb[n])))
    text = json.dumps([case['stem'], case['tables'], case['ops']], ensure_ascii=False)
    if any(ord(c) > 127 for c in text):
        labels.add('non-ASCII names')
    return out, labels

# ---------------------------------------------------------------- second part: stand-in library
STUB = r'''
#include <string.h>
#include <stdio.h>
static int rc = 0; static char buf[65536]; static const char *ver = "%s";
static void (*cb)(int, const char *);
void GEODIFF_init(void) {}
const char *GEODIFF_version(void) { return ver; }
void GEODIFF_setLoggerCallback(void (*f)(int, const char *)) { cb = f; }
static int level = -1;
void GEODIFF_setMaximumLoggerLevel(int n) { level = n; }
void stub_set(int r) { rc = r; buf[0] = 0; }
const char *stub_args(void) { return buf; }
int stub_level(void) { return level; }
void stub_emit(int l, const char *m) { if (cb) cb(l, m); }
static int rec(const char *n, int k, const char *a, const char *b, const char *c, const char *d, const char *e) {
  const char *v[5] = {a, b, c, d, e};
  strcpy(buf, n);
  for (int i = 0; i < k; ++i) { strcat(buf, "\n"); strncat(buf, v[i] ? v[i] : "(null)", 8000); }
  return rc;
}
typedef const char *S;
int GEODIFF_createChangeset(S a, S b, S c) { return rec("GEODIFF_createChangeset", 3, a, b, c, 0, 0); }
int GEODIFF_invertChangeset(S a, S b) { return rec("GEODIFF_invertChangeset", 2, a, b, 0, 0, 0); }
int GEODIFF_createRebasedChangeset(S a, S b, S c, S d, S e) { return rec("GEODIFF_createRebasedChangeset", 5, a, b, c, d, e); }
int GEODIFF_rebase(S a, S b, S c, S d) { return rec("GEODIFF_rebase", 4, a, b, c, d, 0); }
int GEODIFF_applyChangeset(S a, S b) { return rec("GEODIFF_applyChangeset", 2, a, b, 0, 0, 0); }
int GEODIFF_listChanges(S a, S b) { return rec("GEODIFF_listChanges", 2, a, b, 0, 0, 0); }
int GEODIFF_listChangesSummary(S a, S b) { return rec("GEODIFF_listChangesSummary", 2, a, b, 0, 0, 0); }
int GEODIFF_hasChanges(S a) { return rec("GEODIFF_hasChanges", 1, a, 0, 0, 0, 0); }
int GEODIFF_changesCount(S a) { return rec("GEODIFF_changesCount", 1, a, 0, 0, 0, 0); }
'''

def build_stub(scratch):
    sys.path.insert(0, REPO)
    from pygeodiff.__about__ import __version__ as v
    r = []
    for i, ver in enumerate((v, v + '.1')):
        src = os.path.join(scratch, 'stub%d.c' % i)
        so = os.path.join(scratch, 'libstub%d.so' % i)
        with open(src, 'w') as f:
            f.write(STUB.replace('%s', ver))
        subprocess.run(['gcc', '-w', '-shared', '-fPIC', src, '-o', so], check=True)
        r.append(so)
    return r

class Stub:
    def __init__(self, scratch):
        self.good, self.other = build_stub(scratch)
        import pygeodiff
        self.m = pygeodiff
        self.g = pygeodiff.GeoDiff(self.good)
        self.c = ctypes.CDLL(self.good)
        self.c.stub_args.restype = ctypes.c_char_p
        self.c.stub_emit.argtypes = [ctypes.c_int, ctypes.c_char_p]
        try:
            pygeodiff.GeoDiff(self.other)
            self.mismatch = 'a library of another version is accepted'
        except pygeodiff.GeoDiffLibVersionError:
            self.mismatch = None
    def run(self, case):
        if self.mismatch:
            raise Fail(self.mismatch)
        m = self.m
        name, args, rc, level, msgs = case['stub']
        self.c.stub_set(rc)
        try:
            r = ('value', getattr(self.g, name)(*args))
        except Exception as e:
            r = ('raised', e)
        got = self.c.stub_args().decode('utf-8', 'replace').split('\n')
        want = [CALLS[name][0]] + args
        if got != want:
            raise Fail('%s%s calls %s' % (name, args, got))
        if name in ('has_changes', 'changes_count'):
            if rc < 0:
                ok = r[0] == 'raised' and isinstance(r[1], m.GeoDiffLibError)
            else:
                ok = r == ('value', rc == 1 if name == 'has_changes' else rc) or (rc > 1 and name == 'has_changes' and r[0] == 'value')
        elif rc == 0:
            ok = r == ('value', None)
        else:
            t = {1: m.GeoDiffLibError, 2: m.GeoDiffLibConflictError, 3: m.GeoDiffLibUnsupportedChangeError}.get(rc)
            ok = r[0] == 'raised' and (type(r[1]) is t if t else isinstance(r[1], m.GeoDiffLibError))
        if not ok:
            raise Fail('%s with return code %d: %r' % (name, rc, r[1]))
        self.g.set_maximum_logger_level(level)
        if self.c.stub_level() != level:
            raise Fail('level %d arrives as %d' % (level, self.c.stub_level()))
        seen = []
        self.g.set_logger_callback(lambda l, t: seen.append((l, t)))
        gc.collect()
        sent = [(l, t.encode('utf-8')) for l, t in msgs]
        for l, t in sent:
            self.c.stub_emit(l, t)
        if [(int(l), t if isinstance(t, bytes) else t.encode('utf-8')) for l, t in seen] != sent:
            raise Fail('messages %r arrive as %r' % (sent, seen))
        return True, {'stand-in ' + name, 'return code %s' % (rc if rc in (0, 1, 2, 3) else 'other')}

# ---------------------------------------------------------------- generators
def strategies():
    from hypothesis import strategies as st
    uni = st.text(alphabet=st.characters(blacklist_categories=('Cs', 'Cc'), blacklist_characters='/\\'), min_size=1, max_size=8)
    stem = st.one_of(st.sampled_from(['', 'a ', 'š', '漢字 ', '🦦', "q'u", 'x"y', '%s', '-', 'é']), uni).filter(lambda s: len(s.encode()) < 60 and s not in ('.', '..'))
    text = st.one_of(st.none(), st.sampled_from(['', 'a', 'b', 'š', '漢', '🦦 otter', 'line\nbreak', 'quote"']), st.text(alphabet=st.characters(blacklist_categories=('Cs',), blacklist_characters='\0'), max_size=6))
    val = st.one_of(st.none(), st.integers(-2**63, 2**63 - 1), st.floats(allow_nan=False), st.sampled_from(['x', 'ž']), st.binary(max_size=4).map(lambda b: '\x00' + b.hex()), st.integers(0, 3))
    tname = st.one_of(st.sampled_from(['t', 'points', 'čáry', 'Tab le', 'select']), uni.filter(lambda s: not s.lower().startswith('sqlite')))
    row = st.tuples(text, val).map(list)
    rows = st.dictionaries(st.integers(1, 8).map(str), row, max_size=5)

    @st.composite
    def edited(draw, base):
        new = dict(base)
        for _ in range(draw(st.integers(0, 3))):
            k = str(draw(st.integers(1, 9)))
            if k in new and draw(st.integers(0, 2)) == 0:
                del new[k]
            elif k in new:
                i = draw(st.integers(0, 1))
                new[k] = [draw(text), new[k][1]] if i == 0 else [new[k][0], draw(val)]
            else:
                new[k] = draw(row)
        return new

    @st.composite
    def case(draw):
        names = draw(st.lists(tname, min_size=1, max_size=2, unique_by=lambda s: s.casefold()))
        tables = [[n, draw(st.sampled_from(['b', 'b INTEGER', 'b REAL', 'b BLOB', '"ž" TEXT']))] for n in names]
        base = [draw(rows) for _ in tables]
        ours = [draw(edited(b)) for b in base]
        theirs = [draw(edited(b)) for b in base]
        s = draw(stem)
        def arg(role):
            if draw(st.integers(0, 11)) == 11:
                return draw(st.sampled_from(['missing.x', 'notes.txt', 'empty.bin', '', 'no/such/file', 'ž/ä']))
            if role == 'd':
                return s + draw(st.sampled_from(['base', 'ours', 'theirs'])) + '.gpkg'
            if role == 'c':
                return draw(st.sampled_from([s + 'o.bin', s + 't.bin', s + 'o.bin', s + 't.bin', s + 'out.bin', 'empty.bin']))
            if role == 'o':
                return draw(st.sampled_from([s + 'out.bin', 'sub dir/' + s + 'výstup.bin']))
            return draw(st.sampled_from([s + 'report.json', 'sub dir/ř.json']))
        ops = []
        for _ in range(draw(st.integers(1, 6))):
            k = draw(st.integers(0, 13))
            if k == 0:
                ops.append(['level', draw(st.integers(0, 4))])
            elif k == 1:
                ops.append(['callback'])
            elif k == 2:
                ops.append(['version'])
            elif k == 3:
                ops.append(['instance'])
            else:
                n = draw(st.sampled_from(sorted(CALLS)))
                if n in ('rebase', 'create_rebased_changeset') and draw(st.integers(0, 2)):
                    a = [s + 'base.gpkg', s + 'theirs.gpkg', s + 'ours.gpkg', s + 'report.json'] if n == 'rebase' else [s + 'base.gpkg', s + 'ours.gpkg', s + 't.bin', s + 'out.bin', s + 'report.json']
                else:
                    a = [arg(r) for r in CALLS[n][1]]
                ops.append([n, a])
        return {'stem': s, 'tables': tables, 'base': base, 'ours': ours, 'theirs': theirs, 'ops': ops}

    line = st.text(alphabet=st.characters(blacklist_categories=('Cs',), blacklist_characters='\0\n'), max_size=12)
    @st.composite
    def stub(draw):
        n = draw(st.sampled_from(sorted(CALLS)))
        rc = draw(st.one_of(st.integers(0, 3), st.integers(0, 3), st.integers(-3, 9), st.sampled_from([255, 256, 65536, 2**31 - 1, -2**31])))
        return {'stub': [n, [draw(line) for _ in CALLS[n][1]], rc, draw(st.integers(0, 4)), draw(st.lists(st.tuples(st.integers(1, 4), line).map(list), max_size=3))]}
    return case(), stub()

def shard(A):
    import hypothesis
    from hypothesis import given, settings, seed, HealthCheck, Phase
    t0 = time.time()
    scratch = A.scratch
    os.makedirs(scratch, exist_ok=True)
    sys.path.insert(0, REPO)
    wp, wr = Worker('python', A.lib), Worker('direct', A.lib)
    stubs = Stub(scratch)
    st = dict(n=0, nontrivial=0, labels={}, seen=set(), samples=[])
    last = {}
    def one(case):
        if time.time() - t0 > float(A.cap) and not last:
            return
        try:
            nt, labels = stubs.run(case) if 'stub' in case else run_case(case, scratch, wp, wr, A.lib)
        except Fail as e:
            last['case'], last['what'] = case, str(e)
            raise
        st['n'] += 1
        for l in labels:
            st['labels'][l] = st['labels'].get(l, 0) + 1
        if nt:
            st['nontrivial'] += 1
            st['seen'].add(hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12])
            if st['n'] in (20, 60):
                st['samples'].append(json.dumps(case, ensure_ascii=False)[:600])
    caseS, stubS = strategies()
    ph = [Phase.generate, Phase.shrink]
    rounds = [(stubS, 150, 0), (caseS, 150, 0)]
    if int(A.cases) > 150:
        rounds += [(caseS, 150, i) for i in range(1, int(A.cases) // 150)]
    for strat, n, i in rounds:
        @seed(int(A.seed) + 7919 * i)
        @settings(max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck), phases=ph, report_multiple_bugs=False, print_blob=False)
        @given(strat)
        def test(c):
            one(c)
        try:
            test()
        except Fail:
            break
        except hypothesis.errors.Flaky:
            break
        if time.time() - t0 > float(A.cap):
            break
    wp.close()
    wr.close()
    r = dict(n=st['n'], nontrivial=st['nontrivial'], labels=st['labels'], seen=sorted(st['seen']), samples=st['samples'])
    if last:
        r['case'], r['what'] = last['case'], last['what']
    json.dump(r, open(A.out, 'w'))
    return 0

def replay(A):
    case = json.loads([l for l in open(A.replay, encoding='utf-8') if l.startswith('case ')][0][5:])
    d = tempfile.mkdtemp(prefix='verif-py-', dir='/dev/shm')
    wp, wr = Worker('python', A.lib), Worker('direct', A.lib)
    try:
        sys.path.insert(0, REPO)
        (Stub(d).run(case) if 'stub' in case else run_case(case, d, wp, wr, A.lib))
        print('PASSES')
        return 0
    except Fail as e:
        print('FAILS: %s' % e)
        return 1
    finally:
        wp.close(); wr.close()
        shutil.rmtree(d, ignore_errors=True)

def main():
    ap = argparse.ArgumentParser()
    for a in ('tier', 'seed', 'out', 'scratch', 'replays', 'cap', 'lib', 'replay', 'jobs', 'worker', 'shard', 'cases'):
        ap.add_argument('--' + a)
    A, _ = ap.parse_known_args()
    sys.dont_write_bytecode = True
    if A.worker:
        return worker(A.worker, A.lib)
    if A.shard:
        return shard(A)
    if A.replay:
        return replay(A)
    t0 = time.time()
    jobs = int(A.jobs or 8)
    cases = 150 if A.tier == 'quick' else 10 ** 6
    cap = min(float(A.cap) - 60, 45 if A.tier == 'quick' else 1e9)
    procs = []
    os.makedirs(A.scratch, exist_ok=True)
    for j in range(jobs):
        o = os.path.join(A.scratch, 'r%d.json' % j)
        procs.append((o, subprocess.Popen([sys.executable, '-B', '-W', 'ignore', os.path.abspath(__file__), '--shard', str(j), '--seed', str(int(A.seed) * 1000 + j), '--cases', str(cases), '--cap', str(cap),
                                           '--scratch', os.path.join(A.scratch, 's%d' % j), '--lib', A.lib, '--out', o])))
    res = []
    for o, p in procs:
        rc = p.wait()
        if rc != 0 or not os.path.exists(o):
            print('part ended with %d' % rc)
            return 3
        res.append(json.load(open(o)))
    violation = None
    for r in res:
        if 'case' in r:
            t = json.dumps(r['case'], sort_keys=True)
            violation = os.path.join(A.replays, 'C23.py-%s.replay' % hashlib.sha1(t.encode()).hexdigest()[:10])
            with open(violation, 'w', encoding='utf-8') as f:
                f.write('property C23.py\ncase %s\n' % t)
            print('FAILED C23.py replay=%s\n%s\n%s' % (violation, r['what'][:2000], json.dumps(r['case'], ensure_ascii=False)[:1500]))
            break
    labels = {}
    for r in res:
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
    distinct = set(x for r in res for x in r['seen'])
    out = dict(name='C23.py', evaluations=sum(r['n'] for r in res), nontrivial=sum(r['nontrivial'] for r in res), distinct_nontrivial=len(distinct), discarded=0, labels=labels,
               wall=round(time.time() - t0, 2), capped=False, flaky=0, samples=[x for r in res for x in r['samples']][:4], violation=violation,
               rule='1-6 calls of the Python module (all nine operations, version, levels, callbacks, further instances) over generated databases and changesets with good and bad arguments and non-ASCII names, in a process of its own, against the same calls with plain ctypes in another process on equal files: values, exception kinds, messages with levels, every file byte for byte; and calls of a stand-in library that records its arguments and returns any code. Non-trivial: at least one operation was called.')
    json.dump(out, open(A.out, 'w'))
    print('C23.py: %d cases, %d distinct non-trivial, %s' % (out['evaluations'], len(distinct), labels))
    return 1 if violation else 0

if __name__ == '__main__':
    sys.exit(main())
