#!/usr/bin/env python3
"""seed.py [ID...]   tries planted changes: applies, builds and passes the tests in a scratch copy, demo passes without and fails
with the change, and whether the property's check catches it (--nocheck: not run). --seed N sets VERIF_SEED."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
opts = [a for a in args if a.startswith('--')]
ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
seeds = '1'
for o in opts:
    if o.startswith('--seed='): seeds = o[7:]

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def prep(i):
    d = '%s/seeded/%s' % (V, i)
    w = '/tmp/seed-' + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    sh('git -C /repo archive HEAD | tar x -C %s --exclude=geodiff/tests/testdata; mkdir -p %s/geodiff/tests; ln -s /repo/geodiff/tests/testdata %s/geodiff/tests/testdata; cd %s && git init -q . && mkdir _cm && cp -r /opt/vp/cmake/* _cm/ && sed -i "s#/repo/#%s/#g" _cm/* ; sed -i "s#/opt/vp/cmake#%s/_cm#g" _cm/*' % (w, w, w, w, w, w))
    res = dict(id=i)
    p = sh('timeout 300 bash %s/demo.sh' % d, cwd=w)
    res['demo_clean'] = p.returncode
    if p.returncode: res['out'] = p.stdout[-800:]
    p = sh('git apply %s/patch.diff' % d, cwd=w)
    res['apply'] = p.returncode
    if p.returncode:
        res['out'] = p.stdout
        return res
    if '--notests' not in opts:
        b = sh('cmake -S _cm -B _b -G Ninja -DCMAKE_BUILD_TYPE=Debug && ninja -C _b', cwd=w)
        res['build'] = b.returncode
        if b.returncode: res['out'] = b.stdout[-1500:]
        else:
            os.makedirs(w + '/_b/tmp')
            t = sh('cd _b/tmp && TMPDIR=$PWD/ ../geodiff_changeset_reader_test && TMPDIR=$PWD/ ../geodiff_changeset_utils_test', cwd=w)
            res['tests'] = t.returncode
            if t.returncode: res['out'] = t.stdout[-800:]
    p = sh('timeout 300 bash %s/demo.sh' % d, cwd=w)
    res['demo_bug'] = p.returncode
    res['demo_says'] = p.stdout[-200:].strip()
    return res

def main():
    bad = []
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(prep, ids):
            i = r['id']
            valid = r.get('demo_clean') == 0 and r.get('apply') == 0 and r.get('build', 0) == 0 and r.get('tests', 0) == 0 and r.get('demo_bug', 0) not in (0, 99, 124)
            line = '%-28s %s' % (i, 'valid' if valid else 'INVALID ' + str(r))
            if valid and '--nocheck' not in opts:
                pid = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
                t = time.time()
                e = dict(os.environ, GEODIFF_REPO='/tmp/seed-' + i, GEODIFF_BUILD='/tmp/seed-%s/_vb' % i, VERIF_SEED=seeds, GEODIFF_EVIDENCE='/tmp/seed-%s/_ev' % i)
                p = sh('python3 %s/check.py %s quick' % (V, pid), env=e)
                hit = p.returncode == 1 and 'VIOLATION property=%s' % pid in p.stdout
                line += '  %s %s (%ds)' % (pid, 'caught' if hit else 'MISSED rc=%d' % p.returncode, time.time() - t)
                if '-v' in opts or '--v' in opts or p.returncode not in (0, 1): line += '\n' + p.stdout[-1500:]
                if not hit: bad.append(i)
            if not valid: bad.append(i)
            print(line, flush=True)
            shutil.rmtree('/tmp/seed-' + i, ignore_errors=True)
    print('not ok:', bad)
main()
