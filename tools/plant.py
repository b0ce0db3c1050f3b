#!/usr/bin/env python3
"""plant.py DEFS.py   writes the planted changes of DEFS (list P of dicts: id, property, needs, breaks, edits=[(file, old, new)], demo=C++ body of
main or a whole demo.cpp, files={name: text}, sh=own demo.sh) to /verif/seeded. Checks that the changed lines are the original repository's."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'adfeaff'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for p in runpy.run_path(sys.argv[1])['P']:
    if len(sys.argv) > 2 and p['id'] not in sys.argv[2:]: continue
    d = '%s/seeded/%s' % (V, p['id'])
    w = '/tmp/plant-' + p['id']
    shutil.rmtree(w, ignore_errors=True); shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d); os.makedirs(w)
    sh('git -C /repo archive HEAD geodiff/src pygeodiff | tar x -C %s; cd %s; git init -q .; git add -A; git -c user.name=x -c user.email=x@x commit -qm x' % (w, w))
    ok = True
    for f, old, new in p['edits']:
        t = open(w + '/' + f, newline='').read()
        if t.count(old) != 1: print(p['id'], f, 'occurs', t.count(old), repr(old)); ok = False; continue
        open(w + '/' + f, 'w', newline='').write(t.replace(old, new))
    r = sh('git diff', cwd=w).stdout
    open(d + '/patch.diff', 'w').write(r)
    cur = None; orig = set(); mine = 0; theirs = 0
    for l in r.split('\n'):
        if l.startswith('--- a/'): orig = set(sh('git -C /repo show %s:%s' % (BASE, l[6:])).stdout.split('\n'))
        elif l.startswith('-') and not l.startswith('---'):
            if l[1:].strip() in ('', '{', '}'): continue
            if l[1:] in orig: theirs += 1
            else: mine += 1; print(p['id'], 'not original:', l)
    if not theirs and not p.get('addonly'): print(p['id'], 'changes no original line')
    if 'sh' in p:
        open(d + '/demo.sh', 'w').write(p['sh'])
    if p.get('pg'):
        for f in ('fakepg.cpp', 'fakepg.hpp'): shutil.copy(V + '/harness/' + f, d)
        shutil.copy(V + '/tools/demo/pgdemo.hpp', d)
    if 'demo' in p:
        for f in ('demo.hpp', 'gpkg.h', 'gpkg_stub.c') + (() if 'sh' in p else ('demo.sh',)): shutil.copy(V + '/tools/demo/' + f, d)
        t = p['demo']
        if 'int main' not in t: t = 'int main() {\n' + t.strip('\n') + '\n  return 0;\n}\n'
        if '#include "demo.hpp"' not in t: t = '#include "demo.hpp"\n' + t
        open(d + '/demo.cpp', 'w').write(t)
    for n, t in p.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=p['property'], needs=p['needs'], what_it_breaks=p['breaks']), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w, ignore_errors=True)
    print(p['id'], 'written' if ok else 'BROKEN')
