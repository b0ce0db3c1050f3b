#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decides one property on /repo's current working tree
check.py --replay FILE          runs a replay file again
Environment: VERIF_SEED (default 1), VERIF_TIER (when no tier is given), GEODIFF_REPO (default /repo)."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build as B
from registry import CHECKS

T0 = time.time()
SCRATCH_ROOT = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()

def findings(pid):
    known, fixed = [], []
    p = os.path.join(V, 'known_findings.txt')
    for line in open(p):
        line = line.strip()
        kind, _, rest = line.partition(': ')
        if kind not in ('known', 'fixed'):
            continue
        f = rest.split(' ')
        if f[0] != 'property=' + pid:
            continue
        if kind == 'known':
            assert f[1].startswith('repro=')
            known.append((f[1][6:], ' '.join(f[2:])))
        else:
            fixed.append(rest)
    return known, fixed

def binaries(flavors, extra):
    bins = {}
    for f in flavors:
        bins[f] = B.build(f, 'harness')
    args = []
    if 'cli' in extra:
        args += ['--cli', B.build('plain', 'cli')]
    if 'lib' in extra:
        args += ['--lib', B.build('plain', 'lib')]
    if 'locale' in extra:
        args += ['--locales', B.locales()]
    if 'fuzz' in extra:
        bins['fuzzer'] = B.build('fuzz', 'fuzz')
    return bins, args

def env():
    e = dict(os.environ)
    for k in ('GEODIFF_LOGGER_LEVEL',):
        e.pop(k, None)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=3000:detect_stack_use_after_return=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:report_signal_unsafe=0'
    e['LC_ALL'] = 'C.UTF-8'
    return e

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = CHECKS[pid]
    bins, args = binaries(sorted({s.get('flavor', 'plain') for s in cfg['search'] if s.get('kind', 'pbt') == 'pbt'} | ({'plain'})), cfg.get('needs', ()))
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir=SCRATCH_ROOT)
    replays = os.path.join(V, 'replays')
    os.makedirs(replays, exist_ok=True)
    viol, sub = [], []
    try:
        known, fixed = findings(pid)
        for name, text in known:
            p = subprocess.run([bins['plain'], '--repro', name, '--scratch', os.path.join(scratch, 'repro')] + args, stdout=subprocess.PIPE, text=True, errors='replace', env=env())
            if p.returncode == 1:
                print('KNOWN-FINDING: property=%s %s' % (pid, text), flush=True)
            elif p.returncode == 0:
                print('note: the known finding "%s" no longer fails' % name, flush=True)
            else:
                raise SystemExit(3)
        total = 820.0 if tier == 'thorough' else 400.0
        n = len(cfg['search'])
        for i, s in enumerate(cfg['search']):
            left = total - (time.time() - T0)
            cap = max(10.0, left / (n - i))
            out = os.path.join(scratch, 'out.json')
            if s.get('kind', 'pbt') == 'pbt':
                cmd = [bins[s.get('flavor', 'plain')], s['prop'], '--seed', str(seed), '--jobs', str(s.get('jobs', 8)), '--out', out, '--scratch', os.path.join(scratch, 's'),
                       '--replays', replays, '--cap', '%.0f' % cap, '--shrink', '40'] + args
                cases = s.get(tier)
                if tier == 'thorough' and cases is None:
                    cases = 10 ** 8     # until the time is used up
                if cases is not None:
                    cmd += ['--cases', str(cases)]
            else:
                cmd = [s.get('python', 'python3'), os.path.join(V, s['script']), '--tier', tier, '--seed', str(seed), '--out', out, '--scratch', os.path.join(scratch, 's'),
                       '--replays', replays, '--cap', '%.0f' % cap] + args
                if 'fuzzer' in bins:
                    cmd += ['--fuzzer', bins['fuzzer']]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env())
            print(p.stdout[-6000:], flush=True)
            if p.returncode not in (0, 1) or not os.path.exists(out):
                print('check did not run: %s exited with %d' % (cmd[0], p.returncode))
                raise SystemExit(3)
            r = json.load(open(out))
            os.unlink(out)
            sub.append(r)
            if r['violation']:
                viol.append(r['violation'])
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    cov = {
        'evaluations': sum(r['evaluations'] for r in sub),
        'distinct_nontrivial': sum(r['distinct_nontrivial'] for r in sub),
        'rule': ' | '.join('%s: %s' % (r['name'], r['rule']) for r in sub),
        'samples': [x for r in sub for x in r['samples']][:8],
        'discarded': sum(r['discarded'] for r in sub),
        'parts': [{k: r[k] for k in ('name', 'evaluations', 'nontrivial', 'distinct_nontrivial', 'discarded', 'labels', 'wall', 'capped', 'flaky') if k in r} for r in sub],
        'known_findings_rechecked': [k for k, _ in known],
    }
    ev = os.environ.get('GEODIFF_EVIDENCE', os.path.join(V, 'evidence'))
    os.makedirs(ev, exist_ok=True)
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': cfg['level'], 'coverage': cov, 'assumptions': cfg.get('assumptions', []),
                   'wall_s': round(time.time() - T0, 2), 'violations': len(viol)}, f, indent=1)
    for v in viol:
        print('VIOLATION property=%s replay=%s' % (pid, v))
    return 1 if viol else 0

def replay(path):
    first = open(path, errors='replace').readline().split()
    prop = first[1] if len(first) > 1 else ''
    pid = prop.split('.')[0]
    cfg = CHECKS[pid]
    for s in cfg['search']:
        if s.get('prop') == prop:
            bins, args = binaries([s.get('flavor', 'plain')], cfg.get('needs', ()))
            return subprocess.run([bins[s.get('flavor', 'plain')], '--replay', path, '--verbose', '1'] + args, env=env()).returncode
        if s.get('script') and s.get('name') == prop:
            bins, args = binaries(['plain'], cfg.get('needs', ()))
            cmd = [s.get('python', 'python3'), os.path.join(V, s['script']), '--replay', path] + args
            if 'fuzzer' in bins:
                cmd += ['--fuzzer', bins['fuzzer']]
            return subprocess.run(cmd, env=env()).returncode
    print('unknown property', prop)
    return 3

if __name__ == '__main__':
    sys.exit(main())
