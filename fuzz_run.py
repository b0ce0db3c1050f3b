#!/usr/bin/env python3
"""Coverage-guided fuzzing of the changeset readers (libFuzzer, ASan, UBSan): 8 processes with their own seeds."""
import argparse, glob, json, os, shutil, subprocess, sys, tempfile, time, hashlib
ap = argparse.ArgumentParser()
for a in ('tier', 'seed', 'out', 'scratch', 'replays', 'cap', 'fuzzer', 'replay', 'jobs'):
    ap.add_argument('--' + a)
A, _ = ap.parse_known_args()
FLAGS = ['-rss_limit_mb=3500', '-malloc_limit_mb=2500', '-timeout=60', '-max_len=4096', '-print_final_stats=0', '-verbosity=0', '-reload=0']

def replay(path):
    hexs = [l.split(' ', 1)[1].strip() if ' ' in l.strip() else '' for l in open(path) if l.startswith('hex')]
    d = tempfile.mkdtemp(prefix='verif-fuzz-', dir='/dev/shm')
    try:
        f = os.path.join(d, 'input')
        open(f, 'wb').write(bytes.fromhex(hexs[0]))
        p = subprocess.run([A.fuzzer] + FLAGS + [f], env=dict(os.environ, FUZZ_DIR=d))
        print('FAILS' if p.returncode else 'PASSES')
        return 1 if p.returncode else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    t0 = time.time()
    if A.replay:
        return replay(A.replay)
    seed = int(A.seed)
    os.makedirs(A.scratch, exist_ok=True)
    seeds = os.path.join(A.scratch, 'seeds')
    os.makedirs(seeds)
    env = dict(os.environ, FUZZ_DIR=A.scratch)
    subprocess.run([A.fuzzer], env=dict(env, FUZZ_SEEDS=seeds), check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    secs = min(float(A.cap) - 60, 1e9) if A.tier == 'thorough' else min(25.0, float(A.cap) / 2)
    runs = [] if A.tier == 'thorough' else ['-runs=4000']
    procs = []
    n = int(A.jobs or 8)
    for j in range(n):
        corpus, art = os.path.join(A.scratch, 'corpus%d' % j), os.path.join(A.scratch, 'crash%d-' % j)
        shutil.copytree(seeds, corpus)
        e = dict(env, FUZZ_STATS=os.path.join(A.scratch, 'stats%d.json' % j))
        log = open(os.path.join(A.scratch, 'log%d' % j), 'wb')
        procs.append(subprocess.Popen([A.fuzzer] + FLAGS + runs + ['-seed=%d' % (seed * 1000 + j + 1), '-max_total_time=%d' % secs, '-artifact_prefix=' + art, corpus],
                                      stdout=log, stderr=log, env=e, cwd=A.scratch))
    bad = None
    while True:
        left = [p for p in procs if p.poll() is None]
        failed = [j for j, p in enumerate(procs) if p.poll() not in (None, 0)]
        if failed or not left or time.time() - t0 > secs + 40:
            bad = failed[0] if failed else None
            break
        time.sleep(0.1)
    if bad is not None:
        time.sleep(1)
    for p in procs:
        if p.poll() is None:
            p.kill()
        p.wait()
    violation = None
    if bad is not None:
        log = open(os.path.join(A.scratch, 'log%d' % bad), errors='replace').read()
        at = [i for i in (log.find('PROPERTY VIOLATED'), log.find('ERROR: '), log.find('runtime error:')) if i >= 0]
        print(log[max(0, min(at) - 100) if at else -2500:][:2500])
        arts = glob.glob(os.path.join(A.scratch, 'crash%d-*' % bad))
        if not arts:
            print('fuzzer %d ended with %d without an input' % (bad, procs[bad].returncode))
            return 3
        art = min(arts, key=os.path.getsize)
        mini = os.path.join(A.scratch, 'min')
        subprocess.run([A.fuzzer] + FLAGS + ['-minimize_crash=1', '-max_total_time=20', '-exact_artifact_path=' + mini, art], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(mini):
            art = mini
        data = open(art, 'rb').read()
        violation = os.path.join(A.replays, 'C05.fuzz-%s.replay' % hashlib.sha1(data).hexdigest()[:10])
        with open(violation, 'w') as f:
            f.write('property C05.fuzz\nhex %s\n' % data.hex())
    st = []
    for f in glob.glob(os.path.join(A.scratch, 'stats*.json')):
        try:
            st.append(json.load(open(f)))
        except ValueError:
            pass
    tot = {k: sum(s[k] for s in st) for k in ('runs', 'malformed', 'well', 'applied', 'refused', 'distinct')} if st else dict(runs=1, malformed=0, well=0, applied=0, refused=0, distinct=1)
    res = dict(name='C05.fuzz', evaluations=tot['runs'], nontrivial=tot['runs'], distinct_nontrivial=tot['distinct'], discarded=0,
               labels={k: tot[k] for k in ('malformed', 'well', 'applied', 'refused')}, wall=round(time.time() - t0, 2), capped=False, flaky=0,
               rule='libFuzzer inputs grown from real changesets with a structured mutator (decode, change entries, encode) and byte mutations; every input goes through listing, summary, count, inversion, apply and both sides of a rebase. Distinct: different bytes within one process.',
               samples=[x for s in st for x in s['samples']][:4], violation=violation)
    json.dump(res, open(A.out, 'w'))
    print('C05.fuzz: %s' % tot)
    return 1 if violation else 0
sys.exit(main())
