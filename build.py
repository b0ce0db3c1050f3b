#!/usr/bin/env python3
"""Builds the harness from /repo's current working tree into /verif/build (git-ignored). No cached objects of /repo's
sources are trusted: every source of the tree is recompiled; only harness objects are reused when unchanged."""
import hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GEODIFF_REPO', '/repo')

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise SystemExit('BUILD FAILED: %s\n%s' % (' '.join(cmd), p.stdout[-6000:]))

def repo_sources():
    src = []
    base = os.path.join(REPO, 'geodiff/src')
    for d, _, fs in os.walk(base):
        for f in sorted(fs):
            if f.endswith(('.cpp', '.c')):
                src.append(os.path.join(d, f))
    return sorted(src)

FLAVORS = {
    'plain': dict(cc='gcc', cxx='g++', flags=['-O1', '-g1'], link=[]),
    'asan': dict(cc='clang', cxx='clang++', flags=['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute,float-divide-by-zero', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'],
                 link=['-fsanitize=address,undefined']),
    'fuzz': dict(cc='clang', cxx='clang++', flags=['-O1', '-g1', '-fsanitize=fuzzer-no-link,address,undefined', '-fno-sanitize=nonnull-attribute,float-divide-by-zero', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'],
                 link=['-fsanitize=fuzzer,address,undefined']),
    'tsan': dict(cc='clang', cxx='clang++', flags=['-O1', '-g1', '-fsanitize=thread'], link=['-fsanitize=thread']),
}

def locales():
    """locales with a decimal comma, and with another idea of what is the lower case of I; a directory for LOCPATH"""
    d = os.path.join(os.environ.get('GEODIFF_BUILD', os.path.join(V, 'build')), 'locale')
    os.makedirs(d, exist_ok=True)
    for src in ('de_DE', 'tr_TR'):
        o = os.path.join(d, src + '.UTF-8')
        if not os.path.isdir(o):
            subprocess.run(['localedef', '-i', src, '-f', 'UTF-8', o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return d

def build(flavor='plain', what='harness'):
    """what: harness | fuzz | cli | lib ; returns the path of the result"""
    f = FLAVORS[flavor]
    out = os.path.join(os.environ.get('GEODIFF_BUILD', os.path.join(V, 'build')), flavor)
    os.makedirs(out, exist_ok=True)
    gen = os.path.join(out, 'gen')
    os.makedirs(gen, exist_ok=True)
    cfg = ''
    tpl = os.path.join(REPO, 'geodiff/cmake_templates/geodiff_config.hpp.in')
    if os.path.exists(tpl):
        cfg = open(tpl).read()
    cfg = re.sub(r'#cmakedefine\s+HAVE_POSTGRES.*', '#define HAVE_POSTGRES', cfg)
    cfg = re.sub(r'#cmakedefine\s+(\w+).*', r'/* #undef \1 */', cfg)
    cfg = re.sub(r'@\w+@', '', cfg)
    with open(os.path.join(gen, 'geodiff_config.hpp'), 'w') as h:
        h.write(cfg)
    inc = ['-I' + gen, '-I' + os.path.join(V, 'harness/gpkgstub'), '-I' + os.path.join(V, 'harness')]
    for d in ('geodiff/src', 'geodiff/src/3rdparty', 'geodiff/src/drivers'):
        inc.append('-I' + os.path.join(REPO, d))
    inc.append('-I/usr/include/postgresql')
    defs = ['-DSQLITE_CORE', '-DSQLITE_ENABLE_SESSION', '-DSQLITE_ENABLE_PREUPDATE_HOOK', '-DHAVE_POSTGRES']
    static = what != 'lib'
    if static:
        defs.append('-DGEODIFF_STATIC')
    pic = ['-fPIC'] if what == 'lib' else []
    jobs, objs, cliobjs = [], [], []
    kind = 'lib' if what == 'lib' else 'st'
    for s in repo_sources():
        iscli = os.path.basename(s) == 'geodiffinfo.cpp'
        if iscli and what != 'cli':
            continue
        o = os.path.join(out, kind + '_' + re.sub(r'\W', '_', os.path.relpath(s, REPO)) + '.o')
        cxx = s.endswith('.cpp')
        cmd = [f['cxx'] if cxx else f['cc']] + (['-std=c++17'] if cxx else []) + f['flags'] + pic + defs + inc + ['-w', '-c', s, '-o', o]
        jobs.append(cmd)
        objs.append(o)
    # stand-ins
    stubs = [os.path.join(V, 'harness/gpkgstub/gpkg_stub.c')]
    for s in stubs:
        o = os.path.join(out, kind + '_' + os.path.basename(s) + '.o')
        jobs.append([f['cc']] + f['flags'] + pic + defs + inc + ['-w', '-c', s, '-o', o])
        objs.append(o)
    if what in ('harness', 'fuzz'):
        hd = os.path.join(V, 'harness')
        hdrs = b''.join(open(os.path.join(hd, x), 'rb').read() for x in sorted(os.listdir(hd)) if x.endswith('.hpp'))
        hdrs += open(os.path.join(REPO, 'geodiff/src/geodiff.h'), 'rb').read() + open(__file__, 'rb').read()
        for x in sorted(os.listdir(hd)):
            if not x.endswith('.cpp'):
                continue
            if what == 'fuzz' and not (x in ('model.cpp', 'fuzz_target.cpp')):
                continue
            if what == 'harness' and x.startswith('fuzz_'):
                continue
            s = os.path.join(hd, x)
            key = hashlib.sha256(hdrs + open(s, 'rb').read()).hexdigest()[:16]
            o = os.path.join(out, 'h_%s_%s.o' % (x, key))
            objs.append(o)
            if not os.path.exists(o):
                for old in os.listdir(out):
                    if old.startswith('h_%s_' % x):
                        os.unlink(os.path.join(out, old))
                jobs.append([f['cxx'], '-std=c++17'] + f['flags'] + defs + inc + ['-Wall', '-Wno-deprecated-declarations', '-c', s, '-o', o + '.tmp', ])
    def one(cmd):
        run(cmd)
        if cmd[-1].endswith('.tmp'):
            os.rename(cmd[-1], cmd[-1][:-4])
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(one, sorted(jobs, key=lambda c: -os.path.getsize([a for a in c if a.endswith(('.cpp', '.c'))][0]))))
    res = os.path.join(out, {'harness': 'harness', 'fuzz': 'fuzzer', 'cli': 'geodiffinfo', 'lib': 'libgeodiff.so'}[what])
    link = [f['cxx']] + f['link'] + (['-shared'] if what == 'lib' else []) + objs + ['-lsqlite3', '-lpq', '-lpthread', '-o', res]
    run(link)
    return res

if __name__ == '__main__':
    print(build(*(sys.argv[1:] or ['plain'])))
