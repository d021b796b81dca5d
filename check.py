#!/usr/bin/env python3
"""Builds the explorer and one driver from the current /repo tree and runs one property's check.
usage: check.py <property> [--tier quick|thorough] [further driver arguments]"""
import hashlib, json, os, shlex, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD') or os.path.join(V, 'build')
sys.path.insert(0, os.path.join(V, 'tools'))
from targets import DRIVERS, PROPS

TSAN = ['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0', '-mllvm', '-tsan-instrument-read-before-write=1',
        '-mllvm', '-tsan-distinguish-volatile=1']
TSAN_GCC = ['-fsanitize=thread', '--param=tsan-instrument-func-entry-exit=0', '--param=tsan-distinguish-volatile=1']
COMMON = ['-O2', '-g1', '-fno-omit-frame-pointer', '-w', '-I' + V + '/mcrt', '-I' + V + '/drivers', '-I' + REPO, '-pthread']
WRAP = ['memcpy', 'memmove', 'memset', 'memcmp', 'strlen', 'strcmp', 'strncmp']

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()

def deps_of(dfile):
    t = open(dfile).read().replace('\\\n', ' ')
    return t.split(':', 1)[1].split()

def fileh(f):
    try: return sha(open(f, 'rb').read())
    except OSError: return 'missing'

def compile_one(out, cmd):
    """cmd compiles to out and writes out.d; skipped when command and contents of all dependencies are unchanged."""
    st = out + '.stamp'; d = out + '.d'
    def stamp(): return sha(' '.join(cmd), *[f + fileh(f) for f in sorted(set(deps_of(d)))])
    if os.path.exists(out) and os.path.exists(st) and os.path.exists(d) and open(st).read() == stamp(): return
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        print('BUILD FAILED:', ' '.join(cmd)); print(r.stderr[-6000:]); sys.stdout.flush(); os._exit(2)
    open(st, 'w').write(stamp())

def build(name):
    d = DRIVERS[name]
    out = os.path.join(B, name); os.makedirs(out, exist_ok=True)
    jobs = []
    lib = os.path.join(B, 'libmcrt.so')
    jobs.append((lib, ['g++', '-std=c++17', '-O2', '-g1', '-fPIC', '-shared', '-mfsgsbase', '-fno-stack-protector', '-fcf-protection=none',
                       '-fno-builtin-malloc', '-MD', '-MF', lib + '.d', '-o', lib, V + '/mcrt/mcrt.cpp', '-ldl', '-lpthread']))
    objs = []
    # a driver source may be (file, flags, symbol): all its global symbols but that one become local, so that several copies can be linked
    srcs = [(V + '/drivers/' + s[0], *s[1:]) if isinstance(s, tuple) else (V + '/drivers/' + s, []) for s in d['drivers']] + [(s if isinstance(s, tuple) else (s, [])) for s in d.get('repo', [])]
    for s, extra, *keep in srcs:
        again = s.startswith('@'); s = s.lstrip('@')    # the same source a second time, with other flags
        if not s.startswith('/'): s = os.path.join(REPO, s)
        o = os.path.join(out, s.replace('/', '_') + ('.2.o' if again else '.o'))
        objs.append(o)
        c = s.endswith('.c') and not d.get('c_as_cxx')
        gcc = d.get('gcc')                      # for sources only gcc accepts
        cmd = ['gcc' if gcc else 'clang'] if c else ['g++' if gcc else 'clang++', d.get('std', '-std=c++17')]
        if s.endswith('.c') and d.get('c_as_cxx'): cmd += ['-x', 'c++']
        cmd += COMMON + ([] if d.get('plain') else TSAN_GCC if gcc else TSAN) + [('-I' + os.path.join(REPO, x[2:]) if x.startswith('-I') and not x.startswith('-I/') else x) for x in d.get('flags', [])] + extra + ['-MD', '-MF', o + '.d', '-c', s, '-o', o]
        if keep: cmd = ['sh', '-c', ' '.join(map(shlex.quote, cmd)) + ' && objcopy --keep-global-symbol=' + keep[0] + ' ' + shlex.quote(o)]
        jobs.append((o, cmd))
    rust = []
    if d.get('rust'):                           # crates in dependency order, the last one as a static library
        flags = '-O -C debug-assertions=on -C overflow-checks=off -C panic=abort --edition 2018 -A warnings'
        for i, r in enumerate(d['rust']):
            nm = os.path.splitext(r)[0].split('_')[-1]; last = i == len(d['rust']) - 1
            o = os.path.join(out, 'lib%s.%s' % (nm, 'a' if last else 'rlib'))
            e, v = d['rust_env']
            cmd = '%s=%s rustc %s --crate-type %s --crate-name %s -L %s --emit=link=%s,dep-info=%s %s' % (e, shlex.quote(os.path.join(REPO, v)), flags, 'staticlib' if last else 'rlib', nm, shlex.quote(out), shlex.quote(o), shlex.quote(o + '.d'), shlex.quote(V + '/drivers/' + r))
            if last: cmd += ''.join(' --extern %s' % os.path.splitext(x)[0].split('_')[-1] for x in d['rust'][:-1])
            compile_one(o, ['sh', '-c', cmd]); rust.append(o)
        objs.append(rust[-1])
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: compile_one(*j), jobs))
    exe = os.path.join(out, 'run')
    link = ['clang++'] + objs + ['-o', exe, '-L' + B, '-lmcrt', '-Wl,-rpath,' + B] + ['-Wl,--wrap=' + w for w in WRAP + d.get('wrap', [])] + \
           ['-Wl,-z,now', '-rdynamic', '-pthread'] + d.get('libs', [])
    st = sha(' '.join(link), *[fileh(o) for o in objs + [lib]])
    if not (os.path.exists(exe) and os.path.exists(exe + '.stamp') and open(exe + '.stamp').read() == st):
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode: print('LINK FAILED'); print(r.stderr[-6000:]); sys.exit(2)
        open(exe + '.stamp', 'w').write(st)
    return exe

def main():
    a = sys.argv[1:]
    if a and a[0] == '--build-all':
        for n in DRIVERS: build(n)
        return 0
    prop = a[0]; rest = a[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in rest: i = rest.index('--tier'); tier = rest[i + 1]; del rest[i:i + 2]
    exe = build(PROPS[prop])
    os.makedirs(V + '/evidence', exist_ok=True); os.makedirs(V + '/replays', exist_ok=True)
    env = dict(os.environ); env.pop('LD_PRELOAD', None)
    cmd = ['setarch', '-R', exe] if False else [exe]
    cmd += ['--property', prop, '--tier', tier, '--known', V + '/known_findings.txt', '--replay-dir', V + '/replays'] + rest
    if '--only' not in rest and '--replay' not in rest and '--list' not in rest: cmd += ['--evidence', V + '/evidence/%s.json' % prop]
    sys.stdout.flush()
    return subprocess.run(cmd, env=env).returncode

sys.exit(main())
