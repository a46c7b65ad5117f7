#!/usr/bin/env python3
"""Development only: apply the small edits of tools/probe/*.py to scratch copies and report whether the property's
quick check notices. probe.py [-j N] [prefix ...]"""
import glob, importlib.util, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = 'export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod; '

def sh(cmd, cwd=None, timeout=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return p.returncode, p.stdout

def one(x):
    pid, prop, edits = x
    d = f'/tmp/probe-{os.getpid()}-{pid}'
    shutil.rmtree(d, ignore_errors=True)
    try:
        sh(f'cp -a /repo {d}')
        for f, a, b in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            which = None
            if isinstance(b, tuple):
                b, which = b
            n = s.count(a)
            if (which is None and n != 1) or (which is not None and n <= which):
                return pid, f'EDIT {n} occurrences in {f}'
            if which is None:
                s = s.replace(a, b)
            else:
                parts = s.split(a)
                s = a.join(parts[:which + 1]) + b + a.join(parts[which + 1:])
            open(p, 'w').write(s)
        rc, o = sh(ENV + 'go build ./...', d)
        if rc:
            return pid, 'BUILD ' + o[-300:]
        r = []
        rc, o = sh(ENV + 'GODEBUG=randautoseed=0 go test -vet=off -count=1 ./... 2>&1 | grep -c "^FAIL"', d)
        if o.strip() != '0':
            r.append('(tests fail)')
        for p in prop.split(','):
            t = time.time()
            rc, o = sh(f'bash {V}/tools/against.sh {d} {p} quick', V, 900)
            v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
            r.append(f"{p} {'caught' if rc == 1 and v else 'MISSED' if rc == 0 else 'ERROR '+o[-300:]} {time.time()-t:.0f}s")
        return pid, '; '.join(r)
    finally:
        shutil.rmtree(d, ignore_errors=True)

ps = []
args = sys.argv[1:]
j = 3
if args[:1] == ['-j']:
    j = int(args[1]); args = args[2:]
for f in sorted(glob.glob(V + '/tools/probe/*.py')):
    spec = importlib.util.spec_from_file_location('m', f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ps += m.P
if args:
    ps = [p for p in ps if any(p[0].startswith(a) for a in args)]
with ThreadPoolExecutor(j) as ex:
    for pid, r in ex.map(one, ps):
        print(pid, r, flush=True)
