#!/usr/bin/env python3
"""Write and confirm the planted bugs described in tools/mut/*.py.

  seed.py make [ids]   write seeded/<id>/ after confirming: applies, builds, tests pass, demo passes on the
                       unchanged tree and fails with the change
  seed.py check [ids]  apply each to /repo, run the property's quick check, undo
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
ENV = 'export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod; '
BASE = json.load(open('/opt/vp/BASELINE.json'))

DEMO = '''#!/bin/bash
# run with cwd at the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp "$here/main.go" "$d/main.go" && cp "$repo/go.sum" "$d/go.sum" || exit 2
{
	echo "module demo"
	echo "go 1.20"
	echo "require github.com/julioguillermo/godeep v0.0.0"
	echo "replace github.com/julioguillermo/godeep => $repo"
	sed -n '/^require (/,/^)/p' "$repo/go.mod"
} > "$d/go.mod"
cd "$d" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
go build -o demo . || exit 2
timeout 200 ./demo
'''
PRELUDE = '''package main

import (
%s
)

func must(ok bool, f string, a ...any) {
	if !ok {
		fmt.Printf("FAIL: "+f+"\\n", a...)
		os.Exit(1)
	}
}

func no(err error) {
	must(err == nil, "unexpected error: %%v", err)
}

%s
'''

def load():
    out = {}
    for f in sorted(glob.glob(V + '/tools/mut/*.py')):
        spec = importlib.util.spec_from_file_location('m', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for x in m.MUTANTS:
            assert x['id'] not in out, x['id']
            out[x['id']] = x
    return out

def sh(cmd, cwd=None, timeout=1200, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, env=env)
    return p.returncode, p.stdout

def imports(body):
    std = ['bytes', 'encoding/binary', 'sync/atomic', 'errors', 'fmt', 'image', 'image/color', 'image/png', 'io', 'math', 'math/rand', 'os', 'reflect', 'strings', 'sync', 'path/filepath']
    own = ['activation', 'context', 'graph', 'img', 'layer', 'model', 'number', 'operation', 'scalar', 'tensor', 'tools', 'types']
    import re
    l = []
    for s in std:
        b = s.split('/')[-1]
        if s in ('fmt', 'os') or re.search(r'(?<![\w.])%s\.' % b, body):
            l.append('\t"%s"' % s)
    for s in own:
        if re.search(r'(?<![\w.])%s\.' % s, body):
            l.append('\t"github.com/julioguillermo/godeep/%s"' % s)
    return '\n'.join(l)

def make(x):
    d = '/tmp/seedwork'
    shutil.rmtree(d, ignore_errors=True)
    sh(f'cp -a {REPO} {d} && git -C {d} checkout -q -- . && git -C {d} clean -fdq')
    for f, a, b in x['edits']:
        p = os.path.join(d, f)
        s = open(p).read()
        n = s.count(a)
        want = 1
        if isinstance(b, tuple):
            b, which = b
            parts = s.split(a)
            if len(parts) - 1 <= which:
                return 'edit: occurrence missing in ' + f
            s = a.join(parts[:which + 1]) + b + a.join(parts[which + 1:])
        else:
            if n != 1:
                return f'edit: {n} occurrences in {f}: {a[:60]!r}'
            s = s.replace(a, b)
        open(p, 'w').write(s)
    rc, o = sh('gofmt -l .', d)
    if o.strip():
        sh('gofmt -w ' + o.replace('\n', ' '), d)
    rc, patch = sh('git diff --no-color', d)
    for f, a, b in x['edits']:
        rc, base = sh(f'git show b66f4c2:{f}', REPO)
        _, fd = sh(f'git diff --no-color -U0 {f}', d)
        for l in fd.split('\n'):
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() not in ('', '}', '{') and l[1:] not in base.split('\n'):
                return 'changes a line the original does not have: ' + l
    out = os.path.join(V, 'seeded', x['id'])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + '/patch.diff', 'w').write(patch)
    body = x['demo']
    open(out + '/main.go', 'w').write(PRELUDE % (imports(body), body))
    sh('gofmt -w main.go', out)
    open(out + '/demo.sh', 'w').write(DEMO)
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': x['property'], 'needs': x['needs'], 'what_it_breaks': x['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    env = dict(os.environ)
    def fail(msg):
        shutil.rmtree(out, ignore_errors=True)
        return msg
    rc, o = sh(ENV + 'go build ./...', d)
    if rc: return fail('build: ' + o[-800:])
    rc, o = sh(ENV + 'GODEBUG=randautoseed=0 go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/seedtest.log; python3 /opt/vp/results.py /tmp/seedout.json gojson:/tmp/seedtest.log', d)
    res = json.load(open('/tmp/seedout.json'))
    passed = set(res.get('passed', res.get('pass', [])))
    stable = BASE.get('stable', BASE.get('passed', BASE.get('pass', [])))
    bad = [t for t in stable if t not in passed]
    if bad: return fail('tests fail: ' + ', '.join(bad[:5]))
    rc, o = sh(out + '/demo.sh', REPO, 300)
    if rc: return fail('demo fails on unchanged tree: ' + o[-1500:])
    rc, o = sh(out + '/demo.sh', d, 300)
    if rc == 0: return fail('demo passes with the change')
    if rc == 2 and 'FAIL' not in o and 'panic' not in o: return fail('demo broken: ' + o[-800:])
    return 'ok: ' + o.strip().split('\n')[0][:100]

def check(x, ids=None):
    out = os.path.join(V, 'seeded', x['id'])
    d = f'/tmp/seedcheck-{os.getpid()}'
    shutil.rmtree(d, ignore_errors=True)
    sh(f'cp -a {REPO} {d} && git -C {d} checkout -q -- . && git -C {d} clean -fdq')
    rc, o = sh(f'git -C {d} apply {out}/patch.diff')
    if rc: return 'apply: ' + o
    r = []
    try:
        for p in ids or [x['property']]:
            t = time.time()
            rc, o = sh(f'bash {V}/tools/against.sh {d} {p} quick', V, 900)
            v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
            r.append(f"{p} {'CAUGHT' if rc == 1 and v else 'missed' if rc == 0 else 'ERROR'+o[-300:]} {time.time()-t:.0f}s")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return '; '.join(r)

if __name__ == '__main__':
    ms = load()
    cmd = sys.argv[1]
    ids = sys.argv[2:] or list(ms)
    sel = [ms[i] for i in ids] if all(i in ms for i in ids) else [m for m in ms.values() if any(m['id'].startswith(i) or m['property'] == i for i in ids)]
    for x in sel:
        if cmd == 'make':
            print(x['id'], make(x), flush=True)
        elif cmd == 'new':
            if os.path.exists(os.path.join(V, 'seeded', x['id'])): continue
            r = make(x)
            if r.startswith('ok'): r += ' | ' + check(x)
            print(x['id'], r, flush=True)
        else:
            if os.path.exists(os.path.join(V, 'seeded', x['id'])):
                print(x['id'], check(x), flush=True)
    shutil.rmtree('/tmp/seedwork', ignore_errors=True)
