#!/usr/bin/env python3
"""mkbug.py FILE.py: plants the changes described in FILE.py (calls of bug()) in
a scratch copy of /repo, checks that they build, pass the stable tests and that
the demonstration tells them apart, and stores them in /verif/seeded/<id>."""
import json, os, re, shutil, subprocess, sys

ENV = dict(os.environ)
PRE = '. /opt/vp/env.sh; '

FAKE = '''package snaps_test

import (
%s)

type demoT struct {
	name   string
	errs   []string
	logs   []string
	clean  []func()
}

func (t *demoT) Helper()        {}
func (t *demoT) Name() string   { return t.name }
func (t *demoT) Error(a ...any) { t.errs = append(t.errs, fmt.Sprint(a...)) }
func (t *demoT) Log(a ...any)   { t.logs = append(t.logs, fmt.Sprint(a...)) }
func (t *demoT) Cleanup(f func()) { t.clean = append(t.clean, f) }
func (t *demoT) Skip(a ...any)  {}
func (t *demoT) Skipf(f string, a ...any) {}
func (t *demoT) SkipNow()       {}

// run executes a test.
func run(name string, f func(t *demoT)) *demoT {
	t := &demoT{name: name}
	f(t)
	for i := len(t.clean) - 1; i >= 0; i-- {
		t.clean[i]()
	}
	return t
}

var _ = os.Exit
var _ = snaps.WithConfig

func TestZZDemo(t *testing.T) {
%s
}
%s
'''

DEMO = '''#!/bin/bash
# run with cwd at the repository
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset UPDATE_SNAPS NO_COLOR CI
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/snaps/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
export TMPDIR="$t"
'''

def sh(c, cwd, **kw):
    return subprocess.run(['bash', '-c', PRE + c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def bug(id, prop, edits, body, needs, breaks, imports=(), extra='', run=None, only=None):
    if len(sys.argv) > 2 and id not in sys.argv[2:]:
        return
    w = '/tmp/mkbug'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    imps = sorted(set(['fmt', 'os', 'testing', 'github.com/gkampitakis/go-snaps/snaps'] + list(imports)))
    open(d + '/demo_test.go', 'w').write(FAKE % (''.join('\t"%s"\n' % i for i in imps), body, extra))
    sh('gofmt -w %s/demo_test.go' % d, w)
    open(d + '/demo.sh', 'w').write(DEMO + (run or 'go test -vet=off -count=1 -overlay "$t/o.json" -run \'TestZZDemo$\' ./snaps\n'))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r = sh('bash %s/demo.sh' % d, w)
    if r.returncode != 0:
        print(id, 'DEMO FAILS ON CLEAN TREE\n', r.stdout[-1500:]); return
    for f, old, new in edits:
        p = w + '/' + f
        s = open(p).read()
        if s.count(old) < 1:
            print(id, 'NO MATCH', f, old); return
        open(p, 'w').write(s.replace(old, new, 1))
    sh('gofmt -l .', w)
    diff = subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    r = sh('go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files" | tail -15', w)
    bad = [l for l in r.stdout.split('\n') if 'FAIL' in l or 'error' in l.lower() or '.go:' in l]
    if bad:
        print(id, 'TESTS/BUILD', r.stdout[-1500:]); return
    r = sh('bash %s/demo.sh' % d, w)
    print(id, 'OK' if r.returncode != 0 else 'DEMO PASSES WITH THE BUG')
    shutil.rmtree(w, ignore_errors=True)

exec(open(sys.argv[1]).read())
