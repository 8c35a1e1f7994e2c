#!/usr/bin/env python3
"""Plants a bug: seed.py ID < spec.  The spec is Python source defining
   prop, needs, breaks, edits=[(file, old, new)...] and demo (Go statements; helpers conv/must/mustNot).
   Verifies in a scratch worktree: builds, tests pass, demo fails with the patch and passes without."""
import subprocess, sys, os, json, shutil, tempfile
sid = sys.argv[1]
spec = {}
exec(sys.stdin.read(), spec)
d = '/verif/seeded/' + sid
wt = tempfile.mkdtemp(prefix='seedwt')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, executable='/bin/bash', **k)
sh('cp -a /repo/. %s/' % wt)
assert sh('git -C %s status --short' % wt).stdout == '', 'dirty repo'
try:
    for f, old, new in spec['edits']:
        p = wt + '/' + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    if spec.get('peg'):
        r = sh('. /opt/vp/env.sh; cd %s/pkg/parser && /tmp/pigeon %s parser.peg > /tmp/parser.new && cp /tmp/parser.new parser.go' % (wt, os.environ.get('PEGFLAGS', '')))
        assert r.returncode == 0, r.stderr
    diff = sh('git -C %s diff' % wt).stdout
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    if spec.get('demo'):
        open(d + '/main.go', 'w').write('''//go:build go1.22

package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/bytesparadise/libasciidoc"
	"github.com/bytesparadise/libasciidoc/pkg/configuration"
%s)

var _ = strings.Contains

func conv(src string, settings ...configuration.Setting) string {
	out := &strings.Builder{}
	if _, err := libasciidoc.Convert(strings.NewReader(src), out, configuration.NewConfiguration(settings...)); err != nil {
		fail("error: " + err.Error())
	}
	return out.String()
}

func fail(msg string) {
	fmt.Println("DEMO FAILS:", msg)
	os.Exit(1)
}

func must(out, sub string) {
	if !strings.Contains(out, sub) {
		fail(fmt.Sprintf("%%q is missing in %%q", sub, out))
	}
}

func mustNot(out, sub string) {
	if strings.Contains(out, sub) {
		fail(fmt.Sprintf("%%q occurs in %%q", sub, out))
	}
}

func main() {
%s
	fmt.Println("demo passes")
}
''' % (''.join('\t"%s"\n' % i for i in spec.get('imports', [])), spec['demo'].strip('\n')))
        sh('gofmt -w %s/main.go' % d)
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run in /repo: builds a small program against the working tree and runs it
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 3
cd "$tmp" && timeout 60 ./demo 2>/dev/null
''')
    else:
        open(d + '/demo.sh', 'w').write(spec['demo_sh'])
    json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    assert r.returncode == 0, ('demo on clean tree', r.returncode, r.stdout, r.stderr)
    r = sh('bash %s/demo.sh' % d, cwd=wt)
    assert r.returncode not in (0, 3), ('demo on patched tree', r.returncode, r.stdout, r.stderr)
    print(r.stdout.strip()[:300])
    r = sh('. /opt/vp/env.sh; go vet ./pkg/... >/dev/null 2>&1; go test ./... -count=1 2>&1 | grep -v "no test files" | tail -60', cwd=wt)
    bad = [l for l in r.stdout.splitlines() if 'FAIL' in l or 'panic' in l]
    print('tests:', bad[:8] or 'ok')
    if bad:
        print('\n'.join(l for l in r.stdout.splitlines() if 'Fail' in l or 'FAIL' in l)[:2000])
        shutil.rmtree(d); sys.exit(1)
finally:
    shutil.rmtree(wt)
