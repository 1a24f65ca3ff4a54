#!/usr/bin/env python3
"""mk.py BATCH.py [ID...]: makes /verif/seeded/ID from the definitions in BATCH.py and confirms each in a scratch copy.

A batch calls S(id, prop, needs, breaks, edits, demo, imports). An edit is (files, function, old, new): in every file,
within the text of the function that starts with "func ...function(", old (which occurs there once) becomes new.
"""
import json, os, shutil, subprocess, sys, tempfile, re

SEEDS = []
HEADER = '''package main

import (
	"fmt"
	"os"
%s
	v1 "github.com/superwhiskers/crunch/v1"
	v2 "github.com/superwhiskers/crunch/v2"
	v3 "github.com/superwhiskers/crunch/v3"
)

var (
	_ = v1.NewBuffer
	_ = v2.NewBuffer
	_ = v3.NewBuffer
)

func must(ok bool, what string, a ...interface{}) {
	if !ok {
		fmt.Printf(what+"\\n", a...)
		os.Exit(1)
	}
}

// refusal returns what f panics with.
func refusal(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

var _ = refusal
'''
SH = '''#!/bin/bash
# Runs main.go against the working tree in the current directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp "$here/main.go" "$d/main.go"
printf 'module demo\\n\\ngo 1.21\\n' >"$d/go.mod"
printf 'go 1.21\\nuse .\\nuse %%s/v1\\nuse %%s/v2\\nuse %%s/v3\\n' "$repo" "$repo" "$repo" >"$d/go.work"
cd "$d" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK="$d/go.work" GO111MODULE=on
go build %s -o demo . || exit 2
timeout 250 ./demo
'''
GENSH = '''#!/bin/bash
# Builds the generator of the working tree in the current directory and runs it in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp -r "$repo/generation" "$d/src"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
(cd "$d/src" && go build -o "$d/generation" .) || exit 2
gen() { "$d/generation" -generation complex "$@" >/dev/null; }
%s
'''

def S(id, prop, needs, breaks, edits, demo, imports='', race=False, gen=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, imports=imports, race=race, gen=gen))

B3 = ['v3/_buffer.go', 'v3/buffer.generated.go']
M3 = ['v3/_minibuf.go', 'v3/minibuf.generated.go']

def apply(root, edits):
    for files, fn, old, new in edits:
        for f in ([files] if isinstance(files, str) else files):
            p = os.path.join(root, f)
            s = open(p).read()
            if fn:
                m = re.search(r'^func [^\n]*\b' + re.escape(fn) + r'\(.*?^}', s, re.S | re.M)
                assert m, (f, fn)
                a, b = m.start(), m.end()
            else:
                a, b = 0, len(s)
            body = s[a:b]
            assert body.count(old) == 1, (f, fn, old, body.count(old))
            s = s[:a] + body.replace(old, new) + s[b:]
            open(p, 'w').write(s)

def sh(cmd, cwd, **k):
    env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    g = dict(S=S, B3=B3, M3=M3)
    exec(open(sys.argv[1]).read(), g)
    only = sys.argv[2:]
    for s in SEEDS:
        if only and s['id'] not in only:
            continue
        t = tempfile.mkdtemp(prefix='seed')
        try:
            r = t + '/repo'
            subprocess.run(['cp', '-a', '/repo', r], check=True)
            apply(r, s['edits'])
            sh(['gofmt', '-w'] + [f for f in sh(['git', 'diff', '--name-only'], r).stdout.split() if not os.path.basename(f).startswith('_')], r)
            diff = sh(['git', 'diff'], r).stdout
            d = t + '/seed'
            os.mkdir(d)
            open(d + '/patch.diff', 'w').write(diff)
            if s['gen']:
                open(d + '/demo.sh', 'w').write(GENSH % s['demo'])
            else:
                open(d + '/demo.sh', 'w').write(SH % ('-race' if s['race'] else ''))
                imp = ''.join('\t"%s"\n' % i for i in s['imports'].split())
                open(d + '/main.go', 'w').write(HEADER % imp + '\nfunc main() {\n' + s['demo'] + '\n}\n' if 'func main()' not in s['demo'] else HEADER % imp + s['demo'])
                sh(['gofmt', '-w', d + '/main.go'], t)
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            bad = []
            for m in ('v1', 'v2', 'v3'):
                x = sh(['go', 'test', '-vet=off', '-count=1', './...'], r + '/' + m)
                if x.returncode:
                    bad.append('tests of %s fail: %s' % (m, x.stdout[:600]))
            x = sh(['go', 'build', '-o', '/dev/null', '.'], r + '/generation')
            if x.returncode:
                bad.append('generation: ' + x.stdout[:500])
            a = sh(['bash', d + '/demo.sh'], '/repo')
            if a.returncode != 0:
                bad.append('demo on the unchanged tree: %d %s' % (a.returncode, a.stdout[-600:]))
            b = sh(['bash', d + '/demo.sh'], r)
            if b.returncode not in (1, 66):
                bad.append('demo with the change: %d %s' % (b.returncode, b.stdout[-600:]))
            print(s['id'], s['prop'], 'BAD ' + '; '.join(bad) if bad else 'ok: ' + b.stdout.strip()[-150:].replace('\n', ' | '), flush=True)
            if not bad:
                out = '/verif/seeded/' + s['id']
                if os.path.isdir(out):
                    shutil.rmtree(out)
                shutil.copytree(d, out)
        except AssertionError as e:
            print(s['id'], 'EDIT', e, flush=True)
        finally:
            shutil.rmtree(t)

main()
