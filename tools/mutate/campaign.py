#!/usr/bin/env python3
"""campaign.py STRIDE OFFSET OUT [FILE...]: tries every STRIDE-th change that mutate knows: those that build and pass the
tests are put before the sequential checks, in order, until one of them reports. OUT gets a line of JSON for each survivor of the tests."""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
stride, offset, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
files = sys.argv[4:] or ['v1/buffer.go', 'v1/minibuf.go', 'v2/buffer.go', 'v2/minibuf.go', 'v3/buffer.generated.go', 'v3/minibuf.generated.go']
CHECKS = os.environ.get('CHECKS', 'C01 C02 C03 C05 C06 C07 C12 C10 C11').split()
M = '/tmp/mutate'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOMAXPROCS='2')
res = open(out, 'a')

def tests(job):
    f, i = job
    t = tempfile.mkdtemp(prefix='mut-', dir='/tmp/mut')
    m = f.split('/')[0]
    shutil.copytree('/repo/' + m, t + '/' + m)
    what = subprocess.run([M, '/repo/' + f, str(i), t + '/' + f], stdout=subprocess.PIPE, text=True).stdout.strip()
    try:
        r = subprocess.run(['go', 'test', '-vet=off', '-timeout', '20s', './...'], cwd=t + '/' + m, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            shutil.rmtree(t)
            return None
    except Exception as e:
        print(e)
    return (f, i, what, t)

BUILD = '''set -e
R=$1
T=$2
printf 'go 1.23\\nuse /verif/mc\\nuse %s/v1\\nuse %s/v2\\nuse %s/v3\\n' $R $R $R >$T/go.work
cd /verif/mc
export GOWORK=$T/go.work GOFLAGS=
mkdir $T/ov
/tmp/instr -out $T/ov $R/v1 $R/v2 $R/v3
go build -overlay $T/ov/overlay.json -o $T/mc ./cmd/mc
'''

def checks(s):
    f, i, what, t = s
    for m in ('v1', 'v2', 'v3', 'generation'):
        if not os.path.exists(t + '/' + m):
            os.symlink('/repo/' + m, t + '/' + m)
    caught = None
    x = t + '/x'
    os.mkdir(x)
    r = subprocess.run(['bash', '-c', BUILD, 'x', t, x], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        caught = 'build: ' + r.stdout[-300:]
    else:
        for c in CHECKS:
            r = subprocess.run([x + '/mc', 'run', c, 'quick'], env=dict(os.environ, MC_REPO=t, MC_TMP=x, MC_EVIDENCE=t + '/ev.json', MC_REPLAYS=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                caught = c if r.returncode == 1 else c + '!' + r.stdout[-200:]
                break
    shutil.rmtree(t)
    return caught

jobs = []
for f in files:
    n = int(subprocess.run([M, '/repo/' + f], stdout=subprocess.PIPE, text=True).stdout)
    jobs += [(f, i) for i in range(offset, n, stride)]
print(len(jobs), 'mutants', flush=True)
n = k = 0
with ThreadPoolExecutor(int(os.environ.get('TESTERS', 3))) as ex, ThreadPoolExecutor(1) as ex2:
    futs = []
    def go(s):
        c = checks(s)
        res.write(json.dumps(dict(file=s[0], n=s[1], what=s[2], caught=c)) + '\n'); res.flush()
    for s in ex.map(tests, jobs):
        n += 1
        if s:
            k += 1
            futs.append(ex2.submit(go, s))
    print(n, 'tried', k, 'survive', flush=True)
    for x in futs:
        x.result()
print('done', flush=True)
