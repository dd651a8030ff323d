#!/usr/bin/env python3
"""tools/seedtest.py [-n] ID... - validates planted bugs in scratch copies of /repo (and, unless -n, runs their check)."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
def run(cmd, cwd, timeout=900, **kw):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(ENV, **kw))
    return r.returncode, r.stdout.decode('utf8', 'replace')
args = sys.argv[1:]
nocheck = '-n' in args
args = [a for a in args if a != '-n'] or sorted(os.listdir(V + '/seeded'))
bad = 0
for i in args:
    sd = os.path.join(V, 'seeded', i)
    meta = json.load(open(sd + '/meta.json'))
    w = '/tmp/sw-' + i
    shutil.rmtree(w, True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    subprocess.check_call(['git', '-C', w, 'checkout', '-q', '--', '.'])
    dd = '/tmp/sd-' + i
    shutil.rmtree(dd, True)
    shutil.copytree(sd, dd, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    res = []
    try:
        rc, out = run(['bash', dd + '/demo.sh'], w, 300)
        res.append('demo-clean:%s' % ('ok' if rc == 0 else 'FAILS(%d) %s' % (rc, out[-1500:])))
        rc, out = run(['git', 'apply', sd + '/patch.diff'], w)
        if rc: res.append('APPLY FAILS ' + out)
        rc, out = run(['go', 'build', './...'], w)
        if rc: res.append('BUILD FAILS ' + out[-1500:])
        rc, out = run(['go', 'test', '-vet=off', '-count=1', './...'], w)
        res.append('tests:%s' % ('ok' if rc == 0 else 'FAIL ' + out[-1500:]))
        rc, out = run(['bash', dd + '/demo.sh'], w, 300)
        res.append('demo-bug:%s' % ('fails as it should' if rc != 0 else 'PASSES\n' + out[-1500:]))
        if not nocheck:
            t = time.time()
            rc, out = run(['python3', V + '/check.py', meta['property']], V, VERIF_REPO=w)
            hit = rc == 1 and 'VIOLATION property=' + meta['property'] in out
            res.append('%s:%s (%.0fs)' % (meta['property'], 'CAUGHT' if hit else 'MISSED rc=%d %s' % (rc, out[-1200:]), time.time() - t))
            if '-v' in os.environ.get('SEEDV', ''): res.append(out[-1500:])
    finally:
        shutil.rmtree(w, True); shutil.rmtree(dd, True)
    print(i, meta['property'], '; '.join(res), flush=True)
