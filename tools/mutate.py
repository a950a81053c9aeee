#!/usr/bin/env python3
"""Mutation analysis: makes small changes of /repo's sources one at a time
(through overlays, /repo itself is left alone), drops those which don't
compile or which the repository's own tests notice, and runs the harness
against the others. Prints those that survive.

  mutate.py OUT [FILE...]        WORKERS=4 CHECKS=100,1000 by default
"""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.environ.get('HARNESS', os.path.join(HERE, '..', 'harness'))
W, CHECKS = int(os.environ.get('WORKERS', 4)), os.environ.get('CHECKS', '100,1000')
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off')

def run(cmd, cwd, t, e=env):
    try:
        p = subprocess.run(['prlimit', '--as=%d' % (12 << 30)] + cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return -1, 'timeout'

def one(arg):
    k, m, tmp = arg
    src = open(m['file'], 'rb').read()
    new = src[:m['start']] + m['text'].encode() + src[m['end']:]
    if new == src:
        return None
    d = os.path.join(tmp, str(k)); os.mkdir(d)
    try:
        f = os.path.join(d, 'm.go'); open(f, 'wb').write(new)
        ov = os.path.join(d, 'o.json'); json.dump({'Replace': {m['file']: f}}, open(ov, 'w'))
        e = dict(os.environ, TZ='Asia/Shanghai')
        rc, out = run(['go', 'test', '-vet=off', '-timeout', '20s', '-overlay', ov, './...'], '/repo', 200, e)
        if rc: return k, 'tests', ''
        b = os.path.join(d, 'h.test')
        rc, out = run(['go', 'test', '-c', '-overlay', ov, '-o', b, '.'], HARNESS, 300)
        if rc: return k, 'noharness', out[:500]
        for checks in CHECKS.split(','):
            rc, out = run([b, '-test.failfast', '-test.run', '^TestC', '-rapid.checks=' + checks, '-rapid.nofailfile', '-rapid.shrinktime=0s', '-test.timeout=800s'], HARNESS, 900)
            if rc:
                l = [x for x in out.splitlines() if x.startswith('--- FAIL')]
                return k, 'caught', (l or [out[-200:]])[0]
        return k, 'SURVIVED', ''
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    out = sys.argv[1]
    files = sys.argv[2:] or [os.path.join('/repo', f) for f in subprocess.check_output(['git', '-C', '/repo', 'ls-files'], text=True).split() if f.endswith('.go') and not f.endswith('_test.go')]
    tmp = tempfile.mkdtemp(prefix='mut')
    subprocess.check_call(['go', 'build', '-o', tmp + '/mutate', os.path.join(HERE, 'mutate', 'main.go')])
    if os.environ.get('LIST'):
        lines = open(os.environ['LIST']).read().splitlines()
    else:
        lines = subprocess.check_output([tmp + '/mutate'] + files, text=True, cwd='/repo').splitlines()
    ms = [json.loads(l) for l in lines]
    ms = [m for m in ms if m['what']]
    if os.environ.get('ONLY'): ms = ms[int(os.environ['ONLY'])::int(os.environ.get('STEP', 1))]
    if files: ms = [m for m in ms if m['file'] in files]
    n = {}
    try:
        with ThreadPoolExecutor(W) as ex, open(out, 'w') as f:
            for r in ex.map(one, [(k, m, tmp) for k, m in enumerate(ms)]):
                if not r: continue
                k, res, why = r
                n[res] = n.get(res, 0) + 1
                m = ms[k]
                old = open(m['file'], 'rb').read()[m['start']:m['end']].decode()
                f.write(json.dumps(dict(m, k=k, result=res, why=why, old=old)) + '\n'); f.flush()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(n)
main()
