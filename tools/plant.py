#!/usr/bin/env python3
"""plant.py [--no-check] [--all-checks] ID...   (no ID: all of /verif/seeded)

Confirms planted changes in a scratch copy of /repo: the patch applies, touches
lines of the original repository, builds, passes the stable tests, and its demo
passes without and fails with it; then runs the property's check against the
changed copy and says whether it was caught."""
import json, os, shutil, subprocess as sp, sys, tempfile, re, time
from concurrent.futures import ThreadPoolExecutor
V = '/verif'; SD = V + '/seeded'
BASE = sp.check_output('git -C /repo rev-list --max-parents=0 HEAD', shell=True, text=True).strip()
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        p = sp.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, stdout=sp.PIPE, stderr=sp.STDOUT, timeout=timeout, text=True, errors='replace')
        return p.returncode, p.stdout
    except sp.TimeoutExpired as e:
        return 124, 'timeout ' + str(e.stdout)[-500:]

def verify(id, docheck, prop_override=None):
    d = f'{SD}/{id}'
    meta = json.load(open(d + '/meta.json')); prop = meta['property']
    S = tempfile.mkdtemp(prefix=f'plant.{id}.', dir='/tmp')
    out = []
    try:
        R = S + '/repo'
        sh(f'cp -a /repo {R}; rm -rf {R}/_build {S}/demo; mkdir {S}/demo; cp -a {d}/. {S}/demo/; rm -f {S}/demo/*.diff {S}/demo/meta.json; mkdir {S}/vp; for f in build.sh run_check.py; do sed "s#/repo#{R}#g" /opt/vp/$f > {S}/vp/$f; done')
        rc0, o0 = sh(f'bash {S}/demo/demo.sh', cwd=R, timeout=300)
        if rc0: out.append(f'DEMO FAILS CLEAN rc={rc0}: {o0[-600:]}')
        rc, o = sh(f'git apply {d}/patch.diff', cwd=R)
        if rc: return id, prop, ['DOES NOT APPLY ' + o]
        # blame
        diff = open(d + '/patch.diff').read(); f = None; base = False
        for l in diff.splitlines():
            if l.startswith('+++ '): f = l[6:].split('\t')[0]
            m = re.match(r'@@ -(\d+)', l)
            if m: n = int(m[1]); continue
            if l.startswith('--- ') or l.startswith('diff') or l.startswith('index'): continue
            if l.startswith('-'):
                bl = sp.check_output(['git', '-C', '/repo', 'blame', '-l', '-s', '-L', f'{n},{n}', 'HEAD', '--', f], text=True)
                if bl.lstrip('^').startswith(BASE[:39]): base = True
                else: out.append(f'TOUCHES OWN LINE {f}:{n} {l}')
                n += 1
            elif l.startswith(' '): n += 1
        if not base: out.append('CHANGES NO ORIGINAL LINE')
        rc, o = sh(f'bash {S}/vp/build.sh', cwd=R)
        if rc: return id, prop, out + ['BUILD FAILS ' + o[-800:]]
        rc, o = sh(f'python3 {S}/vp/run_check.py {S}/res.txt', cwd=R)
        ok = {l[5:].strip() for l in open(S + '/res.txt') if l.startswith('PASS ')} - {l[5:].strip() for l in open(S + '/res.txt') if l.startswith('FAIL ')}
        if STABLE - ok: out.append(f'TESTS FAIL {sorted(STABLE-ok)[:4]}')
        rc1, o1 = sh(f'bash {S}/demo/demo.sh', cwd=R, timeout=300)
        if rc1 == 0: out.append('DEMO PASSES WITH PATCH')
        shutil.rmtree(R + '/_build', ignore_errors=True)
        if docheck:
            props = [f'C{i:02d}' for i in range(1, 32)] if docheck == 'all' else [prop]
            sh(f'mkdir {S}/v; cp -a {V}/check.sh {V}/harness {V}/known-findings.txt {S}/v/')
            for p in props:
                t = time.time()
                rc, o = sh(f'./check.sh {p}', cwd=S + '/v', env={'VT_REPO': R, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
                viol = [l for l in o.splitlines() if l.startswith('VIOLATION')]
                if rc == 1 and viol: out.append(f'caught[{p}] {time.time()-t:.0f}s' + ('' if docheck == 'all' else ': ' + '|'.join(o.splitlines()[-6:])[:300]))
                elif p == prop: out.append(f'MISSED[{p}] rc={rc} {time.time()-t:.0f}s {o[-200:] if rc else ""}')
        return id, prop, out
    finally:
        shutil.rmtree(S, ignore_errors=True)

def main():
    a = sys.argv[1:]; mode = True; J = 2
    if '--no-check' in a: a.remove('--no-check'); mode = False
    if '--all-checks' in a: a.remove('--all-checks'); mode = 'all'
    ids = a or sorted(os.listdir(SD))
    with ThreadPoolExecutor(J) as ex:
        for id, prop, out in ex.map(lambda i: verify(i, mode), ids):
            print(f'{id} [{prop}]', ' ;; '.join(out) or 'ok', flush=True)
main()
