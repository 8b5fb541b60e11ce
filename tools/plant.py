#!/usr/bin/env python3
"""plant.py ID...: confirm planted bugs in a scratch copy (/tmp/w) and run the property's check against it."""
import sys, os, subprocess, json, shutil, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, WB = '/tmp/w', '/tmp/wb'
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def build():
    for n in ('build', 'test'):
        s = open('/opt/vp/%s.sh' % n).read().replace('/repo', W)
        open('/tmp/w_%s.sh' % n, 'w').write(s)
    return sh('bash /tmp/w_build.sh')
def sync():
    sh('git -C %s checkout -q -- . ; git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (W, W, W))
def check(pid, tier='quick'):
    e = dict(os.environ, VERIF_REPO=W, VERIF_BUILD=WB)
    return subprocess.run([sys.executable, V + '/check.py', pid, tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
def main():
    fast = '--fast' in sys.argv          # only the check
    extra = [a[7:] for a in sys.argv if a.startswith('--also=')]
    ids = [a for a in sys.argv[1:] if a[:2] != '--'] or sorted(os.listdir(V + '/seeded'))
    if not os.path.isdir(W): sh('cp -a /repo ' + W)
    sync()
    if not fast:
        r = build()
        if r.returncode: print('base build failed', r.stdout[-2000:]); return
    ev = {}
    for i in ids:
        d = V + '/seeded/' + i; pid = json.load(open(d + '/meta.json'))['property']
        out = [i, pid]
        if not fast:
            r = sh('bash %s/demo.sh' % d, cwd=W, timeout=300); out.append('demo-clean=%d' % r.returncode)
            if r.returncode: print(r.stdout[-1500:])
        r = sh('git apply %s/patch.diff' % d, cwd=W)
        if r.returncode: print(i, 'DOES NOT APPLY', r.stdout); continue
        try:
            if not fast:
                r = build()
                if r.returncode: print(i, 'BUILD FAILS', r.stdout[-1500:]); continue
                r = sh('bash /tmp/w_test.sh /tmp/w_out.json', timeout=600); out.append((r.stdout or '').strip().split('\n')[-1])
                r = sh('bash %s/demo.sh' % d, cwd=W, timeout=300); out.append('demo-bug=%d' % r.returncode)
            for p in ([] if '--nocheck' in sys.argv else [pid] + extra):
                f = V + '/evidence/%s.json' % p; old = open(f).read() if os.path.exists(f) else None
                r = check(p)
                if old is not None: open(f, 'w').write(old)
                v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
                out.append('%s:rc=%d%s' % (p, r.returncode, ' CAUGHT' if r.returncode == 1 and v else ' MISSED'))
                if r.returncode == 2: print(r.stdout[-1500:])
        finally:
            sync()
            print(' | '.join(out)); sys.stdout.flush()
main()
