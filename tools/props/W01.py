from vlib import *
from props.common import *
import subprocess

def pat(rng, n, r=None):
    """A pattern, mostly one that some row (r) matches."""
    r = r or rrow(rng, n)
    k = rng.randrange(12)
    if k == 0: return ''.join(bt(b) for b in r[:rng.randint(0, n)])
    t, i = '', 0
    stars = 0
    while i < n or rng.random() < .03:
        b = r[i] if i < n else rng.randint(1, n)
        m = rng.randrange(10)
        if m < 3: t += bt(b) if rng.random() < .9 else bt(b).lower()
        elif m < 5: t += '?'
        elif m < 7:
            s = [b] + [rng.randint(1, n) for _ in range(rng.choice([0, 1, 1, 2, 3]))]; rng.shuffle(s)
            t += '[' + ''.join(bt(x) for x in s) + ']'
        elif m < 9 and stars < 3:
            t += '*'; stars += 1; i += rng.randint(0, 3) - 1
        elif rng.random() < .3: return t
        i += 1
    if rng.random() < .3 and stars < 3: t += '*'
    if rng.random() < .12:   # damage
        j = rng.randint(0, len(t)); t = t[:j] + rng.choice(['[', ']', '*', '?', '1', bt(n), bt(min(n + 1, 33)), '{', '-', ' ', '[]', '[*]', '[[1]']) + t[j:]
    elif rng.random() < .1 and t:
        j = rng.randrange(len(t)); t = t[:j] + t[j + 1:]
    return t
def name(rng, n):
    k = rng.randint(2, n + 1) if rng.random() < .2 else rng.randint(3, max(3, n))
    return rng.choice(['rounds', 'queens', 'kings', 'tittums', 'reverse-rounds', 'CRUs', '%d-runs' % k, 'front-%d-runs' % k, 'back-%d-runs' % k,
                       '%d-runs' % k, 'front-%d-runs' % k, 'back-%d-runs' % k, 'nosuch', '%d-run' % k, 'middle-4-runs', 'Queens', '-runs'])
def scored(rng, n, r=None, neg=True):
    def num(): return rng.choice(['', '', '+', '-' if neg else '']) + str(rng.randint(0, 12))
    body = '<%s>' % name(rng, n) if rng.random() < .35 else pat(rng, n, r)
    k = rng.randrange(6)
    if k < 2: return body
    if k < 4: return num() + ':' + body
    return num() + ',' + num() + ':' + body
def near(rng, n, r):
    r = list(r)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        i, j = rng.randrange(n), rng.randrange(n); r[i], r[j] = r[j], r[i]
    return r

def grep(ev):
    a = ev['a']
    try: p = runp([os.path.join(B, 'musgrep'), '-b', str(a['n'])] + a['opts'] + a['pats'], input=a['text'], text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, env=dict(os.environ, TERM='dumb'))
    except subprocess.TimeoutExpired: return dict(op=ev['op'], a=a, ok=False, v='timeout')
    out = p.stdout.split('\n')
    if out[-1] == '': out.pop()
    else: out.append('(no newline)')
    return dict(op=ev['op'], a=a, ok=p.returncode in (0, 1), v=dict(rc=p.returncode, out=out) if p.returncode in (0, 1) else 'crash')
def run_grep(sessions):
    with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(lambda s: [grep(e) for e in s], sessions))

def run(c):
    build('driver', 'musgrep'); rng = c.rng
    c.model('MC_Music', cfg(invariants=['Counting'], constants=dict(N=3, K=3 if c.quick else 4), deadlock=False), note='counting by automaton and by enumeration')
    S = []
    for _ in range(700 if c.quick else 9000):
        n = rng.choice([rng.randint(1, 5), rng.randint(3, 8), rng.randint(6, 12)])
        base = rrow(rng, n)
        n0 = rng.choice([n, n, n, n, 0, max(1, n - 1), n + 1])
        ev = [E('w_new', n=n0)]
        if n0 not in (0, n) and rng.random() < .5: ev.append(E('w_bells', n=n)); n0 = n
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            t = pat(rng, n0 or n, base if n0 == n or not n0 else None)
            if rng.random() < .4 and n0: ev.append(E('w_str', t=scored(rng, n0, base if n0 == n else None)))
            else: ev.append(E('w_pat', t=t, h=rng.randint(-3, 9), b=rng.randint(-3, 9)))
        if n0 != n: ev.append(E('w_bells', n=n)); ev += [E('w_bells', n=n + 1), E('w_bells', n=n)] if rng.random() < .1 else []
        for _ in range(rng.randint(3, 12)):
            k = rng.randrange(12)
            if k < 8: ev.append(E('w_row', r=near(rng, n, rng.choice([base, base, list(range(1, n + 1)), rrow(rng, n)])), back=rng.random() < .5))
            elif k == 8: ev.append(E('w_rows', rows=[near(rng, n, base) for _ in range(rng.randint(0, 8))], back=rng.random() < .5))
            elif k == 9: ev.append(E('w_reset'))
            elif k == 10: ev.append(E('w_pat', t=pat(rng, n, base), h=rng.randint(-3, 9), b=rng.randint(-3, 9)))
            elif rng.random() < .4: ev += [E('w_clear', n=rng.choice([0, n])), E('w_pat', t=pat(rng, n, base), h=1, b=2)]
        # rows are only rung on a music object of their stage
        if n0 != n or any(e['op'] == 'w_bells' for e in ev):
            if any(SYM.find(ch.upper()) + 1 > n for e in ev if e['op'] in ('w_pat', 'w_str') for ch in e['a']['t']): continue
            if any(e['op'] == 'w_bells' and e['a']['n'] != n for e in ev): continue
        S.append(ev)
    # how many rows a pattern describes
    for _ in range(140 if c.quick else 1500):
        n = rng.choice([3, 4, 4, 5, 5])
        S.append([E('w_count', t=pat(rng, n), n=n) for _ in range(8)])
        if rng.random() < .5: S.append([E('w_new', n=n)] + [E('w_str', t=scored(rng, n)) for _ in range(rng.randint(1, 3))] + [E('w_poss')])
    for _ in range(60 if c.quick else 600):
        n = rng.randint(5, 12); r = rrow(rng, n); k = rng.randint(0, n); i = rng.randint(0, k)
        m = [bt(b) if rng.random() < .6 else '?' for b in r[:k]]
        S.append([E('w_count', t=''.join(m[:i]) + rng.choice(['*', '*', '']) + ''.join(m[i:]), n=n)])
    # every short pattern
    al = ['1', '2', '3', '?', '*', '[12]', '[13]', '[23]']
    import itertools
    ev = [E('w_count', t=''.join(t), n=3) for k in range(0, 4 if c.quick else 5) for t in itertools.product(al, repeat=k)]
    for i in range(0, len(ev), 40): S.append(ev[i:i + 40])
    for n in range(3, 13):
        S.append([E('w_new', n=n)] + [E('w_str', t='<%s>' % x) for x in ('rounds', 'queens', 'kings', 'tittums', 'reverse-rounds', 'CRUs')]
                 + [E('w_row', r=list(range(1, n + 1)), back=True)])
        for k in range(2, n + 2):
            S.append([E('w_new', n=n)] + [E('w_str', t='%d:<%s%d-runs>' % (j, x, k)) for j, x in enumerate(['', 'front-', 'back-'])]
                     + [E('w_row', r=r, back=rng.random() < .5) for r in (list(range(1, n + 1)), list(range(n, 0, -1)), near(rng, n, list(range(1, n + 1))))])
    c.drive_and_check('Trace_Music', S)
    # musgrep
    G = []
    for _ in range(250 if c.quick else 3000):
        n = rng.choice([rng.randint(3, 6), rng.randint(5, 10)])
        base = rrow(rng, n)
        rows = []
        for _ in range(rng.randint(0, 14)):
            if rng.random() < .12: rows.append(rrow(rng, rng.choice([n - 1, n + 1])))
            else: rows.append(near(rng, n, rng.choice([base, list(range(1, n + 1))])))
        pats = [p for p in (scored(rng, n, base) for _ in range(rng.choice([1, 1, 2, 3]))) if p and p[0] != '-']
        opts = [o for o in ('-c', '-s', '-S', '-p', '-n') if rng.random() < .25]
        if rng.random() < .3: opts.append('-H')
        if rng.random() < .3: opts.append(rng.choice('-i -o'.split()))
        if rng.random() < .03: opts += ['-i', '-o']
        G.append([E('w_grep', n=n, opts=opts, pats=pats, rows=rows, text=''.join(''.join(bt(b) for b in r) + '\n' for r in rows))])
    c.traces_ok('Trace_Music', run_grep(G), run_grep, name='musgrep')
