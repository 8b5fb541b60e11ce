from vlib import *
from props.common import *
from props.methods import *
from props.G01 import close
import subprocess

def mul(x, y): return [x[i - 1] for i in y]
def crow(c):
    r = list(range(1, c['n'] + 1))
    for i in c['s']: r[i - 1], r[i] = r[i], r[i - 1]
    return r
def lead(m):
    x = [list(range(1, m[0]['n'] + 1))]
    for c in m[:-1]: x.append(mul(x[-1], crow(c)))
    return x
def nodes(m, calls, P, mx, cap):
    """How many nodes a search has (only to size the work for TLC); None if more than cap."""
    X = lead(m); H = [mul(X[-1], crow(m[-1]))] + [mul(X[-1], crow(c)) for c in calls]
    cnt = [0]
    def rec(r, had, k):
        cnt[0] += 1
        if cnt[0] > cap: raise OverflowError
        new = {tuple(mul(mul(p, r), x)) for p in P for x in X}
        if len(new) < len(P) * len(X) or new & had or k >= mx: return
        for h in H: rec(mul(r, h), had | new, k + 1)
    try: rec(list(range(1, m[0]['n'] + 1)), frozenset(), 0)
    except (OverflowError, RecursionError): return None
    return cnt[0]

def config(rng, cap):
    for _ in range(200):
        n = rng.choice([3, 4, 4, 4, 5, 5, 6])
        k = rng.randrange(5)
        if k == 0: m = [rchange(rng, n) for _ in range(rng.randint(1, 6))]
        elif k == 1: h = [rchange(rng, n) for _ in range(rng.randint(1, 4))]; m = h + h[-2::-1] + [rchange(rng, n)]
        else:
            m = meth(rng, n)
            if len(m) > 14: continue
        fixed = rng.random() < .8 and lead(m)[-1][0] == 1 or m[-1]['s'][:1] != [1]
        calls = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
            c = rchange(rng, n)
            if fixed and 1 in c['s']: continue
            if c not in calls and c != m[-1]: calls.append(c)
        gens = []
        if rng.random() < .45:
            for _ in range(rng.choice([1, 1, 1, 2])):
                g = shuffled_like(rng, n)
                if rng.random() < .7 and lead(m)[-1][0] == 1: g = [1] + [x + 1 for x in shuffled_like(rng, n - 1)]
                gens.append(g)
        P = close(gens, 24) if gens else [list(range(1, n + 1))]
        if P is None: continue
        P = sorted(list(x) for x in P)
        if len(P) > 24: continue
        X = lead(m)
        if len({tuple(x) for x in X}) < len(X) and rng.random() < .9: continue
        mx = 100
        budget = max(20, cap // (len(P) * len(m)))
        tot = nodes(m, calls, P, mx, budget)
        while tot is None and mx > 1:
            mx = 24 if mx == 100 else mx - 1 if mx < 12 else mx - 4
            tot = nodes(m, calls, P, mx, budget)
        if tot is None or (tot < 12 and rng.random() < .8): continue
        return m, calls, P, (-1 if mx == 100 else mx)
def tsearch(ev):
    a = ev['a']
    try: p = runp([os.path.join(B, 'touchsearch')] + a['args'], input=a['text'], text=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=100)
    except subprocess.TimeoutExpired: return dict(op=ev['op'], a=a, ok=False, v='timeout')
    out = p.stdout.split('\n')
    if out[-1] == '': out.pop()
    else: out.append('(no newline)')
    return dict(op=ev['op'], a=a, ok=p.returncode >= 0, v=dict(rc=p.returncode, out=out) if p.returncode >= 0 else 'crash')
def run_ts(ss):
    with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(lambda s: [tsearch(e) for e in s], ss))
def text(m): return '.'.join(pn(c, 'X') for c in m)
def rowt(r): return ''.join(bt(b) for b in r)

def run(c):
    build('driver', 'touchsearch'); rng = c.rng
    c.model('MC_Search', cfg(invariants=['Sound'], constants=dict(K=4 if c.quick else 6), deadlock=False), note='touches are closed under rotation')
    cap = 2500 if c.quick else 20000
    S, G = [], []
    for _ in range(260 if c.quick else 2500):
        m, calls, P, mx = config(rng, cap)
        one = len(P) == 1; ev = []
        def ranges(unit):
            if mx < 0 and rng.random() < .5: return 0, -1
            hi = mx if mx >= 0 else rng.randint(1, 30)
            lo = rng.choice([0, 0, rng.randint(0, hi)])
            if rng.random() < .4 and hi > 1: hi = rng.randint(max(1, lo), hi)
            if unit == 1: return lo, hi
            return max(0, lo * unit - rng.randint(0, unit - 1)), hi * unit + rng.randint(0, unit - 1)
        U = len(m) * len(P)
        for f in (0, 1):
            lo, hi = ranges(1)
            if one:
                ev.append(E('s_run', kind=1, m=m, c=calls, pe=P, min=lo, max=hi, f=f, limit=-1))
                ev.append(E('s_run', kind=5, m=m, c=calls, pe=P, min=lo, max=hi, f=f, limit=-1))
                if mx < 0:
                    for k in (0, 2, 4): ev.append(E('s_run', kind=k, m=m, c=calls, pe=P, min=0, max=-1, f=f, limit=-1))
            lo, hi = ranges(1)
            ev.append(E('s_run', kind=3, m=m, c=calls, pe=P, min=lo, max=hi, f=f, limit=rng.choice([-1, -1, -1, 1, 3])))
            lo, hi = ranges(U)
            ev.append(E('s_run', kind=rng.choice([3, 6]), m=m, c=calls, pe=P, min=lo, max=hi, f=f + 4, limit=-1))
            lo, hi = ranges(U)
            ev.append(E('s_run', kind=3, m=m, c=calls, pe=P, min=lo, max=hi, f=f + 6, limit=-1))
        lo, hi = ranges(1)
        ev.append(E('s_run', kind=3, m=m, c=calls, pe=P, min=lo, max=hi, f=10, limit=rng.choice([-1, -1, 2])))
        S.append(ev)
        n = m[0]['n']
        if n < 4: continue
        # the program
        lo, hi = ranges(U)
        names = rng.sample('bsvxyzBS', len(calls) or 1)
        plain = rng.choice(['', '', 'P'])
        opts = []
        for o in ('-r', '-m', '-q', '-g'):
            if rng.random() < .3: opts.append(o)
        if rng.random() < .4: opts.append(rng.choice(['-c', '--raw-count']))
        limit = rng.choice([-1, -1, -1, -1, 1, 2, 4]); 
        args = ['-b%d' % n] + opts
        cs = calls
        if not calls:
            cs = [dict(n=n, s=[2] + list(range(5, n, 2)))]; names = ['b']      # the default call
            if cs[0] == m[-1] or nodes(m, cs, P, mx if mx >= 0 else 100, cap) is None: continue
        else: args += ['-C%s=%s' % (names[i], pn(x, 'X')) for i, x in enumerate(calls)]
        if plain: args += ['-p' + plain]
        if (lo, hi) != (0, -1): args.append('-l' + ('%d' % lo if lo == hi else '%s-%s' % (lo or '', hi if hi >= 0 else '')))
        if limit > 0: args.append('--limit=%d' % limit)
        if P != [list(range(1, n + 1))]: args += ['-P' + rowt(p) for p in (P if rng.random() < .3 else [rng.choice(P) for _ in range(6)] + P[:1] + P[-1:])]
        PP = sorted(list(x) for x in close([[SYM.index(ch) + 1 for ch in x[2:]] for x in args if x[:2] == '-P'])) if any(x[:2] == '-P' for x in args) else P
        args.append(text(m))
        nm = [plain or ('p' if '-g' in opts else '.')] + names
        if PP == P: G.append([E('s_cli', m=m, c=cs, pe=P, min=lo, max=hi, names=nm, opts=opts, limit=limit, args=args, text='')])
    c.drive_and_check('Trace_Search', S)
    # plans
    for _ in range(60 if c.quick else 600):
        n = rng.choice([4, 4, 5, 6]); plan = []
        base = []
        for _ in range(rng.choice([1, 1, 2])):
            for _ in range(100):
                h = [rchange(rng, n) for _ in range(rng.randint(1, 4))]
                k = dict(n=n, s=[x for x in rchange(rng, n)['s'] if x > 1])
                m = h + h[-2::-1] + [k]
                if lead(m)[-1][0] == 1 and k['s']: base.append(m); break
        if not base: continue
        calls = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            x = dict(n=n, s=[y for y in rchange(rng, n)['s'] if y > 1])
            if x not in calls: calls.append(x)
        # lead heads the calls can reach
        heads, todo = {}, [list(range(1, n + 1))]
        while todo:
            r = todo.pop()
            if tuple(r) in heads: continue
            heads[tuple(r)] = rng.choice(base)
            for x in calls: todo.append(mul(mul(r, lead(heads[tuple(r)])[-1]), crow(x)))
            if len(heads) > 120: break
        if len(heads) > 120: continue
        drop = rng.random() < .4
        plan = [dict(r=list(r), m=m) for r, m in heads.items() if list(r) == list(range(1, n + 1)) or not drop or rng.random() < .8]
        if len({len(p['m']) for p in plan}) > 1 and rng.random() < .3: continue
        # size
        cnt = [0]; D = {tuple(p['r']): p['m'] for p in plan}
        mx = rng.choice([-1, 60, 30])
        def rec(r, had, k):
            cnt[0] += 1
            if cnt[0] > 1500: raise OverflowError
            if tuple(r) not in D: return
            le = mul(r, lead(D[tuple(r)])[-1])
            if tuple(r) in had or tuple(le) in had or (mx >= 0 and k >= mx): return
            for x in calls: rec(mul(le, crow(x)), had | {tuple(r), tuple(le)}, k + len(D[tuple(r)]))
        try: rec(list(range(1, n + 1)), frozenset(), 0)
        except OverflowError: continue
        names = rng.sample('bsvxyz', len(calls)); opts = [o for o in ('-q', '-c', '-g') if rng.random() < .25]
        lo = rng.choice([0, 0, rng.randint(0, 30)]); limit = rng.choice([-1, -1, 1, 3])
        if mx >= 0 and lo > mx: lo = 0
        args = ['-b%d' % n, '-a'] + opts + ['-C%s=%s' % (names[i], pn(x, 'X')) for i, x in enumerate(calls)]
        if (lo, mx) != (0, -1): args.append('-l%d-%s' % (lo, mx if mx >= 0 else ''))
        if limit > 0: args.append('--limit=%d' % limit)
        rng.shuffle(plan)
        G.append([E('s_plan', n=n, plan=plan, c=calls, min=lo, max=mx, names=names, opts=opts, limit=limit, args=args,
                    text=''.join('%s %s\n' % (rowt(p['r']), text(p['m'])) for p in plan))])
    c.traces_ok('Trace_Search', run_ts(G), run_ts, name='touchsearch')
