"""methsearch as a filter keeps exactly the methods that a search with the same options would list."""
from props.meths import *
from props import X01, X02, X03
FREE = ('mask', 'chs', 'prefix', 'from', 'start', 'pends', 'avoid')
RELAX = ['p', 'l', 'j', 'w', 'f', 'y', 'fl', 'N', 'start', 'pends', 'avoid', 'chs', 'sym', 'mirror', 'P', 'cls', 'e', 'E', 'A', 'lh', 'hl', 'offset', 'points', 'prefix', 'from', 'mask', 'floating']
def gen(rng):
    def big(rng, *a): return base(rng, n=rng.choice([4, 5, 6, 6, 7, 8, 8, 8, 9, 10, 10, 12]))
    for _ in range(50):
        o = rng.choice([X01, X02, X03]).gen(rng, big)
        if lead_len(o) <= 48: break
    return o
def dot(rng, n, m):
    """a notation of method m"""
    w = W(rng, n); L = len(m); full = rng.random() < .5
    def ch(c):
        if not c: return rng.choice('xX-')
        d = list(c)
        if not full and len(d) > 1:
            if d[0] == 1 and rng.random() < .5: d = d[1:]
            if len(d) > 1 and d[-1] == n and rng.random() < .5: d = d[:-1]
        return ''.join(bt(b) for b in d)
    if L % 2 == 0 and L > 1 and rng.random() < .7:
        h = L // 2
        if all(m[i] == m[L - 2 - i] for i in range(L - 1)): return '&' + w.join([ch(c) for c in m[:h]]) + ',' + rng.choice(['', '+', '&']) + ch(m[-1])
        if all(m[1 + i] == m[L - 1 - i] for i in range(L - 1)): return rng.choice(['', '+']) + ch(m[0]) + ',&' + w.join([ch(c) for c in m[1:h + 1]])
    return rng.choice(['', '', '+']) + w.join([ch(c) for c in m])
def parse(n, t):
    """$p as written by methsearch"""
    return [[] if x == 'X' else [SYM.index(b) + 1 for b in x] for x in t.split('.')]
SYM = '1234567890ETABCDFGHJKLMNPQRSUVWYZ'
def pool(rng, o):
    """methods like those sought"""
    out = []
    for _ in range(3):
        o2 = dict(o)
        if not o2['n'] and o2['U'] == 0: o2['n'] = rng.choice([2, 4, 6, 8, 5])
        for k in RELAX:
            if rng.random() < .4: o2[k] = NONE[k]
        if rng.random() < .8: o2['A'] = True
        if o2['N'] > 1 and o2['avoid']: o2['N'] = 1
        r = methsearch(argv(rng, dict(o2)) + ['--random', '--seed=%d' % rng.randint(1, 10**6), '--loop=6', '-R$p', '--timeout=1'], timeout=1.5)
        if r and r[0] == 0: out += [parse(o['b'], x) for x in lines(r[1])]
    r = methsearch(argv(rng, dict(o)) + ['--random', '--seed=%d' % rng.randint(1, 10**6), '--loop=6', '-R$p', '--timeout=1'], timeout=1.5)
    if r and r[0] == 0: out += [parse(o['b'], x) for x in lines(r[1])]
    out.append(target(rng, o))
    rng.shuffle(out); out = out[:rng.randint(4, 12)]
    for m in list(out):
        if rng.random() < .3:
            q = [list(c) for c in m]; i = rng.randrange(len(q)); q[i] = fitting(rng, o, i); out.append(q)
            if rng.random() < .3 and len(q) % 2 == 0: q[len(q) - 2 - i] = q[i]
        if rng.random() < .1: out.append(m[:rng.randint(1, len(m))])
        if rng.random() < .05: out.append(m + m)
        if rng.random() < .05: out.append(m)
    rng.shuffle(out)
    return out
PAY = ['', '', ' ', ' foo', '\tBourne Surprise', '  two  words ', '\t x.14', ' 123\r', '\t#']
def session(seed):
    rng = random.Random(seed); o = gen(rng); kind = rng.random(); n = o['b']
    free = o['U'] == 0 and kind < .5 and not any(o[k] != NONE[k] for k in FREE) and not o['sym'] and not o['offset']
    nob = (kind < .15 or kind > .93) and (o['front'], o['back']) == (1, n) and not any(o[k] != NONE[k] for k in FREE) and not o['lh'] and o['cls'] not in ('3', '4')
    ms = [(n, m) for m in pool(rng, o)]
    args = argv(rng, o)
    if nob:
        for _ in range(rng.randint(1, 2)):
            k = rng.choice([x for x in range(3, 11) if (x - n) % 2 == 0 and x > 2 * o['U']] or [n]); o2 = dict(o); o2['b'] = o2['back'] = k
            ms += [(k, m) for m in pool(rng, o2)]
        rng.shuffle(ms)
        args = [a for a in args if not a.startswith('-b') and not a.startswith('--bells')]
        o['b'] = o['back'] = 0
    if free:
        args = [a for a in args if not a.startswith('-n') and not a.startswith('--changes-per-lead')]
        o['n'] = 0
    text = []
    for k, m in ms:
        pre = '%d:' % k if nob and rng.random() < .9 or rng.random() < .1 else ''
        if rng.random() < .02: pre = '%d:' % rng.randint(3, 9)
        t = rng.choice(['', '', '', ' ', '\t']) + pre + dot(rng, k, m) + rng.choice(PAY)
        if rng.random() < .02: t = rng.choice(['', '   ', 'zz', '&x.14.z', '!', '{', 'x.{14'])
        text.append(t)
    inv = rng.random() < .25
    o['p'] = min(o['p'], 99)
    a = args + rng.choice([['-I'], ['--filter']]) + (['--invert-filter'] if inv else [])
    lim = rng.choice([0, 0, 1, 2, 3, 5])
    if lim: a.insert(rng.randint(0, len(a)), '--limit=%d' % lim)
    return E('filter', args=a, lines=text, _o=o, _inv=inv, _lim=lim)
def one_filter(ev, timeout=30):
    a = ev['a']
    r = methsearch(a['args'], inp=''.join(x + '\n' for x in a['lines']), timeout=timeout)
    if r is None: return dict(op=ev['op'], a=a, ok=False, v='timeout')
    if r[0] not in (0, 1): return dict(op=ev['op'], a=a, ok=False, v='crash')
    return dict(op=ev['op'], a=a, ok=True, v=dict(rc=r[0], l=lines(r[1])))
def run_filter(sessions):
    with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(lambda s: [one_filter(e) for e in s], sessions))
def run(c):
    build('methsearch'); kf = known(); want = 400 if c.quick else 8000
    c.model(**model(c)[0])
    S, drop, kept, given = [], 0, 0, 0
    with ThreadPoolExecutor(NCPU) as ex:
        while len(S) < want:
            def make(seed):
                e = session(seed); e['a']['_o'].update((k, kf[k]) for k in ('kf', 'ky'))
                return e, one_filter(e)
            for e, r in ex.map(make, [c.rng.random() for _ in range(64)]):
                if r['ok'] and r['v']['rc'] == 1: drop += 1; continue
                if r['ok'] and not r['v']['l'] and c.rng.random() < .7: continue
                if len(S) < want:
                    S.append([r]); given += len(e['a']['lines'])
                    if r['ok']: kept += len(r['v']['l'])
    print('filters: %d of %d methods, %d kept; %d refused' % (len(S), given, kept, drop))
    c.traces_ok('Trace_MethFilter', S, run_filter, name='filters')
