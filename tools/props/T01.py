from vlib import *
from props.common import *

def text(t, f):
    if t['k'] == 'c': return '(' + ';'.join(enc(f(x)) for x in t['c']) + ')'
    return '[' + ','.join('%d*%s' % (x['n'], text(x['t'], f)) for x in t['c']) + ']'
def conv(t, f):
    if t['k'] == 'c': return dict(k='c', c=[f(x) for x in t['c']])
    return dict(k='l', c=[dict(n=x['n'], t=conv(x['t'], f)) for x in t['c']])
def tree(rng, n, d):
    if d == 0 or rng.random() < .3: return dict(k='c', c=[rchange(rng, n) for _ in range(rng.choice([0, 1, 1, 2, 3]))])
    return dict(k='l', c=[dict(n=rng.choice([0, 1, 1, 1, 2, 3]), t=tree(rng, n, d - 1)) for _ in range(rng.choice([0, 1, 2, 2, 3]))])
def size(t): return len(t['c']) if t['k'] == 'c' else sum(x['n'] * size(x['t']) for x in t['c'])

def run(c):
    build('driver'); rng = c.rng
    g = c.gen('MC_Touch', cfg(invariants=['Laws', 'Emitted'], constants=dict(Emit='TRUE'), deadlock=False))
    A = dict(a=dict(n=3, s=[1]), b=dict(n=3, s=[2]))
    S = []
    for t in g: S.append([E('t_walk', t=text(t, A.get), _tree=conv(t, A.get))])
    S.append([E('t_none')])
    ident = lambda x: x
    for _ in range(1500 if c.quick else 15000):
        n = rng.randint(1, 8); t = tree(rng, n, rng.randint(0, 5))
        if size(t) <= 300: S.append([E('t_walk', t=text(t, ident), _tree=t)])
    for _ in range(200):
        n = rng.randint(2, 8); cs = [rchange(rng, n) for _ in range(rng.randint(1, 6))]
        s = ''
        for x in cs:
            p = pn(x)
            if s and s[-1] != 'x' and p != 'x': s += '.'
            s += p
        S.append([E('t_pn', n=n, t=s, _cs=cs)])
    c.drive_and_check('Trace_Group', S)
