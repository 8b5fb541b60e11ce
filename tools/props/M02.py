from vlib import *
from props.common import *
from props.methods import *
import itertools
NAMES = ['Cambridge', '', 'Grandsire', 'Reverse Grandsire', 'Union', 'Double Union', 'Little Grandsire', 'Little Union', 'Plain']

def run(c):
    build('driver'); rng = c.rng
    c.model('MC_Method', cfg(invariants=['Laws'], constants=dict(N=4, K=3 if c.quick else 5), deadlock=False), note='laws')
    S = []
    for n in range(2, 5):
        A = all_changes(n)
        for L in range(1, 5 if n < 4 else 4):
            for q in itertools.product(A, repeat=L): S.append([E('m_facts', cs=list(q), name=rng.choice(NAMES))])
    S += [[E('m_stage', n=n) for n in rng.sample(range(1, 40), 39)]]
    for _ in range(20):
        S.append([E('m_untitled', t=rng.choice(['Untitled', 'Nameless', 'Foo Bar', 'x', ''])) for _ in range(4)])
    # lead heads: a treble (or two) hunting and one final change on every stage
    for n in range(3, 17):
        x = dict(n=n, s=list(range(1, n, 2))); o = dict(n=n, s=list(range(2, n, 2)))
        base = [x, o] * n; base = base[:-1]
        tail = [dict(n=n, s=list(range(3, n, 2))), o]
        for k in (1, 3, 5, 2, 7, 4, 9, 6, 11, 13):
            for t in tail:
                cs = (base + [t]) * k; cs = cs[:-1] + [rng.choice(tail)]
                if len(cs) < 150: S.append([E('m_lhcode', cs=cs)])
            for f in (x, dict(n=n, s=[1] + list(range(4, n, 2))), dict(n=n, s=list(range(1, 3, 2)) + list(range(4, n, 2)))):
                cs = ([f] + [o if i % 2 == 0 else x for i in range(2 * n - 5 if n > 3 else 1)]) * k
                if len(cs) < 150: S.append([E('m_lhcode', cs=cs)])
    for _ in range(1500 if c.quick else 20000):
        n = rng.choice([rng.randint(2, 8), rng.randint(3, 6), rng.randint(5, 12)])
        q = meth(rng, n) if rng.random() < .85 else near_pal(rng, n)
        if len(q) <= 64: S.append([E('m_facts', cs=q, name=rng.choice(NAMES) if rng.random() < .5 else 'Foo')])
    for _ in range(60):
        ev = [E('m_new', n=rng.randint(2, 6), k=rng.randint(0, 2))]
        for _ in range(rng.randint(1, 8)):
            n = rng.randint(2, 8)
            ev.append(rng.choice([E('m_push', c=rchange(rng, n)), E('m_pushs', t=pn(rchange(rng, rng.randint(2, 6)))), E('m_swapwith', n=n, t='x1' + pn(rchange(rng, n)))]))
        S.append(ev)
    c.drive_and_check('Trace_Method', S)
