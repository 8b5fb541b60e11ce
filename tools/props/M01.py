from vlib import *
from props.common import *
from props.methods import *
import itertools
FL = [d + e + x + s + p for d in (0, 1) for e in (0, 2) for x in (0, 4, 8, 16) for s in (0, 32, 96) for p in (0, 256)]

def run(c):
    build('driver'); rng = c.rng
    c.model('MC_Method', cfg(invariants=['Spelling'], constants=dict(N=4, K=4 if c.quick else 5), deadlock=False), note='every spelling reads back')
    S = []
    # every method of up to four changes on a small stage, every style at least once
    k = 0
    for n in range(1, 5):
        A = all_changes(n)
        for L in range(1, (5 if n < 4 else 4) if c.quick else 6 - n // 4):
            for q in itertools.product(A, repeat=L):
                ev = []
                for _ in range(3 if c.quick else 8):
                    f = FL[k % len(FL)]; k += 7
                    ev.append(E('m_fmt', cs=list(q), f=f))
                ev.append(E('m_fmt', cs=list(q), f=rng.choice([96, 32, 97, 98, 352, 128, 160, 224])))
                S.append(ev)
    for _ in range(700 if c.quick else 12000):
        n = rng.choice([rng.randint(2, 8), rng.randint(2, 8), rng.randint(9, 16), rng.randint(30, 36)])
        q = near_pal(rng, n) if rng.random() < .6 else meth(rng, n)
        if len(q) > 40: q = q[:40]
        S.append([E('m_fmt', cs=q, f=rng.choice(FL) + (128 if rng.random() < .15 else 0)) for _ in range(6)])
    c.drive_and_check('Trace_Method', S)
