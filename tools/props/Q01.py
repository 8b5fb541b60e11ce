"""Verdicts of gsiril's proofs against spec/Siril."""
import itertools
from vlib import *
from props.siril import *
HOOKS = [[N(h), O('='), ST(h)] for h in ('notround', 'false', 'tooshort', 'toolong', 'abort', 'true')] + [[N('conflict'), O('='), ST('#: @ $')]]
def words(c):
    """every touch of a few changes on three bells, on its own and among others"""
    chs = ['1', '3', '123']
    out = []
    for k in range(1, 5):
        for w in itertools.product(chs, repeat=k):
            out.append(fixed(c.rng, 3, [[N('prove'), ('pn', '+' + '.'.join(w))]], via=c.rng.choice(['-e', '-f', 'stdin'])))
    ws = [w for k in range(1, 8 if c.quick else 9) for w in itertools.product(chs if k < 7 else chs[:2], repeat=k)]
    c.rng.shuffle(ws)
    for i in range(0, len(ws), 30):
        pre = c.rng.choice([[], [], W('2 extents'), W('6 rows'), W('2 to 6 rows'), W('0 extents'), W('6 rows ; 2 extents')])
        out.append(fixed(c.rng, 3, ([pre] if pre else []) + (HOOKS if c.rng.random() < .5 else []) + [[N('prove'), ('pn', '+' + '.'.join(w))] for w in ws[i:i + 30]]))
    # a touch and its length limits
    for lo, hi in [(6, 6), (0, 6), (5, 6), (6, 7), (7, 9), (0, 5), (7, -1), (6, -1), (1, -1)]:
        for t in ['&3', '+3.1', '+3.1.3.1.3.1', '+3.1.3.1.3.1.3', '+3.1.3']:
            out.append(fixed(c.rng, 3, [[N('prove'), ('pn', t)]], lo=lo, hi=hi))
    return out
def after_end(c):
    """`endproof' among the changes of a touch, which go on after it"""
    out = []
    chs = ['1', '3', '123']
    ps = []
    for k in range(0, 4 if c.quick else 6):
        for w in itertools.product(chs[:2], repeat=k):
            for j in range(0, k + 1):
                ps.append((w[:j], w[j:]))
    ps += [(('1', '3') * a + x, y + ('1', '3') * b) for a in (2, 3) for b in (0, 1, 2) for x in ((), ('1',), ('3',), ('123',)) for y in ((), ('1',), ('3',))]
    ps += [(x, y + ('1', '3', '1', '3', '1', '3')[:k]) for k in range(7) for x in ((), ('1',)) for y in ((), ('3',))]
    c.rng.shuffle(ps)
    def stmt(a, b):
        mid = c.rng.choice([[N('endproof')], [N('endproof'), O(','), N('endproof')], [N('endproof'), O(','), ST('#')], [ST('@'), O(','), N('endproof')]])
        x = ([('pn', '+' + '.'.join(a)), O(',')] if a else []) + mid + ([O(','), ('pn', '+' + '.'.join(b))] if b else [])
        z = c.rng.random()
        if z < .1: x = [I(c.rng.randint(1, 2)), O('(')] + x + [O(')')]
        elif z < .2: x = [N('repeat'), O('(')] + x + W(', { loop_counter >= 2 : break } )')
        elif z < .3: x = x + [O(','), ST('end @ #')]
        return [N('prove')] + x
    for i in range(0, len(ps), 20):
        pre = c.rng.choice([[], [], W('2 extents'), W('6 rows'), W('2 to 6 rows'), W('0 extents')])
        out.append(fixed(c.rng, 3, ([pre] if pre else []) + (HOOKS if c.rng.random() < .5 else []) + [stmt(a, b) for a, b in ps[i:i + 20]]))
    return out
def run(c):
    check(c, 2500, 40000, words(c) + after_end(c), [siril_model(['Rings'], ext=e) for e in ([1] if c.quick else [1, 2, 3])],
          w=dict(prove=6, loop=3, rows=.8, extents=.6, rounds=.4, mask=.5, hook=2, test=.1, calc=.1, defarr=.1), opts=2.0, mix=dict(endproof=.15, bad=.02, echo=.3))
