"""Arithmetic and functions in gsiril against spec/Siril."""
import itertools
from vlib import *
from props.siril import *
def calc(c):
    out = []
    def batch(exprs, n=4):
        for i in range(0, len(exprs), 25): out.append(fixed(c.rng, n, [[N('echo'), O('(')] + e + [O(')')] for e in exprs[i:i + 25]]))
    ops = ['+', '-', '*', '/', '%']
    ex = []
    for k in (1, 2, 3):
        for w in itertools.product(ops, repeat=k):
            ts = [I(c.rng.randint(0, 30))]
            slashes = 0
            for o in w:
                if o == '/':
                    if slashes: ts.append(NL)
                    slashes += 1
                ts += [O(o), I(c.rng.randint(1, 12))]
            ex.append(ts)
    batch(ex)
    neg = lambda k: [I(k)] if k >= 0 else [O('('), I(0), O('-'), I(-k), O(')')]
    batch([neg(a) + [O(o)] + neg(b) for a in (-13, -7, -1, 0, 1, 7, 12) for b in (-5, -3, -1, 1, 2, 5) for o in ops])
    for o in ('/', '%'):
        for a in (0, 1, 5): out.append(fixed(c.rng, 4, [[N('echo'), O('('), I(a), O(o), I(0), O(')')]]))
    # truth tables
    T = [N('true'), N('false')]
    def test(e): return [[N('if')] + e, [N('echo'), ST('y')], W('else'), [N('echo'), ST('n')], W('endif')]
    es = []
    for k in (1, 2, 3):
        for w in itertools.product(['&&', '||'], repeat=k):
            for vs in itertools.product(T, repeat=k + 1):
                e = [vs[0]]
                for o, v in zip(w, vs[1:]): e += [O(o)] + ([O('!')] if c.rng.random() < .3 else []) + [v]
                es.append(e)
    for o in ('==', '!=', '<', '>', '<=', '>='):
        for a in (-2, 0, 1, 2):
            for b in (-2, 0, 1, 2): es.append(neg(a) + [O(o)] + neg(b))
        for a in ('', 'a', 'b', 'ab', 'A', '10', '9'):
            for b in ('a', 'ab', '9'): es.append([ST(a), O(o), ST(b)])
    for i in range(0, len(es), 20): out.append(fixed(c.rng, 4, [x for e in es[i:i + 20] for x in test(e)]))
    for a in T:
        for b in T:
            for o in ('==', '!=', '<'): out.append(fixed(c.rng, 4, test([a, O(o), b])))
    # what has no value
    vals = [[I(2)], [ST('s')], [N('true')], [('pn', '+14')], W('[ ]'), W('[ 1 ]'), [('tr', '2134')], [('re', '1*')], [N('rounds')], [N('break')], [N('at')], [N('none')], W('( k := 2 )'), W('save k'), [N('endproof')]]
    for a in vals:
        for b in vals:
            o = c.rng.choice(['+', '-', '*', '%', '.', '==', '<', '&&', '||', '&', '<<', ','])
            out.append(fixed(c.rng, 4, [[N('echo'), O('(')] + a + [O(o)] + b + [O(')')]]))
            out.append(fixed(c.rng, 4, test(a + [O(o)] + b)))
            out.append(fixed(c.rng, 4, [[N('prove'), ('pn', '+14'), O(','), O('(')] + a + [O(o)] + b + [O(')')]]))
    # functions
    for fn in ('at', 'pos', 'stagename', 'rowno', 'music', 'swap', 'runs', 'frontruns', 'backruns', 'crus', 'methname', 'pnstr', 'load', 'loadm', 'loadlh'):
        for args in ([], [I(0)], [I(1)], [I(4)], [I(5)], [I(34)], [I(2), I(3)], [I(1), I(2), I(3)], [ST('x')], [('pn', '+x14')], [N('true')], [N('p')], [N('none')]):
            a = [N(fn), O('(')] + [t for i, x in enumerate(args) for t in ([O(',')] if i else []) + [x]] + [O(')')]
            pre = [[N('p'), O('='), ('pn', '&x14,+12')] if False else [N('p'), O('='), ('pn', '&x14')]]
            out.append(fixed(c.rng, 4, pre + [[N('echo'), O('(')] + a + [O(')')]]))
            if fn in ('at', 'pos', 'rowno', 'music', 'swap'):
                out.append(fixed(c.rng, 4, pre + [[N('prove'), ('pn', '+x14x'), O(','), N('t'), O(':='), O('(')] + a + [O(')'), O(','), ST('${t}')]]))
            if fn in ('runs', 'frontruns', 'backruns', 'crus'):
                out.append(fixed(c.rng, 6, [[N('music')] + a, [N('prove'), O('5'), O('('), ('pn', '&x16x16x16,+12') if False else ('pn', '&x16x16x16'), O(','), ('pn', '+12'), O(')')] if False else [N('prove'), I(5), O('('), ('pn', '&x16x16x16'), O(','), ('pn', '+12'), O(')')]]))
    for k in range(0, 30): out.append(fixed(c.rng, 4, [[N('echo'), N('stagename'), O('('), I(k), O(')')]]))
    return out
def run(c):
    check(c, 2000, 40000, calc(c), [ops_model(['Binds', 'Needed', 'Arithmetic', 'RowFns'])],
          w=dict(calc=5, test=4, defvar=4, defarr=2, foreach=1.5, music=1, prove=2, echo=2), mix=dict(assign=2, inc=1, call=1.5))
