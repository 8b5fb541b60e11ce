"""Conditions and loops in gsiril against spec/Siril."""
from vlib import *
from props.siril import *
def endless(c):
    out = []
    for t in ('+14', '+x.14', '&14', '~ ( +14 )'):
        for lim in (1, 2, 3, 10, 11, 100, 1001, 3000, 5001):
            e = fixed(c.rng, 4, [[N('x')] if False else W('9999999 extents'), [N('prove'), N('repeat'), O('(')] + ([('pn', t)] if t[0] != '~' else [O('~'), O('('), ('pn', '+14'), O(')')]) + [O(')')]])
            e['op'] = 'limit'; e['a']['limit'] = lim
            out.append(e)
    return out
def nested(c):
    """breaks within loops within loops"""
    out = []
    bs = [[N('break')], [], [O('{'), ('re', '2*'), O(':'), N('break'), O('}')], W('{ loop_counter == 1 : break }'), W('{ loop_counter >= 2 : break ; true : ( zz = 1 ) }'), W('{ rounds : break }')]
    P = [('pn', '+3'), ('pn', '+1'), ('pn', '+3.1')]
    for m in (0, 1, 2, 3):
        for a in bs:
            for b in bs:
                x, y = c.rng.choice(P), c.rng.choice(P)
                inner = [I(c.rng.randint(1, 3)), O('('), x] + ([O(',')] + b if b else []) + [O(','), ST('i ${loop_counter}'), O(')')]
                outer = [I(m), O('(')] + inner + ([O(',')] + a if a else []) + [O(','), y, O(','), ST('o ${loop_counter}'), O(')')]
                out.append(fixed(c.rng, 3, [W('9 extents'), [N('everyrow'), O('='), ST('@')], [N('prove')] + outer + [O(','), ST('end #')]]))
    return out
def run(c):
    check(c, 2500, 40000, endless(c) + nested(c) + scopes(c.rng, 150 if c.quick else 3000), [siril_model(['Laws', 'Rings'])],
          w={'prove': 5, 'test': 3, 'if': 2.5, 'foreach': 1.5, 'deftouch': 3, 'everyrow': 1.2, 'loop': 1.5}, mix=dict(alts=4, reptest=2.5, rep=2, star=1, string=1, inc=1))
