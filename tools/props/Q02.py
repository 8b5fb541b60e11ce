"""The rows gsiril rings against spec/Siril."""
from vlib import *
from props.siril import *
def merges(c):
    """every place for a merged or shifted block to go"""
    out = []
    for q, m in (('+x14x14x12', '+34'), ('&x14x', '+34.14'), ('+x14', '+34.12.x'), ('+14', '+34'), ('+x14x14x14x12', '&34.14')):
        for op in ('<<', '>>', None):
            for k in range(0, 9):
                e = [('pn', q), O('&'), ('pn', m)] + ([O(op), I(k)] if op else [])
                pre = [[N('everyrow'), O('='), ST('@')]]
                out.append(fixed(c.rng, 4, pre + [[N('prove')] + e]))
                out.append(fixed(c.rng, 4, pre + [[N('prove'), O('~'), O('(')] + e + [O(')')]]))
                if op is None: break
    for a in range(0, 6):
        for b in range(0, 6): out.append(fixed(c.rng, 4, [[N('everyrow'), O('='), ST('@')], [N('prove'), N('swap'), O('('), I(a), O(','), I(b), O(')'), O(','), ('pn', '&14x')]]))
    return out
def run(c):
    check(c, 2500, 40000, merges(c), [siril_model(['Rings', 'ReadsBack', 'Laws'], ext=e) for e in ([1] if c.quick else [1, 2])],
          w=dict(everyrow=2.5, prove=6, deftouch=4, defpn=3, loop=2, test=.1, calc=.1, echo=.2), mix=dict(merge=1.5, rev=2, tr=1.2, rep=3, call=.8, string=.2, assign=.3, endproof=.03),
          spoilt=.05, libs=.12)
