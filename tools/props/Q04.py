"""What gsiril's strings print against spec/Siril."""
from vlib import *
from props.siril import *
def escapes(c):
    out = []
    for i in range(32, 127):
        ch = chr(i)
        if ch == '"': continue
        for t in ('a\\%sb' % ch, '%s' % ch, '%s%s' % (ch, ch), 'a${%s}b' % ch):
            e = fixed(c.rng, 4, [[N('t'), O('='), ST('T')], [N('prove'), ('pn', '+14'), O(','), ST(t), O(','), ('pn', '+x')]])
            out.append(e)
    for i in list(range(0x20, 0x7f)) + [9, 10]:
        out.append(fixed(c.rng, 4, [[N('prove'), ('pn', '+14'), O(','), ST('a%sb' % c.rng.choice(['\\x%02x' % i, '\\x%02X' % i, '\\u%04x' % i, '\\U%08x' % i]))]]))
    for t in ('@', '#', '$', '@ # $', '$$', '@$$', '\\', '@\\', '$$\\', 'a\\\\', '\\\\', '${n}', '${s}', '${none}', '${', '$}', '{}', '@@', '##', '$ $', '\\x4', '\\u00', '\\', '${p}', '${b}'):
        for ext in (1, 2):
            body = [N('prove'), ST(t), O(','), ('pn', '+x14x14'), O(','), ST(t), O(','), ('pn', '+14x.14x'), O(','), ST(t)]
            out.append(fixed(c.rng, 4, [W('%d extents' % ext), W('n = 7'), [N('s'), O('='), ST('[@#$]')], W('b := true'), [N('p'), O('='), ('pn', '+x')], body]))
        for h in ('true', 'false', 'notround', 'conflict', 'everyrow', 'start', 'finish', 'rounds', 'abort'):
            out.append(fixed(c.rng, 4, [[N(h), O('='), ST(t)], [N('prove'), ('pn', '+x14x14')], [N('prove'), ('pn', '+x.x')], [N('prove'), ('pn', '+x.x.x.x')]]))
    return out
TEXTS = ('@', '#', '$', '@ # $', '$$', 'a$$', '@$$', 'x${n}$$', '${n}$$b', '\\', '@\\', '$$\\', 'a\\\\', '${n}', 'a${n}b', '${s}', '${none}', '{}', '@@', '##', '$ $', 'a$', '$a', '', ' ', '7', '${p}', '${b}')
def places(c):
    """the same text in each of the places where a string may stand"""
    out = []
    pre = [W('n = 7'), [N('s'), O('='), ST('[@#$]')], W('b := true'), [N('p'), O('='), ('pn', '+x')]]
    def prog(*ls): out.append(fixed(c.rng, 4, pre + list(ls), via=c.rng.choice(['-e', '-f', 'stdin'])))
    for t in TEXTS:
        S = ST(t)
        ok = not t.endswith('\\')
        prog([N('echo'), S], [N('echo'), O('('), S, O(')')], [N('echo'), ST('next')])
        prog([N('warn'), S], [N('echo'), ST('next')])
        for op in ('=', ':='):
            prog([N('t'), O(op), S], [N('echo'), N('t')], [N('echo'), ST('<${t}>')], [N('prove'), ('pn', '+14'), O(','), N('t'), O(','), ('pn', '+14'), O(','), ST('-${t}-')], W('n := 9'), [N('echo'), N('t')])
            prog([N('t'), O(op), S], [N('everyrow'), O('='), ST('${t}') if c.rng.random() < .5 else N('t')], [N('prove'), ('pn', '+14.14')])
        prog([N('t'), O(':='), ST('w')], [N('t'), O('.='), S], [N('echo'), N('t')], [N('t'), O('.='), ST('v')], [N('echo'), N('t')])
        prog([N('echo'), S, O('.'), ST('v')], [N('echo'), ST('v'), O('.'), S], [N('echo'), S, O('.'), S], [N('prove'), S, O('.'), ST('v'), O(','), ('pn', '+14.14')])
        for u in ('v', t, '7', '[@#$]'):
            for op in ('==', '!=', '<', '>='):
                prog([N('if'), S, O(op), ST(u)], [N('echo'), ST('yes')], W('else'), [N('echo'), ST('no')], W('endif'))
            prog([N('prove'), ('pn', '+14'), O(','), O('{'), S, O('=='), ST(u), O(':'), ST('yes'), O(';'), ST('no'), O('}'), O(','), ('pn', '+14')])
        prog([N('foreach'), O('['), S, O(','), ST('v'), O(']'), N('as'), N('z')], [N('echo'), N('z')], [N('echo'), ST('<${z}>')], [N('prove'), ('pn', '+14.14'), O(','), N('z')], W('endfor'))
        prog([N('aa'), O('='), O('['), S, O(','), S, O(']')], [N('foreach'), N('aa'), N('as'), N('z')], [N('echo'), N('z')], W('endfor'))
        prog([N('prove'), ('pn', '+14'), O(','), I(2), O('('), S, O(')'), O(','), ('pn', '+14'), O(','), O('('), S, O(')')])
        prog([N('prove'), ('pn', '+14'), O(','), O('{'), N('rounds'), O(':'), ST('r'), O(';'), S, O('}'), O(','), ('pn', '+14')])
        prog([N('prove'), ('pn', '+14'), O(','), O('('), N('t'), O(':='), S, O(')'), O(','), N('t'), O(','), ST('<${t}>'), O(','), ('pn', '+14')])
        prog([N('prove'), ('pn', '+14'), O(','), N('echo'), S, O(','), ('pn', '+14')], [N('prove'), ('pn', '+14'), O(','), N('echo'), ST('k' + t), O(','), ST('j'), O(','), ('pn', '+14')])
        prog([N('t'), O('='), S], [N('u'), O('='), N('t')], [N('echo'), N('u')], [N('echo'), ST('${u}${t}')], [N('u'), O(':='), N('t')], [N('echo'), N('u')])
        prog([N('prove'), ('pn', '+14'), O(','), S, O(','), N('abort') if False else N('break'), O(','), ('pn', '+14')])
        prog([N('t'), O('='), S], [N('if'), N('defined'), N('t')], [N('echo'), N('t')], W('endif'), [N('if'), S], [N('echo'), ST('yes')], W('endif'))
        prog([N('echo'), O('('), S, O('.'), O('('), I(3), O('+'), I(4), O(')'), O(')')], [N('echo'), N('stagename'), O('('), I(6), O(')'), O('.'), S])
    return [e for e in out if e]
def run(c):
    check(c, 2500, 40000, escapes(c) + places(c), [siril_model(['ReadsBack', 'Forgets'])],
          w=dict(hook=3, echo=3, everyrow=1.5, prove=5, defvar=3, loop=.3), mix=dict(string=4, echo=2, strings=3, assign=1.2), spoilt=.06)
