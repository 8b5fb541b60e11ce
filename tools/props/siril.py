"""Random gsiril programs, and running them."""
import os, subprocess, tempfile, resource
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from props.common import *

def N(s): return ('name', s)
def I(k): return ('num', str(k))
def O(s): return ('op', s)
def ST(s): return ('str', s)
NL = ('nl', '')
NOTMS = {'+', '-', '%', '.', '/', '&', '<<', '>>', '&&', '||', '==', '!=', '++', '--', '[', ']'}
def in_ms(ts): return all(not (t == 're' or (t == 'op' and s in NOTMS) or (t == 'str' and '/' in s)) for t, s in ts)
def W(text):
    """tokens of words and operators separated by spaces"""
    return [I(w) if w.isdigit() else N(w) if w[0].isalpha() or w[0] == '_' else O(w) for w in text.split()]
def text_of(ts):
    out, line = [], ''
    for t, s in ts:
        if t == 'nl': out.append((line + s).rstrip()); line = ''
        else: line += {'str': '"%s"', 'tr': "'%s'", 're': '/%s/'}.get(t, '%s') % s + ' '
    return '\n'.join(out + [line.rstrip()])
def lexes(ts):
    """A / for division must be the last one on its line, since /.../ is a pattern."""
    seen = False
    for t, s in ts:
        if t == 'nl':
            if seen and s: return False
            seen = False
        elif (t, s) == ('op', '/'):
            if seen: return False
            seen = True
        elif seen and (t == 're' or (t == 'str' and '/' in s)): return False
    return True
def row_text(r): return ''.join(bt(b) for b in r)

KINDS = dict(pn=4, tr=.6, sym=3, seq=4, rep=2, reptest=.8, alts=1, rev=.5, assign=.7, string=.6, echo=.2, save=.2, endproof=.05, call=.2, merge=.4, inc=.3, star=.4, bad=.03,
             strings=1, ints=1, deep=2)

class Gen:
    def __init__(g, rng, n, mix=None, fancy=True):
        g.r, g.n, g.fancy = rng, n, fancy
        g.w = dict(KINDS); g.w.update(mix or {})
        g.touch, g.pns = {}, {}                 # name -> rows
        g.ints, g.strs, g.bools, g.arrs = set(), set(), set(), set()
        g.lib, g.ms, g.scored = [], False, False
        g.inrep = 0
    def pick(g, names, fallback, p=.96):
        return g.r.choice(sorted(names)) if names and g.r.random() < p else fallback
    # ---- place notation
    def changes(g, k, allow=('x',)):
        out = []
        for _ in range(k):
            c = rchange(g.r, g.n)
            out.append(pn(c, g.r.choice('xX-')) if True else '')
        return out
    def join(g, cs):
        t = ''
        for i, c in enumerate(cs):
            if i and (t[-1] not in 'xX-') and c not in 'xX-': t += '.'
            elif i and g.r.random() < .1: t += '.'
            t += c
        return t
    def short(g, c):
        """leave out an external place, sometimes"""
        if c in 'xX-' or len(c) < 2: return c
        k = g.r.random()
        if k < .15 and c[0] == '1': return c[1:]
        if k < .3 and c[-1] == bt(g.n): return c[:-1]
        return c
    def brace(g, c):
        out = ''
        for ch in c:
            b = SYM.find(ch) + 1
            k = g.r.random()
            if ch in 'xX-' or k > .12: out += ch
            elif k < .04: out += '{%d}' % b
            elif b == g.n: out += '{N}'
            else: out += '{N-%d}' % (g.n - b)
        return out
    def pnlit(g, budget):
        k = max(1, min(budget, g.r.choice([1, 1, 2, 3, 4, 6])))
        if g.r.random() < .4 and budget >= 2 * k - 1:
            return [('pn', '&' + g.join([g.brace(g.short(c)) for c in g.changes(k)]))], 2 * k - 1
        return [('pn', '+' + g.join([g.brace(g.short(c)) for c in g.changes(k)]))], k
    def pnv(g, budget, d):
        """an expression with place notation for a value"""
        k = g.r.random()
        if d <= 0 or k < .45:
            if g.pns and g.r.random() < .5:
                s = g.r.choice(sorted(g.pns))
                if g.pns[s] <= budget: return [N(s)], g.pns[s]
            return g.pnlit(budget)
        if k < .65 and budget > 1:
            a, x = g.pnv(budget // 2, d - 1); b, y = g.pnv(budget - x, d - 1)
            return [O('(')] + a + [O(',')] + b + [O(')')], x + y
        if k < .75:
            m = g.r.randint(0, 3); a, x = g.pnv(budget // max(1, m), d - 1)
            return [I(m)] + [O('(')] + a + [O(')')], m * x
        if k < .85: a, x = g.pnv(budget, d - 1); return [O('~')] + a, x
        if k < .9 and g.lib:
            f = g.r.choice(['load', 'load', 'loadm', 'loadlh'])
            m = g.r.choice(g.lib)
            x = len(m['chs'])
            if x <= budget: return [N(f), O('('), ST(m['name'] + ('' if m['cl'] is None else (' ' + m['cl'] if m['cl'] else '') + ' ' + STAGES[g.n])), O(')')], x
        return g.merge(budget, d - 1)
    def merge(g, budget, d):
        a, x = g.pnv(budget, d); m, y = g.pnlit(max(1, x // 2))
        k = g.r.random()
        if g.pns and g.r.random() < .2: s = g.r.choice(sorted(g.pns)); m = [N(s)]; y = g.pns[s]
        if k < .3: t = m
        else:
            op = g.r.choice(['<<', '>>'])
            j = g.r.randint(1, max(1, x - y + 1)) if op == '>>' else g.r.randint(max(0, min(y, x) - 1), max(y, x, 1) - 1)
            t = m + [O(op), I(j if g.r.random() < .9 else g.r.randint(0, x + 1))]
        return [O('(')] + a + [O('&')] + t + [O(')')], x
    def tr(g):
        k = g.n if g.r.random() < .8 else g.r.randint(1, g.n)
        r = rrow(g.r, k)
        if g.r.random() < .4:
            r = list(range(1, k + 1))
            for _ in range(g.r.randint(1, 2)):
                i, j = g.r.randrange(k), g.r.randrange(k); r[i], r[j] = r[j], r[i]
        return [('tr', row_text(r))]
    # ---- patterns
    def pattern(g):
        if g.ms: return [N('rounds')]
        n = g.n; k = g.r.random()
        if k < .1: return [('re', '*')]
        if k < .2: return [('re', g.r.choice(['1*', '*' + bt(n), '*%s%s' % (bt(n - 1), bt(n)), '12*', '?2*', '*1*']))]
        if k < .3 and n >= 4: return [('re', g.r.choice(['1..4*', '*{N-1}{N}', '{N}*', '*4..1', '*{N}', '1{N-1}*']))]
        r = rrow(g.r, n); out = ''
        star = False; i = 0
        while i < n:
            k = g.r.random()
            if k < .15 and not star: out += '*'; star = True; i += g.r.randint(0, n - i); continue
            if k < .3: out += '?'
            elif k < .45: out += '[' + ''.join(bt(b) for b in sorted({r[i], g.r.randint(1, n)})) + ']'
            else: out += bt(r[i])
            i += 1
        return [('re', out)]
    # ---- integers
    def int(g, d):
        k = g.r.random()
        if d <= 0 or k < .3:
            k = g.r.random()
            if k < .35 or not g.ints: return [I(g.r.choice([0, 1, 2, 3, 4, 5, 7, 12, 20, 100]))]
            if k < .75: return [N(g.pick(g.ints, 'nothing'))]
            return [N(g.r.choice(['bells', 'length', 'loop_counter'] if g.inrep else ['bells', 'length']))]
        if k < .6:
            op = g.r.choice(['+', '+', '-', '-', '*', '%', '/']) if not g.ms else '*'
            a, b = g.int(d - 1), g.int(d - 1)
            if op == '*': b = [I(g.r.randint(0, 9))]; a = g.small()
            return a + [O(op)] + b
        if k < .7: return [O('(')] + g.int(d - 1) + [O(')')]
        if k < .8: return [N(g.r.choice(['at', 'pos'])), O('(')] + ([I(g.r.randint(1, g.n))] if g.r.random() < .85 else g.int(d - 1)) + [O(')')]
        if k < .86: return [N('rowno'), O('('), O(')')]
        if k < .9: return [N('music'), O('('), O(')')]
        if k < .95 and g.ints: return [O('('), O(g.r.choice(['++', '--'])), N(g.pick(g.ints, 'nothing')), O(')')]
        if g.ints: v = g.r.choice(sorted(g.ints)); return [O('('), N(v), O(g.r.choice(['=', ':=']))] + g.intd(d - 1) + [O(')'), O(',')] * 0 + [O(')'), O('*'), I(1)] if False else g.small()
        return g.small()
    def intd(g, d): return g.int(d)
    def small(g):
        return g.r.choice([[I(g.r.randint(0, 9))], [N('bells')], [O('('), N('length'), O('%'), I(g.r.randint(1, 9)), O(')')]])
    # ---- truth values
    def bool(g, d):
        k = g.r.random()
        if d <= 0 or k < .4:
            k = g.r.random()
            if k < .45: return g.pattern()
            if k < .55: return [N('rounds')]
            if k < .62: return [N(g.r.choice(['true', 'false']))]
            if k < .68: return [N('proving')]
            if k < .8: return g.r.choice([lambda s: [N('defined'), N(s)], lambda s: [N('defined'), O('('), N(s), O(')')]])(g.r.choice(sorted(g.ints | g.strs | g.bools | set(g.touch)) + ['nothing', 'zip', 'loop_counter', 'true', 'min_length', 'max_length', '__line__']))
            if k < .9 and g.bools: return [N(g.pick(g.bools, 'nothing'))]
            return g.r.choice([W('runs ( )'), W('frontruns ( 3 )'), W('backruns ( 3 )'), W('runs ( 3 , %d )' % g.r.randint(0, 1)), W('crus ( )')]) if g.n >= 4 else [N('rounds')]
        if k < .7:
            op = g.r.choice(['==', '!=', '<', '>', '<=', '>='] if not g.ms else ['<', '>', '<=', '>='])
            j = g.r.random()
            if j < .75: a, b = g.int(d - 1), g.int(d - 1)
            elif j < .92: a, b = g.str(d - 1), g.str(d - 1)
            elif j < .97: a, b = g.bool(d - 1), g.bool(d - 1); op = g.r.choice(['==', '!=']) if g.r.random() < .9 else op
            else: a, b = g.int(d - 1), g.str(d - 1)
            if a == b and g.r.random() < .5: b = g.int(d - 1)
            return a + [O(op)] + b
        if k < .88: return g.bool(d - 1) + [O(g.r.choice(['&&', '||']))] + g.bool(d - 1)
        if k < .94: return [O('!')] + ([O('(')] + g.bool(d - 1) + [O(')')] if g.r.random() < .7 else g.bool(0))
        return [O('(')] + g.bool(d - 1) + [O(')')]
    # ---- strings
    def lit(g, esc=True, flags=True):
        out = ''
        for _ in range(g.r.choice([0, 1, 1, 2, 3])):
            k = g.r.random()
            if k < .35: out += g.r.choice(['Part', 'end', ' ', ': ', 'x', '--', 'a, b', '(1)', 'touch', '0', '{', '}', "it's", ';', '/ ' if False else '~', '*'])
            elif k < .5: out += '@'
            elif k < .6: out += '#'
            elif k < .68: out += '$'
            elif k < .85:
                s = sorted(g.ints | g.strs) + (['loop_counter'] if g.inrep else [])
                if s: out += '${%s}' % (g.r.choice(s) if g.r.random() < .97 else 'nothing')
            elif esc and k < .99: out += g.r.choice(['\\n', '\\t', '\\\\', "\\'", '\\x41', '\\u0042', '\\$', '\\@', '\\#', '\\U00000043'])
            else: out += 'z'
            if out.endswith('$') and g.r.random() < .5: out += ' '
        if not g.fancy: return out
        if '$$' in out: out = out.replace('$$', '$ $')
        if '${' in out and False: pass
        if flags and g.r.random() < .04: out += '$$'
        if flags and g.r.random() < .1: out += '\\'
        return out
    def str(g, d, esc=True, flags=True):
        k = g.r.random()
        if d <= 0 or k < .5:
            if g.strs and g.r.random() < .4: return [N(g.pick(g.strs, 'nothing', .98))]
            return [ST(g.lit(esc, flags))]
        if k < .7: return g.str(d - 1, esc, False) + [O('.')] + g.str(d - 1, esc, False)
        if k < .8: return [O('(')] + g.int(d - 1) + [O(')')]
        if k < .86: return [N('stagename'), O('(')] + g.int(d - 1) + [O(')')]
        if k < .9 and g.pns: return [N('methname'), O('('), N(g.pick(g.pns, 'nothing')), O(')')]
        if k < .97: a, _ = g.pnv(8, 1); return [N('pnstr'), O('(')] + a + [O(')')]
        return [O('(')] + g.str(d - 1, esc, False) + [O(')')]
    # ---- arrays
    def arr(g, d, f):
        k = g.r.random()
        if d <= 0 or k < .7:
            if g.arrs and g.r.random() < .2: return [N(g.pick(g.arrs, 'nothing'))]
            out = [O('[')]
            for i in range(g.r.randint(0, 3)): out += ([O(',')] if i else []) + f()
            return out + [O(']')]
        return g.arr(d - 1, f) + [O('.')] + g.arr(d - 1, f)
    # ---- touches: tokens, a bound on the rows they ring
    def paren(g, x): return [O('(')] + x + [O(')')]
    def tch(g, budget, d):
        if budget <= 0: return g.noop(), 0
        w = dict(g.w)
        if d <= 0: w = {k: w[k] for k in ('pn', 'sym', 'tr', 'string')}
        ks = [k for k in w if k in TOUCH]
        k = g.r.choices(ks, [w[x] for x in ks])[0]
        if k == 'pn': return g.pnv(budget, 1)
        if k == 'tr': return g.tr(), 1
        if k == 'sym':
            c = [(s, x) for s, x in list(g.touch.items()) + list(g.pns.items()) if x <= budget]
            if not c: return g.pnlit(budget)
            s, x = g.r.choice(sorted(c)); return [N(s)], x
        if k == 'seq':
            a, x = g.tch(budget * 2 // 3, d - 1); b, y = g.tch(budget - x, d - 1)
            return g.paren(a + [O(',')] + b) if g.r.random() < .5 else a + [O(',')] + b, x + y
        if k == 'rep':
            m = g.r.choice([0, 1, 2, 2, 3, 3, 4]); g.inrep += 1
            a, x = g.tch(budget // max(1, m), d - 1); g.inrep -= 1
            if g.r.random() < .2:
                b = g.bool(1); a = a + [O(','), O('{')] + b + [O(':'), N('break'), O('}')]
            return [I(m)] + g.paren(a), m * x
        if k == 'star':
            m = g.r.choice([0, 1, 2, 3]); g.inrep += 1
            a, x = g.tch(budget // max(1, m, 4), d - 1); g.inrep -= 1
            a = g.paren(a)
            z = g.r.random()
            if z < .3: return a + [O('*'), I(m)], m * x
            if z < .5: return [O('('), I(m), O('+'), I(1), O(')'), O('*')] + a, (m + 1) * x
            if z < .7 and g.ints: return [O('('), N(g.pick(g.ints, 'nothing')), O('%'), I(3), O('+'), I(2), O(')'), O('*')] + a, 4 * x
            return [I(m), O('*')] + a, m * x
        if k == 'reptest':
            m = g.r.randint(1, 4); g.inrep += 1
            a, x = g.tch(budget // m, d - 1); g.inrep -= 1
            c = W('loop_counter >= %d' % m)
            t = g.bool(1) + [O('||')] + c if g.r.random() < .7 else c
            z = [O('{')] + t + [O(':'), N('break'), O('}')]
            body = a + [O(',')] + z if g.r.random() < .7 else z + [O(',')] + a
            return [N('repeat')] + g.paren(body), m * x
        if k == 'alts':
            out, best = [O('{')], 0
            m = g.r.randint(1, 3)
            for i in range(m):
                a, x = g.tch(budget, d - 1) if g.r.random() < .93 else ([N('break')] if g.inrep else [], 0)
                if i < m - 1 or g.r.random() < .5: out += g.bool(2) + [O(':')]
                elif g.r.random() < .02: out += [O(':')]
                out += a if a or out[-1] == O(':') else g.noop()
                best = max(best, x)
                if i < m - 1 or g.r.random() < .2: out += [O(';')]
            return out + [O('}')], best
        if k == 'rev':
            a, x = g.pnv(budget, 2) if g.r.random() < .6 else g.tch(budget, d - 1); return [O('~')] + g.paren(a), x
        if k == 'assign': return g.paren(g.assign(d - 1)), 0
        if k == 'string': return g.str(1), 0
        if k == 'echo': return [N('echo'), ST(g.lit())], 0
        if k == 'save': return [N('save'), N(g.pick(g.ints | g.strs | set(g.touch), 'nothing'))], 0
        if k == 'endproof': return [N('endproof')], 0
        if k == 'inc':
            return ([O('('), O(g.r.choice(['++', '--'])), N(g.pick(g.ints, 'nothing')), O(')')], 0) if g.ints else (g.noop(), 0)
        if k == 'merge': return g.merge(budget, 1)
        if k == 'call':
            i, j = g.r.randint(1, g.n), g.r.randint(1, g.n)
            return [N('swap'), O('('), I(i)] + ([O(','), I(j)] if g.r.random() < .7 else []) + [O(')')], 1
        if k == 'bad': return g.r.choice([[N('nothing')], [I(3)], g.bool(1), [O('['), O(']')], [N('at')], g.int(1), g.str(2)]), 0
        raise CheckError(k)
    def noop(g): return [O('('), N('zz'), O('='), I(1), O(')')]
    def assign(g, d):
        k = g.r.random()
        if k < .45:
            v = g.r.choice(['i', 'j', 'k']); e = g.int(2); op = g.r.choice(['=', ':=', ':='])
            if op == '=' and any(t == 'name' and (s in g.ints or s in ('i', 'j', 'k')) for t, s in e): op = ':='   # no definition in terms of itself
            if op == ':=' or all(t != 'op' or s not in ('++', '--') for t, s in e): g.ints.add(v)
            else: op = ':='; g.ints.add(v)
            return [N(v), O(op)] + e
        if k < .9 or not g.touch:
            v = g.r.choice(['t', 'u', 'v']); op = g.r.choice(['=', ':=', ':=', '.='])
            if op == '.=' and v not in g.strs and g.r.random() < .95: op = ':='
            if op == '=': e = [ST(g.clean(g.lit()))]
            elif op == '.=' : e = [ST(g.lit(flags=False))]
            else: e = g.str(2)
            if op != '=' and False: pass
            g.strs.add(v)
            return [N(v), O(op)] + e
        v = g.r.choice(['f', 'g']); g.bools.add(v)
        e = g.bool(2); op = ':=' if any(t == 'name' and s in ('f', 'g') for t, s in e) else g.r.choice(['=', ':='])
        return [N(v), O(op)] + e
    def clean(g, s):
        """text not referring to other strings, for a definition evaluated each time it is used"""
        out = ''
        i = 0
        while i < len(s):
            if s.startswith('${', i):
                j = s.find('}', i)
                if j < 0: return out
                if s[i + 2:j] in ('t', 'u', 'v'): i = j + 1; continue
            out += s[i]; i += 1
        return out
TOUCH = {'pn', 'tr', 'sym', 'seq', 'rep', 'reptest', 'alts', 'rev', 'assign', 'string', 'echo', 'save', 'endproof', 'call', 'merge', 'inc', 'star', 'bad'}

# ---- whole programs ------------------------------------------------------------
OPTS = dict(bells=0, ext=1, rounds=[], lo=0, hi=0, mask='', strs=[], defs=[], mods=[], prove=[], src=[], noread=False, E=False, quiet=0, inter=False,
            one=False, detb=False, filter=False, ms=False, ci=False, sirilic=False, trall=False, tr=[], files=[], lib=[], lead='m', lh='lh', pay='', whole=False)
def tk(ts): return [dict(t=t, s=s) for t, s in ts]

class Prog:
    """a program being written: its tokens and options"""
    def __init__(p, rng, n, mix=None, bells_opt=None, ms=False, ci=False):
        p.r, p.n = rng, n
        p.o = {k: (list(v) if isinstance(v, list) else v) for k, v in OPTS.items()}
        p.ts = []
        p.g = Gen(rng, n, mix); p.g.ms = p.o['ms'] = ms; p.o['ci'] = ci or ms; p.libtext = ''
        p.via = rng.choice(['-e', 'stdin', 'stdin', '-f'])
        p.spoilt = False
        if bells_opt if bells_opt is not None else rng.random() < .3: p.o['bells'] = n
        else: p.line(W('%d bells' % n))
    def line(p, ts):
        z = p.r.random()
        end = NL if z < .9 else ('nl', p.r.choice(['// note', '//', '// a "quote', "// { ( don't"])[p.o['ms']:]) if z < .93 else O(';')
        if p.o['ci']: ts = [(t, ''.join(c.upper() if p.r.random() < .1 else c for c in x) if t == 'name' else x) for t, x in ts]
        p.ts += ts + [end]
    def define(p, name, ts, op='='): p.line([N(name), O(op)] + ts)
    mstext = ''
    ms = ()
    def event(p, op='gsiril'):
        o = dict(p.o); o['src'] = tk(p.ts)
        return E(op, text=text_of(p.ts), via=p.via, defs=[text_of(x) for x in o['defs']], prove=text_of(o['prove']),
                 filetext=[text_of(f['toks']) for f in o['files']], lib=p.libtext, mstext=p.mstext, spoilt=p.spoilt,
                 _o=dict(o, defs=[tk(x) for x in o['defs']], prove=tk(o['prove']), files=[dict(name=f['name'], toks=tk(f['toks'])) for f in o['files']]), _ms=list(p.ms))
    def lexes(p): return lexes(p.ts) and all(lexes(x) for x in p.o['defs']) and lexes(p.o['prove']) and all(lexes(f['toks']) for f in p.o['files'])

BAD = [O(x) for x in ('(', ')', '{', '}', '[', ']', ',', ';', ':', '=', '+', '-', '*', '.', '~', '!', '&', '&&', '||', '==', '<', '>>', ':=', '.=', '?=', '++')] + \
      [N(x) for x in ('if', 'endif', 'else', 'foreach', 'endfor', 'prove', 'break', 'end', 'defined', 'echo', 'save', 'nothing', 'true', 'rounds', 'as', 'rows')] + [I(2), NL, ST('z'), ('tr', '21')]
def spoil(p):
    p.spoilt = True
    for _ in range(p.r.choice([1, 1, 2]) if p.ts else 0):
        i = p.r.randrange(len(p.ts)); k = p.r.randrange(4)
        if k == 0: del p.ts[i]
        elif k == 1: p.ts.insert(i, p.r.choice(BAD))
        elif k == 2: p.ts[i] = p.r.choice(BAD)
        else: j = p.r.randrange(len(p.ts)); p.ts[i], p.ts[j] = p.ts[j], p.ts[i]
        if not p.ts: p.ts = [NL]

def limits(): resource.setrlimit(resource.RLIMIT_STACK, (1 << 29, resource.RLIM_INFINITY)) if resource.getrlimit(resource.RLIMIT_STACK)[1] == resource.RLIM_INFINITY else None
def one(ev):
    a = ev['a']; o = a['_o']
    with tempfile.TemporaryDirectory(prefix='gsiril') as d:
        cmd = [os.path.join(B, 'gsiril')] + (['--sirilic'] if o['sirilic'] else ['--msiril'] if o['ms'] else []) + (['-I'] if o['ci'] and not o['ms'] else [])
        if o['bells']: cmd += ['-b', str(o['bells'])]
        if o['ext'] != 1: cmd += ['-n', str(o['ext'])]
        if o['rounds']: cmd += ['-r', row_text(o['rounds'])]
        if o['lo'] or o['hi']: cmd += ['--length=' + (str(o['lo']) if o['lo'] == o['hi'] else '%s-%s' % (o['lo'] or '', o['hi'] if o['hi'] > 0 else ''))]
        if o['mask']: cmd += ['--row-mask=' + o['mask']]
        for x in o['strs']: cmd += ['-S', x['name'] + '=' + x['val']]
        for x in a['defs']: cmd += ['-D', x]
        for x in o['mods']: cmd += ['-m', x]
        if a['prove']: cmd += ['-P'] if a['prove'] == '__first__' else ['-P' + a['prove']]
        for f, x in (('E', '-E'), ('inter', '-i'), ('one', '--prove-one'), ('detb', '--determine-bells'), ('trall', '--trace-all-symbols'), ('noread', '-N'),
                     ('filter', '--filter'), ('whole', '--lead-includes-lh')):
            if o[f]: cmd.append(x)
        cmd += ['-q'] * o['quiet']
        for x in o['tr']: cmd += ['--trace-symbol=' + x]
        if o['filter']:
            cmd += ['--lead-symbol=' + o['lead'], '--lh-symbol=' + o['lh']] + (['--payload-symbol=' + o['pay']] if o['pay'] else [])
        if a['lib']:
            with open(os.path.join(d, 'lib.txt'), 'w') as f: f.write(a['lib'])
            cmd += ['-L', './lib.txt']
        for f, t in zip(o['files'], a['filetext']):
            with open(os.path.join(d, f['name'] + f.get('sfx', '')), 'w') as h: h.write(t + '\n')
        inp = a['mstext']
        if o['noread']: pass
        # (an argument of -e that begins with `-' would be taken for an option)
        elif a['via'] == '-e' and a['text'][:1] != '-': cmd += ['-e', a['text']]
        elif a['via'] == '-e': inp = a['text'] + '\n'
        elif a['via'] == '-f':
            with open(os.path.join(d, 'prog'), 'w') as f: f.write(a['text'] + '\n')
            cmd += ['-f', 'prog']
        else: inp = a['text'] + '\n'
        cmd += ['--node-limit=%d' % (3001 if a['spoilt'] else a.get('limit', 2000001))]
        try:
            p = runp(cmd, input=inp, text=True, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, preexec_fn=limits,
                               env={k: v for k, v in dict(os.environ, TERM='dumb').items() if k not in ('METHOD_LIBRARY', 'GSIRIL_LIBRARY_PATH')}, encoding='latin-1')
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired: rc, out, err = -1, '', 'timeout'
    lines = out.split('\n')
    if o['inter']: lines = [x for x in lines if not x.startswith(('> ', 'Ringing Class Library', 'GSiril is licensed'))] or ['']
    op = 'limit' if a['spoilt'] and rc == 2 and 'Node count exceeded' in err else ev['op']
    ok = rc in (0, 1, 2, 3)
    return dict(op=op, a=a, ok=ok, v=dict(rc=rc, l=lines[:-1], c=lines[-1]) if ok else dict(rc=rc), _err=err[:200])
def strip(e): return {k: v for k, v in e.items() if k != '_err'}
def run_siril(sessions):
    with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(lambda s: [strip(one(dict(e, op='gsiril' if e['op'] == 'limit' and e['a']['spoilt'] else e['op']))) for e in s], sessions))

# ---- statements ---------------------------------------------------------------
LIBNAMES = ['Alpha', 'Beta', 'Gamma', 'Delta', 'Omega']
def statements(p, k, w, d=0):
    """k statements of the kinds weighted by w"""
    g, rng = p.g, p.r
    ks = [x for x in w if not (d >= 2 and x in ('if', 'foreach'))]
    mark = 0
    for _ in range(k):
        if p.o['ms'] and d == 0 and not in_ms(p.ts[mark:]): del p.ts[mark:]     # this cannot be written in MicroSIRIL
        mark = len(p.ts)
        s = rng.choices(ks, [w[x] for x in ks])[0]
        if s == 'deftouch':
            name = rng.choice(['p', 'b', 's', 'q'])
            saved = g.touch.pop(name, None)       # not in terms of itself
            ts, x = g.tch(min(p.budget, 30), rng.choice([1, 2, 2, 3]))
            if any(t == 'name' and v in ('p', 'b', 's', 'q') and v >= name for t, v in ts): ts, x = g.pnlit(4)   # only in terms of earlier letters
            g.touch[name] = max(x, saved or 0)
            p.define(name, ts, '=' if rng.random() < .9 else '?=')
        elif s == 'defpn':
            name = rng.choice(['m', 'h'])
            ts, x = g.pnlit(8)
            if rng.random() < .3 and name == 'm': ts2, y = g.pnlit(1); ts = ts + [O(',')] + ts2; x += y
            g.pns[name] = max(x, g.pns.get(name, 0))
            p.define(name, ts, rng.choice(['=', '=', ':=', '?=']) if len(ts) == 1 else '=')
        elif s == 'defvar':
            ts = g.assign(2)
            if rng.random() < .1 and ts[1] == O('='): ts[1] = O('?=')
            if ts[1] == O('.='): ts[1] = O(':=')
            p.line(ts)
        elif s == 'defarr':
            name = rng.choice(['aa', 'ab'])
            f = rng.choice([lambda: g.int(1), lambda: g.str(1), lambda: g.paren(g.tch(8, 1)[0])])
            saved = g.arrs; g.arrs = {x for x in g.arrs if x < name}
            ts = g.arr(2, f); g.arrs = saved | {name}
            p.define(name, ts)
        elif s == 'hook':
            name = rng.choice(['start', 'finish', 'everyrow', 'rounds', 'true', 'false', 'notround', 'conflict', 'abort', 'tooshort', 'toolong'])
            z = rng.random()
            if z < .3: ts = [ST(rng.choice(['@', '# @', '-- @', '']))] if name == 'everyrow' else [ST(name + ' at # with $')]
            elif z < .5: ts = []
            else: ts = g.str(1, flags=name not in ('true', 'false', 'finish')) if rng.random() < .6 or name in ('everyrow', 'rounds', 'conflict') else g.str(0) + [O(',')] + g.str(0)
            p.define(name, ts)
        elif s == 'everyrow':
            z = rng.random()
            if z < .4: ts = [ST('@')]
            elif z < .6: ts = [O('{')] + g.bool(1) + [O(':'), ST('* @'), O(';'), O(':'), ST('@'), O('}')]
            elif z < .8 and g.ints: v = g.pick(g.ints, 'i'); ts = [O('{')] + g.bool(0) + [O(':'), O('('), N(v), O(':='), N(v), O('+'), I(1), O(')'), O('}')]
            else: ts = [ST('#: @')]
            p.define('everyrow', ts)
        elif s == 'prove':
            ts, x = g.tch(p.budget, rng.choice([1, 2, 3, 4]))
            if rng.random() < .25: ts = rng.choice([[O('(')] + g.assign(1) + [O(')'), O(',')], [ST(g.lit(flags=False)), O(',')]]) + ts
            p.budget = max(4, p.budget - x)
            p.line([N('prove')] + ts)
        elif s == 'loop':
            ts, x = g.pnv(min(6, p.budget // 6), 1)
            if p.n <= 5 and x: p.line([N('prove'), N('repeat'), O('(')] + ts + W(', { rounds : break ; loop_counter >= 12 : break } )')); p.budget = max(4, p.budget - 6 * x)
        elif s == 'echo':
            k2 = rng.random()
            word = 'echo' if k2 < .85 else 'warn' if k2 < .97 else 'error'
            if rng.random() < .1: p.line([N(word)])
            else: p.line([N(word)] + g.str(2, esc=False))
        elif s == 'calc':
            e = g.int(3)
            p.line([N('echo'), O('(')] + e + [O(')')] if rng.random() < .8 else [N('echo')] + e)
        elif s == 'test':
            p.line([N('if')] + g.bool(3)); p.line([N('echo'), ST('yes')]); p.line(W('else')); p.line([N('echo'), ST('no')]); p.line(W('endif'))
        elif s == 'if':
            p.line([N('if')] + g.bool(2)); statements(p, rng.randint(0, 2), w, d + 1)
            while rng.random() < .3: p.line([N('elseif')] + g.bool(2)); statements(p, rng.randint(0, 2), w, d + 1)
            if rng.random() < .4: p.line(W('else')); statements(p, rng.randint(0, 2), w, d + 1)
            p.line(W('endif'))
        elif s == 'foreach':
            v = rng.choice(['x', 'y', 'i', 't'])
            touchy = rng.random() < .4
            if touchy: x0 = max(1, min(6, p.budget // 6)); f = lambda: g.paren(g.tch(x0, 1)[0])
            elif v == 'i' or (v != 't' and rng.random() < .5): f = lambda: g.int(0)
            else: f = lambda: g.str(0)
            if touchy and v in ('i', 't'): v = 'x'
            # elements are not worked out until used: they refer to none of the loops' own variables
            while True:
                arr = g.arr(1, f)
                if not any((t == 'name' and s_ in ('x', 'y', 'i', 't')) or (t == 'str' and any('${%s}' % q in s_ for q in 'xyit')) or (t == 'name' and s_ in ('aa', 'ab')) for t, s_ in arr): break
            p.line([N('foreach')] + arr + [N('as'), N(v)])
            if touchy:
                g.touch[v] = x0
                if rng.random() < .8: p.line([N('prove')] + rng.choice([[N(v)], [I(2), N(v)], [N(v), O(','), N(v)]])); p.budget = max(4, p.budget - 2 * x0 * 3)
            else:
                if v == 'i': g.ints.add('i')
                elif v == 't': g.strs.add('t')
                p.line([N('echo'), ST('${%s};' % v)] if rng.random() < .6 else [N('echo'), N(v)])
            statements(p, rng.randint(0, 2), dict(w, prove=0, loop=0), d + 1)
            p.line(W('endfor'))
            if touchy: g.touch.pop(v, None)
        elif s == 'extents': p.line(W('%d extents' % rng.choice([0, 1, 2, 2, 3])))
        elif s == 'rounds': p.line([N('rounds'), ('tr', row_text(rrow(rng, p.n if rng.random() < .8 else rng.randint(1, p.n + 1))))])
        elif s == 'rows':
            a = rng.choice([4, 10, 24, rng.randint(1, 40)]); b = a + rng.randint(0, 20)
            p.line(rng.choice([W('%d rows' % a), W('%d to %d rows' % (a, b)), W('0 to %d rows' % b), W('%d to 0 rows' % a), W('0 rows')]))
        elif s == 'mask': p.line([N('row_mask')] + g.pattern())
        elif s == 'music': g.scored = True; p.line([N('music')] + [t for i in range(rng.randint(0, 3)) for t in ([O(',')] if i else []) + (g.pattern() if rng.random() < .7 else W(rng.choice(['runs ( )', 'runs ( 3 )', 'frontruns ( )', 'backruns ( 3 )', 'crus ( )'])) if p.n >= 4 else g.pattern())])
        elif s == 'bells': p.line(W('%d bells' % p.n))
        elif s == 'grow':
            if d == 0 and p.n < 8 and not g.scored:    # music is scored on as many bells as when it was defined
                p.n += 1; g.n = p.n; p.line(W('%d bells' % p.n))
                if g.r.random() < .5: g.pns.clear(); g.touch.clear()
        elif s == 'import':
            if p.o['files'] and d == 0: p.line([N('import'), (rng.choice(['str', 'name']), rng.choice(p.o['files'])['name'])])
        elif s == 'unknown': p.line([N('import'), ST('missing')] if rng.random() < .5 else [N('prove'), N('nothing')])
        elif s == 'end': p.line(W(rng.choice(['end', 'quit', 'exit'])))
        elif s == 'comment': p.ts += [NL]
        else: raise CheckError(s)
    if p.o['ms'] and d == 0 and not in_ms(p.ts[mark:]): del p.ts[mark:]

BASE = dict(deftouch=3, defpn=2, defvar=2, defarr=.5, hook=1, everyrow=.6, prove=4, loop=1, echo=1.5, calc=.6, test=.5, foreach=.6, extents=.2, rounds=.15, rows=.3, mask=.2, music=.4,
            bells=.03, grow=.02, unknown=.04, end=.02)
BASE['if'] = .8
def library(rng, n, k):
    """methods, and the text of a library of them"""
    ms = [dict(name=nm, chs=rpal(rng, n)) for nm in rng.sample(LIBNAMES, k)]
    for m in ms: m['cl'] = rng.choice(CLASSES)
    t = '* S%d\n' % n + ''.join('%s z +%s\n' % (m['name'], pntext(m['chs'])) for m in ms)
    return [dict(name=m['name'], chs=m['chs']) for m in ms], ms, t
def pntext(q):
    out = ''
    for c in q:
        t = pn(c)
        if out and out[-1] not in 'xX-' and t not in 'xX-': out += '.'
        out += t
    return out
CLASSES = ['', 'Bob', 'Place', 'Slow Course', 'Treble Bob', 'Surprise', 'Delight', 'Treble Place', 'Alliance', 'Hybrid', 'Little Place', 'Little Treble Place', 'Differential', 'Differential Bob']
STAGES = {3: 'Singles', 4: 'Minimus', 5: 'Doubles', 6: 'Minor', 7: 'Triples', 8: 'Major', 9: 'Caters'}
def rpal(rng, n):
    """a symmetrical lead, often with a treble that hunts"""
    if rng.random() < .3: return [rchange(rng, n) for _ in range(rng.randint(2, 8))]
    m = (n if rng.random() < .7 else rng.randint(2, n)) if n > 2 else n
    half = []
    for i in range(1, m):                 # the treble from i to i + 1
        while True:
            c = rchange(rng, n)
            if i in c['s']: half.append(c); break
    def still(k):
        while True:
            c = rchange(rng, n)
            if k not in c['s'] and k - 1 not in c['s']: return c
    return half + [still(m)] + half[::-1] + [still(1)]
def program(rng, w=None, mix=None, opts=1.0, budget=90, nmax=8, ms=False, ci=False, libs=None):
    n = rng.choice([3, 4, 4, 5, 5, 5, 6, 6, 6, 7, rng.randint(3, nmax)])
    p = Prog(rng, n, mix, ms=ms, ci=ci); p.budget = budget
    ww = dict(BASE); ww.update(w or {})
    o = p.o
    if ms: o['prove'] = [N('__first__')]; opts = 0; p.via = rng.choice(['stdin', '-f'])
    if rng.random() < .1 * opts: o['ext'] = rng.choice([1, 2, 3])
    if rng.random() < .1 * opts and o['bells']: o['rounds'] = rrow(rng, n)
    if rng.random() < .1 * opts: o['lo'], o['hi'] = rng.choice([(10, 10), (0, 20), (12, -1), (5, 40)])
    if rng.random() < .05 * opts and o['bells']: o['mask'] = p.g.pattern()[0][1] if False else rng.choice(['*', '1*', '?*', '*%s' % bt(n), '%s' % ('?' * n)])
    if rng.random() < .1 * opts: o['E'] = True
    if rng.random() < .15 * opts: o['quiet'] = rng.choice([1, 1, 2])
    if rng.random() < .12 * opts: o['prove'] = [N('__first__')]
    elif rng.random() < .08 * opts and not ci: o['prove'] = p.g.tch(10, 1)[0]
    if rng.random() < .06 * opts: o['one'] = True
    if rng.random() < .03 * opts: o['detb'] = True
    if rng.random() < .03 * opts: o['trall'] = True
    elif rng.random() < .05 * opts: o['tr'] = rng.sample(['p', 'b', 'm', 'start', 'true', 'everyrow', 'rounds'], rng.randint(1, 2))
    if rng.random() < .08 * opts: o['strs'] = [dict(name=rng.choice(['t', 'u']), val=rng.choice(['', 'text', 'a@b', '$', 'x=y', '${t}']))]; p.g.strs.add(o['strs'][0]['name'])
    if rng.random() < .08 * opts:
        o['defs'] = [[N('i'), O(rng.choice(['=', ':=', '?=']))] + [I(rng.randint(0, 20))]]; p.g.ints.add('i')
        if rng.random() < .15: o['defs'].append(rng.choice([W('i'), W('i = 1') + [O(';')] + W('j = 2'), W('echo'), W('i = ( 1')]))
    if rng.random() < .15 * opts:
        for name in rng.sample(['inc', 'more'], rng.randint(1, 2)):
            q = Prog(rng, n, mix, bells_opt=True); q.g = p.g; q.budget = 10
            statements(q, rng.randint(0, 3), dict(ww, loop=0, grow=0, **{'import': 0}))
            if rng.random() < .1: q.line(W('end')); q.line(W('bogus'))
            if rng.random() < .1: q.line(W('bogus'))
            o['files'].append(dict(name=name, toks=q.ts, sfx=rng.choice(['', '', '.gsir', '.sir'])))
        if o['bells'] and rng.random() < .4: o['mods'] = [rng.choice(['inc', 'more', o['files'][0]['name']])]
        ww['import'] = 1
    if rng.random() < (libs if libs is not None else .1 * opts):
        o['lib'], p.g.lib, p.libtext = library(rng, n, rng.randint(1, 3))
        p.g.n_lib = n
        if rng.random() < .75:
            p.define('method_suffixes', [ST(':'.join(rng.sample([(c + ' ' if c else '') + STAGES[n] for c in CLASSES], rng.randint(6, len(CLASSES)))))])
            for m in p.g.lib: m['cl'] = rng.choice([None, None, m['cl']])
    statements(p, rng.randint(2, 9), ww)
    if rng.random() < .12 * opts and max(len(x) for x in text_of(p.ts).split('\n')) < 70 and not o['lib'] and not any((t == 'str' and s.endswith('\\')) or s in ('.', '.=', 'end', 'quit', 'exit') for x in [p.ts] + [f['toks'] for f in o['files']] for t, s in x): o['inter'] = True; p.via = 'stdin'; o['one'] = False; o['prove'] = []
    return p

def filter_program(rng, w=None, mix=None):
    """gsiril --filter: a program run for each of some methods"""
    n = rng.choice([4, 5, 6, 6, 7, 8])
    p = Prog(rng, n, mix, bells_opt=True); p.budget = 60; p.via = rng.choice(['-e', '-f'])
    o, g = p.o, p.g
    o['filter'] = True
    o['lead'], o['lh'] = rng.choice([('m', 'lh'), ('m', 'lh'), ('lead', 'h'), ('', 'lh')]); o['whole'] = rng.random() < .2
    o['pay'] = rng.choice(['', '', 'pay', 'name'])
    k = 8 if n > 5 else 6
    if o['lead']: g.pns[o['lead']] = k + 2
    g.pns[o['lh']] = 1
    if o['pay']: g.strs.add(o['pay'])
    ms = []
    for _ in range(rng.randint(1, 4)):
        q = rpal(rng, n)[:k]
        ms.append(dict(chs=q, pay=rng.choice(['', 'Alpha', 'Plain Bob', 'x\ty']) , haspay=bool(o['pay']) or rng.random() < .5))
        if not ms[-1]['haspay']: ms[-1]['pay'] = ''
    p.ms = ms; p.mstext = ''.join('+' + pntext(m['chs']) + ('\t' + m['pay'] if m['haspay'] else '') + '\n' for m in ms)
    ww = dict(BASE); ww.update(w or {}); ww.update(bells=0, grow=0, unknown=.02, end=0, prove=0, loop=0, deftouch=1)
    if rng.random() < .5: o['quiet'] = 2
    statements(p, rng.randint(0, 3), ww)
    if o['lead'] and rng.random() < .8:
        body = [N(o['lead'])] + ([O(','), N(o['lh'])] if not o['whole'] else [])
        if rng.random() < .6: p.line([N('prove'), N('repeat'), O('(')] + body + W(', { rounds : break ; loop_counter >= 7 : break } )'))
        else: p.line([N('prove')] + body)
    else: statements(p, 2, dict(prove=1))
    if rng.random() < .3 and o['pay']: statements(p, 1, dict(defvar=1))
    return p

def make(rng, w=None, mix=None, spoilt=.1, filt=.05, ms=.05, ci=.05, **kw):
    """one random run"""
    while True:
        z = rng.random()
        p = filter_program(rng, w, mix) if z < filt else program(rng, w, mix, ms=z < filt + ms, ci=z < filt + ms + ci, **kw)
        if not p.o['filter'] and not p.o['ms'] and rng.random() < spoilt: spoil(p)
        if p.lexes() and not (p.o['inter'] and max(map(len, text_of(p.ts).split('\n'))) >= 70): return p.event()

def scopes(rng, k, n=3):
    """loops within loops, in the places that carry a scope of their own"""
    out = []
    show = lambda w: [ST(w + '${loop_counter}')]
    P = [[('pn', '+3')], [('pn', '+1')], [('pn', '+3.1')], []]
    def body(d):
        parts = [show(rng.choice('abc'))]
        if d > 0:
            x = loop(d - 1)
            z = rng.random()
            if z < .25: x = [N('endproof'), O(',')] + x if rng.random() < .5 else x
            elif z < .45: x = [O('{')] + rng.choice([W('true'), W('rounds'), W('loop_counter >= 1'), W('loop_counter == 0')]) + [O(':')] + x + ([O(';')] + loop(0) if rng.random() < .4 else []) + [O('}')]
            elif z < .55: x = [N(rng.choice(['q', 's']))]
            elif z < .65: x = [O('('), N('loop_counter'), O(':='), I(rng.randint(0, 9)), O(')'), O(',')] + x
            elif z < .72: x = [N('save'), N('loop_counter'), O(',')] + x
            elif z < .78: x = [O('~'), O('('), O('(')] + [('pn', '+3.1')] + [O(')'), O(')'), O(',')] + x
            parts.append(x); parts.append(show(rng.choice('def')))
        z = rng.random()
        if z < .12: parts.append([N('endproof')])
        elif z < .2: parts.append([N('break')])
        elif z < .3: parts.append([O('{')] + W('loop_counter >= 1') + [O(':'), N('break'), O('}')])
        elif z < .36: parts.append([N('save'), N('loop_counter')])
        elif z < .42: parts.append([O('('), N('loop_counter'), O(':='), I(rng.randint(0, 9)), O(')')])
        x = rng.choice(P)
        if x: parts.insert(rng.randint(0, len(parts)), x)
        t = []
        for i, y in enumerate(parts): t += ([O(',')] if i else []) + y
        return t
    def loop(d):
        b = [O('(')] + body(d) + [O(')')]
        z = rng.random()
        if z < .2: return [N('repeat'), O('(')] + b + W(', { loop_counter >= %d : break } )' % rng.randint(1, 2))
        if z < .35: return b + [O('*'), I(rng.randint(1, 2))]
        if z < .42: return [O('('), I(1), O('+'), I(1), O(')'), O('*')] + b
        return [I(rng.randint(1, 3))] + b
    for _ in range(k):
        ls = [W('9 extents')]
        if rng.random() < .4: ls.append(rng.choice([W('loop_counter := 7'), W('loop_counter = 5'), [N('loop_counter'), O('='), ST('x')]]))
        if rng.random() < .3: ls.append([N('everyrow'), O('='), ST(rng.choice(['@', '${loop_counter}', '@ #']))])
        if rng.random() < .3: ls.append([N(rng.choice(['finish', 'true', 'notround', 'start'])), O('='), ST('h${loop_counter}')])
        ls.append([N('q'), O('=')] + loop(0)); ls.append([N('s'), O('=')] + show('s'))
        for _ in range(rng.randint(1, 2)): ls.append([N('prove')] + loop(rng.randint(1, 3)) + ([O(',')] + show('z') if rng.random() < .5 else []))
        ls.append([N('echo'), ST('${loop_counter}')])
        e = fixed(rng, n, ls, via=rng.choice(['-e', '-f', 'stdin']))
        e['a']['spoilt'] = True               # some may be endless
        out.append(e)
    return out
def fixed(rng, n, lines, via='-f', **opts):
    """a program given by its token lists"""
    p = Prog(rng, n, bells_opt=False); p.ts = W('%d bells' % n) + [NL]; p.via = via
    for x in lines: p.ts += x + [NL]
    for k, v in opts.items(): p.o[k] = v
    assert p.lexes(), p.ts
    return p.event()
def check(c, quick, thorough, events=(), models=(), **kw):
    """the models, then as many random programs as asked for, after the given ones"""
    build('gsiril')
    for m in models: c.model(*m)
    evs = list(events) + [make(c.rng, **kw) for _ in range(quick if c.quick else thorough)]
    evs = [e for e in evs if e is not None]
    for i in range(0, len(evs), 20000):
        S = [[e] for e in evs[i:i + 20000]]
        c.traces_ok('Trace_Siril', run_siril(S), run_siril, name='programs%d' % (i // 20000) if i else 'programs')
def siril_model(inv, quick=True, ext=1): return ('MC_Siril', cfg(invariants=inv, constants=dict(DEPTH=2, EXTENTS=ext), deadlock=False))
def ops_model(inv): return ('MC_SirilOps', cfg(invariants=inv, constants=dict(RANGE=12, OPS=3), deadlock=False))
