"""methsearch's output: formats, fields, expressions, requirements, statistics and counts, against the specification."""
from props.meths import *
from props import X04
PLAIN = ' abcXYZ019.,:;-+*/=<>!?#@&|^_`~{}"\'[(){]'
ODD = ['\t', '\n', '$', '%', '\\', '\x07', '\x08', '\x0c', '\x0b', '\x01', '\x1b', ')']
ESC = {'\x07': 'a', '\x08': 'b', '\x0c': 'f', '\n': 'n', '\t': 't', '\x0b': 'v'}
PAY = ['', '', ' foo', '\tBourne Surprise', ' two  words', ' 42', ' -7', ' x.14', ' A']
def lit(rng):
    return ''.join(rng.choice(PLAIN) if rng.random() < .85 else rng.choice(ODD) for _ in range(rng.randint(1, 4)))
def write_lit(rng, s):
    out = ''
    for c in s:
        r = rng.random()
        if c == '$': out += rng.choice(['$$', '\\$', '%$', '\\x24'])
        elif c == '%': out += rng.choice(['%%', '$%', '\\%', '\\x25']) if 1 else ''
        elif c == '\\': out += rng.choice(['\\\\', '\\x5C', '\\x5c'])
        elif c == ')' and r < .2: out += '$)'
        elif c in ESC and (r < .7 or c not in '\n\t'): out += '\\' + ESC[c]
        elif ord(c) < 32 and c not in '\n\t' or r < .05: out += ('\\x%02x' if rng.random() < .5 else '\\x%02X') % ord(c)
        elif r < .1 and c not in 'abfnrtvx': out += '\\' + c
        else: out += c
    return out
def seg(k, s='', n=0, n2=0, toks=()): return dict(k=k, s=s, n=n, n2=n2, toks=list(toks))
def tok(t, s, n=0, n2=0): return dict(t=t, s=s, n=n, n2=n2)

class G:
    """formats and expressions for methods of at least `small` bells, leads of `length` changes (or of any up to `longest`)"""
    def __init__(g, rng, small, big, length, longest, falsity, avoid):
        g.r, g.small, g.big, g.length, g.longest, g.falsity, g.avoid = rng, small, big, length, longest, falsity, avoid
        g.start = 1
    def off(g, lo=1): return g.r.randint(lo, g.length or (g.longest + 1 if g.r.random() < .2 else max(lo, g.longest // 2)))
    def var(g, names):
        """a variable: name and numbers"""
        v = g.r.choice([x for x in names if x not in g.avoid])
        if v == 'h': return v, g.off(), 0
        if v == 'r': return v, g.off(0), 0
        if v == 'P': return v, g.r.randint(1, g.small), 0
        if v in 'pq' and g.r.random() < .6:
            a = g.start if g.r.random() < .5 else g.off()
            g.start = a
            return v, a, g.r.choice([0, g.r.randint(a, max(a, g.length or g.longest)), g.r.randint(a, max(a, g.length or g.longest))])
        if v in 'LbouBGsM#c' and g.r.random() < .3: return v, g.r.randint(1, 6), 0
        return v, 0, 0
    NUMS, TEXTS = 'LbouBGs', 'pqQhrlLdDyCSPOVUaBu'
    def vtok(g, names):
        v, n, n2 = g.var(names)
        if v in 'LbouBGsM#': n = n2 = 0
        return tok('var', v, n, n2)
    def op(g, s): return tok('op', s)
    def paren(g, q, always=False):
        return [g.op('(')] + q + [g.op(')')] if always or g.r.random() < .25 else q
    def num(g, d):
        r = g.r.random()
        if d <= 0 or r < .35:
            r = g.r.random()
            if r < .45: return [tok('int', '', g.r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 42]))]
            if r < .9: return [g.vtok(g.NUMS + ('#' if g.count else ''))]
            if r < .94: return [tok('str', g.r.choice(['7', '-5', '+3', '012', '']))]
            if r < .97: return [g.vtok('dCyDa')]
            return [tok('str', g.r.choice(['foo', '1x', '-', '--1', '12a']))]
        if r < .8:
            o = g.r.choice('++--**/%'); mul = g.num(d - 1) if o != '*' else g.num(0)
            return g.paren(g.paren(mul, False) + [g.op(o)] + g.num(d - 2 if o == '*' else d - 1))
        if r < .9: return g.paren(g.boolean(d - 1), True)
        return g.paren(g.cond(g.num, d - 1), g.r.random() < .9)
    def text(g, d):
        r = g.r.random()
        if d <= 0 or r < .45:
            if g.r.random() < .4: return [tok('str', g.r.choice(['', 'foo', 'a', 'b', 'z', 'mx', 'Bob', 'Treble Bob', 'Surprise', 'Delight', 'P', 'PM', 'PMGR', 'G', 'A', '12', '16', 'X', '2', '10', 'Minor', 'Major', '(', 'x)', '[b]', ']', "it's" if g.r.random() < .3 else 'Doubles']))]
            return [g.vtok(g.TEXTS)]
        if r < .75: return g.paren(g.text(d - 1) + [g.op('.')] + g.text(d - 1))
        if r < .85: return g.paren(g.num(d - 1), True)
        return g.paren(g.cond(g.text, d - 1), True)
    def boolean(g, d):
        r = g.r.random()
        if d <= 0 or r < .3: return g.paren(g.num(d - 1) + [g.op(g.r.choice(['<', '>', '<=', '>=', '==', '!=']))] + g.num(d - 1))
        if r < .5: return g.paren(g.text(d - 1) + [g.op(g.r.choice(['eq', 'ne', 'lt', 'gt', 'le', 'ge']))] + g.text(d - 1))
        if r < .6: return g.paren(g.match())
        if r < .9: return g.paren(g.boolean(d - 1) + [g.op(g.r.choice(['&&', '||']))] + g.boolean(d - 1))
        if r < .95: return g.num(d - 1)
        return g.paren(g.num(d - 1) + [g.op(g.r.choice(['<', '==']))] + g.paren(g.boolean(d - 1), True) + [g.op(g.r.choice(['==', '!=']))] + g.num(0))
    def match(g):
        n = g.small; row = rrow(g.r, n)
        b = [bt(x) for x in range(1, n + 1)]
        k = g.r.random()
        if k < .4: pat = g.r.choice(['*', '']) + ''.join(g.r.sample(b, g.r.choice([1, 1, 2, 3]))) + '*'
        elif k < .6: pat = '1' + '?' * (n - 2) + g.r.choice(b[1:])
        elif k < .8: pat = ''.join(g.r.choice(['?', '?', x]) for x in map(bt, row))
        else: pat = '[' + ''.join(g.r.sample(b, 3)) + ']*'
        if g.small != g.big: pat = g.r.choice(['1*', '*2*', '12*', '13*', '*21*'])
        lhs = g.vtok('lr') if g.r.random() < .9 or g.small != g.big else tok('str', ''.join(map(bt, row)))
        if g.r.random() < .05: lhs = tok('str', g.r.choice(['1123', 'foo']))
        return [lhs, g.op('~~'), tok('str', pat)]
    def cond(g, f, d): return g.boolean(d - 1) + [g.op('?')] + g.flat(f(d - 1)) + [g.op(':')] + f(d - 1)
    def flat(g, q):
        """nothing with a ? or : that is not in parentheses"""
        depth = 0
        for t in q:
            if t['t'] == 'op' and t['s'] == '(': depth += 1
            if t['t'] == 'op' and t['s'] == ')': depth -= 1
            if depth == 0 and t['t'] == 'op' and t['s'] in '?:,': return [g.op('(')] + q + [g.op(')')]
        return q
    def ending(g, kw, text=None):
        """an expression that now and then ends the evaluation"""
        text = text or g.text; b, k = g.boolean(2), tok('kw', kw)
        r = g.r.random()
        if r < .3: e = g.paren(b, True) + [g.op('&&'), k]
        elif r < .5: e = g.paren(b, True) + [g.op('||'), k]
        elif r < .75: e = b + [g.op('?'), k, g.op(':')] + text(0)
        else: e = b + [g.op('?')] + text(0) + [g.op(':'), k]
        if g.r.random() < .4: e = g.paren(e, True) + [g.op(',')] + text(1)
        return e
    def expr(g, d):
        r = g.r.random()
        e = g.num(d) if r < .35 else g.text(d) if r < .7 else g.boolean(d) if r < .85 else g.cond(g.text, d)
        if g.r.random() < .07: e = g.flat(g.num(1)) + [g.op(',')] + e
        return e
    def write(g, toks):
        out = ''
        for i, t in enumerate(toks):
            if t['t'] == 'int': s = '0' * (g.r.random() < .05) + str(t['n'])
            elif t['t'] == 'str':
                q = g.r.choice('"\'')
                if q in t['s']: q = '"'
                s = q + t['s'] + q
            elif t['t'] == 'var': s = '$' + number(t) + t['s']
            else: s = t['s']
            word = s[0].isalnum() or s[0] == '.'
            if out and (out[-1].isalnum() or out[-1] == '.') and word or g.r.random() < .6 or t['t'] == 'op' and s.isalpha() or i and toks[i - 1]['t'] == 'op' and toks[i - 1]['s'].isalpha(): out += ' '
            out += s
        return out + ' ' * (g.r.random() < .2)
    count = False
    def format(g, hist):
        segs, last = [], None
        if not hist and g.r.random() < .15:       # the same thing of different ranges
            for _ in range(g.r.randint(2, 4)):
                v = g.r.choice('pqpqph')
                if v == 'h': segs.append(seg('var', 'h', g.off()))
                else: segs.append(seg('var', *g.var(v)))
                if g.r.random() < .7: segs.append(seg('lit', ' '))
            return dict(segs=segs, nl=True)
        for _ in range(g.r.randint(1, 5)):
            r = g.r.random()
            if r < .25 or last not in ('lit', None) and hist:
                if last != 'lit': segs.append(seg('lit', lit(g.r))); last = 'lit'
            elif r < .75:
                names = 'LbouBGsdDyCSlrhPOVUaM' + ('c' if hist else 'ppqqQ##') + ('F' * 6 if g.falsity else '')
                v, n, n2 = g.var(names); segs.append(seg('var', v, n, n2)); last = 'var'
            else: segs.append(seg('ex', toks=g.expr(g.r.choice([1, 2, 2, 3])))); last = 'ex'
        if not hist and g.r.random() < .12: segs.insert(g.r.randint(0, len(segs)), seg('ex', toks=g.ending('suppress')))
        if not hist and not g.inv and g.r.random() < .05: segs.insert(g.r.randint(0, len(segs)), seg('ex', toks=g.ending('abort')))
        return dict(segs=segs, nl=g.r.random() < .9)
    def write_format(g, f):
        out = ''
        for s in f['segs']:
            if s['k'] == 'lit': out += write_lit(g.r, s['s'])
            elif s['k'] == 'var': out += ('$' if g.r.random() < .9 else '%') + number(s) + s['s']
            else: out += '$[' + g.write(s['toks']) + ']'
        return out + ('' if f['nl'] else '\\')
def number(t):
    if t['s'] in 'hrP' or t['n']: return str(t['n']) + (',%d' % t['n2'] if t['n2'] else '')
    return ''
STYLES = [(['dots', '.'], 1, 0), (['external', 'ext'], 2, 0), (['lower-case', 'lcross', 'x'], 8, 0), (['upper-case', 'ucross', 'X'], 4, 0),
          (['std-symmetry', 'std-sym'], 32, 96), (['no-symmetry', 'no-sym'], 0, 96), (['plus-prefix', 'plus', '+'], 256, 0)]
def regular_base(rng, *a): return base(rng, n=rng.choice([6, 8, 8, 10]), U=1)
def material(rng, gen=X04.gen):
    """a search, methods like those it finds and now and then methods of another"""
    o = gen(rng); ms = [(o['b'], m) for m in X04.pool(rng, o)]; others = []
    if rng.random() < .4:
        for _ in range(rng.randint(1, 2)):
            o2 = X04.gen(rng); others += [(o2['b'], m) for m in X04.pool(rng, o2)[:5]]
    return o, ms, others
def listing(rng, mat, accept=.65):
    """options, arguments for them and lines"""
    o, ms, others = mat; o = dict(o); ms = list(ms); n = o['b']; mixed = False
    if rng.random() < .5: ms = rng.sample(ms, rng.randint((len(ms) + 1) // 2, len(ms)))
    if rng.random() < accept:
        if others and rng.random() < .5: mixed = True; ms += others
        rng.shuffle(ms)
        o = dict(NONE); o.update(b=0 if mixed else n, back=0 if mixed else n, U=0, A=True, fl=['x'])
        args = ['-U0', '-A', '-Fx'] + ([] if mixed else ['-b%d' % n])
        lens = [len(m) for k, m in ms]
        if rng.random() < .3:
            o['n'] = rng.choice(lens); args.append('-n%d' % o['n'])
        rng.shuffle(args)
    else: args = argv(rng, o)
    o['p'] = min(o['p'], 99)
    text = []
    for k, m in ms[:14]:
        pre = '%d:' % k if mixed else ''
        text.append(pre + X04.dot(rng, k, m) + rng.choice(PAY))
    return o, args, text, ms, mixed
def falsity(rng):
    """searches for which falseness groups are known"""
    o = base(rng, n=rng.choice([6, 6, 8, 8, 8, 10]), U=1); o['sym'] = ['s']; o['lh'] = 'r'; o['front'], o['back'] = 1, o['b']
    o['G'] = rng.choice([0, 0, 1])
    if rng.random() < .5: o['p'] = 2
    if rng.random() < .5: o['f'] = True
    return o
def sessions(seed):
    rng = random.Random(seed); fal = rng.random() < .08
    mat = material(rng, falsity) if fal else material(rng)
    return [session(rng, mat, fal) for _ in range(3)]
def session(rng, mat, fal):
    o, args, text, ms, mixed = listing(rng, mat, 0 if fal else .65)
    if fal: text = text[:5]
    inv = not fal and rng.random() < .1
    L = lead_len(o) if o['U'] or o['n'] else 0
    longest = max(len(m) for k, m in ms)
    g = G(rng, min(k for k, m in ms), max(k for k, m in ms), L, longest, fal, '' if rng.random() < .15 else 'M'); g.inv = inv
    quiet = rng.random() < .15; fl, pn = 112, False; extra = []
    fmt = [] if rng.random() < .1 else None
    if rng.random() < .25:
        ss = [rng.choice(STYLES) for _ in range(rng.randint(1, 2))]; pn = True
        for names, on, off in ss: fl = (fl & ~off) | on
        extra.append('--pn-format=' + ','.join(rng.choice(x[0]) for x in ss))
    if fmt is None:
        g.count = True; f = g.format(False); g.count = False; fmt = [f]
        extra.append(rng.choice(['-R', '--format=']) + g.write_format(f))
    hist = []
    if rng.random() < .3:
        f = g.format(True); hist = [f]; extra.append(rng.choice(['-H', '--frequencies=']) + g.write_format(f))
    qs = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        e = g.ending(rng.choice(['suppress', 'abort']), g.num) if rng.random() < .06 and not inv and o['A'] and not o['U'] else g.boolean(rng.choice([1, 2, 3])) if rng.random() < .9 else g.num(2)
        qs.append(e); extra.append(rng.choice(['-Q', '--require=']) + g.write(e))
    tally = rng.choice(['', '', '', 'count', 'raw'])
    if tally == 'count': extra.append(rng.choice(['-C', '--count']))
    if tally == 'raw': extra.append('--raw-count')
    if quiet: extra.append(rng.choice(['-q', '--quiet']))
    limit = rng.choice([0, 0, 0, 0, 0, 1, 2, 5])
    if limit: extra.append('--limit=%d' % limit)
    if inv: extra.append('--invert-filter')
    if rng.random() < .9: rng.shuffle(extra) if len(qs) < 2 else None
    i = rng.randint(0, len(args))
    a = args[:i] + extra + args[i:] + ['-I']
    return E('format', args=a, lines=text, _o=o, _inv=inv,
             _w=dict(qs=qs, fmt=fmt, hist=hist, quiet=quiet, tally=tally, limit=limit, fl=fl, pn=pn, mus=[]))
def one_format(ev, timeout=60):
    a = ev['a']
    with tempfile.TemporaryDirectory(prefix='meth') as d:
        try:
            p = runp([os.path.join(B, 'methsearch')] + a['args'], input=''.join(x + '\n' for x in a['lines']).encode('latin1'), cwd=d, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout, env=dict(os.environ, TERM='dumb'), preexec_fn=limit)
        except subprocess.TimeoutExpired: return dict(op=ev['op'], a=a, ok=False, v='timeout')
    if p.returncode not in (0, 1): return dict(op=ev['op'], a=a, ok=False, v='crash')
    return dict(op=ev['op'], a=a, ok=True, v=dict(rc=p.returncode, text=p.stdout.decode('latin1'), err=p.stderr.decode('latin1')[:300]))
def run_format(sessions):
    with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(lambda s: [one_format(e) for e in s], sessions))
def collect(c, want, sessions):
    S, drop, out = [], 0, 0; kf = known()
    with ThreadPoolExecutor(NCPU) as ex:
        while len(S) < want:
            def make(seed):
                es = sessions(seed)
                for e in es: e['a']['_o'].update((k, kf[k]) for k in ('kf', 'ky'))
                return [(e, one_format(e)) for e in es]
            for e, r in sum(ex.map(make, [c.rng.random() for _ in range(32)]), []):
                if r['ok'] and r['v']['rc'] == 1: drop += 1; continue
                if r['ok'] and not r['v']['text'] and c.rng.random() < .7: continue
                if len(S) < want:
                    S.append([r])
                    if r['ok']: out += r['v']['text'].count('\n')
    return S, drop, out
def run(c):
    build('methsearch')
    c.model('MC_MethFormat', cfg(invariants=['Lawful'], constants=dict(WIDE='FALSE' if c.quick else 'TRUE'), deadlock=False), note='reading and evaluating every small expression')
    S, drop, out = collect(c, 450 if c.quick else 8000, sessions)
    print('%d runs, %d lines of output; %d refused' % (len(S), out, drop))
    c.traces_ok('Trace_MethFormat', S, run_format, name='formats')
