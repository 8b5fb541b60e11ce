"""methsearch's music scores ($M with -M options) against the specification."""
from props.meths import *
from props import X04, X05
from props.W01 import pat, scored
BLOCKS = ['course', 'lead', 'halflead', '2halflead', 'rhalflead', '2rhalflead']
def text(r): return ''.join(map(bt, r))
def row_toks(rng, small):
    """a row expression, of a few rows"""
    def lit():
        r = list(range(1, small + 1)) if rng.random() < .2 else rrow(rng, rng.choice([small, small, rng.randint(2, small)]))
        if rng.random() < .4: r.remove(1); r.insert(0, 1)
        t = text(r)
        return [t[1:] if t[0] == '1' and len(t) > 1 and rng.random() < .3 else t]
    k = rng.random()
    if k < .5: return lit()
    if k < .6: return lit() + [rng.choice('*/\\')] + lit()
    if k < .65: return ['('] + lit() + [')', '^', '+', str(rng.randint(0, 4))]
    if k < .7 and small <= 6:
        r = list(range(1, small + 1)); i, j = rng.sample(range(1, small), 2); r[i], r[j] = r[j], r[i]
        return ['<', text(r), '>']
    out = ['{']
    for i in range(rng.choice([2, 2, 3])): out += ([','] if i else []) + lit()
    return out + ['}'] + (['*'] + lit() if rng.random() < .2 else [])
def pattern(rng, small, big, ms):
    if small != big:
        r = rng.random()
        t = rng.choice(['*', '*2', '1*', '*21*', '<CRUs>', '<rounds>', '<queens>', '<3-runs>', '<front-3-runs>', '*1?', '[12]*', '*[13]'])
        return t if r < .5 else rng.choice(['', '-', '+']) + '%d' % rng.randint(0, 9) + rng.choice(['', ',%d' % rng.randint(0, 9)]) + ':' + t
    n, m = rng.choice(ms); r = list(range(1, n + 1))
    for c in (m * 3)[:rng.randrange(2 * len(m) + 1)]: r = swap(r, n, c)
    return scored(rng, n, r)
def swap(r, n, c):
    r, i = list(r), 1
    while i < n:
        if i in c or i + 1 in c: i += 1
        else: r[i - 1], r[i] = r[i], r[i - 1]; i += 2
    return r
def options(rng, small, big, ms):
    """-M options and their descriptions"""
    odd = any(len(m) % 2 for k, m in ms); out, desc, named = [], [], 0
    types = BLOCKS[:2] if odd else BLOCKS
    for _ in range(rng.choice([1, 1, 2, 3, 4, 5])):
        if rng.random() < .45:
            t, toks = rng.choice(types), []
            if rng.random() < .65: toks = row_toks(rng, small)
            if len(toks) > 1 and t == 'course' and rng.random() < .5: t = 'lead' 
            out.append(t + ('=' + ''.join(toks) if toks else '')); desc.append(dict(type=t, t='', toks=toks, given=bool(toks)))
        else:
            while 1:
                t = pattern(rng, small, big, ms)
                if '=' in t or not t or len(t) == 2 and ':' in t: continue
                if '<' in t:
                    if named == 2: continue
                    named += 1
                break
            out.append(t); desc.append(dict(type='', t=t, toks=[], given=False))
    return out, desc
class GM(X05.G):
    NUMS = 'MMMMLbB'
def sessions(seed):
    rng = random.Random(seed)
    while 1:
        o, ms, others = mat = X05.material(rng)
        ns = [k for k, m in ms + others]
        if min(ns) >= 3 and (max(ns) <= 8 or rng.random() < .2): break
    return [session(rng, mat) for _ in range(4)]
def session(rng, mat):
    o, args, lines, ms, mixed = X05.listing(rng, mat, accept=.85)
    k = rng.choice([2, 4, 6]); lines, ms = lines[:k], ms[:k]
    small, big = min(k for k, m in ms), max(k for k, m in ms)
    opts, desc = options(rng, small, big, ms)
    if rng.random() < .05: opts, desc = [], []
    L = lead_len(o) if o['U'] or o['n'] else 0
    g = GM(rng, small, big, L, max(len(m) for k, m in ms), False, ''); g.inv = False
    V = lambda s, n=0: X05.seg('var', s, n)
    extra = [rng.choice(['-M', '--music=']) + x for x in opts]
    f = dict(segs=[V('M', rng.choice([0, 0, 3])), X05.seg('lit', ' ')] + ([V('#')] if rng.random() < .3 else []) + ([X05.seg('ex', toks=g.num(2))] if rng.random() < .3 else []), nl=True)
    fmt = [] if rng.random() < .1 else [f]; hist, qs, rest = [], [], []
    if fmt: rest.append('-R' + g.write_format(f))
    if not fmt or rng.random() < .25:
        qs.append(g.paren([X05.tok('var', 'M'), g.op(rng.choice(['>', '<', '>=', '!=', '%']))] + [X05.tok('int', '', rng.choice([0, 1, 2, 3, 5, 12]))])); rest.append('-Q' + g.write(qs[0]))
    if rng.random() < .2:
        h = dict(segs=[V('M'), X05.seg('lit', ': '), V('c')], nl=True); hist = [h]; rest.append('-H' + g.write_format(h))
    tally, limit = rng.choice(['', '', 'count']), rng.choice([0, 0, 0, 2])
    if tally: rest.append('-C')
    if limit: rest.append('--limit=%d' % limit)
    i = rng.randint(0, len(args))
    return E('format', args=args[:i] + extra + args[i:] + rest + ['-I'], lines=lines, _o=o, _inv=False,
             _w=dict(qs=qs, fmt=fmt, hist=hist, quiet=False, tally=tally, limit=limit, fl=112, pn=False, mus=desc))
def run(c):
    build('methsearch')
    for n, lens in [(3, '{2, 4}'), (4, '{2}' if c.quick else '{2, 4}')]:
        c.model('MC_MethMusic', cfg(invariants=['Scores'], constants=dict(N=n, LENS=lens), deadlock=False), note='scores of courses, leads and halves, %d bells' % n)
    S, drop, out = X05.collect(c, 400 if c.quick else 5000, sessions)
    print('%d runs, %d lines of output; %d refused' % (len(S), out, drop))
    c.traces_ok('Trace_MethFormat', S, X05.run_format, name='music')
