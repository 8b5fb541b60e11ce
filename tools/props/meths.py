"""Random methsearch searches, and running them."""
import os, subprocess, tempfile, resource
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from props.common import *

def text(r): return ''.join(bt(b) for b in r)
def side(items, sym=False): return dict(sym=sym, items=items)
ANY, STAR = dict(k='any', alts=[]), dict(k='star', alts=[])
def alts(*cs): return dict(k='alts', alts=[list(c) for c in cs])
ALL = dict(a=side([STAR]), b=side([STAR]))
NONE = dict(b=0, U=1, G=0, front=1, back=0, n=0, p=0, l=0, j=0, w=False, f=False, y=False, ll=False, fl=[], N=1, start=[], pends=[], avoid=[],
            chs=[], chinc=True, kf=False, ky=False, mask=[ALL], sym=[], mirror=False, floating=False, P=False, cls='', e=False, E=False, A=False, lh='', hl=[],
            offset=False, points=[], prefix=[])
NONE['from'] = []
CLS = {'S': '-S', 'T': '-T', '3': '--3rds-place-delight', '4': '--4ths-place-delight', 'D': '--delight', 'SD': '--strict-delight', 'EX': '--exercise',
       'SEX': '--strict-exercise', 'PT3': '--pas-alla-tria', 'PT4': '--pas-alla-tessera'}
HL = dict(rh='--rev-cyclic-hlh', re='--rev-cyclic-hle', ch='--cyclic-hlh', ce='--cyclic-hle', reg='--regular-hls')
PTS = {'np': '--no-points', 'hp': '--has-points', 'nu': '--no-unpaired-points', 'hu': '--has-unpaired-points'}
LEVELS = dict(c=['c', 'course'], l=['l', 'lead'], h=['h', 'half-lead'], n=['n', 'none'], x=['x', 'really-none'])

def lead_len(o): return (o['back'] - o['front'] + 1) * 2 * (1 + o['G']) if o['U'] else o['n']

class W:
    """writes options as arguments"""
    def __init__(w, rng, n): w.r, w.n = rng, n
    def change(w, pl, expr=False):
        if not pl: return w.r.choice('xX-')
        return ''.join('{%d}' % b if expr and w.r.random() < .03 else '{N}' if expr and b == w.n and w.r.random() < .1 else '{N-%d}' % (w.n - b) if expr and w.r.random() < .02 else bt(b) for b in pl)
    def item(w, it):
        if it['k'] == 'any': return '?'
        if it['k'] == 'star': return '*'
        if len(it['alts']) == 1: return w.change(it['alts'][0], True)
        return '(' + '|'.join(w.change(c) for c in it['alts']) + ')'
    def join(w, ts):
        out = ''
        for i, t in enumerate(ts):
            if i and not (t[0] in 'xX-' or ts[i - 1][-1] in 'xX-') or i and w.r.random() < .1: out += '.'
            out += t
        return out
    def side(w, s): return ('&' if s['sym'] else '') + w.join([w.item(i) for i in s['items']])
    def mask(w, m): return ','.join(w.side(bl['a']) + ('/' + w.side(bl['b']) if bl['b'] != bl['a'] or w.r.random() < .05 else '') for bl in m)
    def pn(w, chs): return w.join([w.change(c) for c in chs])

def argv(rng, o):
    # a place made throughout the lead is made for ever, but is only counted over two leads
    o['p'] = min(o['p'], 2 * lead_len(o) - 1)
    w, out, n = W(rng, o['b']), [], o['b']
    def opt(s, l, v=None):
        if s and rng.random() < .8: out.append('-' + s + ('' if v is None else str(v)))
        else: out.append('--' + l + ('' if v is None else '=' + str(v)))
    opt('b', 'bells', n)
    if o['U'] == 0: opt('U', 'hunts') if rng.random() < .3 else opt('U', 'hunts', 0)
    elif o['U'] > 1 or rng.random() < .1: opt('U', 'hunts', o['U'])
    if o['G'] or rng.random() < .03 and o['U'] and n % 2 == 0: opt('G', 'treble-dodges', o['G'])
    if o['n']: opt('n', 'changes-per-lead', o['n'])
    if (o['front'], o['back']) != (1, n) and o['U']:
        opt('Z', 'treble-path', ('' if o['front'] == 1 and rng.random() < .5 else bt(o['front'])) + '-' + ('' if o['back'] == n and rng.random() < .5 else bt(o['back'])))
    for k, l, d in (('p', 'blows-per-place', 2), ('l', 'places-per-change', 2), ('j', 'max-adj-places', 1)):
        if o[k] or rng.random() < .01: opt(k, l, None if o[k] == d and rng.random() < .3 else o[k])
    for k, l in (('w', 'right-place'), ('f', 'no-78s'), ('y', 'symmetric-sections'), ('P', 'parity-hack'), ('e', 'restricted-le'), ('E', 'prefer-restricted-le'), ('A', 'all-methods')):
        if o[k]: opt(k, l)
    for k, l in (('ll', 'long-le-place'), ('mirror', 'mirror'), ('floating', 'floating-sym'), ('offset', 'offset-cyclic')):
        if o[k]: opt('', l)
    for k in o['sym']: opt(k, dict(s='symmetric', k='rotational', d='double')[k])
    if o['cls']: out.append(CLS[o['cls']])
    if o['lh']: opt(*dict(r=('r', 'regular'), c=('c', 'cyclic'), any=('', 'any-regular-hl'))[o['lh']])
    out += [HL[k] for k in o['hl']] + [PTS[k] for k in o['points']]
    if o['chs']: out.append('--changes=' + ('' if o['chinc'] else '!') + ','.join(w.change(c) for c in o['chs']))
    if o['mask'] != [ALL]: opt('m', 'mask', w.mask(o['mask']))
    if o['prefix']: opt('', 'prefix', w.pn(o['prefix']))
    if o['from']: opt('', 'start-at', w.pn(o['from']))
    rng.shuffle(out)
    F = [rng.choice(LEVELS[k]) for k in o['fl']]
    if o['N'] > 1: F.insert(rng.randint(0, len(F)), 'N=%d' % o['N'])
    if o['start']: F.append('s=' + text(o['start']))
    if o['avoid']:
        if rng.random() < .5: F += ['r=' + text(r) for r in o['avoid']]
        else: F.append('r={' + ','.join(text(r) for r in o['avoid']) + '}')
    if o['pends']: F += ['P=' + text(r) for r in o['pends']]
    i = rng.randint(0, len(out))
    return out[:i] + ['-F' + f for f in F] + out[i:]

def limit(): resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
def methsearch(args, inp='', timeout=20):
    with tempfile.TemporaryDirectory(prefix='meth') as d:
        try:
            p = runp([os.path.join(B, 'methsearch')] + args, input=inp, text=True, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               env=dict(os.environ, TERM='dumb'), preexec_fn=limit)
        except subprocess.TimeoutExpired: return None
    return p.returncode, p.stdout, p.stderr
def lines(s):
    out = s.split('\n')
    if out[-1] == '': out.pop()
    else: out.append('(no newline)')
    return out
def one(ev):
    a = ev['a']
    r = methsearch(a['args'] + ['-R$p'], timeout=60)
    if r is None: return dict(op=ev['op'], a=a, ok=False, v='timeout')
    ok = r[0] in (0, 1)
    return dict(op=ev['op'], a=a, ok=ok, v=dict(rc=r[0], l=lines(r[1])) if ok else 'crash')
def run_meth(sessions):
    with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(lambda s: [one(e) for e in s], sessions))

def search(rng, o, args):
    """now and then with a limit, or in a random order"""
    lim = rng.choice([1, 2, 3, 10]) if rng.random() < .06 else 0
    rand = rng.random() < .06 and not o['from']
    if lim: args = args + ['--limit=%d' % lim]
    if rand: args = args + ['--random', '--seed=%d' % rng.randint(1, 999)]
    return E('search', args=args, _o=o, _lim=lim, _rand=rand)
# ---- random options
def base(rng, small=True, dodging=True, U=None, n=None):
    o = dict(NONE)
    o['U'] = rng.choice([1, 1, 1, 1, 1, 2, 0, 0, 3]) if U is None else U
    n = n or rng.choice([4, 4, 5, 5, 6, 6, 7, 8, 3])
    if n <= o['U'] + 1: n = o['U'] + 2
    o['b'] = n; o['front'], o['back'] = 1, n
    if o['U'] == 0:
        o['n'] = rng.choice([2, 4, 6, 8, 10, 12, 3, 5, 1])
    else:
        if n > 3 and rng.random() < .15:
            o['front'] = rng.choice([1, 1, 2, 3]); o['back'] = rng.randint(o['front'] + 1, n)
        if dodging and rng.random() < .3:
            if (o['back'] - o['front']) % 2 == 0:
                if o['back'] > 2: o['back'] -= 1
            if o['back'] > o['front'] and (o['back'] - o['front']) % 2: o['G'] = rng.choice([1, 1, 1, 2])
        if o['back'] < o['front'] + 1: o['front'], o['back'] = 1, n
        # more hunts than half the places of the path is not supported
        if 2 * o['U'] > o['back'] - o['front'] + 1: return base(rng, small, dodging, U, None)
    return o

def hunts_at(o, i):
    per = (o['back'] - o['front'] + 1) * 2 * (1 + o['G']); dl = 2 * (1 + o['G'])
    def at(t):
        u = t % per; v = u if 2 * u < per else per - 1 - u
        return o['front'] + 2 * (v // dl) + (v % dl) % 2
    out = []
    for h in range(1, o['U'] + 1):
        d = (1 + o['G']) * (0 if h == 1 else -h if h % 2 == 0 else h - 1)
        out.append((at(i + d), at(i + 1 + d)))
    return out
def fitting(rng, o, i):
    """a random change fit for the hunts"""
    n = o['b']; hs = hunts_at(o, i) if o['U'] else []
    if any(abs(a - b) > 1 for a, b in hs): return places(rchange(rng, n))
    fixed = {}
    for a, b in hs:
        fixed[a] = b
        if fixed.get(b, a) != a: return places(rchange(rng, n))
        fixed[b] = a
    pl, p = [], 1
    while p <= n:
        if p in fixed:
            if fixed[p] == p: pl.append(p); p += 1
            else: p += 2
        elif p < n and p + 1 not in fixed and rng.random() < .72: p += 2
        else: pl.append(p); p += 1
    return pl
def flip(n, c): return sorted(n + 1 - x for x in c)
def images(o):
    """the symmetries, and where each takes a change"""
    L = lead_len(o); sh = 1 + o['G'] if o['U'] and o['U'] % 2 == 0 else 0
    S = set(o['sym'])
    if len(S) > 1: S = set('skd')
    def image(k, i):
        if k == 's': return (2 * (L // 2 - 1 + sh) - i) % L
        if k == 'k': return (2 * (L // 4 - 1 + sh) + (0 if L % 4 == 0 else 1) - i) % L
        return (i + L // 2) % L
    return S, image
def target(rng, o):
    """a method that may be among those sought"""
    L, n, t = lead_len(o), o['b'], {}
    S, image = images(o)
    for i in range(L):
        if i in t: continue
        c = fitting(rng, o, i)
        for _ in range(20):
            if not any(image(k, i) == i and k != 's' and flip(n, c) != c for k in S): break
            c = fitting(rng, o, i)
        t[i] = c; todo = [i]
        while todo:
            x = todo.pop()
            for k in S:
                y = image(k, x)
                if y not in t: t[y] = t[x] if k == 's' else flip(n, t[x]); todo.append(y)
    return [t[i] for i in range(L)]
def add_sym(rng, o, many=False):
    L = lead_len(o); full = o['back'] - o['front'] == o['b'] - 1
    centred = o['b'] - o['back'] == o['front'] - 1 or o['U'] == 0
    if L % 2: 
        if centred and rng.random() < .5: o['mirror'] = True
        return
    k = rng.random()
    # rotational symmetry of several hunts dodging: see known_findings.txt
    if o['U'] and o['U'] % 2 == 0 and o['G']:
        o['sym'] = ['d'] if centred and k < .3 else ['s']; return
    if k < .5: o['sym'] = ['s']
    elif centred and k < .65: o['sym'] = ['k']
    elif centred and k < .8: o['sym'] = ['d']
    elif centred and k < .9: o['sym'] = rng.choice([['s', 'k'], ['s', 'd'], ['k', 'd'], ['s', 'k', 'd']])
    elif centred: o['mirror'] = True
    if o['mirror']: o['A'] = o['A'] or rng.random() < .9
def add_structure(rng, o, k):
    n, U = o['b'], o['U']; even = (o['back'] - o['front']) % 2 == 1
    for _ in range(k):
        c = rng.randrange(10)
        if c == 0: o['p'] = rng.choice([2, 2, 2, 3, 4, 1])
        elif c == 1: o['l'] = rng.choice([1, 2, 2, 3])
        elif c == 2: o['j'] = rng.choice([1, 2, 2])
        elif c == 3: o['w'] = not (U == 0 and n % 2)
        elif c == 4: o['f'] = True
        elif c == 5: o['y'] = True
        elif c == 6:
            o['chs'] = []; o['chinc'] = rng.random() < .6
            for x in set(map(tuple, o['_t'])) if rng.random() < .8 else [fitting(rng, o, rng.randrange(lead_len(o))) for _ in range(rng.randint(1, 6))]:
                x = list(x)
                if not o['chinc'] or rng.random() < .1: continue
                if x not in o['chs']: o['chs'].append(x)
            if o['chinc'] and o['U'] or not o['chs']:
                for _ in range(rng.randint(1, 6)):
                    x = fitting(rng, o, rng.randrange(lead_len(o)))
                    if x not in o['chs']: o['chs'].append(x)
        elif c == 7: o['points'] = [rng.choice(['np', 'hp', 'nu', 'hu'])]
        elif c == 8 and even and U and o['back'] - o['front'] >= 3:
            o['cls'] = rng.choice('STD34' if n == 6 and (o['front'], o['back']) == (1, 6) else 'STD')
            # (which cross sections the others count is not defined if the symmetry is not about the half lead)
            if U % 2 == 0 and o['sym'] and o['cls'] == 'D': o['cls'] = 'S'
            elif U % 2 and 's' in o['sym'] and not o['floating']: o['cls'] = rng.choice([o['cls'], o['cls'], 'SD', 'EX', 'SEX', 'PT3', 'PT4'])
        elif c == 9 and o['p']: o['ll'] = True
def blows(t, n):
    """the longest time that a place is made for, and after which change it ends, going round and round"""
    L, best = len(t), (1, 0)
    for p in range(1, n + 1):
        run = 0
        for i in range(2 * L):
            run = run + 1 if p in t[i % L] else 0
            best = max(best, (min(run, L) + 1, i % L))
    return best
def window(rng, o, width=4):
    """the changes of a method, but for a few that are left open, with limits that it only just keeps to or breaks"""
    n, L = o['b'], lead_len(o)
    if L < 3: return
    if not o['floating']: o['_t'] = min((target(rng, o) for _ in range(rng.choice([1, 6, 20]))), key=lambda t: blows(t, n)[0] + rng.random())
    t = o['_t']; p, at = blows(t, n)
    mid = rng.choice([L - 1, L - 1, L // 2 - 1, L // 2 - 1, 0, L // 4, at, at, at, rng.randrange(L)])
    S, image = images(o)
    F = {(mid + d) % L for d in range(-rng.randint(0, width // 2), rng.randint(1, width // 2) + 1)}
    if rng.random() < .3: F |= {rng.randrange(L)}
    todo = list(F)
    while todo:
        x = todo.pop()
        for k in S:
            y = image(k, x)
            if y not in F: F.add(y); todo.append(y)
    items = [ANY if i in F else alts(t[i]) if rng.random() < .9 else alts(t[i], fitting(rng, o, i)) for i in range(L)]
    o['mask'] = [dict(a=side(items), b=side(items))]
    if not mask_fits(o): items[:] = [ANY if i in F else alts(t[i]) for i in range(L)]
    if not mask_fits(o): o['mask'] = [ALL]; return
    if rng.random() < .75: o['p'] = max(1, p - rng.choice([0, 0, 1, 1, -1]))
    if rng.random() < .25: o['l'] = max(1, max(len(x) for x in t) - rng.choice([0, 0, 1]))
    if rng.random() < .2: o['j'] = rng.choice([1, 2, 3])
    if rng.random() < .12 and o['p']: o['ll'] = True
    if rng.random() < .1: o['y'] = True
    if rng.random() < .1: o['points'] = [rng.choice(['np', 'hp', 'nu', 'hu'])]
    if rng.random() < .1: o['w'] = not (o['U'] == 0 and n % 2)
def times(r, x): return [r[b - 1] for b in x]
def inverse(r):
    out = [0] * len(r)
    for i, b in enumerate(r): out[b - 1] = i + 1
    return out
def rows_of(n, t):
    r = list(range(1, n + 1)); out = [list(r)]
    for c in t:
        p = 1
        while p < n:
            if p in c: p += 1; continue
            r[p - 1], r[p] = r[p], r[p - 1]; p += 2
        out.append(list(r))
    return out
def closure(n, gens, most=150):
    seen = {tuple(range(1, n + 1))}; todo = list(seen)
    while todo and len(seen) <= most:
        r = todo.pop()
        for g in gens:
            x = tuple(times(r, g))
            if x not in seen: seen.add(x); todo.append(x)
    return len(seen)
def add_cosets(rng, o):
    """truth up to part ends that join rows of the lead, or rows that are to be avoided"""
    n, L = o['b'], lead_len(o)
    rs = rows_of(n, o['_t'])
    o['fl'] = [rng.choice('hhlccn')]
    def rowat(): return rs[rng.choice([0, L // 2 - 1, L // 2, L // 2 + 1, L - 1, rng.randrange(L), rng.randrange(L)]) % L]
    if o['fl'] != ['n']:
        for _ in range(rng.choice([1, 1, 2, 3])):
            a, b = rowat(), rowat()
            P = times(a, inverse(b)) if rng.random() < .6 else times(inverse(a), b)
            if P != list(range(1, n + 1)) and P not in o['pends']: o['pends'] = o['pends'] + [P]
            while closure(n, o['pends']) > 150: o['pends'] = o['pends'][:-1]
    if rng.random() < .2: o['N'] = 2
    if rng.random() < .3: o['start'] = rrow(rng, n) if rng.random() < .5 else rowat()
def rand_item(rng, o, i, star=False):
    k = rng.random()
    if k < o['_any']: return ANY
    i %= lead_len(o)
    cs = [o['_t'][i]] if rng.random() < .95 else [fitting(rng, o, i)]
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        x = fitting(rng, o, i)
        if x not in cs: cs.append(x)
    return alts(*cs)
def rand_side(rng, o, at, length, sym, star):
    """length changes from change at"""
    h = (length + 1) // 2 if sym else length
    items = [rand_item(rng, o, at + i) for i in range(h)]
    if star and h >= 1:
        i, j = sorted((rng.randint(0, h), rng.randint(0, h)))
        if i == j: i, j = (i, i + 1) if i < h else (i - 1, i)
        items[i:j] = [STAR]
    return side(items, sym)
def expanded(s, length):
    """the items of a side of a mask, as in the specification"""
    q, h = s['items'], len(s['items'])
    x = next((i for i, it in enumerate(q) if it['k'] == 'star'), None)
    if x is None: return q + q[-2::-1] if s['sym'] and h > 1 else q
    if not s['sym']: return q[:x] + [ANY] * (length - h + 1) + q[x + 1:]
    if x == h - 1: return q[:-1] + [ANY] * (length - 2 * (h - 1)) + q[-2::-1] if h > 1 else [ANY] * length
    c = q[:x] + [ANY] * ((length - 2 * (h - 1) + 1) // 2) + q[x + 1:]
    return c + c[-2::-1]
def mask_fits(o):
    """the hunts can follow their path in all the changes it gives (it is not defined what happens if not)"""
    if not o['U']: return True
    def ln(s): return None if any(i['k'] == 'star' for i in s['items']) else 2 * len(s['items']) - 1 if s['sym'] else len(s['items'])
    at = [ln(bl['a']) or ln(bl['b']) or 0 for bl in o['mask']]
    at = [x or lead_len(o) - sum(at) for x in at]
    for k in 'ab':
        i = 0
        for bl, n in zip(o['mask'], at):
            for j, it in enumerate(expanded(bl[k], n)):
                for c in it['alts']:
                    if not follows(o, i + j, c): return False
            i += n
    return True
def follows(o, i, c):
    """all the hunts go where they should"""
    to, p = {}, 1
    while p <= o['b']:
        if p in c: to[p] = p; p += 1
        else: to[p], to[p + 1] = p + 1, p; p += 2
    return all(to.get(a) == b for a, b in hunts_at(o, i % lead_len(o)))
def add_mask(rng, o):
    for _ in range(20):
        add_mask1(rng, o)
        if mask_fits(o): return
    o['mask'] = [ALL]
def add_mask1(rng, o):
    L = lead_len(o)
    shape = rng.random()
    if shape < .35 and L % 2 == 0: blocks = [(0, L - 1, True), (L - 1, 1, False)]
    elif shape < .45 and L % 2 == 0: blocks = [(0, 1, False), (1, L - 1, True)]
    elif shape < .7: blocks = [(0, L, False)]
    else:
        i = rng.randint(1, L - 1) if L > 1 else 1
        blocks = [(0, i, i % 2 == 1 and rng.random() < .3), (i, L - i, (L - i) % 2 == 1 and rng.random() < .3)] if i < L else [(0, L, False)]
    star = rng.choice([-1] + list(range(len(blocks))) * 2)
    out = []
    for i, (at, ln, sym) in enumerate(blocks):
        a = rand_side(rng, o, at, ln, sym, star == i)
        b = a
        if o['U'] and rng.random() < .25 and o["U"]: b = rand_side(rng, o, at, ln, sym and rng.random() < .8, star == i)
        out.append(dict(a=a, b=b))
    o['mask'] = out
def add_prefix(rng, o): o['prefix'] = [x if rng.random() < .97 else fitting(rng, o, i) for i, x in enumerate(o['_t'][:rng.randint(1, max(1, rng.choice([2, 3, 5, 20])))])]
def add_from(rng, o): o['from'] = [x if rng.random() < .9 else fitting(rng, o, i) for i, x in enumerate(o['_t'][:rng.choice([1, 2, 3, 50])])]
def add_leads(rng, o):
    c = rng.randrange(8)
    if c == 0 and o['U'] and o['front'] == 1: o['lh'] = 'r'
    elif c == 1 and o['front'] == 1: o['lh'] = 'c'
    elif c == 2 and o['U'] and o['front'] == 1: o['lh'] = 'any'
    elif c == 3 and o['U'] % 2: o[rng.choice('eE')] = True
    elif c == 4 and o['U'] == 1 and (o['front'], o['back']) == (1, o['b']): o['hl'] = rng.sample(['rh', 're', 'ch', 'ce'], rng.choice([1, 1, 2]))
    elif c == 5 and o['U'] == 1 and (o['front'], o['back']) == (1, o['b']): o['lh'] = 'r'; o['hl'] = ['reg']
    elif c == 6 and (o['G'] or o['U'] == 0): o['offset'] = True
    o['A'] = o['A'] or rng.random() < .35
def add_truth(rng, o):
    n = o['b']
    if rng.random() < .75: o['fl'] = [rng.choice('cclhnx')]
    if rng.random() < .15: o['fl'] = o['fl'] + [rng.choice('clhx')]
    if rng.random() < .2: o['N'] = 2
    hl = 'h' in o['fl']
    if rng.random() < .2: o['start'] = rrow(rng, n)
    if rng.random() < .2 and not (set(o['fl']) & {'n', 'x'}):
        r = list(range(1, n + 1))
        for _ in range(1):
            r2 = rrow(rng, n) if rng.random() < .3 else r[:o['U']] + rng.sample(r[o['U']:], n - o['U'])
        o['pends'] = [r2]
    if rng.random() < .25 and o['N'] == 1 and not (hl and not (o['U'] >= 1 and not o['pends'])):
        o['avoid'] = []
        r = list(o['start'] or range(1, n + 1))
        for i in range(rng.randint(1, 6)):
            c = fitting(rng, o, i) if lead_len(o) else []
            p = 1; r2 = list(r)
            while p < n:
                if p in c: p += 1; continue
                r2[p - 1], r2[p] = r2[p], r2[p - 1]; p += 2
            r = r2
            if rng.random() < .4 and r not in o['avoid'] and r != list(o['start'] or range(1, n + 1)): o['avoid'].append(r)

def size(args, timeout=1):
    """nodes looked at, or None if far too many or refused"""
    r = methsearch(args + ['-q', '--node-count', '--raw-count'], timeout=timeout)
    if r is None: return None, None, 'timeout'
    import re
    ns = [int(x) for x in re.findall(r'\d+', r[1])]
    return (r[0], ns or [refused_size(r[2], args)], r[2])
def refused_size(err, args):
    return 0 if 'no possible changes' in err.lower() else 10**9 if err else 0
# the known findings (see known_findings.txt), each with a search that shows whether it is there
DEMO = dict(kf=['-b4', '-A', '-mx.14.x.14.x.14.x.14', '-R$p'], ky=['-b6', '-G1', '-sdy', '-p2', '-mx.34.x.14.56.x.12.36.x.34.x.16.x.34.x.36.12.x.56.14.x.34.x.16', '-R$p'],
            kg=['-b8', '-U2', '-G1', '-Ak', '-p2', '-mx.34.x.14.x.56.x.16.x.12.x.38.x.34.x.58.x.56.x.18.x.12.x.18.x.12.x.18.x.78.x.18', '-R$p'])
def known(): return {k: methsearch(a)[1].strip() != '' for k, a in DEMO.items()}
def searches(rng, gen, want, most, kf, log=None, first=()):
    S, kinds = [], dict(refused=0, big=0, empty=0)
    with ThreadPoolExecutor(NCPU) as ex:
        # of each of these, the first that is not too big
        def fit(os):
            for o, args in os:
                rc, ns, err = size(args)
                if rc is not None and (sum(ns) <= most or rc not in (0, 1)): return search(random.Random(str(args)), o, args)
        ready = []
        for os in first:
            for o in os: o.update((k, kf[k]) for k in ('kf', 'ky'))
            ready.append([(o, argv(rng, o)) for o in os])
        S += [[e] for e in ex.map(fit, ready) if e]
        want += len(S)
        while len(S) < want:
            batch = []
            for _ in range(64):
                o = gen(rng); o.update((k, kf[k]) for k in ('kf', 'ky'))
                batch.append((o, argv(rng, o), rng.random()))
            for (o, args, keep), (rc, ns, err) in zip(batch, ex.map(lambda x: size(x[1]), batch)):
                if rc is None: kinds['big'] += 1; continue
                if rc not in (0, 1) and 'allocate' not in err:                 # a crash: left to the trace checker
                    if log is not None: log.append((rc, args))
                    S.append([search(rng, o, args)]); continue
                if rc == 1 and err.strip(): kinds['refused'] += 1
                if sum(ns) > most: kinds['big'] += 1; continue
                if ns[0] == 0 and keep < .75: kinds['empty'] += 1; continue
                if len(S) < want: S.append([search(rng, o, args)])
    return S, kinds
def model(c):
    bases = '{1, 2, 3, 4, 5, 6, 7, 8, 10}'
    return [dict(module='MC_MethSearch', cfgtext=cfg('Spec', ['Exact', 'Published'], dict(DEPTH=2 if c.quick else 3, BASES=bases), deadlock=False), note='every method, up to %d requirements' % (2 if c.quick else 3))]
def check(c, quick, thorough, gen, models, most=1500, finds={}, first=()):
    """gen(rng) -> o"""
    build('methsearch'); rng = c.rng
    for m in models: c.model(**m)
    kf = known()
    for k, what in finds.items():
        if kf[k]: print('KNOWN-FINDING: property=%s %s' % (c.pid, what))
    S, kinds = searches(rng, gen, quick if c.quick else thorough, most, kf, first=first)
    print('searches: %d; left out: %d too big, %d refused, %d with no methods' % (len(S), kinds['big'], kinds['refused'], kinds['empty']))
    c.traces_ok('Trace_MethSearch', run_meth(S), run_meth, name='searches')
