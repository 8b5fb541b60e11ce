from vlib import *
from props.common import *

def spell(rng, n):
    """Text that is near a change: mostly legal spellings, some not."""
    m = rng.randrange(8)
    if m == 0: return rng.choice(['x', 'X', '-'])
    c = rchange(rng, n)
    p = places(c)
    if m in (1, 2) and p and p[0] == 1: p = p[1:]
    if m in (2, 3) and p and p[-1] == n: p = p[:-1]
    if m == 4 and p: p = sorted(rng.sample(range(1, n + 2), min(n, rng.randint(1, 3))))
    if m == 5 and len(p) > 1: i = rng.randrange(len(p) - 1); p[i], p[i + 1] = p[i + 1], p[i]
    if m == 6 and p: p.insert(rng.randrange(len(p)), rng.choice(p))
    cs = [bt(b) if rng.random() < .95 else '{%d}' % b for b in p]
    if rng.random() < .05: cs.insert(rng.randint(0, len(cs)), rng.choice(['x', '.', ' ', 'X', '-', '+', '{', 'i', 'O']))
    if rng.random() < .2: cs = [x.lower() for x in cs]
    return ''.join(cs)

def run(c):
    build('driver'); rng = c.rng
    N = 7 if c.quick else 9
    g = c.gen('MC_Change', cfg(invariants=['Legal', 'Toggled', 'Emitted'], constants=dict(N=N, Emit='TRUE'), deadlock=False))
    S = [[E('c_load', n=x['n'], t=''.join(map(bt, x['pl'])) or 'x'), E('c_swappair', w=x['w'])] for x in g]
    c.model('MC_Row', cfg(invariants=['ChLaws'], constants=dict(N=4 if c.quick else 5, Emit='FALSE'), deadlock=False), note='laws')
    import itertools
    # all texts of up to 4 symbols over the places of a small stage, and all place lists
    for n in range(0, 6 if c.quick else 7):
        al = [bt(b) for b in range(1, min(n + 1, 6) + 1)] + ['x']
        ev = []
        for k in range(0, 5 if n < 5 or not c.quick else 4):
            for t in itertools.product(al, repeat=k):
                if 'x' in t and k > 2: continue
                ev.append(E(rng.choice(['c_parse', 'c_parsec', 'c_set']), n=n, t=''.join(t)))
        for k in range(0, n + 1):
            for p in itertools.combinations(range(1, n + 2), k): ev.append(E('c_places', n=n, pl=list(p)))
        for i in range(0, len(ev), 30): S.append(ev[i:i + 30])
    for n in range(1, 6):
        A = all_changes(n)
        for x in A:
            ev = []
            for y in A: ev += [E('c_cmp', x=x, y=y), E('c_same', x=x, y=y)]
            for i in range(0, len(ev), 40): S.append(ev[i:i + 40])
    for n in range(1, 10 if c.quick else 12):
        for x in all_changes(n): S.append([E('c_parse', n=n, t=pn(x, rng.choice('xX-')))])
    for _ in range(500 if c.quick else 8000):
        n = rng.choice([rng.randint(1, 8), rng.randint(1, 16), rng.randint(17, 38)])
        ev = [E('c_parse', n=n, t=spell(rng, n)) for _ in range(12)]
        x = rchange(rng, n); y = rchange(rng, rng.choice([n, n, rng.randint(1, 12)]))
        ev += [E('c_cmp', x=x, y=y), E('c_same', x=x, y=y), E('r_change', x=rrow(rng, n), c=x)]
        # an editing history
        ev.append(E('c_new', n=n) if rng.random() < .5 else E('c_load', n=n, t=pn(x)))
        for _ in range(rng.randint(1, 25)):
            ev.append(E('c_swappair', w=rng.randint(1, n + 1) if rng.random() < .3 else rng.randint(1, min(n + 1, 6))))
        S.append(ev)
    c.drive_and_check('Trace_Row', S)
