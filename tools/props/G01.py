from vlib import *
from props.common import *
KINDS = ['sym', 'alt', 'cyc', 'cyr', 'dic', 'dir', 'triv']

def gens(rng, n):
    """Generators of smallish groups on up to n bells."""
    k = rng.randrange(8)
    if k == 0: return [rrow(rng, rng.randint(0, min(5, n))) for _ in range(rng.randint(0, 3))]
    if k == 1: return [rrow(rng, n)]
    if k == 2:  # commuting swaps of pairs
        out = []
        for i in range(0, n - 1, 2):
            if rng.random() < .5:
                r = list(range(1, n + 1)); r[i], r[i + 1] = r[i + 1], r[i]; out.append(r)
        return out or [list(range(1, n + 1))]
    if k == 3: return [list(range(1, n + 1))[::-1], list(range(2, n + 1)) + [1]] if n else [[]]
    if k == 4:  # direct product of symmetric groups on scattered bells
        b = list(range(n)); rng.shuffle(b); out = []
        while b:
            m = rng.randint(1, 3); o, b = b[:m], b[m:]
            for i in range(len(o) - 1):
                r = list(range(1, n + 1)); r[o[i]], r[o[i + 1]] = r[o[i + 1]], r[o[i]]; out.append(r)
        return out or [list(range(1, n + 1))]
    if k == 5: x = rrow(rng, min(4, n)); return [x, rrow(rng, min(4, n))]
    if k == 6: x = shuffled_like(rng, n); return [x, x, list(range(1, n + 1))]
    return [shuffled_like(rng, min(n, 5)), shuffled_like(rng, min(n, 4))]

def close(gs, cap=200):
    n = max([len(g) for g in gs] or [0]); gs = [tuple(g) + tuple(range(len(g) + 1, n + 1)) for g in gs]
    seen = {tuple(range(1, n + 1))}; st = list(seen)
    while st:
        r = st.pop()
        for g in gs:
            q = tuple(r[x - 1] for x in g)
            if q not in seen:
                seen.add(q); st.append(q)
                if len(seen) > cap: return None
    return seen

def run(c):
    build('driver'); rng = c.rng
    c.model('MC_Group', cfg(invariants=['Laws'], constants=dict(N=3, K=3 if c.quick else 6), deadlock=False))
    if not c.quick: c.model('MC_Group', cfg(invariants=['Laws'], constants=dict(N=4, K=2), deadlock=False), note='N=4')
    import itertools
    S = []
    # every pair of generators on up to four bells, labels of every row
    for n in range(0, 4):
        R = [list(r) for r in itertools.permutations(range(1, n + 1))]
        for x in R:
            for y in R:
                S.append([E('g_gen', rows=[x, y], how=rng.randint(0, 1))] + [E('g_label', r=r) for r in R] + [E('g_even'), E('g_keep'), E('g_conj', r=rng.choice(R)), E('g_cmp')])
    S.append([E('g_none'), E('g_label', r=[2, 1]), E('g_gen', rows=[], how=0), E('g_keep'), E('g_none'), E('g_cmp')])
    for w in range(1, 5 if c.quick else 6):
        for h in range(0, 3):
            for t in sorted({0, w + h, w + h + 1}):
                for k in KINDS:
                    if k in ('cyr', 'dir', 'cyc', 'dic') and w < 2: continue
                    S.append([E('g_named', k=k, w=w, h=h, t=t), E('g_label', r=rrow(rng, w + h)), E('g_even')])
    n = 0
    while n < (400 if c.quick else 4000):
        g = gens(rng, rng.randint(1, 8)); cl = close(g)
        if cl is None: continue
        n += 1; B = max([len(x) for x in g] or [0])
        ev = [E('g_gen', rows=g, how=rng.randint(0, 1))]
        for _ in range(rng.randint(2, 8)):
            k = rng.randrange(9)
            if k <= 3: ev.append(E('g_label', r=rrow(rng, max(0, B + rng.choice([0, 0, 0, -1, 1, 2])))))
            elif k == 4: ev.append(E('g_conj', r=shuffled_like(rng, max(0, B + rng.choice([0, 0, -1]))))); ev.append(E('g_cmp'))
            elif k == 5: ev.append(E('g_keep'))
            elif k == 6: ev.append(E('g_even')); ev.append(E('g_cmp'))
            elif k == 7: ev.append(E('g_swap')); ev.append(E('g_cmp'))
            elif len(cl) <= 12 and len(ev) < 6:
                h = gens(rng, rng.randint(1, 3)); 
                ev += [E('g_keep'), E('g_gen', rows=h, how=0), E('g_prod'), E('g_label', r=rrow(rng, B + 2))]; break
        S.append(ev)
    c.drive_and_check('Trace_Group', S)
