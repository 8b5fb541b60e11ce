"""Generators of methods."""
from props.common import *

def move_change(rng, n, f, t, dens):
    """A random change taking the bell in place f to place t (1-based), everything else free."""
    s = []
    def fill(lo, hi):
        i = lo
        while i < hi:
            if rng.random() < dens: s.append(i); i += 2
            else: i += 1
    if f == t: fill(1, f - 1); fill(f + 1, n)
    else:
        a = min(f, t); fill(1, a - 1); s.append(a); fill(a + 2, n)
    return dict(n=n, s=sorted(s))

def path(rng, n):
    """A closed treble path: list of places, one per row, first = last."""
    k = rng.randrange(8)
    lo, hi = 1, n
    if rng.random() < .3 and n > 2: lo = rng.randint(1, n - 1); hi = rng.randint(lo + 1, n)
    if k <= 1: p = list(range(lo, hi + 1))                                  # plain
    elif k <= 3:                                                            # dodging
        if (hi - lo) % 2 == 0: hi, lo = (hi - 1, lo) if hi - 1 > lo else (hi, lo - 1 if lo > 1 else lo)
        c = rng.randint(1, 3); p = []
        for a in range(lo, hi, 2): p += [a, a + 1] * c
    elif k == 4: p = [x for x in range(lo, hi + 1) for _ in range(2)]       # places
    elif k == 5:                                                            # wandering
        p = [rng.randint(lo, hi)]
        for _ in range(rng.randint(1, 6)): p.append(min(hi, max(lo, p[-1] + rng.choice([-1, 0, 1]))))
    elif k == 6:                                                            # treble place-ish: same blows everywhere
        p = []
        for a in range(lo, hi + 1): p += [a]
        i = rng.randrange(len(p)); p = p[:i + 1] + [p[i]] + p[i + 1:]
    else:
        p = list(range(lo, hi + 1)) * 1
        i = rng.randrange(len(p))
        if 0 < i: p = p[:i + 1] + [p[i - 1], p[i]] + p[i + 1:]
    if k == 5 and rng.random() < .5:
        # any closed path
        q = p[:]
        while q[-1] != q[0]: q.append(q[-1] + (1 if q[0] > q[-1] else -1))
        return q if len(q) > 1 else q * 2
    return p + p[::-1] + [p[0]]

def meth(rng, n):
    """A method with a treble path of some kind, often symmetric, sometimes rotated."""
    if rng.random() < .12:
        return [rchange(rng, n) for _ in range(rng.randint(1, 8))]
    p = path(rng, n)
    dens = rng.choice([.6, .85, 1])
    L = len(p) - 1
    cs = [move_change(rng, n, p[i], p[i + 1], dens) for i in range(L)]
    if rng.random() < .7:   # palindrome: copy the second half from the first where the path allows
        for i in range(L // 2 - 1):
            j = L - 2 - i
            if p[j] == p[i + 1] and p[j + 1] == p[i]: cs[j] = cs[i]
    if rng.random() < .3 and n > 1 and p[0] == 1 and L:   # common lead ends
        cs[-1] = dict(n=n, s=list(range(2, n, 2))) if rng.random() < .5 or n < 4 else dict(n=n, s=list(range(3, n, 2)))
    if rng.random() < .25: cs = cs + [dict(n=n, s=sorted(n - x for x in c['s'])) for c in cs]
    if rng.random() < .4: k = rng.randrange(len(cs)); cs = cs[k:] + cs[:k]
    return cs

def near_pal(rng, n):
    """Palindromic about any change, perhaps spoilt by one."""
    h = rng.randint(1, 5)
    a = [rchange(rng, n) for _ in range(h)]
    b = [rchange(rng, n) for _ in range(rng.randint(1, 4))]
    cs = a + a[-2::-1] + b + b[-2::-1]
    k = rng.randrange(len(cs)); 
    if rng.random() < .6: cs = cs[k:] + cs[:k]
    if rng.random() < .3: cs[rng.randrange(len(cs))] = rchange(rng, n)
    return cs

REAL = [(6, 'x36x14x12x36x14x56,12'), (8, '&x1x1x1x1,2'), (6, '&x36x14x12x36x14x56,12'), (8, '&x38x14x1258x36x14x58x16x78,12'),
        (7, '3,1.7.1.7.1.7.1'), (5, '&3.1.5.1.5,125'), (6, '&x14x14x36,16'), (5, '5,1.5.1.5.1'), (6, '&34.16x12x36x12x16,12'), (8, '&x34x4x2x3x4x5x4x7,2'),
        (5, '&3,1.3.1.5'), (4, '&x3x4x2x3x4x5x4x7'[:9] + ',12')]
