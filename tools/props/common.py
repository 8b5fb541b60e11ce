"""Generators shared by the checks."""
SYM = "1234567890ETABCDFGHJKLMNPQRSUVWYZ"
def rrow(rng, n):
    r = list(range(1, n + 1)); rng.shuffle(r); return r
def rswaps(rng, n, p=0.5):
    s, i = [], 1
    while i < n:
        if rng.random() < p: s.append(i); i += 2
        else: i += 1
    return s
def rchange(rng, n, p=None): return dict(n=n, s=rswaps(rng, n, rng.choice([.2, .5, .8, .95]) if p is None else p))
def all_changes(n):
    out = []
    def rec(i, s):
        if i >= n: out.append(dict(n=n, s=list(s))); return
        rec(i + 1, s); rec(i + 2, s + [i])
    rec(1, [])
    seen, res = set(), []
    for c in out:
        k = tuple(c['s'])
        if k not in seen: seen.add(k); res.append(c)
    return res
def places(c):
    sw = set(c['s']); return [p for p in range(1, c['n'] + 1) if p not in sw and p - 1 not in sw]
def bt(b): return SYM[b - 1] if b <= len(SYM) else '{%d}' % b
def pn(c, cross='x'):
    p = places(c); return ''.join(bt(b) for b in p) if p else cross
def shuffled_like(rng, n):
    """Rows of special shape as well as uniform ones."""
    k = rng.randrange(6)
    r = list(range(1, n + 1))
    if k == 0 or n < 2: return r
    if k == 1: return r[::-1]
    if k == 2: d = rng.randrange(n); return r[d:] + r[:d]
    if k == 3: i, j = rng.randrange(n), rng.randrange(n); r[i], r[j] = r[j], r[i]; return r
    return rrow(rng, n)
def stage(rng, hi=12, big=40):
    return rng.choice([rng.randint(0, 6), rng.randint(1, hi), rng.randint(1, hi), rng.randint(hi, big)])
