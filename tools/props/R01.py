from vlib import *
from props.common import *

def fixed_ops(c, pairs):
    S = []
    for x, y in pairs:
        ev = [E('r_mul', x=x, y=y), E('r_div', x=x, y=y), E('r_cmp', x=x, y=y)]
        if x: ev.append(E('r_facts', x=x))
        if x and y: ev.append(E('r_conj', x=x, y=y))
        if len(x) == len(y) and x: ev.append(E('r_areconj', x=x, y=y))
        S.append(ev)
    return S

def text_cases(rng, n):
    out = []
    for _ in range(n):
        k = stage(rng, 12, 36)
        r = shuffled_like(rng, k) if k else []
        cs = [bt(b) for b in r]
        m = rng.randrange(9)
        if m == 1 and cs: cs[rng.randrange(len(cs))] = rng.choice([bt(rng.randint(1, max(1, k))), 'x', '.', ' ', '{%d}' % rng.randint(1, 40), '{}', '{', 'i', 'o', 'O', 'I'])
        elif m == 2 and cs: del cs[rng.randrange(len(cs))]
        elif m == 3: cs.insert(rng.randint(0, len(cs)), bt(rng.randint(1, 36)))
        elif m == 4: cs = [c.lower() for c in cs]
        elif m == 5: cs = ['{%d}' % b for b in r]
        elif m == 6: cs = [c.lower() if rng.random() < .5 else c for c in cs]
        out.append(''.join(cs))
    out += ['', '1', '2', '11', '21', '12 ', ' 12', '123456789', '1234567890', '1234567890ET', '123x', '1I', 'I2', '{1}', '{2}{1}', '{1}{1}',
            '{1', '{1}2{3}', '1234567890et', '123456789o', '2i', '123456789{10}', SYM, SYM.lower(), SYM + '{34}', SYM + '{35}', '{34}' + SYM, '-12', '0', '12,', '{a}']
    return out

def run(c):
    build('driver'); rng = c.rng
    N = 3 if c.quick else 4
    g = c.gen('MC_Row', cfg(invariants=['Laws', 'ChLaws', 'Emitted'], constants=dict(N=N, Emit='TRUE'), deadlock=False))
    S = fixed_ops(c, [(x['x'], x['y']) for x in g])
    if c.quick: c.model('MC_Row', cfg(invariants=['Laws'], constants=dict(N=4, Emit='FALSE'), deadlock=False), note='N=4')
    # every row of stage 4 and 5 on its own, every power near the order
    import itertools
    for n in range(1, 6 if c.quick else 7):
        for r in itertools.permutations(range(1, n + 1)):
            S.append([E('r_facts', x=list(r))])
    for _ in range(600 if c.quick else 6000):
        n, m = stage(rng), stage(rng)
        x, y = shuffled_like(rng, n), shuffled_like(rng, m if rng.random() < .5 else n)
        ev = fixed_ops(c, [(x, y)])[0]
        ev += [E('r_mulassign', x=x, y=y), E('r_divassign', x=x, y=y), E('r_inv', x=x), E('r_selfmul', x=x)]
        ev.append(E('r_resize', x=x, k=rng.randint(0, n + 3)))
        if n: ev.append(E('r_swap', x=x, i=rng.randint(1, n), j=rng.randint(1, n)))
        for k in (0, 1, -1, 2, rng.randint(-40, 40), rng.randint(-5000, 5000), n * n + rng.randint(-1, 2), -n * n - 1):
            ev.append(E('r_pow', x=x, k=k))
        # a conjugate pair with certainty
        if n:
            z = shuffled_like(rng, n); inv = [0] * n
            for i, b in enumerate(z): inv[b - 1] = i + 1
            w = [inv[x[z[i] - 1] - 1] for i in range(n)]
            ev.append(E('r_areconj', x=x, y=w))
        v = [rng.randint(1, max(1, n)) for _ in range(n)] if rng.random() < .5 else x
        if v: ev.append(E('r_vec', x=v))
        cs = [rchange(rng, n) for _ in range(rng.randint(1, 5))] if n else []
        for ch in cs[:2]:
            ev += [E('r_change', x=x, c=ch), E('r_changeassign', x=x, c=ch)]
        if n and rng.random() < .5:
            n2 = rng.randint(1, n + 2)
            ev.append(E('r_change', x=x, c=rchange(rng, n2)))
        if n:
            for f in range(4): ev.append(E('r_block', cs=cs, x=rng.choice([[], x]), f=f))
            ev.append(E('r_reblock', cs=cs, x=x))
            ev.append(E('r_permute', rs=[shuffled_like(rng, n) for _ in range(rng.randint(0, 3))], cs=cs, n=n))
        S.append(ev)
    ev = []
    for t in text_cases(rng, 1500 if c.quick else 20000):
        ev.append(E(rng.choice(['r_parse', 'r_parsec']), t=t))
        if ' ' not in t and '\0' not in t and not any(ch in t for ch in 'xX.,-') and t.count('{') == t.count('}'): ev.append(E('r_sparse', t=t))
        if len(ev) > 40: S.append(ev); ev = []
    S.append(ev)
    for n in range(0, 13): S.append([E('r_maths', x=rng.choice([1, 2, rng.randint(1, 40), rng.randint(1, 300)]), y=rng.choice([1, rng.randint(1, 40), rng.randint(1, 300)]), n=n) for _ in range(8)])
    for n in range(0, 34 if c.quick else 40):
        S.append([E('r_special', n=n)])
        ev = []
        for h in range(0, n):
            ev.append(E('r_pblh', n=n, h=h))
            for k in {0, 1, 2, -1, n - h - 1, n - h, n + 3, -2 * n - 1}: ev.append(E('r_cyclic', n=n, h=h, c=k))
            for nw in {0, min(1, n - h), min(2, n - h), n - h}: 
                ev.append(E('r_rev3', nw=nw, nh=h, nt=rng.choice([n, 0]) if nw + h else n))
        if ev: S.append(ev)
    c.drive_and_check('Trace_Row', S)
