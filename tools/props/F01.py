from vlib import *
from props.common import *
from props.methods import *

def compose(cs):
    n = cs[0]['n']; r = list(range(n))
    for x in cs:
        for i in x['s']: r[i - 1], r[i] = r[i], r[i - 1]
    return r
def lead_rows(cs):
    n = cs[0]['n']; r = list(range(1, n + 1)); out = []
    for x in cs:
        out.append(r); r = r[:]
        for i in x['s']: r[i - 1], r[i] = r[i], r[i - 1]
    return out
def one_course(r):
    """Treble fixed, all others in one cycle."""
    n = len(r)
    if r[0] != 0: return False
    k, p = 1, r[1] if n > 1 else 0
    while p != 1 and k < n: p = r[p]; k += 1
    return k == n - 1
def tplain(rng, n):
    """A treble-dominated method on n bells that is likely to have a full course."""
    kind = rng.randrange(3)
    if kind == 0 or n % 2: p = list(range(1, n + 1))
    else:
        k = rng.choice([1, 1, 2]); p = []
        for a in range(1, n, 2): p += [a, a + 1] * (k + 1)
        if len(p) > 20: p = list(range(1, n + 1))
    q = p + p[::-1] + [p[0]]
    dens = rng.choice([.8, 1]); L = len(q) - 1
    cs = [move_change(rng, n, q[i], q[i + 1], dens) for i in range(L)]
    if rng.random() < .8:
        for i in range(L // 2 - 1): cs[L - 2 - i] = cs[i]
    if rng.random() < .8: cs[-1] = dict(n=n, s=list(range(2, n, 2))) if rng.random() < .3 else dict(n=n, s=list(range(3, n, 2)))
    return cs

def run(c):
    build('driver'); rng = c.rng
    c.model('MC_False', cfg(invariants=['Laws'], constants=dict(N=4, K=2 if c.quick else 3), deadlock=False))
    S = []
    for _ in range(int(os.environ.get('NN','500')) if c.quick else 5000):
        n = rng.randint(2, 7)
        q = meth(rng, n) if rng.random() < .6 else tplain(rng, n)
        if len(q) > 40: continue
        ev = [E('f_table', x=q, f=f) for f in rng.sample(range(16), 3)]
        q2 = meth(rng, n)[:30]
        ev += [E('f_table2', x=q, y=q2, f=rng.randrange(16))]
        v = [rrow(rng, n) for _ in range(rng.randint(0, 6))] + lead_rows(q2)[:3]
        ev += [E('f_tablev', x=q, y=v, f=rng.randrange(16)), E('f_tablevv', x=v, y=lead_rows(q), f=rng.randrange(16))]
        if n <= 5: ev.append(E('f_group', x=q, f=rng.randrange(16)))
        S.append(ev)
    k = 0
    while k < (int(os.environ.get('KK','120')) if c.quick else 1500):
        n = rng.choice([4, 5, 6, 6, 6, 7, 8, 8, 8, 10])
        q = tplain(rng, n)
        if len(q) > (24 if n > 6 else 40) or not one_course(compose(q)): continue
        k += 1
        ev = [E('f_courses', x=q, f=f) for f in range(4)]
        ev += [E('f_symbols', x=q, f=f, o=rng.choice([0, 0, n, 8])) for f in range(4)]
        S.append(ev)
    rows6 = [r for r in (rrow(rng, 5) for _ in range(60))]
    for n in (6, 8, 10):
        S.append([E('f_lookup', r=[1] + [x + 1 for x in r] + list(range(7, n + 1))) for r in rows6[:60 if n == 6 else 20 if n == 8 else 4]])
    for _ in range(20 if c.quick else 120): S.append([E('f_lookup', r=[1] + [x + 1 for x in rrow(rng, 7)])])
    c.drive_and_check('Trace_Group', S)
