from vlib import *
from props.common import *
from props.G01 import close, gens
import itertools

def mul(x, y): return [x[i - 1] for i in y]
def run(c):
    build('driver'); rng = c.rng
    c.model('MC_Group', cfg(invariants=['Laws'], constants=dict(N=3, K=3), deadlock=False), note='cosets')
    S = []
    for _ in range(250 if c.quick else 2500):
        n = rng.randint(1, 5 if c.quick else 6)
        k = rng.randrange(4)
        if k == 0: rows = [list(r) for r in itertools.permutations(range(1, n + 1))]
        elif k == 1: rows = [[1] + list(r) for r in itertools.permutations(range(2, n + 2))]; n += 1
        elif k == 2:
            def par(r): return sum(r[i] > r[j] for i in range(len(r)) for j in range(i + 1, len(r))) % 2
            rows = [list(r) for r in itertools.permutations(range(1, n + 1)) if par(r) == 0]
        else:
            g = close([shuffled_like(rng, n) for _ in range(2)], 130)
            if g is None: continue
            rows = sorted([list(r) for r in g])
        if len(rows) > 130: continue
        # part ends: a subgroup of the rows
        pe = [rng.choice(rows) for _ in range(rng.choice([0, 1, 1, 2, 1]))]
        if rng.random() < .2: pe = [rows[0]]
        P = [list(x) for x in close(pe)] if pe else [rows[0]]
        ev = [E('u_new', rows=rows, pe=pe)]
        pre = post = 0; cent = [r for r in rows if all(mul(r, x) == mul(x, r) for x in P)]
        if rng.random() < .3:                # the same row multiplied both ways, registered in either order
            x = rng.choice(cent)
            for o in rng.sample(['u_pre', 'u_post'], 2):
                ev.append(E(o, r=x))
            pre = post = 1
            for _ in range(3):
                ev.append(E('u_mulpre', k=1, r=rng.choice(rows))); ev.append(E('u_mulpost', k=1, r=rng.choice(rows)))
        for _ in range(rng.randint(3, 14)):
            k = rng.randrange(11)
            if k == 0: ev.append(E('u_find', r=rng.choice(rows)))
            elif k == 1:
                r = rng.choice(cent if rng.random() < .7 else rows); ev.append(E('u_pre', r=r)); pre += r in cent
                if rng.random() < .2: ev.append(E('u_pre', r=r)); pre += r in cent
            elif k == 2:
                if len(rows) == len(list(itertools.permutations(range(n)))) and n > 1 and rng.random() < .4: ev.append(E('u_postc', c=rchange(rng, n)))
                else: ev.append(E('u_post', r=rng.choice(rows)))
                post += 1
            elif k in (3, 4) and pre: ev.append(E('u_mulpre', k=rng.randint(1, pre), r=rng.choice(rows)))
            elif k in (5, 6) and post: ev.append(E('u_mulpost', k=rng.randint(1, post), r=rng.choice(rows)))
            elif k == 7 and post: ev.append(E('u_chain', r=rng.choice(rows), c=[rng.randint(1, post) for _ in range(rng.randint(1, 12))]))
            elif k == 8: ev.append(E('u_cmprow', x=rng.choice(rows), y=rng.choice(rows)))
            elif k == 9 and pre: ev.append(E('u_cmppre', i=rng.randint(1, pre), j=rng.randint(1, pre)))
            elif k == 9 and post: ev.append(E('u_cmppost', i=rng.randint(1, post), j=rng.randint(1, post)))
            elif k == 10 and post: ev.append(E('u_cmppost', i=rng.randint(1, post), j=rng.randint(1, post)))
            elif k == 10: ev.append(E('u_copy', x=rng.choice(rows), y=rng.choice(rows)))
        S.append(ev)
        if len(rows) <= 24: S.append([E('u_sq', rows=rows, x=rng.choice(rows), y=rng.choice(rows)) for _ in range(3)])
    c.drive_and_check('Trace_Group', S)
