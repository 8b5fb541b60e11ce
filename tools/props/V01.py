from vlib import *
from props.common import *
RR = [[1, 2, 3], [2, 1, 3], [1, 3, 2]]

def as_session(h, fi):
    ev = []
    for x in h:
        if x['op'] == 'p_new': ev.append(E('p_new', m=x['m'], f=fi))
        elif x['r']: ev.append(E(x['op'], r=x['r']))
        else: ev.append(E(x['op']))
    return ev

def run(c):
    build('driver'); rng = c.rng
    g = c.gen('MC_Prover', cfg(invariants=['Laws', 'Emitted'], properties=['Undisturbed', 'Starts'],
              constants=dict(NR=2, K=4 if c.quick else 5, Emit='TRUE'), deadlock=False))
    S = [as_session(h, 1) for h in g]
    S += [as_session(h, 0) for h in rng.sample(g, len(g) // 10)]
    for _ in range(500 if c.quick else 5000):
        pool = [rrow(rng, rng.randint(2, 6)) for _ in range(rng.randint(1, 4))]
        pool += [rng.choice(pool) for _ in range(2)]
        ev = [E('p_new', m=rng.choice([1, 1, 1, 2, 3, 0, -1]), f=rng.choice([1, 1, 0]))]
        up = rng.choice([.4, .5, .7]); depth = 1
        for _ in range(rng.randint(5, 50)):
            k = rng.random()
            if k < up: ev.append(E('p_add', r=rng.choice(pool)))
            elif k < .82: ev.append(E('p_remove', r=rng.choice(pool)))
            elif k < .88: ev.append(E('p_count', r=rng.choice(pool)))
            elif k < .94: ev.append(E('p_branch')); depth += 1
            elif k < .985: ev.append(E('p_drop'))
            else: ev.append(E('p_disable'))
        S.append(ev)
    for _ in range(500 if c.quick else 5000):
        pool = [rrow(rng, rng.randint(2, 5)) for _ in range(rng.randint(1, 6))]
        t = [rng.choice(pool) for _ in range(rng.randint(0, 5))]; u = [rng.choice(pool) for _ in range(rng.randint(0, 8))]
        S.append([E('p_proof', t=t, u=u, m=rng.choice([1, 1, 2, 3, 0, -1]), q=q, how=rng.randint(0, 1)) for q in (0, 1)])
    c.drive_and_check('Trace_Prover', S)
