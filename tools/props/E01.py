from vlib import *
from props.common import *

def run(c):
    build('driver'); rng = c.rng
    c.model('MC_Extent', cfg(invariants=['Laws'], constants=dict(W=5 if c.quick else 6), deadlock=False))
    S = []
    for w in range(0, 6 if c.quick else 8):
        for h in range(0, 3):
            for x in range(0, 3):
                t = w + h + x
                if w < 6 or x == h == 1:
                    S.append([E('e_all', k=k, w=w, h=h, t=t) for k in (0, 1, 2)])
                f = 1
                for i in range(2, w + 1): f *= i
                ev = [E('e_changes', w=w, h=h, t=t), E('e_random', w=w, h=h, t=t, c=20)]
                for n in (range(f) if f <= 24 else rng.sample(range(f), 24)): ev.append(E('e_nth', n=n, w=w, h=h, t=t))
                for n in range(min(f // 2 or 1, 30)): ev.append(E('e_nthic', n=n, w=w, h=h, t=t))
                for ic in (0, 1):
                    g = f if not ic else max(1, f // 2)
                    for _ in range(8):
                        m = rng.choice([0, g, g, rng.randint(0, g)]); ev.append(E('e_cmp', m=m, n=rng.choice([m, 0, g, rng.randint(0, g), rng.randint(0, g)]), ic=ic, w=w, h=h, t=t))
                S.append(ev)
                # walk the iterator about
                ev, n = [], 0
                ev.append(E('e_begin', w=w, h=h, t=t))
                for _ in range(60):
                    k = rng.random()
                    if k < .04: ev.append(E('e_end', w=w, h=h, t=t)); n = f
                    elif k < .08: ev.append(E('e_begin', w=w, h=h, t=t)); n = 0
                    elif n < f and (k < .6 or n == 0): ev.append(E('e_next')); n += 1
                    elif n > 0: ev.append(E('e_prev')); n -= 1
                S.append(ev)
    for w in range(6, 9 if c.quick else 12): S.append([E('e_changes', w=w, h=h, t=w + h + x) for h in (0, 1) for x in (0, 2)])
    for _ in range(400 if c.quick else 5000):
        w, h, x = rng.randint(0, 11), rng.randint(0, 3), rng.randint(0, 3); t = w + h + x
        f = 1
        for i in range(2, w + 1): f *= i
        ev = [E('e_nth', n=n, w=w, h=h, t=t) for n in {0, f - 1, rng.randrange(f), rng.randrange(f)}]
        ev += [E('e_nthic', n=n, w=w, h=h, t=t) for n in {0, max(0, f // 2 - 1), rng.randrange(max(1, f // 2))}]
        m = list(range(h + 1, h + w + 1)); rng.shuffle(m)
        r = list(range(1, h + 1)) + m + list(range(h + w + 1, t + 1))
        if rng.random() < .3 and t > 1: i = rng.randrange(t - 1); r[i], r[i + 1] = r[i + 1], r[i]
        if rng.random() < .3: r = r + [t + 1]
        while rng.random() < .5 and r and r[-1] == len(r): r.pop()
        ev.append(E('e_pos', r=r, w=w, h=h, t=t))
        ev.append(E('e_random', w=w, h=h, t=t, c=3))
        S.append(ev)
    c.drive_and_check('Trace_Group', S)
