from vlib import *
from props.common import *
import itertools

def chunk(rng, n):
    """One change, spelt some way; occasionally nonsense."""
    c = rchange(rng, n); p = places(c)
    if not p: return rng.choice('xX-')
    m = rng.randrange(10)
    if m < 5 and len(p) > 1 and p[0] == 1: p = p[1:]
    if m < 4 and len(p) > 1 and p[-1] == n: p = p[:-1]
    t = ''.join(bt(b) if rng.random() < .96 else '{%d}' % b for b in p)
    if rng.random() < .1: t = t.lower()
    return t

def text(rng, n):
    t = ''
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        if k: t += rng.choice([',', ',', ',', ' , ', ', ', '.,', ',,'])
        t += rng.choice(['', '', '&', '&', '+', '& ', '&.', '+.'])
        prev = None
        for _ in range(rng.randint(0, 6)):
            h = chunk(rng, n)
            if prev is not None and (prev not in 'xX-' and h not in 'xX-'): t += rng.choice(['.', '.', '.', ' ', ' . ', '. ', ''])
            elif rng.random() < .2: t += rng.choice(['.', ' '])
            t += h; prev = h
        if rng.random() < .1: t += rng.choice(['.', ' '])
    if rng.random() < .25:   # damage
        i = rng.randint(0, len(t))
        m = rng.randrange(3)
        if m == 0: t = t[:i] + rng.choice(['.', '..', ',', '&', '+', '{', '}', '(', 'i', 'O', 'Z', '9', '/', ';', '{3', '{3}', 'x', '{{', '{{2}}']) + t[i:]
        elif m == 1: t = t[:i] + t[i + 1:]
        elif i < len(t): t = t[:i] + t[i:][::-1]
    return t

def run(c):
    build('driver'); rng = c.rng
    c.model('MC_Method', cfg(invariants=['Spelling'], constants=dict(N=4, K=3 if c.quick else 5), deadlock=False), note='notation round trips')
    S = []
    # every short text over the marks of the notation
    for n in (4, 5):
        al = ['x', '.', ',', '&', '+', '1', '4' if n == 4 else '3', ' ']
        ev = []
        for k in range(0, 5 if c.quick else 6):
            ev += [E('n_parse', n=n, t=''.join(t)) for t in itertools.product(al, repeat=k)]
        for i in range(0, len(ev), 30): S.append(ev[i:i + 30])
    for _ in range(900 if c.quick else 15000):
        n = rng.choice([rng.randint(1, 8), rng.randint(4, 8), rng.randint(9, 16), rng.randint(32, 36)])
        ev = [E('n_parse', n=n, t=text(rng, n)) for _ in range(10)]
        t = text(rng, n) + rng.choice(['}', '}', ')', '.', 'x', '{'])
        ev.append(E('n_range', n=n, t=t, k=rng.randint(0, len(t))))
        ev.append(E('n_range', n=n, t=t, k=len(t) - 1))
        S.append(ev)
    c.drive_and_check('Trace_Method', S)
