"""methsearch lists exactly the methods with the symmetry asked for."""
from props.meths import *
def gen(rng, base=base):
    while 1:
        o = base(rng)
        if lead_len(o) % 2 and rng.random() < .7: continue
        add_sym(rng, o)
        if o['sym'] or o['mirror']: break
    if o['sym'] and o['U'] == 0 and rng.random() < .5 or rng.random() < .1: o['floating'] = True
    o['_t'] = target(rng, o); o['_any'] = rng.choice([.2, .5, .7])
    if rng.random() < .25 and not o['floating'] and o['sym']: window(rng, o, 8)
    else: add_structure(rng, o, rng.choice([0, 0, 1, 1, 2]))
    if o['mask'] == [ALL] and rng.random() < .4: add_mask(rng, o)
    if rng.random() < .1: add_prefix(rng, o)
    o['fl'] = [rng.choice('chnx')] if rng.random() < .6 else []
    o['A'] = rng.random() < .9
    del o['_t'], o['_any']
    return o
FINDS = dict(kg='methsearch -k with an even number of hunts, dodging, lists methods without rotational symmetry (methsearch %s)' % ' '.join(DEMO['kg'][:-1]))
def grid(rng):
    """every kind of symmetry with every number of hunts, on few bells"""
    out = []
    for n in (3, 4, 5, 6, 7):
        for U in (0, 1, 2, 3):
            if 2 * U > n: continue
            for G in ((0, 1) if U and n % 2 == 0 else (0,)):
                for sym in (['s'], ['k'], ['d'], ['s', 'k'], ['s', 'd'], ['k', 'd'], ['s', 'k', 'd'], ['mirror']):
                    if U and U % 2 == 0 and G and (sym == ['k'] or len(sym) > 1): continue      # known_findings.txt
                    for fl in ((False, True) if U == 0 and sym != ['mirror'] else (False,)):
                        o = dict(NONE, b=n, U=U, G=G, front=1, back=n, sym=[k for k in sym if k in 'skd'], mirror=sym == ['mirror'], floating=fl, A=True)
                        if U == 0: o['n'] = rng.choice([2, 4, 6, 8, 12] if n < 5 or not fl else [2, 4, 6])
                        rest = (dict(p=3, l=3), dict(p=2, l=2), dict(p=2, l=2, fl=['l']), dict(p=2, l=1), dict(p=2, l=1, lh='r', A=False))
                        # the loosest that is not too large, and another
                        out.append([dict(o, **x) for x in ({}, dict(p=6), dict(p=4), dict(p=3), dict(p=4, l=3), dict(p=4, l=2)) + rest])
                        if U > 1 or rng.random() < .6: out.append([dict(o, **x) for x in (rng.choice([dict(p=3), dict(p=rng.choice([2, 4]), l=rng.choice([0, 3])), dict(l=2), dict(j=1)]),) + rest])
    return out
def run(c): check(c, 340, 7000, gen, model(c), finds=FINDS, most=700 if c.quick else 1500, first=grid(c.rng))
