"""methsearch lists every method with the structure asked for, and no other, in order."""
from props.meths import *
def gen(rng, base=base):
    o = base(rng)
    k = rng.random()
    if k < .6: add_sym(rng, o)
    o['_t'] = target(rng, o); o['_any'] = rng.choice([.1, .3, .6])
    if rng.random() < .4: window(rng, o)
    else: add_structure(rng, o, rng.choice([0, 1, 1, 1, 2, 2, 3]))
    if o['mask'] == [ALL] and rng.random() < .55: add_mask(rng, o)
    if rng.random() < .15: add_prefix(rng, o)
    if rng.random() < .1: add_from(rng, o)
    if rng.random() < .2: o['fl'] = [rng.choice('cclhn')]
    o['A'] = rng.random() < .85
    if o['U'] % 2 and rng.random() < .15: o['E'] = True
    del o['_t'], o['_any']
    return o
FINDS = dict(ky='methsearch -y with -k or -d lists methods with a section that is not symmetric, if symmetry settles its second half (methsearch %s)' % ' '.join(DEMO['ky'][:-1]))
def run(c): check(c, 450, 7000, gen, model(c), finds=FINDS)
