"""methsearch lists only methods that are true, and whose lead heads and half leads are as asked."""
from props.meths import *
def gen(rng, base=base):
    o = base(rng)
    if rng.random() < .45: add_sym(rng, o)
    o['_t'] = target(rng, o); o['_any'] = rng.choice([.3, .6, .8])
    if rng.random() < .35 and o['U'] and lead_len(o) > 3:
        add_cosets(rng, o); o['A'] = True
        if rng.random() < .5: window(rng, o, 6)
    else:
        add_truth(rng, o)
        add_leads(rng, o)
    if rng.random() < .3: add_structure(rng, o, 1)
    if o['mask'] == [ALL] and rng.random() < .4: add_mask(rng, o)
    if rng.random() < .15: add_prefix(rng, o)
    del o['_t'], o['_any']
    return o
FINDS = dict(kf='methsearch without -Fs lists methods that come round in the middle of the lead (methsearch %s)' % ' '.join(DEMO['kf'][:-1]))
def run(c): check(c, 450, 7000, gen, model(c), finds=FINDS)
