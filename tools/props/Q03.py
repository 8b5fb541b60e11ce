"""Symbols in gsiril programs against spec/Siril."""
from vlib import *
from props.siril import *
def run(c):
    check(c, 3000, 50000, scopes(c.rng, 400 if c.quick else 6000), [siril_model(['Forgets', 'Laws'])],
          w=dict(defvar=6, deftouch=3, echo=3, prove=4, foreach=1.5, hook=1.5, loop=.3, everyrow=1), mix=dict(assign=4, save=2, inc=2, string=2, sym=4), opts=1.5)
