from vlib import *
from props.common import *
from props import libs
def run(c):
    build('driver'); rng = c.rng; S = []
    for g in (libs.lite, libs.ms, libs.cc, libs.xml):
        for _ in range(60 if c.quick else 800):
            x = g(rng); ev = []
            if x['kind'] in ('ms', 'cc', 'xml') and rng.random() < .3: x['kind'] = 'auto'
            ev.append(E('l_read', kind=x['kind'], b=x['b'], f=x['f'], twice=int(rng.random() < .5), text=x['text'], _bom=x['_bom'], _doc=x['_doc'], _kind=x['_kind']))
            S.append(ev)
    c.drive_and_check('Trace_Library', S, name='reading')
    # looking up: by title, by changes, by name
    pre = []
    for g in (libs.lite, libs.lite, libs.ms, libs.cc, libs.xml):
        for _ in range(25 if c.quick else 300):
            x = g(rng, k=rng.randint(1, 3))
            if x['kind'] == 'lites': x['kind'] = 'lite'
            if x['_kind'] == 'cc' and 'Copyright' not in x['text']: continue
            pre.append([E('l_read', kind=x['kind'], b=x['b'], f=x['f'], twice=0, text=x['text'], _x=x)])
    F = []
    for s in run_driver(pre):
        e = s[0]; x = e['a']['_x']
        if not e['ok'] or not isinstance(e['v'], list) or not e['v'] or any(not y['ok'] or not y['q'] for y in e['v']): continue
        y = rng.choice(e['v'])
        nm = y['name'] if rng.random() < .8 else 'No such'
        if rng.random() < .3: nm = nm.upper()
        q = list(y['q'])
        if rng.random() < .2: q = q[:-1] + [rchange(rng, y['b'])]
        F.append([E('l_find', kind=x['kind'], b=x['b'], f=x['f'], title=rng.choice([y['full']] * 4 + [y['name'], y['base']]), m=q, stage=rng.choice([0, y['b'], y['b'], y['b'] + 1]), name=nm,
                    text=x['text'], _bom=x['_bom'], _doc=x['_doc'], _kind=x['_kind'])])
    c.drive_and_check('Trace_Library', F, name='finding')
    P = []
    for _ in range(60):
        dirs = range(6); path = [rng.randint(1, 5) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
        P.append([E('l_path', have=rng.sample(dirs, rng.randint(0, 3)) if rng.random() < .7 or not path else list({rng.choice(path), rng.choice(path)}), path=path, abs=rng.choice([0, 0, 0, rng.randint(1, 5)]),
                    via=rng.choice([0, 0, 1, 2, 3]), pre='* S8\r\nM', post=' a &X18X18X18X18\r\n')])
    c.drive_and_check('Trace_Library', P, name='path')
