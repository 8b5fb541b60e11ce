"""Splices between methods (splices) against spec/Splices."""
import os, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from props.common import *
from props.meths import base, target, fitting, hunts_at, rows_of, inverse, times, blows
from props import X04
def text(r): return ''.join(bt(b) for b in r)
def change_of(n, pl):
    s, p = [], 1
    while p < n:
        if p in pl: p += 1
        else: s.append(p); p += 2
    return dict(n=n, s=s)
def relatives(rng, o, k):
    """k methods that are much alike, as places made in each change"""
    t = target(rng, o); out = []
    L, n = len(t), o['b']
    if rng.random() < .5 and n < 7:        # every mixture of a few alterations
        three = rng.random() < .6
        i, j = rng.sample(range(L // 2), 2) if 's' in o['sym'] else rng.sample(range(L), 2)
        opts = lambda i: [t[i]] + [fitting(rng, o, i) for _ in range(2 if three else 1)]
        for c in opts(i):
            for d in opts(j):
                q = [list(x) for x in t]
                for h, e in ((i, c), (j, d)):
                    q[h] = e
                    if 's' in o['sym'] and h != L - 1: q[L - 2 - h] = e
                if q not in out: out.append(q)
        rng.shuffle(out); k = max(k, len(out))
    while len(out) < k:
        q = [list(x) for x in rng.choice(out + [t])]
        for _ in range(rng.choice([0, 1, 1, 2])):
            i = rng.choice([L - 1, L - 1, L // 2 - 1, rng.randrange(L)]); c = fitting(rng, o, i)
            q[i] = c
            if 's' in o['sym'] and i != L - 1: q[L - 2 - i] = c
        z = rng.random()
        if z < .08: q = target(rng, o)
        elif z < .12 and 's' in o['sym']: q = q[L // 2:] + q[:L // 2]
        if q not in out or rng.random() < .03: out.append(q)
        elif rng.random() < .05: t = target(rng, o)
    return out
NAMES = ['Cm', 'Bv', 'Su', '1', '10', '9', '142B', '142', '42A', 'x', 'Ab', 'a b', "St. M's", 'Ip', 'Nw', 'Bk', '007', 'Z&Y', '12', 'Do']
def session(rng):
    while 1:
        o = base(rng, U=1, n=rng.choice([4, 4, 5, 5, 6, 6, 6, 6, 3, 7]))
        if (o['front'], o['back']) == (1, o['b']) and o['G'] <= 1: break
    if rng.random() < .9: o['sym'] = ['s']
    n = o['b']
    s = dict(b=n, null=False, inc=False, outc=False, half=False, same=False, pn=False, group=False, pg=False, pf=False, leads=-1, filter=False, given=0, meths=[], lines=[],
             userows=False, stdinrows=False, rows=[])
    k = rng.choice([2, 3, 4, 5, 6, 7]) if n < 7 else rng.choice([2, 3])
    ms = relatives(rng, o, k); z = rng.random()
    if z < .3: s['inc'] = True
    elif z < .42: s['outc'] = True
    s['half'] = rng.random() < .2
    s['pn'] = rng.random() < .2; s['same'] = rng.random() < .25
    s['given'] = rng.choice([0, 0, 0, 0, 1, 2])
    z = rng.random()
    if s['given'] == 2 and z < .5: s[rng.choice(['pg', 'pf'])] = True
    elif z < .5 and s["given"] == 0: s['group'] = True
    elif z < .8 and s["given"] < 2: s['filter'] = True
    if not s['group'] and not (s['filter'] and s['given'] == 0):
        if rng.random() < .3: s['null'] = True
        elif rng.random() < .3: s['leads'] = rng.choice([1, 1, 2, 3, 6, 10, 12, 60])
    elif s['group'] and rng.random() < .3: s['leads'] = rng.choice([1, 2, 3, 6, 12])
    if s['filter']: s['pn'] = False
    k = len(ms); names = rng.sample(NAMES, k)
    if s['given']: s['meths'] = [X04.dot(rng, n, m) for m in ms[:s['given']]]
    if s['given'] < 2:
        sm = [m for m in ms]
        if s['given'] == 1 and rng.random() < .6: sm = sm[1:]
        rng.shuffle(sm)
        for m, nm in zip(sm, names): s['lines'].append(X04.dot(rng, n, m) + ('\t' + nm if rng.random() < .92 else ''))
    file = False
    if not s['group'] and not s['filter'] and rng.random() < .2:
        s['userows'] = True; q = rng.choice(ms); rs = rows_of(n, q)[:-1]
        if rng.random() < .5: x = rrow(rng, n); rs = [times(x, r) if rng.random() < .5 else r for r in rs]
        if rng.random() < .4: rs = rng.sample(rs, rng.randint(1, len(rs)))
        s['rows'] = rs
        if rng.random() < .4 or s['stdinrows']: s['stdinrows'] = True
        else: file = True
        if s['stdinrows']: s['lines'] = []
    if any(m[:1] == '-' for m in s['meths']): s['meths'] = ['+' + m if m[:1] == '-' else m for m in s['meths']]
    args = [rng.choice(['-b%d' % n, '--bells=%d' % n])]
    for kk, ss, l in (('null', 'n', 'null-splice'), ('inc', 'i', 'in-course'), ('outc', 'o', 'out-of-course'), ('half', 'h', 'half-lead'), ('same', 'e', 'same-lead-ends'),
                      ('pn', 'p', 'place-notation'), ('group', 'g', 'group-together'), ('pg', 'G', 'print-group'), ('pf', 'F', 'print-falseness'), ('filter', 'I', 'filter')):
        if s[kk]: args.append(rng.choice(['-' + ss, '--' + l]))
    if s['leads'] >= 0: args.append(rng.choice(['-l%d', '--leads=%d']) % s['leads'])
    if s['stdinrows']: args.append('--read-rows')
    if file: args.append('--rows-file=rows')
    rng.shuffle(args)
    i = rng.randint(0, len(args))
    return E('splices', args=args[:i] + s['meths'] + args[i:], file=file, _o=s)
def one(ev):
    a = ev['a']; o = a['_o']; rows = ''.join(text(r) + '\n' for r in o['rows'])
    with tempfile.TemporaryDirectory(prefix='splices') as d:
        if a['file']: open(os.path.join(d, 'rows'), 'w').write(rows)
        inp = rows if o['stdinrows'] else ''.join(x + '\n' for x in o['lines'])
        try: p = runp([os.path.join(B, 'splices')] + a['args'], input=inp, text=True, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, env=dict(os.environ, TERM='dumb'))
        except subprocess.TimeoutExpired: return dict(op=ev['op'], a=a, ok=False, v='timeout')
    out = p.stdout.split('\n')
    if out[-1] == '': out.pop()
    else: out.append('(no newline)')
    return dict(op=ev['op'], a=a, ok=True, v=dict(rc=p.returncode, l=out)) if p.returncode in (0, 1) else dict(op=ev['op'], a=a, ok=False, v='crash')
def run_splices(sessions):
    with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(lambda s: [one(e) for e in s], sessions))
def run(c):
    build('splices')
    for n, ln, k in [(3, 4, 3)] + ([(4, 2, 1)] if c.quick else [(4, 3, 4)]):
        c.model('MC_Splices', cfg(invariants=['Spliced', 'Classes'], constants=dict(N=n, LEN=ln, PAIRS=k), deadlock=False), note='splices of every pair of methods of %d changes on %d bells' % (ln, n))
    S = [[session(c.rng)] for _ in range(2000 if c.quick else 8000)]
    R = run_splices(S)
    print('%d runs, %d lines' % (len(R), sum(len(e['v']['l']) for s in R for e in s if e['ok'])))
    c.traces_ok('Trace_Splices', R, run_splices, name='splices')
