"""Row expressions (rowcalc) against spec/Rowcalc."""
import os, subprocess, itertools, tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from props.common import *

def rtext(r): return ''.join(bt(b) for b in r)

def lit(rng, n, ch):
    if ch:
        k = rng.randrange(6)
        if k < 3: return rtext(sorted(rng.sample(range(1, n + 1), rng.randint(1, n))))
        if k == 3: return rng.choice('xX')
        if k == 4 and rng.random() < .2: return rtext(rrow(rng, rng.choice([n - 1, n + 1]) or 1))
        return rtext(rrow(rng, n))
    m = rng.choice([n, n, n, rng.randint(1, n)])
    r = rrow(rng, m) if rng.random() < .7 else near(rng, m)
    t = rtext(r)
    if rng.random() < .3 and r[0] == 1 and m > 1: t = t[1:]
    if rng.random() < .1: t = t.lower()
    if rng.random() < .02: t = t[:-1] + bt(min(n + 2, 16))
    return t

def near(rng, n):
    r = list(range(1, n + 1))
    for _ in range(rng.randint(0, 2)):
        if n < 2: break
        i = rng.randrange(n - 1); r[i], r[i + 1] = r[i + 1], r[i]
    return r

def expr(rng, n, ch, d, size, src, ingroup=False):
    """tokens; size[0] bounds the number of rows"""
    if d <= 0 or rng.random() < .15:
        if src and rng.random() < .25: return [rng.choice(src)]
        return [lit(rng, n, ch)]
    k = rng.randrange(14)
    E_ = lambda: expr(rng, n, ch, d - 1, size, src, ingroup)
    if k < 3: return E_() + [rng.choice('**/\\')] + E_()
    if k == 3 and not ingroup: return E_() + ['-'] + E_()
    if k == 4: return E_() + ['^'] + E_()
    if k == 5: return E_() + ['^', rng.choice('+-'), str(rng.randint(0, 12))]
    if k == 6: return E_() + ['^', str(rng.choice([0, 1, 2, 3, 5, 22, 12, 100, 999, 21]))]
    if k == 7: return ['('] + E_() + [')']
    if k == 8 and n <= 5:
        out = ['<']
        for i in range(rng.randint(1, 2)): out += ([','] if i else []) + expr(rng, n, ch, d - 1, size, src, True)
        return out + ['>']
    out = ['{']
    for i in range(rng.randint(1, 3)): out += ([','] if i else []) + E_()
    return out + ['}']

def spoil(rng, ts):
    ts = list(ts); k = rng.randrange(3); i = rng.randrange(len(ts))
    if k == 0: del ts[i]
    elif k == 1: ts.insert(i, rng.choice(['-', '*', '^', '(', ')', '{', '}', ',', '<', '>', '+', '/', '\\']))
    else: ts[i] = rng.choice(['-', '*', '^', '(', ')', '{', '}', ',', '<', '>', '+', '/', '\\'])
    return ts

def glue(rng, ts):
    out = ''
    for i, t in enumerate(ts):
        need = i and t[0].isalnum() and ts[i - 1][-1].isalnum()
        if i and ts[i - 1] == '<' and t[0] == '(': need = True
        out += (' ' if need or rng.random() < .2 else '') + t
    return out

def weight(ts):
    """a crude bound on how many rows come out"""
    w = 1
    for t in ts:
        if t in '{,': w *= 1.6
        if t == '<': w *= 8
    return w

def calc(ev):
    a = ev['a']
    with tempfile.TemporaryDirectory(prefix='rowcalc') as d:
        for x in a['_src']:
            if x['t'] == '<(f)': open(os.path.join(d, 'f'), 'w').write(x['text'])
        cmd = [os.path.join(B, 'rowcalc')] + (['-b', str(a['b'])] if a['b'] else []) + (['-C'] if a['ch'] else []) + (['-c'] if a['count'] else [])
        inp = ''.join(t + '\n' for t in a['texts']) if a['lines'] else ''.join(x['text'] for x in a['_src'] if x['t'] == '<(-)')
        if not a['lines']: cmd += a['texts']
        try: p = runp(cmd, input=inp, text=True, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, env=dict(os.environ, TERM='dumb'))
        except subprocess.TimeoutExpired: return dict(op=ev['op'], a=a, ok=False, v='timeout')
    out = p.stdout.split('\n')
    if out[-1] == '': out.pop()
    else: out.append('(no newline)')
    return dict(op=ev['op'], a=a, ok=p.returncode in (0, 1), v=dict(rc=p.returncode, out=out) if p.returncode in (0, 1) else 'crash')
def run_calc(sessions):
    with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(lambda s: [calc(e) for e in s], sessions))

def run(c):
    build('rowcalc'); rng = c.rng
    c.model('MC_Rowcalc', cfg(invariants=['ShowParses', 'Accepted', 'Laws'], constants=dict(MAXLEN=4 if c.quick else 5), deadlock=False), note='every short token sequence and small expression')
    S = []
    def add(exprs, n, ch, b, count, lines, src):
        S.append([E('rowcalc', exprs=exprs, texts=[glue(rng, t) for t in exprs], b=b, ch=ch, count=count, lines=lines,
                    _src=[dict(t=t, rows=r, text=x) for t, r, x in src])])
    for _ in range(900 if c.quick else 12000):
        n = rng.choice([3, 3, 4, 5, rng.randint(6, 12)]); ch = rng.random() < .25
        b = n if ch else rng.choice([0, 0, n, n, n + 2, max(1, n - 1)])
        src = []
        for t in (['<(-)'] if rng.random() < .2 else []) + (['<(f)'] if rng.random() < .2 else []):
            rows = [rrow(rng, n) for _ in range(rng.randint(0, 4))]
            x = ''.join(rtext(r) + rng.choice(['\n', ' ', ', ', '\r\n', ';']) for r in rows)
            if rng.random() < .3: x = x.rstrip()
            if rng.random() < .15: x = '\ufeff' + x
            src.append((t, rows, x))
        if rng.random() < .15:
            rows = [rrow(rng, n) for _ in range(rng.randint(0, 3))]
            src.append(('$(echo ' + ' '.join(map(rtext, rows)) + ')', rows, ''))
        exprs = []
        lines = not any(t == '<(-)' for t, _, _ in src) and rng.random() < .15
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            while True:
                ts = expr(rng, n, ch, rng.randint(0, 4), None, [t for t, _, _ in src])
                if weight(ts) < 150 and ts.count('<(-)') <= 1: break
            if rng.random() < .1: ts = spoil(rng, ts)
            exprs.append(ts)
        if sum(ts.count('<(-)') for ts in exprs) > 1: continue
        if any('<' in ts for ts in exprs) and any(not r for _, r, _ in src): continue    # no group of no rows
        texts = exprs
        if any(not ts or ts[0] in '-+' for ts in exprs): continue
        add(exprs, n, ch, b, rng.random() < .15, lines, src)
    # standard input at each place in an expression
    for _ in range(350 if c.quick else 4000):
        n = rng.choice([3, 4, 5]); lines = False
        rows = [rrow(rng, n) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
        x = ''.join(rtext(r) + '\n' for r in rows)
        while True:
            ts = expr(rng, n, False, rng.randint(1, 3), None, [])
            if '<' not in ts and weight(ts) < 60: break
        ls = [i for i, t in enumerate(ts) if t not in '-*/\\^(){},+' and not (i and (ts[i - 1] == '^' or ts[i - 1] in '+-' and i > 1 and ts[i - 2] == '^'))]
        if not ls: continue
        i = rng.choice(ls); ts[i] = '<(-)'
        if ts[0] in '-+': continue
        add([ts], n, False, n, rng.random() < .1, False, [('<(-)', rows, x)])
    # every token sequence of a few tokens
    al = ['231', '2', '-', '*', '^', '(', ')', '{', '}', ',', '<', '>']
    seqs = [list(t) for k in range(1, 5 if c.quick else 6) for t in itertools.product(al, repeat=k) if t[0] not in '-']
    if c.quick: seqs = [t for t in seqs if len(t) < 4 or rng.random() < .05]
    else: seqs = [t for t in seqs if len(t) < 5 or rng.random() < .05]
    for i in range(0, len(seqs), 40): add(seqs[i:i + 40], 3, False, 0, False, True, [])
    c.traces_ok('Trace_Rowcalc', run_calc(S), run_calc, name='rowcalc')
