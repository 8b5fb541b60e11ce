from vlib import *
from props.common import *
from props import libs
import subprocess, xml.etree.ElementTree as ET, tempfile
NS = '{http://methods.ringing.org/NS/method}'
def fields(text):
    """The fields of a file written by xmlout, read by another XML parser."""
    try: root = ET.fromstring(text.encode('latin-1'))
    except ET.ParseError: return [dict(error=1)]
    out = []
    for m in root.findall(NS + 'method'):
        def tx(p):
            x = m.findall('/'.join(NS + y for y in p.split('/')))
            return [y.text or '' for y in x]
        def one(p): return (tx(p) + [''])[0] if len(tx(p)) == 1 else '?%d' % len(tx(p))
        cc = m.find(NS + 'classification/' + NS + 'cc-class'); co = m.find(NS + 'classification/' + NS + 'lhcode')
        def peal(t):
            p = m.findall(NS + 'performances/' + NS + t)
            return [[(x.findtext(NS + 'date') or ''), (x.findtext(NS + 'location') or '')] for x in p]
        out.append(dict(name=one('name'), title=one('title'), stage=one('stage'), classes=one('classes'), lh=one('lead-head'),
                        cls=cc.get('class', ''), little=cc.get('little', ''), diff=cc.get('differential', ''),
                        code=co.get('code', '') if not [k for k in co.attrib if k.endswith('nil')] else '',
                        block=tx('pn/block'), sym=tx('pn/symblock'), tower=peal('firsttower'), hand=peal('firsthand'), rw=tx('refs/rwref'), ccc=tx('refs/ccc')))
    return out
def drive(ss):
    rec = run_driver([[dict(op=e['op'], a=e['a']) for e in s] for s in ss])
    for s in rec:
        for e in s:
            if e['op'] == 'ms_xml' and e['ok']: e['v']['docs'] = [fields(t) for t in e['v'].pop('text')]
    return rec
def mlib(ev):
    a = ev['a']; d = tempfile.mkdtemp(prefix='verif-mlib-')
    try:
        fs = []
        for i, x in enumerate(a['libs']):
            p = os.path.join(d, '%d8.txt' % i); fs.append(p)
            with open(p, 'wb') as f: f.write(x['text'].encode('latin-1'))
        env = {k: v for k, v in os.environ.items() if not k.startswith('METHOD_LIB') and k != 'METHLIBPATH'}
        p = runp([os.path.join(B, 'methodlib')] + a['args'] + fs, input=a['stdin'].encode('latin-1'), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, env=env)
    except subprocess.TimeoutExpired: return dict(op=ev['op'], a=a, ok=False, v='timeout')
    finally: shutil.rmtree(d)
    out = p.stdout.decode('latin-1').split('\n')
    if out[-1] == '': out.pop()
    ok = p.returncode in (0, 1)
    return dict(op=ev['op'], a=a, ok=ok, v=dict(rc=p.returncode, out=out) if ok else 'crash')
def run_mlib(ss):
    with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(lambda s: [mlib(e) for e in s], ss))
def libev(op, x, **k): return E(op, **dict(dict(kind=x['kind'], b=x['b'], f=x['f'], text=x['text'], _bom=x['_bom'], _doc=x['_doc'], _kind=x['_kind']), **k))
def good(rng, g):
    """A library every entry of which can be read"""
    while True:
        x = g(rng, k=rng.randint(1, 3), **(dict(good=True) if g is libs.ms else {}))
        if x['kind'] == 'lites': x['kind'] = 'lite'
        if x['_kind'] == 'cc' and 'Copyright' not in x['text']: continue
        s = run_driver([[E('l_read', kind=x['kind'], b=x['b'], f=x['f'], twice=0, text=x['text'])]], chunks=1)[0][0]
        if s['ok'] and isinstance(s['v'], list) and s['v'] and all(y['ok'] and y['q'] for y in s['v']):
            x['_v'] = s['v']; return x
def run(c):
    build('driver', 'methodlib'); rng = c.rng
    c.model('MC_Library', cfg(invariants=['Ordered', 'Exact', 'RoundTrip'], constants=dict(N=3, K=2, D=3 if c.quick else 4), deadlock=False), note='a method set under any history')
    with ThreadPoolExecutor(NCPU) as ex:
        seeds = [rng.random() for _ in range(60 if c.quick else 400)]
        pool = list(ex.map(lambda sd: good(random.Random(sd), [libs.lite, libs.ms, libs.cc, libs.xml][int(sd * 1e6) % 4]), seeds))
    # method sets
    S = []
    for _ in range(90 if c.quick else 900):
        ids = [i for i in range(5) if rng.random() < .5]; ev = [E('ms_new', ids=ids)]; known = []
        for _ in range(rng.randint(2, 9)):
            k = rng.randrange(12)
            if k <= 3 or not known:
                n = rng.choice([3, 4, 5, 6, 6, 7, 8, 10]); q = libs.small_meth(rng, n) if rng.random() < .6 or not known else list(rng.choice(known)[0])
                nm = libs.name(rng); known.append((q, nm)); ev.append(E('ms_add', m=q, name=nm))
            elif k == 4:
                x = rng.choice(pool); ev.append(libev('ms_lib', x))
                known += [(y['q'], y['base']) for y in x['_v']]
            elif k == 5 and rng.random() < .3: ev.append(E('ms_clear'))
            elif k == 6: ev.append(E('ms_list'))
            elif k == 7: ev.append(E('ms_stream', bells=rng.randint(0, 1), form=rng.randint(0, 4)))
            elif k <= 9:
                q, nm = rng.choice(known); m = list(q)
                if rng.random() < .2: m = m[:-1]
                if not m: m = q
                from_title = nm + ' ' + rng.choice(libs.KINDS) + ' ' + libs.STAGES.get(q[0]['n'], '') if rng.random() < .5 else None
                ev.append(E('ms_find', m=m, title=from_title or '@%d' % (len(known) - 1), name=nm.upper() if rng.random() < .3 else nm if rng.random() < .8 else 'Nothing', stage=rng.choice([0, q[0]['n'], q[0]['n'] + 1])))
            else:
                q, nm = rng.choice(known); kind = rng.randint(0, 4); d = rng.random() < .8
                ev.append(E('ms_facet', m=q, kind=kind, text=rng.choice(libs.PLACES + ['A & B <C>', '12']), d=rng.randint(1, 28) if d else 0, mo=rng.randint(1, 12) if d else 0, y=rng.randint(1700, 2020) if d else 0))
        if known:
            for _ in range(2):
                if rng.random() < .6:
                    q, nm = rng.choice(known); ev.append(E('ms_facet', m=q, kind=rng.randint(1, 4), text=rng.choice(libs.PLACES + ['A & B <C>', '12']), d=rng.randint(1, 28), mo=rng.randint(1, 12), y=rng.randint(1700, 2020)))
            ev.append(E('ms_xml', k=rng.choice([1, 1, 2, 3]), flush=rng.randint(0, 1)))
        S.append(ev + [E('ms_list'), E('ms_stream', bells=1, form=rng.randint(0, 4))])
    # titles to look for: those of methods in the sets
    tit = {}
    for s in run_driver(S):
        for e in s:
            if e['op'] == 'ms_list' and e['ok']:
                for y in e['v']: tit.setdefault(json.dumps(y['q']), y['full'])
    for s in S:
        for e in s:
            if e['op'] == 'ms_find' and e['a']['title'].startswith('@'): e['a']['title'] = tit.get(json.dumps(e['a']['m']), 'No Such Title')
    c.traces_ok('Trace_Library', drive(S), drive, name='sets')
    # methodlib
    G = []
    auto = [x for x in pool if x['_kind'] != 'lite']
    for _ in range(60 if c.quick else 600):
        L = [dict({k: v for k, v in rng.choice(auto).items() if k != '_v'}, kind='auto') for _ in range(rng.choice([1, 1, 2]))]
        vs = [y for x in L for p in auto if p['text'] == x['text'] for y in p['_v']]
        a = dict(libs=L, stage=0, len=0, titles=[], payloads=[], suffixes=[], starts='', bytitle=False, payload=False, bells=False, form=0, args=[], stdin='')
        for x in L: x['a'] = 0
        args = []
        if rng.random() < .25: a['stage'] = rng.choice(vs)['b']; args += ['-b', str(a['stage'])]
        if rng.random() < .2: a['len'] = len(rng.choice(vs)['q']); args += ['-l', str(a['len'])]
        if rng.random() < .5: a['bells'] = True; args += ['-B']
        mode = rng.randrange(4)
        form = rng.choice(['', '', '-f', '-P'])
        if mode == 1: a['starts'] = rng.choice([y['full'][:rng.randint(1, 8)] for y in vs] + ['Zz']); args += ['--starts-with=' + a['starts']]
        if mode >= 2:
            a['bytitle'] = True
            sfx = sorted({y['full'].split(' ')[-1] for y in vs})[:3] if rng.random() < .4 else []
            for _ in range(rng.randint(1, 4)):
                t = rng.choice(vs)['full']
                if sfx and rng.random() < .8: t = t.rsplit(' ', 1)[0]
                if rng.random() < .15: t = 'Absent ' + t
                if t.strip() == t and t and '#' not in t: a['titles'].append(t)
            if not a['titles']: continue
            if sfx: a['suffixes'] = sfx; args += ['-S', ':'.join(sfx)]
            a['payloads'] = list(a['titles'])
            if mode == 3:
                args.append('-T'); ls = []
                if form == '' and rng.random() < .5:
                    a['payload'] = True; args.append('-a'); a['payloads'] = [rng.choice(['', 'p %d' % i, 'x\ty']) for i in range(len(a['titles']))]
                for i, t in enumerate(a['titles']):
                    if rng.random() < .2: ls.append(rng.choice(['', '# remark', '   ']))
                    ls.append(t + ('\t' + a['payloads'][i] if a['payload'] and (a['payloads'][i] or rng.random() < .0) else '') + rng.choice(['', '', '  ', '# no', '\r']))
                a['stdin'] = '\n'.join(ls) + '\n'
            else: args += [x for t in a['titles'] for x in ('-t', t)]
        if form: args.append(form); a['form'] = 3 if form == '-f' else 4
        a['args'] = args
        G.append([dict(op='methodlib', a=a)])
    c.traces_ok('Trace_Library', run_mlib(G), run_mlib, name='methodlib')
