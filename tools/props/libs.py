"""Generators of method libraries in each format."""
from props.common import *
from props.methods import meth
from xml.sax.saxutils import escape
NAMES = ["Cambridge", "Kent", "Little", "Bob", "Plain", "St Simon's", "A & B", "London <1>", "Double Oxford", "Stedman", "", "Single Court", "Place", "Surprise",
         "Treble", "Kent Treble", "Minor", "Yorkshire", "Grandsire", "Union", "Reverse Canterbury Pleasure", "Xy", "Belfast", "Marketplace", "0-1 Method", "Delightful", "Bristol"]
STAGES = {3: "Singles", 4: "Minimus", 5: "Doubles", 6: "Minor", 7: "Triples", 8: "Major", 9: "Caters", 10: "Royal", 11: "Cinques", 12: "Maximus"}
KINDS = ["Bob", "Place", "Treble Bob", "Surprise", "Delight", "Treble Place", "Alliance", "Slow Course", "", "Hybrid"]
def small_meth(rng, n):
    while True:
        q = meth(rng, n)
        if 0 < len(q) <= 40: return q
def plaintext(q, cross=None, rng=None, ext=False):
    """Notation of a sequence of changes; optionally with external places left out."""
    cross = cross or 'x'
    t, last = '', False
    for c in q:
        x = pn(c, cross)
        if ext and rng and x != cross:
            p = places(c)
            if len(p) > 1 and p[-1] == c['n'] and rng.random() < .5: p = p[:-1]
            if len(p) > 1 and p[0] == 1 and rng.random() < .5 and p[1] % 2 == 0: p = p[1:]
            x = ''.join(bt(b) for b in p)
        if t and last and x != cross: t += '.'
        elif t and rng and rng.random() < .1: t += '.'
        t += x; last = x != cross
    return t
def ispal(q):
    n = len(q)
    return n % 2 == 0 and n >= 2 and all(q[i] == q[n - 2 - i] for i in range(n - 1))
def text(rng, q):
    cross = rng.choice('xX-'); ext = rng.random() < .4
    if ispal(q) and rng.random() < .8:
        return '&' + plaintext(q[:len(q) // 2], cross, rng, ext) + ',' + plaintext(q[-1:], cross, rng, ext)
    return rng.choice(['', '', '+']) + plaintext(q, cross, rng, ext)
def symmeth(rng, n):
    for _ in range(300):
        q = small_meth(rng, n)
        if ispal(q) and len(q) >= 4: return q
    return [rchange(rng, n)] * 3 + [rchange(rng, n)]
def bad_pn(rng):
    return rng.choice(['&x1Q', 'x3', '1x2(', '99', '12.21', 'x1{', 'x,&', '13z'])
def name(rng): return rng.choice(NAMES) if rng.random() < .8 else rng.choice(NAMES) + ' ' + rng.choice(NAMES)
def eol(rng, lines):
    e = rng.choice(['\n', '\n', '\r\n'])
    out = ''
    for l in lines:
        if rng.random() < .12: out += rng.choice(['', '', ' ', '\t']) + e if False else e
        out += l + e
    if lines and rng.random() < .2: out = out[:-len(e)]
    return out
def title(rng, n):
    ws = [name(rng)] + (['Differential'] if rng.random() < .15 else []) + (['Little'] if rng.random() < .2 else []) + [rng.choice(KINDS)]
    return ' '.join(w for w in ws + [STAGES.get(n, str(n)) if rng.random() < .85 else 'Minor'] if w)
def lite(rng, kind=None, stages=(4, 5, 6, 7, 8), k=None):
    """dict(kind, b, f, text, _bom, _doc)"""
    req = rng.choice([0, 0] + list(stages)); bom = rng.random() < .25; lines = []
    f = int(rng.random() < .5)
    for _ in range(rng.randint(0, 6) if k is None else k):
        n = rng.choice(stages) if req == 0 or rng.random() < .3 else req
        q = small_meth(rng, n)
        pre = '%d:' % n if req == 0 or n != req or rng.random() < .4 else ''
        if req == 0 and rng.random() < .1: pre = ''
        t = bad_pn(rng) if rng.random() < .08 else text(rng, q)
        lines.append(rng.choice(['', '', '  ', '\t']) + pre + t + rng.choice(['', ' ', '\t', '  \t']) .join(['', ''])
                     + (rng.choice([' ', '\t', ' \t ']) + rng.choice([title(rng, n), title(rng, n), name(rng), 'a\tb', '1234567']) if rng.random() < .8 else '') + rng.choice(['', '', ' ', '\t']))
    t = eol(rng, lines)
    if rng.random() < .15: t = rng.choice([' \n', '\t\r\n', '\r\n', '  ']) + t
    return dict(kind=kind or rng.choice(['lite', 'lites']), b=req, f=f, text=('\xef\xbb\xbf' if bom else '') + t, _bom=bom, _doc=0, _kind='lite')
def ms(rng, stages=(4, 5, 6, 8), k=None, good=False):
    lines = []
    for _ in range(rng.randint(1, 3)):
        n = rng.choice(stages)
        lines.append(rng.choice(['* S%d', '* LD%d and more', '*comment %d', '* TB%d Treble Bob']) % n)
        for _ in range(rng.randint(0, 4) if k is None else k):
            q = symmeth(rng, n); nm = name(rng).replace(' ', '_') or 'Nameless'
            z = rng.randrange(4)
            if z == 0: lines.append('%s %s +%s' % (nm, rng.choice('abz'), plaintext(q, rng.choice('x-'), rng)))
            elif z == 1: lines.append('%s %s&%s' % (nm, pn(q[-1]) + 'z ', plaintext(q[:len(q) // 2], rng.choice('x-'), rng)))
            else: lines.append('%s %s &%s%s' % (nm, rng.choice(['a', 'b1', 'f', 'g', 'm', 'p', 'q2', 'r', 's1', 'z']) if z == 3 else rng.choice('abcdefpq'), plaintext(q[:len(q) // 2], 'x', rng), rng.choice(['', '', '\t'])))
        if not good and rng.random() < .1: lines.append(rng.choice(['Malformed', 'Too many spaces here now', 'No. Name Notation']))
    t = eol(rng, lines)
    return dict(kind='ms', b=0, f=0, text=t, _bom=False, _doc=0, _kind='ms')
def date(rng): return '%d.%d.%d' % (rng.randint(1, 31), rng.randint(1, 12), rng.randint(1700, 2020))
PLACES = ['Ashtead', 'St. Albans', 'London, St Paul', 'Leeds']
def cc(rng, stages=(4, 5, 6, 7, 8), k=None):
    lines = ['Copyright 2004 somebody' if rng.random() < .95 else 'No notice here']
    ref = 1
    for _ in range(rng.randint(1, 3)):
        n = rng.choice(stages); what = rng.choice(['methods'] * 5 + ['principles', 'differentials', 'blocks'])
        kind = rng.choice(['Surprise', 'Delight', 'Treble Bob', 'Treble Place', 'Alliance', 'Hybrid', 'Plain', 'Plain'])
        lit = rng.random() < .25; diff = not lit and rng.random() < .2
        lines += ['', '%s%s%s %s %s' % ('Differential ' if diff else '', 'Little ' if lit else '', kind if what == 'methods' else '', STAGES[n], what), '']
        layout = rng.choice('RRRHN'); W = rng.choice([12, 20]); rows = []
        for _ in range(rng.randint(0, 4) if k is None else k):
            x = rng.choice('xX-'); q = symmeth(rng, n); nm = name(rng) or 'Foo'
            if kind == 'Plain' and rng.random() < .6: nm += ' ' + rng.choice(['Bob', 'Place', 'Slow Course', 'Little Bob', 'Bob Place'])
            elif lit and rng.random() < .7: nm += ' Little'
            if diff and rng.random() < .3: nm += ' Differential'
            if layout == 'R': cols = [plaintext(q[:len(q) // 2 - 1], x, rng), pn(q[len(q) // 2 - 1], x), pn(q[-1], x)]
            elif layout == 'H':
                # first change, then a symmetric section: first , & rest
                first = rchange(rng, n)
                cols = [pn(first, x) + ('' if pn(first, x) == x else '.') + plaintext(q[:len(q) // 2 - 1], x, rng), pn(q[len(q) // 2 - 1], x)]
                if pn(first, x) != x and cols[0].endswith('.'): cols[0] = cols[0][:-1]
            else: cols = [plaintext(q, x, rng)]
            if layout != 'N' and cols[0] and cols[0][-1] not in 'xX-.' and rng.random() < .5 and 0: cols[0] += '.'
            rows.append((nm, cols, rng.choice('abgmz')))
        opt = [o for o in ('tower', 'hand', 'rw', 'ccc') if rng.random() < .6]
        if 'tower' in opt: opt.insert(1, 'place') if rng.random() < .7 else None
        notw = max([10] + [len(r[1][0]) + 1 for r in rows])
        head = 'No.  ' + 'Name'.ljust(W) + 'Notation'.ljust(notw)
        if layout == 'R': head += 'hl   '.ljust(7) + 'le'.ljust(7)
        if layout == 'H': head += 'hl'.ljust(7)
        head += 'lh'.ljust(4)
        hd = dict(tower='Tower bells ', place='Place'.ljust(18), hand='Handbells   ', rw='RW ref    ', ccc='CCC     ')
        if rng.random() < .5: opt = [o for o in opt if o != 'rw'] + (['rw'] if 'rw' in opt else [])
        for o in opt: head += hd[o]
        lines.append(rng.choice([head, head.rstrip()])); lines.append('')
        for nm, cols, lh in rows:
            s = '%4d ' % ref; ref += rng.randint(1, 30); cont = False
            if len(nm) > W - 2:
                s += nm + (' ' if rng.random() < .2 else '')
                if len(s) < 5 + W - 1: s = s.ljust(5 + W - 1, '.')
                lines.append(s); s = ' ' * (5 + W)
            else: s += nm.ljust(W)
            s += cols[0].ljust(notw)
            for cl in cols[1:]: s += cl.ljust(7)
            s += lh.ljust(4)
            for o in opt:
                w = len(hd[o])
                v = dict(tower=date(rng), place=rng.choice(PLACES), hand=date(rng), rw='%d/%d' % (rng.randint(1900, 2000), rng.randint(1, 999)), ccc=rng.choice(['17', '  5a', '103']))[o]
                if rng.random() < .25: v = ''
                s += v.ljust(w)
            lines.append(s.rstrip() if rng.random() < .6 else s)
        if rng.random() < .2: lines.append('  (some remark)')
    e = rng.choice(['\n', '\n', '\r\n'])
    return dict(kind='cc', b=0, f=0, text=e.join(lines) + (e if rng.random() < .8 else ''), _bom=False, _doc=0, _kind='cc')
def xml(rng, stages=(4, 5, 6, 7, 8), k=None):
    iscc = rng.random() < .5; old = rng.random() < .3; sets = []
    for _ in range(rng.randint(0, 3) if iscc else 1):
        st = rng.choice(stages); msx = []
        for _ in range(rng.randint(0, 3) if k is None else k):
            own = not iscc or rng.random() < .3
            n = rng.choice(stages) if own else st
            q = symmeth(rng, n) if rng.random() < .7 else small_meth(rng, n)
            if iscc:
                pal = ispal(q) and rng.random() < .8
                pnn = dict(k='notation', a=plaintext(q[:len(q) // 2], '-', rng) + ',' + plaintext(q[-1:], '-', rng) if pal else plaintext(q, '-', rng), b='', pal=pal)
            elif ispal(q) and rng.random() < .8: pnn = dict(k='sym', a=plaintext(q[:len(q) // 2], 'x', rng), b=plaintext(q[-1:], 'x', rng), pal=False)
            else: pnn = dict(k='block', a=text(rng, q), b='', pal=False)
            def peal():
                if rng.random() < .4: return []
                parts = [rng.choice(PLACES) if rng.random() < .5 else '' for _ in range(8)]
                if not iscc: parts[0] = parts[1] = parts[4] = parts[6] = ''   # room building . . town . region
                else: parts[2] = parts[3] = ''
                d = [rng.randint(1, 28), rng.randint(1, 12), rng.randint(1700, 2020)] if rng.random() < .8 else [0, 0, 0]
                return [dict(date=d, loc=parts, _whole=not iscc and sum(map(bool, parts)) == 1 and rng.random() < .5)]
            msx.append(dict(title=title(rng, n), name=name(rng), stage=n if own else 0, pn=pnn, tower=peal(), hand=peal(),
                            rw=['1990/%d' % rng.randint(1, 99)] if rng.random() < .3 and not iscc else [], ccc=['%d' % rng.randint(1, 99)] if rng.random() < .3 and not iscc else []))
        sets.append(dict(stage=st, ms=msx))
    P = ['room', 'building', 'dedication', 'place', 'town', 'county', 'region', 'country']
    def pealx(tag, p):
        p = p[0]; x = '<%s>' % tag
        if p['date'][0]: x += '<date>%04d-%02d-%02d</date>' % tuple(p['date'][::-1])
        if p['_whole']: x += '<location>%s</location>' % escape(''.join(p['loc']))
        elif any(p['loc']):
            el = ['<%s>%s</%s>' % (t, escape(v), t) for t, v in zip(P, p['loc']) if v]
            rng.shuffle(el); x += '<location>' + ''.join(el) + '</location>'
        return x + '</%s>' % tag
    def m(x):
        o = ['<title>%s</title>' % escape(x['title']), '<name>%s</name>' % escape(x['name'])]
        if x['stage']: o.append('<stage>%d</stage>' % x['stage'])
        p = x['pn']
        if p['k'] == 'notation': o.append('<notation>%s</notation>' % escape(p['a'])); o.append('<symmetry>palindromic</symmetry>' if p['pal'] else rng.choice(['', '<symmetry>rotational</symmetry>']))
        elif p['k'] == 'sym': o.append('<pn><symblock>%s</symblock><symblock>%s</symblock></pn>' % (p['a'], p['b']))
        else: o.append('<pn><block>%s</block></pn>' % escape(p['a']))
        perf = ''
        a, b = ('firstTowerbellPeal', 'firstHandbellPeal') if iscc else ('first-tower', 'first-hand') if old else ('firsttower', 'firsthand')
        if x['tower']: perf += pealx(a, x['tower'])
        if x['hand']: perf += pealx(b, x['hand'])
        if perf: o.append(perf if old else '<performances>%s</performances>' % perf)
        if x['rw'] or x['ccc']: o.append('<refs>%s%s</refs>' % (''.join('<rwref>%s</rwref>' % r for r in x['rw']), ''.join('<ccc>%s</ccc>' % r for r in x['ccc'])))
        rng.shuffle(o)
        if rng.random() < .3: o.insert(rng.randint(0, len(o)), '<!-- remark --><leadHead>12</leadHead>')
        nl = rng.choice(['', '\n  '])
        return '<method>' + nl + nl.join(o) + nl + '</method>'
    body = ''
    for st in sets:
        t = '\n'.join(m(x) for x in st['ms'])
        body += '<methodSet><notes/><properties><stage>%d</stage></properties>%s</methodSet>\n' % (st['stage'], t) if iscc else t
    root = 'collection' if iscc else 'methods'
    t = '<?xml version="1.0"?>\n<%s>%s</%s>\n' % (root, body, root)
    for st in sets:
        for x in st['ms']:
            for p in x['tower'] + x['hand']:
                if not any(p['loc']) and not p['date'][0]: pass
                p.pop('_whole')
    return dict(kind='xml', b=0, f=0, text=t, _bom=False, _doc=dict(sets=sets), _kind='xml')
def anylib(rng, **kw): return rng.choice([lite, ms, cc, xml])(rng, **kw)
