"""Shared machinery: build, run the driver, run TLC, confirm, write evidence."""
import signal, os, sys, json, time, subprocess, re, shutil, random, hashlib, threading, select
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
SPEC = os.path.join(V, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = max(1, min(8, os.cpu_count() or 1))

class CheckError(Exception): pass

# --- building ---------------------------------------------------------------
def build(*targets):
    os.makedirs(B, exist_ok=True)
    t0 = time.time()
    p = subprocess.run(['make', '-j%d' % NCPU, '-f', os.path.join(V, 'harness', 'Makefile'), 'R=' + R, 'B=' + B] +
                       [os.path.join(B, t) for t in targets], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(p.stdout[-4000:])
        raise CheckError('build failed')
    return time.time() - t0

# --- driver -------------------------------------------------------------------
def E(op, **args): return dict(op=op, a=args)

def _esc(s):
    return ''.join({'\\': '\\\\', '\t': '\\t', '\n': '\\n', '\r': '\\r', '\0': '\\0'}.get(c, c) for c in s)
def enc(v):
    if isinstance(v, bool): return '1' if v else '0'
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return _esc(v)
    if isinstance(v, dict) and 's' in v and 'n' in v: return '%d:%s' % (v['n'], ' '.join(map(str, v['s'])))
    if isinstance(v, (list, tuple)):
        if not v: return ''
        if all(isinstance(x, int) and not isinstance(x, bool) for x in v): return ' '.join(map(str, v))
        if all(isinstance(x, str) for x in v): return '\x1f'.join(_esc(x) for x in v)
        return ';'.join(enc(x) for x in v)
    raise CheckError('cannot encode %r' % (v,))
def line_of(ev): return '\t'.join([ev['op']] + [enc(x) for k, x in ev['a'].items() if k[0] != '_'])

hangs = 0              # programs that did not end (there are none in a sound tree): then less time is given to those that follow
def patience(t): return t if hangs < 3 else min(t, 5) if hangs < 16 else min(t, 1)
def runp(cmd, timeout, **kw):
    global hangs
    try: return subprocess.run(cmd, timeout=patience(timeout), **kw)
    except subprocess.TimeoutExpired:
        if timeout >= 20: hangs += 1
        raise

def _drive(lines, timeout):
    """Run the driver over a list of lines; (list of answers, shorter if it died; whether it hung)."""
    global hangs
    p = subprocess.Popen([os.path.join(B, 'driver')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    def feed():
        try: p.stdin.write(('\n'.join(lines) + '\n').encode('latin-1')); p.stdin.close()
        except OSError: pass
    threading.Thread(target=feed, daemon=True).start()
    buf, hung = [], False
    while True:
        if not select.select([p.stdout], [], [], patience(timeout))[0]:
            hung = True; hangs += 1; p.kill(); break
        b = os.read(p.stdout.fileno(), 1 << 16)
        if not b: break
        buf.append(b)
    p.wait(); p.stdout.close()
    if p.returncode == -signal.SIGALRM: hung = True; hangs += 1    # the driver's own limit for one operation
    out = b''.join(buf).decode('latin-1').split('\n')
    last = out.pop()
    if last and not hung: out.append(last)
    if p.returncode == 3: raise CheckError('driver: unknown operation')
    return out, hung

def _run_chunk(sessions, timeout):
    res, i = [], 0
    while i < len(sessions):
        lines = []
        for s in sessions[i:]:
            lines.append('session')
            lines += [line_of(e) for e in s]
        out, hung = _drive(lines, timeout)
        pos = 0
        died = False
        while i < len(sessions):
            s = sessions[i]
            if pos >= len(out): died = True
            pos += 1
            rec = []
            for e in s:
                if pos < len(out):
                    try: r = json.loads(out[pos])
                    except ValueError: r = dict(ok=False, v='garbled')
                    rec.append(dict(op=e['op'], a=e['a'], ok=r['ok'], v=r['v']))
                    pos += 1
                else:
                    died = True
                    rec.append(dict(op=e['op'], a=e['a'], ok=False, v='timeout' if hung else 'crash'))
                    break
            res.append(rec)
            i += 1
            if died: break
        if hung and len(sessions) > 1:     # what follows is left
            res += [[] for _ in sessions[i:]]
            break
    return res

def run_driver(sessions, timeout=120, chunks=NCPU):
    """sessions: list of lists of events -> same with ok/v recorded."""
    n = max(1, (len(sessions) + chunks - 1) // chunks)
    parts = [sessions[k:k + n] for k in range(0, len(sessions), n)]
    with ThreadPoolExecutor(chunks) as ex:
        return [r for part in ex.map(lambda p: _run_chunk(p, timeout), parts) for r in part]

# --- TLC ------------------------------------------------------------------------
class TlcResult:
    pass

def tlc(module, cfg, env=None, workers=NCPU, timeout=600, args=(), mem='6g', tag=''):
    meta = os.path.join(B, 'tlc', '%s%s-%d-%d' % (module, tag, os.getpid(), threading.get_ident() % 100000))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cfgp = os.path.join(meta, module + '.cfg')
    with open(cfgp, 'w') as f: f.write(cfg)
    e = dict(os.environ); e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-Xmx' + mem, '-Xss64m', '-XX:+UseParallelGC', '-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', os.path.join(meta, 'm'), '-noGenerateSpecTE', '-config', cfgp] + list(args) + [module + '.tla']
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.out, r.rc, r.wall = p.stdout, p.returncode, time.time() - t0
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    r.deadlock = 'Deadlock reached' in r.out
    r.invariant = re.findall(r'Invariant (\S+) is violated', r.out)
    r.finished = 'Model checking completed. No error has been found' in r.out
    r.error = None
    if not r.finished and not r.deadlock and not r.invariant:
        r.error = '\n'.join(l for l in r.out.split('\n') if not l.startswith(('Parsing', 'Semantic', 'Picked')))[-3000:]
    return r

def cfg(spec='Spec', invariants=(), constants=None, deadlock=True, properties=(), constraint=None, postcondition=None, view=None):
    s = 'SPECIFICATION %s\n' % spec
    for i in invariants: s += 'INVARIANT %s\n' % i
    for i in properties: s += 'PROPERTY %s\n' % i
    for k, v in (constants or {}).items(): s += 'CONSTANT %s = %s\n' % (k, v)
    if constraint: s += 'CONSTRAINT %s\n' % constraint
    if postcondition: s += 'POSTCONDITION %s\n' % postcondition
    if view: s += 'VIEW %s\n' % view
    s += 'CHECK_DEADLOCK %s\n' % ('TRUE' if deadlock else 'FALSE')
    return s

# --- one check --------------------------------------------------------------------
class Check:
    def __init__(self, pid, tier, title=''):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.parts = [], [], []
        self.violations = 0
        self.run = os.path.join(B, 'run', pid)
        shutil.rmtree(self.run, ignore_errors=True)
        os.makedirs(self.run)
        self.rng = random.Random('%s/%d' % (pid, SEED))

    @property
    def quick(self): return self.tier == 'quick'

    def violation(self, name, what):
        path = os.path.join(self.run, 'violation-%s.json' % name)
        with open(path, 'w') as f: json.dump(what, f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        d = json.dumps({k: v for k, v in what.items() if k != 'session'}, default=str)
        print('  ' + (d if len(d) < 1500 else d[:1500] + '...'))
        sys.stdout.flush()
        self.violations += 1

    def model(self, module, cfgtext, note='', **kw):
        """Explore a closed model; a violation of the model itself is an error of the check."""
        r = tlc(module, cfgtext, **kw)
        if not r.finished:
            sys.stderr.write(r.out[-4000:])
            raise CheckError('model %s failed' % module)
        self.states += r.distinct; self.transitions += r.generated
        self.parts.append('%s%s: %d distinct states, %d transitions, %.0fs' % (module, note and ' (%s)' % note, r.distinct, r.generated, r.wall))
        return r

    def gen(self, module, cfgtext, **kw):
        """Explore a model that prints its behaviours as JSON lines (prefix GEN)."""
        r = self.model(module, cfgtext, **kw)
        res = []
        for l in r.out.split('\n'):
            if l.startswith('"GEN '): res.append(json.loads(json.loads(l)[4:]))
        return res

    def traces_ok(self, module, sessions, rerun, name=None, constants=None, batch=None, keyf=None, **kw):
        """Validate recorded sessions against a trace specification.
        rerun(list of sessions as recorded) -> freshly recorded sessions (for confirmation)."""
        name = name or module
        if not sessions: raise CheckError('no sessions for ' + name)
        path = os.path.join(self.run, name + '.ndjson')
        def check(ss, tag, p):
            with open(p, 'w') as f:
                for s in ss: f.write(json.dumps(s, separators=(',', ':')) + '\n')
            r = tlc(module, cfg(constants=constants), env=dict(TRACE=p), tag=tag, **kw)
            if r.deadlock:
                st = r.out[r.out.index('Deadlock reached'):]
                sid = [int(x) for x in re.findall(r'(?m)^(?:/\\ )?s = (\d+)', st)][-1]
                lid = [int(x) for x in re.findall(r'(?m)^(?:/\\ )?l = (\d+)', st)][-1]
                return r, (sid - 1, lid - 1)
            if r.invariant:
                st = r.out[r.out.index('is violated'):]
                sid = [int(x) for x in re.findall(r'(?m)^(?:/\\ )?s = (\d+)', st)][-1]
                lid = [int(x) for x in re.findall(r'(?m)^(?:/\\ )?l = (\d+)', st)][-1]
                return r, (sid - 1, lid - 2)
            if not r.finished:
                sys.stderr.write((r.error or '')[-3000:] + '\n')
                raise CheckError('TLC failed on trace %s' % name)
            want = sum(len(s) + 1 for s in ss)
            if r.distinct != want: raise CheckError('trace %s: %d states, expected %d' % (name, r.distinct, want))
            return r, None
        left, nviol = list(sessions), 0
        while True:
            r, bad = check(left, '', path)
            self.states += r.distinct; self.transitions += r.generated
            if bad is None: break
            sid, lid = bad
            culprit = left[sid]
            again = rerun([culprit])[0]
            r2, bad2 = check([again], 'c', path + '.confirm')
            if bad2 is None:
                # a crash may need the sessions before it (corrupted memory): repeat them all
                rec = rerun(left) if culprit[lid]['v'] == 'crash' else [again]
                again = next((x for x in rec if x and x[-1]['v'] == 'crash'), None)
                if again is not None: bad2 = (0, len(again) - 1)
                elif culprit[lid]['ok']: again, bad2 = culprit, bad      # answers that differ from one run to the next
                else: raise CheckError('rejection of %s not repeated' % name)
            lid2 = bad2[1]
            self.violation(name + '-%d' % sid, dict(spec=module, step=lid2 + 1,
                           event=again[lid2] if lid2 < len(again) else 'end', session=again[:lid2 + 1]))
            nviol += 1
            if nviol >= int(os.environ.get('VERIF_MAXVIOL', '1')): break
            left = left[:sid] + left[sid + 1:] if keyf is None else [x for x in left if keyf(x) != keyf(culprit)]
        self.traces += len(left)
        self.parts.append('%s: %d sessions, %d events, TLC %.0fs' % (name, len(left), sum(map(len, left)), r.wall))
        if len(self.samples) < 6:
            s = self.rng.choice(left)
            self.samples.append(json.loads(json.dumps(s[:3]))if len(json.dumps(s[:3])) < 2000 else json.dumps(s)[:2000])

    def drive_and_check(self, module, sessions, name=None, constants=None, **kw):
        rec = run_driver(sessions)
        self.traces_ok(module, rec, lambda ss: run_driver([[dict(op=e['op'], a=e['a']) for e in s] for s in ss]),
                       name=name, constants=constants, **kw)

    def finish(self):
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, samples=self.samples or ['none'],
                                parts=self.parts),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=self.violations)
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for p in self.parts: print('  ' + p)
        print('%s %s: %s (%.0fs)' % (self.pid, self.tier, 'VIOLATED' if self.violations else 'ok', time.time() - self.t0))
        return 1 if self.violations else 0
