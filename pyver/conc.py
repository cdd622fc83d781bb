"""Run the contracts on the real code (run under /opt/venv/bin/python): falsifier, cross-check and replay.

usage: conc.py run JOB.json      -> prints one JSON line per finding / summary
       conc.py replay FILE.json  -> re-runs one recorded history, exit 1 if the contract is violated"""
import sys, os, json, time, random, importlib, traceback, warnings, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)                     # vlib
sys.path.insert(0, os.path.dirname(HERE))    # contracts
REPO = os.environ.get('PYVER_REPO', '/repo')
sys.path.insert(0, REPO)
warnings.filterwarnings('ignore')
import numpy as np
np.seterr(all='ignore')
import vlib

class Timeout(Exception): pass

def load(qual):
    mod, name = qual.split(':')
    return getattr(importlib.import_module(mod), name)

def all_params(cls): return getattr(cls, 'params', {})

def gen_param(rng, kind, pool, name, cls):
    g = getattr(cls, 'gen_' + name, None)
    if g is not None: return g(rng)
    if isinstance(kind, (list, tuple)): return rng.choice(list(kind))
    if kind == 'bool': return rng.choice([True, False])
    if kind.startswith('int'):
        lo = -5
        if '>=' in kind: lo = int(kind.split('>=')[1])
        elif '>' in kind: lo = int(kind.split('>')[1]) + 1
        c = [lo, lo + 1, lo + 2, lo + 3, rng.randint(lo, lo + 8), rng.randint(lo, lo + 20)]
        big = [int(p) for p in pool if p == int(p) and lo <= p <= 400]
        if big and rng.random() < 0.15: return rng.choice(big)
        return rng.choice(c)
    if kind.startswith('real'):
        lo = None
        if '>' in kind: lo = float(kind.split('>')[1].lstrip('='))
        v = rng.choice([0.5, 1.0, 2.0, 0.25, rng.uniform(0.01, 8)])
        return (lo + v) if lo is not None else rng.choice([v, -v, 0.0])
    raise ValueError(kind)

def gen_again(rng, name, kind, pool, style):
    """some histories repeat earlier values: long constant stretches, duplicates, values that come back"""
    if not hasattr(rng, 'again'):
        rng.again = rng.choice([0, 0, 0, 0.3, 0.95, 0.99])
        rng.old = {}
    old = rng.old.setdefault((name, str(kind)), [])
    if old and rng.random() < rng.again:
        v = old[-1] if rng.random() < 0.8 else rng.choice(old)
        return v.copy() if isinstance(v, np.ndarray) else v
    v = gen_value(rng, kind, pool, style)
    old.append(v)
    return v.copy() if isinstance(v, np.ndarray) else v

def gen_value(rng, kind, pool, style):
    if isinstance(kind, (list, tuple)) and kind[0] == 'vec':
        return np.array([gen_value(rng, 'real', pool, style) for _ in range(kind[1])])
    if kind == 'real':
        r = rng.random()
        if pool and r < 0.06: return float(rng.choice(pool)) + rng.choice([0, 0, 0.25, -0.25])
        if style == 0: return float(rng.randint(-3, 3))
        if style == 1: return rng.randint(-40, 40) / 4.0
        if style == 2: return rng.randint(0, 64) / 64.0
        if style == 3: return float(rng.choice([0, 0, 1, 5]))
        if style == 4: return rng.randint(-1600, 1600) / 8.0
        return rng.choice([0.0, 1.0, -1.0, 0.125, 256.0, -2.5])
    if kind == 'int': return rng.randint(-4, 6)
    if kind == 'nat': return rng.randint(0, 6)
    if kind == 'bit': return rng.randint(0, 1)
    if kind == 'bool': return rng.random() < 0.5
    if kind == 'U':
        if style in (0, 3): return rng.randint(0, 2)
        return rng.choice([rng.randint(0, 30), 'item%d' % rng.randint(0, 9), float(rng.randint(0, 4)), (rng.randint(0, 3), 1)])
    raise ValueError(kind)

def enc(v):
    if isinstance(v, np.ndarray): return {'nd': v.tolist(), 'i': 1} if v.dtype.kind == 'i' else {'nd': v.tolist()}
    if isinstance(v, tuple): return {'t': [enc(x) for x in v]}
    if isinstance(v, (np.floating,)): return float(v)
    if isinstance(v, (np.integer,)): return int(v)
    if isinstance(v, list): return [enc(x) for x in v]
    return v
def dec(v):
    if isinstance(v, dict) and 'nd' in v: return np.array(v['nd'], dtype=int if v.get('i') else float)
    if isinstance(v, dict) and 't' in v: return tuple(dec(x) for x in v['t'])
    if isinstance(v, list): return [dec(x) for x in v]
    return v

def integral(v):
    """whole numbers instead of floats"""
    if isinstance(v, np.ndarray): return np.rint(v).astype(np.int64) if v.size == 0 or np.all(np.isfinite(v)) and np.max(np.abs(v)) < 1e15 else v
    if isinstance(v, float): return int(round(v)) if v == v and abs(v) < 1e15 else v
    return v

def copyv(v): return v.copy() if isinstance(v, np.ndarray) else v

class Sim:
    """one history of one contract on the real code"""
    def __init__(self, cls, params, seed):
        self.cls, self.params, self.seed = cls, params, seed
        self.streams = getattr(cls, 'streams', {})
        self.args = getattr(cls, 'args', {})
        self.ints = vlib.INTS = seed % 8 == 3 and not getattr(cls, 'no_ints', False)   # some histories hold whole numbers as integers
        self.trace = []
        self.o = cls()
        self.hist = {k: [] for k in self.streams}
        random.seed(seed); np.random.seed(seed % (2 ** 31)); vlib.RNG.seed(seed)
        self.sync()
        import inspect
        self.sig = lambda f: [p for p in inspect.signature(f).parameters]
    def sync(self):
        for i, (k, v) in enumerate(self.hist.items()):
            setattr(self.o, 'hist_' + k, list(v))
            if i == 0: self.o.hist = list(v)
            self.o.n = len(v)
        if not self.hist: self.o.n = 0
    def start(self):
        pre = getattr(self.o, 'pre', None)
        if pre is not None:
            if not pre(*[self.params[k] for k in self.sig(pre)]): raise vlib.Skip()
        self.o.init(*[self.params[k] for k in self.sig(self.o.init)])
    def event(self, ev, vals):
        """vals: name -> value"""
        self.trace.append([ev, {k: enc(v) for k, v in vals.items()}])
        f = getattr(self.o, ev)
        if ev.startswith('on_'):
            for k in self.streams: self.hist[k].append(copyv(vals[k]))
            self.sync()
        f(*[copyv(vals[a]) for a in self.sig(f)])
    def check(self):
        c = getattr(self.o, 'check', None)
        if c is not None: c()

def guarded(f):
    """-> None or (obligation, detail)"""
    try:
        f()
        return None
    except vlib.Violation as e:
        return (e.name, e.detail)
    except (vlib.Skip, Timeout):
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        return ('raises no exception', '%s: %s at %s' % (type(e).__name__, str(e)[:300], ['%s:%d' % (os.path.basename(x.filename), x.lineno) for x in tb][-4:]))

def one(cls, qual, params, seed, rng, length, pool, style, every):
    """-> finding dict or None"""
    evs = [e for e in dir(cls) if e.startswith(('on_', 'op_'))]
    wts = getattr(cls, 'weights', {})
    w = [wts.get(e, 1) * rng.choice([0.15, 1, 1, 1, 5]) for e in evs]
    streams, args = getattr(cls, 'streams', {}), getattr(cls, 'args', {})
    sim = Sim(cls, params, seed)
    def fnd(r, ev):
        return {'contract': qual, 'params': {k: enc(v) for k, v in params.items()}, 'seed': seed, 'history': sim.trace, 'at': ev, 'obligation': r[0], 'detail': r[1]}
    try:
        r = guarded(sim.start)
        if r: return fnd(r, 'init')
        if every >= 1:
            sim.trace.append(['check', {}])
            r = guarded(sim.check)
            if r: return fnd(r, 'check')
        vgen = getattr(cls, 'gen_value', None)
        for t in range(length):
            if not evs: break
            ev = rng.choices(evs, w)[0]
            f = getattr(cls, ev)
            import inspect
            an = [p for p in inspect.signature(f).parameters][1:]
            vals = {}
            kinds = dict(streams) if ev.startswith('on_') else {}
            for a in an:
                if a not in kinds: kinds[a] = args.get(a, 'real')
            for a, k in kinds.items():
                vals[a] = vgen(rng, a, k, params) if vgen is not None else gen_again(rng, a, k, pool, style)
                if sim.ints: vals[a] = integral(vals[a])
            try:
                r = guarded(lambda: sim.event(ev, vals))
            except vlib.Skip:
                sim.trace.pop()
                continue
            if r: return fnd(r, ev)
            if t == length - 1 or rng.random() < every:
                sim.trace.append(['check', {}])
                r = guarded(sim.check)
                if r: return fnd(r, 'check')
    except vlib.Skip:
        return None
    return None

def shrink(f, budget=6.0):
    """drop events while the same obligation still fails"""
    t0 = time.time()
    cur = f
    step = max(1, len(cur['history']) // 2)
    while step >= 1 and time.time() - t0 < budget:
        i, did = 0, False
        while i < len(cur['history']) and time.time() - t0 < budget:
            h = cur['history'][:i] + cur['history'][i + step:]
            g = replay(dict(cur, history=h))
            if g is not None and g['obligation'] == cur['obligation']:
                cur = g; did = True
            else: i += step
        if not did or step > 1: step //= 2
        if step == 0: break
    return cur

def replay(f):
    cls = load(f['contract'])
    params = {k: dec(v) for k, v in f['params'].items()}
    sim = Sim(cls, params, f['seed'])
    def fnd(r, ev):
        return {'contract': f['contract'], 'params': f['params'], 'seed': f['seed'], 'history': sim.trace, 'at': ev, 'obligation': r[0], 'detail': r[1]}
    try:
        r = guarded(sim.start)
        if r: return fnd(r, 'init')
        for ev, vals in f['history']:
            if ev == 'check':
                sim.trace.append(['check', {}])
                r = guarded(sim.check)
                if r: return fnd(r, 'check')
                continue
            try:
                r = guarded(lambda: sim.event(ev, {k: dec(v) for k, v in vals.items()}))
            except vlib.Skip:
                sim.trace.pop(); continue
            if r: return fnd(r, ev)
        sim.trace.append(['check', {}])
        r = guarded(sim.check)
        if r: return fnd(r, 'check')
    except vlib.Skip:
        return None
    return None

def literals(files):
    """numeric constants of the sources: extra inputs for the falsifier"""
    import ast
    out = set()
    for f in files:
        try: tree = ast.parse(open(f).read())
        except (OSError, SyntaxError): continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                if abs(n.value) < 1e7: out.add(float(n.value))
    return sorted(out)

def run(job):
    t_end = time.time() + job['seconds']
    def onalarm(*a): raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    res = {'findings': [], 'runs': 0, 'events': 0, 'skipped': 0, 'contracts': {}, 'errors': []}
    units = job['units']          # [[qual, enums], ...]
    base = job['seed']
    pool = literals(job.get('files', []))
    found = set()
    k = 0
    per = {}
    hints = job.get('hints', [])
    for h in hints:
        try:
            signal.alarm(20)
            g = replay(h)
            signal.alarm(0)
        except Timeout: g = None
        except Exception as e: g = None
        if g is not None and g['contract'] not in found:
            found.add(g['contract']); res['findings'].append(g)
    minruns = job.get('minruns', 12)
    ks, spent = {}, {}
    ukey = lambda u: (u[0], str(sorted(u[1].items())))
    while True:
        # the unit with the least time spent so far goes next; each runs at least minruns histories
        active = [u for u in units if u[0] not in found and ks.get(ukey(u), 0) < job.get('maxruns', 10 ** 9)]
        over = time.time() > t_end
        if over: active = [u for u in active if ks.get(ukey(u), 0) < minruns]
        if not active: break
        if time.time() > t_end + job.get('grace', 60): break
        nxt = min(active, key=lambda u: (ks.get(ukey(u), 0) >= minruns, spent.get(ukey(u), 0.0)))
        k = ks.get(ukey(nxt), 0)
        ks[ukey(nxt)] = k + 1
        t_run = time.time()
        for qual, enums in [nxt]:
            cls = load(qual)
            rng = random.Random('%s/%d/%d' % (qual, base, k))
            params = {}
            for n, kind in all_params(cls).items():
                params[n] = enums[n] if n in enums else gen_param(rng, kind, pool, n, cls)
            lens = getattr(cls, 'lengths', [4, 8, 15, 30, 60])
            length = lens[k % len(lens)] if k < 3 * len(lens) else rng.choice(lens)
            if k % 23 == 22 and not getattr(cls, 'slow', False):
                length = min(1200, getattr(cls, 'longest', 1200))
                if pool and rng.random() < .5 and not hasattr(cls, 'longest'):
                    q = [p for p in pool if 100 < p < 20000]
                    if q: length = int(rng.choice(q)) + 30
            seed = rng.randint(0, 10 ** 9)
            try:
                signal.alarm(job.get('run_timeout', 40))
                g = one(cls, qual, params, seed, rng, length, pool, rng.randint(0, 5), (rng.choice([1, 1, 0.3, 0.1]) if length < 100 else rng.choice([0.3, 0.03])))
                signal.alarm(0)
            except Timeout:
                signal.alarm(0)
                res['skipped'] += 1
                g = None
            res['runs'] += 1
            per[qual] = per.get(qual, 0) + 1
            if g is not None:
                # confirm by replay before reporting
                try:
                    signal.alarm(60)
                    g2 = replay(g)
                    if g2 is not None: g2 = shrink(g2)
                    signal.alarm(0)
                except Timeout:
                    signal.alarm(0); g2 = g
                if g2 is None:
                    g['unconfirmed'] = True
                    res['errors'].append(g)
                    if len(res['errors']) > 5: found.add(qual)
                    continue
                found.add(qual)
                res['findings'].append(g2)
        spent[ukey(nxt)] = spent.get(ukey(nxt), 0.0) + time.time() - t_run
    res['contracts'] = per
    res['obligations_evaluated'] = dict(vlib.COUNT)
    print('RESULT ' + json.dumps(res, default=str))

if __name__ == '__main__':
    if sys.argv[1] == 'run':
        run(json.load(open(sys.argv[2])))
    elif sys.argv[1] == 'replay':
        f = json.load(open(sys.argv[2]))
        f = f.get('finding', f)
        if not f or 'history' not in f:
            print('no concrete history recorded in this file'); sys.exit(2)
        g = replay(f)
        if g is None:
            print('contract holds on this history'); sys.exit(0)
        print('VIOLATED: %s at %s: %s' % (g['obligation'], g['at'], g['detail']))
        sys.exit(1)
