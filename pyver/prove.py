"""Most-general-client prover.

A contract class (in /verif/contracts) drives the real classes of /repo through their public operations.  For every
initial path the prover infers an inductive invariant tying the private state reached by the real code to the ghost
history (Houdini over candidate facts: `leaf == view`, `leaf == value at construction`, ...; the candidates are written
over ghost state only, so no private name of /repo appears in a contract), then discharges every postcondition stated by
the contract in the generic state: for all parameters, all histories, all inputs, without a bound."""
import time, itertools
from fractions import Fraction
import z3
from . import terms as T
from . import lib as L
from .terms import is_z3, simp, to_term, real
from .values import *
from .interp import Engine, Interp, Ctx, explore, Poison, ExcClass, LazyImport
from .loops import clone_val, merge_vals

class Restart(Exception): pass

def kind_family(name, kind):
    if isinstance(kind, tuple) and kind[0] == 'vec':
        fs = [T.uf_family('%s.%d' % (name, j), 'real') for j in range(kind[1])]
        return T.Fam(name, 'obj', lambda i: arr_of([f.get(i) for f in fs]))
    if kind == 'bit':
        f = T.uf_family(name, 'int')
        T.UFAX[name] = lambda a: [z3.Or(a == 0, a == 1)]
        return f
    if kind == 'listvec':
        raise Unsupported('kind')
    return T.uf_family(name, kind)

def fresh_kind(ctx, name, kind):
    if isinstance(kind, tuple) and kind[0] == 'vec':
        return arr_of([mkfin(ctx, ctx.fresh(name, T.R)) for _ in range(kind[1])])
    if isinstance(kind, tuple) and kind[0] == 'enum': raise Unsupported('enum arg')
    if kind == 'bit':
        t = ctx.fresh(name, T.I); ctx.assume(z3.Or(t == 0, t == 1)); return t
    if kind == 'nat':
        t = ctx.fresh(name, T.I); ctx.assume(t >= 0); return t
    t = ctx.fresh(name, {'U': T.U, 'real': T.R, 'int': T.I, 'bool': T.B}[kind])
    return mkfin(ctx, t) if kind == 'real' else t

def mkfin(ctx, t):
    ctx.assume(z3.And(T.NEGINF < t, t < T.PINF))
    return t

def gen_fam(name, sample):
    """opaque family of values shaped like sample"""
    t = to_term(sample)
    if t is not None:
        k = {'Int': 'int', 'Real': 'real', 'Bool': 'bool', 'U': 'U'}.get(str(t.sort()))
        if k is None: raise Unsupported('family of %s' % t.sort())
        return T.uf_family(name, k, finite=False)
    if isinstance(sample, Arr) and sample.is_conc():
        fs = [gen_fam('%s.%d' % (name, j), x) for j, x in enumerate(sample.flat())]
        return T.Fam(name, 'obj', lambda i: arr_of([f.get(i) for f in fs], sample.dtype, sample.shape))
    if isinstance(sample, tuple):
        fs = [gen_fam('%s.%d' % (name, j), x) for j, x in enumerate(sample)]
        return T.Fam(name, 'obj', lambda i: tuple(f.get(i) for f in fs))
    if isinstance(sample, ExtObj):
        f = T.uf_family(name, 'U')
        return T.Fam(name, 'obj', lambda i: ExtObj(f.get(i), sample.label))
    if sample is None: return T.Fam(name, 'obj', lambda i: None)
    raise Unsupported('generic list of %s %s' % (type(sample).__name__, name))

def gen_map(name, width, sample):
    """opaque dictionary whose values are shaped like sample"""
    ufs = [z3.Function(name + '.has', *([T.R] * width + [T.B]))]
    def mk(x, nm):
        t = to_term(x)
        if t is not None:
            f = z3.Function(nm, *([T.R] * width + [t.sort()]))
            ufs.append(f)
            return lambda q: f(*q)
        if isinstance(x, tuple):
            gs = [mk(y, '%s.%d' % (nm, j)) for j, y in enumerate(x)]
            return lambda q: tuple(g(q) for g in gs)
        raise Unsupported('generic dictionary of %s' % type(x).__name__)
    g = mk(sample, name + '.val')
    return SymMap(lambda q: ufs[0](*q), g, width, ufs)

def link_maps(a, b):
    """assume that two generic dictionaries are equal: every application of b's symbols is tied to a's"""
    if a is None or b is None or not a.ufs or not b.ufs or a.nkey != b.nkey or len(a.ufs) != len(b.ufs): return
    if [f.range() for f in a.ufs] != [f.range() for f in b.ufs] or a.ufs[0].name() == b.ufs[0].name(): return
    for f, g in zip(a.ufs, b.ufs):
        tied = T.UFAX.get(g.name())
        was = getattr(tied, 'links', ())
        if f.name() in was: continue
        def ax(x, f=f, g=g, h=b.ufs[0], old=tied):
            q = [x.arg(j) for j in range(x.num_args())]
            e = x == f(*q)
            if g is not h: e = z3.Implies(h(*q), e)
            return [e] + (old(x) if old else [])
        ax.links = was + (f.name(),)
        T.UFAX[g.name()] = ax

def sorts_of(x):
    t = to_term(x)
    if t is not None: return str(t.sort())
    if isinstance(x, tuple): return tuple(sorts_of(y) for y in x)
    return type(x).__name__

def join_sample(a, b):
    """sample whose numbers are real where either is"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): return tuple(join_sample(x, y) for x, y in zip(a, b))
    ta, tb = to_term(a), to_term(b)
    if ta is not None and tb is not None and {ta.sort(), tb.sort()} == {T.I, T.R}: return a if ta.sort() == T.R else b
    return a

conc_key = L.conc_key
class Leaf:
    __slots__ = ('path', 'kind', 'val', 'put')
    def __init__(self, path, kind, val, put): self.path, self.kind, self.val, self.put = path, kind, val, put

class Shape:
    def __init__(self, key, loose, template, idx):
        self.key, self.loose, self.template, self.idx = key, loose, template, idx
        self.live = None          # path -> [cands]
        self.facts = None
        self.dirty = True

class Obl:
    def __init__(self, name, status, n=1): self.name, self.status, self.n = name, status, n

def pyval(v):
    if isinstance(v, PDict): return {k: pyval(x) for k, x in v.items.items()}
    if isinstance(v, PList): return [pyval(x) for x in v.items]
    if isinstance(v, tuple): return tuple(pyval(x) for x in v)
    return v

class Unit:
    """one contract class with concrete values for the enumerated parameters"""
    def __init__(self, eng, qual, enums=None, deadline=None, log=None):
        self.eng, self.qual, self.enums = eng, qual, enums or {}
        self.cls = eng.lookup_qual(qual)
        self.deadline = deadline or time.time() + 600
        self.log = log or (lambda *a: None)
        g = lambda n, d: pyval(self.cls.lookup(n)[1]) if self.cls.lookup(n)[0] is not None else d
        self.params = g('params', {})
        self.streams = g('streams', {})
        self.args = g('args', {})
        self.linear = g('linear', False)
        self.events = [k for c in reversed([x for x in self.cls.mro if isinstance(x, PClass)]) for k in c.ns if k.startswith(('on_', 'op_'))]
        self.events = list(dict.fromkeys(self.events))
        self.genpaths, self.realpaths, self.samples = set(), set(), {}; self.map_tags = {}
        self.obls = {}
        self.invariants = []
        self.paths = 0
        self.witness = {}

    # ------------------------------------------------------------ symbols
    def setup(self):
        T.reset()
        self.fams = {n: kind_family('h_' + n, k) for n, k in self.streams.items()}
        self.psyms, self.ppc = {}, []
        for n, k in self.params.items():
            if n in self.enums: self.psyms[n] = self.enums[n]; continue
            if not isinstance(k, str): raise Unsupported('param %s' % n)
            s = z3.Int('p_' + n) if k.startswith('int') else z3.Real('p_' + n)
            for op in ('>=', '>'):
                if op in k:
                    b = int(k.split(op)[1])
                    self.ppc.append(s >= b if op == '>=' else s > b)
                    break
            if k.startswith('real'): self.ppc += [T.NEGINF < s, s < T.PINF]
            if k == 'obj': s = z3.Const('p_' + n, T.U)
            self.psyms[n] = s
        self.n = z3.Int('n!hist')

    def set_hist(self, o, n):
        for i, (nm, f) in enumerate(self.fams.items()):
            if isinstance(n, int): v = PList([f.get(j) for j in range(n)])
            else: v = PList(seq=Seq(f, 0, n))
            o.f['hist_' + nm] = v
            if i == 0: o.f['hist'] = v
        o.f['n'] = n

    def method(self, o, name):
        c, m = o.cls.lookup(name)
        return m
    def call(self, I, o, name, *a):
        return I.call(self.method(o, name), [o] + list(a), {})
    def ghost_call(self, I, o, name):
        try: return self.call(I, o, name)
        except PyRaise as e: raise Unsupported('%s() raised %s' % (name, e))
    def mnames(self, name):
        m = self.cls.lookup(name)[1]
        return [x.arg for x in m.node.args.args][1:]

    # ------------------------------------------------------------ init
    def init_paths(self):
        def run(ctx):
            I = Interp(self.eng, ctx)
            o = Obj(self.cls)
            if self.cls.lookup('pre')[0] is not None:
                ctx.assume(L.truthterm(I, self.call(I, o, 'pre', *[self.psyms[k] for k in self.mnames('pre')])))
            self.set_hist(o, 0)
            ctx.obls_on = True
            self.call(I, o, 'init', *[self.psyms[k] for k in self.mnames('init')])
            return o
        return explore(self.eng, run, self.ppc, tag='i')

    # ------------------------------------------------------------ heap traversal
    def walk(self, root):
        """-> (key, loose key, leaves)"""
        leaves, memo = [], {}
        def scalar(v, path, put):
            s = 'I' if isinstance(v, int) or (is_z3(v) and v.sort() == T.I) else 'R'
            if s == 'R' and path not in self.realpaths: self.realpaths.add(path); self._changed = True
            if path in self.realpaths: s = 'R'
            leaves.append(Leaf(path, s, v, put))
            return s
        def go(v, path, put):
            if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)): return ('k', v), ('k', v)
            if isinstance(v, (int, Fraction)) or (is_z3(v) and v.sort() in (T.I, T.R)):
                scalar(v, path, put)
                return 'num', 'num'
            if is_z3(v):
                if v.sort() in (T.B, T.U):
                    leaves.append(Leaf(path, 'B' if v.sort() == T.B else 'U', v, put))
                    return str(v.sort()), str(v.sort())
                raise Unsupported('state of sort %s' % v.sort())
            if isinstance(v, Bag):
                leaves.append(Leaf(path, 'bag', v, put)); return 'bag', 'bag'
            if isinstance(v, ExtObj) :
                leaves.append(Leaf(path, 'ext', v, put)); return ('ext', v.label), ('ext', v.label)
            if isinstance(v, tuple):
                cur = list(v)
                def mkput(j):
                    def pt(nv):
                        if put is None: raise Unsupported('nested tuple state')
                        cur[j] = nv
                        put(tuple(cur))
                    return pt
                sub = [go(x, path + (j,), mkput(j)) for j, x in enumerate(v)]
                return ('T', tuple(a for a, _ in sub)), ('T', tuple(b for _, b in sub))
            if isinstance(v, Bound):
                a, b = go(v.self_, path + ('self',), None)
                return ('Bd', v.fn.name if hasattr(v.fn, 'name') else str(v.fn), a), ('Bd', b)
            if isinstance(v, HEAP):
                if id(v) in memo: return ('@', memo[id(v)]), ('@', memo[id(v)])
                memo[id(v)] = path
            if isinstance(v, Obj):
                ks, lo = [], []
                for k in sorted(v.f, key=str):
                    x = v.f[k]
                    if isinstance(x, Poison): raise Unsupported('poisoned field')
                    a, b = go(x, path + (k,), lambda nv, o=v, k=k: o.f.__setitem__(k, nv))
                    ks.append((k, a)); lo.append((k, b))
                return ('O', v.cls.qual, tuple(ks)), ('O', v.cls.qual, tuple(lo))
            if isinstance(v, PList):
                ml = None
                if v.maxlen is not None:
                    def putml(nv, o=v): o.maxlen = nv
                    go(v.maxlen, path + ('maxlen',), putml)
                    ml = 1
                if not v.is_conc() or path in self.genpaths:
                    if v.is_conc():
                        if v.items: self.samples.setdefault(path, v.items[-1])
                    else: self.samples.setdefault(path, v.seq.fam.get(z3.Int('smp!')))
                    leaves.append(Leaf(path, 'seq', v, None))
                    return ('S', v.kind, ml), ('S', v.kind, ml)
                sub = []
                for j, x in enumerate(v.items):
                    def pi(nv, o=v, j=j): o.items[j] = nv
                    sub.append(go(x, path + (j,), pi))
                fixed = any(isinstance(x, Obj) or isinstance(x, PList) and x.is_conc() and x.items and all(isinstance(y, int) for y in x.items) for x in v.items)   # no generic element: the structure is part of the shape
                return ('L', v.kind, ml, tuple(a for a, _ in sub)), ('L', v.kind, ml, tuple(b for _, b in sub)) if fixed else ('S', v.kind, ml)
            if isinstance(v, PDict):
                if v.sym is None and path not in self.genpaths and not all(conc_key(k) for k in v.items):
                    self.genpaths.add(path)      # the keys depend on the history: any number of entries
                    self._changed = True
                if v.sym is not None or path in self.genpaths:
                    self.map_sample(path, v)
                    leaves.append(Leaf(path, 'map', v, None))
                    return ('M',), ('M',)
                ks, lo = [], []
                for k in v.items:
                    def pd(nv, o=v, k=k): o.items[k] = nv
                    a, b = go(v.items[k], path + (('key', k),), pd)
                    ks.append((k, a)); lo.append((k, b))
                return ('D', tuple(ks)), ('M',)
            if isinstance(v, Arr):
                if v.is_conc():
                    bid = memo.get(('buf', id(v.buf)))
                    if bid is not None: return ('A', v.shape, ('@', bid)), ('A', v.shape)
                    memo[('buf', id(v.buf))] = path
                    sub = []
                    for j, x in enumerate(v.buf):
                        def pb(nv, b=v.buf, j=j): b[j] = nv
                        sub.append(go(x, path + (('b', j),), pb))
                    return ('A', v.shape, v.dtype, tuple(a for a, _ in sub)), ('A', v.shape)
                dims = []
                for j, s in enumerate(v.shape):
                    if isinstance(s, int): dims.append(s)
                    else: dims.append('s')
                leaves.append(Leaf(path, 'sarr', v, None))
                return ('AS', tuple(dims), v.dtype), ('A',)
            if isinstance(v, Closure):
                return ('fn', v.name), ('fn', v.name)
            if isinstance(v, (PClass, Builtin, Ext, ExcClass, Module, PRange)): return ('c', str(v)), ('c', str(v))
            if isinstance(v, PSet): raise Unsupported('set in state')
            raise Unsupported('state value %s' % type(v).__name__)
        keys, loose = [], []
        for k in sorted(root.f, key=str):
            if not (k.startswith('obj') or k.startswith('g_')): continue
            a, b = go(root.f[k], (k,), lambda nv, o=root, k=k: o.f.__setitem__(k, nv))
            keys.append((k, a)); loose.append((k, b))
        return tuple(keys), tuple(loose), leaves

    def map_sample(self, path, v):
        """remember key width and value shape of the dictionaries seen at path"""
        if v.sym is not None: w, smp = v.sym.nkey, [v.sym.get(tuple(z3.Real('smq!%d' % j) for j in range(v.sym.nkey)))]
        else:
            if not v.items: return
            w, smp = max(2 + (len(k) - 1 if isinstance(k, tuple) else 0) for k in v.items), list(v.items.values())
        old = self.samples.get(path)
        new = old[1] if old else smp[0]
        for x in smp: new = join_sample(new, x)
        if old is None or w > old[0] or sorts_of(new) != sorts_of(old[1]):
            self.samples[path] = (max(w, old[0] if old else 0), new)
            if old is not None: self._changed = True

    def find_list_paths(self, a, b):
        """paths of lists/dicts whose structure differs between two states"""
        out = set()
        def go(x, y, path):
            if isinstance(x, PList) and isinstance(y, PList):
                if x.is_conc() and y.is_conc() and len(x.items) == len(y.items):
                    for j, (p, q) in enumerate(zip(x.items, y.items)): go(p, q, path + (j,))
                elif path not in self.genpaths: out.add(path)
            elif isinstance(x, Obj) and isinstance(y, Obj):
                for k in x.f:
                    if k in y.f: go(x.f[k], y.f[k], path + (k,))
            elif isinstance(x, tuple) and isinstance(y, tuple):
                for j, (p, q) in enumerate(zip(x, y)): go(p, q, path + (j,))
            elif isinstance(x, PDict) and isinstance(y, PDict):
                if x.sym is None and y.sym is None and list(x.items) == list(y.items):
                    for k in x.items: go(x.items[k], y.items[k], path + (('key', k),))
                elif path not in self.genpaths: out.add(path)
            elif isinstance(x, Bound) and isinstance(y, Bound): go(x.self_, y.self_, path + ('self',))
        for k in a.f:
            if (k.startswith('obj') or k.startswith('g_')) and k in b.f: go(a.f[k], b.f[k], (k,))
        return out

    # ------------------------------------------------------------ candidates
    def views(self, I, o):
        if self.cls.lookup('views')[0] is None: return []
        v = self.ghost_call(I, o, 'views')
        return list(v.items) if isinstance(v, PList) else list(v)

    def facts(self, I, o):
        r = [z3.BoolVal(o.f['n'] == 0) if isinstance(o.f['n'], int) else o.f['n'] == 0,
             z3.BoolVal(o.f['n'] >= 1) if isinstance(o.f['n'], int) else o.f['n'] >= 1]
        if self.cls.lookup('facts')[0] is not None:
            v = self.ghost_call(I, o, 'facts')
            r += [L.tob(L.truthterm(I, x)) for x in (v.items if isinstance(v, PList) else v)]
        return r

    def closed(self, t):
        """term over construction-time symbols only"""
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if not z3.is_app(x): return False
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.decl().name() not in self.allowed: return False
            elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('h_'): return False
            st += x.children()
        return True

    def initial_cands(self, lf, views):
        out = []
        if lf.path[0].startswith('g_'):
            if lf.kind in ('I', 'R', 'B', 'U', 'ext'):
                t = lf.val.term if isinstance(lf.val, ExtObj) else to_term(lf.val)
                if lf.kind == 'R': t = real(t)
                if self.closed(t): out.append(('c', simp(t)))
            return out
        if lf.path[0] == 'obj_b' and ('obj_a',) + lf.path[1:] in self.byp: out.append(('t',))
        if lf.path in self.initvals and self.same_as_init(lf): out.append(('k',))
        if lf.kind in ('I', 'R', 'B', 'U', 'ext'):
            t = lf.val.term if isinstance(lf.val, ExtObj) else to_term(lf.val)
            if lf.kind == 'R': t = real(t)
            if self.closed(t): out.append(('c', simp(t)))
            if lf.kind in ('I',): out.append(('ge0',))
        for k, v in enumerate(views):
            if self.cand_goal_type(lf, v): out.append(('v', k))
        return out

    def same_as_init(self, lf):
        """the container still is (syntactically) what construction left there"""
        w, v = self.initvals.get(lf.path), lf.val
        if w is None: return False
        if lf.kind == 'seq':
            if v.is_conc() or w.is_conc(): return False
            return v.seq.fam.key == w.seq.fam.key and L.vsame(norm(v.seq.lo), norm(w.seq.lo)) and L.vsame(norm(v.seq.hi), norm(w.seq.hi)) and v.seq.bag is w.seq.bag
        if lf.kind == 'sarr':
            if not isinstance(w, Arr) or w.is_conc() or len(v.shape) != len(w.shape) or not all(L.vsame(norm(a), norm(b)) for a, b in zip(v.shape, w.shape)): return False
            return v.getf is w.getf and v.rowf is w.rowf
        return False

    def cand_goal_type(self, lf, v):
        if lf.kind in ('I', 'R'): return L.isnum(v) and not L.isbool(v)
        if lf.kind == 'B': return L.isbool(v)
        if lf.kind in ('U', 'ext'): return L.isu(v) or isinstance(v, ExtObj)
        if lf.kind == 'seq' and isinstance(v, PList) and lf.path in self.samples and not self.elem_compat(self.samples[lf.path], v): return False
        if lf.kind == 'seq': return isinstance(v, (PList, Bag, Arr)) or (L.isnum(v) and not L.isbool(v))
        if lf.kind == 'bag': return isinstance(v, Bag) and v.term.sort() == lf.val.term.sort() or is_z3(to_term(v)) and to_term(v).sort() == T.I
        if lf.kind == 'map': return isinstance(v, PDict)
        if lf.kind == 'sarr': return isinstance(v, (Arr, PList)) or L.isnum(v)
        return False

    def elem_compat(self, smp, v):
        if v.is_conc():
            if not v.items: return True
            e = v.items[-1]
        else:
            if isinstance(v.seq.lo, int) and v.seq.lo == v.seq.hi: return True
            try: e = v.seq.fam.get(z3.Int('smp!'))
            except Unsupported: return True
        def kd(x):
            t = to_term(x)
            if t is not None: return 'U' if t.sort() == T.U else 'num'
            if isinstance(x, tuple): return tuple(kd(y) for y in x)
            if isinstance(x, Arr) and x.is_conc(): return ('arr', x.shape)
            return type(x).__name__
        a, b = kd(smp), kd(e)
        return a == b or {a, b} == {'U', 'ExtObj'}

    def cand_goal(self, I, lf, c, views):
        try:
            if c[0] == 'c':
                t = lf.val.term if isinstance(lf.val, ExtObj) else to_term(lf.val)
                return real(t) == c[1] if lf.kind == 'R' else t == c[1] if t.sort() == c[1].sort() else False
            if c[0] == 'ge0':
                return zi(lf.val) >= 0
            if c[0] == 'k': return self.same_as_init(lf)
            v = self.byp[('obj_a',) + lf.path[1:]].val if c[0] == 't' else views[c[1]]
            if lf.kind == 'seq':
                if isinstance(v, Bag):
                    t = L.bagterm_of(I, lf.val)
                    return t == v.term if t.sort() == v.term.sort() else False
                if L.isnum(v):
                    return zi(lf.val.length()) == to_term(v) if to_term(v).sort() == T.I else False
            if lf.kind == 'bag' and not isinstance(v, Bag):
                return (T.SIZEBU if lf.val.term.sort() == T.BagU else T.SIZEB)(lf.val.term) == to_term(v)
            if lf.kind == 'sarr' and L.isnum(v):
                return zi(lf.val.shape[0]) == to_term(v) if to_term(v).sort() == T.I else False
            return L.deep_eq(I, lf.val, v)
        except (Unsupported, z3.Z3Exception, TypeError, AttributeError):
            return False

    # ------------------------------------------------------------ generic state
    def generic(self, ctx, sh):
        I = Interp(self.eng, ctx)
        memo = {}
        o = clone_val(sh.template, memo)
        ctx.assume(self.n >= 0)
        self.set_hist(o, self.n)
        _, _, leaves = self.walk(o)
        self.byp, self.now = {l.path: l for l in leaves}, {}
        # ghost leaves first (views may read them)
        for lf in leaves:
            if lf.path[0].startswith('g_'): self.put_generic(I, lf, sh.live.get(lf.path, []), None, sh)
        fs = self.facts(I, o)
        for j in sh.facts or []: ctx.assume(fs[j])
        if self.cls.lookup('inv')[0] is not None:
            self.assume_inv(I, o)
        vs = self.views(I, o)
        for lf in leaves:
            if not lf.path[0].startswith('g_'): self.put_generic(I, lf, sh.live.get(lf.path, []), vs, sh)
        return I, o

    def map_tag(self, sh):
        """the equalities of dictionaries assumed with the generic dictionaries of a state are part of their name"""
        k = (sh.idx, tuple(sorted((str(l.path), str(sh.live.get(l.path))) for l in self.byp.values() if l.kind == 'map' and len(sh.live.get(l.path, [])) > 1)))
        return '~%d' % self.map_tags.setdefault(k, len(self.map_tags)) if k[1] else ''

    def assume_inv(self, I, o):
        I.ctx.assuming = True
        v = self.call(I, o, 'inv')
        I.ctx.assuming = False
        for x in (v.items if isinstance(v, PList) else v): I.ctx.assume(L.truthterm(I, x))

    def put_generic(self, I, lf, cands, vs, sh):
        ctx = I.ctx
        nm = 's%d.%s' % (sh.idx, '.'.join(str(x) for x in lf.path))
        if ('t',) in cands:
            tw = ('obj_a',) + lf.path[1:]
            w = self.byp[tw].val
            if lf.kind in ('seq',): lf.val.items, lf.val.seq = (None if w.items is None else list(w.items)), w.seq
            elif lf.kind == 'map': lf.val.items, lf.val.sym = dict(w.items), w.sym
            elif lf.kind == 'sarr':
                a = lf.val
                a.shape, a.buf, a.pos, a.getf, a.rowf, a.fam = w.shape, w.buf, w.pos, w.getf, w.rowf, w.fam
            else:
                lf.put(self.now[tw])
                self.now[lf.path] = self.now[tw]
            return
        if ('k',) in cands:
            w, l = self.initvals[lf.path], lf.val
            if lf.kind == 'seq': l.items, l.seq = None, w.seq
            else: l.shape, l.buf, l.pos, l.getf, l.rowf, l.fam = w.shape, w.buf, w.pos, w.getf, w.rowf, w.fam
            return
        if lf.kind in ('I', 'R', 'B', 'U', 'ext'):
            val, done = None, False
            extra = []
            for c in cands:
                if c[0] == 'ge0':
                    extra.append(c); continue
                t = c[1] if c[0] == 'c' else vs[c[1]]
                t = t.term if isinstance(t, ExtObj) else to_term(t)
                if lf.kind == 'R': t = real(t)
                if not done: val, done = t, True
                else: ctx.assume(val == t)
            if not done:
                if extra and any(c[0] == 'ge0' for c in extra): pass
                val = ctx.fresh(nm, {'I': T.I, 'R': T.R, 'B': T.B, 'U': T.U, 'ext': T.U}[lf.kind])
                for c in extra: ctx.assume(val >= 0)
            val = ExtObj(val, lf.val.label) if lf.kind == 'ext' else norm(val)
            self.now[lf.path] = val
            lf.put(val)
            return
        if lf.kind == 'bag':
            bc = [c for c in cands if isinstance(vs[c[1]], Bag)]
            val = self.now[lf.path] = vs[bc[0][1]] if bc else Bag(ctx.fresh(nm, lf.val.term.sort()))
            if not bc:
                for c in cands: ctx.assume((T.SIZEBU if val.term.sort() == T.BagU else T.SIZEB)(val.term) == to_term(vs[c[1]]))
            lf.put(val); return
        if lf.kind == 'seq':
            l = lf.val
            lenv, bag = None, None
            for c in cands:
                v = vs[c[1]]
                if not self.cand_goal_type(lf, v): continue
                if isinstance(v, PList):
                    l.items, l.seq = (None if v.items is None else list(v.items)), v.seq
                    return
                if isinstance(v, Arr):
                    w = L.to_list(I, v)
                    l.items, l.seq = (None if w.items is None else list(w.items)), w.seq
                    return
                if isinstance(v, Bag): bag = bag or v
                elif L.isnum(v): lenv = v if lenv is None else lenv
            if bag is not None:
                f = T.uf_family(ctx.fname(nm + '.ord'), 'U' if bag.term.sort() == T.BagU else 'real')
                n = (T.SIZEBU if bag.term.sort() == T.BagU else T.SIZEB)(bag.term)
                l.items, l.seq = None, Seq(f, 0, n, bag.term)
                ctx.assume(n >= 0)
                return
            if lf.path not in self.samples:
                raise Unsupported('no element sample for %s' % (lf.path,))
            fam = gen_fam(ctx.fname(nm), self.samples[lf.path])
            n = lenv if lenv is not None else ctx.fresh(nm + '.len', T.I)
            if lenv is None: ctx.assume(n >= 0)
            l.items, l.seq = None, Seq(fam, 0, n)
            ctx.frontier[fam.key] = n
            return
        if lf.kind == 'map':
            d = lf.val
            if cands:
                ms = [vs[c[1]] for c in cands]
                d.items, d.sym = dict(ms[0].items), ms[0].sym
                for m in ms[1:]: link_maps(ms[0].sym, m.sym)
                return
            if lf.path not in self.samples: raise Unsupported('map state %s not determined by any view' % (lf.path,))
            d.items, d.sym = {}, gen_map(ctx.fname(nm) + self.map_tag(sh), *self.samples[lf.path])
            return
        if lf.kind == 'sarr':
            a = lf.val
            for c in cands:
                v = vs[c[1]]
                if isinstance(v, Arr): w = v
                elif isinstance(v, PList):
                    from . import npsem
                    w = npsem.asarray(I, v)
                else: continue
                a.shape, a.buf, a.pos, a.getf, a.rowf, a.fam = w.shape, w.buf, w.pos, w.getf, w.rowf, w.fam
                return
            if not all(isinstance(x, int) for x in a.shape[1:]): raise Unsupported('array state %s not determined by any view' % (lf.path,))
            lens = [vs[c[1]] for c in cands if L.isnum(vs[c[1]])]
            n = lens[0] if lens else ctx.fresh(nm + '.len', T.I)
            ctx.assume(zi(n) >= 0)
            if a.dtype not in ('f', 'i', 'b'): raise Unsupported('array state %s' % (lf.path,))
            kd = {'f': 'real', 'i': 'int', 'b': 'bool'}[a.dtype]
            from . import npsem
            if len(a.shape) == 1:
                w = npsem.asarray(I, PList(seq=Seq(T.uf_family(ctx.fname(nm), kd), 0, n)))
            else:
                import itertools
                ks = list(itertools.product(*[range(x) for x in a.shape[1:]]))
                fs = [T.uf_family(ctx.fname('%s.%s' % (nm, k)), kd) for k in ks]
                w = npsem.asarray(I, PList(seq=Seq(T.Fam(ctx.fname(nm), 'obj', lambda i: arr_of([f.get(i) for f in fs], a.dtype, tuple(a.shape[1:]))), 0, n)))
            a.shape, a.buf, a.pos, a.getf, a.rowf, a.fam = w.shape, w.buf, w.pos, w.getf, w.rowf, w.fam
            return
        raise Unsupported('leaf kind %s' % lf.kind)

    # ------------------------------------------------------------ one event
    def do_event(self, I, o, ev):
        if ev == 'check':
            self.call(I, o, 'check'); return
        an = self.mnames(ev)
        if ev.startswith('on_'):
            n0 = o.f['n']
            xs = {nm: f.get(n0) for nm, f in self.fams.items()}
            n1 = n0 + 1 if isinstance(n0, int) else iadd(n0, 1)
            self.set_hist(o, n1)
            args = []
            for a in an:
                if a in xs: args.append(xs[a])
                else: args.append(fresh_kind(I.ctx, 'arg_' + a, self.args[a]))
        else:
            args = [fresh_kind(I.ctx, 'arg_' + a, self.args[a]) for a in an]
        I.ctx.args = args
        self.call(I, o, ev, *args)

    def time_check(self):
        if time.time() > self.deadline: raise Unsupported('time budget of the unit used up')

    # ------------------------------------------------------------ fixpoint for one initial path
    def solve_path(self, r0):
        self.base = list(r0.ctx.pc)
        st0 = r0.val
        syms = set()
        _, _, lv = self.walk(st0)
        ts = list(self.base) + [to_term(x.val.term if isinstance(x.val, (ExtObj, Bag)) else x.val) for x in lv if x.kind in ('I', 'R', 'B', 'U', 'ext', 'bag')]
        ts += [s for s in self.psyms.values() if is_z3(s)]
        for k, v in st0.f.items():
            t = to_term(v)
            if t is not None: ts.append(t)
        seen = set()
        while ts:
            x = ts.pop()
            if x is None or x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: syms.add(x.decl().name())
                ts += x.children()
        syms.discard('n!hist')
        self.allowed = syms
        while True:
            self.time_check()
            self.shapes = {}
            self._changed = False
            self.initvals = {}
            _, _, lv = self.walk(clone_val(st0, {}))
            if not self._changed: self.initvals = {l.path: l.val for l in lv if l.kind in ('seq', 'sarr')}
            self._changed = False
            try:
                self.houdini(st0)
                return
            except Restart:
                continue

    def register(self, I, o, new_ok=True):
        """-> (shape, leaves, views, isnew)"""
        self._changed = False
        key, loose, leaves = self.walk(o)
        if self._changed and self.shapes: raise Restart()
        sh = self.shapes.get(key)
        if sh is not None: return sh, leaves, False
        for s in self.shapes.values():
            if s.loose == loose:
                ps = self.find_list_paths(s.template, o)
                if ps:
                    for p in ps:
                        self.genpaths.add(p)
                        for st in (s.template, o):
                            v = self.at_path(st, p)
                            if isinstance(v, PDict): self.map_sample(p, v)
                            if isinstance(v, PList):
                                smp = v.items[-1] if v.is_conc() and v.items else v.seq.fam.get(z3.Int('smp!')) if not v.is_conc() else None
                                if smp is not None: self.samples.setdefault(p, clone_val(smp, {}))
                    raise Restart()
        if len(self.shapes) >= 24: raise Unsupported('too many shapes of state')
        sh = Shape(key, loose, clone_val(o, {}), len(self.shapes))
        self.shapes[key] = sh
        self.log('shape', sh.idx, 'paths', [l.path for l in leaves][:30])
        return sh, leaves, True

    def at_path(self, o, p):
        v = o
        for s in p:
            if isinstance(v, Obj): v = v.f[s]
            elif isinstance(v, PList): v = v.items[s]
            elif isinstance(v, PDict): v = v.items[s[1]]
            elif isinstance(v, tuple): v = v[s]
            elif isinstance(v, Bound): v = v.self_
            else: return None
        return v

    def absorb(self, I, o, timeout=2500):
        """join the state reached on this path into its shape: drop candidates that do not hold"""
        pc = list(I.ctx.pc)
        vs = self.views(I, o)
        fs = self.facts(I, o)
        pc = list(I.ctx.pc)
        sh, leaves, new = self.register(I, o)
        self.byp = {l.path: l for l in leaves}
        if new:
            sh.live = {lf.path: self.initial_cands(lf, vs) for lf in leaves}
            sh.facts = list(range(len(fs)))
        changed = new
        memo = {}
        for lf in leaves:
            cs = sh.live.get(lf.path, [])
            keep = []
            for c in cs:
                if c[0] == 'v' and not self.cand_goal_type(lf, vs[c[1]]): continue
                g = self.cand_goal(I, lf, c, vs)
                if is_z3(g):
                    m = memo.get(g.get_id())
                    if m is None: m = memo[g.get_id()] = (T.entails(pc, g, timeout) == 'valid', g)
                    ok = m[0]
                else: ok = g is True or (g is not False and T.entails(pc, g, timeout) == 'valid')
                if ok: keep.append(c)
                else: self.log('drop', sh.idx, lf.path, c, str(g)[:int(__import__("os").environ.get("GL","200"))])
            if len(keep) != len(cs):
                sh.live[lf.path] = keep
                changed = True
        kf = []
        for j in sh.facts:
            if T.entails(pc, fs[j], timeout) == 'valid': kf.append(j)
        if len(kf) != len(sh.facts):
            sh.facts = kf; changed = True
        if changed: sh.dirty = True

    def houdini(self, st0):
        def init(ctx):
            I = Interp(self.eng, ctx)
            o = clone_val(st0, {})
            self.set_hist(o, 0)
            self.absorb(I, o)
        explore(self.eng, init, self.base, tag='z')
        if self.cls.lookup('inv')[0] is not None:
            def ginit(ctx):
                from .vsem import Obligation
                I = Interp(self.eng, ctx)
                o = clone_val(st0, {})
                self.set_hist(o, 0)
                v = self.call(I, o, 'inv')
                for j, x in enumerate(v.items if isinstance(v, PList) else v):
                    ctx.obls.append(Obligation('ghost invariant %d after init' % j, list(ctx.pc), L.tob(L.truthterm(I, x))))
            for r in explore(self.eng, ginit, self.base, tag='y'): self.discharge(r, 'init', 'init')
        it = 0
        while True:
            self.time_check()
            work = [s for s in list(self.shapes.values()) if s.dirty]
            if not work: break
            it += 1
            if it > 120: raise Unsupported('invariant inference did not converge')
            for sh in work:
                sh.dirty = False
                for ev in self.events + (['check'] if self.cls.lookup('check')[0] is not None else []):
                    self.time_check()
                    def run(ctx, ev=ev, sh=sh):
                        ctx.skip_spec = self.cls
                        I, o = self.generic(ctx, sh)
                        self.do_event(I, o, ev)
                        ctx.skip_spec = None
                        self.absorb(I, o)
                    explore(self.eng, run, self.base, tag='e')
        # ---- every obligation, in the generic states
        for sh in self.shapes.values():
            for ev in self.events + ['check']:
                self.time_check()
                if ev == 'check' and self.cls.lookup('check')[0] is None: continue
                def run(ctx, ev=ev, sh=sh):
                    I, o = self.generic(ctx, sh)
                    ctx.nbase = len(ctx.pc)
                    if ev == 'check': self.call(I, o, 'check')
                    else:
                        self.do_event(I, o, ev)
                        if self.cls.lookup('inv')[0] is not None:
                            v = self.call(I, o, 'inv')
                            from .vsem import Obligation
                            for j, x in enumerate(v.items if isinstance(v, PList) else v):
                                ctx.obls.append(Obligation('ghost invariant %d after %s' % (j, ev), list(ctx.pc), L.tob(L.truthterm(I, x))))
                    return None
                for r in explore(self.eng, run, self.base, tag='o'):
                    self.discharge(r, ev, 'shape %d' % sh.idx)
            inv = []
            for p, cs in sh.live.items():
                if cs: inv.append('%s: %s' % ('.'.join(map(str, p)), [('view %d' % c[1]) if c[0] == 'v' else ('== ' + str(c[1])[:60]) if c[0] == 'c' else c[0] for c in cs]))
                else: inv.append('%s: (unconstrained)' % '.'.join(map(str, p)))
            self.invariants.append({'shape': sh.idx, 'facts': list(sh.facts), 'leaves': inv})

    def discharge(self, r, ev, where):
        from .vsem import Obligation
        self.paths += 1
        obs = list(r.ctx.obls)
        if r.kind == 'raise':
            obs.append(Obligation('%s raises no exception' % ev, list(r.ctx.pc), z3.BoolVal(False)))
        elif r.kind not in ('ok', 'return'): raise Unsupported('control flow')
        for ob in obs:
            nm = '%s/%s' % (ev, ob.name) if ob.name.split(' ')[0] != ev else ob.name
            st = T.entails(ob.pc, ob.goal)
            d = self.obls.setdefault(nm, {'valid': 0, 'refuted': 0, 'unknown': 0, 'trivial': 0})
            d[st] += 1
            if st == 'valid' and not d.get('reach'):
                if T.feasible(ob.pc): d['reach'] = True
            if st == 'valid' and T.OPTS.get('smt2'):
                T.OPTS['smt2'](nm, ob.pc, ob.goal)
            if st != 'valid' and nm not in self.witness:
                det = ''
                try:
                    rs, m = T.check_sat(list(ob.pc) + [z3.Not(ob.goal)], 4000, True)
                    if m is not None: det = str(m)[:3000]
                except z3.Z3Exception: pass
                self.witness[nm] = {'where': where, 'exception': str(r.val) if r.kind == 'raise' else None, 'goal': str(ob.goal)[:1500], 'model': det,
                                    'path': [str(c)[:300] for c in ob.pc][-40:]}

    def run(self):
        t0 = time.time()
        self.setup()
        res = self.init_paths()
        if not res: raise Unsupported('contract precondition is unsatisfiable')
        for r in res:
            self.discharge(r, 'init', 'init')
            if r.kind == 'raise': continue
            self.genpaths, self.samples, self.realpaths = set(), {}, set()
            self.solve_path(r)
        self.wall = time.time() - t0
        return self
