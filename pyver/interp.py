"""Symbolic interpreter for Python source (the verifier's VC generator).

The source text executed is the text of /repo (and of the contracts in /verif/contracts), parsed on every run.
Each path through the code yields a path condition and a symbolic state; `decide` forks on symbolic conditions by
re-execution; loops over symbolic ranges are summarised (see loops.py)."""
import ast, os
from fractions import Fraction
import z3
from . import terms as T
from .terms import is_z3, simp, to_term, real, feasible
from .values import *

class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass

EXC_BASE = {'BaseException': None, 'Exception': 'BaseException', 'ValueError': 'Exception', 'TypeError': 'Exception', 'KeyError': 'LookupError',
            'IndexError': 'LookupError', 'LookupError': 'Exception', 'AttributeError': 'Exception', 'AssertionError': 'Exception',
            'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
            'StopIteration': 'Exception', 'ImportError': 'Exception', 'OverflowError': 'ArithmeticError', 'NameError': 'Exception', 'UnboundLocalError': 'NameError',
            'ModuleNotFoundError': 'ImportError', 'RecursionError': 'RuntimeError', 'Warning': 'Exception', 'UserWarning': 'Warning', 'RuntimeWarning': 'Warning', 'FloatingPointError': 'ArithmeticError',
            'LinAlgError': 'ValueError'}

class ExcClass:
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name
    def __eq__(self, o): return isinstance(o, ExcClass) and o.name == self.name
    def __hash__(self): return hash(self.name)
    def sub(self, o):
        n = self.name
        while n:
            if n == o.name: return True
            n = EXC_BASE.get(n)
        return False

class Poison:
    def __init__(self, why): self.why = why

class Env:
    __slots__ = ('vars', 'parent', 'module', 'cls', 'selfv', 'gen', 'globs', 'nonloc')
    def __init__(self, module, parent=None, cls=None):
        self.vars, self.parent, self.module, self.cls, self.selfv, self.gen = {}, parent, module, cls, None, None
        self.globs, self.nonloc = set(), set()

class Ctx:
    """one path"""
    def __init__(self, eng, prefix=(), base_pc=(), tag='', parent=None):
        self.eng, self.prefix, self.ptr = eng, list(prefix), 0
        self.pc = list(base_pc)
        self.forced = set()       # positions in pc implied by what comes before them
        self.alts = []
        self.frontier = dict(parent.frontier) if parent else {}
        self.tag = tag
        self.cnt = 0
        self.obls = []
        self.depth = parent.depth if parent else 0
        self.steps = 0
        self.parent = parent
        self.ghost = parent.ghost if parent else {}
    def fresh(self, base, sort):
        return z3.Const(self.fname(base), sort)
    def fname(self, base):
        self.cnt += 1
        p = ''.join('1' if b else '0' for b in self.prefix[:self.ptr])
        return '%s!%s%s!%d' % (base, self.tag, p, self.cnt)
    def assume(self, c):
        if c is True: return
        if c is False: raise Infeasible()
        c = simp(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise Infeasible()
        self.pc.append(c)
    def decide(self, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, (int, Fraction)):
            return c != 0
        c = simp(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        nc = simp(z3.Not(c))
        for p in self.pc:
            if p.eq(c): return True
            if p.eq(nc): return False
        if self.ptr < len(self.prefix):
            b = self.prefix[self.ptr]
            self.ptr += 1
            if isinstance(b, str): self.forced.add(len(self.pc))
            self.pc.append(c if b else nc)
            return bool(b)
        t, f = T.both_feasible(self.pc, c, nc)
        if not t and not f:
            raise Infeasible()
        b = t
        if t and f:
            self.alts.append(self.prefix[:] + [False])
            if len(self.alts) > 4000: raise Unsupported('too many paths')
        else:
            # only one outcome is possible here ('T' / '': forced decisions)
            self.forced.add(len(self.pc))
        self.prefix.append(b if t and f else 'T' if b else '')
        self.ptr += 1
        self.pc.append(c if b else nc)
        return b
    def known(self, c):
        """is c valid on this path?"""
        if isinstance(c, bool): return c
        c = simp(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        key = (tuple(x.get_id() for x in self.pc), c.get_id())
        r = self.eng.known_cache.get(key)
        if r is None:
            v = not T.purify(c)[1] and T.known_linear(self.pc, c)
            if v is None or v is False and T.purify(c)[1]: v = T.entails(self.pc, c, 3000) == 'valid'
            r = (v, list(self.pc), c)
            self.eng.known_cache[key] = r
        return r[0]
    def choose(self, n):
        """nondeterministic choice among n alternatives without a condition"""
        for j in range(n - 1):
            if self.ptr < len(self.prefix):
                b = self.prefix[self.ptr]
                self.ptr += 1
            else:
                self.alts.append(self.prefix[:] + [False])
                self.prefix.append(True)
                self.ptr += 1
                b = True
            if b: return j
        return n - 1

MUTATORS = {'append', 'extend', 'update', 'pop', 'insert', 'remove', 'clear', 'sort', 'add', 'discard', 'setdefault', 'popleft', 'appendleft', 'fill', 'popitem', 'reverse'}
def skippable(I, call, env):
    """a require statement of a contract whose arguments have no effect: it says nothing about the state after the event
    (used while the invariant is inferred; every obligation is generated and discharged afterwards)"""
    if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Name) and call.func.id.startswith('require')): return False
    m = env.module
    if not m.name.startswith('contracts'): return False
    cls = I.ctx.skip_spec
    key = (id(call), cls.qual)
    r = I.eng.skip_cache.get(key)
    if r is None:
        r = I.eng.skip_cache[key] = (all(effect_free(I, a, m, cls, set(), {}) for a in call.args + [k.value for k in call.keywords]), call)
    return r[0]
def effect_free(I, node, m, cls, seen, fresh):
    for x in ast.walk(node):
        if isinstance(x, ast.Attribute) and (x.attr.startswith('obj') or not isinstance(x.ctx, ast.Load)): return False
        if isinstance(x, (ast.AugAssign, ast.Assign, ast.Delete, ast.AnnAssign)):
            ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target]
            for t in ts:
                for y in ast.walk(t):
                    if isinstance(y, ast.Subscript) and not (isinstance(y.value, ast.Name) and fresh.get(y.value.id)): return False
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and not fresh.get(x.target.id): return False
        if isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.NamedExpr)): return False
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name):
                v = m.ns.get(f.id)
                if isinstance(v, LazyImport): v = v.resolve(I.eng)
                if v is None or isinstance(v, (Builtin, Ext)):
                    if v is None and f.id not in BUILTIN_NAMES: return False
                elif isinstance(v, Closure):
                    if not m_contract(v) or not body_effect_free(I, v, cls, seen): return False
                else: return False
            elif isinstance(f, ast.Attribute):
                if isinstance(f.value, ast.Name) and f.value.id == 'self':
                    c, v = cls.lookup(f.attr)
                    if not isinstance(v, Closure) or f.attr.startswith(('on_', 'op_', 'init', 'pre')) or not body_effect_free(I, v, cls, seen): return False
                elif f.attr in MUTATORS:
                    if not (isinstance(f.value, ast.Name) and fresh.get(f.value.id)): return False
                elif f.attr.startswith(('fit_', 'score_', 'transform', 'update', 'learn', 'insert')): return False
            elif not isinstance(f, ast.Lambda): return False
    return True
BUILTIN_NAMES = {'len', 'range', 'int', 'float', 'abs', 'min', 'max', 'sum', 'zip', 'enumerate', 'sorted', 'list', 'tuple', 'dict', 'set', 'bool', 'round', 'all', 'any', 'reversed', 'str', 'isinstance', 'map'}
def m_contract(v): return v.module.name.startswith(('contracts', 'pyver'))
def body_effect_free(I, v, cls, seen):
    k = id(v.node)
    if k in seen: return True
    seen.add(k)
    fresh = {}
    nodes = v.node.body if isinstance(v.node.body, list) else [v.node.body]
    for b in nodes:
        for x in ast.walk(b):
            if isinstance(x, ast.Assign):
                ok = isinstance(x.value, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Constant, ast.BinOp, ast.Set))
                for t in x.targets:
                    if isinstance(t, ast.Name): fresh[t.id] = ok and fresh.get(t.id, True)
                    else:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Name): fresh[y.id] = False
    return all(effect_free(I, b, v.module, cls, seen, fresh) for b in nodes)

class PathResult:
    def __init__(self, ctx, kind, val):
        self.ctx, self.kind, self.val = ctx, kind, val
    @property
    def pc(self): return self.ctx.pc

def explore(eng, fn, base_pc=(), tag='', parent=None, limit=600):
    """run fn(ctx) on every feasible path"""
    out, work = [], [[]]
    while work:
        prefix = work.pop()
        ctx = Ctx(eng, prefix, base_pc, tag, parent)
        try:
            v = fn(ctx)
            out.append(PathResult(ctx, 'ok', v))
        except Infeasible:
            pass
        except PyRaise as e:
            out.append(PathResult(ctx, 'raise', e))
        except ReturnEx as e:
            out.append(PathResult(ctx, 'return', e.v))
        except BreakEx:
            out.append(PathResult(ctx, 'break', None))
        except ContinueEx:
            out.append(PathResult(ctx, 'continue', None))
        work.extend(ctx.alts)
        if len(out) > limit:
            raise Unsupported('too many paths')
    return out

PURE_NAMES = {'int', 'float', 'abs', 'min', 'max', 'str', 'len', 'bool', 'round'}
def branching_pure(fn):
    """syntactically free of side effects (no stores but to locals, no loops, calls only of builtins and library functions) and with a branch"""
    r = getattr(fn.node, '_brpure', None)
    if r is None: r = fn.node._brpure = _branching_pure(fn.node)
    return r
def _branching_pure(node):
    if not isinstance(node, ast.FunctionDef) or node.decorator_list: return False
    br = False
    mods = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Import): mods |= {(a.asname or a.name).split('.')[0] for a in x.names}
    for x in ast.walk(node):
        if isinstance(x, (ast.If, ast.IfExp)): br = True
        if isinstance(x, (ast.For, ast.While, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.With, ast.Try, ast.Raise, ast.Delete, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Assert, ast.NamedExpr)): return False
        if isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load): return False
        if isinstance(x, ast.AugAssign) and not isinstance(x.target, ast.Name): return False
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name):
                if f.id not in PURE_NAMES: return False
            elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
                if f.value.id not in mods | {'np', 'math', 'numpy'}: return False
            else: return False
    return br

class Engine:
    def __init__(self, repo='/repo', verif='/verif'):
        self.repo, self.verif = repo, verif
        self.modules = {}
        self.subst = {}            # qualname of class -> spec qualname
        self.executed = {}         # qualname -> count : real functions reached
        self.assumed = {}          # external functions used
        self.inlined = True
        self.known_cache = {}
        self.skip_cache = {}
        self.max_steps = 400000
        self.extra_assume = set()
        from . import lib
        self.lib = lib
        lib.install(self)

    # ------------------------------------------------------------ modules
    def mod_path(self, name):
        if name == 'vlib' or name.startswith('vlib.'):
            return None
        root = self.repo if name.split('.')[0] == 'pysad' else self.verif if name.split('.')[0] == 'contracts' else None
        if root is None: return None
        p = os.path.join(root, *name.split('.'))
        if os.path.isdir(p): return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'): return p + '.py'
        return None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None: return m
        path = self.mod_path(name)
        if path is None:
            if name.split('.')[0] in ('pysad', 'contracts'):
                raise PyRaise(ExcClass('ModuleNotFoundError'), (name,))
            m = Ext(name)
            self.modules[name] = m
            return m
        if not os.path.exists(path):        # namespace package
            m = Module(name); self.modules[name] = m
            return m
        m = Module(name)
        self.modules[name] = m
        m.ns['__name__'] = name
        m.pkg = path.endswith('__init__.py')
        src = open(path).read()
        tree = ast.parse(src, path)
        env = Env(m)
        env.vars = m.ns
        ctx = Ctx(self, tag='mod')
        it = Interp(self, ctx)
        for st in tree.body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            it.stmt(st, env)
        return m

    def lookup_qual(self, q):
        mod, name = q.split(':')
        m = self.load(mod)
        v = m.ns[name.split('.')[0]]
        v = self.force(v)
        for part in name.split('.')[1:]:
            v = v.ns[part]
        return v

    def force(self, v):
        if isinstance(v, LazyImport):
            v = v.resolve(self)
        return v

    def spec_of(self, cls):
        if isinstance(cls, PClass) and not self.inlined:
            q = self.subst.get(cls.qual)
            if q is not None:
                s = self.lookup_qual(q)
                s.spec = True
                return s
        return cls

class LazyImport:
    def __init__(self, module, name):
        self.module, self.name = module, name
    def resolve(self, eng):
        m = eng.load(self.module)
        if self.name is None: return m
        if isinstance(m, Ext):
            return eng.lib.ext_attr(m, self.name)
        if self.name in m.ns:
            return eng.force(m.ns[self.name])
        sub = self.module + '.' + self.name
        if eng.mod_path(sub):
            return eng.load(sub)
        raise PyRaise(ExcClass('ImportError'), (sub,))

class Interp:
    def __init__(self, eng, ctx):
        self.eng, self.ctx = eng, ctx
        self.lib = eng.lib

    # ------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, LazyImport):
                    v = v.resolve(self.eng)
                    e.vars[name] = v
                if isinstance(v, Poison):
                    raise Unsupported('value of %s after a summarised loop' % name)
                return v
            e = e.parent
        m = env.module
        if name in m.ns:
            v = self.eng.force(m.ns[name])
            m.ns[name] = v
            return v
        b = self.lib.BUILTINS.get(name)
        if b is not None: return b
        if name in EXC_BASE: return ExcClass(name)
        if name == '__name__': return m.name
        raise PyRaise(ExcClass('NameError'), (name,))

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.ctx.steps += 1
        if self.ctx.steps > self.eng.max_steps:
            raise Unsupported('execution too long')
        k = type(st).__name__
        f = getattr(self, 's_' + k, None)
        if f is None:
            raise Unsupported('statement %s' % k)
        return f(st, env)

    def s_Pass(self, st, env): pass
    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant): return
        if getattr(self.ctx, 'skip_spec', None) and skippable(self, st.value, env): return
        self.expr(st.value, env)
    def s_Return(self, st, env):
        raise ReturnEx(self.expr(st.value, env) if st.value is not None else None)
    def s_Break(self, st, env): raise BreakEx()
    def s_Continue(self, st, env): raise ContinueEx()
    def s_Global(self, st, env):
        env.globs.update(st.names)
    def s_Nonlocal(self, st, env):
        env.nonloc.update(st.names)
    def s_Import(self, st, env):
        for a in st.names:
            if a.asname:
                env.vars[a.asname] = LazyImport(a.name, None)
            else:
                env.vars[a.name.split('.')[0]] = LazyImport(a.name.split('.')[0], None)
                if '.' in a.name and a.name.split('.')[0] in ('pysad', 'contracts'):
                    self.eng.load(a.name)
    def s_ImportFrom(self, st, env):
        mod = st.module or ''
        if st.level:
            base = env.module.name.split('.')
            if not getattr(env.module, 'pkg', False):
                base = base[:-1]
            base = base[:len(base) - (st.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        for a in st.names:
            if a.name == '*':
                m = self.eng.load(mod)
                if isinstance(m, Module):
                    for k, v in m.ns.items():
                        if not k.startswith('_'): env.vars[k] = v
                elif mod == 'vlib':
                    for k in list(self.lib.EXT):
                        if k.startswith('vlib.'): env.vars[k[5:]] = Ext(k)
                continue
            env.vars[a.asname or a.name] = LazyImport(mod, a.name)
    def s_FunctionDef(self, st, env):
        fn = self.mkfunc(st, env)
        for d in reversed(st.decorator_list):
            fn = self.decorate(d, fn, env)
        env.vars[st.name] = fn
    def decorate(self, d, fn, env):
        if isinstance(d, ast.Name):
            if d.id == 'property': return Prop(fn)
            if d.id == 'staticmethod': return Static(fn)
            if d.id == 'classmethod': return ClsM(fn)
            if d.id == 'abstractmethod':
                if isinstance(fn, Closure): fn.kind = 'abstract'
                return fn
        if isinstance(d, ast.Attribute) and d.attr in ('abstractmethod', 'wraps'): return fn
        try:
            dec = self.expr(d, env)
        except (Unsupported, PyRaise):
            return Poison('decorated')
        if isinstance(dec, (Closure, Bound)):
            return self.call(dec, [fn], {})
        if isinstance(dec, Builtin) and dec.name in ('ghost', 'abstractmethod'):
            return fn
        return DeferredUnsupported('decorator %s' % ast.unparse(d))
    def mkfunc(self, st, env):
        a = st.args
        defaults = [self.expr(d, env) for d in a.defaults]
        kwd = {x.arg: (self.expr(d, env)) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(st, 'name', '<lambda>')
        return Closure(st, env.module, env, defaults, kwd, name, env.cls)
    def s_ClassDef(self, st, env):
        bases = []
        for b in st.bases:
            v = self.expr(b, env)
            if isinstance(v, PClass): bases.append(v)
            elif isinstance(v, ExcClass): bases.append(v)
        qual = env.module.name + ':' + ((env.cls.name + '.') if isinstance(env.cls, PClass) else '') + st.name
        cls = PClass(st.name, [b for b in bases if isinstance(b, PClass)], {}, env.module, qual)
        cls.exc = next((b for b in bases if isinstance(b, ExcClass)), None)
        if cls.exc: EXC_BASE[st.name] = cls.exc.name
        cls.ns['__name__'] = st.name
        e = Env(env.module, env if env.vars is not env.module.ns else None, cls)
        e.vars = cls.ns
        for s in st.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): continue
            self.stmt(s, e)
        # methods must not see the class namespace as an enclosing scope
        for k, v in cls.ns.items():
            f = v.fn if isinstance(v, (Prop, Static, ClsM)) else v
            if isinstance(f, Closure) and f.env is e:
                f.env = e.parent
                f.cls = cls
        env.vars[st.name] = cls
    def s_Assign(self, st, env):
        v = self.expr(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)
    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.expr(st.value, env), env)
    def s_AugAssign(self, st, env):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            new = self.iop(op, old, self.expr(st.value, env))
            self.assign(t, new, env)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.iop(op, old, self.expr(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env)
            ix = self.index(t.slice, env)
            old = self.lib.getitem(self, o, ix)
            v = self.expr(st.value, env)
            if isinstance(old, Arr) and old.viewed == 'symbolic': new = self.lib.binop(self, op, old, v)
            else: new = self.iop(op, old, v, sub=True)
            self.lib.setitem(self, o, ix, new)
        else:
            raise Unsupported('augassign target')
    def iop(self, op, old, v, sub=False):
        if isinstance(old, PList) and op == 'Add':
            self.lib.list_extend(self, old, v)
            return old
        if isinstance(old, Arr):
            new = self.lib.binop(self, op, old, v)
            self.lib.arr_assign_all(self, old, new)
            return old
        return self.lib.binop(self, op, old, v)
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globs:
                env.module.ns[t.id] = v
            elif t.id in env.nonloc:
                e = env.parent
                while e is not None and t.id not in e.vars: e = e.parent
                e.vars[t.id] = v
            else:
                env.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env)
            self.lib.setitem(self, o, self.index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
                after = len(t.elts) - k - 1
                for e, x in zip(t.elts[:k], vals[:k]): self.assign(e, x, env)
                self.assign(t.elts[k].value, PList(list(vals[k:len(vals) - after])), env)
                for e, x in zip(t.elts[k + 1:], vals[len(vals) - after:]): self.assign(e, x, env)
            else:
                for e, x in zip(t.elts, vals): self.assign(e, x, env)
        else:
            raise Unsupported('assignment target')
    def unpack(self, v, n, star=False):
        it = self.lib.iterate(self, v)
        if not isinstance(it, list):
            raise Unsupported('unpacking a symbolic sequence')
        if not star and len(it) != n:
            raise PyRaise(ExcClass('ValueError'), ('unpack',))
        return it
    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.lib.delitem(self, self.expr(t.value, env), self.index(t.slice, env))
            elif isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value, env)
                if not isinstance(o, Obj): raise Unsupported('del attr')
                o.f.pop(t.attr, None)
    def s_If(self, st, env):
        if self.truth(self.expr(st.test, env)):
            self.block(st.body, env)
        else:
            self.block(st.orelse, env)
    def s_Assert(self, st, env):
        if not self.truth(self.expr(st.test, env)):
            raise PyRaise(ExcClass('AssertionError'))
    def s_Raise(self, st, env):
        if st.exc is None:
            cur = env.vars.get('!exc')
            if cur is not None: raise cur
            raise Unsupported('bare raise')
        v = self.expr(st.exc, env)
        if isinstance(v, ExcClass): raise PyRaise(v)
        if isinstance(v, PClass): raise PyRaise(ExcClass(v.name))
        if isinstance(v, PyRaise): raise v
        if isinstance(v, Ext): raise PyRaise(ExcClass(v.path.split('.')[-1]))
        raise Unsupported('raise of %r' % (v,))
    def s_Try(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except PyRaise as e:
                for h in st.handlers:
                    if self.exc_match(h.type, e, env):
                        if h.name: env.vars[h.name] = e
                        env.vars['!exc'] = e
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        finally:
            import sys
            et = sys.exc_info()[0]
            if et is None or not issubclass(et, (Unsupported, Infeasible)):
                self.block(st.finalbody, env)
    def exc_match(self, typ, e, env):
        if typ is None: return True
        v = self.expr(typ, env)
        for c in (v if isinstance(v, tuple) else (v,)):
            if isinstance(c, ExcClass) and e.cls.sub(c): return True
            if isinstance(c, PClass) and e.cls.sub(ExcClass(c.name)): return True
            if isinstance(c, Ext) and c.path.split('.')[-1] == e.cls.name: return True
        return False
    def s_With(self, st, env):
        for it in st.items:
            v = self.expr(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            if not isinstance(v, (Ext, ExtObj)) and v is not None:
                raise Unsupported('with statement')
        self.block(st.body, env)
    def s_For(self, st, env):
        it = self.lib.iterate(self, self.expr(st.iter, env))
        if isinstance(it, list) or hasattr(it, '__next__'):
            for x in it:
                self.assign(st.target, x, env)
                try:
                    self.block(st.body, env)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            self.block(st.orelse, env)
            return
        from . import loops
        loops.for_sym(self, st, it, env)
    def s_While(self, st, env):
        from . import loops
        loops.while_loop(self, st, env)

    # ------------------------------------------------------------ expressions
    def expr(self, e, env):
        k = type(e).__name__
        f = getattr(self, 'e_' + k, None)
        if f is None:
            raise Unsupported('expression %s' % k)
        return f(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return self.lib.flt(v)
        if isinstance(v, (bool, int, str, bytes)) or v is None or v is Ellipsis:
            return v
        raise Unsupported('constant %r' % (v,))
    def e_Name(self, e, env):
        return self.lookup(e.id, env)
    def e_Attribute(self, e, env):
        return self.getattr(self.expr(e.value, env), e.attr)
    def e_Tuple(self, e, env):
        return tuple(self.seqelts(e.elts, env))
    def e_List(self, e, env):
        return PList(self.seqelts(e.elts, env))
    def e_Set(self, e, env):
        return PSet(items=self.seqelts(e.elts, env))
    def seqelts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.lib.iterate(self, self.expr(x.value, env))
                if not isinstance(it, list): raise Unsupported('star of symbolic')
                out += it
            else:
                out.append(self.expr(x, env))
        return out
    def e_Dict(self, e, env):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.expr(v, env)
                d.items.update(o.items)
            else:
                self.lib.setitem(self, d, self.expr(k, env), self.expr(v, env))
        return d
    def e_IfExp(self, e, env):
        return self.expr(e.body, env) if self.truth(self.expr(e.test, env)) else self.expr(e.orelse, env)
    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.expr(x, env)
            if x is e.values[-1]: return v
            t = self.truth(v)
            if isand and not t: return v if not is_z3(v) else False
            if not isand and t: return v if not is_z3(v) else True
        return v
    def e_UnaryOp(self, e, env):
        v = self.expr(e.operand, env)
        op = type(e.op).__name__
        if op == 'Not':
            t = self.truthterm(v)
            return (not t) if isinstance(t, bool) else simp(z3.Not(t))
        return self.lib.unop(self, op, v)
    def e_BinOp(self, e, env):
        return self.lib.binop(self, type(e.op).__name__, self.expr(e.left, env), self.expr(e.right, env))
    def e_Compare(self, e, env):
        l = self.expr(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            rv = self.expr(r, env)
            c = self.lib.compare(self, type(op).__name__, l, rv)
            if res is None: res = c
            else:
                if isinstance(res, Arr): raise Unsupported('chained array comparison')
                res = self.lib.land(res, c)
            if len(e.ops) > 1 and not self.truth(res): return False
            l = rv
        return res
    def e_NamedExpr(self, e, env):
        v = self.expr(e.value, env)
        self.assign(e.target, v, env)
        return v
    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(str(v.value))
            else:
                x = self.expr(v.value, env)
                if isinstance(x, (int, str, bool)) and v.format_spec is None: parts.append(str(x))
                else: parts.append('<?>')
        return ''.join(parts)
    def e_Lambda(self, e, env):
        return self.mkfunc(e, env)
    def e_Subscript(self, e, env):
        return self.lib.getitem(self, self.expr(e.value, env), self.index(e.slice, env))
    def index(self, s, env):
        if isinstance(s, ast.Slice):
            return Slice(*[None if x is None else self.expr(x, env) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, env) for x in s.elts)
        return self.expr(s, env)
    def e_Slice(self, e, env):
        return self.index(e, env)
    def e_Starred(self, e, env): raise Unsupported('starred')
    def e_ListComp(self, e, env):
        return self.comp(e, env)
    def e_GeneratorExp(self, e, env):
        return self.comp(e, env)
    def e_SetComp(self, e, env):
        r = self.comp(e, env)
        return PSet(items=r.items) if r.is_conc() else PSet(seq=r.seq)
    def e_DictComp(self, e, env):
        d = PDict()
        self.comp_gen(e.generators, 0, Env2(env), lambda en: self.lib.setitem(self, d, self.expr(e.key, en), self.expr(e.value, en)))
        return d
    def comp(self, e, env):
        en = Env2(env)
        gens = e.generators
        it = self.lib.iterate(self, self.expr(gens[0].iter, en))
        if isinstance(it, list) or hasattr(it, '__next__'):
            out = PList([])
            self.comp_gen(gens, 0, en, lambda n: self.lib.list_append(self, out, self.expr(e.elt, n)), first=it)
            return out
        if len(gens) > 1:
            raise Unsupported('nested comprehension over a symbolic range')
        from . import loops
        if gens[0].ifs:
            return loops.filter_comp(self, e, it, en)
        def at(ix, sub):
            n2 = Env2(env)
            sub.assign(gens[0].target, it.get(sub, ix), n2)
            return sub.expr(e.elt, n2)
        return PList(seq=loops.map_seq(self, it.n, at))
    def comp_gen(self, gens, k, env, emit, first=None):
        if k == len(gens):
            emit(env)
            return
        g = gens[k]
        it = first if first is not None else self.lib.iterate(self, self.expr(g.iter, env))
        if not isinstance(it, list) and not hasattr(it, '__next__'):
            raise Unsupported('comprehension over a symbolic range')
        for x in it:
            self.assign(g.target, x, env)
            if all(self.truth(self.expr(c, env)) for c in g.ifs):
                self.comp_gen(gens, k + 1, env, emit)
    def e_Yield(self, e, env):
        v = self.expr(e.value, env) if e.value is not None else None
        g = env
        while g.gen is None: g = g.parent
        self.lib.list_append(self, g.gen, v)
        return None
    def e_YieldFrom(self, e, env):
        v = self.expr(e.value, env)
        self.lib.list_extend(self, env.gen, v)
        return None
    def e_Call(self, e, env):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and not e.args:
            en = env
            while en is not None and en.selfv is None: en = en.parent
            return Super(en.cls, en.selfv)
        fn = self.expr(f, env)
        args = self.seqelts(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.expr(k.value, env)
                if not isinstance(d, PDict) or d.sym is not None:
                    raise Unsupported('** of non-dict')
                kw.update(d.items)
            else:
                kw[k.arg] = self.expr(k.value, env)
        return self.call(fn, args, kw)

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kw):
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.self_] + list(args), kw)
        if isinstance(fn, Builtin):
            return fn.fn(self, list(args), kw)
        if isinstance(fn, Closure):
            if fn.module.name.startswith('pysad') and branching_pure(fn):
                r = self.call_merged(fn, list(args), kw)
                if r is not None: return r[0]
            return self.call_closure(fn, list(args), kw)
        if isinstance(fn, PClass):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, ExcClass):
            return PyRaise(fn, tuple(args))
        if isinstance(fn, Static):
            return self.call(fn.fn, args, kw)
        if isinstance(fn, Ext):
            return self.lib.call_ext(self, fn, list(args), kw)
        if isinstance(fn, Obj):
            c, m = fn.cls.lookup('__call__')
            if m is not None:
                return self.call(m, [fn] + list(args), kw)
        if isinstance(fn, ExtObj):
            return self.lib.ext_pure(self, fn.label + '()', [fn] + list(args), kw)
        if isinstance(fn, DeferredUnsupported):
            raise Unsupported(fn.why)
        if is_z3(fn) and fn.sort() == T.U:
            raise Unsupported('call of opaque value')
        raise PyRaise(ExcClass('TypeError'), ('not callable: %r' % (fn,),))

    def call_merged(self, fn, args, kw):
        """a side-effect-free function with branches: its result as one if-then-else term"""
        from . import loops
        c = self.ctx
        if c.depth > 8: return None
        try:
            v = loops.merged_eval(self, lambda sub: sub.call_closure(fn, list(args), dict(kw)))
        except (Unsupported, PyRaise):
            return None
        return (v,) if v is not None and not isinstance(v, HEAP) else None

    def instantiate(self, cls, args, kw):
        cls = self.eng.spec_of(cls)
        if getattr(cls, 'exc', None):
            return PyRaise(ExcClass(cls.name), tuple(args))
        o = Obj(cls)
        c, init = cls.lookup('__init__')
        if init is not None:
            self.call(init, [o] + list(args), kw)
        elif args or kw:
            raise PyRaise(ExcClass('TypeError'), ('%s() takes no arguments' % cls.name,))
        return o

    def call_closure(self, fn, args, kw):
        node = fn.node
        env = Env(fn.module, fn.env, fn.cls)
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vars_ = env.vars
        kw = dict(kw)
        TE = lambda m: PyRaise(ExcClass('TypeError'), ('%s: %s' % (fn.name, m),))
        if len(args) > len(pos):
            if a.vararg is None: raise TE('too many positional arguments')
            vars_[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            vars_[a.vararg.arg] = ()
        for n, v in zip(pos, args): vars_[n] = v
        nd = len(fn.defaults)
        for i, n in enumerate(pos):
            if n in vars_:
                if n in kw: raise TE('multiple values for %s' % n)
                continue
            if n in kw: vars_[n] = kw.pop(n)
            elif i >= len(pos) - nd: vars_[n] = fn.defaults[i - (len(pos) - nd)]
            else: raise TE('missing %s' % n)
        for x in a.kwonlyargs:
            if x.arg in kw: vars_[x.arg] = kw.pop(x.arg)
            elif x.arg in fn.kwdefaults: vars_[x.arg] = fn.kwdefaults[x.arg]
            else: raise TE('missing %s' % x.arg)
        if a.kwarg is not None: vars_[a.kwarg.arg] = PDict(dict(kw))
        elif kw: raise TE('unexpected %s' % list(kw))
        if fn.cls is not None and args:
            env.selfv = args[0]
        m = fn.module.name
        if m.startswith('pysad'):
            q = m + ':' + ((fn.cls.name + '.') if isinstance(fn.cls, PClass) else '') + fn.name
            self.eng.executed[q] = self.eng.executed.get(q, 0) + 1
        self.ctx.depth_calls = getattr(self.ctx, 'depth_calls', 0) + 1
        if self.ctx.depth_calls > 120:
            raise Unsupported('recursion too deep')
        try:
            if isinstance(node, ast.Lambda):
                return self.expr(node.body, env)
            if is_gen(node):
                env.gen = PList([])
                try:
                    self.block(node.body, env)
                except ReturnEx:
                    pass
                except PyRaise as e:
                    # generators run eagerly here: what was delivered before the exception
                    if getattr(e, 'yielded', None) is None or (e.yielded.is_conc() and not e.yielded.items): e.yielded = env.gen
                    raise
                return env.gen
            try:
                self.block(node.body, env)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.ctx.depth_calls -= 1

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.f:
                v = o.f[name]
                if isinstance(v, Poison): raise Unsupported('field %s after a summarised loop' % name)
                return v
            c, m = o.cls.lookup(name)
            if c is not None:
                return self.bind(m, o)
            if name == '__class__': return o.cls
            if name == '__dict__': return PDict(o.f)
            c, m = o.cls.lookup('__getattr__')
            if c is not None:
                return self.call(m, [o, name], {})
            if o.cls.spec:
                raise Unsupported('attribute %s is not part of the contract of %s' % (name, o.cls.name))
            raise PyRaise(ExcClass('AttributeError'), (o.cls.name, name))
        if isinstance(o, Super):
            mro = o.self_.cls.mro if isinstance(o.self_, Obj) else o.self_.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns: return self.bind(c.ns[name], o.self_)
            if name == '__init__':
                def obj_init(it, args, kw):
                    if args or kw: raise PyRaise(ExcClass('TypeError'), ('object.__init__() takes exactly one argument',))
                return Builtin('object.__init__', obj_init)
            raise PyRaise(ExcClass('AttributeError'), ('super', name))
        if isinstance(o, PClass):
            c, m = o.lookup(name)
            if c is not None:
                if isinstance(m, Static): return m.fn
                if isinstance(m, ClsM): return Bound(m.fn, o)
                return m
            if name in ('__name__', '__qualname__'): return o.name
            raise PyRaise(ExcClass('AttributeError'), (o.name, name))
        if isinstance(o, Module):
            if name in o.ns:
                v = self.eng.force(o.ns[name]); o.ns[name] = v
                return v
            sub = o.name + '.' + name
            if self.eng.mod_path(sub): return self.eng.load(sub)
            raise PyRaise(ExcClass('AttributeError'), (o.name, name))
        if isinstance(o, Ext):
            return self.lib.ext_attr(o, name)
        return self.lib.getattr(self, o, name)
    def bind(self, m, o):
        if isinstance(m, Closure): return Bound(m, o)
        if isinstance(m, Prop): return self.call(m.fn, [o], {})
        if isinstance(m, Static): return m.fn
        if isinstance(m, ClsM): return Bound(m.fn, o.cls)
        if isinstance(m, Builtin): return Bound(m, o)
        return m
    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            c, m = o.cls.lookup(name)
            if isinstance(m, Prop): raise PyRaise(ExcClass('AttributeError'), (name,))
            if o.cls.spec and o.f and name not in o.f:
                cur = True
            o.f[name] = v
        elif isinstance(o, PClass):
            o.ns[name] = v
        elif isinstance(o, Module):
            o.ns[name] = v
        else:
            raise Unsupported('setattr on %r' % (o,))

    # ------------------------------------------------------------ truth
    def truthterm(self, v):
        return self.lib.truthterm(self, v)
    def truth(self, v):
        t = self.truthterm(v)
        return self.ctx.decide(t)

class DeferredUnsupported:
    def __init__(self, why): self.why = why

def Env2(env):
    e = Env(env.module, env, env.cls)
    e.selfv = None
    return e

_gen_cache = {}
def is_gen(node):
    r = _gen_cache.get(id(node))
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
            stack.extend(ast.iter_child_nodes(x))
        _gen_cache[id(node)] = r
        _gen_cache[('keep', id(node))] = node
    return r
