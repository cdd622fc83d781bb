"""Summaries of loops and comprehensions over symbolic ranges (inductive, no bound).

A loop is run once on a generic iteration k with every modified location replaced by a symbol; each location then gets a
closed form in k (counter, sum, map, last value) or, failing that, a recurrence symbol REC(k) defined by
REC(0) = init, REC(k+1) = body(REC(k)) (hash-consed by body, so that equal loops give equal symbols)."""
import ast, hashlib
from fractions import Fraction
import z3
from . import terms as T
from .terms import is_z3, simp, to_term, real, loopvar, mentions, feasible
from .values import *
from .interp import Interp, Env, Env2, explore, ContinueEx, BreakEx, ReturnEx, Poison, ExcClass

class SymIter:
    """symbolic iterable: n elements, get(interp, i)"""
    def __init__(self, n, get):
        self.n, self.get = n, get

class ASeq(Seq):
    """loop-carried list: base plus appended values"""
    __slots__ = ('base', 'app')
    def __init__(self, base, app):
        n = base.hi
        def get(i):
            r = base.fam.get(i)
            for j, v in enumerate(app):
                r = merge_vals([(simp(zi(i) == zi(n) + j), v), (None, r)]) if r is not None else v
            return r
        Seq.__init__(self, T.Fam(T.fresh_name('aseq'), 'obj', get), base.lo, iadd(base.hi, len(app)))
        self.base, self.app = base, tuple(app)

class LoopSeq(Seq):
    __slots__ = ()

# ---------------------------------------------------------------- values
def merge_vals(cv):
    """[(cond, value)...] last cond ignored -> one value (ite)"""
    vals = [v for _, v in cv]
    v0 = vals[0]
    if all(v is v0 for v in vals): return v0
    if all(type(v) is type(v0) and not is_z3(v) and not isinstance(v, HEAP) and not isinstance(v, (tuple, Seq)) and v == v0 for v in vals): return v0
    ts = [to_term(v) for v in vals]
    if all(t is not None for t in ts):
        sorts = {str(t.sort()) for t in ts}
        if len(sorts) > 1:
            if sorts <= {'Int', 'Real', 'Bool'}:
                if 'Real' in sorts: ts = [real(t) for t in ts]
                else: ts = [z3.If(t, z3.IntVal(1), z3.IntVal(0)) if t.sort() == T.B else t for t in ts]
            else:
                raise Unsupported('merge of different sorts')
        r = ts[-1]
        for (c, _), t in reversed(list(zip(cv[:-1], ts[:-1]))):
            r = z3.If(c, t, r)
        return norm(simp(r))
    if all(isinstance(v, tuple) and len(v) == len(v0) for v in vals):
        return tuple(merge_vals([(c, v[i]) for c, v in cv]) for i in range(len(v0)))
    if all(isinstance(v, Arr) and v.is_conc() and v.shape == v0.shape for v in vals):
        fl = [v.flat() for v in vals]
        return arr_of([merge_vals([(c, f[i]) for (c, _), f in zip(cv, fl)]) for i in range(len(fl[0]))], v0.dtype, v0.shape)
    if all(isinstance(v, PList) and v.is_conc() and len(v.items) == len(v0.items) for v in vals):
        return PList([merge_vals([(c, v.items[i]) for c, v in cv]) for i in range(len(v0.items))], kind=v0.kind)
    if all(isinstance(v, PList) and type(v.seq) is Seq and v.seq.fam is v0.seq.fam and v.seq.bag is None for v in vals):
        return PList(seq=Seq(v0.seq.fam, merge_vals([(c, v.seq.lo) for c, v in cv]), merge_vals([(c, v.seq.hi) for c, v in cv])), kind=v0.kind)
    if all(isinstance(v, ExtObj) for v in vals):
        return ExtObj(merge_vals([(c, v.term) for c, v in cv]), v0.label)
    raise Unsupported('merge of %s' % sorted({type(v).__name__ for v in vals}))

def subst_val(v, pairs):
    """substitute z3 constants inside a value"""
    if is_z3(v):
        return norm(simp(z3.substitute(v, *pairs)))
    if isinstance(v, tuple): return tuple(subst_val(x, pairs) for x in v)
    if isinstance(v, ExtObj): return ExtObj(subst_val(v.term, pairs), v.label)
    if isinstance(v, Seq):
        return Seq(subst_fam(v.fam, pairs), subst_val(v.lo, pairs), subst_val(v.hi, pairs), None if v.bag is None else z3.substitute(v.bag, *pairs))
    if isinstance(v, Arr):
        if v.is_conc():
            return arr_of([subst_val(x, pairs) for x in v.flat()], v.dtype, v.shape)
        g, rf, fam = v.getf, v.rowf, v.fam
        return Arr(tuple(subst_val(s, pairs) for s in v.shape), getf=(lambda ix: subst_val(g(ix), pairs)) if g else None, dtype=v.dtype,
                   rowf=(lambda i: subst_val(rf(i), pairs)) if rf else None, fam=None if fam is None else subst_val(fam, pairs))
    if isinstance(v, PList):
        if v.is_conc(): return PList([subst_val(x, pairs) for x in v.items], kind=v.kind, maxlen=v.maxlen)
        return PList(seq=subst_val(v.seq, pairs), kind=v.kind, maxlen=v.maxlen)
    if isinstance(v, (Obj, PDict)): raise Unsupported('object in generic iteration')
    return v

def subst_fam(fam, pairs):
    if fam.body is not None:
        if not any(mentions(fam.body, [a]) for a, _ in pairs): return fam
        return T.derived_family(z3.substitute(fam.body, *pairs), T.I0)
    if fam.kind == 'obj' or fam.getf is None:
        g = fam.getf
        return T.Fam(T.fresh_name('objfam'), 'obj', lambda i: subst_val(g(i), pairs))
    return fam

def merged_eval(I, thunk, extra=(), idx=None):
    """evaluate thunk(interp) on all paths, merged into one value"""
    ctx = I.ctx
    base = list(ctx.pc) + [c for c in extra if not isinstance(c, bool)]
    def run(c):
        c.depth = ctx.depth + 1
        c.steps = ctx.steps
        return thunk(Interp(I.eng, c))
    res = explore(I.eng, run, base, tag='%sm%d' % (ctx.tag, ctx.depth), parent=ctx)
    for r in res:
        if r.kind == 'raise':
            raise Unsupported('exception %s inside a summarised element' % r.val)
        if r.kind != 'ok':
            raise Unsupported('control flow inside a summarised element')
    if not res:
        return None
    def cond(r):
        cs = [c for j, c in enumerate(r.pc) if j >= len(base) and j not in r.ctx.forced]
        return z3.And(*cs) if cs else z3.BoolVal(True)
    return merge_vals([(cond(r), r.val) for r in res])

def map_seq(I, n, at):
    """Seq of n elements, element i = at(i, interp)"""
    ix = loopvar('ix!%d' % I.ctx.depth)
    rng = [simp(ix >= 0), simp(ix < zi(n))]
    if not feasible(I.ctx.pc, z3.And(*rng)):
        return Seq(T.uf_family('empty!fam', 'U'), 0, 0)
    v = merged_eval(I, lambda sub: at(ix, sub), rng)
    return seq_of_elem(v, ix, n)

def rebase(t, ix):
    """body over ix + c (one shift c everywhere) -> (body over ix, c): slices of one history share their prefix sums"""
    shifts, out, seen, stack = set(), {}, set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(ix): return t, 0
        if not z3.is_app(x): return t, 0
        un = x.decl().kind() == z3.Z3_OP_UNINTERPRETED
        for a in x.children():
            if un and a.sort() == T.I and mentions(a, [ix]):
                c = simp(a - ix)
                if mentions(c, [ix]): return t, 0
                out[c.get_id()] = c
                if len(out) > 1: return t, 0
            else: stack.append(a)
    if not out: return t, 0
    c = next(iter(out.values()))
    if z3.is_int_value(c) and c.as_long() == 0: return t, 0
    if T.free_loopvars(c): return t, 0
    t2 = simp(z3.substitute(t, (ix, ix - c)))
    return t2, norm(c)

def seq_of_elem(v, ix, n, lo=0):
    t = to_term(v)
    if t is not None:
        t, c = rebase(t, ix)
        return Seq(T.derived_family(t, ix), iadd(lo, c), iadd(n, c))
    if isinstance(v, ExtObj):
        f = T.derived_family(v.term, ix)
        return Seq(T.Fam(T.fresh_name('objfam'), 'obj', lambda i: ExtObj(f.get(i), v.label)), lo, n)
    return Seq(T.Fam(T.fresh_name('objfam'), 'obj', lambda i: subst_val(v, [(ix, zi(i))])), lo, n)

def filter_comp(I, e, it, env):
    raise Unsupported('filtered comprehension over a symbolic range')

# ---------------------------------------------------------------- state snapshots
def clone_val(v, memo):
    if isinstance(v, tuple): return tuple(clone_val(x, memo) for x in v)
    if isinstance(v, Bound): return Bound(v.fn, clone_val(v.self_, memo))
    if isinstance(v, Frame): return Frame(clone_val(v.arr, memo))
    if not isinstance(v, HEAP) and not isinstance(v, Env): return v
    r = memo.get(id(v))
    if r is not None: return r[1]
    if isinstance(v, Obj):
        c = Obj(v.cls); memo[id(v)] = (v, c)
        c.f = {k: clone_val(x, memo) for k, x in v.f.items()}
    elif isinstance(v, PList):
        c = PList(kind=v.kind, maxlen=v.maxlen); memo[id(v)] = (v, c)
        c.items = None if v.items is None else [clone_val(x, memo) for x in v.items]
        c.seq = v.seq
    elif isinstance(v, PDict):
        c = PDict(); memo[id(v)] = (v, c)
        c.items = {k: clone_val(x, memo) for k, x in v.items.items()}
        c.sym = v.sym
    elif isinstance(v, Arr):
        c = Arr(v.shape, getf=v.getf, dtype=v.dtype, rowf=v.rowf, fam=v.fam); memo[id(v)] = (v, c)
        if v.viewed == 'symbolic': c.viewed = v.viewed
        if v.buf is not None:
            b = memo.get(('buf', id(v.buf)))
            if b is None:
                b = (v.buf, list(v.buf)); memo[('buf', id(v.buf))] = b
            c.buf, c.pos = b[1], v.pos
        c.log = list(getattr(v, 'log', ()))
    else:
        c = Env(v.module, None, v.cls); memo[id(v)] = (v, c)
        c.globs, c.nonloc = v.globs, v.nonloc
        c.vars = {k: clone_val(x, memo) for k, x in v.vars.items()} if v.vars is not v.module.ns else v.vars
        c.parent = clone_val(v.parent, memo) if v.parent is not None else None
        c.selfv = clone_val(v.selfv, memo)
        c.gen = clone_val(v.gen, memo)
    return c

def slots_of(o):
    if isinstance(o, Env): return o.vars
    if isinstance(o, Obj): return o.f
    return None

def same(a, b):
    if a is b: return True
    if is_z3(a) and is_z3(b): return a.eq(b)
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Bound) and isinstance(b, Bound): return a.fn is b.fn and a.self_ is b.self_
    if type(a) is type(b) and isinstance(a, (int, str, Fraction, bool)): return a == b
    return False

class Loc:
    def __init__(self, obj, slot, kind, init):
        self.obj, self.slot, self.kind, self.init = obj, slot, kind, init
        self.sym = None; self.end = None; self.sort = None; self.app = None
    def key(self):
        return (id(self.obj), self.slot)

MISSING = object()

def snapshot(memo):
    snap = {}
    for k, (o, c) in memo.items():
        if isinstance(k, tuple):
            snap[k] = list(c)
        elif isinstance(c, (Obj, Env)):
            snap[k] = dict(slots_of(c)) if not (isinstance(c, Env) and c.vars is c.module.ns) else {}
        elif isinstance(c, PList): snap[k] = (None if c.items is None else list(c.items), c.seq)
        elif isinstance(c, PDict): snap[k] = (dict(c.items), c.sym)
        elif isinstance(c, Arr): snap[k] = (c.getf, c.rowf)
    return snap

def diff(memo, snap):
    """modified (orig obj, slot, kind, new value)"""
    out = []
    for k, (o, c) in memo.items():
        s = snap[k]
        if isinstance(k, tuple):
            for j, (a, b) in enumerate(zip(s, c)):
                if not same(a, b): out.append((o, j, 'buf', b))
        elif isinstance(c, (Obj, Env)):
            if isinstance(c, Env) and c.vars is c.module.ns: continue
            now = slots_of(c)
            for n in now:
                if n == '!exc': continue
                if n not in s or not same(s[n], now[n]): out.append((o, n, 'slot', now[n]))
            for n in s:
                if n not in now: raise Unsupported('deleted slot in loop')
        elif isinstance(c, PList):
            if c.seq is not s[1]:
                out.append((o, None, 'list', c))
            elif c.items is not None and (s[0] is None or len(s[0]) != len(c.items) or not all(same(a, b) for a, b in zip(s[0], c.items))):
                out.append((o, None, 'list', c))
        elif isinstance(c, PDict):
            if c.sym is not s[1] or len(c.items) != len(s[0]) or any(kk not in s[0] or not same(s[0][kk], c.items[kk]) for kk in c.items):
                raise Unsupported('dict modified in a symbolic loop')
        elif isinstance(c, Arr):
            if c.getf is not s[0]: out.append((o, None, 'arr', c))
    return out

class LV:
    counter = [0]

def summarise(I, n, body, env, cond=None):
    """n: iteration count (None for while, then cond(interp, env) gives the guard)"""
    ctx, eng = I.ctx, I.eng
    d = ctx.depth
    k = loopvar('k!%d' % d)
    havoc = {}
    order = []
    for rnd in range(8):
        def run(c):
            c.depth = d + 1
            sub = Interp(eng, c)
            memo = {}
            env2 = clone_val(env, memo)
            for loc in order:
                put(memo, loc)
            c.snapshot = None
            snap = snapshot(memo)
            g = None
            if cond is not None:
                g = sub.truthterm(cond(sub, env2))
                c.guard_pc = len(c.pc)
                c.assume(g)
            body(sub, env2, k)
            return memo, snap, g
        base = list(ctx.pc) + [k >= 0] + ([k < zi(n)] if n is not None else [])
        res = explore(eng, run, base, tag='%sL%d' % (ctx.tag, d), parent=ctx)
        new = False
        for r in res:
            if r.kind in ('break', 'return'): raise Unsupported('early exit from a symbolic loop')
            if r.kind == 'raise': continue
            memo, snap, g = r.val
            for (o, slot, kind, val) in diff(memo, snap):
                key = (id(o), slot) if kind != 'buf' else (id(o), ('buf', slot))
                loc = havoc.get(key)
                if loc is None:
                    new = True
                    if kind == 'slot':
                        pre = slots_of(o).get(slot, MISSING)
                        t0, t1 = (to_term(pre) if pre is not MISSING else None), to_term(val)
                        if pre is not MISSING and t0 is not None and t1 is not None:
                            loc = Loc(o, slot, 'scalar', pre)
                            loc.sort = joinsort(t0.sort(), t1.sort())
                        else:
                            loc = Loc(o, slot, 'poison', pre)
                    elif kind == 'buf':
                        loc = Loc(o, ('buf', slot), 'scalar', o[slot])
                        t0, t1 = to_term(o[slot]), to_term(val)
                        if t0 is None or t1 is None: raise Unsupported('array of objects in loop')
                        loc.sort = joinsort(t0.sort(), t1.sort())
                    elif kind == 'list':
                        loc = Loc(o, None, 'list', (list(o.items) if o.items is not None else None, o.seq))
                        if o.maxlen is not None: raise Unsupported('bounded deque in symbolic loop')
                    else:
                        loc = Loc(o, None, 'arr', o.getf)
                    loc.idx = len(order)
                    havoc[key] = loc
                    order.append(loc)
                    mkhavoc(loc, d)
                else:
                    if loc.kind == 'scalar':
                        t1 = to_term(val)
                        if t1 is None:
                            loc.kind = 'poison'; new = True
                        else:
                            s = joinsort(loc.sort, t1.sort())
                            if s != loc.sort:
                                loc.sort = s; mkhavoc(loc, d); new = True
        if not new: break
    else:
        raise Unsupported('loop state did not stabilise')
    oks = [r for r in res if r.kind == 'ok']
    raises = [r for r in res if r.kind == 'raise']
    nb = len(base)
    if not oks:
        if n is not None and not raises: return zi(0)      # body unreachable: n == 0
        if not oks and not raises: return zi(0)
    conds = [z3.And(*r.pc[nb:]) if len(r.pc) > nb else z3.BoolVal(True) for r in oks]
    # frontier assumptions cannot escape: reject
    scal = [l for l in order if l.kind == 'scalar']
    for loc in order:
        vals = [endval(r.val[0], loc) for r in oks]
        if loc.kind == 'scalar':
            ts = [to_term(v) for v in vals]
            ts = [real(t) if loc.sort == T.R else t for t in ts]
            loc.end = simp(to_term(merge_vals(list(zip(conds, ts)))))
            if loc.end.sort() != loc.sort:
                loc.end = real(loc.end) if loc.sort == T.R else loc.end
        elif loc.kind == 'list':
            apps = []
            for v in vals:
                if v.seq is loc.sym: apps.append(())
                elif isinstance(v.seq, ASeq) and v.seq.base is loc.sym: apps.append(v.seq.app)
                else: raise Unsupported('list changed other than by append in a symbolic loop')
            if len({len(a) for a in apps}) != 1:
                raise Unsupported('conditional append in a symbolic loop')
            loc.app = [merge_vals([(c, a[j]) for c, a in zip(conds, apps)]) for j in range(len(apps[0]))]
        elif loc.kind == 'arr':
            stores = []
            for v in vals:
                stores.append(list(getattr(v, 'log', ())))
            if any(len(s) != 1 for s in stores):
                raise Unsupported('array written other than once per iteration')
            for s, r in zip(stores, oks):
                ix = s[0][0]
                if not (len(ix) == 1 and T.entails(r.pc, zi(ix[0]) == k) == 'valid'):
                    raise Unsupported('array written at a non-consecutive index')
            loc.app = [merge_vals([(c, s[0][1]) for c, s in zip(conds, stores)])]
    # ---- solve
    cf = {}            # sym id -> (sym, closed form over k)
    def sub_cf(t):
        ps = [(s, f) for s, f in cf.values()]
        return simp(z3.substitute(t, *ps)) if ps else t
    pending = list(scal)
    syms = [l.sym for l in scal]
    seqsyms = [l for l in order if l.kind in ('list', 'arr')]
    progress = True
    while pending and progress:
        progress = False
        for loc in list(pending):
            others = [l.sym for l in pending if l is not loc]
            E = sub_cf(loc.end)
            if mentions(E, others): continue
            init = to_term(loc.init)
            if loc.sort == T.R: init = real(init)
            if not mentions(E, [loc.sym]):
                prev = z3.substitute(E, (k, k - 1))
                cf[loc.sym.get_id()] = (loc.sym, simp(z3.If(k > 0, prev, init)))
                loc.final = (E, init, 'last')
            else:
                dlt = simp(E - loc.sym, som=True) if False else z3.simplify(E - loc.sym, som=True) if loc.sort in (T.I, T.R) else None
                if dlt is not None and mentions(dlt, [loc.sym]):
                    dlt = lift_ite_delta(E, loc.sym)
                if dlt is not None and not mentions(dlt, [loc.sym]):
                    if not mentions(dlt, [k]):
                        cf[loc.sym.get_id()] = (loc.sym, simp(init + (k if loc.sort == T.I else z3.ToReal(k)) * dlt))
                    else:
                        fam = T.derived_family(dlt, k)
                        cf[loc.sym.get_id()] = (loc.sym, init + T.fam_ps(fam)(k, *fam.params) if loc.sort == T.I or fam.kind == 'real' else init + z3.ToReal(T.fam_ps(fam)(k, *fam.params)))
                else:
                    f = recurrence([loc], [E], [init], k)
                    cf[loc.sym.get_id()] = (loc.sym, f[0](k))
            pending.remove(loc)
            progress = True
    if pending:
        inits = []
        for l in pending:
            t = to_term(l.init)
            inits.append(real(t) if l.sort == T.R else t)
        fs = recurrence(pending, [sub_cf(l.end) for l in pending], inits, k)
        for l, f in zip(pending, fs): cf[l.sym.get_id()] = (l.sym, f(k))
    for loc in seqsyms:
        if loc.kind == 'list' and loc.sym is not None:
            ls = loc.lensym
            init = loc.init
            L0 = len(init[0]) if init[1] is None else init[1].length()
            cf[ls.get_id()] = (ls, simp(zi(L0) + k * len(loc.app)))
    allpairs = [(s, f) for s, f in cf.values()]
    if cond is not None:
        gs = [(z3.And(*r.pc[nb:]) , r.val[2]) for r in oks]
        # guard term is path-independent only if evaluated before any fork; otherwise merge
        g = sub_cf(simp(z3.Or(*[z3.And(*(r.pc[nb:] or [z3.BoolVal(True)])) for r in oks + raises])))
        n = while_count(I, g, k)
    N = zi(n)
    # ---- raising iterations
    for r in raises:
        c = sub_cf(simp(z3.And(*r.pc[nb:]) if len(r.pc) > nb else z3.BoolVal(True)))
        if mentions(c, [k]):
            if feasible(ctx.pc + [k >= 0, k < N], c): raise Unsupported('exception %s possible inside a symbolic loop' % r.val)
        else:
            if ctx.decide(simp(z3.And(N > 0, c))): raise r.val
    # ---- write back
    def at(t, i):
        return norm(simp(z3.substitute(sub_cf(t), (k, zi(i)))))
    for loc in order:
        if loc.kind == 'scalar':
            s, f = cf[loc.sym.get_id()]
            if getattr(loc, 'final', None) is not None:
                E, init, _ = loc.final
                fin = simp(z3.If(N > 0, z3.substitute(E, (k, N - 1)), init))
            else:
                fin = simp(z3.substitute(f, (k, N)))
            fin = norm(fin)
            if isinstance(loc.slot, tuple) and loc.slot[0] == 'buf': loc.obj[loc.slot[1]] = fin
            else: slots_of(loc.obj)[loc.slot] = fin
        elif loc.kind == 'poison':
            slots_of(loc.obj)[loc.slot] = Poison('loop')
        elif loc.kind == 'list':
            if len(loc.app) == 0: continue
            if len(loc.app) != 1: raise Unsupported('several appends per iteration')
            v = subst_val(loc.app[0], allpairs) if allpairs else loc.app[0]
            items, sq = loc.init
            L0 = len(items) if sq is None else sq.length()
            if L0 == 0:
                loc.obj.set_seq(seq_of_elem(v, k, norm(simp(N))))
            else:
                old = (lambda i, items=items, sq=sq: sq.get(i)) if sq is not None else None
                if old is None:
                    def old(i, items=items):
                        return merge_vals([(zi(i) == j, x) for j, x in enumerate(items)])
                w = subst_val(v, [(k, k - zi(L0))])
                e = merge_vals([(k < zi(L0), old(k)), (None, w)])
                loc.obj.set_seq(seq_of_elem(e, k, norm(simp(N + zi(L0)))))
        elif loc.kind == 'arr':
            v = subst_val(loc.app[0], allpairs) if allpairs else loc.app[0]
            a = loc.obj
            arr_map_result(I, a, v, k, N)
    return N

def arr_map_result(I, a, v, k, N):
    old_getf, old_rowf = a.getf, a.rowf
    full = len(a.shape) >= 1 and I.ctx.known(zi(a.shape[0]) == N)
    t = to_term(scalar_of1(v))
    if len(a.shape) == 1:
        if t is None: raise Unsupported('non-scalar stored in vector')
        t = real(t) if a.dtype == 'f' else t
        if full:
            fam = T.derived_family(t, k)
            a.fam = Seq(fam, 0, a.shape[0])
            a.getf = lambda ix: fam.get(ix[0])
        else:
            e = simp(z3.If(z3.And(k >= 0, k < N), t, to_term(old_getf((k,)))))
            fam = T.derived_family(e, k)
            a.fam = Seq(fam, 0, a.shape[0])
            a.getf = lambda ix: fam.get(ix[0])
        a.rowf = None
    else:
        if not full: raise Unsupported('partially written matrix')
        a.rowf = lambda i: subst_val(v, [(k, zi(i))])
        def g(ix):
            r = a.rowf(ix[0])
            if isinstance(r, Arr): return r.at(ix[1:])
            return r
        a.getf = g
        a.fam = None

def scalar_of1(v):
    return v.as_scalar() if isinstance(v, Arr) else v

def lift_ite_delta(E, s):
    """E - s where E is an if-then-else over s: push the subtraction into the branches"""
    def go(t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(t.arg(0), go(t.arg(1)), go(t.arg(2)))
        return z3.simplify(t - s, som=True)
    return simp(go(E))

def joinsort(a, b):
    if a == b: return a
    if {str(a), str(b)} <= {'Int', 'Real', 'Bool'}:
        return T.R if T.R in (a, b) else T.I
    raise Unsupported('loop variable changes type')

def mkhavoc(loc, d):
    if loc.kind == 'scalar':
        loc.sym = loopvar('rv!%d!%d' % (d, loc.idx), loc.sort)
    elif loc.kind == 'list':
        loc.lensym = loopvar('rl!%d!%d' % (d, loc.idx))
        f = T.Fam('loopfam!%d!%d' % (d, loc.idx), 'obj', _noread)
        loc.sym = LoopSeq(f, 0, loc.lensym)
    elif loc.kind == 'arr':
        loc.sym = _noread

def _noread(i):
    raise Unsupported('loop-carried list/array read back in the loop')

def put(memo, loc):
    if isinstance(loc.slot, tuple) and loc.slot[0] == 'buf':
        memo[('buf', id(loc.obj))][1][loc.slot[1]] = loc.sym if loc.kind == 'scalar' else Poison('loop')
        return
    c = memo[id(loc.obj)][1]
    if loc.kind == 'scalar': slots_of(c)[loc.slot] = loc.sym
    elif loc.kind == 'poison': slots_of(c)[loc.slot] = Poison('loop')
    elif loc.kind == 'list': c.items, c.seq = None, loc.sym
    elif loc.kind == 'arr':
        c.getf = _noread; c.rowf = _noread; c.fam = None; c.log = []

def endval(memo, loc):
    if isinstance(loc.slot, tuple) and loc.slot[0] == 'buf':
        return memo[('buf', id(loc.obj))][1][loc.slot[1]]
    c = memo[id(loc.obj)][1]
    if loc.kind in ('scalar', 'poison'): return slots_of(c)[loc.slot]
    return c

class Rec:
    def __init__(self, decl, init, step, params): self.decl, self.init, self.step, self.params = decl, init, step, params

def recurrence(locs, Es, inits, k):
    """mutually recursive symbols; hash-consed"""
    canon = [z3.Const('self!%d' % i, l.sort) for i, l in enumerate(locs)]
    es = [simp(z3.substitute(E, *([(l.sym, c) for l, c in zip(locs, canon)] + [(k, T.I0)]))) for E in Es]
    # canonical order independent of location order is only needed for single-variable groups
    for t in es + inits:
        fl = [v for v in T.free_loopvars(t) if not v.eq(k)]
        if fl: raise Unsupported('recurrence with outer loop variables')
    key = '|'.join(e.sexpr() for e in es) + '##' + '|'.join(i.sexpr() for i in inits)
    h = hashlib.md5(key.encode()).hexdigest()[:10]
    decls = [z3.Function('REC<%s>%d' % (h, i), T.I, l.sort) for i, l in enumerate(locs)]
    def mkstep(e):
        return lambda i: z3.substitute(e, *([(T.I0, i)] + [(c, dd(i)) for c, dd in zip(canon, decls)]))
    for dd, e, i in zip(decls, es, inits):
        T.REC[dd.name()] = Rec(dd, i, mkstep(e), ())
    return [(lambda i, dd=dd: dd(zi(i))) for dd in decls]

def while_count(I, g, k):
    """least K with not g(K), verified"""
    ctx = I.ctx
    g = simp(g)
    cands = []
    def atoms(t):
        if z3.is_and(t) or z3.is_or(t):
            for c in t.children(): yield from atoms(c)
        elif z3.is_not(t):
            yield from atoms(t.arg(0))
        else:
            yield t
    for a in atoms(g):
        if z3.is_app(a) and a.num_args() == 2 and a.arg(0).sort() == T.I:
            l, r = z3.substitute(a.arg(0), (k, z3.IntVal(0))), z3.substitute(a.arg(1), (k, z3.IntVal(0)))
            for dlt in (0, 1, -1):
                cands.append(simp(r - l + dlt)); cands.append(simp(l - r + dlt))
    seen = set()
    for c in cands:
        if c.sexpr() in seen: continue
        seen.add(c.sexpr())
        K = simp(z3.If(c > 0, c, z3.IntVal(0)))
        if T.entails(ctx.pc + [k >= 0, k < K], g) == 'valid' and T.entails(ctx.pc, z3.Not(z3.substitute(g, (k, K)))) == 'valid':
            return norm(simp(K))
    raise Unsupported('iteration count of a while loop not found')

def for_sym(I, st, it, env):
    from .interp import Infeasible
    n = norm(simp(zi(it.n)))
    def body(sub, env2, k):
        sub.assign(st.target, it.get(sub, k), env2)
        try:
            sub.block(st.body, env2)
        except ContinueEx:
            pass
    summarise(I, n, body, env)
    I.block(st.orelse, env)

def while_loop(I, st, env):
    n = 0
    while True:
        t = I.truthterm(I.expr(st.test, env))
        if not isinstance(t, bool):
            t = norm(simp(t))
        if not isinstance(t, bool):
            if T.entails(I.ctx.pc, t, 2000) == 'valid': t = True
            elif T.entails(I.ctx.pc, z3.Not(t), 2000) == 'valid': t = False
        if isinstance(t, bool):
            if not t:
                I.block(st.orelse, env)
                return
        else:
            if n == 0 or n > 6:
                try:
                    def body(sub, env2, k):
                        try:
                            sub.block(st.body, env2)
                        except ContinueEx:
                            pass
                    summarise(I, None, body, env, cond=lambda sub, e2: sub.expr(st.test, e2))
                    I.block(st.orelse, env)
                    return
                except Unsupported:
                    if n > 6: raise
            if not I.ctx.decide(t):
                I.block(st.orelse, env)
                return
        n += 1
        if n > 3000: raise Unsupported('loop too long')
        try:
            I.block(st.body, env)
        except ContinueEx:
            continue
        except BreakEx:
            return
