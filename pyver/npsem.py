"""numpy (and scipy/pandas) semantics: arrays of concrete shape are expanded, arrays of symbolic length are functional."""
from fractions import Fraction
import itertools
import z3
from . import terms as T
from .terms import is_z3, simp, to_term, real
from .values import *
from .interp import ExcClass
from .loops import SymIter, map_seq, merge_vals, subst_val, seq_of_elem
from . import lib as L
from .lib import EXT, ext, err, num, isnum, isint, scal, s_add, s_sub, s_mul, vsame

def mk1(seq, dtype='f'):
    return Arr((seq.length(),), getf=lambda ix: seq.get(ix[0]), dtype=dtype, fam=seq)

def dtype_of(items):
    d = 'b'
    for x in items:
        if isinstance(x, bool) or (is_z3(x) and x.sort() == T.B): k = 'b'
        elif L.isint(x): k = 'i'
        elif isnum(x): k = 'f'
        else: return 'o'
        if k == 'f' or d == 'f': d = 'f'
        elif k == 'i' or d == 'i': d = 'i'
    return d if items else 'f'

def asarray(I, v, dtype=None, copy=False):
    dt = dtcode(dtype)
    if isinstance(v, Frame): v = v.arr
    if isinstance(v, Arr):
        if v.is_conc():
            if not copy and (dt is None or dt == v.dtype): return v
            return arr_of([cast(I, x, dt or v.dtype) for x in v.flat()], dt or v.dtype, v.shape)
        if dt is not None and dt != v.dtype and dt == 'i': raise Unsupported('integer cast of symbolic array')
        return Arr(v.shape, getf=v.getf, dtype=v.dtype, rowf=v.rowf, fam=v.fam) if copy else v
    if isinstance(v, SymIter): v = PList(seq=map_seq(I, v.n, lambda ix, sub: v.get(sub, ix)))
    if isinstance(v, PRange): v = L.to_list(I, v)
    if isinstance(v, (PList, tuple)):
        if isinstance(v, tuple) or v.is_conc():
            items = list(v) if isinstance(v, tuple) else v.items
            subs = [asarray(I, x) if isinstance(x, (PList, tuple, Arr)) else x for x in items]
            if subs and isinstance(subs[0], Arr):
                if not all(isinstance(s, Arr) and s.ndim == subs[0].ndim for s in subs): raise err('ValueError', 'inhomogeneous')
                if all(s.is_conc() for s in subs):
                    if any(s.shape != subs[0].shape for s in subs): raise err('ValueError', 'inhomogeneous')
                    fl = [x for s in subs for x in s.flat()]
                    d = dt or dtype_of(fl)
                    return arr_of([cast(I, x, d) for x in fl], d, (len(subs),) + subs[0].shape)
                sh = subs[0].shape
                return Arr((len(subs),) + sh, getf=lambda ix: merge_vals([(zi(ix[0]) == j, s.getf(ix[1:])) for j, s in enumerate(subs)]) if not isinstance(ix[0], int) else subs[ix[0]].getf(ix[1:]),
                           rowf=lambda i: subs[i] if isinstance(i, int) else (_ for _ in ()).throw(Unsupported('row')))
            if any(not isnum(x) for x in subs): return arr_of(subs, 'o')
            d = dt or dtype_of(subs)
            return arr_of([cast(I, x, d) for x in subs], d)
        s = v.seq
        probe = s.fam.get(T.loopvar('ix!%d' % (I.ctx.depth + 6)))
        if isinstance(probe, (Arr, PList, tuple)):
            sub = asarray(I, probe)
            if isinstance(probe, (tuple,)) and not all(isnum(x) for x in probe): raise Unsupported('array of tuples')
            sh = sub.shape
            def rowf(i): return asarray(I, s.get(i))
            return Arr((s.length(),) + sh, getf=lambda ix: rowf(ix[0]).at(ix[1:]), rowf=rowf, dtype=sub.dtype)
        if L.isu(probe):
            # rows of unknown content: a 2-D array of opaque rows
            d = T.fresh('ncols', T.I)
            return Arr((s.length(), z3.Int('ncols!')), rowf=s.get, getf=lambda ix: (_ for _ in ()).throw(Unsupported('component of an opaque row')), dtype='o')
        if dt == 'f' and is_z3(probe) and probe.sort() != T.R:
            s2 = map_seq(I, s.length(), lambda ix, sub: real(s.get(ix)))
            return mk1(s2)
        return mk1(s, 'i' if L.isint(probe) and not L.isbool(probe) else 'b' if L.isbool(probe) else 'f')
    if isnum(v): return Arr((), buf=[cast(I, v, dt) if dt else v], dtype=dt or dtype_of([v]))
    if L.isu(v): return Arr((z3.Int('ncols!'),), getf=lambda ix: (_ for _ in ()).throw(Unsupported('component of an opaque row')), dtype='o', rowf=None, fam=None)
    if isinstance(v, ExtObj): return v
    if v is None: return arr_of([None], 'o', ())
    if isinstance(v, PSet) or isinstance(v, PDict): return arr_of([v], 'o', ())
    raise Unsupported('asarray of %s' % type(v).__name__)

def dtcode(d):
    if d is None: return None
    n = d.path.split('.')[-1] if isinstance(d, Ext) else d.name if isinstance(d, Builtin) else d if isinstance(d, str) else ''
    if n.startswith('float') or n in ('double',): return 'f'
    if n.startswith('int') or n.startswith('uint') or n in ('long', 'integer'): return 'i'
    if n.startswith('bool'): return 'b'
    if n == 'object' or n == 'O': return 'o'
    raise Unsupported('dtype %r' % (d,))

def cast(I, x, d):
    if d == 'f' and isnum(x):
        x = num(x)
        return Fraction(x) if L.isconc_num(x) else real(x)
    if d == 'i' and isnum(x): return L.toint(I, x)
    if d == 'b' and isnum(x): return L.truthterm(I, x)
    return x

def tolist1(I, a):
    if a.ndim != 1: raise Unsupported('multiset of a matrix')
    if a.is_conc(): return PList(a.flat())
    return PList(seq=a.fam if a.fam is not None else map_seq(I, a.shape[0], lambda ix, s: a.getf((ix,))))

def row(I, a, i):
    if a.ndim == 0: raise err('IndexError')
    if a.is_conc():
        if a.ndim == 1:
            if isinstance(i, int): return a.at((i,))
            return merge_vals([(zi(i) == j, x) for j, x in enumerate(a.flat())])
        pos = list(a.positions())
        m = prod(a.shape[1:])
        if isinstance(i, int):
            return Arr(a.shape[1:], buf=a.buf, pos=pos[i * m:(i + 1) * m], dtype=a.dtype)
        return merge_vals([(zi(i) == j, arr_of([a.buf[p] for p in pos[j * m:(j + 1) * m]], a.dtype, a.shape[1:])) for j in range(a.shape[0])])
    if a.rowf is not None: return a.rowf(i)
    if a.ndim == 1: return a.getf((i,))
    sh = a.shape[1:]
    if all(isinstance(s, int) for s in sh):
        return arr_of([a.getf((i,) + t) for t in itertools.product(*[range(s) for s in sh])], a.dtype, sh)
    return Arr(sh, getf=lambda ix: a.getf((i,) + tuple(ix)), dtype=a.dtype)

def rows(I, a):
    return [row(I, a, j) for j in range(a.shape[0])]

def broadcast(I, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        cur = 1
        for s in shapes:
            k = d - (n - len(s))
            if k < 0: continue
            v = s[k]
            if isinstance(v, int) and v == 1: continue
            if isinstance(cur, int) and cur == 1: cur = v
            elif vsame(cur, v): pass
            elif isinstance(cur, int) and isinstance(v, int): raise err('ValueError', 'operands could not be broadcast')
            elif I.ctx.known(zi(cur) == zi(v)): pass
            elif I.ctx.decide(simp(zi(cur) == zi(v))): pass
            elif I.ctx.decide(simp(zi(v) == 1)): pass
            elif I.ctx.decide(simp(zi(cur) == 1)): cur = v
            else: raise err('ValueError', 'operands could not be broadcast')
        out.append(cur)
    return tuple(out)

def elementwise(I, f, args, op='', dtype=None):
    arrs = [a if isinstance(a, Arr) else asarray(I, a) if isinstance(a, (PList, tuple)) else a for a in args]
    if any(isinstance(a, ExtObj) for a in arrs): return L.ext_pure(I, 'op.' + op, arrs, {}, 'obj')
    if any(a is None for a in arrs): raise err('TypeError', 'None in array operation')
    if any(L.isu(a) for a in arrs): raise Unsupported('array operation with opaque value')
    shapes = [a.shape for a in arrs if isinstance(a, Arr)]
    if all(isinstance(a, Arr) and a.is_conc() or not isinstance(a, Arr) for a in arrs):
        sh = broadcast(I, shapes)
        out = []
        for ix in itertools.product(*[range(s) for s in sh]):
            out.append(f(*[pick(a, ix, sh) for a in arrs]))
        d = dtype or (('f' if op in ('Div', 'sqrt', 'log', 'exp') else dtype_of(out)))
        if d == 'f' : out = [cast(I, x, 'f') for x in out]
        if sh == (): return out[0]
        return arr_of(out, d, sh)
    sh = broadcast(I, shapes)
    if len(sh) == 1:
        def at(ix, sub):
            return f(*[pick(a, (ix,), sh) for a in arrs])
        def at2(ix, sub):
            save = I.ctx
            I.ctx = sub.ctx
            try:
                return at(ix, sub)
            finally:
                I.ctx = save
        s = map_seq(I, sh[0], at2)
        return mk1(s, dtype or 'f')
    if all(isinstance(x, int) for x in sh[1:]):
        ixv = T.loopvar('ix!%d' % I.ctx.depth)
        from .loops import merged_eval
        m = prod(sh[1:])
        def el(sub):
            save = I.ctx
            I.ctx = sub.ctx
            try:
                return tuple(f(*[pick(a, (ixv,) + t, sh) for a in arrs]) for t in itertools.product(*[range(x) for x in sh[1:]]))
            finally:
                I.ctx = save
        v = merged_eval(I, el, [ixv >= 0, ixv < zi(sh[0])])
        if v is None: v = tuple(Fraction(0) for _ in range(m))
        def rowf(i): return arr_of([subst_val(x, [(ixv, zi(i))]) for x in v], dtype or 'f', sh[1:])
        return Arr(sh, getf=lambda ix: rowf(ix[0]).at(ix[1:]), rowf=rowf, dtype=dtype or 'f')
    raise Unsupported('elementwise operation on a symbolic matrix')

def pick(a, ix, sh):
    if not isinstance(a, Arr): return a
    k = len(sh) - a.ndim
    j = tuple(0 if isinstance(s, int) and s == 1 else i for i, s in zip(ix[k:], a.shape))
    if a.is_conc() and any(not isinstance(x, int) for x in j):
        return _symat(a, j)
    return a.at(j)

def _symat(a, j):
    cands = []
    for ix in itertools.product(*[range(s) for s in a.shape]):
        c = z3.And(*[zi(x) == y for x, y in zip(j, ix)])
        cands.append((simp(c), a.at(ix)))
    return merge_vals(cands)

# ------------------------------------------------------------------ indexing
def fancy(I, v):
    """index array -> list of ints / mask, or None"""
    if isinstance(v, PRange): v = L.to_list(I, v)
    if isinstance(v, (PList, Arr)):
        a = asarray(I, v)
        return a
    return None

def getitem(I, a, ix):
    if not isinstance(ix, tuple): ix = (ix,)
    if Ellipsis in [x for x in ix if x is Ellipsis]:
        k = next(j for j, x in enumerate(ix) if x is Ellipsis)
        ix = ix[:k] + (Slice(None, None, None),) * (a.ndim - (len(ix) - 1)) + ix[k + 1:]
    if any(x is None for x in ix):
        r = getitem(I, a, tuple(x for x in ix if x is not None)) if any(x is not None for x in ix) else a
        if not isinstance(r, Arr): r = arr_of([r], 'f', ())
        # newaxis positions
        sh, k = [], 0
        for x in ix:
            if x is None: sh.append(1)
            elif isinstance(x, Slice): sh.append(r.shape[k]); k += 1
        sh += list(r.shape[k:])
        return reshape(I, r, tuple(sh))
    fa = [fancy(I, x) if not (isinstance(x, Arr) and x.ndim == 0) else None for x in ix]
    ix = tuple(x.flat()[0] if isinstance(x, Arr) and x.ndim == 0 and x.is_conc() else x for x in ix)
    if len(ix) > a.ndim: raise err('IndexError', 'too many indices')
    if a.is_conc():
        if any(f is not None for f in fa): return fancy_get(I, a, ix, fa)
        dims, outsh = [], []
        sym = False
        for d, s in enumerate(a.shape):
            if d < len(ix):
                x = ix[d]
                if isinstance(x, Slice):
                    st = x.c if x.c is not None else 1
                    lo, hi = x.a, x.b
                    if not all(v is None or isinstance(v, int) for v in (lo, hi, st)):
                        b = L.slice_bounds(I, x, s)
                        lo, hi = L.concretise(I, b[0], 0, s), L.concretise(I, b[1], 0, s)
                    r = list(range(*slice(lo, hi, st).indices(s)))
                    dims.append(r); outsh.append(len(r))
                else:
                    j = L.norm_index(I, x, s)
                    if not isinstance(j, int): sym = True
                    dims.append([j])
            else:
                dims.append(list(range(s))); outsh.append(s)
        if sym:
            vals = [_symat(a, t) if any(not isinstance(q, int) for q in t) else a.at(t) for t in itertools.product(*dims)]
            if not outsh: return vals[0]
            r = arr_of(vals, a.dtype, tuple(outsh)); r.viewed = 'symbolic'
            return r
        pos = list(a.positions())
        strides = []
        m = 1
        for s in reversed(a.shape):
            strides.insert(0, m); m *= s
        p = [pos[sum(i * st for i, st in zip(t, strides))] for t in itertools.product(*dims)]
        if not outsh: return a.buf[p[0]]
        return Arr(tuple(outsh), buf=a.buf, pos=p, dtype=a.dtype)
    # symbolic shape
    f0 = fa[0]
    if f0 is not None: return fancy_get(I, a, ix, fa)
    x = ix[0]
    n = a.shape[0]
    if isinstance(x, Slice):
        if x.c is not None and not (isinstance(x.c, int) and x.c == 1): raise Unsupported('strided slice')
        lo, hi = L.slice_bounds(I, x, n)
        r = Arr((isub(hi, lo),) + a.shape[1:], getf=lambda q: a.getf((iadd(lo, q[0]),) + tuple(q[1:])), dtype=a.dtype,
                rowf=(lambda i: a.rowf(iadd(lo, i))) if a.rowf else None, fam=L.sub_seq(I, a.fam, lo, hi) if a.fam is not None else None)
        if len(ix) == 1: return r
        if isinstance(ix[1], int) and a.ndim == 2:
            j = ix[1]
            s = map_seq(I, r.shape[0], lambda q, sub: r.getf((q, L.norm_index(sub, j, a.shape[1]))))
            return mk1(s, a.dtype)
        if isinstance(ix[1], Slice) and ix[1].a is None and ix[1].b is None: return r
        if a.ndim == 2 and isint(ix[1]):
            jj = L.norm_index(I, ix[1], a.shape[1])
            s = map_seq(I, r.shape[0], lambda q, sub: r.getf((q, jj)))
            return mk1(s, a.dtype)
        raise Unsupported('matrix slice')
    j = L.norm_index(I, x, n)
    r = row(I, a, j)
    if isinstance(r, Arr):
        r = Arr(r.shape, buf=list(r.flat()), dtype=r.dtype) if r.is_conc() else Arr(r.shape, getf=r.getf, dtype=r.dtype, rowf=r.rowf, fam=r.fam)
        r.viewed = 'symbolic'
    if len(ix) > 1:
        return getitem(I, r, ix[1:]) if isinstance(r, Arr) else (_ for _ in ()).throw(Unsupported('component of an opaque row'))
    return r

def mask_vals(I, m):
    return [I.ctx.decide(L.truthterm(I, x)) for x in m.flat()]

def fancy_get(I, a, ix, fa):
    if len(ix) == 1 and a.is_conc():
        f = fa[0]
        if not f.is_conc(): raise Unsupported('symbolic-length index array')
        if f.dtype == 'b':
            if f.shape == a.shape:
                keep = mask_vals(I, f)
                return arr_of([x for x, k in zip(a.flat(), keep) if k], a.dtype)
            keep = mask_vals(I, f)
            rs = [r for r, k in zip(rows(I, a), keep) if k]
            return arr_of([x for r in rs for x in r.flat()], a.dtype, (len(rs),) + a.shape[1:])
        out = [row(I, a, L.norm_index(I, L.toint(I, x), a.shape[0])) for x in f.flat()]
        if a.ndim == 1: return arr_of(out, a.dtype, f.shape)
        return arr_of([x for r in out for x in r.flat()], a.dtype, f.shape + a.shape[1:])
    if len(ix) == 2 and a.is_conc() and a.ndim == 2:
        if fa[0] is None and fa[1] is not None and fa[1].is_conc():
            cols = [L.norm_index(I, L.toint(I, x), a.shape[1]) for x in fa[1].flat()]
            if isinstance(ix[0], Slice):
                rs = rows(I, getitem(I, a, (ix[0],)))
                return arr_of([row(I, r, c) for r in rs for c in cols], a.dtype, (len(rs), len(cols)))
            r = row(I, a, L.norm_index(I, ix[0], a.shape[0]))
            return arr_of([row(I, r, c) for c in cols], a.dtype, fa[1].shape)
        if fa[0] is not None and fa[1] is not None and fa[0].is_conc() and fa[1].is_conc() and fa[0].shape == fa[1].shape:
            return arr_of([a.at((L.toint(I, x), L.toint(I, y))) for x, y in zip(fa[0].flat(), fa[1].flat())], a.dtype, fa[0].shape)
    if len(ix) == 1 and not a.is_conc() and fa[0] is not None and fa[0].dtype != 'b' and fa[0].ndim == 1:
        f = fa[0]
        if not f.is_conc():
            def at(q, sub):
                return row(sub, a, f.getf((q,)))
            s = map_seq(I, f.shape[0], at)
            if a.ndim == 1: return mk1(s, a.dtype)
            return Arr((f.shape[0],) + a.shape[1:], rowf=s.get, getf=lambda q: s.get(q[0]).at(q[1:]), dtype=a.dtype)
    raise Unsupported('fancy indexing')

def setitem(I, a, ix, v):
    if getattr(a, 'viewed', False) == 'symbolic': raise Unsupported('write through a symbolic view')
    if not isinstance(ix, tuple): ix = (ix,)
    fa = [fancy(I, x) if not (isinstance(x, Arr) and x.ndim == 0) else None for x in ix]
    ix = tuple(x.flat()[0] if isinstance(x, Arr) and x.ndim == 0 and x.is_conc() else x for x in ix)
    if a.is_conc():
        if len(ix) == 1 and fa[0] is not None and fa[0].dtype == 'b' and fa[0].is_conc() and fa[0].shape == a.shape:
            pos = list(a.positions())
            m = fa[0].flat()
            if isinstance(v, Arr): raise Unsupported('masked assignment of an array')
            for p, c in zip(pos, m):
                c = L.truthterm(I, c)
                if c is True: a.buf[p] = cast(I, v, a.dtype)
                elif c is not False: a.buf[p] = merge_vals([(c, cast(I, v, a.dtype)), (None, a.buf[p])])
            return
        if any(f is not None for f in fa):
            if len(ix) == 1 and a.ndim == 1 and fa[0].is_conc():
                idx = [L.norm_index(I, L.toint(I, x), a.shape[0]) for x in fa[0].flat()]
                vals = [pick(v, (j,), (len(idx),)) for j in range(len(idx))] if isinstance(v, Arr) else [v] * len(idx)
                for j, x in zip(idx, vals): setitem(I, a, (j,), x)
                return
            if len(ix) == 2 and a.ndim == 2 and fa[0] is None and fa[1].is_conc() and isint(ix[0]):
                r = getitem(I, a, (ix[0],))
                return setitem(I, r, (fa[1],), v)
            raise Unsupported('fancy assignment')
        syms = [d for d, x in enumerate(ix) if not isinstance(x, (Slice, int)) ]
        if syms:
            # symbolic scalar index: update every candidate position conditionally
            d = syms[0]
            j = L.norm_index(I, ix[d], a.shape[d])
            if isinstance(j, int):
                return setitem(I, a, ix[:d] + (j,) + ix[d + 1:], v)
            for q in range(a.shape[d]):
                tgt = getitem(I, a, ix[:d] + (q,) + ix[d + 1:])
                if isinstance(tgt, Arr):
                    fl = tgt.flat()
                    vv = [pick(v, t, tgt.shape) for t in itertools.product(*[range(s) for s in tgt.shape])]
                    for p, o, n in zip(tgt.positions(), fl, vv):
                        tgt.buf[p] = merge_vals([(simp(zi(j) == q), cast(I, n, a.dtype)), (None, o)])
                else:
                    setitem(I, a, ix[:d] + (q,) + ix[d + 1:], merge_vals([(simp(zi(j) == q), cast(I, scal(v), a.dtype)), (None, tgt)]))
            return
        tgt = _target(I, a, ix)
        if isinstance(tgt, int):
            v = scal(v) if isinstance(v, Arr) else v
            if isinstance(v, (PList, tuple)): v = asarray(I, v).as_scalar()
            if isinstance(v, Arr): raise err('ValueError', 'setting an array element with a sequence')
            a.buf[tgt] = cast(I, v, a.dtype)
            return
        assign_all(I, tgt, v)
        return
    if a.viewed: raise Unsupported('write to a viewed symbolic array')
    if len(ix) == 1 and not isinstance(ix[0], Slice) and fa[0] is None:
        j = L.norm_index(I, ix[0], a.shape[0])
        old, oldrow = a.getf, a.rowf
        log = list(getattr(a, 'log', ())) + [((j,), v)]
        a.log = log
        if a.ndim == 1:
            v = scal(v)
            if isinstance(v, Arr): raise err('ValueError', 'setting an array element with a sequence')
            v = cast(I, v, a.dtype)
            a.log[-1] = ((j,), v)
            a.getf = lambda q: merge_vals([(simp(zi(q[0]) == zi(j)), v), (None, old(q))])
            a.fam = None
        else:
            if isinstance(v, (PList, tuple)): v = asarray(I, v)
            if isinstance(v, Arr) and v.ndim == 0: v = v.flat()[0]
            a.log[-1] = ((j,), v)
            prev = Arr(a.shape, getf=old, dtype=a.dtype, rowf=oldrow, fam=a.fam)
            if not all(isinstance(x, int) for x in a.shape[1:]):
                if not isinstance(v, Arr) or v.ndim != a.ndim - 1: raise Unsupported('assignment into a symbolic array')
                new = v
            else:
                new = arr_of([cast(I, pick(v, t, a.shape[1:]) if isinstance(v, Arr) else v, a.dtype) for t in itertools.product(*[range(x) for x in a.shape[1:]])], a.dtype, a.shape[1:])
            a.log[-1] = ((j,), new)
            a.rowf = lambda i: merge_vals([(simp(zi(i) == zi(j)), new), (None, row(I, prev, i))])
            a.getf = lambda q: a_at(a.rowf(q[0]), q[1:])
            a.fam = None
        return
    raise Unsupported('assignment into a symbolic array')

def _target(I, a, ix):
    """flat position for a full scalar index, or a view"""
    if len(ix) == a.ndim and all(not isinstance(x, Slice) for x in ix):
        k = 0
        for x, s in zip(ix, a.shape):
            k = k * s + L.norm_index(I, x, s)
        return a.pos[k] if a.pos is not None else k
    return getitem(I, a, ix)

def a_at(r, q):
    if r.is_conc() and not all(isinstance(x, int) for x in q): raise Unsupported('symbolic column')
    return r.at(tuple(q))

def assign_all(I, a, v):
    if getattr(a, 'viewed', False) == 'symbolic': raise Unsupported('write through a symbolic view')
    if isinstance(v, (PList, tuple)): v = asarray(I, v)
    if a.is_conc():
        if isinstance(v, Arr):
            if not v.is_conc(): raise Unsupported('assignment of a symbolic array')
            sh = broadcast(I, [a.shape, v.shape])
            if sh != a.shape and not (prod(sh) == prod(a.shape)): raise err('ValueError', 'broadcast')
            if len(v.shape) > len(a.shape):
                v = reshape(I, v, v.shape[len(v.shape) - len(a.shape):])
        vals = [cast(I, pick(v, t, a.shape), a.dtype) for t in itertools.product(*[range(s) for s in a.shape])]
        for p, x in zip(a.positions(), vals): a.buf[p] = x
        return
    if isinstance(v, Arr) and not v.is_conc() and a.ndim == 1 and v.ndim == 1 and I.ctx.known(zi(a.shape[0]) == zi(v.shape[0])):
        a.getf, a.fam = v.getf, v.fam
        return
    raise Unsupported('assignment into a symbolic array')

def reshape(I, a, shape):
    if isinstance(shape, PList): shape = tuple(shape.items)
    if not isinstance(shape, tuple): shape = (shape,)
    if a.is_conc():
        n = prod(a.shape)
        sh = list(shape)
        if -1 in [s for s in sh if isinstance(s, int)]:
            k = sh.index(-1)
            m = prod([s for s in sh if s != -1])
            if m == 0 or n % m: raise err('ValueError', 'cannot reshape')
            sh[k] = n // m
        if not all(isinstance(s, int) for s in sh): raise Unsupported('symbolic reshape')
        if prod(sh) != n: raise err('ValueError', 'cannot reshape')
        return Arr(tuple(sh), buf=a.buf, pos=list(a.positions()), dtype=a.dtype)
    if a.ndim == 1 and shape == (-1,): return a
    if a.ndim == 1 and len(shape) == 2 and isinstance(shape[0], int) and shape[0] == 1 and vsame(shape[1], -1):
        r = Arr((1, a.shape[0]), getf=lambda q: a.getf((q[1],)), rowf=lambda i: a, dtype=a.dtype)
        r.flat1 = a
        return r
    if a.ndim == 1 and len(shape) == 2 and vsame(shape[0], -1) and vsame(shape[1], 1):
        r = Arr((a.shape[0], 1), getf=lambda q: a.getf((q[0],)), dtype=a.dtype)
        r.flat1 = a
        return r
    if a.ndim == 2 and shape == (-1,):
        f1 = getattr(a, 'flat1', None)
        if f1 is not None: return f1
        if isinstance(a.shape[1], int) and a.shape[1] == 1: return mk1(map_seq(I, a.shape[0], lambda q, sub: a.getf((q, 0))), a.dtype)
        if isinstance(a.shape[0], int) and a.shape[0] == 1: return row(I, a, 0)
    raise Unsupported('reshape of a symbolic array')

# ------------------------------------------------------------------ reductions
def flat_seq(I, a):
    """array -> PList of all elements"""
    if a.is_conc(): return PList(a.flat())
    if a.ndim == 1: return tolist1(I, a)
    if a.ndim == 2 and isinstance(a.shape[1], int) and a.shape[1] == 1:
        return PList(seq=map_seq(I, a.shape[0], lambda q, sub: a.getf((q, 0))))
    if a.ndim == 2 and isinstance(a.shape[0], int) and a.shape[0] == 1:
        r = row(I, a, 0)
        return tolist1(I, r)
    raise Unsupported('reduction of a symbolic matrix')

def reduce_axis(I, a, axis, f):
    if axis is None: return f(flat_seq(I, a))
    if isinstance(axis, int) and axis < 0: axis += a.ndim
    if a.ndim == 1 and axis == 0: return f(flat_seq(I, a))
    if a.is_conc() and a.ndim == 2:
        n, m = a.shape
        if axis == 0: return mk([f(PList([a.at((i, j)) for i in range(n)])) for j in range(m)])
        return mk([f(PList([a.at((i, j)) for j in range(m)])) for i in range(n)])
    if a.ndim == 2 and axis == 0 and isinstance(a.shape[1], int):
        out = []
        for j in range(a.shape[1]):
            out.append(f(PList(seq=map_seq(I, a.shape[0], lambda q, sub, j=j: a.getf((q, j))))))
        return mk(out)
    if a.ndim == 2 and axis == 1 and isinstance(a.shape[1], int):
        def at(q, sub):
            save = I.ctx; I.ctx = sub.ctx
            try: return f(PList([a.getf((q, j)) for j in range(a.shape[1])]))
            finally: I.ctx = save
        return mk1(map_seq(I, a.shape[0], at))
    raise Unsupported('reduction along an axis')

def mk(items):
    return arr_of(items, dtype_of(items))

def arrlike(I, v):
    if isinstance(v, Arr): return v
    if isnum(v): return asarray(I, v)
    return asarray(I, v)

def r_sum(I, l):
    if l.is_conc():
        r = 0
        for x in l.items: r = L.binop(I, 'Add', r, x)
        return r
    return L.seq_sum(I, boolseq(I, l.seq))

def boolseq(I, s):
    if s.fam.kind == 'bool':
        ix = T.loopvar('ix!%d' % (I.ctx.depth + 5))
        return Seq(T.derived_family(z3.If(s.fam.get(ix), z3.IntVal(1), z3.IntVal(0)), ix), s.lo, s.hi)
    return s

def r_mean(I, l):
    n = l.length()
    if isinstance(n, int) and n == 0: return z3.Real('NAN')
    return L.s_div(I, r_sum(I, l), n)
def r_max(I, l):
    if not I.ctx.decide(L.s_lt0(l.length())): raise err('ValueError', 'zero-size array')
    if l.is_conc(): return L.minmax(I, [scal(x) for x in l.items], 'Gt')
    return T.MAXB(L.seq_bagr(I, l.seq))
def r_min(I, l):
    if not I.ctx.decide(L.s_lt0(l.length())): raise err('ValueError', 'zero-size array')
    if l.is_conc(): return L.minmax(I, [scal(x) for x in l.items], 'Lt')
    return T.MINB(L.seq_bagr(I, l.seq))
def r_median(I, l):
    n = l.length()
    if l.is_conc():
        if n == 0: return z3.Real('NAN')
        s = L.sort_items(I, [scal(x) for x in l.items])
        return s[n // 2] if n % 2 else L.s_div(I, s_add(s[n // 2], s[n // 2 - 1]), 2)
    return bag_median(I, L.seq_bagr(I, l.seq), n)
def bag_median(I, b, n):
    # for an odd count both indices name the middle element
    return L.s_div(I, s_add(T.NTHB(b, simp(zi(n) / 2)), T.NTHB(b, simp((zi(n) - 1) / 2))), 2)
def r_var(I, l, ddof=0):
    n = l.length()
    if l.is_conc():
        if n == 0: return z3.Real('NAN')
        m = r_mean(I, l)
        s = 0
        for x in l.items:
            dx = s_sub(scal(x), m)
            s = s_add(s, s_mul(dx, dx))
        return L.s_div(I, s, s_sub(n, ddof))
    sm = L.seq_sum(I, l.seq)
    sq = sq_sum(I, l.seq)
    m = L.s_div(I, s_mul(sm, sm), n)
    return L.s_div(I, s_sub(sq, m), s_sub(n, ddof))
def sq_sum(I, s):
    if s.bag is not None: return T.SQB(s.bag)
    ix = T.loopvar('ix!%d' % (I.ctx.depth + 5))
    e = real(scal(s.fam.get(ix)))
    return L.seq_sum(I, Seq(T.derived_family(e * e, ix), s.lo, s.hi))

def reducer(f, **extra):
    def g(I, a, axis=None, keepdims=False, **kw):
        ddof = kw.pop('ddof', 0)
        kw.pop('dtype', None)
        if kw: raise Unsupported('reduction keywords %s' % list(kw))
        if keepdims: raise Unsupported('keepdims')
        if isinstance(a, SymIter) or isinstance(a, (PList, tuple)) or isnum(a) or isinstance(a, PRange): a = arrlike(I, a)
        if isinstance(a, ExtObj): return L.ext_pure(I, 'numpy.' + f.__name__, [a] + ([axis] if axis is not None else []), {}, 'real' if axis is None else 'obj')
        if not isinstance(a, Arr): raise Unsupported('reduction of %s' % type(a).__name__)
        return reduce_axis(I, a, axis, (lambda l: f(I, l, ddof)) if ddof or f in (r_var, r_std) else (lambda l: f(I, l)))
    return g
def r_std(I, l, ddof=0): return L.sqrt(I, r_var(I, l, ddof))
def r_prod(I, l):
    if not l.is_conc(): raise Unsupported('prod')
    r = 1
    for x in l.items: r = s_mul(r, x)
    return r
def r_all(I, l):
    if l.is_conc():
        r = True
        for x in l.items: r = L.land(r, L.truthterm(I, x))
        return r
    raise Unsupported('all')
def r_any(I, l):
    if l.is_conc():
        r = False
        for x in l.items: r = L.lor(r, L.truthterm(I, x))
        return r
    return simp(zi(L.seq_sum(I, boolseq(I, l.seq))) > 0)
def r_argbest(op):
    def f(I, l):
        if not l.is_conc():
            if not I.ctx.decide(L.s_lt0(l.length())): raise err('ValueError', 'empty')
            t = L.ext_pure(I, 'numpy.arg' + op, [l], {}, 'int')
            I.ctx.assume(z3.And(zi(t) >= 0, zi(t) < zi(l.length())))
            return t
        best, bi = None, 0
        for j, x in enumerate(l.items):
            if best is None: best, bi = x, j
            else:
                c = L.truthterm(I, L.compare(I, op, x, best))
                if isinstance(c, bool):
                    if c: best, bi = x, j
                else:
                    best = merge_vals([(c, x), (None, best)])
                    bi = merge_vals([(c, j), (None, bi)])
        if best is None: raise err('ValueError', 'empty')
        return bi
    return f
def r_count(I, l):
    if l.is_conc():
        r = 0
        for x in l.items: r = s_add(r, num(L.truthterm(I, x)))
        return r
    return L.seq_sum(I, boolseq(I, l.seq))
RED = {'sum': reducer(r_sum), 'mean': reducer(r_mean), 'max': reducer(r_max), 'min': reducer(r_min), 'median': reducer(r_median),
       'var': reducer(r_var), 'std': reducer(r_std), 'prod': reducer(r_prod), 'all': reducer(r_all), 'any': reducer(r_any),
       'argmax': reducer(r_argbest('Gt')), 'argmin': reducer(r_argbest('Lt')), 'count_nonzero': reducer(r_count)}
for _n, _f in RED.items(): EXT['numpy.' + _n] = _f
for _a, _b in (('amax', 'max'), ('amin', 'min'), ('average', 'mean'), ('nanmean', 'mean'), ('nansum', 'sum')): EXT['numpy.' + _a] = RED[_b]
EXT['statistics.median'] = RED['median']; EXT['statistics.mean'] = RED['mean']; EXT['statistics.fmean'] = RED['mean']; EXT['statistics.pvariance'] = RED['var']

def red_meth(name):
    return lambda I, a: (lambda I2, ar, kw: RED[name](I2, a, *ar, **kw))

# ------------------------------------------------------------------ ufuncs
def ufunc(name, f, *names):
    def g(I, *a, **kw):
        kw.pop('dtype', None)
        if kw: raise Unsupported('ufunc keywords')
        if any(isinstance(x, (Arr, PList)) for x in a): return elementwise(I, lambda *v: f(I, *v), list(a), name)
        if any(isinstance(x, ExtObj) for x in a): return L.ext_pure(I, 'numpy.' + name, list(a), {}, 'obj')
        return f(I, *a)
    EXT['numpy.' + name] = g
    for n in names: EXT['numpy.' + n] = g
    return g
ufunc('sqrt', lambda I, x: L.sqrt(I, num(x)))
ufunc('abs', lambda I, x: L.s_abs(x), 'absolute', 'fabs')
ufunc('floor', lambda I, x: Fraction(__import__('math').floor(x)) if L.isconc_num(x) else z3.ToReal(z3.ToInt(real(x))))
ufunc('ceil', lambda I, x: Fraction(__import__('math').ceil(x)) if L.isconc_num(x) else z3.ToReal(-z3.ToInt(-real(x))))
ufunc('power', lambda I, a, b: L.s_pow(I, a, b))
ufunc('square', lambda I, a: s_mul(a, a))
ufunc('add', lambda I, a, b: L.binop(I, 'Add', a, b))
ufunc('subtract', lambda I, a, b: L.binop(I, 'Sub', a, b))
ufunc('multiply', lambda I, a, b: L.binop(I, 'Mult', a, b))
ufunc('divide', lambda I, a, b: L.binop(I, 'Div', a, b), 'true_divide')
ufunc('negative', lambda I, a: L.s_neg(a))
ufunc('maximum', lambda I, a, b: L.minmax(I, [a, b], 'Gt'))
ufunc('minimum', lambda I, a, b: L.minmax(I, [a, b], 'Lt'))
ufunc('isfinite', lambda I, a: L.EXT['math.isfinite'](I, a))
ufunc('isnan', lambda I, a: False)
ufunc('sign', lambda I, a: norm(simp(z3.If(real(a) > 0, z3.IntVal(1), z3.If(real(a) < 0, z3.IntVal(-1), z3.IntVal(0))))))
ufunc('logical_and', lambda I, a, b: L.land(L.truthterm(I, a), L.truthterm(I, b)))
ufunc('logical_or', lambda I, a, b: L.lor(L.truthterm(I, a), L.truthterm(I, b)))
ufunc('logical_not', lambda I, a: L.lnot(L.truthterm(I, a)))
ufunc('greater', lambda I, a, b: L.compare(I, 'Gt', a, b)); ufunc('less', lambda I, a, b: L.compare(I, 'Lt', a, b))
ufunc('greater_equal', lambda I, a, b: L.compare(I, 'GtE', a, b)); ufunc('less_equal', lambda I, a, b: L.compare(I, 'LtE', a, b))
ufunc('equal', lambda I, a, b: L.compare(I, 'Eq', a, b))
def _uf1(name):
    f = z3.Function('fn:' + name, T.R, T.R)
    def g(I, x):
        if name in ('log', 'log2', 'log10'):
            I.eng.assumed[name] = 'pure real function; 0 at 1, positive above 1, at most half the logarithm of y at sqrt(y) and below'
            def ax(a):
                x = a.arg(0)
                out = [z3.Implies(x > 1, a > 0), z3.Implies(x == 1, a == 0), z3.Implies(z3.And(x > 0, x < 1), a < 0)]
                return out
            T.UFAX[f.name()] = ax
            t = simp(real(x))
            r = f(t)
            for y in I.ctx.ghost.setdefault('logs:' + name, []):
                for u, w in ((t, y), (y, t)):
                    I.ctx.assume(z3.Implies(z3.And(u > 0, w > 0, u <= T.SQRT(w)), 2 * f(u) <= f(w)))
            I.ctx.ghost['logs:' + name].append(t)
            return r
        I.eng.assumed[name] = 'pure real function (uninterpreted)'
        return f(simp(real(x)))
    return g
for _n in ('log', 'log2', 'log10', 'log1p', 'exp', 'tanh', 'sin', 'cos', 'exp2'):
    ufunc(_n, _uf1(_n))
    EXT['math.' + _n] = EXT['numpy.' + _n]
def _log1p(I, x): return EXT['numpy.log'](I, L.binop(I, 'Add', 1, x))
EXT['numpy.log1p'] = _log1p

for _n in ('int32', 'int64', 'int8', 'int16', 'intp', 'int_', 'uint32', 'uint64'):
    EXT['numpy.' + _n] = lambda I, v=0: L.toint(I, v)
for _n in ('float64', 'float32', 'double'):
    EXT['numpy.' + _n] = lambda I, v=0: L.BUILTINS['float'].fn(I, [v], {})
EXT['numpy.bool_'] = lambda I, v=False: L.truthterm(I, v)

# ------------------------------------------------------------------ constructors
def shp(s):
    if isinstance(s, PList): s = tuple(s.items)
    if not isinstance(s, tuple): s = (s,)
    return tuple(num(scal(x)) for x in s)
def filled(I, shape, v, dtype):
    sh = shp(shape)
    if all(isinstance(x, int) for x in sh):
        if any(x < 0 for x in sh): raise err('ValueError', 'negative dimensions')
        return arr_of([v] * prod(sh), dtype, sh)
    fam = None
    a = Arr(sh, getf=lambda q: v, dtype=dtype)
    if len(sh) == 1:
        t = to_term(v)
        fam = T.derived_family(t, T.I0)
        a.fam = Seq(fam, 0, sh[0])
        a.getf = lambda q: fam.get(q[0])
    return a
@ext('numpy.zeros')
def _(I, shape, dtype=None, **kw):
    d = dtcode(dtype) or 'f'
    return filled(I, shape, {'f': Fraction(0), 'i': 0, 'b': False}[d], d)
@ext('numpy.ones')
def _(I, shape, dtype=None, **kw):
    d = dtcode(dtype) or 'f'
    return filled(I, shape, {'f': Fraction(1), 'i': 1, 'b': True}[d], d)
@ext('numpy.full')
def _(I, shape, v, dtype=None, **kw):
    d = dtcode(dtype) or dtype_of([v])
    return filled(I, shape, cast(I, v, d), d)
@ext('numpy.empty')
def _(I, shape, dtype=None, **kw):
    d = dtcode(dtype) or 'f'
    sh = shp(shape)
    srt = {'f': T.R, 'i': T.I, 'b': T.B, 'o': T.U}[d]
    if all(isinstance(x, int) for x in sh):
        return arr_of([I.ctx.fresh('garbage', srt) for _ in range(prod(sh))], d, sh)
    f = z3.Function(I.ctx.fname('garbage'), *([T.I] * len(sh) + [srt]))
    return Arr(sh, getf=lambda q: f(*[zi(x) for x in q]), dtype=d)
def _like(name):
    def g(I, a, dtype=None, **kw):
        a = asarray(I, a)
        return EXT['numpy.' + name](I, a.shape, dtype or {'f': 'float', 'i': 'int', 'b': 'bool', 'o': 'object'}[a.dtype])
    EXT['numpy.' + name + '_like'] = g
for _n in ('zeros', 'ones', 'empty'): _like(_n)
@ext('numpy.array')
def _(I, v, dtype=None, copy=True, **kw):
    if isinstance(v, Arr) or not isnum(v): return asarray(I, v, dtype, copy=True)
    return asarray(I, v, dtype)
@ext('numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asanyarray')
def _(I, v, dtype=None, **kw): return asarray(I, v, dtype)
@ext('numpy.atleast_1d')
def _(I, v):
    a = asarray(I, v)
    return reshape(I, a, (1,)) if a.ndim == 0 else a
@ext('numpy.copy')
def _(I, v): return asarray(I, v, None, True)
@ext('numpy.arange')
def _(I, *a, **kw):
    dt = kw.pop('dtype', None)
    a = [num(scal(x)) for x in a]
    if not all(isint(x) for x in a): raise Unsupported('arange of floats')
    r = PRange(*((0, a[0]) if len(a) == 1 else a))
    return asarray(I, L.to_list(I, r), dt)
@ext('numpy.isscalar')
def _(I, v): return isnum(v) or isinstance(v, str)
@ext('numpy.ndim')
def _(I, v): return 0 if isnum(v) else asarray(I, v).ndim
@ext('numpy.shape')
def _(I, v): return () if isnum(v) else asarray(I, v).shape
@ext('numpy.size')
def _(I, v): return 1 if isnum(v) else asarray(I, v).size()
@ext('numpy.reshape')
def _(I, a, s): return reshape(I, asarray(I, a), s)
@ext('numpy.ravel')
def _(I, a): return reshape(I, asarray(I, a), (-1,))
@ext('numpy.squeeze')
def _(I, a): return ARRM['squeeze'](I, asarray(I, a))
@ext('numpy.transpose')
def _(I, a): return transpose(I, asarray(I, a))
@ext('numpy.eye', 'numpy.identity')
def _(I, n, dtype=None):
    if not isinstance(n, int): raise Unsupported('eye')
    return arr_of([Fraction(int(i == j)) for i in range(n) for j in range(n)], 'f', (n, n))
@ext('numpy.diag')
def _(I, v):
    v = asarray(I, v)
    if v.is_conc() and v.ndim == 1:
        n = v.shape[0]
        return arr_of([v.at((i,)) if i == j else Fraction(0) for i in range(n) for j in range(n)], 'f', (n, n))
    raise Unsupported('diag')
@ext('numpy.concatenate', 'numpy.vstack', 'numpy.hstack')
def _(I, ls, axis=0, **kw):
    it = L.iterate(I, ls)
    if isinstance(it, SymIter):
        # concatenation of a symbolic list of (1, d) rows
        probe = it.get(I, T.loopvar('ix!%d' % (I.ctx.depth + 6)))
        if isinstance(probe, Arr) and probe.is_conc() and probe.ndim == 2 and probe.shape[0] == 1 and axis == 0:
            def rowf(i): return row(I, it.get(I, i), 0)
            return Arr((it.n, probe.shape[1]), getf=lambda q: rowf(q[0]).at(q[1:]), rowf=rowf, dtype=probe.dtype)
        raise Unsupported('concatenate of a symbolic list')
    if any(x is None for x in it): raise err('ValueError', 'zero-dimensional arrays cannot be concatenated')
    arrs = [asarray(I, x) for x in it]
    if all(a.is_conc() for a in arrs):
        if len({a.ndim for a in arrs}) != 1:
            ne = [a for a in arrs if prod(a.shape) > 0]
            raise err('ValueError', 'dimension mismatch')
        if arrs[0].ndim == 1: return mkd([x for a in arrs for x in a.flat()])
        if axis == 0:
            if len({a.shape[1:] for a in arrs}) != 1: raise err('ValueError', 'dimension mismatch')
            fl = [x for a in arrs for x in a.flat()]
            return arr_of(fl, dtype_of(fl), (sum(a.shape[0] for a in arrs),) + arrs[0].shape[1:])
        raise Unsupported('concatenate axis')
    if axis != 0: raise Unsupported('concatenate axis')
    r = L.to_list(I, arrs[0])
    for a in arrs[1:]:
        r = L.list_concat(I, r, L.to_list(I, a))
    return asarray(I, r)
def mkd(items): return arr_of(items, dtype_of(items))
@ext('numpy.append')
def _(I, a, v, axis=None):
    a = asarray(I, a)
    b = asarray(I, v)
    if a.ndim != 1: raise Unsupported('append')
    if b.ndim == 0: b = reshape(I, b, (1,))
    return EXT['numpy.concatenate'](I, PList([a, b]))
@ext('numpy.insert')
def _(I, a, i, v):
    a = asarray(I, a)
    if a.is_conc() and a.ndim == 1 and isinstance(i, int):
        fl = a.flat()
        fl.insert(i, cast(I, scal(v), a.dtype))
        return arr_of(fl, a.dtype)
    raise Unsupported('insert')
@ext('numpy.delete')
def _(I, a, i, axis=None):
    a = asarray(I, a)
    if a.is_conc() and a.ndim == 1 and isint(i):
        n = a.shape[0]
        j = L.norm_index(I, i, n)
        fl = a.flat()
        if isinstance(j, int):
            del fl[j]
            return arr_of(fl, a.dtype)
        return arr_of([merge_vals([(simp(zi(j) <= q), fl[q + 1]), (None, fl[q])]) for q in range(n - 1)], a.dtype)
    if not a.is_conc() and a.ndim == 1 and isint(i) and axis in (None, 0):
        j = L.norm_index(I, i, a.shape[0])
        return mk1(map_seq(I, iadd(a.shape[0], -1), lambda ix, sub: merge_vals([(simp(zi(ix) < zi(j)), a.getf((ix,))), (None, a.getf((iadd(ix, 1),)))])), a.dtype)
    raise Unsupported('delete')
@ext('numpy.where')
def _(I, c, a=None, b=None):
    c = asarray(I, c)
    if a is None:
        if c.is_conc() and c.ndim == 1:
            return (arr_of([j for j, x in enumerate(c.flat()) if I.ctx.decide(L.truthterm(I, x))], 'i'),)
        if c.ndim == 1:
            # only its length is modelled
            n = L.seq_sum(I, boolseq(I, tolist1(I, c).seq))
            # how many elements satisfy a condition: between 0 and all of them (induction over the prefix sums)
            I.ctx.assume(z3.And(zi(n) >= 0, zi(n) <= zi(c.shape[0])))
            f = z3.Function(I.ctx.fname('where'), T.I, T.I)
            return (Arr((n,), getf=lambda q: f(zi(q[0])), dtype='i'),)
        raise Unsupported('where')
    return elementwise(I, lambda x, y, z: merge_vals([(L.tob(L.truthterm(I, x)), y), (None, z)]), [c, a, b], 'where')
@ext('numpy.histogram')
def _(I, a, bins=10, range=None, density=None, weights=None):
    if weights is not None: raise Unsupported('weighted histogram')
    I.eng.assumed['numpy.histogram'] = 'pure function of its arguments (uninterpreted)'
    args = [a, bins, range, bool(density)] if density is None or isinstance(density, bool) else [a, bins, range, density]
    return (L.ext_pure(I, 'numpy.histogram', args, {}, 'obj'), L.ext_pure(I, 'numpy.histogram.edges', args[:3], {}, 'obj'))
@ext('numpy.partition')
def _(I, a, kth, axis=-1):
    a = asarray(I, a)
    if not isinstance(a, Arr) or a.ndim != 1: raise Unsupported('partition')
    n = a.shape[0]
    if not isnum(kth): raise Unsupported('partition at several positions')
    kth = num(kth)
    if not I.ctx.decide(L.truthterm(I, L.compare(I, 'Lt', kth, n))): raise err('ValueError', 'kth out of bounds')
    I.eng.assumed['numpy.partition'] = 'pure function of its arguments (uninterpreted), raises when the position is out of bounds'
    return L.ext_pure(I, 'numpy.partition', [a, kth], {}, 'obj')
@ext('numpy.nonzero', 'numpy.flatnonzero')
def _(I, c): return EXT['numpy.where'](I, c)
@ext('numpy.sort')
def _(I, a, axis=-1):
    a = asarray(I, a)
    if a.ndim != 1: raise Unsupported('sort')
    return asarray(I, L.BUILTINS['sorted'].fn(I, [a], {}))
def transpose(I, a):
    if a.ndim == 1: return a
    if a.is_conc() and a.ndim == 2:
        n, m = a.shape
        pos = list(a.positions())
        return Arr((m, n), buf=a.buf, pos=[pos[i * m + j] for j in range(m) for i in range(n)], dtype=a.dtype)
    if a.ndim == 2: return Arr((a.shape[1], a.shape[0]), getf=lambda q: a.at((q[1], q[0])), dtype=a.dtype)
    raise Unsupported('transpose')
def sym_vv(I, n, f, g):
    """sum of f(i)*g(i) for i < n, n symbolic"""
    s = map_seq(I, n, lambda ix, sub: s_mul(scal(f(ix)), scal(g(ix))))
    return L.seq_sum(I, s)
def sym_dot(I, a, b):
    """vector of symbolic length times matrix (or vector) of symbolic size"""
    if a.dtype not in 'fib' or b.dtype not in 'fib': return None
    if not I.ctx.known(zi(a.shape[0]) == zi(b.shape[0])):
        if not I.ctx.decide(simp(zi(a.shape[0]) == zi(b.shape[0]))): raise err('ValueError', 'shapes not aligned')
    n = a.shape[0]
    if b.ndim == 1: return sym_vv(I, n, lambda i: a.at((i,)), lambda i: b.at((i,)))
    if isinstance(b.shape[1], int): return mkd([sym_vv(I, n, lambda i: a.at((i,)), lambda i, j=j: b.at((i, j))) for j in range(b.shape[1])])
    return mk1(map_seq(I, b.shape[1], lambda j, sub: sym_vv(sub, n, lambda i: a.at((i,)), lambda i: b.at((i, j)))))
@ext('numpy.dot', 'numpy.matmul', 'numpy.inner')
def dot(I, a, b):
    if isnum(a) or isnum(b): return L.binop(I, 'Mult', a, b)
    a, b = asarray(I, a), asarray(I, b)
    if isinstance(a, ExtObj) or isinstance(b, ExtObj): return L.ext_pure(I, 'numpy.dot', [a, b], {}, 'obj')
    if not (a.is_conc() and b.is_conc()):
        if a.ndim == 2 and isinstance(a.shape[0], int) and a.shape[0] == 1 and b.ndim == 2:
            r1 = sym_dot(I, row(I, a, 0), b)
            if r1 is not None: return reshape(I, r1, (1, -1))
        r1 = sym_dot(I, a, b) if a.ndim == 1 else None
        if r1 is not None: return r1
        return L.ext_pure(I, 'numpy.dot', [a, b], {}, 'obj')
    def vv(x, y):
        if len(x) != len(y): raise err('ValueError', 'shapes not aligned')
        r = Fraction(0)
        for p, q in zip(x, y): r = s_add(r, s_mul(p, q))
        return r
    if a.ndim == 1 and b.ndim == 1: return vv(a.flat(), b.flat())
    if a.ndim == 2 and b.ndim == 1: return mkd([vv(r.flat(), b.flat()) for r in rows(I, a)])
    bt = rows(I, transpose(I, b)) if b.ndim == 2 else None
    if a.ndim == 1 and b.ndim == 2: return mkd([vv(a.flat(), c.flat()) for c in bt])
    if a.ndim == 2 and b.ndim == 2: return arr_of([vv(r.flat(), c.flat()) for r in rows(I, a) for c in bt], 'f', (a.shape[0], b.shape[1]))
    raise Unsupported('dot')
@ext('numpy.outer')
def _(I, a, b):
    a, b = asarray(I, a), asarray(I, b)
    if a.is_conc() and b.is_conc(): return arr_of([s_mul(x, y) for x in a.flat() for y in b.flat()], 'f', (prod(a.shape), prod(b.shape)))
    raise Unsupported('outer')
@ext('numpy.linalg.norm')
def _(I, a, ord=None, axis=None):
    a = asarray(I, a)
    if axis is not None: raise Unsupported('norm axis')
    if (ord is None or (isinstance(ord, (int, Fraction)) and ord == 2)) and a.ndim == 1:
        l = flat_seq(I, a)
        if l.is_conc():
            s = Fraction(0)
            for x in l.items: s = s_add(s, s_mul(x, x))
            return L.sqrt(I, s)
        return L.sqrt(I, sq_sum(I, l.seq))
    if isinstance(ord, (int, Fraction)) and ord == 1 and a.ndim == 1:
        return RED['sum'](I, elementwise(I, lambda x: L.s_abs(x), [a], 'abs'))
    return L.ext_pure(I, 'numpy.linalg.norm', [a, ord], {}, 'real')
def euclid(I, x, y):
    """Euclidean distance of two rows of known width"""
    x, y = asarray(I, x), asarray(I, y)
    if not (x.is_conc() and y.is_conc() and x.shape == y.shape and x.ndim == 1): return None
    s = Fraction(0)
    for a, b in zip(x.flat(), y.flat()):
        e = L.s_sub(a, b)
        s = s_add(s, s_mul(e, e))
    return L.sqrt(I, s if not is_z3(s) else z3.simplify(s, som=True))
@ext('scipy.spatial.distance.euclidean', 'vlib.dist')
def _(I, x, y):
    r = euclid(I, x, y)
    if r is None: raise Unsupported('distance of symbolic rows')
    return r
@ext('scipy.spatial.distance.cdist')
def _(I, A, B, *metric):
    A_, B_ = L.to_list(I, A), L.to_list(I, B)
    if not B_.is_conc(): raise Unsupported('cdist')
    I.eng.assumed['scipy.spatial.distance.cdist'] = 'entry (i, j) is a function DIST of row i and row j only'
    D = z3.Function('DIST' + ''.join('|' + str(m) for m in metric), T.U, T.U, T.R)
    T.UFAX[D.name()] = lambda a: [a >= 0]
    def d(x, y):
        if not metric or metric[0] == 'euclidean':
            r = euclid(I, x, y)
            if r is not None: return r
        return D(L.reify(I, x), L.reify(I, y))
    m = len(B_.items)
    if A_.is_conc():
        return arr_of([d(x, y) for x in A_.items for y in B_.items], 'f', (len(A_.items), m))
    s = A_.seq
    return Arr((s.length(), m), getf=lambda q: d(s.get(q[0]), B_.items[q[1]]), dtype='f')

# ------------------------------------------------------------------ randomness: arbitrary values in the declared range
def rnd(I, shape, mkone):
    if shape is None or shape == (): return mkone()
    sh = shp(shape)
    if not all(isinstance(x, int) for x in sh): raise Unsupported('random array of symbolic size')
    return arr_of([mkone() for _ in range(prod(sh))], 'f', sh)
def u01(I, lo=0, hi=1):
    r = I.ctx.fresh('rnd', T.R)
    I.ctx.assume(z3.And(r >= real(lo), r < real(hi)))
    return r
@ext('numpy.random.rand', 'numpy.random.random', 'numpy.random.random_sample', 'random.random')
def _(I, *shape): return rnd(I, tuple(shape) if shape else None, lambda: u01(I))
@ext('numpy.random.uniform', 'random.uniform')
def _(I, low=0, high=1, size=None):
    def one():
        r = I.ctx.fresh('rnd', T.R)
        I.ctx.assume(z3.And(r >= real(scal(low)), r <= real(scal(high))))
        return r
    return rnd(I, size, one)
@ext('numpy.random.randn', 'numpy.random.standard_normal')
def _(I, *shape): return rnd(I, tuple(shape) if shape else None, lambda: I.ctx.fresh('rnd', T.R))
@ext('numpy.random.normal')
def _(I, loc=0, scale=1, size=None): return rnd(I, size, lambda: I.ctx.fresh('rnd', T.R))
@ext('numpy.random.randint')
def _(I, low, high=None, size=None, dtype=None):
    lo, hi = (0, low) if high is None else (low, high)
    if not isint(num(scal(lo))): lo = L.toint(I, lo)
    if not isint(num(scal(hi))): hi = L.toint(I, hi)
    if not I.ctx.decide(L.compare(I, 'Lt', lo, hi)): raise err('ValueError', 'low >= high')
    def one():
        r = I.ctx.fresh('rndi', T.I)
        I.ctx.assume(z3.And(r >= zi(lo), r < zi(hi)))
        return r
    r = rnd(I, size, one)
    if isinstance(r, Arr): r.dtype = 'i'
    return r
@ext('random.randint')
def _(I, a, b): return EXT['numpy.random.randint'](I, a, s_add(b, 1))
@ext('random.randrange')
def _(I, *a): return EXT['numpy.random.randint'](I, *a)
@ext('random.shuffle', 'numpy.random.shuffle')
def shuffle(I, l):
    if isinstance(l, Arr):
        p = PList(seq=map_seq(I, l.shape[0], lambda ix, sub: row(sub, l, ix))) if not isinstance(l.shape[0], int) else PList(rows(I, l))
        shuffle(I, p)
        if l.is_conc(): assign_all(I, l, asarray(I, p)); return
        s = p.seq
        l.getf, l.fam, l.rowf = (lambda q: s.get(q[0])), s if l.ndim == 1 else None, s.get if l.ndim > 1 else None
        return
    n = l.length()
    if l.is_conc():
        if n > 5: raise Unsupported('shuffle of a long concrete list')
        perms = list(itertools.permutations(l.items))
        l.items = list(perms[I.ctx.choose(len(perms))])
        return
    pf = z3.Function(I.ctx.fname('PERM'), T.I, T.I)
    N = zi(n)
    T.UFAX[pf.name()] = lambda a: [z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) < N), z3.And(a >= 0, a < N))]
    I.ctx.ghost.setdefault('perms', []).append((pf, n))
    I.eng.assumed['numpy.random.shuffle'] = 'rearranges the list by an arbitrary permutation of its indices'
    s = l.seq
    l.seq = map_seq(I, n, lambda ix, sub: s.get(pf(zi(ix))))
@ext('numpy.random.permutation')
def _(I, x):
    if isinstance(x, int) or isint(x): l = L.to_list(I, PRange(0, x))
    else: l = L.to_list(I, x)
    l = PList(None if l.items is None else list(l.items), l.seq)
    shuffle(I, l)
    return asarray(I, l)
@ext('numpy.random.choice')
def _(I, a, size=None, replace=True, p=None):
    a = asarray(I, L.to_list(I, PRange(0, a)) if isint(a) else a)
    if not a.is_conc(): raise Unsupported('choice')
    n = a.shape[0]
    if size is None: return row(I, a, EXT['numpy.random.randint'](I, 0, n))
    k = size if isinstance(size, int) else L.concretise(I, size, 0, n)
    if k > n and not replace: raise err('ValueError')
    idx = []
    for _ in range(k):
        r = I.ctx.fresh('rndi', T.I)
        I.ctx.assume(z3.And(r >= 0, r < n))
        if not replace:
            for q in idx: I.ctx.assume(r != q)
        idx.append(r)
    return arr_of([row(I, a, i) for i in idx], a.dtype)

# ------------------------------------------------------------------ methods / attributes
ARRM = {}
def am(n):
    def d(f): ARRM[n] = f; return f
    return d
for _n in RED:
    ARRM[_n] = (lambda nm: (lambda I, a, *ar, **kw: RED[nm](I, a, *ar, **kw)))(_n)
@am('reshape')
def _(I, a, *s, **kw): return reshape(I, a, s[0] if len(s) == 1 and isinstance(s[0], (tuple, PList)) else tuple(s))
@am('flatten')
def _(I, a): return asarray(I, reshape(I, a, (-1,)), None, True)
@am('ravel')
def _(I, a): return reshape(I, a, (-1,))
@am('squeeze')
def _(I, a):
    sh = tuple(s for s in a.shape if not (isinstance(s, int) and s == 1))
    if a.is_conc(): return Arr(sh, buf=a.buf, pos=list(a.positions()), dtype=a.dtype)
    if a.ndim == 2 and len(sh) == 1: return reshape(I, a, (-1,))
    if len(sh) == a.ndim: return a
    raise Unsupported('squeeze')
@am('astype')
def _(I, a, d, **kw):
    dt = dtcode(d)
    if a.is_conc(): return arr_of([cast(I, x, dt) for x in a.flat()], dt, a.shape)
    if a.ndim == 1:
        def at(ix, sub): return cast(sub, a.getf((ix,)), dt)
        return mk1(map_seq(I, a.shape[0], at), dt)
    raise Unsupported('astype')
@am('copy')
def _(I, a): return asarray(I, a, None, True)
@am('tolist')
def _(I, a):
    if a.ndim == 0: return a.flat()[0]
    if a.ndim == 1: return PList(list(a.flat())) if a.is_conc() else tolist1(I, a)
    if a.is_conc(): return PList([ARRM['tolist'](I, r) for r in rows(I, a)])
    raise Unsupported('tolist')
@am('item')
def _(I, a, *ix):
    if ix: return getitem(I, a, tuple(ix))
    n = a.size()
    if isinstance(n, int):
        if n != 1: raise err('ValueError', 'can only convert an array of size 1')
        return a.flat()[0]
    raise Unsupported('item')
@am('fill')
def _(I, a, v): assign_all(I, a, v)
@am('dot')
def _(I, a, b): return dot(I, a, b)
@am('transpose')
def _(I, a): return transpose(I, a)
@am('sort')
def _(I, a): assign_all(I, a, EXT['numpy.sort'](I, a))
def arr_attr(I, a, name):
    if name == 'shape': return a.shape
    if name == 'ndim': return a.ndim
    if name == 'size': return a.size()
    if name == 'T': return transpose(I, a)
    if name == 'dtype': return Ext('numpy.' + {'f': 'float64', 'i': 'int64', 'b': 'bool', 'o': 'object'}[a.dtype])
    f = ARRM.get(name)
    if f: return Builtin('ndarray.' + name, lambda I2, ar, kw: f(I2, a, *ar, **kw))
    if name in ('iloc', 'loc', 'index', 'columns', 'values', 'to_numpy'): raise err('AttributeError', name)
    raise Unsupported('ndarray attribute ' + name)
for _n in ('numpy.linalg.inv', 'numpy.linalg.pinv'): L.RET[_n] = 'obj'
for _n in ('scipy.stats.t.ppf', 'scipy.stats.chi2.isf', 'scipy.stats.entropy'): L.RET[_n] = 'real'
