"""Semantics of operators, builtins and containers, and the assumed contracts of external functions."""
import math
from fractions import Fraction
import z3
from . import terms as T
from .terms import is_z3, simp, to_term, real, NEGINF, PINF
from .values import *
from .interp import ExcClass, Poison, DeferredUnsupported, Interp, Ctx, explore
from .loops import SymIter, ASeq, LoopSeq, map_seq, merge_vals, subst_val, merged_eval, seq_of_elem

BUILTINS = {}
EXT = {}
def builtin(name):
    def d(f):
        BUILTINS[name] = Builtin(name, f)
        return f
    return d
def ext(*names):
    def d(f):
        for n in names: EXT[n] = f
        return f
    return d

def install(eng):
    from . import npsem, vsem       # noqa: registers tables

def err(name, *a):
    return PyRaise(ExcClass(name), a)

def flt(v):
    if v != v: return z3.Real('NAN')
    if v == math.inf: return PINF
    if v == -math.inf: return NEGINF
    return Fraction(repr(v))

def isnum(v):
    return isinstance(v, (int, Fraction)) or (is_z3(v) and v.sort() in (T.I, T.R, T.B))
def isconc_num(v):
    return isinstance(v, (int, Fraction))
def isint(v):
    return (isinstance(v, int)) or (is_z3(v) and v.sort() == T.I)
def isbool(v):
    return isinstance(v, bool) or (is_z3(v) and v.sort() == T.B)
def num(v):
    """bool -> int"""
    if isinstance(v, bool): return int(v)
    if is_z3(v) and v.sort() == T.B: return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v
def pair(a, b):
    a, b = num(a), num(b)
    ta, tb = to_term(a), to_term(b)
    if ta.sort() != tb.sort(): ta, tb = real(ta), real(tb)
    return ta, tb

# ------------------------------------------------------------------ arithmetic on scalars
def s_add(a, b):
    a, b = num(a), num(b)
    if isconc_num(a) and isconc_num(b): return _mix(a, b, a + b)
    x, y = pair(a, b)
    return norm(simp(x + y))
def _mix(a, b, r):
    if isinstance(a, Fraction) or isinstance(b, Fraction): return Fraction(r)
    return r
def s_sub(a, b):
    a, b = num(a), num(b)
    if isconc_num(a) and isconc_num(b): return _mix(a, b, a - b)
    x, y = pair(a, b)
    return norm(simp(x - y))
def s_mul(a, b):
    a, b = num(a), num(b)
    if isconc_num(a) and isconc_num(b): return _mix(a, b, a * b)
    x, y = pair(a, b)
    return norm(simp(x * y))
def s_div(I, a, b):
    a, b = num(a), num(b)
    if isconc_num(b):
        if b == 0: raise err('ZeroDivisionError')
        if isconc_num(a): return Fraction(a) / Fraction(b)
        return norm(simp(real(a) / real(b)))
    y = real(b)
    if y.eq(PINF) or y.eq(NEGINF): raise Unsupported('arithmetic on infinity')
    if not I.ctx.decide(simp(y != 0)): raise err('ZeroDivisionError')
    return norm(simp(real(a) / y))
NPDIV0 = z3.Function('numpy_div_by_zero', T.R, T.R)
def known_nonzero(I, b):
    """decide (fork) whether a scalar divisor is zero, so that every element sees the outcome"""
    b = num(b)
    return b != 0 if isconc_num(b) else I.ctx.decide(simp(real(b) != 0))
def np_div(I, a, b):
    """element of an array division: no exception, an unspecified value where the divisor is zero"""
    if not (isnum(a) and isnum(b)): return binop(I, 'Div', a, b)
    a, b = num(a), num(b)
    if isconc_num(b):
        return s_div(I, a, b) if b != 0 else NPDIV0(real(a))
    y = real(b)
    if y.eq(PINF) or y.eq(NEGINF): raise Unsupported('arithmetic on infinity')
    c = simp(y != 0)
    if I.ctx.known(c): return norm(simp(real(a) / y))
    if not T.free_loopvars(c):
        return norm(simp(real(a) / y)) if I.ctx.decide(c) else NPDIV0(real(a))
    return norm(simp(z3.If(c, real(a) / y, NPDIV0(real(a)))))
def s_floordiv(I, a, b):
    a, b = num(a), num(b)
    if isconc_num(a) and isconc_num(b):
        if b == 0: raise err('ZeroDivisionError')
        return _mix(a, b, a // b)
    if not isint(a) or not isint(b):
        q = s_div(I, a, b)
        return z3.ToReal(z3.ToInt(real(q)))
    if isinstance(b, int):
        if b == 0: raise err('ZeroDivisionError')
        if b > 0: return norm(simp(zi(a) / b))
        raise Unsupported('division by a negative number')
    if not I.ctx.decide(simp(b != 0)): raise err('ZeroDivisionError')
    if not I.ctx.known(b > 0): raise Unsupported('floor division by a possibly negative number')
    return T.DIV(zi(a), b)
def s_mod(I, a, b):
    a, b = num(a), num(b)
    if isconc_num(a) and isconc_num(b):
        if b == 0: raise err('ZeroDivisionError')
        return _mix(a, b, a % b)
    if not isint(a) or not isint(b):
        raise Unsupported('modulo on reals')
    if isinstance(b, int):
        if b == 0: raise err('ZeroDivisionError')
        if b > 0: return norm(simp(zi(a) % b))
        raise Unsupported('modulo by a negative number')
    if not I.ctx.decide(simp(b != 0)): raise err('ZeroDivisionError')
    if not I.ctx.known(b > 0): raise Unsupported('modulo by a possibly negative number')
    return T.MOD(zi(a), b)
POW = z3.Function('POW', T.R, T.R, T.R)
def s_pow(I, a, b):
    a, b = num(a), num(b)
    if isconc_num(b) and Fraction(b).denominator == 1:
        e = int(b)
        if isconc_num(a):
            if a == 0 and e < 0: raise err('ZeroDivisionError')
            r = Fraction(a) ** e
            return int(r) if isinstance(a, int) and isinstance(b, int) and e >= 0 else r
        if 0 <= e <= 6:
            r = 1 if isint(a) and isinstance(b, int) else Fraction(1)
            for _ in range(e): r = s_mul(r, a)
            return r
        if e < 0:
            return s_div(I, 1, s_pow(I, a, -e))
    if isconc_num(b) and Fraction(b) == Fraction(1, 2):
        return sqrt(I, a)
    T.UFAX['POW'] = _pow_ax
    return POW(real(a), real(b))
def _pow_ax(a):
    x, e = a.arg(0), a.arg(1)
    out = [z3.Implies(x > 0, a > 0), z3.Implies(e == 0, a == 1), z3.Implies(e == 1, a == x),
           z3.Implies(z3.And(x > 1, e < 0), a < 1), z3.Implies(z3.And(x > 1, e > 0), a > 1)]
    return out

def sqrt(I, a):
    if isconc_num(a):
        f = Fraction(a)
        if f < 0: return z3.Real('NAN')
        rn, rd = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if rn * rn == f.numerator and rd * rd == f.denominator: return Fraction(rn, rd)
        return T.SQRT(real(f))
    return T.SQRT(simp(real(a)))

def s_neg(a):
    a = num(a)
    if isconc_num(a): return -a
    if a.eq(PINF): return NEGINF
    if a.eq(NEGINF): return PINF
    return norm(simp(-a))
def s_abs(a):
    a = num(a)
    if isconc_num(a): return abs(a)
    return norm(simp(z3.If(a >= 0, a, -a)))

def isu(v):
    return is_z3(v) and v.sort() == T.U

def binop(I, op, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        from . import npsem
        if op == 'MatMult': return npsem.dot(I, a, b)
        if op == 'Div':
            b2 = tolike(I, b, a)
            if not isinstance(b2, Arr) and isnum(b2): known_nonzero(I, b2)
            return npsem.elementwise(I, lambda x, y: np_div(I, x, y), [tolike(I, a, b), b2], op)
        return npsem.elementwise(I, lambda x, y: binop(I, op, x, y), [tolike(I, a, b), tolike(I, b, a)], op)
    if isnum(a) and isnum(b):
        if op == 'Add': return s_add(a, b)
        if op == 'Sub': return s_sub(a, b)
        if op == 'Mult': return s_mul(a, b)
        if op == 'Div': return s_div(I, a, b)
        if op == 'FloorDiv': return s_floordiv(I, a, b)
        if op == 'Mod': return s_mod(I, a, b)
        if op == 'Pow': return s_pow(I, a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor') and isbool(a) and isbool(b):
            if op == 'BitAnd': return land(a, b)
            if op == 'BitOr': return lnot(land(lnot(a), lnot(b)))
            return lnot(s_eq(a, b))
        if isinstance(a, int) and isinstance(b, int):
            return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b, 'LShift': a << b if b >= 0 else 0, 'RShift': a >> b if b >= 0 else 0}[op]
        if op == 'LShift' and isinstance(a, int) and a == 1: return norm(simp(real(s_pow(I, 2, b))))
        if isint(a) and isint(b):
            if op == 'BitAnd':
                if isinstance(a, int): a, b = b, a
                if isinstance(b, int) and b >= 0 and b & (b + 1) == 0: return s_mod(I, a, b + 1)
            if op == 'RShift' and isinstance(b, int) and 0 <= b <= 64: return s_floordiv(I, a, 2 ** b)
            if op == 'LShift' and isinstance(b, int) and 0 <= b <= 64: return s_mul(a, 2 ** b)
        raise Unsupported('operator %s' % op)
    if isinstance(a, str) and op == 'Add' and isinstance(b, str): return a + b
    if isinstance(a, str) and op == 'Mod': return a
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add': return a + b
    if isinstance(a, PList) and isinstance(b, PList) and op == 'Add': return list_concat(I, a, b)
    if op == 'Mult' and isinstance(b, (PList, tuple, str)): a, b = b, a
    if op == 'Mult' and isinstance(a, (tuple, str)) and isinstance(b, int): return a * b
    if op == 'Mult' and isinstance(a, PList):
        if a.is_conc() and isinstance(b, int): return PList(a.items * b)
        if a.is_conc() and len(a.items) == 1 and isint(b):
            x = a.items[0]
            if isinstance(x, HEAP): raise Unsupported('repeat of objects')
            n = norm(simp(z3.If(b > 0, b, z3.IntVal(0))))
            return PList(seq=map_seq(I, n, lambda ix, sub: x))
        raise Unsupported('list repeat')
    if isinstance(a, Obj):
        m = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__'}.get(op)
        c, f = a.cls.lookup(m) if m else (None, None)
        if f: return I.call(f, [a, b], {})
    if isinstance(b, Obj):
        m = {'Add': '__radd__', 'Sub': '__rsub__', 'Mult': '__rmul__', 'Div': '__rtruediv__'}.get(op)
        c, f = b.cls.lookup(m) if m else (None, None)
        if f: return I.call(f, [b, a], {})
    if isinstance(a, ExtObj) or isinstance(b, ExtObj) or isu(a) or isu(b):
        return ext_pure(I, 'op.' + op, [a, b], {}, 'obj')
    if isinstance(a, PSet) or isinstance(b, PSet): raise Unsupported('set operator')
    raise err('TypeError', 'operands %s %s' % (type(a).__name__, type(b).__name__))

def tolike(I, v, other):
    if isinstance(v, (PList, tuple)):
        from . import npsem
        return npsem.asarray(I, v)
    return v

def unop(I, op, v):
    if isinstance(v, Arr):
        from . import npsem
        return npsem.elementwise(I, lambda x: unop(I, op, x), [v], op)
    if isnum(v):
        if op == 'USub': return s_neg(v)
        if op == 'UAdd': return num(v)
        if op == 'Invert':
            if isbool(v): return lnot(v)
            return s_sub(s_neg(v), 1)
    if isinstance(v, ExtObj): return ext_pure(I, 'op.' + op, [v], {}, 'obj')
    raise err('TypeError', 'unary %s' % op)

def land(a, b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    return norm(simp(z3.And(a, b)))
def lor(a, b):
    if a is True or b is True: return True
    if a is False: return b
    if b is False: return a
    return norm(simp(z3.Or(a, b)))
def lnot(a):
    if isinstance(a, bool): return not a
    return norm(simp(z3.Not(a)))

def s_eq(a, b):
    if isbool(a) and isbool(b):
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        return norm(simp(to_term(a) == to_term(b)))
    if isnum(a) and isnum(b):
        a, b = num(a), num(b)
        if isconc_num(a) and isconc_num(b): return a == b
        x, y = pair(a, b)
        return norm(simp(x == y))
    raise Unsupported('eq')

def py_eq(I, a, b):
    """python == on values (scalar result)"""
    if isnum(a) and isnum(b): return s_eq(a, b)
    if a is None or b is None: return (a is None) and (b is None)
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str): return a == b
        if isu(a) or isu(b): return norm(simp(reify(I, a) == reify(I, b)))
        return False
    if isu(a) and isu(b): return norm(simp(a == b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return False
        r = True
        for x, y in zip(a, b): r = land(r, py_eq(I, x, y))
        return r
    if isinstance(a, PList) and isinstance(b, PList):
        if a.is_conc() and b.is_conc():
            return py_eq(I, tuple(a.items), tuple(b.items))
        la, lb = a.length(), b.length()
        if not I.ctx.decide(s_eq(la, lb)): return False
        if I.ctx.known(zi(la) == 0): return True
        if I.ctx.known(deep_eq(I, a, b)): return True
        return norm(simp(reify(I, a) == reify(I, b)))
    if isinstance(a, (PClass, Ext, ExcClass, Module, Builtin)) or isinstance(b, (PClass, Ext, ExcClass, Module, Builtin)): return a is b or (isinstance(a, Ext) and a == b)
    if isinstance(a, Obj):
        c, m = a.cls.lookup('__eq__')
        if m: return I.call(m, [a, b], {})
        return a is b
    if isinstance(a, ExtObj) and isinstance(b, ExtObj): return norm(simp(a.term == b.term))
    if isinstance(a, PDict) and isinstance(b, PDict) and a.sym is None and b.sym is None:
        if set(a.items) != set(b.items): return False
        r = True
        for k in a.items: r = land(r, py_eq(I, a.items[k], b.items[k]))
        return r
    if type(a) is not type(b): return False
    raise Unsupported('== on %s' % type(a).__name__)

def compare(I, op, a, b):
    if op in ('Is', 'IsNot'):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if isbool(a) and isbool(b): r = s_eq(a, b)
            else: r = a is b
        elif isinstance(a, HEAP) or isinstance(b, HEAP): r = a is b
        elif isinstance(a, (PClass, Ext, str)): r = (a is b) or (type(a) is type(b) and not isinstance(a, PClass) and a == b)
        elif isu(a) and isu(b): raise Unsupported('identity of opaque values')
        else: raise Unsupported('identity test')
        return r if op == 'Is' else lnot(r)
    if op in ('In', 'NotIn'):
        r = contains(I, b, a)
        return r if op == 'In' else lnot(r)
    if isinstance(a, Arr) or isinstance(b, Arr):
        from . import npsem
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return op == 'NotEq'
        return npsem.elementwise(I, lambda x, y: compare(I, op, x, y), [tolike(I, a, b), tolike(I, b, a)], op, 'b')
    if op == 'Eq': return py_eq(I, a, b)
    if op == 'NotEq': return lnot(py_eq(I, a, b))
    if isnum(a) and isnum(b):
        a, b = num(a), num(b)
        if isconc_num(a) and isconc_num(b):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        x, y = pair(a, b)
        return norm(simp({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return lex(I, op, a, b)
    if isinstance(a, str) and isinstance(b, str):
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if isinstance(a, ExtObj) or isinstance(b, ExtObj): return ext_pure(I, 'op.' + op, [a, b], {}, 'obj')
    raise err('TypeError', 'comparison %s of %s and %s' % (op, type(a).__name__, type(b).__name__))

def lex(I, op, a, b):
    for x, y in zip(a, b):
        if I.ctx.decide(py_eq(I, x, y)): continue
        return compare(I, op[:2] if op in ('LtE', 'GtE') else op, x, y)
    return {'Lt': len(a) < len(b), 'LtE': len(a) <= len(b), 'Gt': len(a) > len(b), 'GtE': len(a) >= len(b)}[op]

def contains(I, c, x):
    if isinstance(c, str) and isinstance(x, str): return x in c
    if isinstance(c, tuple) or (isinstance(c, PList) and c.is_conc()):
        r = False
        for y in (c if isinstance(c, tuple) else c.items): r = lor(r, py_eq(I, y, x))
        return r
    if isinstance(c, PList):
        return simp(z3.Select(seq_bag(I, c.seq), bag_key(I, c.seq, x)) >= 1)
    if isinstance(c, PDict):
        if c.sym is not None: return norm(simp(c.sym.has(keyterms(I, x, c.sym.nkey))))
        r = False
        for k in c.items: r = lor(r, py_eq(I, unkey(k), x))
        return r
    if isinstance(c, PSet):
        if c.items is not None: return contains(I, tuple(c.items), x)
        return contains(I, PList(seq=c.seq), x)
    if isinstance(c, PRange) and c.step == 1 and isint(x):
        return land(compare(I, 'GtE', x, c.a), compare(I, 'Lt', x, c.b))
    if isinstance(c, Obj):
        _, m = c.cls.lookup('__contains__')
        if m: return I.call(m, [c, x], {})
    raise Unsupported('in on %s' % type(c).__name__)

def truthterm(I, v):
    if isinstance(v, bool): return v
    if v is None: return False
    if isconc_num(v): return v != 0
    if isinstance(v, (str, tuple)): return len(v) > 0
    if is_z3(v):
        if v.sort() == T.B: return norm(simp(v))
        if v.sort() in (T.I, T.R): return norm(simp(v != 0))
        raise Unsupported('truth of opaque value')
    if isinstance(v, PList): return s_lt0(v.length())
    if isinstance(v, PDict):
        if v.sym is None: return len(v.items) > 0
        raise Unsupported('truth of map')
    if isinstance(v, PSet):
        n = set_len(I, v)
        return compare(I, 'Gt', n, 0)
    if isinstance(v, Arr):
        n = v.size()
        if isinstance(n, int):
            if n == 1: return truthterm(I, v.at(tuple(0 for _ in v.shape)))
            if n == 0: return False
            raise err('ValueError', 'ambiguous truth value')
        if I.ctx.known(zi(n) == 1) and v.ndim == 1: return truthterm(I, v.getf((0,)))
        raise err('ValueError', 'ambiguous truth value')
    if isinstance(v, Obj):
        c, m = v.cls.lookup('__bool__')
        if m: return truthterm(I, I.call(m, [v], {}))
        c, m = v.cls.lookup('__len__')
        if m: return truthterm(I, I.call(m, [v], {}))
        return True
    if isinstance(v, ExtObj): raise Unsupported('truth of external object')
    return True

def s_lt0(n):
    if isinstance(n, int): return n > 0
    return norm(simp(n > 0))

# ------------------------------------------------------------------ identity terms (for uninterpreted functions)
def reify(I, v):
    if v is None: return T.NONE_U
    if isinstance(v, bool): return z3.Const('c:%s' % v, T.U)
    if isnum(v):
        if isbool(v): return z3.If(v, z3.Const('c:True', T.U), z3.Const('c:False', T.U))
        return T.REAL2U(simp(real(v)))
    if isinstance(v, str): return z3.Const('s:' + v, T.U)
    if isu(v): return v
    if isinstance(v, tuple): return tup([reify(I, x) for x in v])
    if isinstance(v, PList):
        if v.is_conc(): return tup([reify(I, x) for x in v.items])
        return seq_id(I, v.seq)
    if isinstance(v, Arr):
        if v.is_conc():
            if v.ndim <= 1: return tup([reify(I, x) for x in v.flat()])
            from . import npsem
            return tup([reify(I, r) for r in npsem.rows(I, v)])
        if v.fam is not None: return seq_id(I, v.fam)
        if v.ndim == 1: return seq_id(I, map_seq(I, v.shape[0], lambda ix, s: v.getf((ix,))))
        if v.rowf is not None or v.ndim >= 2:
            from . import npsem
            return seq_id(I, map_seq(I, v.shape[0], lambda ix, s: npsem.row(s, v, ix)))
    if isinstance(v, (PClass,)): return z3.Const('cls:' + v.qual, T.U)
    if isinstance(v, Ext): return z3.Const('ext:' + v.path, T.U)
    if isinstance(v, Closure): return z3.Const('fn:' + v.name, T.U)
    if isinstance(v, ExtObj): return v.term
    if isinstance(v, PDict) and v.sym is None:
        return tup([reify(I, x) for kv in sorted(((str(k), k, x) for k, x in v.items.items())) for x in (kv[1], kv[2])])
    if isinstance(v, Bag): return z3.Function('BAG2U', v.term.sort(), T.U)(v.term)
    raise Unsupported('identity of %s' % type(v).__name__)

def tup(ts):
    f = z3.Function('TUP%d' % len(ts), *([T.U] * len(ts) + [T.U])) if ts else None
    return f(*ts) if ts else z3.Const('TUP0', T.U)

def seq_id(I, s):
    fam = s.fam
    if fam.kind == 'obj':
        # give obj elements an identity
        ix = T.loopvar('ix!%d' % (I.ctx.depth + 7))
        t = reify(I, fam.get(ix))
        fam = T.derived_family(t, ix)
    return T.fam_seq(fam)(zi(s.lo), zi(s.hi), *fam.params)

RET = {}          # external path -> result kind
def ext_pure(I, path, args, kw, kind=None):
    """external pure function: uninterpreted function of the identities of its arguments"""
    kind = kind or RET.get(path, 'real')
    ts = [reify(I, a) for a in args]
    name = path
    for k in sorted(kw):
        name += '|' + k
        ts.append(reify(I, kw[k]))
    if not path.startswith('op.'):
        I.eng.assumed[path] = 'pure function of its arguments (uninterpreted)'
    sort = {'real': T.R, 'int': T.I, 'bool': T.B, 'obj': T.U, 'U': T.U}[kind]
    f = z3.Function('ext:%s/%d:%s' % (name, len(ts), sort), *([T.U] * len(ts) + [sort]))
    t = f(*ts) if ts else f()
    if kind == 'obj': return ExtObj(t, path)
    return t

# ------------------------------------------------------------------ sequences
def seq_bag(I, s):
    if isinstance(s, LoopSeq): raise Unsupported('loop-carried list')
    return s.bagterm()

def bag_key(I, s, x):
    x = x.as_scalar() if isinstance(x, Arr) else x
    t = to_term(x)
    if t is None: t = reify(I, x)
    return t if t.sort() == T.U else real(t)

def bagterm_of(I, v):
    """multiset term of a list/array/seq"""
    if isinstance(v, Bag): return v.term
    if isinstance(v, Arr):
        from . import npsem
        v = npsem.tolist1(I, v)
    if isinstance(v, tuple): v = PList(list(v))
    if v.is_conc():
        b = None
        for x in v.items:
            x = x.as_scalar() if isinstance(x, Arr) else x
            t = to_term(x) if not isinstance(x, tuple) else None
            if t is None: t = reify(I, x)
            if t.sort() != T.U: t = real(t)
            if b is None: b = T.EMPTYU if t.sort() == T.U else T.EMPTYR
            b = T.bag_add(b, t)
        return b if b is not None else T.EMPTYR
    return seq_bag(I, v.seq)

def extend_seq(I, s, v):
    """Seq + [v]"""
    ctx = I.ctx
    if isinstance(s, LoopSeq): return ASeq(s, (v,))
    if isinstance(s, ASeq): return ASeq(s.base, s.app + (v,))
    hi1 = iadd(s.hi, 1)
    nxt = None
    try:
        nxt = s.fam.get(s.hi)
    except Unsupported:
        nxt = None
    if s.bag is None and nxt is not None:
        if vsame(nxt, v): return Seq(s.fam, s.lo, hi1)
        fr = ctx.frontier.get(s.fam.key)
        if fr is not None and ctx.parent is None and vsame(fr, s.hi):
            c = val_eq(nxt, v)
            if c is not None:
                ctx.assume(c)
                ctx.frontier[s.fam.key] = hi1
                return Seq(s.fam, s.lo, hi1)
        if ctx.parent is None and any(vsame(f, hi1) for f in ctx.frontier.values()):
            c = val_eq(nxt, v)
            if c is not None and not T.free_loopvars(c) and ctx.known(c): return Seq(s.fam, s.lo, hi1)
    # general case: if-then-else family
    bag = None
    t = to_term(v)
    try:
        if t is not None or isinstance(v, Arr):
            bag = T.bag_add(seq_bag(I, s), bag_key(I, s, v))
    except (Unsupported, z3.Z3Exception, AttributeError, TypeError):
        bag = None
    if s.bag is not None:
        return Seq(T.uf_family(ctx.fname('ord'), s.fam.kind if s.fam.kind in T.FAM_SORT else 'real'), 0, iadd(s.length(), 1), bag)
    fam = s.fam
    ix = T.loopvar('ix!%d' % (ctx.depth + 3))
    n0 = zi(s.hi)
    if t is not None and fam.kind in ('int', 'real', 'bool', 'U'):
        o = to_term(fam.get(ix))
        if o.sort() != t.sort():
            if T.U in (o.sort(), t.sort()): raise Unsupported('mixed list')
            o, t = real(o), real(t)
        nf = T.derived_family(z3.If(ix == n0, t, o), ix)
        if not nf.params and not fam.params and nf is not fam and not T.free_loopvars(t) and not T.free_loopvars(n0): T.EXTENDS.setdefault(nf.key, (fam, n0, t))
    else:
        nf = T.obj_family(lambda i: merge_vals([(zi(i) == n0, v), (None, fam.get(i))]))
    return Seq(nf, s.lo, hi1, bag)

def vsame(a, b):
    if is_z3(a) or is_z3(b):
        ta, tb = to_term(a), to_term(b)
        if ta is None or tb is None: return False
        if ta.sort() != tb.sort(): return False
        return simp(ta).eq(simp(tb))
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.is_conc() and b.is_conc() and a.shape == b.shape and all(vsame(x, y) for x, y in zip(a.flat(), b.flat()))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(vsame(x, y) for x, y in zip(a, b))
    if isinstance(a, PList) and isinstance(b, PList) and type(a.seq) is Seq and type(b.seq) is Seq:
        return a.seq.fam is b.seq.fam and vsame(norm(a.seq.lo), norm(b.seq.lo)) and vsame(norm(a.seq.hi), norm(b.seq.hi))
    if isinstance(a, ExtObj) and isinstance(b, ExtObj): return a.term.eq(b.term)
    return type(a) is type(b) and isinstance(a, (int, Fraction, str, bool, type(None))) and a == b

def val_eq(a, b):
    """equality formula of two values, or None when not expressible"""
    ta, tb = to_term(a), to_term(b)
    if ta is not None and tb is not None:
        if ta.sort() != tb.sort():
            if T.U in (ta.sort(), tb.sort()): return None
            ta, tb = real(ta), real(tb)
        return ta == tb
    if isinstance(a, Arr) and isinstance(b, Arr) and a.is_conc() and b.is_conc() and a.shape == b.shape:
        cs = [val_eq(x, y) for x, y in zip(a.flat(), b.flat())]
        return None if any(c is None for c in cs) else z3.And(*cs) if cs else z3.BoolVal(True)
    if isinstance(a, ExtObj) and isinstance(b, ExtObj): return a.term == b.term
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        cs = [val_eq(x, y) for x, y in zip(a, b)]
        return None if any(c is None for c in cs) else z3.And(*cs) if cs else z3.BoolVal(True)
    return None

def list_append(I, l, v):
    if l.kind == 'deque' and l.maxlen is not None:
        n = l.length()
        if I.ctx.decide(compare(I, 'GtE', n, l.maxlen)):
            if I.ctx.decide(compare(I, 'LtE', l.maxlen, 0)): return
            list_pop(I, l, 0)
    if l.is_conc(): l.items.append(v)
    elif type(l.seq) is Seq and isinstance(l.seq.lo, int) and l.seq.lo == l.seq.hi and l.seq.bag is None: l.items, l.seq = [v], None
    else: l.seq = extend_seq(I, l.seq, v)

def list_extend(I, l, v):
    it = iterate(I, v)
    if isinstance(it, list):
        for x in it: list_append(I, l, x)
        return
    if l.is_conc() and len(l.items) == 0 and l.maxlen is None:
        l.set_seq(map_seq(I, it.n, lambda ix, sub: it.get(sub, ix)))
        return
    r = list_concat(I, PList(l.items, l.seq), v if isinstance(v, PList) else PList(seq=map_seq(I, it.n, lambda ix, sub: it.get(sub, ix))))
    l.items, l.seq = r.items, r.seq

def list_concat(I, a, b):
    if b.is_conc():
        r = PList(list(a.items) if a.is_conc() else None, a.seq)
        for x in b.items: list_append(I, r, x)
        return r
    if a.is_conc() and len(a.items) == 0: return PList(seq=b.seq)
    # family slices that are adjacent
    if not a.is_conc():
        sa, sb = a.seq, b.seq
        if sa.bag is None and sb.bag is None and sa.fam is sb.fam and I.ctx.known(zi(sa.hi) == zi(sb.lo)):
            return PList(seq=Seq(sa.fam, sa.lo, sb.hi))
        if I.ctx.known(zi(sa.length()) == 0): return PList(seq=sb)
        if I.ctx.known(zi(sb.length()) == 0): return PList(seq=sa)
    la = a.length()
    def at(ix, sub):
        if a.is_conc():
            old = merge_vals([(zi(ix) == j, x) for j, x in enumerate(a.items)])
        else: old = a.seq.get(ix)
        return merge_vals([(zi(ix) < zi(la), old), (None, b.seq.get(isub(ix, la)))])
    return PList(seq=map_seq(I, iadd(la, b.length()), at))

def norm_index(I, i, n, exc='IndexError'):
    """python index -> in-range index (or raises)"""
    if isinstance(i, bool): i = int(i)
    if isinstance(i, Arr): i = i.as_scalar()
    if isbool(i): i = num(i)
    if not isint(i):
        if isinstance(i, Fraction) or (is_z3(i) and i.sort() == T.R): raise err('TypeError', 'index must be integer')
        raise Unsupported('index %r' % (i,))
    if isinstance(i, int) and isinstance(n, int):
        if i < -n or i >= n: raise err(exc)
        return i + n if i < 0 else i
    if isinstance(i, int) and i < 0 or (not isinstance(i, int) and not I.ctx.known(zi(i) >= 0) and I.ctx.decide(simp(zi(i) < 0))):
        j = iadd(n, i)
        if not I.ctx.decide(simp(zi(j) >= 0)): raise err(exc)
        return j
    if not I.ctx.decide(simp(zi(i) < zi(n))): raise err(exc)
    return i

def slice_bounds(I, sl, n):
    if sl.c is not None and not (isinstance(sl.c, int) and sl.c == 1):
        return None
    def canon(j):
        # canonical form: equal bounds should look equal
        for c in (0, 1) if is_z3(j) else ():
            if I.ctx.known(j == c): return c
        return j
    def clampv(v, dflt):
        if v is None: return dflt
        v = num(v.as_scalar() if isinstance(v, Arr) else v)
        if not isint(v): raise err('TypeError', 'slice indices must be integers')
        if isinstance(v, int) and isinstance(n, int):
            if v < 0: v += n
            return min(max(v, 0), n)
        if isinstance(v, int) and v < 0 or (not isinstance(v, int) and I.ctx.decide(simp(v < 0))):
            j = iadd(n, v)
            return canon(j) if I.ctx.decide(simp(zi(j) >= 0)) else 0
        return canon(v) if I.ctx.decide(simp(zi(v) <= zi(n))) else n
    a, b = clampv(sl.a, 0), clampv(sl.b, n)
    if isinstance(a, int) and isinstance(b, int): return a, max(a, b)
    if not (isinstance(a, int) and a == 0) and not I.ctx.decide(simp(zi(a) <= zi(b))): b = a
    return a, b

def list_slice(I, l, sl):
    n = l.length()
    if l.is_conc() and all(x is None or isinstance(x, int) for x in (sl.a, sl.b, sl.c)):
        return PList(l.items[sl.a:sl.b:sl.c])
    if sl.c is not None and not (isinstance(sl.c, int) and sl.c == 1):
        if isinstance(sl.c, int) and sl.c == -1 and sl.a is None and sl.b is None and not l.is_conc():
            s = l.seq
            return PList(seq=map_seq(I, n, lambda ix, sub: s.get(isub(isub(n, 1), ix))))
        raise Unsupported('strided slice')
    a, b = slice_bounds(I, sl, n)
    if l.is_conc():
        # symbolic bounds on a concrete list: decide values
        a2 = concretise(I, a, 0, n); b2 = concretise(I, b, 0, n)
        return PList(l.items[a2:b2])
    return PList(seq=sub_seq(I, l.seq, a, b))

def concretise(I, v, lo, hi):
    if isinstance(v, int): return v
    for k in range(lo, hi):
        if I.ctx.decide(simp(v == k)): return k
    return hi

def sub_seq(I, s, a, b):
    if isinstance(s, (LoopSeq, ASeq)): raise Unsupported('slice of loop-carried list')
    n = s.length()
    bag = None
    if s.bag is not None:
        if vsame(a, 0) and vsame(b, n): bag = s.bag
        elif isinstance(a, int) and vsame(b, n) and a <= 3:
            bag = s.bag
            for j in range(a): bag = T.bag_add(bag, bag_key(I, s, s.get(j)), -1)
    return Seq(s.fam, iadd(s.lo, a), iadd(s.lo, b), bag)

def list_pop(I, l, i=-1):
    n = l.length()
    if l.is_conc():
        if not l.items: raise err('IndexError')
        if isinstance(i, int):
            if i < -len(l.items) or i >= len(l.items): raise err('IndexError')
            return l.items.pop(i)
        return l.items.pop(concretise(I, norm_index(I, i, n), 0, n - 1))
    if not I.ctx.decide(simp(zi(n) > 0)): raise err('IndexError')
    j = norm_index(I, i, n)
    v = l.seq.get(j)
    s = l.seq
    if vsame(j, 0): l.seq = sub_seq(I, s, 1, n)
    elif vsame(j, isub(n, 1)): l.seq = _drop_last(I, s)
    else: raise Unsupported('pop from the middle of a symbolic list')
    return v

def _drop_last(I, s):
    n = s.length()
    r = sub_seq(I, s, 0, isub(n, 1))
    if s.bag is not None: r.bag = T.bag_add(s.bag, bag_key(I, s, s.get(isub(n, 1))), -1)
    return r

def list_remove(I, l, x):
    if l.is_conc():
        for j, y in enumerate(l.items):
            if I.ctx.decide(truthterm(I, compare(I, 'Eq', y, x))):
                del l.items[j]
                return
        raise err('ValueError')
    s = l.seq
    b = seq_bag(I, s)
    k = bag_key(I, s, x)
    if not I.ctx.decide(simp(z3.Select(b, k) >= 1)): raise err('ValueError')
    # removing the provably first element keeps the order
    try:
        if s.bag is None and I.ctx.known(to_term(scal(s.get(0))) == k):
            l.seq = sub_seq(I, s, 1, s.length())
            return
    except (Unsupported, z3.Z3Exception, AttributeError): pass
    kind = s.fam.kind if s.fam.kind in T.FAM_SORT else 'real'
    l.seq = Seq(T.uf_family(I.ctx.fname('rem'), kind), 0, isub(s.length(), 1), T.bag_add(b, k, -1))

def scal(v):
    return v.as_scalar() if isinstance(v, Arr) else v

def sorted_seq(I, s):
    b = seq_bag(I, s)
    if b.sort() != T.BagR: raise Unsupported('sort of opaque values')
    fam = T.derived_family(T.NTHB(b, T.I0), T.I0)
    return Seq(fam, 0, s.length(), b)

def sort_items(I, items, key=None, reverse=False):
    out = []
    ks = [(I.call(key, [x], {}) if key is not None else x, x) for x in items]
    for k, x in ks:
        j = len(out)
        while j > 0:
            c = compare(I, 'Lt', k, out[j - 1][0]) if not reverse else compare(I, 'Gt', k, out[j - 1][0])
            if I.ctx.decide(truthterm(I, c)): j -= 1
            else: break
        out.insert(j, (k, x))
    return [x for _, x in out]

# ------------------------------------------------------------------ items
def keyterms(I, k, n=None):
    """numbers of a key as reals; with a width: length first, padded with zeros"""
    ks = k if isinstance(k, tuple) else (k,)
    ts = [to_term(num(scal(x))) for x in ks]
    if any(t is None or t.sort() not in (T.I, T.R) for t in ts): raise Unsupported('dict key')
    ts = [real(t) for t in ts]
    if n is not None:
        if len(ts) >= n: raise Unsupported('longer dictionary keys than assumed')
        ts = [z3.RealVal(len(ts))] + ts + [z3.RealVal(0)] * (n - 1 - len(ts))
    return tuple(ts)

def hkey(k):
    """hashable key for concrete dict keys"""
    if isinstance(k, tuple): return tuple(hkey(x) for x in k)
    if isinstance(k, Fraction) and k.denominator == 1: return int(k)
    return k
def unkey(k): return k
def conc_key(k):
    if isinstance(k, tuple): return all(conc_key(x) for x in k)
    return not is_z3(k) and not isinstance(k, HEAP)

def getitem(I, o, ix):
    if isinstance(o, PList):
        if isinstance(ix, Slice):
            if o.kind == 'deque': raise err('TypeError', 'deque slice')
            return list_slice(I, o, ix)
        n = o.length()
        j = norm_index(I, ix, n)
        if o.is_conc():
            if isinstance(j, int): return o.items[j]
            return merge_vals([(zi(j) == q, x) for q, x in enumerate(o.items)])
        return o.seq.get(j)
    if isinstance(o, tuple):
        if isinstance(ix, Slice): return tuple(list_slice(I, PList(list(o)), ix).items)
        j = norm_index(I, ix, len(o))
        if isinstance(j, int): return o[j]
        return merge_vals([(zi(j) == q, x) for q, x in enumerate(o)])
    if isinstance(o, PDict):
        if o.sym is not None:
            ks = keyterms(I, ix, o.sym.nkey)
            if not I.ctx.decide(simp(o.sym.has(ks))): raise err('KeyError')
            return o.sym.get(ks)
        k = hkey(ix)
        if conc_key(k):
            if k in o.items: return o.items[k]
            for q in o.items:
                if not conc_key(q): raise Unsupported('symbolic dict key')
            raise err('KeyError', ix)
        for q in o.items:
            if I.ctx.decide(py_eq(I, q, ix)): return o.items[q]
        raise err('KeyError', ix)
    if isinstance(o, Arr):
        from . import npsem
        return npsem.getitem(I, o, ix)
    if isinstance(o, str):
        if isinstance(ix, int): return o[ix]
        if isinstance(ix, Slice): return o[ix.a:ix.b:ix.c]
    if isinstance(o, PRange):
        n = range_len(I, o)
        if isinstance(ix, Slice): raise Unsupported('range slice')
        j = norm_index(I, ix, n)
        return s_add(o.a, s_mul(o.step, j))
    if isinstance(o, Obj):
        c, m = o.cls.lookup('__getitem__')
        if m: return I.call(m, [o, ix], {})
    if isinstance(o, ExtObj):
        return ext_pure(I, o.label + '[]', [o, ix if not isinstance(ix, Slice) else (ix.a, ix.b, ix.c)], {}, RET.get(o.label + '[]', 'obj'))
    if isu(o): raise Unsupported('index into an opaque value')
    if isinstance(o, (PClass, Ext, Builtin)): return o        # typing subscripts
    raise err('TypeError', 'not subscriptable: %s' % type(o).__name__)

def setitem(I, o, ix, v):
    if isinstance(o, PList):
        if isinstance(ix, Slice):
            if o.is_conc() and isinstance(v, PList) and v.is_conc() and all(x is None or isinstance(x, int) for x in (ix.a, ix.b, ix.c)):
                o.items[ix.a:ix.b:ix.c] = v.items
                return
            if ix.a is None and ix.b is None and isinstance(v, PList):
                o.items, o.seq = (None if v.items is None else list(v.items)), v.seq
                return
            raise Unsupported('slice assignment')
        j = norm_index(I, ix, o.length())
        if o.is_conc():
            if isinstance(j, int): o.items[j] = v
            else:
                for q in range(len(o.items)):
                    o.items[q] = merge_vals([(zi(j) == q, v), (None, o.items[q])])
            return
        s = o.seq
        fam = s.fam
        at = zi(iadd(s.lo, j))
        if isinstance(s, (LoopSeq, ASeq)): raise Unsupported('store into loop list')
        t = to_term(v)
        if t is not None and fam.kind != 'obj':
            ixv = T.loopvar('ix!%d' % (I.ctx.depth + 3))
            oo = to_term(fam.get(ixv))
            if oo.sort() != t.sort(): oo, t = real(oo), real(t)
            nf = T.derived_family(z3.If(ixv == at, t, oo), ixv)
        else:
            nf = T.obj_family(lambda i: merge_vals([(zi(i) == at, v), (None, fam.get(i))]))
        o.seq = Seq(nf, s.lo, s.hi)
        return
    if isinstance(o, PDict):
        if o.sym is not None:
            ks = keyterms(I, ix, o.sym.nkey)
            old = o.sym
            def eqk(q): return z3.And(*[a == b for a, b in zip(q, ks)])
            o.sym = SymMap(lambda q: simp(z3.Or(eqk(q), old.has(q))), lambda q: merge_vals([(simp(eqk(q)), v), (None, old.get(q))]), old.nkey)
            return
        k = hkey(ix)
        if conc_key(k) and all(conc_key(q) for q in o.items):
            o.items[k] = v
            return
        if isinstance(k, HEAP): raise err('TypeError', 'unhashable')
        # symbolic key: find an equal existing key
        for q in o.items:
            if I.ctx.decide(py_eq(I, q, ix)):
                o.items[q] = v
                return
        o.items[_zk(k)] = v
        return
    if isinstance(o, Arr):
        from . import npsem
        return npsem.setitem(I, o, ix, v)
    if isinstance(o, Obj):
        c, m = o.cls.lookup('__setitem__')
        if m: return I.call(m, [o, ix, v], {})
    if isinstance(o, tuple): raise err('TypeError', 'tuple assignment')
    raise Unsupported('item assignment on %s' % type(o).__name__)

def _zk(k): return k

def delitem(I, o, ix):
    if isinstance(o, PList):
        if isinstance(ix, Slice):
            n = o.length()
            if o.is_conc() and all(x is None or isinstance(x, int) for x in (ix.a, ix.b, ix.c)):
                del o.items[ix.a:ix.b:ix.c]
                return
            a, b = slice_bounds(I, ix, n)
            if o.is_conc(): raise Unsupported('del slice')
            if vsame(a, 0): o.seq = sub_seq(I, o.seq, b, n)
            elif vsame(b, n): o.seq = sub_seq(I, o.seq, 0, a)
            else: raise Unsupported('del slice')
            return
        list_pop(I, o, ix)
        return
    if isinstance(o, PDict) and o.sym is None:
        k = hkey(ix)
        if k not in o.items: raise err('KeyError')
        del o.items[k]
        return
    raise Unsupported('del item')

def arr_assign_all(I, a, v):
    from . import npsem
    npsem.assign_all(I, a, v)

# ------------------------------------------------------------------ iteration
def range_len(I, r):
    if all(isinstance(x, int) for x in (r.a, r.b, r.step)): return len(range(r.a, r.b, r.step))
    if r.step == 1:
        d = isub(r.b, r.a)
        if isinstance(d, int): return max(0, d)
        if I.ctx.known(d >= 0): return d
        return norm(simp(z3.If(d > 0, d, z3.IntVal(0))))
    if r.step == -1:
        d = isub(r.a, r.b)
        if I.ctx.known(zi(d) >= 0): return d
        return norm(simp(z3.If(d > 0, d, z3.IntVal(0))))
    raise Unsupported('symbolic range step')

def iterate(I, v):
    """-> python list of values, or SymIter"""
    if isinstance(v, SymIter): return v
    if isinstance(v, (list,)): return v
    if isinstance(v, tuple): return list(v)
    if isinstance(v, str): return list(v)
    if isinstance(v, PList):
        if v.is_conc(): return LiveList(v)
        s = v.seq
        n = s.length()
        return SymIter(n, lambda sub, i: s.get(i)) if not isinstance(n, int) or n > 64 else [s.get(j) for j in range(n)]
    if isinstance(v, PRange):
        n = range_len(I, v)
        if isinstance(n, int): return [s_add(v.a, v.step * j) for j in range(n)]
        return SymIter(n, lambda sub, i: s_add(v.a, s_mul(v.step, i)))
    if isinstance(v, PDict):
        if v.sym is None: return list(v.items)
        raise Unsupported('iteration over symbolic map')
    if isinstance(v, PSet):
        if v.items is not None: return list(v.items)
        raise Unsupported('iteration over symbolic set')
    if isinstance(v, Arr):
        from . import npsem
        if v.ndim == 0: raise err('TypeError', 'iteration over a 0-d array')
        n = v.shape[0]
        if isinstance(n, int): return [npsem.row(I, v, j) for j in range(n)]
        return SymIter(n, lambda sub, i: npsem.row(sub, v, i))
    if isinstance(v, Obj):
        c, m = v.cls.lookup('__iter__')
        if m: return iterate(I, I.call(m, [v], {}))
        c, m = v.cls.lookup('__getitem__')
        if m: raise Unsupported('old-style iteration')
        raise err('TypeError', 'not iterable')
    if isu(v) or isinstance(v, ExtObj): raise Unsupported('iteration over opaque value')
    raise err('TypeError', 'not iterable: %s' % type(v).__name__)

class LiveList(list):
    """iteration over a concrete list (snapshot; live growth during iteration is not modelled beyond python's own list)"""
    def __init__(self, pl):
        list.__init__(self, pl.items)

def set_len(I, s):
    if s.items is not None:
        out = []
        for x in s.items:
            if not any(I.ctx.decide(py_eq(I, x, y)) for y in out): out.append(x)
        return len(out)
    f = z3.Function('NDISTINCT', s.seq.bagterm().sort(), T.I)
    t = f(s.seq.bagterm())
    return t

# ------------------------------------------------------------------ deep equality as a formula
def deep_eq(I, a, b):
    """formula (with skolem indices, to be used in goal position) that two values are equal"""
    a, b = strip0(a), strip0(b)
    if isinstance(a, Frame) and isinstance(b, Frame): a, b = a.arr, b.arr
    if isinstance(a, Bag) and isinstance(b, Bag): return a.term == b.term
    if isinstance(a, Arr) and not isinstance(b, (Arr, PList, tuple)) and a.is_conc() and a.size() == 1: a = a.as_scalar()
    if isinstance(b, Arr) and not isinstance(a, (Arr, PList, tuple)) and b.is_conc() and b.size() == 1: b = b.as_scalar()
    if isnum(a) and isnum(b): return tob(s_eq(num(a), num(b)))
    if a is None or b is None:
        if isu(a) or isu(b): return reify(I, a) == reify(I, b)
        return z3.BoolVal(a is b)
    if isinstance(a, ExtObj) or isinstance(b, ExtObj):
        return reify(I, a) == reify(I, b)
    if isu(a) or isu(b):
        return reify(I, a) == reify(I, b)
    if isinstance(a, (PList, Arr, tuple)) and isinstance(b, (PList, Arr, tuple)):
        return seqlike_eq(I, a, b)
    if isinstance(a, PDict) and isinstance(b, PDict):
        if a.sym is None and b.sym is None:
            if set(map(str, a.items)) != set(map(str, b.items)): return z3.BoolVal(False)
            return z3.And(*([deep_eq(I, a.items[k], b.items[k]) for k in a.items] or [z3.BoolVal(True)]))
        return map_eq(I, a, b)
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a is b: return z3.BoolVal(True)
        if a.cls is not b.cls or set(a.f) != set(b.f): return z3.BoolVal(False)
        return z3.And(*([deep_eq(I, a.f[k], b.f[k]) for k in a.f] or [z3.BoolVal(True)]))
    if isinstance(a, PRange) and isinstance(b, PRange): return z3.And(tob(s_eq(a.a, b.a)), tob(s_eq(a.b, b.b)))
    if type(a) is type(b):
        if isinstance(a, (str, PClass, Ext, ExcClass, Closure, Builtin)): return z3.BoolVal(a is b or a == b)
        if isinstance(a, Bound): return z3.And(z3.BoolVal(a.fn is b.fn), deep_eq(I, a.self_, b.self_))
        if isinstance(a, Poison): raise Unsupported('poisoned value compared')
    return z3.BoolVal(False)

def strip0(v):
    if isinstance(v, Arr) and v.ndim == 0: return v.flat()[0] if v.is_conc() else v.getf(())
    return v

def tob(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c

def seqlike_eq(I, a, b):
    def view(v):
        if isinstance(v, tuple): return len(v), (lambda j: v[j]) , True
        if isinstance(v, PList):
            if v.is_conc(): return len(v.items), (lambda j: v.items[j]), True
            return v.length(), v.seq.get, False
        from . import npsem
        n = v.shape[0]
        return n, (lambda j: npsem.row(I, v, j)), isinstance(n, int)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim != b.ndim: return z3.BoolVal(False)
    if isinstance(a, PList) and isinstance(b, PList) and not a.is_conc() and not b.is_conc():
        sa, sb = a.seq, b.seq
        if sa.fam is sb.fam and vsame(sa.lo, sb.lo) and vsame(sa.hi, sb.hi): return z3.BoolVal(True)
    na, ga, ca = view(a)
    nb, gb, cb = view(b)
    if ca and cb:
        if na != nb: return z3.BoolVal(False)
        cs = [deep_eq(I, ga(j), gb(j)) for j in range(na)]
        return z3.And(*cs) if cs else z3.BoolVal(True)
    if ca or cb:
        n = na if ca else nb
        cs = [zi(na) == zi(nb)]
        for j in range(n): cs.append(deep_eq(I, ga(j), gb(j)))
        return z3.And(*cs)
    if isinstance(a, PList) and isinstance(b, PList):
        sa, sb = a.seq, b.seq
        if (sa.bag is not None and 'ord!' in sa.fam.key or 'rem!' in sa.fam.key) and sa.fam is not sb.fam: pass
    sk = I.ctx.fresh('sk', T.I)
    body = deep_eq(I, ga(sk), gb(sk))
    return z3.And(zi(na) == zi(nb), z3.Implies(z3.And(sk >= 0, sk < zi(na)), body))

def map_of(I, d, n):
    """functional view of a dictionary whose keys are encoded with width n"""
    if d.sym is not None:
        if d.sym.nkey != n: raise Unsupported('dictionaries of different key width')
        return d.sym
    items = [(keyterms(I, k, n), v) for k, v in d.items.items()]
    def has(q):
        return simp(z3.Or(*[z3.And(*[x == y for x, y in zip(k, q)]) for k, _ in items])) if items else z3.BoolVal(False)
    def get(q):
        return merge_vals([(z3.And(*[x == y for x, y in zip(k, q)]), v) for k, v in items]) if items else None
    return SymMap(has, get, n)
def map_width(*ds):
    for d in ds:
        if d.sym is not None: return d.sym.nkey
    ls = [len(k) if isinstance(k, tuple) else 1 for d in ds for k in d.items]
    return 1 + max(ls) if ls else 2
def map_eq(I, a, b):
    n = map_width(a, b)
    A, Bm = map_of(I, a, n), map_of(I, b, n)
    q = tuple(I.ctx.fresh('skk', T.R) for _ in range(n))
    ha, hb = tob(A.has(q)), tob(Bm.has(q))
    va, vb = A.get(q), Bm.get(q)
    ve = z3.BoolVal(True) if va is None or vb is None else deep_eq(I, va, vb)
    return z3.And(ha == hb, z3.Implies(ha, ve))

# ------------------------------------------------------------------ attributes of containers
def getattr(I, o, name):
    if isinstance(o, PList):
        f = LISTM.get(name)
        if f: return Builtin('list.' + name, lambda I2, a, k: f(I2, o, *a, **k))
        if name == 'maxlen': return o.maxlen
        if name in ('shape', 'reshape', 'ndim', 'dtype', 'tolist', 'item'): raise err('AttributeError', name)
    elif isinstance(o, PDict):
        f = DICTM.get(name)
        if f: return Builtin('dict.' + name, lambda I2, a, k: f(I2, o, *a, **k))
    elif isinstance(o, Arr):
        from . import npsem
        return npsem.arr_attr(I, o, name)
    elif isinstance(o, Frame):
        if name == 'to_numpy': return Builtin('frame.to_numpy', lambda I2, a, k: o.arr if not a and not k else (_ for _ in ()).throw(Unsupported('to_numpy arguments')))
        if name == 'values': return o.arr
        if name in ('shape', 'ndim'): return o.arr.shape if name == 'shape' else o.arr.ndim
    elif isinstance(o, str):
        f = STRM.get(name)
        if f: return Builtin('str.' + name, lambda I2, a, k: f(o, *a, **k))
    elif isinstance(o, PSet):
        if name == 'add':
            def add(I2, a, k):
                if o.items is None: raise Unsupported('set.add')
                o.items.append(a[0])
            return Builtin('set.add', add)
    elif isinstance(o, ExtObj):
        h = EXTATTR.get((o.label, name))
        if h: return h(I, o)
        return ExtMeth(o, name)
    elif isnum(o):
        if name == 'item': return Builtin('item', lambda I2, a, k: o)
        if name == 'ndim': return 0
        if name == 'shape': return ()
        if name == 'dtype': return Ext('numpy.float64')
        if name == 'astype': return Builtin('astype', lambda I2, a, k: o)
        if name == 'is_integer': return Builtin('is_integer', lambda I2, a, k: s_eq(z3.ToReal(z3.ToInt(real(o))), o))
        if name in ('real',): return o
        if name in ('mean', 'sum', 'min', 'max'): return Builtin(name, lambda I2, a, k: o)
        if name in ('reshape', 'flatten', 'ravel'):
            return Builtin(name, lambda I2, a, k: arr_of([o], 'f', (1, 1) if name == 'reshape' and len(a) == 2 else (1,)))
        raise err('AttributeError', 'number', name)
    elif isinstance(o, tuple):
        if name == 'index': return Builtin('tuple.index', lambda I2, a, k: next(j for j, x in enumerate(o) if I2.ctx.decide(py_eq(I2, x, a[0]))))
        if name == 'count': raise Unsupported('tuple.count')
        raise err('AttributeError', 'tuple', name)
    elif isu(o):
        h = UATTR.get(name)
        if h: return h(I, o)
        raise Unsupported('attribute %s of an opaque value' % name)
    elif isinstance(o, PyRaise):
        if name == 'args': return tuple(o.eargs)
    elif isinstance(o, (Closure, Builtin)):
        if name == '__name__': return o.name
    elif o is None:
        raise err('AttributeError', 'NoneType', name)
    elif isinstance(o, Bag):
        raise Unsupported('bag attribute')
    raise Unsupported('attribute %s of %s' % (name, type(o).__name__))

UATTR = {}
EXTATTR = {}
def ExtMeth(o, name):
    return ExtObj2(o, name)
class ExtObj2(ExtObj):
    """attribute of an external object: usable as value or as method"""
    def __init__(self, o, name):
        self.owner, self.name = o, name
        self.label = o.label + '.' + name
    @property
    def term(self):
        return z3.Function('attr:' + self.label, T.U, T.U)(self.owner.term)

def ext_attr(m, name):
    path = m.path + '.' + name
    if path in CONSTS: return CONSTS[path]
    return Ext(path)

CONSTS = {'math.inf': PINF, 'numpy.inf': PINF, 'numpy.Inf': PINF, 'math.nan': z3.Real('NAN'), 'numpy.nan': z3.Real('NAN'), 'numpy.newaxis': None,
          'math.pi': Fraction('3.141592653589793'), 'numpy.pi': Fraction('3.141592653589793')}

PURE_MODULES = ('numpy.', 'math.', 'scipy.', 'sklearn.metrics.', 'mmh3.', 'statistics.', 'operator.', 'pyod.models.combination.', 'statsmodels.')
IMPURE = ('numpy.random.', 'numpy.put', 'numpy.copyto', 'numpy.place', 'numpy.fill_diagonal', 'numpy.putmask')

def call_ext(I, fn, args, kw):
    f = EXT.get(fn.path)
    if f is not None:
        return f(I, *args, **kw)
    if fn.path.startswith(PURE_MODULES) and not fn.path.startswith(IMPURE):
        return ext_pure(I, fn.path, args, kw)
    raise Unsupported('external function %s' % fn.path)

# ------------------------------------------------------------------ list / dict methods
LISTM, DICTM, STRM = {}, {}, {}
def lm(n):
    def d(f): LISTM[n] = f; return f
    return d
lm('append')(lambda I, l, v: list_append(I, l, v))
lm('extend')(lambda I, l, v: list_extend(I, l, v))
lm('remove')(lambda I, l, v: list_remove(I, l, v))
@lm('pop')
def _(I, l, i=-1): return list_pop(I, l, i)
@lm('popleft')
def _(I, l): return list_pop(I, l, 0)
@lm('copy')
def _(I, l): return PList(list(l.items) if l.is_conc() else None, l.seq, l.kind, l.maxlen)
@lm('clear')
def _(I, l): l.items, l.seq = [], None
@lm('insert')
def _(I, l, i, v):
    if l.is_conc() and isinstance(i, int):
        l.items.insert(i, v)
        return
    n = l.length()
    if l.is_conc():
        j = concretise(I, i, 0, n)
        l.items.insert(j, v)
        return
    if I.ctx.known(zi(i) >= zi(n)): return list_append(I, l, v)
    s = l.seq
    if vsame(i, 0):
        r = list_concat(I, PList([v]), PList(seq=s))
        l.items, l.seq = r.items, r.seq
        if s.bag is not None: raise Unsupported('insert')
        return
    # order unspecified beyond multiset
    kind = s.fam.kind if s.fam.kind in T.FAM_SORT else 'real'
    l.seq = Seq(T.uf_family(I.ctx.fname('ord'), kind), 0, iadd(n, 1), T.bag_add(seq_bag(I, s), bag_key(I, s, v)))
@lm('appendleft')
def _(I, l, v):
    if l.maxlen is not None: raise Unsupported('appendleft on bounded deque')
    LISTM['insert'](I, l, 0, v)
@lm('reverse')
def _(I, l):
    r = list_slice(I, l, Slice(None, None, -1))
    l.items, l.seq = r.items, r.seq
@lm('sort')
def _(I, l, key=None, reverse=False):
    if l.is_conc(): l.items = sort_items(I, l.items, key, bool(reverse))
    else:
        if key is not None or reverse: raise Unsupported('sort key')
        l.seq = sorted_seq(I, l.seq)
@lm('index')
def _(I, l, x):
    if not l.is_conc(): raise Unsupported('list.index')
    for j, y in enumerate(l.items):
        if I.ctx.decide(py_eq(I, y, x)): return j
    raise err('ValueError')
@lm('count')
def _(I, l, x):
    if not l.is_conc(): return z3.Select(seq_bag(I, l.seq), bag_key(I, l.seq, x))
    r = 0
    for y in l.items: r = s_add(r, num(py_eq(I, y, x)))
    return r

def dm(n):
    def d(f): DICTM[n] = f; return f
    return d
@dm('get')
def _(I, d, k, default=None):
    if d.sym is not None:
        ks = keyterms(I, k, d.sym.nkey)
        if default is not None and to_term(default) is not None:
            try: return merge_vals([(tob(d.sym.has(ks)), d.sym.get(ks)), (None, default)])
            except Unsupported: pass
        if I.ctx.decide(tob(d.sym.has(ks))): return d.sym.get(ks)
        return default
    try:
        return getitem(I, d, k)
    except PyRaise as e:
        if e.cls.name == 'KeyError': return default
        raise
@dm('keys')
def _(I, d):
    if d.sym is not None: raise Unsupported('keys')
    return PList(list(d.items))
@dm('values')
def _(I, d):
    if d.sym is not None: raise Unsupported('values')
    return PList(list(d.items.values()))
@dm('items')
def _(I, d):
    if d.sym is not None: raise Unsupported('items')
    return PList([(k, v) for k, v in d.items.items()])
@dm('copy')
def _(I, d): return PDict(dict(d.items), d.sym)
@dm('clear')
def _(I, d): d.items, d.sym = {}, None
@dm('update')
def _(I, d, o=None, **kw):
    if o is not None:
        if o.sym is not None or d.sym is not None: raise Unsupported('dict.update')
        d.items.update(o.items)
    d.items.update(kw)
@dm('setdefault')
def _(I, d, k, v=None):
    if not I.ctx.decide(contains(I, d, k)): setitem(I, d, k, v)
    return getitem(I, d, k)
@dm('pop')
def _(I, d, k, *dflt):
    if d.sym is not None: raise Unsupported('dict.pop')
    kk = hkey(k)
    if kk in d.items: return d.items.pop(kk)
    if dflt: return dflt[0]
    raise err('KeyError')
STRM['join'] = lambda s, l: '<joined>'
STRM['format'] = lambda s, *a, **k: '<formatted>'
STRM['lower'] = lambda s: s.lower()
STRM['upper'] = lambda s: s.upper()
STRM['startswith'] = lambda s, p: s.startswith(p)
STRM['endswith'] = lambda s, p: s.endswith(p)
STRM['strip'] = lambda s: s.strip()

# ------------------------------------------------------------------ builtins
@builtin('len')
def _(I, a, k):
    v = a[0]
    if isinstance(v, Frame): v = v.arr
    if isinstance(v, PList): return v.length()
    if isinstance(v, (tuple, str)): return len(v)
    if isinstance(v, PDict):
        if v.sym is None:
            return len(v.items)
        raise Unsupported('len of map')
    if isinstance(v, PSet): return set_len(I, v)
    if isinstance(v, Arr):
        if v.ndim == 0: raise err('TypeError', 'len of 0-d')
        return v.shape[0]
    if isinstance(v, PRange): return range_len(I, v)
    if isinstance(v, Obj):
        c, m = v.cls.lookup('__len__')
        if m: return I.call(m, [v], {})
        raise err('TypeError', 'no len')
    if isu(v):
        raise Unsupported('len of opaque value')
    if isinstance(v, ExtObj): return ext_pure(I, 'len', [v], {}, 'int')
    raise err('TypeError', 'len of %s' % type(v).__name__)
@builtin('range')
def _(I, a, k):
    a = [num(scal(x)) for x in a]
    for x in a:
        if not isint(x): raise err('TypeError', 'range needs ints')
    if len(a) == 1: return PRange(0, a[0])
    if len(a) == 2: return PRange(a[0], a[1])
    return PRange(*a)
@builtin('enumerate')
def _(I, a, k):
    it = iterate(I, a[0])
    st = a[1] if len(a) > 1 else k.get('start', 0)
    if isinstance(it, list): return PList([(s_add(st, j), x) for j, x in enumerate(it)])
    return SymIter(it.n, lambda sub, i: (s_add(st, i), it.get(sub, i)))
@builtin('zip')
def _(I, a, k):
    its = [iterate(I, x) for x in a]
    if all(isinstance(x, list) for x in its): return PList([tuple(t) for t in zip(*its)])
    if any(isinstance(x, list) for x in its): raise Unsupported('zip of mixed lengths')
    n = its[0].n
    for o in its[1:]:
        if vsame(n, o.n): continue
        if I.ctx.decide(simp(zi(o.n) < zi(n))): n = o.n
    return SymIter(n, lambda sub, i: tuple(x.get(sub, i) for x in its))
@builtin('reversed')
def _(I, a, k):
    it = iterate(I, a[0])
    if isinstance(it, list): return PList(list(reversed(it)))
    return SymIter(it.n, lambda sub, i: it.get(sub, isub(isub(it.n, 1), i)))
@builtin('map')
def _(I, a, k):
    its = [iterate(I, x) for x in a[1:]]
    if all(isinstance(x, list) for x in its): return PList([I.call(a[0], list(t), {}) for t in zip(*its)])
    if len(its) == 1:
        it = its[0]
        return PList(seq=map_seq(I, it.n, lambda ix, sub: sub.call(a[0], [it.get(sub, ix)], {})))
    raise Unsupported('map')
@builtin('filter')
def _(I, a, k):
    it = iterate(I, a[1])
    if isinstance(it, list): return PList([x for x in it if I.truth(I.call(a[0], [x], {}) if a[0] is not None else x)])
    raise Unsupported('filter over a symbolic range')
def to_list(I, v):
    it = iterate(I, v)
    if isinstance(it, list): return PList(list(it))
    if isinstance(v, PList): return PList(seq=v.seq)
    if isinstance(v, Arr) and v.fam is not None: return PList(seq=v.fam)
    return PList(seq=map_seq(I, it.n, lambda ix, sub: it.get(sub, ix)))
@builtin('list')
def _(I, a, k):
    return to_list(I, a[0]) if a else PList([])
@builtin('iter')
def _(I, a, k): return to_list(I, a[0])
@builtin('next')
def _(I, a, k):
    l = a[0]
    if isinstance(l, PList):
        if not I.ctx.decide(s_lt0(l.length())):
            if len(a) > 1: return a[1]
            raise err('StopIteration')
        return list_pop(I, l, 0)
    raise Unsupported('next')
@builtin('tuple')
def _(I, a, k):
    if not a: return ()
    it = iterate(I, a[0])
    if isinstance(it, list): return tuple(it)
    return to_list(I, a[0])
@builtin('set')
def _(I, a, k):
    if not a: return PSet(items=[])
    l = to_list(I, a[0])
    return PSet(items=list(l.items)) if l.is_conc() else PSet(seq=l.seq)
BUILTINS['frozenset'] = Builtin('frozenset', BUILTINS['set'].fn)
@builtin('dict')
def _(I, a, k):
    d = PDict()
    if a:
        if isinstance(a[0], PDict): d.items, d.sym = dict(a[0].items), a[0].sym
        else:
            for x in iterate(I, a[0]):
                kk, v = I.unpack(x, 2)
                setitem(I, d, kk, v)
    d.items.update(k)
    return d
@builtin('sorted')
def _(I, a, k):
    l = to_list(I, a[0])
    key, rev = k.get('key'), k.get('reverse', False)
    if l.is_conc(): return PList(sort_items(I, l.items, key, bool(rev)))
    if key is not None: raise Unsupported('sorted key')
    s = sorted_seq(I, l.seq)
    if rev:
        n = s.length()
        return PList(seq=map_seq(I, n, lambda ix, sub: s.get(isub(isub(n, 1), ix))))
    return PList(seq=s)
def seq_sum(I, s):
    if s.bag is not None and s.bag.sort() == T.BagR: return T.SUMB(s.bag)
    fam = s.fam
    if fam.kind == 'obj':
        ix = T.loopvar('ix!%d' % (I.ctx.depth + 5))
        v = scal(fam.get(ix))
        t = to_term(v)
        if t is None: raise Unsupported('sum of non-numbers')
        fam = T.derived_family(to_term(num(t)), ix)
    if fam.kind == 'U':
        if I.ctx.known(zi(s.length()) <= 0): return 0
        raise Unsupported('sum of opaque values')
    ps = T.fam_ps(fam)
    return norm(simp(ps(zi(s.hi), *fam.params) - ps(zi(s.lo), *fam.params)))
@builtin('sum')
def _(I, a, k):
    st = a[1] if len(a) > 1 else k.get('start', 0)
    v = a[0]
    it = iterate(I, v)
    if isinstance(it, list):
        r = st
        for x in it: r = binop(I, 'Add', r, x)
        return r
    l = to_list(I, v) if not isinstance(v, SymIter) else PList(seq=map_seq(I, it.n, lambda ix, sub: it.get(sub, ix)))
    return s_add(st, seq_sum(I, l.seq))
def minmax(I, vals, op, key=None):
    best = None
    bk = None
    for x in vals:
        kx = I.call(key, [x], {}) if key is not None else x
        if best is None: best, bk = x, kx
        else:
            c = compare(I, op, kx, bk)
            c = truthterm(I, c)
            if key is None and isnum(x) and isnum(best) and not isinstance(c, bool):
                p, q = pair(x, best)
                best = bk = norm(simp(z3.If(c, p, q)))
            elif I.ctx.decide(c): best, bk = x, kx
    return best
def _mm(op, B):
    def f(I, a, k):
        if len(a) == 1:
            v = a[0]
            it = iterate(I, v)
            if isinstance(it, list):
                if not it:
                    if 'default' in k: return k['default']
                    raise err('ValueError', 'empty')
                return minmax(I, it, op, k.get('key'))
            if k.get('key') is not None: raise Unsupported('max key')
            l = to_list(I, v) if not isinstance(v, SymIter) else PList(seq=map_seq(I, it.n, lambda ix, sub: it.get(sub, ix)))
            if not I.ctx.decide(s_lt0(l.length())):
                if 'default' in k: return k['default']
                raise err('ValueError', 'empty')
            return B(seq_bagr(I, l.seq))
        return minmax(I, a, op, k.get('key'))
    return f
def seq_bagr(I, s):
    b = None
    if s.fam.kind == 'obj' and s.bag is None:
        ix = T.loopvar('ix!%d' % (I.ctx.depth + 5))
        t = to_term(scal(s.fam.get(ix)))
        if t is None: raise Unsupported('multiset of non-numbers')
        s = Seq(T.derived_family(real(t), ix), s.lo, s.hi)
    if s.fam.kind == 'int' and s.bag is None:
        ix = T.loopvar('ix!%d' % (I.ctx.depth + 5))
        s = Seq(T.derived_family(real(s.fam.get(ix)), ix), s.lo, s.hi)
    b = seq_bag(I, s)
    if b.sort() != T.BagR: raise Unsupported('order on opaque values')
    return b
BUILTINS['max'] = Builtin('max', _mm('Gt', T.MAXB))
BUILTINS['min'] = Builtin('min', _mm('Lt', T.MINB))
@builtin('abs')
def _(I, a, k):
    v = a[0]
    if isinstance(v, Arr):
        from . import npsem
        return npsem.elementwise(I, lambda x: s_abs(x), [v], 'abs')
    if isinstance(v, ExtObj): return ext_pure(I, 'op.abs', [v], {}, 'obj')
    if not isnum(v): raise err('TypeError', 'abs')
    return s_abs(v)
def toint(I, v):
    v = num(scal(v))
    if isinstance(v, int): return v
    if isinstance(v, Fraction): return int(v)
    if is_z3(v):
        if v.sort() == T.I: return v
        if v.sort() == T.R:
            return norm(simp(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))))
    if isinstance(v, str): return int(v)
    raise Unsupported('int() of %s' % type(v).__name__)
@builtin('int')
def _(I, a, k): return toint(I, a[0]) if a else 0
@builtin('float')
def _(I, a, k):
    if not a: return Fraction(0)
    v = num(scal(a[0]))
    if isinstance(v, str): return flt(float(v))
    if isconc_num(v): return Fraction(v)
    if is_z3(v) and v.sort() != T.U: return real(v)
    raise Unsupported('float()')
@builtin('bool')
def _(I, a, k): return truthterm(I, a[0]) if a else False
@builtin('str')
def _(I, a, k):
    v = a[0] if a else ''
    if isinstance(v, (int, str)): return str(v)
    if isint(v): return ExtObj(z3.Function('STR', T.I, T.U)(v), 'str')
    return '<str>'
BUILTINS['repr'] = BUILTINS['str']
@builtin('print')
def _(I, a, k): return None
@builtin('id')
def _(I, a, k): raise Unsupported('id')
@builtin('callable')
def _(I, a, k): return isinstance(a[0], (Closure, Bound, Builtin, PClass, Ext))
@builtin('round')
def _(I, a, k): return ext_pure(I, 'builtins.round', a, k)
@builtin('divmod')
def _(I, a, k): return (s_floordiv(I, *a), s_mod(I, *a))
@builtin('pow')
def _(I, a, k): return binop(I, 'Pow', a[0], a[1])
@builtin('all')
def _(I, a, k):
    it = iterate(I, a[0])
    if isinstance(it, list):
        r = True
        for x in it:
            r = land(r, truthterm(I, x))
            if r is False: return False
        return r
    raise Unsupported('all over a symbolic range')
@builtin('any')
def _(I, a, k):
    it = iterate(I, a[0])
    if isinstance(it, list):
        r = False
        for x in it: r = lor(r, truthterm(I, x))
        return r
    s = map_seq(I, it.n, lambda ix, sub: truthterm(sub, it.get(sub, ix)))
    ix = T.loopvar('ix!%d' % (I.ctx.depth + 5))
    t = to_term(s.fam.get(ix))
    fam = T.derived_family(z3.If(t, z3.IntVal(1), z3.IntVal(0)), ix)
    return simp(seq_sum(I, Seq(fam, s.lo, s.hi)) > 0)
def typename(v):
    if isinstance(v, bool) or (is_z3(v) and v.sort() == T.B): return 'bool'
    if isint(v): return 'int'
    if isnum(v): return 'float'
    if isinstance(v, PList): return v.kind
    return {str: 'str', tuple: 'tuple', PDict: 'dict', Arr: 'ndarray', PSet: 'set', type(None): 'NoneType'}.get(type(v))
def isinstance_(I, v, c):
    if isinstance(c, tuple):
        return any(isinstance_(I, v, x) for x in c)
    if isinstance(c, PClass): return isinstance(v, Obj) and (v.cls.issub(c) or (v.cls.spec and getattr2(v.cls, 'real', None) == c.qual))
    n = None
    if isinstance(c, Builtin): n = c.name
    if isinstance(c, Ext): n = c.path.split('.')[-1]
    if isinstance(c, ExcClass): return isinstance(v, PyRaise) and v.cls.sub(c)
    tn = typename(v)
    if tn is None:
        if isinstance(v, Obj): return n == 'object'
        if isu(v):
            if n in ('tuple', 'list', 'str', 'dict', 'DataFrame', 'Series'): return False
            raise Unsupported('isinstance of opaque value')
        if isinstance(v, ExtObj): raise Unsupported('isinstance of external object')
        return False
    if n == tn: return True
    if n in ('object', 'Any'): return True
    if tn == 'bool' and n in ('int', 'Integral', 'Number', 'bool_'): return True
    if tn == 'int' and n in ('integer', 'int32', 'int64', 'Number', 'Integral', 'Real'): return n in ('Number', 'Integral', 'Real')
    if tn == 'float' and n in ('floating', 'float64', 'Number', 'Real'): return n in ('Number', 'Real', 'floating', 'float64')
    if n in ('Sequence', 'Iterable', 'Sized', 'Collection'): return tn in ('list', 'tuple', 'str', 'deque', 'ndarray') and not (n == 'Sequence' and tn == 'ndarray')
    return False
getattr2 = __builtins__['getattr'] if isinstance(__builtins__, dict) else __builtins__.getattr
@builtin('isinstance')
def _(I, a, k): return isinstance_(I, a[0], a[1])
@builtin('issubclass')
def _(I, a, k): return isinstance(a[0], PClass) and isinstance(a[1], PClass) and a[0].issub(a[1])
@builtin('type')
def _(I, a, k):
    if len(a) != 1: raise Unsupported('type()')
    v = a[0]
    if isinstance(v, Obj): return v.cls
    n = typename(v)
    if n in BUILTINS: return BUILTINS[n]
    raise Unsupported('type()')
@builtin('hasattr')
def _(I, a, k):
    v, n = a
    if isinstance(v, Frame): raise Unsupported('hasattr of a frame')
    if isnum(v):
        # scalars returned by numpy code have .item(); python floats do not.  Either answer is explored.
        if n == 'item': return I.ctx.choose(2) == 0
        return n in ('real', 'imag')
    if isinstance(v, Arr): return n in ('item', 'shape', 'ndim', 'dtype', 'reshape', 'tolist', 'flatten', 'ravel', 'size', 'T', '__len__', '__array__', '__getitem__')
    if isinstance(v, PList): return n in LISTM or n in ('__len__', '__iter__', '__getitem__')
    if isinstance(v, tuple): return n in ('index', 'count', '__len__', '__iter__', '__getitem__')
    if v is None or isinstance(v, str): return False
    try:
        I.getattr(v, n)
        return True
    except PyRaise as e:
        if e.cls.name == 'AttributeError': return False
        raise
@builtin('getattr')
def _(I, a, k):
    try:
        return I.getattr(a[0], a[1])
    except PyRaise as e:
        if e.cls.name == 'AttributeError' and len(a) > 2: return a[2]
        raise
@builtin('setattr')
def _(I, a, k): I.setattr(*a)
@builtin('vars')
def _(I, a, k): return PDict(a[0].f)
@builtin('super')
def _(I, a, k):
    if len(a) == 2: return Super(a[0], a[1])
    raise Unsupported('super')
@builtin('slice')
def _(I, a, k): return Slice(*( [None, a[0], None] if len(a) == 1 else list(a) + [None] * (3 - len(a))))
for _n in ('object', 'bytes', 'complex', 'property', 'staticmethod', 'classmethod', 'NotImplemented', 'input', 'open', 'globals', 'locals'):
    BUILTINS.setdefault(_n, Builtin(_n, lambda I, a, k, _n=_n: (_ for _ in ()).throw(Unsupported('builtin ' + _n))))

# ------------------------------------------------------------------ stdlib externals
@ext('collections.deque')
def _(I, it=None, maxlen=None):
    l = PList([], kind='deque', maxlen=maxlen)
    if it is not None: list_extend(I, l, it)
    return l
@ext('collections.OrderedDict')
def _(I, *a, **k): return BUILTINS['dict'].fn(I, list(a), k)
@ext('copy.copy', 'copy.deepcopy')
def _(I, v, memo=None):
    from .loops import clone_val
    if isinstance(v, (Obj, PList, PDict, Arr)):
        m = {}
        r = clone_val(v, m)
        if isinstance(r, Arr) and r.pos is not None:
            r = arr_of(r.flat(), r.dtype, r.shape)
        return r
    if isinstance(v, tuple): return clone_val(v, {})
    return v
@ext('heapq.heappush')
def _(I, l, x):
    x = scal(x)
    if l.is_conc():
        items = l.items
        items.append(x)
        pos = len(items) - 1
        while pos > 0:
            par = (pos - 1) >> 1
            if I.ctx.decide(truthterm(I, compare(I, 'Lt', x, items[par]))):
                items[pos] = items[par]
                pos = par
            else: break
        items[pos] = x
        return
    s = l.seq
    b = T.bag_add(seq_bagr(I, s), real(x))
    l.seq = Seq(T.uf_family(I.ctx.fname('heap'), 'real'), 0, iadd(s.length(), 1), b)
@ext('heapq.heapify')
def _(I, l):
    if l.is_conc():
        l.items = sort_items(I, l.items)
        return
    s = l.seq
    b = seq_bagr(I, s)
    fam = T.uf_family(I.ctx.fname('heap'), 'real')
    I.ctx.assume(z3.Implies(zi(s.length()) > 0, fam.get(0) == T.MINB(b)))
    l.seq = Seq(fam, 0, s.length(), b)
@ext('heapq.heappop')
def _(I, l):
    if l.is_conc():
        if not l.items: raise err('IndexError')
        m = minmax(I, l.items, 'Lt')
        list_remove(I, l, m)
        return m
    s = l.seq
    if not I.ctx.decide(simp(zi(s.length()) > 0)): raise err('IndexError')
    b = seq_bagr(I, s)
    m = T.MINB(b)
    l.seq = Seq(T.uf_family(I.ctx.fname('heap'), 'real'), 0, isub(s.length(), 1), T.bag_add(b, m, -1))
    return m
@ext('bisect.insort', 'bisect.insort_right', 'bisect.insort_left')
def _(I, l, x):
    x = scal(x)
    if l.is_conc():
        l.items = sort_items(I, l.items + [x])
        return
    s = l.seq
    b = T.bag_add(seq_bagr(I, s), real(x))
    # the list is assumed sorted by the caller (bisect's own precondition): checked
    if not vsame(s.fam.get(s.lo), T.NTHB(s.bagterm(), zi(s.lo))) : raise Unsupported('insort into a list not known to be sorted')
    l.seq = sorted_seq(I, Seq(T.uf_family(I.ctx.fname('srt'), 'real'), 0, iadd(s.length(), 1), b))
@ext('math.sqrt')
def _(I, x):
    x = scal(x)
    if not I.ctx.decide(compare(I, 'GtE', x, 0)): raise err('ValueError', 'math domain error')
    return sqrt(I, x)
@ext('math.floor')
def _(I, x):
    x = num(scal(x))
    if isconc_num(x): return math.floor(x)
    return norm(simp(z3.ToInt(real(x))))
@ext('math.ceil')
def _(I, x):
    x = num(scal(x))
    if isconc_num(x): return math.ceil(x)
    return norm(simp(-z3.ToInt(-real(x))))
@ext('math.fabs')
def _(I, x): return s_abs(real(scal(x)))
@ext('math.pow')
def _(I, a, b): return s_pow(I, scal(a), scal(b))
@ext('math.fsum')
def _(I, x): return BUILTINS['sum'].fn(I, [x], {})
@ext('math.isinf')
def _(I, x): return simp(z3.Or(real(scal(x)) == PINF, real(scal(x)) == NEGINF)) if is_z3(scal(x)) else False
@ext('math.isnan')
def _(I, x): return False
@ext('math.isfinite')
def _(I, x): return lnot(EXT['math.isinf'](I, x))
def phi(I, z):
    """standard normal distribution function"""
    I.eng.assumed['math.erf/erfc, scipy.stats.norm.cdf/sf'] = 'erfc(x) = 2 - 2 PHI(x sqrt 2) for one function PHI that is strictly between 0 and 1, increasing, with PHI(-z) = 1 - PHI(z)'
    return T.PHI(simp(real(scal(z))))
@ext('math.erfc', 'scipy.special.erfc')
def _(I, x): return s_sub(2, s_mul(2, phi(I, s_mul(scal(x), sqrt(I, 2)))))
@ext('math.erf', 'scipy.special.erf')
def _(I, x): return s_sub(s_mul(2, phi(I, s_mul(scal(x), sqrt(I, 2)))), 1)
def _zarg(I, x, loc, scale): return s_div(I, s_sub(scal(x), scal(loc)), scal(scale)) if not (isconc_num(loc) and loc == 0 and isconc_num(scale) and scale == 1) else scal(x)
@ext('scipy.stats.norm.cdf')
def _(I, x, loc=0, scale=1): return phi(I, _zarg(I, x, loc, scale))
@ext('scipy.stats.norm.sf')
def _(I, x, loc=0, scale=1): return s_sub(1, phi(I, _zarg(I, x, loc, scale)))
@ext('itertools.islice')
def _(I, l, *a):
    l = to_list(I, l)
    sl = Slice(None, a[0], None) if len(a) == 1 else Slice(*a, *([None] * (3 - len(a))))
    return list_slice(I, l, sl)
@ext('itertools.chain')
def _(I, *ls):
    r = PList([])
    for l in ls: list_extend(I, r, l)
    return r
@ext('functools.reduce')
def _(I, f, l, *init):
    it = iterate(I, l)
    if not isinstance(it, list): raise Unsupported('reduce over symbolic')
    it = list(it)
    r = init[0] if init else it.pop(0)
    for x in it: r = I.call(f, [r, x], {})
    return r
@ext('operator.add')
def _(I, a, b): return binop(I, 'Add', a, b)
@ext('abc.abstractmethod')
def _(I, f): return f
for _p in ('warnings.warn', 'warnings.filterwarnings', 'warnings.simplefilter', 'warnings.catch_warnings', 'numpy.errstate', 'numpy.seterr', 'logging.getLogger', 'gc.collect', 'numpy.random.seed', 'random.seed'):
    EXT[_p] = lambda I, *a, **k: None
