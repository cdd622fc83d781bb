"""Logical layer: sorts, sequence families, theory instances, validity queries (z3, cvc5)."""
import os, time, hashlib, collections
from fractions import Fraction
import z3

U = z3.DeclareSort('U')
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
BagR = z3.ArraySort(R, I)
BagU = z3.ArraySort(U, I)
NEGINF = z3.Real('NEGINF')
PINF = z3.Real('PINF')
MOD = z3.Function('MOD', I, I, I)
DIV = z3.Function('DIV', I, I, I)
SQRT = z3.Function('SQRT', R, R)
PHI = z3.Function('PHI', R, R)
SUMB = z3.Function('SUMB', BagR, R)
SQB = z3.Function('SQB', BagR, R)
SIZEB = z3.Function('SIZEB', BagR, I)
SIZEBU = z3.Function('SIZEBU', BagU, I)
MAXB = z3.Function('MAXB', BagR, R)
MINB = z3.Function('MINB', BagR, R)
NTHB = z3.Function('NTHB', BagR, I, R)
NONE_U = z3.Const('None_', U)
INT2U = z3.Function('INT2U', I, U)
REAL2U = z3.Function('REAL2U', R, U)
I0 = z3.Int('i0!')          # canonical index variable of derived families
ELEMCNT = z3.Function('ELEMCNT', BagU, I)

EMPTYR = z3.K(R, z3.IntVal(0))
EMPTYU = z3.K(U, z3.IntVal(0))

_cnt = [0]
def fresh_name(base):
    _cnt[0] += 1
    return '%s!%d' % (base, _cnt[0])

def fresh(base, sort):
    return z3.Const(fresh_name(base), sort)

def is_z3(v):
    return isinstance(v, z3.ExprRef)

def reset():
    """Forget every registered family/UF (one verification unit is done)."""
    PS_FAM.clear(); BSL_FAM.clear(); SEQ_FAM.clear(); FAMS.clear(); REC.clear(); FINITE.clear(); SKOL.clear(); UFAX.clear()
    _INST.clear(); _feas_cache.clear(); _SIMPCACHE.clear(); DERIVED.clear(); EXTENDS.clear(); _PURE.clear(); _SYMS.clear()

PS_FAM, BSL_FAM, SEQ_FAM, FAMS, REC, FINITE, SKOL, UFAX = {}, {}, {}, {}, {}, {}, {}, {}
_feas_cache = {}
_SIMPCACHE = {}

class Fam:
    """An infinite sequence Int -> value.  Symbolic lists are (Fam, lo, hi)."""
    __slots__ = ('key', 'kind', 'getf', 'ps', 'bsl', 'seq', 'params', 'body')
    def __init__(self, key, kind, getf, params=(), body=None):
        self.key, self.kind, self.getf, self.params, self.body = key, kind, getf, tuple(params), body
        self.ps = self.bsl = self.seq = None
    def get(self, i):
        return self.getf(i)
    def inst(self, i, ps):
        if not self.params:
            return self.get(i)
        return z3.substitute(self.body, (I0, _iz(i)), *list(zip(self.params, ps)))
    def __repr__(self):
        return 'Fam<%s>' % (self.key,)
    def __deepcopy__(self, memo):
        return self

def simp(t):
    if not is_z3(t):
        return t
    k = t.get_id()
    r = _SIMPCACHE.get(k)
    if r is None:
        r = z3.simplify(t, som=False)
        _SIMPCACHE[k] = r
        _SIMPCACHE[('keep', k)] = t
    return r

def uf_family(name, kind, finite=True):
    """Family given by fresh uninterpreted functions; kind: int real bool U or ('vec', d)"""
    if kind in FAM_SORT:
        f = z3.Function(name, I, FAM_SORT[kind])
        if kind == 'real' and finite:
            FINITE[name] = f
        fam = Fam(name, kind, lambda i: f(_iz(i)))
    elif isinstance(kind, tuple) and kind[0] == 'mk':
        fam = Fam(name, 'obj', kind[1])
    else:
        raise ValueError(kind)
    FAMS[name] = fam
    return fam

FAM_SORT = {'int': I, 'real': R, 'bool': B, 'U': U, 'bagr': BagR}

def _iz(i):
    return z3.IntVal(i) if isinstance(i, int) else i

LOOPVARS = {}
def loopvar(name, sort=I):
    v = LOOPVARS.get((name, sort))
    if v is None:
        v = z3.Const(name, sort)
        LOOPVARS[(name, sort)] = v
        LOOPVARS[('id', v.get_id())] = v
    return v

def free_loopvars(t):
    out, seen, stack = {}, set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and ('id', x.get_id()) in LOOPVARS:
                out[x.get_id()] = x
            stack += x.children()
    return [out[k] for k in sorted(out, key=lambda k: str(out[k]))]

def mentions(t, syms):
    ids = {s.get_id() for s in syms}
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ids:
            return True
        if z3.is_app(x):
            stack += x.children()
    return False

def derived_family(body, ix):
    """Hash-consed family given by a z3 term over the index constant ix."""
    t = simp(z3.substitute(body, (ix, I0)))
    key = 'D:' + t.sexpr()
    fam = FAMS.get(key)
    if fam is not None:
        return fam
    s = t.sort()
    if z3.is_app(t) and t.num_args() == 1 and t.arg(0).eq(I0) and t.decl().name() in FAMS:
        return FAMS[t.decl().name()]
    kind = 'int' if s == I else 'real' if s == R else 'bool' if s == B else 'U' if s == U else 'other'
    if kind in ('int', 'real', 'bool') and '(ite ' in key:
        # the same function written differently (order of case distinctions): one family
        sy = syms_of(t)
        for t2, f2 in DERIVED:
            if t2.sort() == s and syms_of(t2) == sy:
                sv = z3.SolverFor('QF_UFLIRA'); sv.set('timeout', 300)
                sv.add(t2 != t)
                if sv.check() == z3.unsat:
                    FAMS[key] = f2
                    return f2
    fam = Fam(key, kind, lambda i, t=t: _nrm(z3.substitute(t, (I0, _iz(i)))), free_loopvars(t), t)
    FAMS[key] = fam
    if '(ite ' in key: DERIVED.append((t, fam))
    return fam

DERIVED = []
EXTENDS = {}     # family key -> (family f, position n, value v): this family is f with v at position n
_SYMS = {}
def syms_of(t):
    r = _SYMS.get(t.get_id())
    if r is None:
        out, seen, st = set(), set(), [t]
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
                st += x.children()
        r = _SYMS[t.get_id()] = (frozenset(out), t)
    return r[0]

def _nrm(t):
    return t

def obj_family(getter):
    return Fam(fresh_name('objfam'), 'obj', getter)

def to_term(v):
    """scalar value -> z3 term (or None)"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if is_z3(v):
        return v
    return None

def real(v):
    t = to_term(v)
    if t is None:
        raise TypeError('not a scalar: %r' % (v,))
    if t.sort() == B:
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    if t.sort() == I:
        return z3.ToReal(t) if not z3.is_int_value(t) else z3.RealVal(t.as_long())
    return t

def fam_ps(fam):
    if fam.ps is None:
        s = I if fam.kind in ('int', 'bool') else R
        name = 'PS<%s>' % hashlib.md5(fam.key.encode()).hexdigest()[:10]
        fam.ps = z3.Function(name, I, *([p.sort() for p in fam.params] + [s]))
        PS_FAM[name] = fam
    return fam.ps

def fam_elem_num(fam, i, ps=()):
    v = to_term(scalar_of(fam.inst(i, ps)))
    if v.sort() == B:
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v

def scalar_of(v):
    f = getattr(v, 'as_scalar', None)
    return f() if f else v

def fam_bsl(fam):
    if fam.bsl is None:
        name = 'BSL<%s>' % hashlib.md5(fam.key.encode()).hexdigest()[:10]
        fam.bsl = z3.Function(name, I, I, *([p.sort() for p in fam.params] + [BagU if fam.kind == 'U' else BagR]))
        BSL_FAM[name] = fam
    return fam.bsl

def ident_of(t):
    """the identity (sort U) of a scalar, as reified in argument lists"""
    if t.sort() == U: return t
    if t.sort() == B: return z3.If(t, z3.Const('c:True', U), z3.Const('c:False', U))
    return REAL2U(simp(real(t)))
def fam_seq(fam):
    if fam.seq is None:
        name = 'SEQ<%s>' % hashlib.md5(fam.key.encode()).hexdigest()[:10]
        fam.seq = z3.Function(name, I, I, *([p.sort() for p in fam.params] + [U]))
        SEQ_FAM[name] = fam
    return fam.seq

def args_from(app, k):
    return [app.arg(i) for i in range(k, app.num_args())]

def bag_elem(fam, i, ps=()):
    v = to_term(scalar_of(fam.inst(i, ps)))
    if fam.kind == 'U' or v.sort() == U:
        return v
    return real(v)

# ---------------------------------------------------------------- theory instances
def collect(fs, table, seen):
    """apps by decl name for every app of a known theory symbol"""
    stack = list(fs)
    while stack:
        t = stack.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen[k] = t
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            n = t.num_args()
            if n == 0:
                if t.eq(NEGINF) or t.eq(PINF):
                    table.setdefault('INF', {})[k] = t
                continue
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                table.setdefault(d.name(), {})[k] = t
            for i in range(n):
                stack.append(t.arg(i))

def is_bag_delta(b):
    """Store(b0, x, b0[x] + d) -> (b0, x, d)"""
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_STORE:
        b0, x, v = b.arg(0), b.arg(1), b.arg(2)
        sel = z3.Select(b0, x)
        for d in (1, -1):
            if v.eq(sel + d) or z3.simplify(v - sel - d).eq(z3.IntVal(0)):
                return b0, x, d
    return None

def bag_add(b, x, d=1):
    r = is_bag_delta(b)
    if r is not None and r[2] == -d and r[1].eq(x):
        return r[0]
    return z3.Store(b, x, z3.Select(b, x) + d)

class Inst:
    """Incremental theory instantiation over a set of formulas."""
    def __init__(self):
        self.seen, self.table, self.done, self.axioms = {}, {}, set(), []
    def copy(self):
        n = Inst()
        n.seen, n.table, n.done, n.axioms = dict(self.seen), {k: dict(v) for k, v in self.table.items()}, set(self.done), list(self.axioms)
        return n
    def feed(self, fs, rounds=4):
        new = list(fs)
        out = []
        for _ in range(rounds):
            collect(new, self.table, self.seen)
            new = self._instances()
            out += new
            if not new:
                break
        self.axioms += out
        return out
    def _instances(self):
        T, out, done = self.table, [], self.done
        def once(*k):
            if k in done:
                return False
            done.add(k)
            return True
        A, O, N, Im = z3.And, z3.Or, z3.Not, z3.Implies
        for name in list(T):
            apps = list(T[name].values())
            if name in PS_FAM:
                fam = PS_FAM[name]
                ps = fam.ps
                for a in apps:
                    pa = args_from(a, 1)
                    ex = EXTENDS.get(fam.key)
                    if ex is not None and ex[0].kind == fam.kind and once('psx', a.get_id()):
                        f0, n0, v0 = ex
                        p0 = fam_ps(f0)
                        out.append(Im(A(n0 >= 0, a.arg(0) <= n0), a == p0(a.arg(0))))
                        out.append(Im(A(n0 >= 0, a.arg(0) == n0 + 1), a == p0(n0) + (z3.If(v0, 1, 0) if v0.sort() == B else v0)))
                    if once('ps0', a.get_id()):
                        out.append(ps(z3.IntVal(0), *pa) == 0)
                    for b in apps:
                        if a is not b and once('ps', a.get_id(), b.get_id()):
                            pb = args_from(b, 1)
                            same = A(*[x == y for x, y in zip(pa, pb)]) if pa else z3.BoolVal(True)
                            d = simp(b.arg(0) - a.arg(0))
                            if z3.is_int_value(d):
                                dv = d.as_long()
                                if 0 < dv <= 6:
                                    t = a
                                    for j in range(dv):
                                        t = t + fam_elem_num(fam, simp(a.arg(0) + j), pa)
                                    out.append(Im(same, b == t))
                                continue
                            out.append(Im(A(same, b.arg(0) == a.arg(0) + 1), b == a + fam_elem_num(fam, a.arg(0), pa)))
            elif name in BSL_FAM:
                fam = BSL_FAM[name]
                isU = fam.kind == 'U'
                for a in apps:
                    lo, hi = a.arg(0), a.arg(1)
                    pa = args_from(a, 2)
                    el = lambda i: bag_elem(fam, i, pa)
                    ex = EXTENDS.get(fam.key)
                    if ex is not None and ex[0].kind == fam.kind and once('bsx', a.get_id()):
                        f0, n0, v0 = ex
                        b0 = fam_bsl(f0)
                        out.append(Im(A(lo <= n0, hi == n0 + 1), a == bag_add(b0(lo, n0), v0 if isU else real(v0))))
                        out.append(Im(hi <= n0, a == b0(lo, hi)))
                    if once('bs1', a.get_id()):
                        E_ = EMPTYU if isU else EMPTYR
                        out.append(Im(lo >= hi, a == E_))
                        out.append(Im(hi == lo + 1, a == bag_add(E_, el(lo))))
                        out.append(Im(lo < hi, z3.Select(a, el(lo)) >= 1))
                        out.append(Im(lo < hi, z3.Select(a, el(simp(hi - 1))) >= 1))
                        out.append((SIZEBU if isU else SIZEB)(a) == z3.If(hi > lo, hi - lo, 0))
                        if fam.kind == 'real':
                            ps = fam_ps(fam)
                            out.append(Im(lo <= hi, SUMB(a) == ps(hi, *pa) - ps(lo, *pa)))
                    for b in apps:
                        if a is b or not once('bs2', a.get_id(), b.get_id()):
                            continue
                        lo2, hi2 = b.arg(0), b.arg(1)
                        same = A(*[x == y for x, y in zip(pa, args_from(b, 2))]) if pa else z3.BoolVal(True)
                        out.append(Im(A(same, lo == lo2, hi2 == hi + 1, lo <= hi), b == bag_add(a, el(hi))))
                        out.append(Im(A(same, hi == hi2, lo2 == lo + 1, lo < hi), a == bag_add(b, el(lo))))
                        out.append(Im(A(same, lo2 == lo + 1, hi2 == hi + 1, lo < hi),
                                      b == bag_add(bag_add(a, el(hi)), el(lo), -1)))
            elif name in SEQ_FAM:
                fam = SEQ_FAM[name]
                for a in apps:
                    for name2 in ('TUP1', 'TUP2', 'TUP3', 'TUP4'):
                        for b in list(T.get(name2, {}).values()):
                            if fam.kind == 'obj' or not once('seqtup', a.get_id(), b.get_id()): continue
                            lo, hi = a.arg(0), a.arg(1)
                            es = [ident_of(to_term(scalar_of(fam.inst(simp(lo + j), args_from(a, 2))))) for j in range(b.num_args())]
                            out.append(O(a == b, hi - lo != b.num_args(), *[e != b.arg(j) for j, e in enumerate(es)]))
                    for name2 in list(T):
                        if name2 not in SEQ_FAM:
                            continue
                        fam2 = SEQ_FAM[name2]
                        for b in list(T[name2].values()):
                            if a.get_id() >= b.get_id() or not once('seq', a.get_id(), b.get_id()):
                                continue
                            if fam.kind != fam2.kind or fam.kind == 'obj':
                                continue
                            lo, hi, lo2, hi2 = a.arg(0), a.arg(1), b.arg(0), b.arg(1)
                            sk = z3.Int('sk!%d!%d' % (a.get_id(), b.get_id()))
                            out.append(O(a == b, hi - lo != hi2 - lo2,
                                         A(sk >= 0, sk < hi - lo,
                                           to_term(fam.inst(lo + sk, args_from(a, 2))) != to_term(fam2.inst(lo2 + sk, args_from(b, 2))))))
            elif name == 'MOD' or name == 'DIV':
                for a in apps:
                    x, d = a.arg(0), a.arg(1)
                    if once('md', x.get_id(), d.get_id()):
                        m, q = MOD(x, d), DIV(x, d)
                        out.append(Im(d > 0, A(m >= 0, m < d)))
                        out.append(Im(A(d > 0, x >= 0), A(q >= 0, m <= x, q <= x)))
                        out.append(Im(A(x >= 0, x < d), A(m == x, q == 0)))
                        out.append(Im(A(d > 0, x >= d, x < 2 * d), A(m == x - d, q == 1)))
                        out.append(Im(d == 1, A(m == 0, q == x)))
                        out.append(Im(A(d > 0, x >= d), A(q >= 1, x - m >= d)))
                        if z3.is_int_value(d):
                            out.append(x == d * q + m)
                    for b in apps:
                        x2, d2 = b.arg(0), b.arg(1)
                        if a is b or not once('md2', x.get_id(), d.get_id(), x2.get_id(), d2.get_id()):
                            continue
                        if not d.eq(d2):
                            continue
                        m, q, m2, q2 = MOD(x, d), DIV(x, d), MOD(x2, d), DIV(x2, d)
                        out.append(Im(A(d > 0, x2 == x + 1),
                                      z3.If(m == d - 1, A(m2 == 0, q2 == q + 1), A(m2 == m + 1, q2 == q))))
                        out.append(Im(A(d > 0, x2 == x - m), A(m2 == 0, q2 == q)))
                        out.append(Im(A(d > 0, x2 == x + d), A(m2 == m, q2 == q + 1)))
            elif name == 'PHI':
                for a in apps:
                    if once('phi', a.get_id()):
                        out += [a > 0, a < 1]
                    for b in apps:
                        if a.get_id() < b.get_id() and once('phi2', a.get_id(), b.get_id()):
                            x, y = a.arg(0), b.arg(0)
                            out.append((x <= y) == (a <= b))
                            if ring_valid(x == y): out.append(a == b)
                            elif ring_valid(x == -y): out.append(a == 1 - b)
                            else: out.append(Im(x == -y, a == 1 - b))
            elif name == 'SQRT':
                for a in apps:
                    x = a.arg(0)
                    if once('sqrt', a.get_id()):
                        out.append(Im(x >= 0, A(a >= 0, a * a == x)))
                        out.append(Im(x > 0, a > 0))
                        out.append(Im(x == 0, a == 0))
            elif name in ('SUMB', 'SQB', 'SIZEB', 'SIZEBU', 'MAXB', 'MINB'):
                for a in apps:
                    b = a.arg(0)
                    f = a.decl()
                    if not once('bagf', a.get_id()):
                        continue
                    if name in ('SIZEB', 'SIZEBU'):
                        out.append(a >= 0)
                        out.append((a == 0) == (b == (EMPTYR if name == 'SIZEB' else EMPTYU)))
                    r = is_bag_delta(b)
                    E_ = EMPTYU if name == 'SIZEBU' else EMPTYR
                    if b.eq(E_) or once(name, 'empty'):
                        z = {'SUMB': 0, 'SQB': 0, 'SIZEB': 0, 'SIZEBU': 0, 'MAXB': NEGINF, 'MINB': PINF}[name]
                        out.append(f(E_) == z)
                    if name == 'MAXB':
                        out.append(Im(SIZEB(b) > 0, A(a > NEGINF, a < PINF, z3.Select(b, a) >= 1)))
                    if name == 'MINB':
                        out.append(Im(SIZEB(b) > 0, A(a > NEGINF, a < PINF, z3.Select(b, a) >= 1)))
                    if r:
                        b0, x, d = r
                        if name in ('SIZEB', 'SIZEBU'):
                            out.append(Im(z3.BoolVal(True) if d == 1 else z3.Select(b0, x) >= 1, a == f(b0) + d))
                        elif name == 'SUMB':
                            out.append(a == f(b0) + d * x)
                        elif name == 'SQB':
                            out.append(a == f(b0) + d * (x * x))
                        elif name == 'MAXB' and d == 1:
                            out.append(a == z3.If(SIZEB(b0) == 0, x, z3.If(x > f(b0), x, f(b0))))
                        elif name == 'MINB' and d == 1:
                            out.append(a == z3.If(SIZEB(b0) == 0, x, z3.If(x < f(b0), x, f(b0))))
                        elif name == 'MAXB':
                            out.append(Im(A(z3.Select(b0, x) >= 1, z3.Or(x < f(b0), z3.Select(b0, f(b0)) >= 2)), a == f(b0)))
                        elif name == 'MINB':
                            out.append(Im(A(z3.Select(b0, x) >= 1, z3.Or(x > f(b0), z3.Select(b0, f(b0)) >= 2)), a == f(b0)))
                # membership bounds: extremum dominates every mentioned member
                if name in ('MAXB', 'MINB'):
                    for a in apps:
                        if name == 'MAXB' and 'MINB' in T and once('maxmin', a.get_id()): out.append(Im(SIZEB(a.arg(0)) > 0, MINB(a.arg(0)) <= a))
                        for s in self._selects(a.arg(0)):
                            if once('ext', a.get_id(), s.get_id()):
                                out.append(Im(z3.Select(a.arg(0), s) >= 1, a >= s if name == 'MAXB' else a <= s))
            elif name == 'NTHB':
                for a in apps:
                    b, i = a.arg(0), a.arg(1)
                    if once('nth', a.get_id()):
                        out.append(Im(A(i >= 0, i < SIZEB(b)), A(z3.Select(b, a) >= 1, a > NEGINF, a < PINF)))
                    if once('nthm', b.get_id()):
                        out.append(Im(SIZEB(b) > 0, A(NTHB(b, z3.IntVal(0)) == MINB(b), NTHB(b, simp(SIZEB(b) - 1)) == MAXB(b))))
                    for c in apps:
                        if a is not c and c.arg(0).eq(b) and once('nth2', a.get_id(), c.get_id()):
                            out.append(Im(A(i >= 0, i <= c.arg(1), c.arg(1) < SIZEB(b)), a <= c))
            elif name in FINITE and 'INF' in T:
                for a in apps:
                    if once('fin', a.get_id()):
                        out.append(z3.And(NEGINF < a, a < PINF))
            elif name in REC:
                rec = REC[name]
                for a in apps:
                    k = a.arg(0)
                    if once('rec', a.get_id()):
                        out.append(Im(k == 0, a == rec.init))
                    for b in apps:
                        if a is not b and once('rec2', a.get_id(), b.get_id()):
                            d = simp(b.arg(0) - a.arg(0))
                            if z3.is_int_value(d):
                                if d.as_long() == 1:
                                    out.append(Im(a.arg(0) >= 0, b == rec.step(a.arg(0))))
                                continue
                            out.append(Im(A(b.arg(0) == a.arg(0) + 1, a.arg(0) >= 0), b == rec.step(a.arg(0))))
            if name in UFAX:
                for a in apps:
                    if once('ufax', a.get_id()):
                        out += UFAX[name](a)
        if 'INF' in T and once('inf'):
            out.append(NEGINF < PINF)
        return [simp(o) if False else o for o in out]
    def _selects(self, bag):
        r = []
        d = is_bag_delta(bag)
        while d:
            r.append(d[1])
            bag = d[0]
            d = is_bag_delta(bag)
        return r

def scalar_or_id(v):
    v = scalar_of(v)
    f = getattr(v, 'as_id', None)
    return f() if f else v

# ---------------------------------------------------------------- queries
class Stats:
    def __init__(self):
        self.queries = 0; self.time = 0.0; self.unknown = 0; self.ring = 0; self.cvc5 = 0; self.cvc5_time = 0.0; self.cvc5_disagree = 0
STATS = Stats()
OPTS = {'timeout': int(os.environ.get('PYVER_TIMEOUT_MS', '8000')), 'feas_timeout': 2000, 'feas_nl_timeout': 400, 'cvc5': False}

_INST = collections.OrderedDict()
def base_inst(fs):
    """instances for a path condition, shared between the queries made under it and its extensions"""
    ids = tuple(f.get_id() for f in fs)
    e = _INST.get(ids)
    if e is not None:
        _INST.move_to_end(ids)
        return e[0]
    inst, k = None, len(ids)
    while k > 0 and inst is None:
        k -= 1
        e = _INST.get(ids[:k])
        if e is not None: inst = e[0].copy()
    if inst is None: inst, k = Inst(), 0
    inst.feed(list(fs[k:]))
    _INST[ids] = (inst, list(fs))
    while len(_INST) > 100: _INST.popitem(last=False)
    return inst

NLMUL = z3.Function('nl*', R, R, R)
NLDIV = z3.Function('nl/', R, R, R)
NLIMUL = z3.Function('nli*', I, I, I)
NLIDIV = z3.Function('nlidiv', I, I, I)
NLMOD = z3.Function('nlmod', I, I, I)
_PURE = {}
def purify(t):
    """the formula with products and quotients of unknowns as uninterpreted functions (an over-approximation of its models); -> (formula, changed)"""
    r = _PURE.get(t.get_id())
    if r is not None: return r[0], r[1]
    stack = [t]
    while stack:
        x = stack[-1]
        if x.get_id() in _PURE: stack.pop(); continue
        if not z3.is_app(x) or x.num_args() == 0:
            _PURE[x.get_id()] = (x, False, x); stack.pop(); continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in _PURE]
        if todo: stack += todo; continue
        nc = [_PURE[c.get_id()][0] for c in ch]
        changed = any(_PURE[c.get_id()][1] for c in ch)
        k = x.decl().kind()
        if k == z3.Z3_OP_MUL:
            cs = [c for c in nc if z3.is_rational_value(c) or z3.is_int_value(c)]
            vs = sorted([c for c in nc if not (z3.is_rational_value(c) or z3.is_int_value(c))], key=lambda c: c.get_id())
            if len(vs) > 1:
                f = NLMUL if x.sort() == R else NLIMUL
                y = vs[0]
                for v in vs[1:]: y = f(y, v)
                for c in cs: y = c * y
                changed = True
            else: y = x.decl()(*nc) if changed else x
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_rational_value(nc[1]) or z3.is_int_value(nc[1])):
            y = {z3.Z3_OP_DIV: NLDIV, z3.Z3_OP_IDIV: NLIDIV, z3.Z3_OP_MOD: NLMOD}[k](*nc)
            changed = True
        elif k == z3.Z3_OP_POWER:
            y = z3.Function('nl^', nc[0].sort(), nc[1].sort(), x.sort())(*nc)
            changed = True
        else:
            y = x.decl()(*nc) if changed else x
        _PURE[x.get_id()] = (y, changed, x)
        stack.pop()
    r = _PURE[t.get_id()]
    return r[0], r[1]

def linear_unsat(fs, timeout):
    """-> (already unsatisfiable with uninterpreted products, some product is there)"""
    inst = base_inst(fs[:-1]).copy()
    inst.feed(fs[-1:])
    s = z3.Solver()
    s.set('timeout', timeout)
    nl = False
    for f in list(fs) + inst.axioms:
        g, c = purify(f)
        nl = nl or c
        s.add(g)
    STATS.queries += 1
    t0 = time.time()
    r = s.check()
    STATS.time += time.time() - t0
    return r == z3.unsat, nl

def known_linear(hyps, goal):
    """a goal without products, from hypotheses whose products are uninterpreted; None: no product anywhere (use the ordinary query)"""
    fs = [h for h in hyps if h is not True] + [z3.Not(goal)]
    if not any(purify(f)[1] for f in fs[:-1]): return None
    return linear_unsat(fs, 1000)[0]

def check_sat(fs, timeout=None, want_model=False):
    """'sat' / 'unsat' / 'unknown' (+ model)"""
    t0 = time.time()
    fs = [f for f in fs if not (isinstance(f, bool) and f)]
    if any(f is False for f in fs):
        return ('unsat', None) if want_model else 'unsat'
    inst = base_inst(fs[:-1]).copy()
    inst.feed(fs[-1:])
    s = z3.Solver()
    s.set('timeout', timeout or OPTS['timeout'])
    s.add(*fs)
    s.add(*inst.axioms)
    r = str(s.check())
    STATS.queries += 1
    STATS.time += time.time() - t0
    if r == 'unknown':
        STATS.unknown += 1
    if want_model:
        return r, (s.model() if r == 'sat' else None)
    return r

def smt2_of(fs):
    inst = Inst()
    ax = inst.feed(fs)
    s = z3.Solver()
    s.add(*fs); s.add(*ax)
    return s.to_smt2()

def entails(hyps, goal, timeout=None):
    """-> 'valid', 'refuted' or 'unknown'"""
    if goal is True:
        return 'valid'
    if goal is False:
        g = z3.BoolVal(False)
    else:
        g = goal
    g = simp(g)
    if z3.is_true(g):
        STATS.queries += 1
        return 'valid'
    if ring_valid(g):
        STATS.ring += 1
        return 'valid'
    fs = [h for h in hyps if h is not True] + [z3.Not(g)]
    if any(purify(f)[1] for f in fs) and linear_unsat(fs, min(timeout or OPTS['timeout'], 2000))[0]: return 'valid'
    r = check_sat(fs, timeout)
    return {'unsat': 'valid', 'sat': 'refuted', 'unknown': 'unknown'}[r]

def feasible(hyps, cond=None):
    fs = [h for h in hyps if h is not True]
    if cond is not None:
        if cond is True:
            pass
        elif cond is False:
            return False
        else:
            fs = fs + [cond]
    key = tuple(sorted(f.get_id() for f in fs if is_z3(f)))
    r = _feas_cache.get(key)
    if r is None:
        u, nl = linear_unsat(fs, OPTS['feas_timeout']) if fs else (False, False)
        r = not u
        if r and nl and (cond is None or purify(cond)[1]): r = check_sat(fs, OPTS['feas_nl_timeout']) != 'unsat'
        _feas_cache[key] = r
        _feas_cache.setdefault('keep', []).append(fs)
    return r

def both_feasible(pc, c, nc):
    """can c hold here; can its negation hold here.  With one of them excluded already without product reasoning,
    the other is taken as possible (an impossible path only costs time: everything on it is proved)"""
    base = [h for h in pc if h is not True]
    r = []
    for x in (c, nc):
        key = tuple(sorted(f.get_id() for f in base + [x]))
        v = _feas_cache.get(key)
        if v is None:
            u, nl = linear_unsat(base + [x], OPTS['feas_timeout'])
            v = False if u else True if not nl or not purify(c)[1] else None
            if v is not None:
                _feas_cache[key] = v
                _feas_cache.setdefault('keep', []).append(base + [x])
        r.append(v)
    if False in r: return r[0] is not False, r[1] is not False
    return (feasible(pc, c) if r[0] is None else r[0]), (feasible(pc, nc) if r[1] is None else r[1])

# ---------------------------------------------------------------- rational-function identities
def _rat(t, depth=0):
    """z3 real/int term -> (num, den) polynomials as dict monomial(tuple of (atom id, exp)) -> Fraction"""
    if z3.is_rational_value(t):
        return ({(): Fraction(t.numerator_as_long(), t.denominator_as_long())}, {(): Fraction(1)})
    if z3.is_int_value(t):
        return ({(): Fraction(t.as_long())}, {(): Fraction(1)})
    if z3.is_app(t):
        k = t.decl().kind()
        ch = [t.arg(i) for i in range(t.num_args())]
        if k == z3.Z3_OP_ADD:
            r = _rat(ch[0])
            for c in ch[1:]:
                r = _radd(r, _rat(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = _rat(ch[0])
            for c in ch[1:]:
                r = _radd(r, _rneg(_rat(c)))
            return r
        if k == z3.Z3_OP_UMINUS:
            return _rneg(_rat(ch[0]))
        if k == z3.Z3_OP_MUL:
            r = _rat(ch[0])
            for c in ch[1:]:
                q = _rat(c)
                r = (_pmul(r[0], q[0]), _pmul(r[1], q[1]))
            return r
        if k == z3.Z3_OP_DIV:
            a, b = _rat(ch[0]), _rat(ch[1])
            if not b[0]:
                return ({((t.get_id(), 1),): Fraction(1)}, {(): Fraction(1)})
            return (_pmul(a[0], b[1]), _pmul(a[1], b[0]))
        if k == z3.Z3_OP_TO_REAL:
            return _rat(ch[0])
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) or (k == z3.Z3_OP_POWER and z3.is_int_value(ch[1])):
            e = ch[1].as_fraction() if z3.is_rational_value(ch[1]) else Fraction(ch[1].as_long())
            if e.denominator == 1 and 0 <= e <= 6:
                r = ({(): Fraction(1)}, {(): Fraction(1)})
                a = _rat(ch[0])
                for _ in range(int(e)):
                    r = (_pmul(r[0], a[0]), _pmul(r[1], a[1]))
                return r
    _ATOMS[t.get_id()] = t
    return ({((t.get_id(), 1),): Fraction(1)}, {(): Fraction(1)})
_ATOMS = {}

def _pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = dict(m1)
            for v, e in m2:
                d[v] = d.get(v, 0) + e
            m = tuple(sorted(d.items()))
            r[m] = r.get(m, 0) + c1 * c2
            if r[m] == 0:
                del r[m]
    return r

def _padd(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c
        if r[m] == 0:
            del r[m]
    return r

def _radd(a, b):
    if a[1] == b[1]:
        return (_padd(a[0], b[0]), a[1])
    return (_padd(_pmul(a[0], b[1]), _pmul(b[0], a[1])), _pmul(a[1], b[1]))

def _rneg(a):
    return ({m: -c for m, c in a[0].items()}, a[1])

def ring_valid(g):
    """Is the goal an equality that is an identity of rational functions?
    (Sound here: division by zero always raises in the interpreter, so every denominator is non-zero on the path.)"""
    if z3.is_and(g):
        return all(ring_valid(c) for c in g.children())
    if not z3.is_eq(g):
        return False
    a, b = g.arg(0), g.arg(1)
    if a.sort() not in (I, R):
        return False
    try:
        x, y = _rat(a), _rat(b)
        if len(x[0]) * len(y[1]) > 4000 or len(y[0]) * len(x[1]) > 4000:
            return False
        return _pmul(x[0], y[1]) == _pmul(y[0], x[1])
    except RecursionError:
        return False
