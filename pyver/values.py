"""Heap values of the symbolic interpreter."""
from fractions import Fraction
import z3
from . import terms as T
from .terms import is_z3, simp, to_term, real

class Unsupported(Exception):
    """The construct is outside the verifier's subset (a tool limit, never a verdict)."""

class Infeasible(Exception):
    pass

class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""
    def __init__(self, cls, args=(), obj=None):
        self.cls, self.eargs, self.obj = cls, args, obj
    def __str__(self):
        return '%s%r' % (self.cls, tuple(self.eargs))

class PClass:
    def __init__(self, name, bases, ns, module, qual):
        self.name, self.bases, self.ns, self.module, self.qual = name, bases, ns, module, qual
        self.mro = self._mro()
        self.spec = False
    def _mro(self):
        seqs = [list(b.mro) if isinstance(b, PClass) else [b] for b in self.bases] + [list(self.bases)]
        out = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            out.append(c)
            seqs = [[x for x in s if x is not c] for s in seqs]
            seqs = [s for s in seqs if s]
        return out
    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, PClass) and name in c.ns:
                return c, c.ns[name]
        return None, None
    def issub(self, other):
        return other in self.mro
    def __repr__(self):
        return '<class %s>' % self.qual

class Obj:
    def __init__(self, cls, f=None):
        self.cls, self.f = cls, f if f is not None else {}
    def __repr__(self):
        return '<%s obj %s>' % (self.cls.name, list(self.f))

class Seq:
    """Immutable symbolic sequence: family slice [lo, hi) (possibly empty, lo <= hi is an invariant)."""
    __slots__ = ('fam', 'lo', 'hi', 'bag')
    def __init__(self, fam, lo, hi, bag=None):
        self.fam, self.lo, self.hi, self.bag = fam, lo, hi, bag
    def length(self):
        return isub(self.hi, self.lo)
    def get(self, i):
        return self.fam.get(iadd(self.lo, i))
    def bagterm(self):
        if self.bag is not None:
            return self.bag
        return T.fam_bsl(self.fam)(zi(self.lo), zi(self.hi))
    def __repr__(self):
        return 'Seq(%s[%s:%s])' % (self.fam.key, self.lo, self.hi)

def zi(i):
    return z3.IntVal(i) if isinstance(i, int) else i

def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return norm(simp(zi(a) + zi(b)))

def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return norm(simp(zi(a) - zi(b)))

def norm(t):
    """z3 literal -> python value"""
    if is_z3(t):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    return t

class PList:
    """list / deque; either concrete (items) or symbolic (seq)."""
    def __init__(self, items=None, seq=None, kind='list', maxlen=None):
        self.items, self.seq, self.kind, self.maxlen = items, seq, kind, maxlen
        if items is None and seq is None:
            self.items = []
    def is_conc(self):
        return self.seq is None
    def length(self):
        return len(self.items) if self.seq is None else self.seq.length()
    def set_seq(self, seq):
        self.items, self.seq = None, seq
    def __repr__(self):
        return 'PList(%r)' % (self.items if self.seq is None else self.seq,)

class PDict:
    def __init__(self, items=None, sym=None):
        self.items = {} if items is None else items
        self.sym = sym              # SymMap or None
    def __repr__(self):
        return 'PDict(%r)' % (self.items if self.sym is None else self.sym)

class SymMap:
    """functional map: has(keyterms)->Bool, get(keyterms)->value ; key = tuple of nkey real terms (see lib.keyterms);
    ufs: the function symbols of a generic map"""
    __slots__ = ('has', 'get', 'nkey', 'ufs')
    def __init__(self, has, get, nkey, ufs=()):
        self.has, self.get, self.nkey, self.ufs = has, get, nkey, ufs

class PSet:
    def __init__(self, seq=None, items=None):
        self.seq, self.items = seq, items

def prod(shape):
    n = 1
    for s in shape:
        n *= s
    return n

class Frame:
    """pandas frame or series: only its values are modelled, its index is not"""
    def __init__(self, arr):
        self.arr = arr

class Arr:
    """numpy array.  Concrete shape: shared flat buffer + positions (true views).  Symbolic shape: functional."""
    def __init__(self, shape, buf=None, pos=None, getf=None, dtype='f', rowf=None, fam=None):
        self.shape, self.buf, self.pos, self.getf, self.dtype, self.rowf = tuple(shape), buf, pos, getf, dtype, rowf
        self.viewed = False
        self.fam = fam              # Seq for 1-D symbolic arrays
    @property
    def ndim(self):
        return len(self.shape)
    def is_conc(self):
        return self.buf is not None
    def size(self):
        n = 1
        for s in self.shape:
            n = s * n if isinstance(s, int) and isinstance(n, int) else norm(simp(zi(s) * zi(n)))
        return n
    def flat(self):
        return [self.buf[p] for p in self.positions()]
    def positions(self):
        return self.pos if self.pos is not None else range(prod(self.shape))
    def at(self, idx):
        if self.buf is not None:
            k = 0
            for i, s in zip(idx, self.shape):
                k = k * s + i
            return self.buf[self.pos[k] if self.pos is not None else k]
        return self.getf(idx)
    def as_scalar(self):
        if self.buf is not None and prod(self.shape) == 1:
            return self.flat()[0]
        return self
    def as_id(self):
        raise Unsupported('array element identity')
    def __repr__(self):
        return 'Arr(%s,%s)' % (self.shape, self.flat() if self.buf is not None else self.getf)

def arr_of(items, dtype='f', shape=None):
    return Arr(shape if shape is not None else (len(items),), buf=list(items), dtype=dtype)

class Closure:
    def __init__(self, node, module, env, defaults, kwdefaults, name, cls=None, kind='func'):
        self.node, self.module, self.env, self.defaults, self.kwdefaults, self.name, self.cls, self.kind = node, module, env, defaults, kwdefaults, name, cls, kind
    def __repr__(self):
        return '<fn %s>' % self.name

class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

class Builtin:
    """python-implemented function: call(ctx, args, kwargs)"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
    def __repr__(self):
        return '<builtin %s>' % self.name

class Ext:
    """a name of an external module (numpy.max, scipy.stats.t.ppf, ...)"""
    def __init__(self, path):
        self.path = path
    def __repr__(self):
        return '<ext %s>' % self.path
    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path
    def __hash__(self):
        return hash(self.path)

class ExtObj:
    """opaque result of an external call: identified by a U term; attributes/methods are uninterpreted"""
    def __init__(self, term, label):
        self.term, self.label = term, label
    def as_id(self):
        return self.term
    def __repr__(self):
        return '<extobj %s>' % self.term

class Module:
    def __init__(self, name):
        self.name, self.ns = name, {}
    def __repr__(self):
        return '<module %s>' % self.name

class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

class Prop:
    def __init__(self, fn):
        self.fn = fn
class Static:
    def __init__(self, fn):
        self.fn = fn
class ClsM:
    def __init__(self, fn):
        self.fn = fn

class Slice:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

class Bag:
    """ghost multiset value (immutable)"""
    def __init__(self, term):
        self.term = term
    def __repr__(self):
        return 'Bag(%s)' % self.term

class PRange:
    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step

HEAP = (Obj, PList, PDict, Arr)
