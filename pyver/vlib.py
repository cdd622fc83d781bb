"""Run-time meaning of the contract vocabulary: the contracts of /verif/contracts executed on the real code.
(The symbolic meaning of the same vocabulary is pyver/vsem.py.)"""
import copy, math, random, types
copy._deepcopy_dispatch[types.ModuleType] = lambda x, memo: x   # detectors may hold modules
import numpy as np

class Violation(Exception):
    def __init__(self, name, detail=''):
        Exception.__init__(self, name)
        self.name, self.detail = name, detail

class Skip(Exception):
    """assumption of the contract not met by this input"""

RNG = random.Random(0)
TOL = 1e-7

def _isnum(x):
    return isinstance(x, (int, float, np.number, np.bool_)) and not isinstance(x, (str, bytes))

def _isseq(x):
    return isinstance(x, (list, tuple, np.ndarray)) or type(x).__name__ == 'deque'

def deep_eq(a, b, tol=0.0, scale=1.0, depth=0):
    if a is b: return True
    if depth > 60: return True
    if isinstance(a, np.ndarray) and a.ndim == 0: a = a.item()
    if isinstance(b, np.ndarray) and b.ndim == 0: b = b.item()
    if isinstance(a, np.ndarray) and _isnum(b) and a.size == 1: a = a.reshape(-1)[0].item() if a.dtype != object else a.reshape(-1)[0]
    if isinstance(b, np.ndarray) and _isnum(a) and b.size == 1: b = b.reshape(-1)[0].item() if b.dtype != object else b.reshape(-1)[0]
    if _isnum(a) and _isnum(b):
        if a == b: return True
        try:
            if math.isnan(a) and math.isnan(b): return True
        except TypeError: pass
        if tol == 0.0: return False
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b), scale)
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype != object and b.dtype != object:
        if a.shape != b.shape: return False
        if tol == 0.0: return bool(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f' and b.dtype.kind == 'f'))
        with np.errstate(all='ignore'):
            return bool(np.all((np.abs(a - b) <= tol * np.maximum(np.maximum(1.0, scale), np.maximum(np.abs(a), np.abs(b)))) | (a == b) | (np.isnan(a) & np.isnan(b))))
    if _isseq(a) and _isseq(b):
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.ndim != b.ndim: return False
        if len(a) != len(b): return False
        return all(deep_eq(x, y, tol, scale, depth + 1) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(deep_eq(a[k], b[k], tol, scale, depth + 1) for k in a)
    if isinstance(a, (str, bytes, type, type(None))) or isinstance(b, (str, bytes, type, type(None))):
        return type(a) is type(b) and a == b
    if type(a) is not type(b): return False
    if hasattr(a, '__dict__') and type(a).__eq__ is object.__eq__:
        return deep_eq(vars(a), vars(b), tol, scale, depth + 1)
    try:
        return bool(a == b)
    except Exception:
        return repr(a) == repr(b)

def _short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'

COUNT = {}
def _hit(name):
    COUNT[name] = COUNT.get(name, 0) + 1

def require(cond, name='require'):
    _hit(name)
    if not cond: raise Violation(name)
def require_eq(a, b, name='require'):
    _hit(name)
    if not deep_eq(a, b): raise Violation(name, 'got %s, contract says %s' % (_short(a), _short(b)))
def require_close(a, b, name='require', scale=1.0):
    _hit(name)
    if not deep_eq(a, b, TOL, scale if scale is not None else 1.0): raise Violation(name, 'got %s, contract says %s' % (_short(a), _short(b)))
def assume(c):
    if not c: raise Skip()
def same(a, b): return deep_eq(a, b)
def fail(name):
    _hit(name)
    raise Violation(name)
def scalar(x):
    if isinstance(x, np.ndarray) and x.size == 1: return x.reshape(-1)[0]
    if isinstance(x, list) and len(x) == 1: return x[0]
    return x
def last(s, k):
    s = list(s)
    return s[max(0, len(s) - k):] if k > 0 else []
def split(*conds): pass
def seq_sum(s): return sum(s)
def range_sum(f, a, b):
    """sum of f(i) for a <= i < b (a <= b)"""
    return sum(f(i) for i in range(a, b))
def item(s, i): return s[i]
def ite(c, f, g): return f() if c else g()
def count(pred, s): return sum(1 for x in s if pred(x))
def smap(f, s): return [f(x) for x in s]
def concat(a, b): return list(a) + list(b)
def array_of(s): return np.array(s)
def matrix_of(rows, d): return np.array(rows, dtype=float).reshape(len(rows), d)
def array_scalar(x): return np.array(x)

# multisets are sorted lists
def bag_empty(): return ()
def bag_add(b, x): return tuple(sorted(b + (x,)))
def bag_remove(b, x):
    l = list(b); l.remove(x)
    return tuple(l)
def bag_has(b, x): return x in b
def bag_of(s): return tuple(sorted(s))
def bag_size(b): return len(b)
def bag_sum(b): return math.fsum(b)
def bag_sumsq(b): return math.fsum(x * x for x in b)
def bag_max(b): return max(b) if b else -math.inf
def bag_min(b): return min(b) if b else math.inf
def bag_nth(b, i): return b[i]
def bag_mean(b): return math.fsum(b) / len(b)
def bag_var(b):
    m = math.fsum(b) / len(b)
    return math.fsum((x - m) * (x - m) for x in b) / len(b)
def bag_median(b):
    n = len(b)
    return b[n // 2] if n % 2 else (b[n // 2] + b[n // 2 - 1]) / 2
def pick(b, x):
    """an element of the bag (index derived from x)"""
    if not b: raise Skip()
    return b[int(abs(x) * 7919) % len(b)]

# abstract (uninterpreted) functions: injective-looking deterministic hash of the arguments
def _ident(x):
    if isinstance(x, np.ndarray): return ('a',) + tuple(_ident(v) for v in x.tolist())
    if isinstance(x, (list, tuple)): return ('a',) + tuple(_ident(v) for v in x)
    if _isnum(x): return float(x)
    if isinstance(x, dict): return ('d',) + tuple((k, _ident(x[k])) for k in sorted(x, key=str))
    if isinstance(x, type): return x.__name__
    return x
def _h(name, a):
    import hashlib
    return int(hashlib.sha256(repr((name, tuple(_ident(x) for x in a))).encode()).hexdigest()[:12], 16)
def abstract_real(name, *a): return (_h(name, a) % (1 << 42)) / float(1 << 31) - 1000.0
def abstract_obj(name, *a): return '%s#%x' % (name, _h(name, a))
def abstract_reals(name, n, *a): return np.array([abstract_real(name, *(a + (i,))) for i in range(n)])
def abstract_int(name, *a): return _h(name, a) % 1000

def field(o, name):
    """an attribute the contract has to look at; a tree without it is outside the reach of the contract"""
    if not hasattr(o, name): raise Skip()
    return getattr(o, name)
def clone(x): return copy.deepcopy(x)
def snapshot(*objs): return copy.deepcopy(objs)
def require_unchanged(snap, *objs):
    objs = list(objs)
    name = objs.pop() if objs and isinstance(objs[-1], str) else 'unchanged'
    _hit(name)
    for s, o in zip(snap, objs):
        if not deep_eq(s, o): raise Violation(name, 'was %s, now %s' % (_short(s), _short(o)))
def is_same_object(a, b): return a is b
def require_same_object(a, b, name='same object'):
    _hit(name)
    if a is not b: raise Violation(name, 'got %s' % _short(a))
def require_permutation(out, src, name='permutation'):
    _hit(name)
    src = list(src)
    for x in out:
        for j, y in enumerate(src):
            if deep_eq(x, y):
                del src[j]
                break
        else:
            raise Violation(name, '%s is not an item of the input (or delivered too often)' % _short(x))
    if src: raise Violation(name, 'missing %s' % _short(src))
def choose_bool(): return RNG.random() < 0.5
def fresh_real(): return RNG.choice([0.0, 1.0, -1.0, 0.5, RNG.uniform(-10, 10)])
def forget_shuffles(): pass
def frozen(x): return x
def positive(x): return x > 1e-3
def sqrt(x): return math.sqrt(x)
def dist(x, y): return math.sqrt(sum((float(a) - float(b)) * (float(a) - float(b)) for a, b in zip(x, y)))

def norm_cdf(z): return 0.5 * (1.0 + math.erf(z / math.sqrt(2.0)))
def lemma_var_nonneg(b): pass
def lemma_count_bounds(pred, s): pass
def lemma_count_le(p1, p2, s): pass
def not_positive(v, b): return bag_min(b) == bag_max(b) and (float(b[0]) * 1024).is_integer() and abs(b[0]) < 5000
def zero_if_rounding(v): return max(v, 0.0)
def leq(a, b): return a <= b + 1e-9 * max(1.0, abs(a), abs(b))
def n_distinct(s): return len(set(s))
INTS = False      # whole numbers as integers (set per history by the runner)
def some_rows(name, m, d): return [np.array([RNG.randint(-8, 8) if INTS else RNG.randint(-8, 8) / 4.0 for _ in range(d)]) for _ in range(m)]
def some_reals(name, m): return [RNG.randint(-40, 40) if INTS else RNG.randint(-40, 40) / 4.0 for _ in range(m)]
def fresh_reals(m):
    if INTS: return [RNG.randint(-9, 9) for _ in range(m)]
    st = RNG.randint(0, 3)
    if st == 0: return [float(RNG.randint(-2, 2)) for _ in range(m)]
    if st == 1: return [RNG.randint(-40, 40) / 4.0 for _ in range(m)]
    if st == 2: return [RNG.randint(0, 64) / 64.0 for _ in range(m)]
    return [RNG.randint(-1600, 1600) / 8.0 for _ in range(m)]
def same_draws():
    """the global random generators start from the same state"""
    import random
    random.seed(4711)
    np.random.seed(4711)
def some_ints(name, m): return [RNG.randint(0, 3) for _ in range(m)]
def drain(f):
    """-> (items delivered by the iterator, rejected with AssertionError?)"""
    items = []
    try:
        for x in f(): items.append(x)
    except AssertionError:
        return items, True
    return items, False
def _index(n):
    """row labels: positions, shifted, shuffled, repeated or text; drawn apart for the data and for the labels"""
    k = RNG.randint(0, 5)
    i = list(range(n))
    if k == 1: return [100 + x for x in i]
    if k in (2, 3): RNG.shuffle(i)
    if k == 4: return [x // 2 for x in i]
    if k == 5: return ['r%d' % x for x in i]
    return i
def frame_of(rows, d):
    import pandas as pd
    return pd.DataFrame(np.array(rows, dtype=float).reshape(len(rows), d), index=_index(len(rows)))
def series_of(ints):
    import pandas as pd
    return pd.Series(np.array(ints, dtype=int), index=_index(len(ints)))

def retained(tree):
    """arrival indices held by a random cut tree, in increasing order, and the instance under each"""
    idx = sorted(tree.leaves, key=lambda i: (isinstance(i, str), i))
    return idx, [np.asarray(tree.leaves[i].x) for i in idx]
def forall_values(d, pred):
    """pred of every value of the dictionary"""
    return all(pred(v) for v in d.values())
# dendrograms
def some_leaves(n):
    l = list(range(n))
    RNG.shuffle(l)
    return l
def dendrogram(leaves, a):
    """a binary tree with these leaves from left to right"""
    from scipy.cluster.hierarchy import ClusterNode
    free = list(range(len(leaves), 2 * len(leaves)))
    def build(leaves, a):
        if len(leaves) == 1: return ClusterNode(leaves[0])
        s = 1 + a % (len(leaves) - 1)
        l, r = build(leaves[:s], RNG.randint(0, 9)), build(leaves[s:], RNG.randint(0, 9))
        return ClusterNode(free.pop(0), l, r, 1.0 + max(l.dist, r.dist), len(leaves))
    return build(leaves, a)
def cut(node, m):
    """what the contract of a cut promises: the leaves from left to right in blocks of at most m"""
    out, l = [], list(node.pre_order())
    while l:
        k = RNG.randint(1, m)
        out.append(l[:k])
        l = l[k:]
    return out
def require_blocks(blocks, leaves, m):
    _hit('blocks')
    flat = [x for b in blocks for x in b]
    if sorted(flat) != sorted(leaves): raise Violation('every feature belongs to exactly one autoencoder', 'got %s' % _short(blocks))
    if any(len(b) > m for b in blocks): raise Violation('no autoencoder gets more than max_size_ae features', 'got %s' % _short(blocks))
def any_matrix(n): return np.array([[abs(i - j) + RNG.randint(0, 3) / 4.0 for j in range(n)] for i in range(n)]) 
