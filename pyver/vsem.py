"""Symbolic meaning of the contract vocabulary (module vlib; its run-time twin is pyver/vlib.py)."""
from fractions import Fraction
import z3
from . import terms as T
from .terms import is_z3, simp, to_term, real
from .values import *
from . import lib as L
from . import npsem as N
from .lib import EXT, err, num, isnum, scal
from .loops import map_seq, merge_vals, clone_val, merged_eval

def v(name):
    def d(f): EXT['vlib.' + name] = f; return f
    return d

class Obligation:
    def __init__(self, name, pc, goal):
        self.name, self.pc, self.goal = name, pc, goal

@v('require')
def _(I, cond, name='require'):
    t = L.truthterm(I, cond) if not isinstance(cond, GoalTerm) else cond.term
    I.ctx.obls.append(Obligation(name, list(I.ctx.pc), L.tob(t)))
    if not isinstance(t, bool) and not isinstance(cond, GoalTerm): I.ctx.assume(t)

class GoalTerm:
    """formula with skolem constants: valid only in goal position"""
    def __init__(self, t): self.term = t

@v('require_eq')
def _(I, a, b, name='require'):
    I.ctx.obls.append(Obligation(name, list(I.ctx.pc), L.deep_eq(I, a, b)))

@v('require_close')
def _(I, a, b, name='require', scale=None):
    g = L.deep_eq(I, scal(a), scal(b))
    I.ctx.obls.append(Obligation(name, list(I.ctx.pc), g))
    if isnum(scal(a)) and isnum(scal(b)) and not isinstance(g, bool): I.ctx.assume(g)

@v('assume')
def _(I, cond):
    I.ctx.assume(L.truthterm(I, cond))

@v('same')
def _(I, a, b):
    """equality usable in branch conditions (scalars / opaque)"""
    return L.py_eq(I, scal(a), scal(b))

@v('fail')
def _(I, name):
    I.ctx.obls.append(Obligation(name, list(I.ctx.pc), z3.BoolVal(False)))

@v('scalar')
def _(I, x):
    x = scal(x)
    if isinstance(x, PList) and x.is_conc() and len(x.items) == 1: x = x.items[0]
    return x

# ---- sequences
@v('last')
def _(I, s, k):
    """the last k elements (all when fewer)"""
    n = s.length()
    if s.is_conc() and isinstance(k, int): return PList(s.items[max(0, n - k):] if k > 0 else [])
    if I.ctx.decide(L.compare(I, 'LtE', k, 0)): return L.list_slice(I, s, Slice(n, None, None))
    if I.ctx.decide(L.compare(I, 'GtE', k, n)): return PList(s.items, s.seq)
    return L.list_slice(I, s, Slice(isub(n, k), n, None))
@v('split')
def _(I, *cs):
    """case distinction: nothing is assumed"""
    for c in cs: I.ctx.decide(L.truthterm(I, c))
@v('seq_sum')
def _(I, s): return L.BUILTINS['sum'].fn(I, [s], {})
@v('count')
def _(I, pred, s):
    it = L.iterate(I, s)
    if isinstance(it, list):
        r = 0
        for x in it: r = L.s_add(r, num(L.truthterm(I, I.call(pred, [x], {}))))
        return r
    if isinstance(s, PList) and not s.is_conc() and s.seq.bag is None and s.seq.fam.kind != 'obj':
        # keep the base indices so that counts over overlapping slices share one prefix sum
        ix = T.loopvar('ix!%d' % I.ctx.depth)
        t = merged_eval(I, lambda sub: num(L.truthterm(sub, sub.call(pred, [s.seq.fam.get(ix)], {}))))
        fam = T.derived_family(to_term(t), ix)
        return L.seq_sum(I, Seq(fam, s.seq.lo, s.seq.hi))
    return L.seq_sum(I, map_seq(I, it.n, lambda ix, sub: num(L.truthterm(sub, sub.call(pred, [it.get(sub, ix)], {})))))
@v('range_sum')
def _(I, f, a, b):
    if isinstance(a, int) and isinstance(b, int):
        r = 0
        for i in range(a, b): r = L.s_add(r, num(I.call(f, [i], {})))
        return r
    ix = T.loopvar('ix!%d' % I.ctx.depth)
    t = merged_eval(I, lambda sub: num(sub.call(f, [ix], {})))
    return L.seq_sum(I, Seq(T.derived_family(to_term(t), ix), a, b))
@v('item')
def _(I, s, i):
    if s.is_conc() and isinstance(i, int): return s.items[i]
    if s.is_conc(): return L.getitem(I, s, i)
    return s.seq.fam.get(iadd(s.seq.lo, i) if not (isinstance(s.seq.lo, int) and s.seq.lo == 0) else i)
@v('ite')
def _(I, c, f, g):
    c = L.truthterm(I, c)
    if isinstance(c, bool): return I.call(f if c else g, [], {})
    return merge_vals([(c, I.call(f, [], {})), (z3.BoolVal(True), I.call(g, [], {}))])
def base_map(I, fn, s):
    ix = T.loopvar('ix!%d' % I.ctx.depth)
    v_ = merged_eval(I, lambda sub: sub.call(fn, [s.seq.fam.get(ix)], {}))
    from .loops import seq_of_elem
    return seq_of_elem(v_, ix, s.seq.hi, s.seq.lo)
@v('smap')
def _(I, fn, s):
    it = L.iterate(I, s)
    if isinstance(it, list): return PList([I.call(fn, [x], {}) for x in it])
    if isinstance(s, PList) and s.seq.bag is None: return PList(seq=base_map(I, fn, s))
    return PList(seq=map_seq(I, it.n, lambda ix, sub: sub.call(fn, [it.get(sub, ix)], {})))
@v('concat')
def _(I, a, b): return L.list_concat(I, L.to_list(I, a), L.to_list(I, b))
@v('array_of')
def _(I, s): return N.asarray(I, s)

@v('matrix_of')
def _(I, rows, d):
    a = N.asarray(I, rows)
    if a.is_conc() and a.shape[0] == 0: a.shape = (0, d)
    return a
@v('array_scalar')
def _(I, x): return arr_of([x], 'f', ())

# ---- multisets
def B(x): return x.term
def bkey(x):
    t = to_term(scal(x))
    return t if t is not None and t.sort() == T.U else real(t)
@v('bag_empty')
def _(I): return Bag(T.EMPTYR)
@v('bag_add')
def _(I, b, x): return Bag(T.bag_add(B(b), bkey(x)))
@v('bag_remove')
def _(I, b, x): return Bag(T.bag_add(B(b), bkey(x), -1))
@v('bag_has')
def _(I, b, x): return simp(z3.Select(B(b), bkey(x)) >= 1)
@v('bag_of')
def _(I, s): return Bag(L.bagterm_of(I, s)) if not isinstance(s, Bag) else s
def bsize(b): return T.SIZEB(b)
@v('bag_size')
def _(I, b): return bsize(B(b))
@v('bag_sum')
def _(I, b): return T.SUMB(B(b))
@v('bag_sumsq')
def _(I, b): return T.SQB(B(b))
@v('bag_max')
def _(I, b): return T.MAXB(B(b))
@v('bag_min')
def _(I, b): return T.MINB(B(b))
@v('bag_nth')
def _(I, b, i): return T.NTHB(B(b), zi(i))
@v('bag_mean')
def _(I, b): return L.s_div(I, T.SUMB(B(b)), bsize(B(b)))
@v('bag_var')
def _(I, b):
    n = bsize(B(b))
    s = T.SUMB(B(b))
    return L.s_div(I, L.s_sub(T.SQB(B(b)), L.s_div(I, L.s_mul(s, s), n)), n)
@v('bag_median')
def _(I, b): return N.bag_median(I, B(b), bsize(B(b)))

# ---- abstract (uninterpreted) functions: contracts over arbitrary collaborators
def absf(kind):
    def f(I, name, *a): return L.ext_pure(I, 'op.abs:' + name, list(a), {}, kind)
    return f
EXT['vlib.abstract_real'] = absf('real')
EXT['vlib.abstract_obj'] = absf('U')
EXT['vlib.abstract_int'] = absf('int')

@v('abstract_reals')
def _(I, name, n, *a):
    """n numbers, each an arbitrary function of the arguments and of its position"""
    ts = [L.reify(I, x) for x in a]
    f = z3.Function('abs:%s/%d' % (name, len(ts)), *([T.U] * len(ts) + [T.I, T.R]))
    if isinstance(n, int): return arr_of([f(*ts, z3.IntVal(j)) for j in range(n)], 'f')
    return N.mk1(map_seq(I, n, lambda ix, sub: f(*ts, zi(ix))))
@L.ext('statsmodels.tsa.seasonal.STL')
def _(I, *a, **kw):
    I.eng.assumed['statsmodels.tsa.seasonal.STL'] = 'the seasonal component is a sequence of the length of the input, a function of the input and of the settings'
    return I.call(I.eng.lookup_qual('contracts.abstract:AbstractSTL'), list(a), kw)

# ---- frames
@v('field')
def _(I, o, name):
    if isinstance(o, Obj) and name not in o.f: raise Unsupported('no attribute %s' % name)
    return I.getattr(o, name)
@v('clone')
def _(I, x): return clone_val(x, {})
@v('snapshot')
def _(I, *objs):
    m = {}
    return tuple(clone_val(o, m) for o in objs)
@v('require_unchanged')
def _(I, snap, *objs):
    name = 'unchanged'
    objs = list(objs)
    if objs and isinstance(objs[-1], str): name = objs.pop()
    for s, o in zip(snap, objs):
        I.ctx.obls.append(Obligation(name, list(I.ctx.pc), L.deep_eq(I, s, o)))
@v('is_instance_self')
def _(I, a, b): return a is b
@v('is_same_object')
def _(I, a, b): return a is b
@v('require_same_object')
def _(I, a, b, name='same object'):
    I.ctx.obls.append(Obligation(name, list(I.ctx.pc), z3.BoolVal(a is b)))
@v('require_permutation')
def _(I, out, src, name='permutation'):
    """out is a rearrangement of src: witnessed by the identity or by a permutation drawn on this path"""
    no, ns = out.length() if isinstance(out, PList) else len(out), src.length() if isinstance(src, PList) else len(src)
    if isinstance(no, int) and isinstance(ns, int):
        I.ctx.obls.append(Obligation(name, list(I.ctx.pc), L.tob(L.bagterm_of(I, out) == L.bagterm_of(I, src))))
        return
    last = None
    for pf, n in [(None, None)] + list(I.ctx.ghost.get('perms', [])):
        sk = I.ctx.fresh('sk', T.I)
        j = sk if pf is None else pf(sk)
        g = z3.And(zi(no) == zi(ns), z3.Implies(z3.And(sk >= 0, sk < zi(no)), L.deep_eq(I, out.seq.get(sk), src.seq.get(j))))
        if pf is not None: g = z3.And(zi(n) == zi(ns), g)
        last = g
        if T.entails(I.ctx.pc, g) == 'valid': break
    I.ctx.obls.append(Obligation(name, list(I.ctx.pc), last))
@v('choose_bool')
def _(I): return I.ctx.choose(2) == 0
@v('fresh_real')
def _(I): return I.ctx.fresh('q', T.R)
@v('forget_shuffles')
def _(I): I.ctx.ghost['perms'] = []
@v('frozen')
def _(I, x): return x
@v('pick')
def _(I, b, x):
    """some value held by the bag (run-time twin chooses one; here: the arbitrary x, the caller assumes membership)"""
    return x
@v('positive')
def _(I, x): return L.compare(I, 'Gt', scal(x), 0)
@v('sqrt')
def _(I, x): return L.sqrt(I, scal(x))

@v('norm_cdf')
def _(I, z): return L.phi(I, scal(z))
def pred_at(I, pred, s, ix):
    return merged_eval(I, lambda sub: num(L.truthterm(sub, sub.call(pred, [s.seq.fam.get(ix)], {}))))
@v('lemma_var_nonneg')
def _(I, b):
    """a mean of squared deviations is not negative (Cauchy-Schwarz: size * sum of squares >= square of the sum)"""
    I.eng.assumed['lemma: variance of a multiset is not negative'] = 'mathematical fact, stated by the contract'
    if I.ctx.known(bsize(B(b)) >= 1): I.ctx.assume(L.compare(I, 'GtE', EXT['vlib.bag_var'](I, b), 0))
@v('lemma_count_bounds')
def _(I, pred, s):
    """induction over the length: every summand is 0 or 1, so the count lies between 0 and the length"""
    c = EXT['vlib.count'](I, pred, s)
    n = s.length()
    I.ctx.assume(z3.And(to_term(c) >= 0, to_term(c) <= zi(n)))
@v('lemma_count_le')
def _(I, p1, p2, s):
    """induction over the length: if p1 implies p2 for every item, p1 counts at most as many items"""
    if s.is_conc(): return
    ix = I.ctx.fresh('ix', T.I)
    f = L.lor(L.lnot(L.truthterm(I, I.call(p1, [s.seq.fam.get(ix)], {}))), L.truthterm(I, I.call(p2, [s.seq.fam.get(ix)], {})))
    if T.entails(I.ctx.pc, L.tob(f)) != 'valid': return
    I.ctx.assume(to_term(EXT['vlib.count'](I, p1, s)) <= to_term(EXT['vlib.count'](I, p2, s)))
@v('zero_if_rounding')
def _(I, x): return x
@v('leq')
def _(I, a, b): return L.compare(I, 'LtE', scal(a), scal(b))
@v('not_positive')
def _(I, x, b): return L.compare(I, 'LtE', scal(x), 0)
@v('n_distinct')
def _(I, s): return L.set_len(I, L.BUILTINS['set'].fn(I, [s], {}))
def _metric(path, second):
    def f(I, y_true=None, y_pred=None, *a, **kw):
        if second in kw: y_pred = kw.pop(second)
        return L.ext_pure(I, path, [y_true, y_pred] + list(a), kw, 'real')
    EXT[path] = f
for _p, _s in (('precision_score', 'y_pred'), ('recall_score', 'y_pred'), ('roc_auc_score', 'y_score'), ('average_precision_score', 'y_score')): _metric('sklearn.metrics.' + _p, _s)
@v('some_rows')
def _(I, name, m, d):
    """m arbitrary rows of d numbers"""
    fs = [T.uf_family('%s.%d' % (name, j), 'real') for j in range(d)]
    return PList(seq=Seq(T.Fam(name, 'obj', lambda i: arr_of([f.get(i) for f in fs])), 0, m))
@v('some_reals')
def _(I, name, m): return PList(seq=Seq(T.uf_family(name, 'real'), 0, m))
@v('fresh_reals')
def _(I, m): return PList(seq=Seq(T.uf_family(I.ctx.fname('freal'), 'real'), 0, m))
@v('same_draws')
def _(I): return None
@v('some_ints')
def _(I, name, m): return PList(seq=Seq(T.uf_family(name, 'int'), 0, m))
@L.ext('pyod.models.iforest.IForest')
def _(I, *a, **kw):
    I.eng.assumed['pyod.models.iforest.IForest'] = 'scores are a function of the keyword arguments, the training data and the instance'
    return I.call(I.eng.lookup_qual('contracts.abstract:AbstractIForest'), list(a), kw)
def _comb(path, names, defaults):
    @L.ext(path)
    def f(I, *a, **kw):
        vals = dict(defaults)
        for k, x in zip(names, a): vals[k] = x
        for k in kw:
            if k not in names: raise err('TypeError', 'unexpected keyword')
            vals[k] = kw[k]
        missing = [k for k in names if k not in vals]
        if missing: raise err('TypeError', 'missing argument')
        I.eng.assumed[path] = 'function of its arguments (and of the random draws, for a random bucket assignment)'
        return L.ext_pure(I, path, [vals[k] for k in names], {}, 'obj')
_B = {'n_buckets': 5, 'method': 'static', 'bootstrap_estimators': False, 'random_state': None}
_comb('pyod.models.combination.average', ('scores', 'estimator_weights'), {'estimator_weights': None})
_comb('pyod.models.combination.maximization', ('scores',), {})
_comb('pyod.models.combination.median', ('scores',), {})
for _n in ('aom', 'moa'): _comb('pyod.models.combination.' + _n, ('scores', 'n_buckets', 'method', 'bootstrap_estimators', 'random_state'), _B)
@v('drain')
def _(I, f):
    try: r = I.call(f, [], {})
    except PyRaise as e:
        if getattr(e.cls, 'name', '') != 'AssertionError': raise
        y = getattr(e, 'yielded', None)
        return (y if y is not None else PList([]), True)
    return (L.to_list(I, r), False)
@v('frame_of')
def _(I, rows, d): return Frame(N.asarray(I, rows))
@v('series_of')
def _(I, ints): return Frame(N.asarray(I, ints))

@v('retained')
def _(I, tree):
    l = tree.f['leaves']
    if l.f['named'].items: raise Unsupported('named leaf left in a tree')
    return (l.f['idx'], l.f['pts'])
@L.ext('rrcf.rrcf.RCTree')
def _(I, *a, **kw):
    I.eng.assumed['rrcf.RCTree'] = 'insert/forget/find_duplicate add, remove and look up exactly the named index; the displacement is a function of the calls so far'
    return I.call(I.eng.lookup_qual('contracts.abstract:AbstractRCTree'), list(a), kw)

# dendrograms
def _abs(I, name, *a): return I.call(I.eng.lookup_qual('contracts.abstract:' + name), list(a), {})
@v('fresh_int')
def _(I): return I.ctx.fresh('i', T.I)
@v('some_leaves')
def _(I, n): return PList(seq=Seq(T.uf_family('leaf', 'int'), 0, n))
@v('dendrogram')
def _(I, leaves, a): return _abs(I, 'AbstractNode', leaves)
@v('cut')
def _(I, node, m):
    if not isinstance(node, Obj) or node.cls.name != 'AbstractNode': raise Unsupported('cut of something else than a tree')
    return PList([_abs(I, 'AbstractBlocks', node.f['leaves'], m)])
@v('any_matrix')
def _(I, n): return _abs(I, 'AbstractMatrix', n)
@v('require_blocks')
def _(I, blocks, leaves, m):
    if not isinstance(blocks, PList) or not blocks.is_conc(): raise Unsupported('blocks of the feature map')
    parts = []
    for b in blocks.items:
        if isinstance(b, Obj) and b.cls.name == 'AbstractBlocks':
            parts.append(b.f['leaves'])
            g = L.truthterm(I, L.compare(I, 'LtE', b.f['m'], m))
        else:
            parts.append(L.to_list(I, b))
            g = L.truthterm(I, L.compare(I, 'LtE', parts[-1].length(), m))
        I.ctx.obls.append(Obligation('no autoencoder gets more than max_size_ae features', list(I.ctx.pc), L.tob(g)))
    name = 'every feature belongs to exactly one autoencoder'
    import itertools
    last = z3.BoolVal(False)
    if len(parts) > 4: raise Unsupported('blocks of the feature map')
    for order in itertools.permutations(parts):
        flat = PList([])
        for p in order: flat = L.list_concat(I, flat, p)
        g = L.tob(L.deep_eq(I, flat, leaves))
        if T.entails(I.ctx.pc, g) == 'valid':
            I.ctx.obls.append(Obligation(name, list(I.ctx.pc), g))
            return
        sk = I.ctx.fresh('sk', T.I)
        for pf, n in I.ctx.ghost.get('perms', []):
            if flat.is_conc() or leaves.is_conc(): continue
            g2 = z3.And(zi(flat.length()) == zi(leaves.length()), zi(n) == zi(leaves.length()), z3.Implies(z3.And(sk >= 0, sk < zi(n)), L.deep_eq(I, flat.seq.get(sk), leaves.seq.get(pf(sk)))))
            if T.entails(I.ctx.pc, g2) == 'valid':
                I.ctx.obls.append(Obligation(name, list(I.ctx.pc), g2))
                return
        last = g
    I.ctx.obls.append(Obligation(name, list(I.ctx.pc), last))
@L.ext('numpy.triu_indices')
def _(I, n, k=0, m=None): return ExtObj(I.ctx.fresh('triu', T.U), 'triu')
@L.ext('scipy.cluster.hierarchy.linkage')
def _(I, y, *a, **kw):
    if not isinstance(y, Obj) or y.cls.name != 'AbstractDistances': raise Unsupported('linkage')
    if I.truth(L.compare(I, 'LtE', y.f['n'], 1)): raise err('ValueError', 'The number of observations cannot be determined on an empty distance matrix.')
    return y
@L.ext('scipy.cluster.hierarchy.to_tree')
def _(I, Z, rd=False):
    if not isinstance(Z, Obj) or Z.cls.name != 'AbstractDistances' or rd is not False: raise Unsupported('to_tree')
    I.eng.assumed['scipy.cluster.hierarchy'] = 'linkage and to_tree give a binary tree whose leaves are each observation once; pre_order lists them from left to right'
    n = Z.f['n']
    p = z3.Function(I.ctx.fname('leaf.order'), T.I, T.I)
    I.ctx.ghost.setdefault('perms', []).append((lambda j: p(zi(j)), n))
    return _abs(I, 'AbstractNode', PList(seq=Seq(T.Fam(I.ctx.fname('leaves'), 'int', lambda i: p(zi(i))), 0, n)))

@v('forall_values')
def _(I, d, pred):
    """pred of every value of the dictionary"""
    if d.sym is None:
        r = True
        for x in d.items.values(): r = L.land(r, L.truthterm(I, I.call(pred, [x], {})))
        return r
    m = d.sym
    q = tuple(I.ctx.fresh('key', T.R) for _ in range(m.nkey))
    t = z3.Implies(L.tob(m.has(q)), L.tob(L.truthterm(I, I.call(pred, [m.get(q)], {}))))
    if not getattr(I.ctx, 'assuming', False): return t
    if not m.ufs: raise Unsupported('forall_values of a changed dictionary')
    def ax(a, t=t, q=q): return [z3.substitute(t, *[(x, a.arg(j)) for j, x in enumerate(q)])]
    for f in m.ufs: T.UFAX[f.name()] = ax
    return True
