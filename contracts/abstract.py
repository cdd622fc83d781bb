"""Contracts of collaborators: classes whose behaviour is arbitrary except for the stated contract."""
from vlib import *
from pysad.core.base_model import BaseModel
from pysad.core.base_transformer import BaseTransformer
from pysad.core.base_postprocessor import BasePostprocessor

class AbstractStatistic:
    """any statistic: get() is some function of the constructor argument and of the multiset held"""
    def __init__(self, tag=0):
        self.tag = tag
        self.bag = bag_empty()
    def update(self, num):
        self.bag = bag_add(self.bag, num)
        return self
    def remove(self, num):
        require(bag_has(self.bag, num), 'only values that are held are removed from the wrapped statistic')
        self.bag = bag_remove(self.bag, num)
        return self
    def get(self):
        return abstract_real('statistic', self.tag, self.bag)

class AbstractMetric:
    """any metric: get() is some function of the constructor argument and of the recorded pairs"""
    def __init__(self, tag=0):
        self.tag = tag
        self.ys = []
        self.ps = []
    def update(self, y_true, y_pred):
        self.ys.append(y_true)
        self.ps.append(y_pred)
        return self
    def get(self):
        return abstract_real('metric', self.tag, self.ys, self.ps)

class AbstractDetector:
    """any batch detector: its scores are some function of the constructor argument, of the data it was trained on and of the instance"""
    def __init__(self, tag=0):
        self.tag = tag
        self.fits = 0
        self.X = []
        self.y = None
    def fit(self, X, y=None):
        self.fits = self.fits + 1
        self.X = list(X)
        self.y = None if y is None else list(y)
        return self
    def decision_function(self, X):
        return [abstract_real('detector', self.tag, self.fits, self.X, self.y, x) for x in X]

class AbstractIForest(AbstractDetector):
    """stands for pyod's IForest in the proof: arbitrary function of the keyword arguments, training data and instance"""
    def __init__(self, **kwargs):
        self.tag = tuple(sorted(kwargs.items()))
        self.fits = 0
        self.X = []
        self.y = None

def wrap(shape, s):
    """the ways a detector may hand out one score"""
    if shape == 'vector':
        return array_of([s])
    if shape == 'cell':
        return array_scalar(s)
    return s

class AbstractModel(BaseModel):
    """any detector: fitting moves it to some state depending on the old state, the instance and the label; its score is some function of state and instance"""
    def __init__(self, shape, state):
        self.shape = shape
        self.state = state
    def fit_partial(self, X, y=None):
        self.state = abstract_obj('fit', self.state, X, y)
        return self
    def score_partial(self, X):
        return wrap(self.shape, abstract_real('score', self.state, X))

class ReadingModel(AbstractModel):
    """scoring changes the state as well (as the label queue of the perfect model)"""
    def score_partial(self, X):
        s = abstract_real('score', self.state, X)
        self.state = abstract_obj('scored', self.state, X)
        return wrap(self.shape, s)

class AbstractTransformer(BaseTransformer):
    """any transformer with d outputs"""
    def __init__(self, d, declared, state):
        super().__init__(declared)
        self.d = d
        self.state = state
    def fit_partial(self, X):
        self.state = abstract_obj('fit', self.state, X)
        return self
    def transform_partial(self, X):
        r = array_of([abstract_real('out', self.state, X, j) for j in range(self.d)])
        self.state = abstract_obj('transformed', self.state, X)
        return r

class AbstractPostprocessor(BasePostprocessor):
    """any postprocessor"""
    def __init__(self, shape, state):
        self.shape = shape
        self.state = state
    def fit_partial(self, score):
        self.state = abstract_obj('fit', self.state, score)
        return self
    def transform_partial(self, score):
        s = abstract_real('post', self.state, score)
        self.state = abstract_obj('transformed', self.state, score)
        return wrap(self.shape, s)

class AbstractSTL:
    """stands for statsmodels' STL in the proof: any decomposition, a function of the data and of the settings"""
    def __init__(self, endog, period=None, **kwargs):
        self.endog = endog
        self.tag = (period, tuple(sorted(kwargs.items())))
    def fit(self):
        return AbstractSTLResult(len(self.endog), self.endog, self.tag)

class AbstractSTLResult:
    def __init__(self, n, endog, tag):
        self.seasonal = abstract_reals('seasonal', n, endog, tag)
        self.trend = abstract_reals('trend', n, endog, tag)
        self.resid = abstract_reals('resid', n, endog, tag)

class AbstractLeaves:
    """the leaves of a tree by index"""
    def __init__(self):
        self.idx = []
        self.pts = []
        self.named = {}
    def __len__(self):
        return len(self.idx) + len(self.named)

class AbstractRCTree:
    """stands for rrcf.RCTree in the proof: which points are held under which indices is exact, the arrangement of the tree
    (cuts, displacement) is an arbitrary function of all calls so far"""
    def __init__(self, X=None, index_labels=None, precision=9, random_state=None):
        self.leaves = AbstractLeaves()
        self.arrangement = abstract_obj('empty tree')
    def insert_point(self, point, index, tolerance=None):
        if isinstance(index, str):
            if index in self.leaves.named:
                raise AssertionError('index exists')
            self.leaves.named[index] = point
        else:
            if len(self.leaves.idx) > 0 and self.leaves.idx[-1] == index:
                raise AssertionError('index exists')
            self.leaves.idx.append(index)
            self.leaves.pts.append(point)
        self.arrangement = abstract_obj('insert', self.arrangement, point)
    def forget_point(self, index):
        l = self.leaves
        if isinstance(index, str):
            if index not in l.named:
                raise KeyError(index)
            l.named.pop(index)
        elif len(l.idx) == 0:
            raise KeyError(index)
        elif l.idx[0] == index:
            l.idx.pop(0)
            l.pts.pop(0)
        elif l.idx[-1] == index:
            l.idx.pop()
            l.pts.pop()
        elif index < l.idx[0] or index > l.idx[-1]:
            raise KeyError(index)
        else:
            i = l.idx.index(index)
            l.idx.pop(i)
            l.pts.pop(i)
        if isinstance(index, str):
            self.arrangement = abstract_obj('forget the probe', self.arrangement)
        else:
            self.arrangement = abstract_obj('forget', self.arrangement, index)
    def find_duplicate(self, point, tolerance=None):
        if len(self.leaves) == 0:
            raise AttributeError('empty tree')
        if abstract_int('duplicate', self.arrangement, point) > 500:
            return abstract_obj('leaf', self.arrangement, point)
        return None
    def codisp(self, leaf):
        if isinstance(leaf, str):
            if leaf not in self.leaves.named:
                raise KeyError(leaf)
            return abstract_real('codisp of the probe', self.arrangement)
        return abstract_real('codisp', self.arrangement, leaf)

PARTITIONS = {1: [[[0]]], 2: [[[0], [1]], [[0, 1]], [[1, 0]]],
              3: [[[0], [1], [2]], [[0], [1, 2]], [[2, 0], [1]], [[2], [0, 1]], [[0, 1, 2]], [[2, 1, 0]]]}

class AbstractFeatureMapper:
    """stands for corClust: the clustering is an arbitrary function of the instances seen; its contract (blocks that partition
    the features, none larger than allowed) is verified on the real code in BreakContract and ClusterContract"""
    def __init__(self, n):
        self.n = n
        self.state = abstract_obj('no instances', n)
    def update(self, x):
        self.state = abstract_obj('seen', self.state, list(x))
    def cluster(self, maxClust):
        c = abstract_int('clustering', self.state, maxClust)
        allowed = [p for p in PARTITIONS[self.n] if all([len(b) <= maxClust for b in p])]
        for i in range(len(allowed) - 1):
            if c == i:
                return [list(b) for b in allowed[i]]
        return [list(b) for b in allowed[-1]]

class AbstractAutoencoder:
    """stands for dA: an arbitrary learner; its error is a function of its parameters, the instances it was trained on and the instance"""
    def __init__(self, params):
        self.state = abstract_obj('untrained', params.n_visible, params.n_hidden, params.lr, params.corruption_level, params.gracePeriod, params.hiddenRatio)
    def train(self, x):
        r = abstract_real('training error', self.state, list(x))
        self.state = abstract_obj('trained', self.state, list(x))
        return r
    def execute(self, x):
        return abstract_real('error', self.state, list(x))

class AbstractNode:
    """a node of a dendrogram with at least one leaf: inner nodes split their leaves in two non-empty parts somewhere"""
    def __init__(self, leaves):
        self.leaves = leaves
        self.count = len(leaves)
        self.at = 0
    def pre_order(self, func=None):
        return list(self.leaves)
    def is_leaf(self):
        return self.count == 1
    def get_count(self):
        return self.count
    def border(self):
        if self.at == 0:
            self.at = fresh_int()
            assume(self.at >= 1)
            assume(self.at < self.count)
        return self.at
    def get_left(self):
        if self.count == 1:
            return None
        return AbstractNode(self.leaves[:self.border()])
    def get_right(self):
        if self.count == 1:
            return None
        return AbstractNode(self.leaves[self.border():])
    @property
    def left(self):
        return self.get_left()
    @property
    def right(self):
        return self.get_right()

class AbstractBlocks:
    """one or more consecutive blocks of at most m leaves"""
    def __init__(self, leaves, m):
        self.leaves = leaves
        self.m = m

class AbstractMatrix:
    def __init__(self, n):
        self.n = n
    def __getitem__(self, where):
        return AbstractDistances(self.n)

class AbstractDistances:
    """pairwise distances of n observations"""
    def __init__(self, n):
        self.n = n

class AbstractProjector:
    """stands for StreamhashProjector: any fixed map to num_components numbers; that fitting and projecting leave the projector
    as it is, and what the map computes, is verified on the real code in C22"""
    def __init__(self, num_components, density=1 / 3.0):
        self.output_dims = num_components
        self.density = density
    def fit_partial(self, X):
        return self
    def transform_partial(self, X):
        return array_of([abstract_real('projection', self.output_dims, self.density, list(X), j) for j in range(self.output_dims)])
    def fit_transform_partial(self, X):
        return self.transform_partial(X)
