"""C23: score ensemblers and instance scalers."""
from vlib import *
import numpy as np
from pyod.models.combination import average, maximization, median, aom, moa
from pysad.transform.ensemble import AverageScoreEnsembler, MaximumScoreEnsembler, MedianScoreEnsembler, AverageOfMaximumScoreEnsembler, MaximumOfAverageScoreEnsembler
from pysad.transform.preprocessing import IdentityScaler, InstanceStandardScaler, InstanceUnitNormScaler

class EnsemblerBase:
    prop = 'C23'
    streams = {}
    args = {'m': 'nat'}
    def size(self, m):
        return m + 1
    def op_fit(self, m):
        x = array_of(fresh_reals(self.size(m)))
        s = snapshot(x)
        r = self.obj.fit_partial(x)
        require_same_object(r, self.obj, 'fit_partial returns the ensembler')
        require_unchanged(s, x, 'the fitted scores are not modified')
    def op_transform(self, m):
        x = array_of(fresh_reals(self.size(m)))
        same_draws()
        want = self.spec(x.reshape(1, -1))
        s = snapshot(x)
        same_draws()
        require_close(self.obj.transform_partial(x), want, 'the PyOD combination of exactly these scores')
        require_unchanged(s, x, 'the scores are not modified')
    def op_fit_transform(self, m):
        x = array_of(fresh_reals(self.size(m)))
        same_draws()
        want = self.spec(x.reshape(1, -1))
        same_draws()
        require_close(self.obj.fit_transform_partial(x), want, 'the PyOD combination of exactly these scores')

class AverageContract(EnsemblerBase):
    params = {'n': 'int>=0', 'weighted': [True, False]}
    def init(self, n, weighted):
        self.n_scores = n + 1
        self.w = array_of([item(fresh_reals(n + 1), i) * 0.5 + i + 101.0 for i in range(n + 1)]).reshape(1, -1) if weighted else None
        self.weighted = weighted
        self.obj = AverageScoreEnsembler(estimator_weights=self.w)
    def size(self, m):
        return self.n_scores if self.weighted else m + 1
    def spec(self, x):
        return average(x, estimator_weights=self.w)

class DefaultAverageContract(EnsemblerBase):
    def init(self):
        self.obj = AverageScoreEnsembler()
    def spec(self, x):
        return average(x)

class MaximumContract(EnsemblerBase):
    def init(self):
        self.obj = MaximumScoreEnsembler()
    def spec(self, x):
        return maximization(x)

class MedianContract(EnsemblerBase):
    def init(self):
        self.obj = MedianScoreEnsembler()
    def spec(self, x):
        return median(x)

class BucketBase(EnsemblerBase):
    params = {'per': 'int>=1', 'n_buckets': 'int>=2', 'bootstrap': [True, False], 'kind': ['aom', 'moa']}
    def init(self, per, n_buckets, bootstrap, kind):
        self.n_scores = per * n_buckets
        self.n_buckets = n_buckets
        self.method = self.METHOD
        self.bootstrap = bootstrap
        self.kind = kind
        cls = AverageOfMaximumScoreEnsembler if kind == 'aom' else MaximumOfAverageScoreEnsembler
        self.obj = cls(n_buckets=n_buckets, method=self.METHOD, bootstrap_estimators=bootstrap)
    def size(self, m):
        return self.n_scores
    def spec(self, x):
        f = aom if self.kind == 'aom' else moa
        return f(x, n_buckets=self.n_buckets, method=self.method, bootstrap_estimators=self.bootstrap)

class StaticBucketContract(BucketBase):
    METHOD = 'static'
class DynamicBucketContract(BucketBase):
    """six estimators in the concrete run: the only sizes for which PyOD draws reproducibly"""
    METHOD = 'dynamic'
    def gen_per(rng): return 3
    def gen_n_buckets(rng): return 2

class DefaultBucketContract(EnsemblerBase):
    params = {'per': 'int>=1', 'kind': ['aom', 'moa']}
    def init(self, per, kind):
        self.n_scores = 5 * per
        self.kind = kind
        self.obj = AverageOfMaximumScoreEnsembler() if kind == 'aom' else MaximumOfAverageScoreEnsembler()
    def size(self, m):
        return self.n_scores
    def spec(self, x):
        return (aom if self.kind == 'aom' else moa)(x)

class ScalerBase:
    prop = 'C23'
    streams = {}
    args = {'m': 'nat', 'k': 'nat'}
    def op_fit(self, m):
        x = array_of(fresh_reals(m + 1))
        s = snapshot(x)
        r = self.obj.fit_partial(x)
        require_same_object(r, self.obj, 'fit_partial returns the scaler')
        require_unchanged(s, x, 'the fitted vector is not modified')
    def op_transform(self, m, k):
        q = fresh_reals(m + 1)
        x = array_of(q)
        s = snapshot(x)
        self.judge(self.obj.transform_partial(x), q, m + 1, k)
        require_unchanged(s, x, 'the vector is not modified')
    def op_fit_transform(self, m, k):
        q = fresh_reals(m + 1)
        self.judge(self.obj.fit_transform_partial(array_of(q)), q, m + 1, k)

class IdentityContract(ScalerBase):
    def init(self):
        self.obj = IdentityScaler()
    def judge(self, y, q, m, k):
        require_eq(list(y), q, 'the identity scaler returns its input')

class StandardContract(ScalerBase):
    def init(self):
        self.obj = InstanceStandardScaler()
    def judge(self, y, q, m, k):
        require(len(y) == m, 'as many features as the input')
        mean = range_sum(lambda i: item(q, i), 0, m) / m
        var = range_sum(lambda i: item(q, i) * item(q, i), 0, m) / m - mean * mean
        sd = sqrt(var) if positive(var) else 0.0
        if k < m and positive(var):
            require_close(y[k] * sd, item(q, k) - mean, '(x - mean of x) / standard deviation of x', scale=1e6)

class UnitNormContract(ScalerBase):
    params = {'pow': 'real'}
    def gen_pow(rng): return rng.choice([1, 2, 3, 0, 0.5, 1.5, 4.0, -1, np.inf, -np.inf])
    def init(self, pow):
        self.pow = pow
        self.obj = InstanceUnitNormScaler(pow=pow)
    def judge(self, y, q, m, k):
        require(len(y) == m, 'as many features as the input')
        nrm = np.linalg.norm(array_of(q), ord=self.pow)
        if k < m and positive(nrm):
            require_close(y[k] * nrm, item(q, k), 'x divided by its p-norm')

class EuclideanContract(ScalerBase):
    """the default power"""
    def init(self):
        self.obj = InstanceUnitNormScaler()
    def judge(self, y, q, m, k):
        require(len(y) == m, 'as many features as the input')
        ss = range_sum(lambda i: item(q, i) * item(q, i), 0, m)
        if k < m and positive(ss):
            require_close(y[k] * sqrt(ss), item(q, k), 'x divided by its Euclidean norm')

class AbsoluteContract(ScalerBase):
    """power 1"""
    def init(self):
        self.obj = InstanceUnitNormScaler(1)
    def judge(self, y, q, m, k):
        require(len(y) == m, 'as many features as the input')
        sa = range_sum(lambda i: abs(item(q, i)), 0, m)
        if k < m and positive(sa):
            require_close(y[k] * sa, item(q, k), 'x divided by its sum norm')
