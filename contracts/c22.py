"""C22: streamhash projection."""
from vlib import *
from vlib import RNG
import numpy as np
import mmh3
from pysad.transform.projection.streamhash_projector import StreamhashProjector

class ProjectorBase:
    prop = 'C22'
    streams = {}
    def coefficient(self, k, i):
        h = int(mmh3.hash(str(i), signed=False, seed=k)) / (2.0 ** 32 - 1)
        c = sqrt(1.0 / self.density) / sqrt(self.K)
        return ite(h <= self.density / 2.0, lambda: -c, lambda: ite(h <= self.density, lambda: c, lambda: 0.0))
    def spec(self, x):
        out = []
        for k in range(self.K):
            s = 0.0
            for i in range(len(x)):
                s = s + x[i] * self.coefficient(k, i)
            out.append(s)
        return out
    def op_fit(self, q):
        s = snapshot(q)
        r = self.obj.fit_partial(q)
        require_same_object(r, self.obj, 'fit_partial returns the projector')
        require_unchanged(s, q, 'the fitted vector is not modified')
    def op_transform(self, q):
        s = snapshot(q)
        y = self.obj.transform_partial(q)
        require_close(list(y), self.spec(q), 'k-th number is the sum of x_i times the coefficient of (k, i)')
        require_unchanged(s, q, 'the projected vector is not modified')
    def op_fit_transform(self, q):
        y = self.obj.fit_transform_partial(q)
        require_close(list(y), self.spec(q), 'k-th number is the sum of x_i times the coefficient of (k, i)')

class ProjectorContract(ProjectorBase):
    args = {'q': ('vec', 3)}
    params = {'K': [1, 2, 3], 'density': 'real>0'}
    bounded = 'up to 3 components and 3 features in the proof; values, density and hash unbounded'
    def init(self, K, density):
        self.K = K
        self.density = density
        self.obj = StreamhashProjector(K, density)

class DefaultDensityContract(ProjectorBase):
    args = {'q': ('vec', 2)}
    params = {'K': [1, 2]}
    bounded = 'up to 2 components and 2 features in the proof; values and hash unbounded'
    def init(self, K):
        self.K = K
        self.density = 1.0 / 3
        self.obj = StreamhashProjector(K)

class AnySizeContract(ProjectorBase):
    """every number of components, every number of features: an arbitrary component of the result"""
    args = {'k': 'nat', 'm': 'nat'}
    params = {'K': 'int>=1', 'density': 'real>0'}
    def init(self, K, density):
        self.K = K
        self.density = density
        self.obj = StreamhashProjector(K, density)
    def op_fit(self, m):
        q = fresh_reals(m + 1)
        r = self.obj.fit_partial(array_of(q))
        require_same_object(r, self.obj, 'fit_partial returns the projector')
    def op_transform(self, m, k):
        q = fresh_reals(m + 1)
        self.judge(self.obj.transform_partial(array_of(q)), q, m + 1, k)
    def op_fit_transform(self, m, k):
        q = fresh_reals(m + 1)
        self.judge(self.obj.fit_transform_partial(array_of(q)), q, m + 1, k)
    def judge(self, y, q, m, k):
        require(len(y) == self.K, 'as many numbers as components')
        want = [range_sum(lambda i: item(q, i) * self.coefficient(j, i), 0, m) for j in range(self.K)]
        if k < self.K:
            require_close(y[k], want[k], 'k-th number is the sum of x_i times the coefficient of (k, i)')

class ManyComponentsContract(AnySizeContract):
    """hundreds of components and features, run only: every number of the result"""
    mode = 'concrete'
    args = {}
    params = {'K': 'int>=1', 'density': 'real>0', 'm': 'int>=1'}
    lengths = [1]
    bounded = 'up to 1100 components or 1100 features, random vectors'
    def gen_K(rng): return rng.choice([1, 2, 40, 257, 300, 520, 1100])
    def gen_m(rng): return rng.choice([1, 2, 3, 30, 260, 300, 1100])
    def init(self, K, density, m):
        if K * m > 40000:
            m = 40000 // K
        self.K = K
        self.m = m
        self.density = density
        self.obj = StreamhashProjector(K, density)
    def op_fit(self):
        q = fresh_reals(self.m)
        require_same_object(self.obj.fit_partial(array_of(q)), self.obj, 'fit_partial returns the projector')
    def op_transform(self):
        q = fresh_reals(self.m)
        require_close(list(self.obj.transform_partial(array_of(q))), self.spec(q), 'k-th number is the sum of x_i times the coefficient of (k, i)')
    def op_fit_transform(self):
        q = fresh_reals(self.m)
        require_close(list(self.obj.fit_transform_partial(array_of(q))), self.spec(q), 'k-th number is the sum of x_i times the coefficient of (k, i)')
