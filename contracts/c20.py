"""C20: k-NN conformal detector and relative-entropy detector."""
from vlib import *
import math
import numpy as np
from scipy import stats
from pysad.models.knn_cad import KNNCAD
from pysad.models.relative_entropy import RelativeEntropy

class AnyMetricKNN(KNNCAD):
    """the detector over an arbitrary distance: any function of the number of fitted instances (the learnt matrix changes only then) and of the two vectors"""
    def _metric(self, a, b):
        return abstract_real('distance', self.record_count, list(a), list(b))

class KNNContract:
    prop = 'C20'
    streams = {'x': 'real'}
    args = {'q': 'real'}
    params = {'P': 'int>=48'}
    lengths = [10, 40, 60, 130, 200]
    def init(self, P):
        self.P = P
        self.obj = AnyMetricKNN(P)
    def vectors(self, a, b):
        """the lag vectors ending after the a-th up to the b-th instance"""
        return [self.hist[e - 19:e] for e in range(a, b + 1)]
    def views(self):
        n, P = self.n, self.P
        return [n, self.hist, ite(n < P, lambda: ite(n < 19, lambda: 0, lambda: n - 18), lambda: P - 19), ite(n < P, lambda: 0, lambda: ite(n < 2 * P, lambda: n - P + 1, lambda: P)),
                ite(n < P, lambda: 0, lambda: P - 19)] + self.content()
    def content(self):
        n, P = self.n, self.P
        if n < P:
            return [self.vectors(19, n), []]
        if n < 2 * P:
            return [self.vectors(19, P - 1), self.vectors(P, n)]
        return [self.vectors(n - 2 * P + 20, n - P), self.vectors(n - P + 1, n)]
    def facts(self):
        return [self.n < 19, self.n < self.P, self.n < 2 * self.P, self.n >= 19, self.n >= self.P, self.n >= 2 * self.P]
    def on_x(self, x):
        v = array_of([x])
        r = self.obj.fit_partial(v)
        require_same_object(r, self.obj, 'fit_partial returns the detector')
    def op_score(self, q):
        s = self.obj.score_partial(array_of([q]))
        if self.n < self.P:
            require_eq(s, 0.0, 'score 0.0 until the probationary period is over')
        else:
            require(0 <= s and s <= 1, 'scores lie in [0, 1]')
    def check(self):
        if self.n >= self.P:
            require_eq(len(field(self.obj, 'training')), self.P - 19, 'the number of training vectors stays constant')
            require_eq(len(field(self.obj, 'scores')), self.P - 19, 'the number of calibration scores stays constant')

class RelativeEntropyContract:
    prop = 'C20'
    streams = {'x': 'real'}
    args = {'q': 'real'}
    params = {'lo': 'real', 'width': 'real>0', 'bins': 'int>=2', 'W': 'int>=1'}
    def init(self, lo, width, bins, W):
        self.lo = lo
        self.hi = lo + width
        self.bins = bins
        self.W = W
        self.obj = RelativeEntropy(lo, self.hi, num_bins=bins, window_size=W)
    def views(self):
        v = [self.n, self.hist, smap(lambda v: array_of([v]), self.hist)]
        if self.n >= self.W:
            return v + [self.distribution(self.hist[self.n - self.W:]), self.distribution(self.hist[:self.W])]
        return v + [0, 0]
    def facts(self):
        return [self.n < self.W, self.n >= self.W]
    def distribution(self, values):
        step = (self.hi - self.lo) / self.bins
        b = [math.ceil((v - self.lo) / step) for v in values]
        return np.histogram(b, bins=self.bins, range=(0, self.bins), density=True)[0]
    def spec(self):
        if self.n < self.W:
            return 0.0
        now = self.distribution(self.hist[self.n - self.W:])
        ref = self.distribution(self.hist[:self.W])
        t = 2 * self.W * stats.entropy(now, ref)
        limit = stats.chi2.isf(0.01, self.bins - 1)
        return 0 if t < limit and t < math.inf else -1
    def on_x(self, x):
        r = self.obj.fit_partial(array_of([x]))
        require_same_object(r, self.obj, 'fit_partial returns the detector')
    def op_score(self, q):
        require_eq(self.obj.score_partial(array_of([q])), self.spec(), 'index of the agreeing reference distribution, judged on the last window')

class RealKNNContract(KNNContract):
    """the real distance, run only"""
    mode = 'concrete'
    def init(self, P):
        self.P = P
        self.obj = KNNCAD(P)
