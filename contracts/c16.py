"""C16: RS-Hash."""
from vlib import *
import numpy as np
from pysad.models.rs_hash import RSHash

class RSHashContract:
    prop = 'C16'
    params = {'m': [1, 2], 'w': [1, 2], 'decay': 'real>0', 's': 'int>=1'}
    bounded = '2 features, up to 2 components and 2 hash tables in the proof (more are run concretely); decay, stream and random draws unbounded'
    streams = {'x': ('vec', 2)}
    args = {'q': ('vec', 2)}
    weights = {'on_fit': 4}
    longest = 300
    def gen_decay(rng): return rng.choice([0.015, 0.015, 0.1, 0.5, 1.0, 2.5])
    def gen_value(rng, name, kind, params):
        return np.array([rng.choice([-2.0, -1.0, 0.0, 0.0, 0.0, 0.25, 0.5, 0.5, 1.0, 1.0, 3.0]) for _ in range(kind[1])])
    def init(self, m, w, decay, s):
        self.begin(np.array([0.0, 0.0]), np.array([1.0, 1.0]), m, w, decay, s)
    def begin(self, mins, maxes, m, w, decay, s):
        self.m = m
        self.decay = decay
        self.s = s
        self.obj = RSHash(mins, maxes, s, decay, m, w)
        self.g_weights = {}
        self.g_score = 0.0
    def views(self):
        return [self.n, self.n + 1 - self.s, self.g_weights, self.g_score]
    def inv(self):
        return [self.n < 1 or self.g_score >= 0, forall_values(self.g_weights, lambda v: v[1] >= 0)]
    def bin_of(self, x, r):
        v = self.obj.V[r]
        return (r,) + tuple([int(np.floor((x[int(v[j])] + self.obj.alpha[r][j]) / self.obj.f[r])) for j in range(len(v))])
    def on_fit(self, x):
        now = self.n - self.s
        total = 0.0
        for r in range(self.m):
            key = self.bin_of(x, r)
            weight = 0.0
            if key in self.g_weights:
                t, before = self.g_weights[key]
                weight = before * np.power(2, -self.decay * (now - t))
            total = total + np.log(1 + weight)
            self.g_weights[key] = (now, weight + 1)
        self.g_score = total / self.m
        r = self.obj.fit_partial(x)
        require_same_object(r, self.obj, 'fit_partial returns the detector')
        self.reported(x)
    def op_score(self, q):
        if self.n >= 1:
            self.reported(q)
            self.reported(q)
    def reported(self, q):
        r = self.obj.score_partial(q)
        require_close(r, self.g_score, 'mean over components of the logarithm of one plus the smallest decayed weight of the last fitted instance')
        require(r >= 0, 'never negative')

class ConstantFeatureContract(RSHashContract):
    """a feature without range"""
    params = {'m': [1, 2], 'w': [1], 'decay': 'real>0', 's': 'int>=1'}
    def init(self, m, w, decay, s):
        self.begin(np.array([0.0, 1.0]), np.array([1.0, 1.0]), m, w, decay, s)

class ManyComponentsContract(RSHashContract):
    """more components, tables and features, run only"""
    mode = 'concrete'
    params = {'m': [1, 3, 10], 'w': [1, 2, 4], 'decay': 'real>0', 's': 'int>=1'}
    streams = {'x': ('vec', 4)}
    args = {'q': ('vec', 4)}
    def init(self, m, w, decay, s):
        self.begin(np.array([0.0, -1.0, 0.0, 2.0]), np.array([1.0, 1.0, 0.0, 3.0]), m, w, decay, s)
