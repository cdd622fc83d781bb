"""C15: xStream."""
from vlib import *
import numpy as np
from pysad.models.xstream import xStream
from pysad.transform.projection.streamhash_projector import StreamhashProjector

PROJECTOR = {'pysad.transform.projection.streamhash_projector:StreamhashProjector': 'contracts.abstract:AbstractProjector'}

class XStreamBase:
    prop = 'C15'
    uses = PROJECTOR
    longest = 150
    lengths = [3, 6, 12, 30, 60]
    weights = {'on_fit': 3}
    def gen_w(rng): return rng.choice([1, 2, 3, 5, 8, 25])
    def gen_value(rng, name, kind, params):
        return np.array([rng.choice([0.0, 0.0, 0.25, 0.5, -0.5, 1.0, 1.0, 2.0, -3.0, rng.randint(-16, 16) / 8.0, 1e10, 3e10]) if rng.random() < 0.9 else rng.uniform(-2, 2) for _ in range(kind[1])])
    def begin(self, k, chains, depth, w):
        self.k = k
        self.chains = chains
        self.depth = depth
        self.w = w
        self.obj = xStream(num_components=k, n_chains=chains, depth=depth, window_size=w)
        self.projector = StreamhashProjector(num_components=k)
        drawn = field(field(self.obj, 'hs_chains'), 'chains')
        self.fs = [list(field(c, 'fs')) for c in drawn]
        self.rand = [list(field(c, 'rand_arr')) for c in drawn]
        self.g_cur = [[{} for d in range(depth)] for c in range(chains)]
        self.g_ref = [[{} for d in range(depth)] for c in range(chains)]
        self.g_rows = []
        self.g_delta = [0.5 for j in range(k)]
    def facts(self):
        return [self.n < self.w, self.n >= self.w, self.n < 1, self.n >= 1]
    def views(self):
        out = [self.n, smap(lambda v: matrix_of([v], self.k), self.g_rows)] + self.g_delta
        for c in range(self.chains):
            out = out + self.g_cur[c] + self.g_ref[c] + [self.rand[c][j] * self.g_delta[j] for j in range(self.k)]
        return out
    def inv(self):
        return [v > 0 for v in self.g_delta] + [len(self.g_rows) == self.n % self.w]
    def bins(self, c, z):
        """bin of the projected instance on every level of chain c under the current ranges"""
        pre = [0.0 for j in range(self.k)]
        seen = [False for j in range(self.k)]
        out = []
        for d in range(self.depth):
            f = int(self.fs[c][d])
            shift = self.rand[c][f] * self.g_delta[f]
            if seen[f]:
                pre[f] = 2.0 * pre[f] - shift / self.g_delta[f]
            else:
                pre[f] = (z[f] + shift) / self.g_delta[f]
                seen[f] = True
            out.append(tuple([int(np.floor(v)) for v in pre]))
        return out
    def on_fit(self, x):
        z = self.projector.fit_transform_partial(x)
        for c in range(self.chains):
            b = self.bins(c, z)
            for d in range(self.depth):
                have = 0
                if b[d] in self.g_cur[c][d]:
                    have = self.g_cur[c][d][b[d]]
                self.g_cur[c][d][b[d]] = have + 1
        self.g_rows.append(z)
        if self.n % self.w == 0:
            spread = [bag_max(bag_of(smap(lambda v: v[j], self.g_rows))) - bag_min(bag_of(smap(lambda v: v[j], self.g_rows))) for j in range(self.k)]
            self.g_delta = [ite(s / 2.0 <= 0.0001, lambda: 1.0, lambda: s / 2.0) for s in spread]
            self.g_ref = self.g_cur
            self.g_cur = [[{} for d in range(self.depth)] for c in range(self.chains)]
            self.g_rows = []
        r = self.obj.fit_partial(x)
        require_same_object(r, self.obj, 'fit_partial returns the detector')
    def op_score(self, q):
        z = self.projector.fit_transform_partial(q)
        total = 0.0
        for c in range(self.chains):
            b = self.bins(c, z)
            levels = []
            for d in range(self.depth):
                held = self.g_cur[c][d] if self.n < self.w else self.g_ref[c][d]
                count = 0
                if b[d] in held:
                    count = held[b[d]]
                levels.append(np.log2(1.0 + count) + (d + 1))
            total = total + min(levels)
        require_close(self.obj.score_partial(q), -(total / self.chains), 'minus the mean over chains of the smallest log2(1 + count) + level, counts of the reference window')

class XStreamContract(XStreamBase):
    """one feature"""
    params = {'k': [1, 2], 'chains': [1], 'depth': [1, 2], 'w': 'int>=1'}
    streams = {'x': ('vec', 1)}
    args = {'q': ('vec', 1)}
    bounded = '1 feature, up to 2 components, 1 chain, up to 2 levels in the proof (more are run concretely); window size, stream and draws unbounded'
    def init(self, k, chains, depth, w):
        self.begin(k, chains, depth, w)

class ChainsContract(XStreamBase):
    """two chains, two features"""
    params = {'k': [1, 2], 'chains': [2], 'depth': [1], 'w': 'int>=1'}
    streams = {'x': ('vec', 2)}
    args = {'q': ('vec', 2)}
    bounded = '2 features, up to 2 components, 2 chains of 1 level in the proof (more are run concretely); window size, stream and draws unbounded'
    def init(self, k, chains, depth, w):
        self.begin(k, chains, depth, w)

class LargeContract(XStreamBase):
    """more features, components, chains and levels, run only"""
    mode = 'concrete'
    params = {'k': [1, 3, 8], 'chains': [2, 5], 'depth': [3, 8], 'w': 'int>=1'}
    streams = {'x': ('vec', 3)}
    args = {'q': ('vec', 3)}
    def init(self, k, chains, depth, w):
        self.begin(k, chains, depth, w)
