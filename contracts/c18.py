"""C18: seasonal-trend decomposer."""
from vlib import *
from vlib import RNG
import numpy as np
from pysad.transform.preprocessing.seasonal_trend_decomposer import SeasonalTrendDecomposer

class DecomposerBase:
    prop = 'C18'
    streams = {'x': ('vec', 2)}
    args = {'q': ('vec', 2)}
    weights = {'on_fit': 3, 'on_fit_transform': 3}
    longest = 150
    d = 2
    def trend(self, n):
        """mean of the last trend_window of the first n vectors"""
        if n == 0:
            return [0.0 for c in range(self.d)]
        if n < self.w:
            return [self.mean(c, 0, n) for c in range(self.d)]
        return [self.mean(c, n - self.w, n) for c in range(self.d)]
    def mean(self, c, a, b):
        return range_sum(lambda i: item(self.hist, i)[c], a, b) / (b - a)
    def deviation(self, j, c):
        return item(self.hist, j)[c] - self.mean(c, j + 1 - self.w, j + 1)
    def counted(self, j, phase):
        return (j >= self.w - 1) & (j % self.s == phase)
    def total(self, phase, c, n):
        return range_sum(lambda j: ite(self.counted(j, phase), lambda: self.deviation(j, c), lambda: 0.0), 0, n)
    def number(self, phase, n):
        return range_sum(lambda j: ite(self.counted(j, phase), lambda: 1, lambda: 0), 0, n)
    def seasonal(self, phase, n):
        for p in range(self.s):
            if p == phase:
                k = self.number(p, n)
                if k == 0:
                    return [0.0 for c in range(self.d)]
                return [self.total(p, c, n) / k for c in range(self.d)]
    def remainder(self, q, phase, n):
        t = self.trend(n)
        s = self.seasonal(phase, n)
        return [q[c] - t[c] - s[c] for c in range(self.d)]
    def on_fit(self, x):
        r = self.obj.fit_partial(x)
        require_same_object(r, self.obj, 'fit_partial returns the transformer')
    def on_fit_transform(self, x):
        r = self.obj.fit_transform_partial(x)
        require_close(list(r), self.remainder(x, (self.n - 1) % self.s, self.n), 'the combined call subtracts the estimates that include the new vector')
    def op_transform(self, q):
        require_close(list(self.obj.transform_partial(q)), self.remainder(q, self.n % self.s, self.n), 'the vector minus rolling trend minus seasonal average')
    def views(self):
        out = [self.n, last(self.hist, self.w)]
        for p in range(self.s):
            out = out + [self.number(p, self.n)] + [self.total(p, c, self.n) for c in range(self.d)]
        return out

class DecomposerContract(DecomposerBase):
    """every season length"""
    params = {'s': 'int>=1', 'w': 'int>=1'}
    def init(self, s, w):
        self.s = s
        self.w = w
        self.obj = SeasonalTrendDecomposer(s, w)
    def seasonal(self, phase, n):
        k = item([self.number(p, n) for p in range(self.s)], phase)
        if k == 0:
            return [0.0 for c in range(self.d)]
        t = item([array_of([self.total(p, c, n) for c in range(self.d)]) for p in range(self.s)], phase)
        return [t[c] / k for c in range(self.d)]
    def views(self):
        return [self.n, last(self.hist, self.w), [self.number(p, self.n) for p in range(self.s)], [array_of([self.total(p, c, self.n) for c in range(self.d)]) for p in range(self.s)]]

class DefaultTrendContract(DecomposerContract):
    """trend_window defaults to season_length"""
    params = {'s': 'int>=1'}
    def init(self, s):
        self.s = s
        self.w = s
        self.obj = SeasonalTrendDecomposer(s)

class SmallSeasons(DecomposerContract):
    """short seasons, on the real code only: many steps per phase"""
    mode = 'concrete'
    params = {'s': [1, 2, 3, 4], 'w': 'int>=1'}

class LongSeasons(DecomposerContract):
    """longer seasons, on the real code only"""
    mode = 'concrete'
    params = {'s': [5, 7, 12], 'w': 'int>=1'}

class ArgumentsContract:
    """season_length and trend_window below 1 are rejected"""
    prop = 'C18'
    params = {'s': 'int>=-3', 'w': 'int>=-3'}
    def init(self, s, w):
        try:
            SeasonalTrendDecomposer(s, w)
            bad = False
        except ValueError:
            bad = True
        require(bad == (s < 1 or w < 1), 'ValueError exactly for lengths below 1')
