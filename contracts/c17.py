"""C17: seasonal ESD detectors and the modified STL residual."""
from vlib import *
import numpy as np
from scipy.stats import t as student
from statsmodels.tsa.seasonal import STL
from pysad.models.seasonal_esd import SeasonalESD, SeasonalHybridESD
from pysad.transform.preprocessing.modified_stl_residual import ModifiedSTLResidualTransformer

def residuals(values, period, robust):
    """value minus seasonal component minus window median"""
    v = array_of(values)
    return v - STL(v, period=period, robust=robust).fit().seasonal - np.median(v)

class ResidualContract:
    prop = 'C17'
    streams = {'x': 'real'}
    args = {'q': 'real'}
    params = {'period': 'int>=2', 'extra': 'int>=0', 'robust': [True, False]}
    weights = {'on_fit': 3, 'on_fit_transform': 2}
    lengths = [4, 8, 15, 30]
    def gen_period(rng): return rng.choice([2, 2, 3, 4])
    def init(self, period, extra, robust):
        self.period = period
        self.w = 2 * period + extra
        self.robust = robust
        self.obj = ModifiedSTLResidualTransformer(period, window_size=self.w, robust=robust)
    def views(self):
        return [self.n, last(self.hist, self.w)]
    def facts(self):
        return [self.n < self.w, self.n >= self.w, self.n < 2 * self.period, self.n >= 2 * self.period]
    def spec(self, values):
        if len(values) < 2 * self.period:
            return 0.0
        return residuals(values, self.period, self.robust)[-1]
    def on_fit(self, x):
        r = self.obj.fit_partial(array_of([x]))
        require_same_object(r, self.obj, 'fit_partial returns the transformer')
    def op_transform(self, q):
        s = snapshot(self.obj)
        r = self.obj.transform_partial(array_of([q]))
        require_close(r, self.spec(last(concat(last(self.hist, self.w), [q]), self.w)), 'value minus seasonal component minus window median, 0 before two periods')
        require_unchanged(s, self.obj, 'transforming leaves the transformer unchanged')
    def on_fit_transform(self, x):
        r = self.obj.fit_transform_partial(array_of([x]))
        require_close(r, self.spec(last(self.hist, self.w)), 'combined call: residual of the value just fitted')

class ESDBase:
    prop = 'C17'
    streams = {'x': 'real'}
    args = {'q': 'real'}
    weights = {'on_fit': 3, 'on_fit_score': 2}
    lengths = [8, 15, 30, 40]
    def views(self):
        return [self.n, last(self.hist, self.w)]
    def facts(self):
        return [self.n < self.w, self.n >= self.w]
    def begin(self, cls, period, w, k, alpha):
        self.period = period
        self.w = w
        self.k = k
        self.alpha = alpha
        self.obj = cls(period, w, k, alpha=alpha)
    def critical(self, n, i):
        q = student.ppf(1.0 - self.alpha / (2.0 * (n - i + 1)), n - i - 1)
        return (n - i) * q / np.sqrt((n - i - 1 + q ** 2) * (n - i + 1))
    def esd(self, r):
        """(position, statistic) of the removed extremes up to the last one that exceeds its critical value"""
        n = len(r)
        rest = r
        where = np.arange(n)
        removed = []
        keep = 0
        for i in range(1, self.k + 1):
            c, s = self.centre_scale(rest)
            if s <= 1e-10:
                break
            d = np.abs(rest - c) / s
            j = int(np.argmax(d))
            removed.append((where[j], d[j]))
            if d[j] > self.critical(n, i):
                keep = i
            rest = np.delete(rest, j)
            where = np.delete(where, j)
        return removed[:keep]
    def spec(self, values):
        if len(values) < self.w:
            return 0.0
        for p, stat in self.esd(residuals(values, self.period, True)):
            if p == len(values) - 1:
                return stat
        return 0.0
    def on_fit(self, x):
        r = self.obj.fit_partial(array_of([x]))
        require_same_object(r, self.obj, 'fit_partial returns the detector')
    def op_score(self, q):
        s = snapshot(self.obj)
        split(self.n + 1 < self.w, self.n + 1 == self.w, self.n == self.w)
        r = self.obj.score_partial(array_of([q]))
        require_close(r, self.spec(last(concat(last(self.hist, self.w), [q]), self.w)), 'statistic of the newest value if it is among the detected anomalies, else 0')
        require_unchanged(s, self.obj, 'scoring leaves the detector unchanged')
    def on_fit_score(self, x):
        r = self.obj.fit_score_partial(array_of([x]))
        require_close(r, self.spec(last(self.hist, self.w)), 'combined call: score of the value just fitted')

class SeasonalESDContract(ESDBase):
    params = {'period': 'int>=2', 'extra': 'int>=1', 'k': [1, 2], 'alpha': 'real>0'}
    bounded = 'up to 2 anomalies in the proof (more are run concretely); window, period, significance unbounded'
    def gen_period(rng): return rng.choice([2, 2, 3])
    def gen_alpha(rng): return rng.choice([0.05, 0.3, 0.9])
    def init(self, period, extra, k, alpha):
        w = 2 * period + extra
        assume(alpha < 1)
        assume(k <= int(w * 0.49))
        self.begin(SeasonalESD, period, w, k, alpha)
    def centre_scale(self, v):
        return np.mean(v), np.std(v, ddof=1)

class SeasonalHybridESDContract(SeasonalESDContract):
    def init(self, period, extra, k, alpha):
        w = 2 * period + extra
        assume(alpha < 1)
        assume(k <= int(w * 0.49))
        self.begin(SeasonalHybridESD, period, w, k, alpha)
    def centre_scale(self, v):
        m = np.median(v)
        return m, 1.4826 * np.median(np.abs(v - m))

class ManyAnomaliesContract(SeasonalESDContract):
    """more anomalies, run only"""
    mode = 'concrete'
    params = {'period': 'int>=2', 'extra': 'int>=1', 'k': [1, 2, 3, 4, 5, 6], 'alpha': 'real>0'}
    def gen_extra(rng): return rng.choice([1, 3, 6, 10])

class ManyAnomaliesHybridContract(SeasonalHybridESDContract):
    """more anomalies, run only"""
    mode = 'concrete'
    params = {'period': 'int>=2', 'extra': 'int>=1', 'k': [1, 2, 3, 4, 5, 6], 'alpha': 'real>0'}
    def gen_extra(rng): return rng.choice([1, 3, 6, 10])
