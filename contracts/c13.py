"""C13: simple detectors."""
from vlib import *
from contracts.specs import METERS, WINDOWS
from pysad.models.standard_absolute_deviation import StandardAbsoluteDeviation
from pysad.models.median_absolute_deviation import MedianAbsoluteDeviation
from pysad.models.exact_storm import ExactStorm
from pysad.models.perfect_model import PerfectModel
from pysad.models.null_model import NullModel

class DeviationBase:
    prop = 'C13'
    streams = {'x': 'real'}
    args = {'q': 'real'}
    uses = METERS
    longest = 200
    def on_fit(self, x):
        r = self.obj.fit_partial(array_of([x]))
        require_same_object(r, self.obj, 'fit_partial returns the detector itself')
        self.fitted(x)
    def fitted(self, x):
        pass
    def op_score(self, q):
        if self.n >= 1:
            self.output(q)
            self.output(q)
    def close(self, q, e):
        if self.absolute:
            e = abs(e)
        require_close(scalar(self.obj.score_partial(array_of([q]))), e, 'the documented score')

class StandardDeviationContract(DeviationBase):
    params = {'sub': ['mean', 'median'], 'absolute': 'bool'}
    def init(self, sub, absolute):
        self.sub = sub
        self.absolute = absolute
        self.obj = StandardAbsoluteDeviation(substracted_statistic=sub, absolute=absolute)
    def output(self, q):
        b = bag_of(self.hist)
        c = bag_mean(b) if self.sub == 'mean' else bag_median(b)
        v = bag_var(b)
        lemma_var_nonneg(b)
        if positive(v):
            self.close(q, (q - c) / (sqrt(v) + 0.0000000001))
        elif not_positive(v, b):
            self.close(q, (q - c) / (sqrt(zero_if_rounding(v)) + 0.0000000001))
    def views(self):
        b = bag_of(self.hist)
        return [b, bag_size(b), bag_sum(b), bag_sumsq(b), self.hist]

class MedianDeviationContract(DeviationBase):
    params = {'absolute': 'bool', 'b': 'real>0'}
    def init(self, absolute, b):
        self.absolute = absolute
        self.b = b
        self.g_dev = bag_empty()
        self.obj = MedianAbsoluteDeviation(absolute=absolute, b=b)
    def fitted(self, x):
        self.g_dev = bag_add(self.g_dev, abs(x - bag_median(bag_of(self.hist))))
    def output(self, q):
        self.close(q, (q - bag_median(bag_of(self.hist))) / (self.b * bag_median(self.g_dev) + 0.0000000001))
    def inv(self):
        return [bag_size(self.g_dev) == self.n, bag_min(self.g_dev) >= 0]
    def views(self):
        b = bag_of(self.hist)
        return [b, bag_size(b), self.g_dev, self.hist]

class StandardDeviationArgumentContract:
    prop = 'C13'
    params = {'bad': ['mode', 'average', '', 'Mean']}
    def init(self, bad):
        ok = False
        try:
            StandardAbsoluteDeviation(substracted_statistic=bad)
        except ValueError:
            ok = True
        require(ok, 'unknown statistics are rejected with ValueError')

class ExactStormContract:
    prop = 'C13'
    params = {'w': 'int>=1', 'r': 'real>0'}
    streams = {'x': ('vec', 2)}
    args = {'q': ('vec', 2)}
    uses = WINDOWS
    def init(self, w, r):
        self.w = w
        self.r = r
        self.obj = ExactStorm(window_size=w, max_radius=r)
    def on_fit(self, x):
        r = self.obj.fit_partial(x)
        require_same_object(r, self.obj, 'fit_partial returns the detector itself')
    def op_score(self, q):
        self.output(q)
        self.output(q)
    def output(self, q):
        s = self.obj.score_partial(q)
        k = last(self.hist, self.w)
        if len(k) <= 1:
            require_close(s, 0, 'score 0 without other retained instances')
        else:
            o = k[0:len(k) - 1]
            require_close(s, count(lambda v: dist(v, q) < self.r, o) / len(o), 'fraction of the retained instances other than the newest within the radius')
    def views(self):
        return [last(self.hist, self.w), self.hist]

class PerfectModelContract:
    prop = 'C13'
    streams = {'y': 'int'}
    args = {'q': ('vec', 2)}
    def init(self):
        self.g_read = 0
        self.obj = PerfectModel()
    def on_fit(self, y):
        r = self.obj.fit_partial(array_of([0, 0]), y)
        require_same_object(r, self.obj, 'fit_partial returns the detector itself')
    def op_fit_without_label(self, q):
        ok = False
        try:
            self.obj.fit_partial(q, None)
        except ValueError:
            ok = True
        require(ok, 'a missing label is rejected with ValueError')
    def op_score(self, q):
        if self.g_read < self.n:
            require_eq(self.obj.score_partial(q), self.hist[self.g_read], 'labels are returned in first-in first-out order')
            self.g_read = self.g_read + 1
    def inv(self):
        return [self.g_read >= 0, self.g_read <= self.n]
    def views(self):
        return [self.hist[self.g_read:self.n], self.g_read, self.n]

class NullModelContract:
    prop = 'C13'
    streams = {'x': ('vec', 2)}
    args = {'q': ('vec', 2)}
    def init(self):
        self.obj = NullModel()
    def on_fit(self, x):
        require_same_object(self.obj.fit_partial(x), self.obj, 'fit_partial returns the detector itself')
        self.op_score(x)
    def op_score(self, q):
        require_eq(self.obj.score_partial(q), 0.5, 'the null detector scores 0.5')
