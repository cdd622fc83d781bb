"""C08: probability calibrators."""
from vlib import *
from contracts.specs import METERS, WINDOWS
from pysad.transform.probability_calibration.conformal_prediction import ConformalProbabilityCalibrator
from pysad.transform.probability_calibration.gaussian_tail import GaussianTailProbabilityCalibrator

class CalibratorBase:
    prop = 'C08'
    params = {'w': 'int>=1', 'windowed': 'bool'}
    streams = {'x': 'real'}
    args = {'q': 'real', 'q2': 'real'}
    def init(self, w, windowed):
        self.w = w
        self.windowed = windowed
        self.obj = self.make(windowed, w)
    def retained(self):
        if self.windowed:
            return last(self.hist, self.w)
        return self.hist
    def on_fit(self, x):
        r = self.obj.fit_partial(x)
        require_same_object(r, self.obj, 'fit_partial returns the calibrator')
    def op_transform(self, q, q2):
        if self.n >= 1:
            a = self.output(q)
            b = self.output(q2)
            self.order(q, a, q2, b)
            require_close(self.obj.transform_partial(q), a, 'transforming again gives the same result')
    def views(self):
        b = bag_of(self.retained())
        return [self.retained(), b, bag_size(b), bag_sum(b), bag_sumsq(b)]

class ConformalContract(CalibratorBase):
    uses = WINDOWS
    def make(self, windowed, w):
        return ConformalProbabilityCalibrator(windowed=windowed, window_size=w)
    def output(self, q):
        s = self.retained()
        r = self.obj.transform_partial(q)
        require_close(r, count(lambda v: v > q, s) / len(s), 'output is the fraction of retained scores strictly greater than the score')
        lemma_count_bounds(lambda v: v > q, s)
        require(r >= 0, 'output is at least 0')
        require(r <= 1, 'output is at most 1')
        return r
    def order(self, q, a, q2, b):
        s = self.retained()
        if q <= q2:
            lemma_count_le(lambda v: v > q2, lambda v: v > q, s)
            require(leq(b, a), 'output never increases with the score')

class GaussianContract(CalibratorBase):
    uses = METERS
    def make(self, windowed, w):
        return GaussianTailProbabilityCalibrator(running_statistics=windowed, window_size=w)
    def output(self, q):
        b = bag_of(self.retained())
        r = self.obj.transform_partial(q)
        require(r >= 0, 'output is at least 0')
        require(r <= 1, 'output is at most 1')
        v = bag_var(b)
        if positive(v):
            require_close(r, norm_cdf((q - bag_mean(b)) / sqrt(v)), 'output is the normal cumulative probability')
        elif not_positive(v, b):
            require_close(r, norm_cdf(q - bag_mean(b)), 'output uses standard deviation 1 when the variance is not positive')
        return r
    def order(self, q, a, q2, b):
        if q <= q2:
            require(leq(a, b), 'output never decreases with the score')
