"""C07: score postprocessors."""
from vlib import *
from contracts.specs import METERS
from pysad.transform.postprocessing.postprocessors import AveragePostprocessor, MaxPostprocessor, MedianPostprocessor, ZScorePostprocessor
from pysad.transform.postprocessing.running_postprocessors import RunningAveragePostprocessor, RunningMaxPostprocessor, RunningMedianPostprocessor, RunningZScorePostprocessor

class PostBase:
    prop = 'C07'
    params = {'w': 'int>=1'}
    streams = {'x': 'real'}
    args = {'q': 'real'}
    uses = METERS
    running = True
    def init(self, w):
        self.w = w
        self.obj = self.make(w)
    def retained(self):
        if self.running:
            return last(self.hist, self.w)
        return self.hist
    def on_fit(self, x):
        r = self.obj.fit_partial(x)
        require_same_object(r, self.obj, 'fit_partial returns the postprocessor')
    def op_transform(self, q):
        if self.n >= 1:
            self.output(q)
            self.output(q)
    def output(self, q):
        require_close(self.obj.transform_partial(q), self.expected(bag_of(self.retained()), q), 'transform_partial is the statistic of the fitted scores')
    def views(self):
        b = bag_of(self.retained())
        return [self.retained(), b, bag_size(b), bag_sum(b), bag_sumsq(b), bag_max(b)]

class AverageContract(PostBase):
    running = False
    def make(self, w):
        return AveragePostprocessor()
    def expected(self, b, q):
        return bag_mean(b)

class MaxContract(PostBase):
    running = False
    def make(self, w):
        return MaxPostprocessor()
    def expected(self, b, q):
        return bag_max(b)

class MedianContract(PostBase):
    running = False
    def make(self, w):
        return MedianPostprocessor()
    def expected(self, b, q):
        return bag_median(b)

class ZScoreContract(PostBase):
    running = False
    def make(self, w):
        return ZScorePostprocessor()
    def output(self, q):
        b = bag_of(self.retained())
        if positive(bag_var(b)):
            require_close(self.obj.transform_partial(q), (q - bag_mean(b)) / sqrt(bag_var(b)), 'transform_partial is the z-score over the fitted scores')

class RunningAverageContract(PostBase):
    def make(self, w):
        return RunningAveragePostprocessor(w)
    def expected(self, b, q):
        return bag_mean(b)

class RunningMaxContract(PostBase):
    def make(self, w):
        return RunningMaxPostprocessor(w)
    def expected(self, b, q):
        return bag_max(b)

class RunningMedianContract(PostBase):
    def make(self, w):
        return RunningMedianPostprocessor(w)
    def expected(self, b, q):
        return bag_median(b)

class RunningZScoreContract(ZScoreContract):
    running = True
    def make(self, w):
        return RunningZScorePostprocessor(w)
