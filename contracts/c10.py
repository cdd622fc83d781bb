"""C10: windowed metric."""
from vlib import *
from contracts.abstract import AbstractMetric
from pysad.evaluation.windowed_metric import WindowedMetric

class WindowedMetricContract:
    prop = 'C10'
    params = {'w': 'int>=1', 'ignore': 'bool', 'tag': 'int'}
    streams = {'y': 'U', 'p': 'real'}
    def init(self, w, ignore, tag):
        self.w = w
        self.ignore = ignore
        self.tag = tag
        self.g_sum = 0.0
        self.obj = self.make(w, ignore, tag)
    def make(self, w, ignore, tag):
        return WindowedMetric(AbstractMetric, w, ignore_nonempty_last=ignore, tag=tag)
    def score(self, k):
        return abstract_real('metric', self.tag, last(self.hist_y, k), last(self.hist_p, k))
    def on_update(self, y, p):
        r = self.obj.update(y, p)
        require_same_object(r, self.obj, 'update returns the metric')
        if self.n % self.w == 0:
            self.g_sum = self.g_sum + self.score(self.w)
    def op_read(self):
        self.output()
        self.output()
    def output(self):
        k = self.n // self.w
        r = self.n % self.w
        v = self.obj.get()
        if k == 0:
            require_close(v, self.score(self.n), 'before the first block completes: metric of everything seen so far')
        elif self.ignore or r == 0:
            require_close(v, self.g_sum / k, 'average of the metric over the complete blocks')
        else:
            require_close(v, (self.g_sum + self.score(r)) / (k + 1), 'average including the incomplete block')
    def views(self):
        k = self.n // self.w
        r = self.n % self.w
        return [last(self.hist_y, r), last(self.hist_p, r), self.g_sum, k, k + 1, r, self.n]

class WindowedMetricDefaultContract(WindowedMetricContract):
    """default: the incomplete block is ignored; no keyword arguments"""
    params = {'w': 'int>=1'}
    def init(self, w):
        self.w = w
        self.ignore = True
        self.tag = 0
        self.g_sum = 0.0
        self.obj = WindowedMetric(AbstractMetric, w)
