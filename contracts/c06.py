"""C06: running and absolute statistics."""
from vlib import *
from contracts.abstract import AbstractStatistic
from pysad.statistics.running_statistic import RunningStatistic
from pysad.statistics.abs_statistic import AbsStatistic

class RunningStatisticContract:
    prop = 'C06'
    params = {'w': 'int>=1', 'tag': 'int'}
    streams = {'x': 'real'}
    def init(self, w, tag):
        self.w = w
        self.tag = tag
        self.obj = RunningStatistic(AbstractStatistic, w, tag=tag)
    def on_update(self, x):
        r = self.obj.update(x)
        require_same_object(r, self.obj, 'update returns the statistic itself')
    def check(self):
        require_eq(self.obj.get(), abstract_real('statistic', self.tag, bag_of(last(self.hist, self.w))), 'get is the statistic of the last w values')
        require_eq(self.obj.get(), abstract_real('statistic', self.tag, bag_of(last(self.hist, self.w))), 'reading does not change it')
    def views(self):
        return [last(self.hist, self.w), bag_of(last(self.hist, self.w)), bag_of(self.hist), self.n]

class RunningStatisticDefaultContract(RunningStatisticContract):
    """no keyword arguments"""
    params = {'w': 'int>=1'}
    def init(self, w):
        self.w = w
        self.tag = 0
        self.obj = RunningStatistic(AbstractStatistic, w)

class AbsStatisticContract:
    prop = 'C06'
    params = {'tag': 'int'}
    args = {'v': 'real'}
    def init(self, tag):
        self.tag = tag
        self.obj = AbsStatistic(AbstractStatistic, tag=tag)
        self.g_bag = bag_empty()
    def op_update(self, v):
        r = self.obj.update(v)
        self.g_bag = bag_add(self.g_bag, v)
        require_same_object(r, self.obj, 'update returns the statistic itself')
    def op_remove(self, v):
        v = pick(self.g_bag, v)
        assume(bag_has(self.g_bag, v))
        r = self.obj.remove(v)
        self.g_bag = bag_remove(self.g_bag, v)
        require_same_object(r, self.obj, 'remove returns the statistic itself')
    def check(self):
        require_eq(self.obj.get(), abs(abstract_real('statistic', self.tag, self.g_bag)), 'get is the absolute value of the wrapped statistic')
        require_eq(self.obj.get(), abs(abstract_real('statistic', self.tag, self.g_bag)), 'reading does not change it')
    def views(self):
        return [self.g_bag]
