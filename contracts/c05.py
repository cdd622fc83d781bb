"""C05: statistic meters report the exact statistic of the multiset they hold."""
from vlib import *
from pysad.statistics.count_meter import CountMeter
from pysad.statistics.sum_meter import SumMeter
from pysad.statistics.sum_squares_meter import SumSquaresMeter
from pysad.statistics.average_meter import AverageMeter
from pysad.statistics.variance_meter import VarianceMeter
from pysad.statistics.max_meter import MaxMeter
from pysad.statistics.min_meter import MinMeter
from pysad.statistics.median_meter import MedianMeter

class MeterBase:
    prop = 'C05'
    args = {'v': 'real', 'w': 'real'}
    needs_item = False
    def init(self):
        self.obj = self.make()
        self.g_bag = bag_empty()
    def op_update(self, v):
        r = self.obj.update(v)
        self.g_bag = bag_add(self.g_bag, v)
        require_same_object(r, self.obj, 'update returns the meter')
    def op_remove(self, v):
        v = pick(self.g_bag, v)
        assume(bag_has(self.g_bag, v))
        r = self.obj.remove(v)
        self.g_bag = bag_remove(self.g_bag, v)
        require_same_object(r, self.obj, 'remove returns the meter')
    def agrees(self, name):
        if self.needs_item:
            if bag_size(self.g_bag) == 0:
                return
        require_close(self.obj.get(), self.expected(self.g_bag), name)
    def check(self):
        self.agrees('get is the statistic of the values held')
        self.agrees('reading twice gives the same value')
    def inv(self):
        return [bag_size(self.g_bag) >= 0]
    def views(self):
        return [self.g_bag, bag_size(self.g_bag), bag_sum(self.g_bag), bag_sumsq(self.g_bag)]

class CountMeterContract(MeterBase):
    def make(self):
        return CountMeter()
    def expected(self, b):
        return bag_size(b)

class SumMeterContract(MeterBase):
    def make(self):
        return SumMeter()
    def expected(self, b):
        return bag_sum(b)

class SumSquaresMeterContract(MeterBase):
    def make(self):
        return SumSquaresMeter()
    def expected(self, b):
        return bag_sumsq(b)

class AverageMeterContract(MeterBase):
    needs_item = True
    def make(self):
        return AverageMeter()
    def expected(self, b):
        return bag_mean(b)

class VarianceMeterContract(MeterBase):
    needs_item = True
    def make(self):
        return VarianceMeter()
    def expected(self, b):
        return bag_var(b)

class MaxMeterContract(MeterBase):
    def make(self):
        return MaxMeter()
    def expected(self, b):
        return bag_max(b)
    def views(self):
        return [self.g_bag, bag_size(self.g_bag), bag_max(self.g_bag)]

class MinMeterContract(MeterBase):
    def make(self):
        return MinMeter()
    def expected(self, b):
        return bag_min(b)
    def views(self):
        return [self.g_bag, bag_size(self.g_bag), bag_min(self.g_bag)]

class MedianMeterContract(MeterBase):
    needs_item = True
    def make(self):
        return MedianMeter()
    def expected(self, b):
        return bag_median(b)
    def views(self):
        return [self.g_bag, bag_size(self.g_bag)]
