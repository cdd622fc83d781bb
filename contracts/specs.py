"""Contracts of package classes as used by their callers (each is itself verified: C04, C05, C06)."""
from vlib import *

class MeterSpec:
    """C05: get() is the statistic of the multiset held"""
    def __init__(self):
        self.bag = bag_empty()
    def update(self, num):
        self.bag = bag_add(self.bag, num)
        return self
    def remove(self, num):
        require(bag_has(self.bag, num), 'precondition of remove: value held')
        self.bag = bag_remove(self.bag, num)
        return self

class CountMeterSpec(MeterSpec):
    def get(self):
        return bag_size(self.bag)

class SumMeterSpec(MeterSpec):
    def get(self):
        return bag_sum(self.bag)

class SumSquaresMeterSpec(MeterSpec):
    def get(self):
        return bag_sumsq(self.bag)

class AverageMeterSpec(MeterSpec):
    def get(self):
        return bag_mean(self.bag)

class VarianceMeterSpec(MeterSpec):
    def get(self):
        return bag_var(self.bag)

class MaxMeterSpec(MeterSpec):
    def get(self):
        return bag_max(self.bag)

class MinMeterSpec(MeterSpec):
    def get(self):
        return bag_min(self.bag)

class MedianMeterSpec(MeterSpec):
    def get(self):
        require(bag_size(self.bag) > 0, 'precondition of MedianMeter.get: a value is held')
        return bag_median(self.bag)

class RunningStatisticSpec:
    """C06: get() is the statistic of the last window_size values"""
    def __init__(self, statistic_cls, window_size, **kwargs):
        self.window_size = window_size
        self.inner = statistic_cls(**kwargs)
        self.items = []
    def update(self, num):
        self.items.append(num)
        self.items = last(self.items, self.window_size)
        return self
    def get(self):
        self.inner.bag = bag_of(self.items)
        return self.inner.get()

class WindowSpec:
    """C04"""
    def __init__(self, window_size):
        self.size = window_size
        self.items = []
    def update(self, num):
        self.items.append(num)
        self.items = last(self.items, self.size)
    def get(self):
        return self.items

class UnlimitedWindowSpec:
    def __init__(self):
        self.items = []
    def update(self, num):
        self.items.append(num)
    def get(self):
        return self.items

METERS = {'pysad.statistics.average_meter:AverageMeter': 'contracts.specs:AverageMeterSpec',
          'pysad.statistics.count_meter:CountMeter': 'contracts.specs:CountMeterSpec',
          'pysad.statistics.sum_meter:SumMeter': 'contracts.specs:SumMeterSpec',
          'pysad.statistics.sum_squares_meter:SumSquaresMeter': 'contracts.specs:SumSquaresMeterSpec',
          'pysad.statistics.variance_meter:VarianceMeter': 'contracts.specs:VarianceMeterSpec',
          'pysad.statistics.max_meter:MaxMeter': 'contracts.specs:MaxMeterSpec',
          'pysad.statistics.min_meter:MinMeter': 'contracts.specs:MinMeterSpec',
          'pysad.statistics.median_meter:MedianMeter': 'contracts.specs:MedianMeterSpec',
          'pysad.statistics.running_statistic:RunningStatistic': 'contracts.specs:RunningStatisticSpec'}
WINDOWS = {'pysad.utils.window:Window': 'contracts.specs:WindowSpec',
           'pysad.utils.window:UnlimitedWindow': 'contracts.specs:UnlimitedWindowSpec'}

METERS_WINDOWS = dict(METERS, **WINDOWS)
