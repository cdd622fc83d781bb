"""C01: stream simulators."""
from vlib import *
from pysad.utils.array_streamer import ArrayStreamer
from pysad.utils.pandas_streamer import PandasStreamer
from pysad.utils import _iterate

class StreamerBase:
    prop = 'C01'
    params = {'m': 'int>=0', 'k': 'int>=0', 'shuffle': 'bool'}
    def make(self, shuffle):
        return ArrayStreamer(shuffle=shuffle)
    def data(self, rows):
        return array_of(rows)
    def labels(self, ints):
        return array_of(ints)
    def init(self, m, k, shuffle):
        self.shuffle = shuffle
        self.x = some_rows('x0', m, 2)
        self.y = some_ints('y0', k)
        self.X = self.data(self.x)
        self.Y = self.labels(self.y)
        self.obj = self.make(shuffle)
    def delivered(self, items, expected, what):
        if self.shuffle:
            require_permutation(items, expected, 'every %s exactly once' % what)
        else:
            require_eq(items, expected, 'every %s once in original order' % what)
    def op_unlabelled(self):
        s = snapshot(self.X)
        items, rejected = drain(lambda: self.obj.iter(self.X))
        require(not rejected, 'unlabelled data are accepted')
        self.delivered(items, self.x, 'row')
        require_unchanged(s, self.X, 'data of the caller unchanged')
    def op_labelled(self):
        s = snapshot(self.X, self.Y)
        items, rejected = drain(lambda: self.obj.iter(self.X, self.Y))
        if len(self.x) == len(self.y):
            require(not rejected, 'labels of the right length are accepted')
            self.delivered(items, list(zip(self.x, self.y)), 'row with its own label')
        else:
            require(rejected, 'labels of the wrong length are rejected with AssertionError')
            require(len(items) == 0, 'nothing is yielded before the rejection')
        require_unchanged(s, self.X, self.Y, 'data of the caller unchanged')

class ArrayStreamerContract(StreamerBase):
    pass

class MatchingLengthContract(StreamerBase):
    """labels of the right length"""
    params = {'m': 'int>=0', 'shuffle': 'bool'}
    def init(self, m, shuffle):
        self.shuffle = shuffle
        self.x = some_rows('x0', m, 2)
        self.y = some_ints('y0', m)
        self.X = self.data(self.x)
        self.Y = self.labels(self.y)
        self.obj = self.make(shuffle)

class PandasStreamerContract(StreamerBase):
    def make(self, shuffle):
        return PandasStreamer(shuffle=shuffle)
    def data(self, rows):
        return frame_of(rows, 2)
    def labels(self, ints):
        return series_of(ints)

class PandasMatchingLengthContract(MatchingLengthContract):
    def make(self, shuffle):
        return PandasStreamer(shuffle=shuffle)
    def data(self, rows):
        return frame_of(rows, 2)
    def labels(self, ints):
        return series_of(ints)

class IterateContract:
    """the pairing helper used by every batch call"""
    prop = 'C01'
    params = {'m': 'int>=0'}
    def init(self, m):
        self.x = some_rows('x0', m, 2)
        self.y = some_ints('y0', m)
        self.X = array_of(self.x)
        self.Y = array_of(self.y)
    def op_unlabelled(self):
        items, rejected = drain(lambda: _iterate(self.X))
        require(not rejected, 'unlabelled data are accepted')
        require_eq(items, [(r, None) for r in self.x], 'every row once in original order, paired with None')
    def op_labelled(self):
        items, rejected = drain(lambda: _iterate(self.X, self.Y))
        require(not rejected, 'labels of the right length are accepted')
        require_eq(items, list(zip(self.x, self.y)), 'every row once in original order, paired with its label')
