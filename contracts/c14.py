"""C14: half-space trees."""
from vlib import *
from vlib import RNG
import numpy as np
from pysad.models.half_space_trees import HalfSpaceTrees

class TreesBase:
    prop = 'C14'
    streams = {'x': ('vec', 2)}
    args = {'q': ('vec', 2)}
    weights = {'on_fit': 4}
    def begin(self, lo, hi, w, trees, depth):
        self.lo = lo
        self.hi = hi
        self.w = w
        self.depth = depth
        s = snapshot(lo, hi)
        self.obj = HalfSpaceTrees(lo, hi, window_size=w, num_trees=trees, max_depth=depth)
        require_unchanged(s, lo, hi, 'the feature ranges are not modified')
        self.roots = field(self.obj, 'roots')
        require(len(self.roots) == trees, 'as many trees as configured')
        for root in self.roots:
            self.halves(root, list(lo), list(hi), 0)
    def halves(self, node, lo, hi, k):
        """structure: every inner node splits the current range of its feature in half; max_depth levels"""
        if k == self.depth:
            require(field(node, 'left') is None and field(node, 'right') is None, 'no node below the maximum depth')
            return
        require(field(node, 'left') is not None and field(node, 'right') is not None, 'every node above the maximum depth is split')
        a = field(node, 'split_att')
        require(0 <= a and a < len(lo), 'the split feature is a feature')
        mid = (lo[a] + hi[a]) / 2.0
        require_close(field(node, 'split_value'), mid, 'every node splits its feature range in half')
        h = list(hi)
        h[a] = mid
        self.halves(node.left, lo, h, k + 1)
        l = list(lo)
        l[a] = mid
        self.halves(node.right, l, hi, k + 1)
    def block(self):
        """the instances whose masses count"""
        if self.n < self.w:
            return self.hist[0:self.n]
        p = self.n - self.n % self.w
        return self.hist[p - self.w:p]
    def current(self):
        p = self.n - self.n % self.w
        return self.hist[p:self.n]
    def nodes(self, node, path, k):
        out = [path]
        if k < self.depth:
            s = (node.split_att, node.split_value)
            out = out + self.nodes(node.left, path + [(s[0], s[1], False)], k + 1) + self.nodes(node.right, path + [(s[0], s[1], True)], k + 1)
        return out
    def mass(self, path, block):
        return count(lambda x: all([(x[a] > v) == r for a, v, r in path]), block)
    def spec(self, q):
        b = self.block()
        s = 0.0
        for root in self.roots:
            node = root
            path = []
            for k in range(self.depth + 1):
                s = s + self.mass(path, b) * 2 ** k
                if k < self.depth:
                    right = True if q[node.split_att] > node.split_value else False
                    path = path + [(node.split_att, node.split_value, right)]
                    node = node.right if right else node.left
        return -s
    def on_fit(self, x):
        r = self.obj.fit_partial(x)
        require_same_object(r, self.obj, 'fit_partial returns the model')
    def op_score(self, q):
        require_close(self.obj.score_partial(q), self.spec(q), 'minus the sum of reference masses times 2 ** depth along the route of every tree')
    def views(self):
        b = self.block()
        c = self.current()
        out = [self.n]
        for root in self.roots:
            for path in self.nodes(root, [], 0):
                out = out + [self.mass(path, b), self.mass(path, c)]
        return out
    def facts(self):
        return [self.n < self.w, self.n >= self.w]

class SmallTrees(TreesBase):
    """any feature ranges, any split features, every window size and history"""
    params = {'cfg': [(1, 1), (1, 2), (2, 1)], 'w': 'int>=1', 'l0': 'real', 'l1': 'real', 'h0': 'real', 'h1': 'real'}
    bounded = 'trees x depth 1x1, 1x2, 2x1 in the proof; windows, histories, ranges, split features unbounded'
    def init(self, cfg, w, l0, l1, h0, h1):
        self.begin(array_of([l0, l1]), array_of([h0, h1]), w, cfg[0], cfg[1])

class RealTrees(TreesBase):
    """bigger forests, on the real code only"""
    mode = 'concrete'
    params = {'trees': [1, 2, 3, 5], 'depth': [0, 1, 2, 3, 4, 6], 'w': 'int>=1', 'initial': [0, 0, 1, 4, 7, 12]}
    streams = {'x': ('vec', 3)}
    args = {'q': ('vec', 3)}
    weights = {'on_fit': 5}
    longest = 120
    def init(self, trees, depth, w, initial):
        self.first = some_rows('x0', initial, 3)
        lo, hi = array_of([-4.0, -3.0, 0.0]), array_of([4.0, 2.0, 1.0])
        if initial == 0:
            self.begin(lo, hi, w, trees, depth)
            return
        self.lo, self.hi, self.w, self.depth = lo, hi, w, depth
        X = np.array(self.first)
        self.obj = HalfSpaceTrees(lo, hi, w, trees, depth, X)
        self.roots = field(self.obj, 'roots')
        require(len(self.roots) == trees, 'as many trees as configured')
        for root in self.roots:
            self.halves(root, list(lo), list(hi), 0)
    def block(self):
        h = self.first + self.hist
        if len(h) < self.w:
            return h
        p = len(h) - len(h) % self.w
        return h[p - self.w:p]
    def check(self):
        self.op_score(some_rows('q', 1, 3)[0])
