"""C21: the random cut forest."""
from vlib import *
from pysad.models.robust_random_cut_forest import RobustRandomCutForest

class ForestContract:
    prop = 'C21'
    params = {'trees': [1, 2, 3], 't': 'int>=1'}
    bounded = '1 to 3 trees; tree size and stream unbounded'
    streams = {'x': ('vec', 2)}
    args = {'q': ('vec', 2)}
    weights = {'on_fit': 3}
    lengths = [4, 8, 15, 30, 60]
    longest = 200
    def init(self, trees, t):
        self.trees = trees
        self.t = t
        self.obj = RobustRandomCutForest(num_trees=trees, tree_size=t)
    def views(self):
        return [self.n, last([i for i in range(self.n)], self.t), last(self.hist, self.t)]
    def facts(self):
        return [self.n < self.t, self.n >= self.t]
    def check(self):
        require_eq(len(self.obj.forest), self.trees, 'one tree for every configured tree')
        for tree in self.obj.forest:
            idx, pts = retained(tree)
            require_eq(idx, last([i for i in range(self.n)], self.t), 'every tree holds exactly the most recent arrival indices')
            require_eq(pts, last(self.hist, self.t), 'every index holds the instance fitted under it')
    def on_fit(self, x):
        r = self.obj.fit_partial(x)
        require_same_object(r, self.obj, 'fit_partial returns the detector')
    def op_score(self, q):
        if self.n >= 1:
            forest = clone(self.obj.forest)
            same_draws()
            r = self.obj.score_partial(q)
            same_draws()
            total = 0
            for tree in forest:
                leaf = tree.find_duplicate(q)
                if leaf is None:
                    tree.insert_point(q, index='probe')
                    total = total + tree.codisp('probe')
                else:
                    total = total + tree.codisp(leaf)
            require_close(r, total / self.trees, 'mean over the trees of the collusive displacement of the instance')
            self.check()
