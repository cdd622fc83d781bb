"""C19: KitNET's training phases and its feature map."""
from vlib import *
from vlib import RNG
import numpy as np
from pysad.models.kitnet import KitNet
from pysad.models.kitnet_model.corClust import corClust
from pysad.models.kitnet_model.dA import dA, dA_params

COMPONENTS = {'pysad.models.kitnet_model.corClust:corClust': 'contracts.abstract:AbstractFeatureMapper',
              'pysad.models.kitnet_model.dA:dA': 'contracts.abstract:AbstractAutoencoder'}

class PhasesBase:
    """The reference keeps the history apart: its own feature mapper sees the first fm + 1 instances, its own autoencoders the next ad."""
    prop = 'C19'
    longest = 120
    weights = {'on_fit': 4}
    def gen_value(rng, name, kind, params):
        return np.array([rng.choice([0.0, 0.0, 1.0, rng.randint(-32, 32) / 8.0]) for _ in range(kind[1])])
    def gen_fm(rng): return rng.choice([0, 1, 2, 3, 5, 8])
    def gen_ad(rng): return rng.choice([1, 1, 2, 3, 5, 9])
    def gen_lr(rng): return rng.choice([0.1, 0.5, 0.03125])
    def gen_hr(rng): return rng.choice([0.75, 0.5, 1.0])
    def begin(self, d, m, fm, ad, lr, hr):
        self.d = d
        self.m = m
        self.fm = fm
        self.ad = ad
        self.lr = lr
        self.hr = hr
        self.obj = KitNet(max_size_ae=m, grace_feature_mapping=fm, grace_anomaly_detector=ad, learning_rate=lr, hidden_ratio=hr)
        self.g_mapper = corClust(d)
        self.g_map = None
        self.g_case = ''
        self.g_layer = None
        self.g_out = None
    def facts(self):
        return [self.n <= self.fm, self.n > self.fm, self.n <= self.fm + self.ad, self.n > self.fm + self.ad]
    def views(self):
        learned = [] if self.g_map is None else [a.state for a in self.g_layer] + [self.g_out.state]
        return [self.n, min(self.n, self.fm + 1 + self.ad), min(self.n, self.fm + 1), self.g_mapper.state] + learned
    def autoencoder(self, size):
        return dA(dA_params(n_visible=size, n_hidden=0, lr=self.lr, corruption_level=0, gracePeriod=0, hiddenRatio=self.hr))
    def on_fit(self, x):
        if self.n <= self.fm + 1:
            self.g_mapper.update(x)
            if self.n == self.fm + 1:
                self.g_map = self.g_mapper.cluster(self.m if self.m > 0 else 1)
                self.g_case = ''
                for b in self.g_map:
                    self.g_case = self.g_case + '|'
                    for i in b:
                        self.g_case = self.g_case + str(i)
                self.g_layer = [self.autoencoder(len(b)) for b in self.g_map]
                self.g_out = self.autoencoder(len(self.g_map))
        elif self.n <= self.fm + 1 + self.ad:
            errors = [self.g_layer[i].train(x[self.g_map[i]]) for i in range(len(self.g_map))]
            self.g_out.train(array_of(errors))
        r = self.obj.fit_partial(x)
        require_same_object(r, self.obj, 'fit_partial returns the detector')
    def score_of(self, q):
        errors = [self.g_layer[i].execute(q[self.g_map[i]]) for i in range(len(self.g_map))]
        return self.g_out.execute(array_of(errors))
    def op_score(self, q):
        r = self.obj.score_partial(q)
        if self.n <= self.fm:
            require_eq(r, 0.0, 'scores 0 as long as the feature map is not learned')
        else:
            require_close(r, self.score_of(q), 'map learned from exactly the first instances, autoencoders trained on exactly the next ones')
    def op_map(self):
        if self.n > self.fm:
            blocks = self.obj.model.v
            features = []
            for b in blocks:
                require(len(b) <= (self.m if self.m > 0 else 1), 'no autoencoder gets more than max_size_ae features')
                require(len(b) >= 1, 'no autoencoder without features')
                features = features + list(b)
            require_eq(sorted(features), [i for i in range(self.d)], 'every feature belongs to exactly one autoencoder')

class PhasesContract(PhasesBase):
    """every grace period, learning rate and history, every clustering outcome of up to 3 features"""
    params = {'d': [1, 2, 3], 'm': [1, 2, 3], 'fm': 'int>=0', 'ad': 'int>=1', 'lr': 'real>0', 'hr': 'real>0'}
    streams = {'x': ('vec', 3)}
    args = {'q': ('vec', 3)}
    uses = COMPONENTS
    bounded = '1 to 3 features, autoencoders of up to 3 features; everything else unbounded'
    def init(self, d, m, fm, ad, lr, hr):
        self.begin(d, m, fm, ad, lr, hr)
    def on_fit(self, x):
        PhasesBase.on_fit(self, x[:self.d])
    def op_score(self, q):
        PhasesBase.op_score(self, q[:self.d])

class DefaultGraceContract(PhasesBase):
    """grace_feature_mapping left out: as long as grace_anomaly_detector"""
    params = {'m': [1, 2], 'ad': 'int>=1', 'lr': 'real>0', 'hr': 'real>0'}
    streams = {'x': ('vec', 2)}
    args = {'q': ('vec', 2)}
    uses = COMPONENTS
    bounded = '2 features'
    def init(self, m, ad, lr, hr):
        self.begin(2, m, ad, ad, lr, hr)
        self.obj = KitNet(max_size_ae=m, grace_anomaly_detector=ad, learning_rate=lr, hidden_ratio=hr)

class ManyFeaturesContract(PhasesBase):
    """more features, run only"""
    mode = 'concrete'
    params = {'m': [0, 1, 2, 3, 5, 10], 'fm': 'int>=0', 'ad': 'int>=1', 'lr': 'real>0', 'hr': 'real>0'}
    streams = {'x': ('vec', 7)}
    args = {'q': ('vec', 7)}
    def init(self, m, fm, ad, lr, hr):
        self.begin(7, m, fm, ad, lr, hr)

class Recursion(corClust):
    """the recursive calls of __breakClust__ answered by its contract"""
    def __breakClust__(self, dendro, maxClust):
        require(dendro.count >= 1, 'precondition of the recursive call: a tree with a leaf')
        require(maxClust >= 1, 'precondition of the recursive call: room for a feature')
        require(dendro.count < self.limit, 'the recursive call works on a smaller tree')
        return cut(dendro, maxClust)
    def corrDist(self):
        return any_matrix(self.n)

class BreakContract:
    """cutting the dendrogram, by induction on the tree: if the recursive calls keep the contract, so does the call"""
    prop = 'C19'
    streams = {}
    args = {'k': 'nat', 'a': 'nat', 'm': 'nat'}
    params = {}
    def init(self):
        self.obj = corClust(2)
    def op_cut(self, k, a, m):
        leaves = some_leaves(k + 1)
        tree = dendrogram(leaves, a)
        step = Recursion(2)
        step.limit = tree.count
        blocks = field(corClust, '__breakClust__')(step, tree, m + 1)
        require_blocks(blocks, leaves, m + 1)

class ClusterContract:
    """from the instances seen to the feature map, the cut answered by its contract"""
    prop = 'C19'
    streams = {}
    args = {'m': 'nat'}
    params = {'d': 'int>=1'}
    def gen_d(rng): return rng.choice([1, 2, 3, 5, 9, 16])
    def init(self, d):
        self.d = d
        self.obj = Recursion(d)
        self.obj.limit = d + 1
    def op_cluster(self, m):
        blocks = corClust.cluster(self.obj, m)
        require_blocks(blocks, [i for i in range(self.d)], m if m > 0 else 1)
