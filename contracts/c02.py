"""C02: batch calls of a detector equal the instance-by-instance protocol."""
from vlib import *
from vlib import RNG
import numpy as np
from contracts.abstract import AbstractModel, ReadingModel
from contracts.zoo import MODELS, build, seeded

class BatchModelContract:
    prop = 'C02'
    params = {'m': 'int>=0', 'shape': ['scalar', 'vector', 'cell'], 'labels': 'bool'}
    args = {'q': ('vec', 2), 'l': 'int'}
    kind = AbstractModel
    def init(self, m, shape, labels):
        self.m = m
        self.shape = shape
        self.labels = labels
        self.x = some_rows('x0', m, 2)
        self.y = some_ints('y0', m)
        self.X = matrix_of(self.x, 2)
        self.Y = array_of(self.y) if labels else None
        self.obj = self.kind(shape, abstract_obj('start'))
    def twin(self):
        """another detector of the same kind in the same state"""
        return self.kind(self.shape, self.obj.state)
    def label(self, i):
        return self.y[i] if self.labels else None
    def same_state(self, t):
        require_eq(self.obj.state, t.state, 'same state as after the instance-by-instance calls')
    def op_fit(self):
        t = self.twin()
        for i in range(self.m):
            t.fit_partial(self.x[i], self.label(i))
        r = self.obj.fit(self.X, self.Y) if self.labels else self.obj.fit(self.X)
        require_same_object(r, self.obj, 'batch fit returns the detector itself')
        self.same_state(t)
    def op_score(self):
        t = self.twin()
        out = []
        for i in range(self.m):
            out.append(scalar(t.score_partial(self.x[i])))
        require_eq(self.obj.score(self.X), out, 'scores equal the instance-by-instance scores in row order')
        self.same_state(t)
    def op_fit_score(self):
        t = self.twin()
        out = []
        for i in range(self.m):
            t.fit_partial(self.x[i], self.label(i))
            out.append(scalar(t.score_partial(self.x[i])))
        r = self.obj.fit_score(self.X, self.Y) if self.labels else self.obj.fit_score(self.X)
        require_eq(r, out, 'scores equal the instance-by-instance scores in row order')
        self.same_state(t)
    def op_fit_score_partial(self, q, l):
        t = self.twin()
        t.fit_partial(q, l if self.labels else None)
        s = t.score_partial(q)
        r = self.obj.fit_score_partial(q, l) if self.labels else self.obj.fit_score_partial(q)
        require_eq(scalar(r), scalar(s), 'score after fitting the instance exactly once')
        self.same_state(t)
    def op_fit_partial(self, q, l):
        self.obj.fit_partial(q, l)

class ReadingModelContract(BatchModelContract):
    """detectors whose scoring also consumes state"""
    kind = ReadingModel

class RealModelsContract:
    """every detector of the library, on the real code only"""
    prop = 'C02'
    mode = 'concrete'
    bounded = 'random data of at most 90 rows per history'
    slow = True
    lengths = [2, 3, 4]
    params = {'which': sorted(MODELS), 'seed': 'int>=0', 'labels': 'bool'}
    def init(self, which, seed, labels):
        self.which = which
        self.labels = which == 'PerfectModel' or (labels and which != 'ReferenceWindowModel')
        self.d = MODELS[which][0]
        self.a = build(MODELS, which, seed)
        self.b = build(MODELS, which, seed)
        self.k = seed
        self.op_fit()
        if which == 'KNNCAD':
            for i in range(6):
                self.op_fit()
    def data(self):
        m = RNG.randint(3, 12)
        return some_rows('x', m, self.d), some_ints('y', m)
    def label(self, y, i):
        return y[i] if self.labels else None
    def step(self):
        self.k = self.k + 1
        seeded(self.k)
    def op_fit(self):
        x, y = self.data()
        self.step()
        r = self.a.fit(np.array(x), np.array(y)) if self.labels else self.a.fit(np.array(x))
        require_same_object(r, self.a, 'batch fit returns the detector itself')
        self.step_back()
        for i in range(len(x)):
            r = self.b.fit_partial(x[i], self.label(y, i))
            require_same_object(r, self.b, 'fit_partial returns the detector itself')
        self.probe()
    def step_back(self):
        seeded(self.k)
    def op_score(self):
        x, y = self.data()
        if self.which == 'PerfectModel':
            return
        self.step()
        s = self.a.score(np.array(x))
        self.step_back()
        t = [scalar(self.b.score_partial(x[i])) for i in range(len(x))]
        require_eq(list(s), t, 'scores equal the instance-by-instance scores in row order')
        self.probe()
    def op_fit_score(self):
        x, y = self.data()
        self.step()
        s = self.a.fit_score(np.array(x), np.array(y)) if self.labels else self.a.fit_score(np.array(x))
        self.step_back()
        t = []
        for i in range(len(x)):
            if self.labels:
                t.append(scalar(self.b.fit_score_partial(x[i], y[i])))
            else:
                t.append(scalar(self.b.fit_score_partial(x[i])))
        require_eq(list(s), t, 'scores equal the instance-by-instance scores in row order')
        self.probe()
    def op_fit_score_partial(self):
        x, y = self.data()
        self.step()
        s = self.a.fit_score_partial(x[0], self.label(y, 0))
        self.step_back()
        if self.which in ('SeasonalESD', 'SeasonalHybridESD'):
            t = self.b.score_partial(x[0])
            self.b.fit_partial(x[0], self.label(y, 0))
        else:
            t = self.b.fit_partial(x[0], self.label(y, 0)).score_partial(x[0])
        require_eq(scalar(s), scalar(t), 'score after fitting the instance exactly once')
        self.probe()
    def probe(self):
        """same behaviour afterwards"""
        if self.which == 'PerfectModel':
            require_eq(self.a.labels, self.b.labels, 'same state as after the instance-by-instance calls')
            return
        x, y = self.data()
        self.step()
        s = self.a.score_partial(x[0])
        self.step_back()
        t = self.b.score_partial(x[0])
        require_eq(scalar(s), scalar(t), 'same state as after the instance-by-instance calls')
