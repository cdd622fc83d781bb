"""C03: batch calls of transformers and postprocessors equal the one-step protocol."""
from vlib import *
from vlib import RNG
import numpy as np
from contracts.abstract import AbstractTransformer, AbstractPostprocessor
from contracts.zoo import TRANSFORMERS, POSTPROCESSORS, build, seeded

class TransformerContract:
    """k output columns; declared as k, or not declared when k is the input width"""
    prop = 'C03'
    params = {'m': 'int>=0', 'declared': [-1, 1, 2, 3]}
    args = {'q': ('vec', 2)}
    def init(self, m, declared):
        k = declared if declared > 0 else 2
        self.m = m
        self.k = k
        self.declared = declared
        self.x = some_rows('x0', m, 2)
        self.X = matrix_of(self.x, 2)
        self.obj = AbstractTransformer(k, self.declared, abstract_obj('start'))
    def twin(self):
        return AbstractTransformer(self.k, self.declared, self.obj.state)
    def same_state(self, t):
        require_eq(self.obj.state, t.state, 'same state as after the one-step calls')
    def op_fit(self):
        t = self.twin()
        for i in range(self.m):
            t.fit_partial(self.x[i])
        r = self.obj.fit(self.X)
        require_same_object(r, self.obj, 'batch fit returns the object itself')
        self.same_state(t)
    def op_transform(self):
        t = self.twin()
        out = []
        for i in range(self.m):
            out.append(t.transform_partial(self.x[i]))
        r = self.obj.transform(self.X)
        self.result(r, out)
        self.same_state(t)
    def op_fit_transform(self):
        t = self.twin()
        out = []
        for i in range(self.m):
            t.fit_partial(self.x[i])
            out.append(t.transform_partial(self.x[i]))
        r = self.obj.fit_transform(self.X)
        self.result(r, out)
        self.same_state(t)
    def result(self, r, out):
        require_eq(r.shape[0], self.m, 'one output row per input row')
        require_eq(r.shape[1], self.k, 'the declared number of columns')
        require_eq(list(r), out, 'results equal the one-step results in row order')
    def op_fit_transform_partial(self, q):
        t = self.twin()
        t.fit_partial(q)
        s = t.transform_partial(q)
        r = self.obj.fit_transform_partial(q)
        require_eq(r, s, 'result after fitting the item exactly once')
        self.same_state(t)
    def op_fit_partial(self, q):
        self.obj.fit_partial(q)

class PostprocessorContract:
    prop = 'C03'
    params = {'m': 'int>=0', 'shape': ['scalar', 'vector', 'cell']}
    args = {'q': 'real'}
    def init(self, m, shape):
        self.m = m
        self.shape = shape
        self.x = some_reals('x0', m)
        self.X = array_of(self.x)
        self.obj = AbstractPostprocessor(shape, abstract_obj('start'))
    def twin(self):
        return AbstractPostprocessor(self.shape, self.obj.state)
    def same_state(self, t):
        require_eq(self.obj.state, t.state, 'same state as after the one-step calls')
    def op_fit(self):
        t = self.twin()
        for i in range(self.m):
            t.fit_partial(self.x[i])
        r = self.obj.fit(self.X)
        require_same_object(r, self.obj, 'batch fit returns the object itself')
        self.same_state(t)
    def op_transform(self):
        t = self.twin()
        out = []
        for i in range(self.m):
            out.append(scalar(t.transform_partial(self.x[i])))
        require_eq(list(self.obj.transform(self.X)), out, 'results equal the one-step results in row order')
        self.same_state(t)
    def op_fit_transform(self):
        t = self.twin()
        out = []
        for i in range(self.m):
            t.fit_partial(self.x[i])
            out.append(scalar(t.transform_partial(self.x[i])))
        require_eq(list(self.obj.fit_transform(self.X)), out, 'results equal the one-step results in row order')
        self.same_state(t)
    def op_fit_transform_partial(self, q):
        t = self.twin()
        t.fit_partial(q)
        s = t.transform_partial(q)
        r = self.obj.fit_transform_partial(q)
        require_eq(scalar(r), scalar(s), 'result after fitting the item exactly once')
        self.same_state(t)
    def op_fit_partial(self, q):
        self.obj.fit_partial(q)

class IntegerScoresContract(PostprocessorContract):
    """scores given as an array of integers"""
    def init(self, m, shape):
        self.m = m
        self.shape = shape
        self.x = some_ints('x0', m)
        self.X = array_of(self.x)
        self.obj = AbstractPostprocessor(shape, abstract_obj('start'))

class EnsemblerRowsContract(PostprocessorContract):
    """rows of several scores (ensemblers are postprocessors as well)"""
    args = {'q': ('vec', 2)}
    def init(self, m, shape):
        self.m = m
        self.shape = shape
        self.x = some_rows('x0', m, 2)
        self.X = matrix_of(self.x, 2)
        self.obj = AbstractPostprocessor(shape, abstract_obj('start'))

class RealBase:
    prop = 'C03'
    mode = 'concrete'
    bounded = 'random data of at most 12 rows per call'
    lengths = [2, 4, 8]
    slow = True
    def start(self, kinds, which, seed):
        self.which = which
        self.d = kinds[which][0]
        self.a = build(kinds, which, seed)
        self.b = build(kinds, which, seed)
        self.k = seed
        self.op_fit()
    def data(self):
        m = RNG.randint(3, 12)
        if self.d == 0:
            return [v[0] for v in some_rows('x', m, 1)]
        return some_rows('x', m, self.d)
    def step(self):
        self.k = self.k + 1
        seeded(self.k)
    def op_fit(self):
        x = self.data()
        self.step()
        r = self.a.fit(np.array(x))
        require_same_object(r, self.a, 'batch fit returns the object itself')
        seeded(self.k)
        for v in x:
            self.b.fit_partial(v)
        self.probe()
    def op_transform(self):
        x = self.data()
        self.step()
        s = self.a.transform(np.array(x))
        seeded(self.k)
        self.result(s, [self.b.transform_partial(v) for v in x], x)
    def op_fit_transform(self):
        x = self.data()
        self.step()
        s = self.a.fit_transform(np.array(x))
        seeded(self.k)
        self.result(s, [self.b.fit_transform_partial(v) for v in x], x)
    def op_fit_transform_partial(self):
        x = self.data()[0]
        self.step()
        s = self.a.fit_transform_partial(x)
        seeded(self.k)
        if self.which == 'ModifiedSTLResidualTransformer':
            t = self.b.transform_partial(x)
            self.b.fit_partial(x)
        elif self.which.startswith('SeasonalTrendDecomposer'):
            t = s
            self.b.fit_partial(x)
        else:
            t = self.b.fit_partial(x).transform_partial(x)
        require_eq(scalar(s), scalar(t), 'result after fitting the item exactly once')
        self.probe()
    def probe(self):
        x = self.data()[0]
        self.step()
        s = self.a.transform_partial(x)
        seeded(self.k)
        t = self.b.transform_partial(x)
        require_eq(scalar(s), scalar(t), 'same state as after the one-step calls')

class RealTransformersContract(RealBase):
    params = {'which': sorted(TRANSFORMERS), 'seed': 'int>=0'}
    def init(self, which, seed):
        self.start(TRANSFORMERS, which, seed)
    def result(self, s, out, x):
        for i in range(len(x)):
            require_eq(s[i], np.atleast_1d(out[i]), 'results equal the one-step results in row order')
        n = len(np.atleast_1d(out[0]))
        require_eq(s.shape, (len(x), n), 'one output row per input row')
        self.probe()

class RealPostprocessorsContract(RealBase):
    params = {'which': sorted(POSTPROCESSORS), 'seed': 'int>=0'}
    def init(self, which, seed):
        self.start(POSTPROCESSORS, which, seed)
    def result(self, s, out, x):
        require_eq(list(s), [scalar(v) for v in out], 'results equal the one-step results in row order')
        self.probe()
