"""C11: wrappers around batch detectors."""
from vlib import *
from contracts.abstract import AbstractDetector
from pyod.models.iforest import IForest
from pysad.models.integrations.reference_window_model import ReferenceWindowModel
from pysad.models.integrations.one_fit_model import OneFitModel
from pysad.models.iforest_asd import IForestASD

class ReferenceWindowContract:
    """no initial window"""
    prop = 'C11'
    params = {'w': 'int>=2', 's': 'int>=1', 'tag': 'int', 'labels': 'bool'}
    streams = {'x': ('vec', 2), 'y': 'int'}
    args = {'q': ('vec', 2)}
    weights = {'on_fit': 3}
    def init(self, w, s, tag, labels):
        self.w = w
        self.s = s
        self.tag = tag
        self.labels = labels
        self.obj = ReferenceWindowModel(AbstractDetector, w, s, tag=tag)
    def slid(self):
        """instances fitted up to the most recent slide (0: none yet)"""
        p = self.n - self.n % self.s
        if p >= self.w:
            return p
        return 0
    def trained(self, h):
        p = self.slid()
        if p > 0:
            return h[p - self.w:p]
        if self.n < self.w:
            return h[0:self.n]
        return h[0:self.w - 1]
    def recent(self, h):
        return h[self.slid():self.n]
    def on_fit(self, x, y):
        if self.labels:
            r = self.obj.fit_partial(x, y)
        else:
            r = self.obj.fit_partial(x)
        require_same_object(r, self.obj, 'fit_partial returns the model')
    def op_score(self, q):
        if self.n >= 1:
            self.output(q)
            self.output(q)
    def output(self, q):
        y = self.trained(self.hist_y) if self.labels else None
        require_close(self.obj.score_partial(q), abstract_real('detector', self.tag, 1, self.trained(self.hist_x), y, q), 'score of a new detector trained once on exactly the promised instances')
    def views(self):
        t = self.trained(self.hist_x)
        ty = self.trained(self.hist_y)
        return [t, self.recent(self.hist_x), ty, self.recent(self.hist_y), self.n, self.slid()]
    def facts(self):
        return [self.n < self.w, self.slid() == 0, self.slid() > 0]

class InitialWindowContract(ReferenceWindowContract):
    """with an initial window of m instances"""
    params = {'w': 'int>=1', 's': 'int>=1', 'm': 'int>=1', 'tag': 'int', 'labels': 'bool'}
    def init(self, w, s, m, tag, labels):
        self.w = w
        self.s = s
        self.tag = tag
        self.labels = labels
        self.x0 = some_rows('x0', m, 2)
        self.y0 = some_ints('y0', m)
        if labels:
            self.obj = ReferenceWindowModel(AbstractDetector, w, s, array_of(self.x0), array_of(self.y0), tag=tag)
        else:
            self.obj = ReferenceWindowModel(AbstractDetector, w, s, initial_window_X=array_of(self.x0), tag=tag)
    def slid(self):
        return self.n - self.n % self.s
    def trained_from(self, first, h):
        p = self.slid()
        if p > 0:
            return last(concat(first, h[0:p]), self.w)
        return first
    def op_score(self, q):
        self.output(q)
        self.output(q)
    def output(self, q):
        y = self.trained_from(self.y0, self.hist_y) if self.labels else None
        require_close(self.obj.score_partial(q), abstract_real('detector', self.tag, 1, self.trained_from(self.x0, self.hist_x), y, q), 'score of a new detector trained once on exactly the promised instances')
    def views(self):
        t = self.trained_from(self.x0, self.hist_x)
        ty = self.trained_from(self.y0, self.hist_y)
        return [t, self.recent(self.hist_x), ty, self.recent(self.hist_y), self.n]

class OneFitContract:
    prop = 'C11'
    params = {'m': 'int>=1', 'tag': 'int', 'labels': 'bool'}
    streams = {'x': ('vec', 2), 'y': 'int'}
    args = {'q': ('vec', 2)}
    def init(self, m, tag, labels):
        self.tag = tag
        self.labels = labels
        self.x0 = some_rows('x0', m, 2)
        self.y0 = some_ints('y0', m)
        if labels:
            self.obj = OneFitModel(AbstractDetector, array_of(self.x0), array_of(self.y0), tag=tag)
        else:
            self.obj = OneFitModel(AbstractDetector, array_of(self.x0), tag=tag)
    def on_fit(self, x, y):
        if self.labels:
            r = self.obj.fit_partial(x, y)
        else:
            r = self.obj.fit_partial(x)
        require_same_object(r, self.obj, 'fit_partial returns the model')
    def op_score(self, q):
        self.output(q)
        self.output(q)
    def output(self, q):
        y = self.y0 if self.labels else None
        require_close(self.obj.score_partial(q), abstract_real('detector', self.tag, 1, self.x0, y, q), 'score of one detector trained once on the initial data')
    def views(self):
        return [self.x0, self.y0]

class IForestASDContract(ReferenceWindowContract):
    """isolation forest with the window size as sliding size"""
    params = {'w': 'int>=2', 'seed': 'int>=0'}
    slow = True
    lengths = [6, 12, 20]
    def init(self, w, seed):
        self.w = w
        self.s = w
        self.labels = False
        self.seed = seed
        self.obj = IForestASD(window_size=w, n_estimators=3, random_state=seed)
    def on_fit(self, x, y):
        r = self.obj.fit_partial(x)
        require_same_object(r, self.obj, 'fit_partial returns the model')
    def output(self, q):
        d = IForest(n_estimators=3, random_state=self.seed)
        d.fit(array_of(self.trained(self.hist_x)))
        require_close(self.obj.score_partial(q), d.decision_function([q])[0], 'score of a new isolation forest trained once on exactly the promised instances')
