"""C09: metrics over the complete recorded history."""
from vlib import *
from sklearn.metrics import precision_score, recall_score, roc_auc_score, average_precision_score
from pysad.evaluation.metrics import PrecisionMetric, RecallMetric, AUROCMetric, AUPRMetric

class MetricBase:
    prop = 'C09'
    streams = {'y': 'bit', 'p': 'real'}
    weights = {'on_update': 3}
    lengths = [4, 8, 30, 60, 120, 200]
    longest = 300
    def init(self):
        self.obj = self.make()
    def on_update(self, y, p):
        self.obj.update(y, p)
    def op_read(self):
        if self.n >= 1:
            self.output()
            self.output()
    def output(self):
        require_close(self.obj.get(), self.expected(self.hist_y, self.hist_p), 'get is the metric of the recorded history')
    def views(self):
        return [self.hist_y, self.hist_p, list(zip(self.hist_y, self.hist_p))]

class PrecisionContract(MetricBase):
    streams = {'y': 'bit', 'p': 'bit'}
    def make(self):
        return PrecisionMetric()
    def expected(self, y, p):
        return precision_score(y, p)

class RecallContract(MetricBase):
    streams = {'y': 'bit', 'p': 'bit'}
    def make(self):
        return RecallMetric()
    def expected(self, y, p):
        return recall_score(y, p)

class AUPRContract(MetricBase):
    def make(self):
        return AUPRMetric()
    def expected(self, y, p):
        return average_precision_score(y, p)

class AUROCContract(MetricBase):
    def make(self):
        return AUROCMetric()
    def op_read(self):
        self.output()
        self.output()
    def output(self):
        raised = False
        r = 0
        try:
            r = self.obj.get()
        except ValueError:
            raised = True
        if n_distinct(self.hist_y) < 2:
            require(raised, 'ValueError when fewer than two different labels are recorded')
        else:
            require(not raised, 'no ValueError once two different labels are recorded')
            require_close(r, roc_auc_score(self.hist_y, self.hist_p), 'get is the metric of the recorded history')
