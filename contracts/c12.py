"""C12: scoring and transforming are read-only, inputs are never modified.

Twins: obj_a and obj_b start as copies and are fitted alike; only obj_a is scored in between.  Whatever happened, both
answer alike."""
from vlib import *
from vlib import RNG
import numpy as np
from pysad.models.exact_storm import ExactStorm
from pysad.models.median_absolute_deviation import MedianAbsoluteDeviation
from pysad.models.standard_absolute_deviation import StandardAbsoluteDeviation
from pysad.models.null_model import NullModel
from pysad.models.half_space_trees import HalfSpaceTrees
from pysad.models.relative_entropy import RelativeEntropy
from pysad.models.seasonal_esd import SeasonalESD, SeasonalHybridESD
from pysad.models.xstream import xStream
from pysad.models.rs_hash import RSHash
from pysad.models.integrations.reference_window_model import ReferenceWindowModel
from pysad.models.integrations.one_fit_model import OneFitModel
from pysad.transform.postprocessing.postprocessors import AveragePostprocessor, MaxPostprocessor, MedianPostprocessor, ZScorePostprocessor
from pysad.transform.postprocessing.running_postprocessors import RunningAveragePostprocessor, RunningMaxPostprocessor, RunningMedianPostprocessor, RunningZScorePostprocessor
from pysad.transform.probability_calibration.conformal_prediction import ConformalProbabilityCalibrator
from pysad.transform.probability_calibration.gaussian_tail import GaussianTailProbabilityCalibrator
from pysad.transform.ensemble.ensemblers import AverageScoreEnsembler, MaximumScoreEnsembler, MedianScoreEnsembler, AverageOfMaximumScoreEnsembler, MaximumOfAverageScoreEnsembler
from pysad.transform.preprocessing.identity_scaler import IdentityScaler
from pysad.transform.preprocessing.instance_standard_scaler import InstanceStandardScaler
from pysad.transform.preprocessing.instance_unit_norm_scaler import InstanceUnitNormScaler
from pysad.transform.preprocessing.seasonal_trend_decomposer import SeasonalTrendDecomposer
from pysad.transform.preprocessing.modified_stl_residual import ModifiedSTLResidualTransformer
from pysad.transform.projection.streamhash_projector import StreamhashProjector
from contracts.abstract import AbstractDetector
from contracts.specs import METERS_WINDOWS
from contracts.zoo import MODELS, TRANSFORMERS, POSTPROCESSORS, CONSUMING, build, seeded

def outcome(f):
    try:
        return f()
    except Exception:
        return 'raises'


class ModelTwinBase:
    prop = 'C12'
    params = {}
    streams = {'x': ('vec', 1)}
    args = {'q': ('vec', 1)}
    uses = METERS_WINDOWS
    longest = 200
    unfitted = False
    def begin(self, o):
        self.obj_a = o
        self.obj_b = clone(o)
    def on_fit(self, x):
        s = snapshot(x)
        r = outcome(lambda: self.obj_a.fit_partial(x))
        require_unchanged(s, x, 'the fitted array is not modified')
        if r != 'raises':
            require_same_object(r, self.obj_a, 'fit_partial returns the detector itself')
        outcome(lambda: self.obj_b.fit_partial(x))
    def read(self, o, q):
        return outcome(lambda: o.score_partial(q))
    def views(self):
        return [self.n]
    def op_score(self, q):
        if self.n >= 1 or self.unfitted:
            s = snapshot(q)
            self.read(self.obj_a, q)
            require_unchanged(s, q, 'the scored array is not modified')
    def op_compare(self, q):
        if self.n >= 1 or self.unfitted:
            require_close(self.read(clone(self.obj_a), q), self.read(clone(self.obj_b), q), 'earlier scoring changes no later result')

class NullModelContract(ModelTwinBase):
    def init(self):
        self.begin(NullModel())

class MADContract(ModelTwinBase):
    params = {'absolute': 'bool', 'b': 'real'}
    def init(self, absolute, b):
        self.begin(MedianAbsoluteDeviation(absolute, b))

class SADContract(ModelTwinBase):
    params = {'absolute': 'bool', 'sub': ['mean', 'median']}
    def init(self, absolute, sub):
        self.begin(StandardAbsoluteDeviation(sub, absolute))

class ExactStormContract(ModelTwinBase):
    params = {'w': 'int>=1', 'r': 'real'}
    streams = {'x': ('vec', 2)}
    args = {'q': ('vec', 2)}
    def init(self, w, r):
        self.begin(ExactStorm(w, r))

class ReferenceWindowTwin(ModelTwinBase):
    params = {'w': 'int>=2', 's': 'int>=1', 'tag': 'int'}
    streams = {'x': ('vec', 2)}
    args = {'q': ('vec', 2)}
    def init(self, w, s, tag):
        self.begin(ReferenceWindowModel(AbstractDetector, w, s, tag=tag))

class OneFitTwin(ModelTwinBase):
    params = {'m': 'int>=1', 'tag': 'int'}
    streams = {'x': ('vec', 2)}
    args = {'q': ('vec', 2)}
    def init(self, m, tag):
        self.begin(OneFitModel(AbstractDetector, array_of(some_rows('x0', m, 2)), tag=tag))

class HalfSpaceTreesTwin(ModelTwinBase):
    params = {'w': 'int>=1'}
    streams = {'x': ('vec', 2)}
    args = {'q': ('vec', 2)}
    bounded = '1 tree of depth 2'
    def init(self, w):
        self.begin(HalfSpaceTrees(array_of([-1.0, -1.0]), array_of([1.0, 1.0]), window_size=w, num_trees=1, max_depth=2))

class RelativeEntropyTwin(ModelTwinBase):
    params = {'w': 'int>=1'}
    def init(self, w):
        self.begin(RelativeEntropy(-4.0, 4.0, num_bins=3, window_size=w))

class SeasonalESDTwin(ModelTwinBase):
    params = {'hybrid': 'bool', 'period': 'int>=2', 'extra': 'int>=1', 'k': [1]}
    bounded = '1 anomaly at most in the proof (more are run concretely); period and window unbounded'
    def gen_period(rng): return rng.choice([2, 2, 3])
    def gen_extra(rng): return rng.choice([1, 2, 3, 5])
    def views(self):
        return [self.n, smap(lambda v: v[0], last(self.hist, self.w))]
    def facts(self):
        return [self.n < self.w, self.n >= self.w]
    def init(self, hybrid, period, extra, k):
        self.w = 2 * period + extra
        assume(k <= int(self.w * 0.49))
        if hybrid:
            self.begin(SeasonalHybridESD(period, self.w, k))
        else:
            self.begin(SeasonalESD(period, self.w, k))

class SeasonalESDManyTwin(SeasonalESDTwin):
    """more anomalies, run only"""
    mode = 'concrete'
    params = {'hybrid': 'bool', 'period': 'int>=2', 'extra': 'int>=1', 'k': [2, 3, 4]}

class PostprocessorTwin(ModelTwinBase):
    streams = {'x': 'real'}
    args = {'q': 'real'}
    params = {'which': ['avg', 'max', 'median', 'z', 'ravg', 'rmax', 'rmedian', 'rz', 'conf', 'gauss'], 'w': 'int>=1'}
    def views(self):
        return [self.n, last(self.hist, self.w), self.hist]
    def init(self, which, w):
        self.w = w
        if which == 'avg': o = AveragePostprocessor()
        if which == 'max': o = MaxPostprocessor()
        if which == 'median': o = MedianPostprocessor()
        if which == 'z': o = ZScorePostprocessor()
        if which == 'ravg': o = RunningAveragePostprocessor(w)
        if which == 'rmax': o = RunningMaxPostprocessor(w)
        if which == 'rmedian': o = RunningMedianPostprocessor(w)
        if which == 'rz': o = RunningZScorePostprocessor(w)
        if which == 'conf': o = ConformalProbabilityCalibrator(window_size=w)
        if which == 'gauss': o = GaussianTailProbabilityCalibrator(window_size=w)
        self.begin(o)
    def read(self, o, q):
        return outcome(lambda: o.transform_partial(q))

class UnboundedCalibratorTwin(PostprocessorTwin):
    params = {'which': ['conf', 'gauss']}
    def init(self, which):
        self.w = 1
        if which == 'conf':
            self.begin(ConformalProbabilityCalibrator(windowed=False))
        else:
            self.begin(GaussianTailProbabilityCalibrator(running_statistics=False))

class TransformerTwin(ModelTwinBase):
    unfitted = True
    streams = {'x': ('vec', 3)}
    args = {'q': ('vec', 3)}
    params = {'which': ['identity', 'standard', 'norm', 'streamhash', 'average', 'maximum', 'median', 'aom', 'moa']}
    def init(self, which):
        if which == 'identity': o = IdentityScaler()
        if which == 'standard': o = InstanceStandardScaler()
        if which == 'norm': o = InstanceUnitNormScaler()
        if which == 'streamhash': o = StreamhashProjector(2)
        if which == 'average': o = AverageScoreEnsembler()
        if which == 'maximum': o = MaximumScoreEnsembler()
        if which == 'median': o = MedianScoreEnsembler()
        if which == 'aom': o = AverageOfMaximumScoreEnsembler(n_buckets=3)
        if which == 'moa': o = MaximumOfAverageScoreEnsembler(n_buckets=3)
        self.begin(o)
    def read(self, o, q):
        return outcome(lambda: o.transform_partial(q))

class DecomposerTwin(TransformerTwin):
    streams = {'x': ('vec', 2)}
    args = {'q': ('vec', 2)}
    params = {'s': [1, 2, 3], 'w': 'int>=1'}
    def init(self, s, w):
        self.w = w
        self.begin(SeasonalTrendDecomposer(s, w))
    def views(self):
        return [self.n, last(self.hist, self.w)]

class STLTwin(TransformerTwin):
    streams = {'x': ('vec', 1)}
    args = {'q': ('vec', 1)}
    params = {'w': 'int>=4'}
    def init(self, w):
        self.begin(ModifiedSTLResidualTransformer(period=2, window_size=w))


# ---- every detector, transformer and postprocessor of the library, on the real code only

class RealTwinBase:
    prop = 'C12'
    mode = 'concrete'
    slow = True
    streams = {}
    lengths = (5, 12)
    def start(self, kinds, which, seed):
        self.which = which
        self.d = kinds[which][0]
        self.a = build(kinds, which, seed)
        self.b = clone(self.a)
        self.k = seed
        self.op_fit()
    def item(self):
        if self.d == 0:
            return some_rows('x', 1, 1)[0][0]
        v = some_rows('x', 1, self.d)[0]
        if RNG.random() < 0.2:
            v = v * RNG.choice([0.0, 64.0, 0.0625])
        return v
    def fit_one(self, o, x):
        if self.which == 'PerfectModel':
            return o.fit_partial(x, 1)
        return o.fit_partial(x)
    def op_fit(self):
        for i in range(RNG.choice([1, 2, 3, 8, 20])):
            x = self.item()
            s = snapshot(x)
            self.k = self.k + 1
            seeded(self.k)
            r = self.fit_one(self.a, x)
            require_unchanged(s, x, 'the fitted array is not modified')
            require_same_object(r, self.a, 'fit_partial returns the object itself')
            seeded(self.k)
            self.fit_one(self.b, s[0])
    def op_batch(self):
        if self.d == 0:
            x = np.array([self.item() for i in range(6)])
        else:
            x = np.array([self.item() for i in range(6)])
        s = snapshot(x)
        a = clone(self.a)
        y = np.array([1, 0, 1, 0, 0, 1])
        sy = snapshot(y)
        if hasattr(a, 'score_partial'):
            if self.which in ('ReferenceWindowModel', 'IForestASD'):   # labels only together with labelled initial data
                y = sy = None
            a.fit(x, y)
            require_unchanged(s, x, 'the fitted array is not modified')
            self.labels_kept(sy, y)
            a.score(x)
            require_unchanged(s, x, 'the scored array is not modified')
            a.fit_score(x, y)
            self.labels_kept(sy, y)
            require_unchanged(s, x, 'the scored array is not modified')
        else:
            a.fit(x)
            require_unchanged(s, x, 'the fitted array is not modified')
            a.transform(x)
            require_unchanged(s, x, 'the transformed array is not modified')
            a.fit_transform(x)
            require_unchanged(s, x, 'the transformed array is not modified')
    def labels_kept(self, sy, y):
        if y is not None:
            require_unchanged(sy, y, 'the fitted labels are not modified')
    def read(self, o, q):
        return o.transform_partial(q)
    def op_read(self):
        for i in range(RNG.choice([1, 2, 5])):
            q = self.item()
            s = snapshot(q)
            seeded(self.k)
            o = clone(self.a) if self.which in CONSUMING else self.a
            r = self.read(o, q)
            require_unchanged(s, q, 'the array passed in is not modified')
            if self.which not in CONSUMING and self.which != 'IdentityScaler':
                t = snapshot(r)
                self.read(self.a, self.item())
                require_unchanged(t, r, 'a result handed out is not changed by later calls')
    def op_combined(self):
        q = self.item()
        s = snapshot(q)
        o = clone(self.a)
        if self.which == 'PerfectModel':
            o.fit_score_partial(q, 1)
        elif hasattr(o, 'score_partial'):
            o.fit_score_partial(q)
        else:
            o.fit_transform_partial(q)
        require_unchanged(s, q, 'the array passed in is not modified')
    def check(self):
        if self.which in CONSUMING:
            return
        q = self.item()
        seeded(self.k)
        s = self.read(clone(self.a), q)
        seeded(self.k)
        t = self.read(clone(self.b), q)
        require_eq(scalar(s), scalar(t), 'earlier reading changes no later result')

class RealModelTwins(RealTwinBase):
    params = {'which': sorted(MODELS), 'seed': 'int>=0'}
    def init(self, which, seed):
        self.start(MODELS, which, seed)
    def read(self, o, q):
        return o.score_partial(q)

class RealTransformerTwins(RealTwinBase):
    params = {'which': sorted(TRANSFORMERS), 'seed': 'int>=0'}
    def init(self, which, seed):
        self.start(TRANSFORMERS, which, seed)

class RealPostprocessorTwins(RealTwinBase):
    params = {'which': sorted(POSTPROCESSORS), 'seed': 'int>=0'}
    def init(self, which, seed):
        self.start(POSTPROCESSORS, which, seed)

class ConstructorInputs:
    """arrays given to the constructors stay as they are"""
    prop = 'C12'
    mode = 'concrete'
    streams = {}
    params = {'w': 'int>=1'}
    lengths = (1, 2)
    def init(self, w):
        X = np.array(some_rows('x', 9, 2))
        y = np.array(some_ints('y', 9))
        s = snapshot(X, y)
        from pyod.models.knn import KNN
        m = OneFitModel(KNN, X, y, n_neighbors=2)
        m.fit_partial(X[0]); m.score_partial(X[1])
        require_unchanged(s, X, y, 'the initial data is not modified')
        m = ReferenceWindowModel(KNN, w + 5, w, X, y, n_neighbors=2)
        for i in range(2 * w + 3):
            m.fit_partial(X[i % 9], 0)
        m.score_partial(X[1])
        require_unchanged(s, X, y, 'the initial window is not modified')
        lo, hi = np.array([-3.0, -2.0]), np.array([4.0, 5.0])
        s = snapshot(lo, hi)
        from pysad.models import HalfSpaceTrees
        m = HalfSpaceTrees(lo, hi, window_size=w, num_trees=2, max_depth=3)
        m.fit_partial(X[0]); m.score_partial(X[0])
        m = RSHash(lo, hi, sampling_points=w + 1, num_components=2, num_hash_fns=2)
        m.fit_partial(X[0]); m.score_partial(X[0])
        require_unchanged(s, lo, hi, 'the feature ranges are not modified')
        wt = np.array([[0.5, 0.25]])
        s = snapshot(wt)
        AverageScoreEnsembler(estimator_weights=wt).fit_transform_partial(X[0])
        require_unchanged(s, wt, 'the estimator weights are not modified')
