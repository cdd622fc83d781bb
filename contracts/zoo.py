"""Every detector, transformer and postprocessor of the library, for the checks that run on the real code only.
name -> (input width, build); 0: scores"""
import numpy as np
import random
from pysad.models import *
from pysad.models.integrations import OneFitModel, ReferenceWindowModel
from pysad.transform.ensemble import *
from pysad.transform.postprocessing import *
from pysad.transform.preprocessing import *
from pysad.transform.probability_calibration import *
from pysad.transform.projection import *

def seeded(seed):
    random.seed(seed)
    np.random.seed(seed)

def block(m, d):
    return np.array([[((3 * i + 7 * j) % 11) / 4.0 - 1.0 for j in range(d)] for i in range(m)])

def lof(**kw):
    from pyod.models.lof import LOF
    return LOF(n_neighbors=2, **kw)

def knn():
    from pyod.models.knn import KNN
    return KNN

MODELS = {
    'ExactStorm': (2, lambda: ExactStorm(window_size=6, max_radius=1.5)),
    'HalfSpaceTrees': (2, lambda: HalfSpaceTrees(np.array([-4.0, -4.0]), np.array([4.0, 4.0]), window_size=5, num_trees=3, max_depth=4)),
    'IForestASD': (2, lambda: IForestASD(window_size=7, n_estimators=3, random_state=3)),
    'KitNet': (4, lambda: KitNet(max_size_ae=2, grace_feature_mapping=4, grace_anomaly_detector=5)),
    'KNNCAD': (1, lambda: KNNCAD(probationary_period=60)),
    'LODA': (3, lambda: LODA(num_bins=4, num_random_cuts=5)),
    'LocalOutlierProbability': (2, lambda: LocalOutlierProbability(block(12, 2), num_neighbors=3)),
    'MedianAbsoluteDeviation': (1, lambda: MedianAbsoluteDeviation()),
    'MedianAbsoluteDeviation-signed': (1, lambda: MedianAbsoluteDeviation(absolute=False)),
    'NullModel': (2, lambda: NullModel()),
    'PerfectModel': (2, lambda: PerfectModel()),
    'RandomModel': (2, lambda: RandomModel()),
    'RelativeEntropy': (1, lambda: RelativeEntropy(min_val=-4.0, max_val=4.0, num_bins=4, window_size=6)),
    'RobustRandomCutForest': (2, lambda: RobustRandomCutForest(num_trees=2, tree_size=6)),
    'RSHash': (3, lambda: RSHash(np.array([-4.0, -4.0, -4.0]), np.array([4.0, 4.0, 4.0]), sampling_points=10, num_components=4, num_hash_fns=2)),
    'SeasonalESD': (1, lambda: SeasonalESD(period=3, window_size=8, max_anomalies=2)),
    'SeasonalHybridESD': (1, lambda: SeasonalHybridESD(period=3, window_size=9, max_anomalies=3)),
    'StandardAbsoluteDeviation': (1, lambda: StandardAbsoluteDeviation()),
    'StandardAbsoluteDeviation-median': (1, lambda: StandardAbsoluteDeviation(substracted_statistic='median', absolute=False)),
    'xStream': (3, lambda: xStream(num_components=4, n_chains=2, depth=3, window_size=5)),
    'OneFitModel': (2, lambda: OneFitModel(knn(), block(10, 2), n_neighbors=2)),
    'ReferenceWindowModel': (2, lambda: ReferenceWindowModel(knn(), 6, 3, block(8, 2), n_neighbors=2)),
}
SLOW = ['IForestASD', 'SeasonalESD', 'SeasonalHybridESD', 'LocalOutlierProbability', 'OneFitModel', 'ReferenceWindowModel']
CONSUMING = ['PerfectModel', 'RandomModel', 'KNNCAD', 'RobustRandomCutForest', 'LocalOutlierProbability']

TRANSFORMERS = {
    'IdentityScaler': (3, lambda: IdentityScaler()),
    'InstanceStandardScaler': (3, lambda: InstanceStandardScaler()),
    'InstanceUnitNormScaler': (3, lambda: InstanceUnitNormScaler()),
    'InstanceUnitNormScaler-1': (3, lambda: InstanceUnitNormScaler(pow=1)),
    'SeasonalTrendDecomposer': (2, lambda: SeasonalTrendDecomposer(season_length=3, trend_window=2)),
    'SeasonalTrendDecomposer-long': (2, lambda: SeasonalTrendDecomposer(season_length=2, trend_window=5)),
    'ModifiedSTLResidualTransformer': (1, lambda: ModifiedSTLResidualTransformer(period=3, window_size=8)),
    'StreamhashProjector': (4, lambda: StreamhashProjector(num_components=3)),
    'GaussianRandomProjector': (4, lambda: GaussianRandomProjector(num_components=2)),
    'SparseRandomProjector': (4, lambda: SparseRandomProjector(num_components=2)),
}

POSTPROCESSORS = {
    'AveragePostprocessor': (0, lambda: AveragePostprocessor()),
    'MaxPostprocessor': (0, lambda: MaxPostprocessor()),
    'MedianPostprocessor': (0, lambda: MedianPostprocessor()),
    'ZScorePostprocessor': (0, lambda: ZScorePostprocessor()),
    'RunningAveragePostprocessor': (0, lambda: RunningAveragePostprocessor(window_size=3)),
    'RunningMaxPostprocessor': (0, lambda: RunningMaxPostprocessor(window_size=4)),
    'RunningMedianPostprocessor': (0, lambda: RunningMedianPostprocessor(window_size=3)),
    'RunningZScorePostprocessor': (0, lambda: RunningZScorePostprocessor(window_size=4)),
    'ConformalProbabilityCalibrator': (0, lambda: ConformalProbabilityCalibrator(window_size=4)),
    'ConformalProbabilityCalibrator-all': (0, lambda: ConformalProbabilityCalibrator(windowed=False)),
    'GaussianTailProbabilityCalibrator': (0, lambda: GaussianTailProbabilityCalibrator(window_size=4)),
    'GaussianTailProbabilityCalibrator-all': (0, lambda: GaussianTailProbabilityCalibrator(running_statistics=False)),
    'AverageScoreEnsembler': (6, lambda: AverageScoreEnsembler()),
    'AverageScoreEnsembler-weights': (6, lambda: AverageScoreEnsembler(estimator_weights=np.array([[0.125, 0.25, 0.5, 0.25, 0.125, 1.0]]))),
    'MaximumScoreEnsembler': (6, lambda: MaximumScoreEnsembler()),
    'MedianScoreEnsembler': (6, lambda: MedianScoreEnsembler()),
    'AverageOfMaximumScoreEnsembler': (6, lambda: AverageOfMaximumScoreEnsembler(n_buckets=2)),
    'MaximumOfAverageScoreEnsembler': (6, lambda: MaximumOfAverageScoreEnsembler(n_buckets=2)),
}

def build(kinds, name, seed):
    seeded(seed)
    return kinds[name][1]()
