ID = 'S09'
PROPERTY = 'C21'
EDITS = [
    ('bootstrap_calcs.py', '''    upper_endpoints = np.diag(np.percentile(bootstrap_replicates,
                                            upper_percents,
                                            interpolation='higher',
                                            axis=0))''',
     '''    upper_endpoints = np.percentile(bootstrap_replicates,
                                    upper_percents[0],
                                    interpolation='higher',
                                    axis=0)'''),
]
NEEDS = 'a BCa interval for at least two parameters with different bias or acceleration'
BREAKS = "The upper endpoints of every parameter use the first parameter's corrected percentile."
DEMO = '''
import sys
from collections import OrderedDict
import numpy as np
import pandas as pd
import pylogit as pl
from pylogit.construct_estimator import create_estimation_obj

from pylogit.bootstrap_calcs import calc_bca_interval
rng = np.random.RandomState(0)
rep = np.column_stack([rng.normal(size=400), np.exp(rng.normal(size=400))])
jack = np.column_stack([rng.normal(size=30), np.exp(rng.normal(size=30))])
mle = np.array([.8, .9])
both = calc_bca_interval(rep, jack, mle, 80)
one = np.column_stack([calc_bca_interval(rep[:, [i]], jack[:, [i]], mle[[i]], 80)[:, 0]
                       for i in (0, 1)])
sys.exit(0 if np.allclose(both, one) else 1)
'''
