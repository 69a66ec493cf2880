ID = 'S06'
PROPERTY = 'C09'
EDITS = [
    ('mixed_logit_calcs.py', '''    if seed:
        np.random.seed(seed)
    for i in xrange(num_vars):
''',
     '''    for i in xrange(num_vars):
        if seed:
            np.random.seed(seed)
'''),
]
NEEDS = 'a seed together with at least two mixing variables'
BREAKS = 'Every random coefficient of an individual uses the same draws, so independent coefficients become perfectly correlated.'
DEMO = '''
import sys
from collections import OrderedDict
import numpy as np
import pandas as pd
import pylogit as pl
from pylogit.construct_estimator import create_estimation_obj

from pylogit.mixed_logit_calcs import get_normal_draws
a, b = get_normal_draws(3, 4, 2, seed=7)
sys.exit(0 if not np.allclose(a, b) else 1)
'''
