ID = 'S19'
PROPERTY = 'C05'
EDITS = [
    ('estimation.py', '''    elif (weights < 0).any():
''',
     '''    elif weights.min() < 0 and weights.sum() <= 0:
'''),
]
NEEDS = 'a negative weight hidden among larger positive ones'
BREAKS = 'Negative observation weights are accepted.'
DEMO = '''
import sys
from collections import OrderedDict
import numpy as np
import pandas as pd
import pylogit as pl
from pylogit.construct_estimator import create_estimation_obj

df = pd.DataFrame({'obs': [1, 1, 1, 2, 2, 2, 3, 3, 3], 'alt': [1, 2, 3] * 3,
                   'choice': [0, 1, 0, 0, 0, 1, 1, 0, 0],
                   'x': [.5, -1., .25, 1.5, .75, -.5, .3, -.8, .1]})
def mnl():
    return pl.create_choice_model(
        df, 'alt', 'obs', 'choice', OrderedDict([('x', 'all_same')]), 'MNL',
        names=OrderedDict([('x', 'bx')]))

m = mnl()
w = np.repeat([1., -.5, 2.], 3)
try:
    create_estimation_obj(m, np.zeros(1), weights=w)
except ValueError:
    sys.exit(0)
sys.exit(1)
'''
