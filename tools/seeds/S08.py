ID = 'S08'
PROPERTY = 'C18'
EDITS = [
    ('estimation.py', '''                                               final_params.shape[0])''',
     '''                                               split_res[3].shape[0])'''),
]
NEEDS = 'a model with nest, shape or outside intercept parameters'
BREAKS = 'Rho-bar-squared is penalised for the index coefficients only.'
DEMO = '''
import sys
from collections import OrderedDict
import numpy as np
import pandas as pd
import pylogit as pl
from pylogit.construct_estimator import create_estimation_obj

df = pd.DataFrame({'obs': [1, 1, 1, 2, 2, 2, 3, 3], 'alt': [1, 2, 3, 1, 2, 3, 1, 3],
                   'choice': [0, 1, 0, 0, 0, 1, 1, 0],
                   'x': [.5, -1., .25, 1.5, .75, -.5, .3, -.8]})
def nested():
    return pl.create_choice_model(
        df, 'alt', 'obs', 'choice', OrderedDict([('x', 'all_same')]),
        'Nested Logit', names=OrderedDict([('x', 'bx')]),
        nest_spec=OrderedDict([('A', [1, 2]), ('B', [3])]))

m = nested()
m.fit_mle(np.array([.4, 30., .7]), print_res=False, maxiter=3,
          constrained_pos=[1])
r = 1 - (m.log_likelihood - 3) / m.null_log_likelihood
sys.exit(0 if abs(m.rho_bar_squared - r) < 1e-9 else 1)
'''
