ID = 'S11'
PROPERTY = 'C15'
EDITS = [
    ('nested_logit.py', '''            for idx_val in self.constrained_pos:
                approx_hess[idx_val, :] = 0
                approx_hess[:, idx_val] = 0
                approx_hess[idx_val, idx_val] = -1
''',
     '''            for idx_val in self.constrained_pos:
                approx_hess[idx_val, :] = 0
                approx_hess[idx_val, idx_val] = -1
'''),
]
NEEDS = 'a nested logit with a constrained parameter next to a free one'
BREAKS = 'The BHHH Hessian approximation keeps the column of a constrained parameter, so the covariance of the others depends on it.'
DEMO = '''
import sys
from collections import OrderedDict
import numpy as np
import pandas as pd
import pylogit as pl
from pylogit.construct_estimator import create_estimation_obj

df = pd.DataFrame({'obs': [1, 1, 1, 2, 2, 2, 3, 3], 'alt': [1, 2, 3, 1, 2, 3, 1, 3],
                   'choice': [0, 1, 0, 0, 0, 1, 1, 0],
                   'x': [.5, -1., .25, 1.5, .75, -.5, .3, -.8]})
def nested():
    return pl.create_choice_model(
        df, 'alt', 'obs', 'choice', OrderedDict([('x', 'all_same')]),
        'Nested Logit', names=OrderedDict([('x', 'bx')]),
        nest_spec=OrderedDict([('A', [1, 2]), ('B', [3])]))

m = nested()
th = np.array([.4, 30., .7])
e = create_estimation_obj(m, th)
e.constrained_pos = [0]
h = e.convenience_calc_hessian(th)
ok = np.allclose(h[0, 1:], 0) and np.allclose(h[1:, 0], 0) and h[0, 0] == -1
sys.exit(0 if ok else 1)
'''
