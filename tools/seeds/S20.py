ID = 'S20'
PROPERTY = 'C17'
EDITS = [
    ('conditional_logit.py', '''                                  loss_tol,
                                  gradient_tol,
''',
     '''                                  gradient_tol,
                                  loss_tol,
'''),
]
NEEDS = 'loss and gradient tolerances that differ'
BREAKS = 'The optimiser stops by the wrong tolerance.'
DEMO = '''
import sys
from collections import OrderedDict
import numpy as np
import pandas as pd
import pylogit as pl
from pylogit.construct_estimator import create_estimation_obj

df = pd.DataFrame({'obs': [1, 1, 1, 2, 2, 2, 3, 3, 3], 'alt': [1, 2, 3] * 3,
                   'choice': [0, 1, 0, 0, 0, 1, 1, 0, 0],
                   'x': [.5, -1., .25, 1.5, .75, -.5, .3, -.8, .1]})
def mnl():
    return pl.create_choice_model(
        df, 'alt', 'obs', 'choice', OrderedDict([('x', 'all_same')]), 'MNL',
        names=OrderedDict([('x', 'bx')]))

import scipy.optimize
import pylogit.estimation as est
seen = {}
real = est.minimize
def fake(*a, **k):
    seen.update(k)
    return real(*a, **k)
est.minimize = fake
mnl().fit_mle(np.zeros(1), print_res=False, loss_tol=1e-3, gradient_tol=1e-5,
              just_point=True)
sys.exit(0 if seen['tol'] == 1e-3 and seen['options']['gtol'] == 1e-5 else 1)
'''
