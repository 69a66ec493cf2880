ID = 'S15'
PROPERTY = 'C26'
EDITS = [
    ('choice_calcs.py', '''        gradient = d_ll_d_beta.ravel()
        params = beta

    if ridge is not None:
        gradient -= 2 * ridge * params
''',
     '''        gradient = d_ll_d_beta.ravel()
        params = beta

    if ridge is not None:
        params *= 2 * ridge
        gradient -= params
'''),
]
NEEDS = 'a ridge penalty in a multinomial logit whose parameter vector is used again'
BREAKS = "The evaluation of the gradient rescales the caller's parameter vector."
DEMO = '''
import sys
from collections import OrderedDict
import numpy as np
import pandas as pd
import pylogit as pl
from pylogit.construct_estimator import create_estimation_obj

df = pd.DataFrame({'obs': [1, 1, 1, 2, 2, 2, 3, 3, 3], 'alt': [1, 2, 3] * 3,
                   'choice': [0, 1, 0, 0, 0, 1, 1, 0, 0],
                   'x': [.5, -1., .25, 1.5, .75, -.5, .3, -.8, .1]})
def mnl():
    return pl.create_choice_model(
        df, 'alt', 'obs', 'choice', OrderedDict([('x', 'all_same')]), 'MNL',
        names=OrderedDict([('x', 'bx')]))

m = mnl()
b = np.array([.7])
e = create_estimation_obj(m, b, ridge=.2)
e.set_derivatives()
e.convenience_calc_gradient(b)
sys.exit(0 if b[0] == .7 else 1)
'''
