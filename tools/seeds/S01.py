ID = 'S01'
PROPERTY = 'C11'
EDITS = [('choice_calcs.py', '''        params = np.concatenate((shape_params, intercept_params, beta),
                                axis=0)''', '''        params = np.concatenate((intercept_params, shape_params, beta),
                                axis=0)''')]
NEEDS = 'ridge penalty, together with both shape parameters and outside intercepts that differ from each other'
BREAKS = 'The penalty part of the gradient is added to the wrong parameters, so it is not the derivative of the penalised log-likelihood.'
DEMO = '''
import sys
from collections import OrderedDict
import numpy as np
import pandas as pd
import pylogit as pl
from pylogit.construct_estimator import create_estimation_obj

df = pd.DataFrame({'obs': [1, 1, 1, 2, 2, 2], 'alt': [1, 2, 3, 1, 2, 3],
                   'choice': [0, 1, 0, 0, 0, 1],
                   'x': [.5, -1., .25, 1.5, .75, -.5]})
m = pl.create_choice_model(
    df, 'alt', 'obs', 'choice', OrderedDict([('x', 'all_same')]), 'Uneven',
    names=OrderedDict([('x', 'bx')]), intercept_ref_pos=0,
    intercept_names=['a2', 'a3'], shape_names=['s1', 's2', 's3'])
th = np.array([.3, -.2, .1, .7, -.9, .4])
e = create_estimation_obj(m, th, ridge=0.5)
e.set_derivatives()
g = e.convenience_calc_gradient(th)
num = np.empty(6)
for i in range(6):
    d = np.zeros(6)
    d[i] = 1e-6
    num[i] = (e.convenience_calc_log_likelihood(th + d) -
              e.convenience_calc_log_likelihood(th - d)) / 2e-6
sys.exit(0 if np.allclose(g, num, atol=1e-5) else 1)
'''
