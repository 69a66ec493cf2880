ID = 'S04'
PROPERTY = 'C15'
EDITS = [
    ('choice_calcs.py', '''            gradient_vec = d_ll_dh.T * np.concatenate((dh_dc.A,
                                                       dh_d_alpha.toarray(),
                                                       dh_db), axis=1)''',
     '''            gradient_vec = d_ll_dh.T * np.concatenate((dh_d_alpha.toarray(),
                                                       dh_dc.A,
                                                       dh_db), axis=1)'''),
]
NEEDS = 'a model with both shape and outside intercept parameters, whose shape derivative is a sparse matrix'
BREAKS = 'The Fisher information swaps the blocks of the shape and intercept parameters, so the robust covariance mislabels them.'
DEMO = '''
import sys
from collections import OrderedDict
import numpy as np
import pandas as pd
import pylogit as pl
from pylogit.construct_estimator import create_estimation_obj

df = pd.DataFrame({'obs': [1, 1, 1, 2, 2, 2], 'alt': [1, 2, 3, 1, 2, 3],
                   'choice': [0, 1, 0, 0, 0, 1],
                   'x': [.5, -1., .25, 1.5, .75, -.5]})
m = pl.create_choice_model(
        df, 'alt', 'obs', 'choice', OrderedDict([('x', 'all_same')]),
        'Asym', names=OrderedDict([('x', 'bx')]),
        intercept_ref_pos=0, intercept_names=['a2', 'a3'],
        shape_ref_pos=2, shape_names=['s1', 's2'])
th = np.array([.3, -.2, .7, -.9, .4])
def est(w=None):
    e = create_estimation_obj(m, th, weights=w)
    e.set_derivatives()
    return e
g = np.array([est((df.obs.values == o) * 1.).convenience_calc_gradient(th)
              for o in (1, 2)])
F = np.asarray(est().convenience_calc_fisher_approx(th))
sys.exit(0 if np.allclose(np.abs(F), np.abs(g.T.dot(g))) else 1)
'''
