ID = 'S14'
PROPERTY = 'C24'
EDITS = [
    ('mixed_logit.py', '''        past_weights = new_to_old_repeat_ids.dot(past_weights)
''',
     '''        if num_rel_new_id != num_rel_old_id:
            past_weights = new_to_old_repeat_ids.dot(past_weights)
'''),
]
NEEDS = 'individuals that appear in another order in the new data than in the estimation data'
BREAKS = "Individuals receive each other's posterior weights over the draws."
DEMO = '''
import sys
from collections import OrderedDict
import numpy as np
import pandas as pd
import pylogit as pl
from pylogit.construct_estimator import create_estimation_obj

df = pd.DataFrame({'obs': [1, 1, 2, 2], 'alt': [1, 2, 1, 2],
                   'choice': [0, 1, 1, 0], 'mix': [1, 1, 2, 2],
                   'x': [.5, -1., 2.5, 1.5]})
def build(d):
    return pl.create_choice_model(
        d, 'alt', 'obs', 'choice', OrderedDict([('x', 'all_same')]),
        'Mixed Logit', names=OrderedDict([('x', 'bx')]),
        mixing_id_col='mix', mixing_vars=['bx'])
m = build(df)
m.fit_mle(np.array([.5, 1.]), num_draws=5, seed=3, maxiter=2, print_res=False)
m.coefs = pd.Series([.5, 2.], index=m.coefs.index)
new = pd.DataFrame({'obs': [7, 7, 8, 8], 'alt': [1, 2, 1, 2],
                    'choice': [1, 0, 1, 0], 'mix': [2, 2, 1, 1],
                    'x': [1., -1., .5, .25]})
p = m.panel_predict(new, 5, seed=11)
from pylogit.mixed_logit_calcs import get_normal_draws
z = get_normal_draws(2, 5, 1, seed=11)[0]
def kern(x, b):
    e = np.exp(np.outer(x, b))
    return e / e.sum(axis=0)
out = []
for k, mid in enumerate([2, 1]):
    b = .5 + 2 * z[k]
    old = df[df.mix == mid]
    L = kern(old.x.values, b)[old.choice.values == 1][0]
    nx = new[new.mix == mid].x.values
    out.extend((kern(nx, b) * L / L.sum()).sum(axis=1))
sys.exit(0 if np.allclose(p, out) else 1)
'''
