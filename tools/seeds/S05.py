ID = 'S05'
PROPERTY = 'C16'
EDITS = [
    ('base_multinomial_cm_v2.py', '''        self._adjust_inferential_results_for_parameter_constraints(constraints)

        # Store a summary dataframe of the estimation results
        self._create_results_summary()
''',
     '''        # Store a summary dataframe of the estimation results
        self._create_results_summary()
        self._adjust_inferential_results_for_parameter_constraints(constraints)
'''),
]
NEEDS = 'a fit with constrained positions, read through the summary table'
BREAKS = 'The summary table keeps standard errors, t-stats and p-values of constrained parameters, contradicting the stored series.'
DEMO = '''
import sys
from collections import OrderedDict
import numpy as np
import pandas as pd
import pylogit as pl
from pylogit.construct_estimator import create_estimation_obj

rng = np.random.RandomState(1)
n = 40
df = pd.DataFrame({'obs': np.repeat(range(1, n + 1), 2), 'alt': [1, 2] * n,
                   'x': rng.normal(size=2 * n), 'z': rng.normal(size=2 * n)})
c = rng.rand(n) < .5
df['choice'] = np.column_stack([c, ~c]).ravel().astype(int)
m = pl.create_choice_model(
        df, 'alt', 'obs', 'choice',
        OrderedDict([('x', 'all_same'), ('z', 'all_same')]), 'MNL',
        names=OrderedDict([('x', 'bx'), ('z', 'bz')]))
m.fit_mle(np.zeros(2), print_res=False, constrained_pos=[1])
s = m.summary.loc['bz', ['std_err', 't_stats', 'p_values']].astype(float)
sys.exit(0 if s.isnull().all() and np.isnan(m.standard_errors['bz']) else 1)
'''
