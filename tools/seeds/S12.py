ID = 'S12'
PROPERTY = 'C22'
EDITS = [
    ('bootstrap.py', '''            abc.calc_abc_interval(self.model_obj,
                                  self.mle_params.values,
                                  init_vals,
''',
     '''            abc.calc_abc_interval(self.model_obj,
                                  init_vals,
                                  self.mle_params.values,
'''),
]
NEEDS = 'initial values that differ from the maximum likelihood estimates'
BREAKS = 'The ABC interval is centred at the initial values of the estimation instead of the estimates.'
DEMO = '''
import sys
from collections import OrderedDict
import numpy as np
import pandas as pd
import pylogit as pl
from pylogit.construct_estimator import create_estimation_obj

import pylogit.bootstrap as b
rng = np.random.RandomState(1)
n = 300
df = pd.DataFrame({'obs': np.repeat(range(1, n + 1), 2), 'alt': [1, 2] * n,
                   'x': rng.normal(size=2 * n)})
d = df.x.values.reshape(n, 2)
c = rng.rand(n) < 1 / (1 + np.exp(d[:, 1] - d[:, 0]))
df['choice'] = np.column_stack([c, ~c]).ravel().astype(int)
m = pl.create_choice_model(
        df, 'alt', 'obs', 'choice', OrderedDict([('x', 'all_same')]), 'MNL',
        names=OrderedDict([('x', 'bx')]))
m.fit_mle(np.zeros(1), print_res=False)
mle = m.params
boot = b.Boot(m, mle.copy())
boot.calc_abc_interval(50, np.zeros(1), epsilon=1e-3)
lo, hi = boot.abc_interval.values[0]
v = np.sqrt(m.cov.values[0, 0])
sys.exit(0 if abs(lo + hi - 2 * mle.iloc[0]) < .8 * v else 1)
'''
