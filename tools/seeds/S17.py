ID = 'S17'
PROPERTY = 'C04'
EDITS = [
    ('choice_tools.py', '''            obs_to_var[np.where(obs_to_alt == 0)] = null_value
''',
     '''            obs_to_var[np.where(obs_to_var == 0)] = null_value
'''),
]
NEEDS = 'an attribute equal to zero for an available alternative while some alternative is unavailable'
BREAKS = 'Genuine zeros become missing values.'
DEMO = '''
import sys
from collections import OrderedDict
import numpy as np
import pandas as pd
import pylogit as pl
from pylogit.construct_estimator import create_estimation_obj

df = pd.DataFrame({'obs': [1, 1, 2, 2, 2], 'alt': [1, 2, 1, 2, 3],
                   'choice': [1, 0, 0, 0, 1], 'inc': [3., 3, 4, 4, 4],
                   'x': [0., 1., 2., 0., 4.]})
d = pl.convert_long_to_wide(df, ['inc'], ['x'], OrderedDict(), 'obs', 'alt',
                            'choice', null_value=-99)
ok = (d['x_1'].tolist() == [0., 2.] and d['x_2'].tolist() == [1., 0.] and
      d['x_3'].tolist() == [-99., 4.])
sys.exit(0 if ok else 1)
'''
