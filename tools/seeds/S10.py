ID = 'S10'
PROPERTY = 'C03'
EDITS = [
    ('choice_tools.py', '''    availability_condition = wide_availability_values.ravel() != 0
''',
     '''    availability_condition = new_obs_id_col != 0
'''),
]
NEEDS = 'a wide dataset with unavailable alternatives, or an observation id of zero'
BREAKS = 'Rows are dropped by observation id instead of by availability.'
DEMO = '''
import sys
from collections import OrderedDict
import numpy as np
import pandas as pd
import pylogit as pl
from pylogit.construct_estimator import create_estimation_obj

from pylogit.choice_tools import convert_wide_to_long
wide = pd.DataFrame({'obs': [0, 1], 'choice': [1, 2], 'x1': [.5, 1.], 'x2': [2., 3.],
                     'a1': [1, 1], 'a2': [1, 1]})
r = convert_wide_to_long(wide, [], OrderedDict([('x', {1: 'x1', 2: 'x2'})]),
                         {1: 'a1', 2: 'a2'}, 'obs', 'choice', new_alt_id_name='alt')
sys.exit(0 if r.shape[0] == 4 and set(r.obs) == {0, 1} else 1)
'''
