ID = 'S02'
PROPERTY = 'C01'
EDITS = [('choice_tools.py', '''dict(zip(nest_spec.keys(), nest_ids))''', '''dict(zip(sorted(nest_spec), nest_ids))''')]
NEEDS = 'nest names whose listing order is not alphabetical'
BREAKS = 'Rows are mapped to the nest columns in alphabetical instead of specification order, so each nest coefficient is applied to another nest.'
DEMO = '''
import sys
from collections import OrderedDict
import pandas as pd
from pylogit.choice_tools import create_long_form_mappings

df = pd.DataFrame({'obs': [1, 1, 1, 2, 2, 2], 'alt': [1, 2, 3, 1, 2, 3],
                   'choice': [0, 1, 0, 0, 0, 1]})
spec = OrderedDict([('zeta', [1, 3]), ('alpha', [2])])
r = create_long_form_mappings(df, 'obs', 'alt', choice_col='choice',
                              nest_spec=spec, dense=True)['rows_to_nests']
want = [[1, 0], [0, 1], [1, 0]] * 2
sys.exit(0 if r.tolist() == want else 1)
'''
