ID = 'S03'
PROPERTY = 'C02'
EDITS = [('choice_tools.py', '''    unique_alternatives = np.sort(long_form[alt_id_col].unique())
    num_alternatives = len(unique_alternatives)

    check_type''', '''    unique_alternatives = long_form[alt_id_col].unique()
    num_alternatives = len(unique_alternatives)

    check_type''')]
NEEDS = 'a per-alternative coefficient and data whose first appearance of the alternatives is not in sorted order'
BREAKS = 'Columns and names of alternative-specific coefficients come out in order of appearance instead of sorted order.'
DEMO = '''
import sys
from collections import OrderedDict
import pandas as pd
from pylogit.choice_tools import create_design_matrix

df = pd.DataFrame({'obs': [1, 1, 2, 2, 2], 'alt': [3, 1, 1, 2, 3],
                   'x': [1., 2., 3., 4., 5.]})
d, n = create_design_matrix(df, OrderedDict([('x', 'all_diff')]), 'alt')
want = [[0, 0, 1], [2, 0, 0], [3, 0, 0], [0, 4, 0], [0, 0, 5]]
sys.exit(0 if d.tolist() == want else 1)
'''
