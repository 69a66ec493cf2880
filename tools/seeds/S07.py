ID = 'S07'
PROPERTY = 'C19'
EDITS = [
    ('base_multinomial_cm_v2.py', '''        new_rows_to_alts = mapping_res["rows_to_alts"]
''',
     '''        new_rows_to_alts = mapping_res["rows_to_alts"]
        if new_rows_to_alts.shape[0] == self.data.shape[0]:
            new_rows_to_alts = self.get_mappings_for_fit()["rows_to_alts"]
'''),
]
NEEDS = 'prediction data with as many rows as the estimation data but another arrangement of alternatives'
BREAKS = 'The rows of the new data are matched with the alternatives of the estimation data.'
DEMO = '''
import sys
from collections import OrderedDict
import numpy as np
import pandas as pd
import pylogit as pl
from pylogit.construct_estimator import create_estimation_obj

df = pd.DataFrame({'obs': [1, 1, 1, 2, 2, 2], 'alt': [1, 2, 3, 1, 2, 3],
                   'choice': [0, 1, 0, 0, 0, 1],
                   'x': [.5, -1., .25, 1.5, .75, -.5]})
def uneven():
    return pl.create_choice_model(
        df, 'alt', 'obs', 'choice', OrderedDict([('x', 'all_same')]), 'Uneven',
        names=OrderedDict([('x', 'bx')]), intercept_ref_pos=0,
        intercept_names=['a2', 'a3'], shape_names=['s1', 's2', 's3'])
th = np.array([.3, -.2, .1, .7, -.9, .4])

m = uneven()
m.fit_mle(th, print_res=False, maxiter=3)
new = df.copy()
new['alt'] = [3, 1, 2, 2, 3, 1]
srt = new.copy()
srt['row'] = range(6)
srt = srt.sort_values(['obs', 'alt'])
p = m.predict(new)
q = m.predict(srt)
r = np.empty(6)
r[srt['row'].values] = q
sys.exit(0 if np.allclose(p, r) else 1)
'''
