"""Choice probabilities of the nested logit."""
from .common import *

FUNCTIONS = ['nested_choice_calcs.calc_nested_probs',
             'nested_choice_calcs.naturalize_nest_coefs',
             'nested_logit.NestedEstimator.convenience_calc_probs',
             'nested_logit.split_param_vec',
             'base_multinomial_cm_v2.MNDC_Model.predict (nested branch)']
BOUNDS = ('1-3 observations, 2-4 alternatives in one or two nests (listed in '
          'unsorted order, single-member nests, a nest without any available '
          'alternative), 1-3 index coefficients; all parameters and '
          'covariates arbitrary reals')
ASSUMPTIONS = ['no overflow/underflow of exp (range cuts are listed)']


def chosen(m, y, P):
    out = []
    for o in m.layout.obs:
        s = T.ZERO
        for i, r in enumerate(m.layout.rows):
            if r[0] == o:
                s = s + y[i] * P[i]
        out.append(s)
    return out


def observe(W, est, th, mod, I):
    c, p = est.convenience_calc_probs(th)
    m = I['m']
    pl = [W.arr(I['th'][m.nnest:]), None, None, W.arr(I['th'][:m.nnest])]
    q = mod.predict(W.df(I['cols']), param_list=pl)
    c2 = mod.predict(W.df(I['cols']), param_list=pl, return_long_probs=False,
                     choice_col='choice')
    return dict(chosen=c, long=p, predicted=q, predicted_chosen=c2)


def oracle(W, m, I):
    R = m.nested(I['cols'], I['th'][:m.nnest], I['th'][m.nnest:])
    c = chosen(m, I['cols']['choice'], R['P'])
    return dict(chosen=obj(c), long=obj(R['P']), predicted=obj(R['P']),
                predicted_chosen=obj(c))


def parts(W, est, th, mod, I):
    nc = W.mod('nested_choice_calcs')
    m = I['m']
    lam = nc.naturalize_nest_coefs(W.arr(I['th'][:m.nnest]))
    a = [lam, W.arr(I['th'][m.nnest:]), mod.design, est.rows_to_obs,
         est.rows_to_nests]
    d = nc.calc_nested_probs(*a, chosen_row_to_obs=est.chosen_row_to_obs,
                             return_type='all_prob_dict')
    p = nc.calc_nested_probs(*a)
    c = nc.calc_nested_probs(*a, chosen_row_to_obs=est.chosen_row_to_obs,
                             return_type='chosen_probs')
    return dict(natural=lam, p=p, c=c, long=d['long_probs'],
                chosen=d['chosen_probs'], given=d['prob_given_nest'],
                choice=d['nest_choice_probs'], sums=d['ind_sums_per_nest'])


def parts_oracle(W, m, I):
    R = m.nested(I['cols'], I['th'][:m.nnest], I['th'][m.nnest:])
    c = chosen(m, I['cols']['choice'], R['P'])
    tiny = 1e-300      # documented floor of a probability
    return dict(natural=obj(R['lam']), p=obj(R['P']), c=obj(c),
                long=obj(R['P']), chosen=obj(c), given=obj(R['given']),
                choice=obj([[R['choice'].get((o, k), tiny)
                             for k in range(m.nnest)] for o in m.layout.obs]),
                sums=obj([[R['S'].get((o, k), 0) for k in range(m.nnest)]
                          for o in m.layout.obs]))


def simplex(W, est, th, mod, I):
    c, p = est.convenience_calc_probs(th)
    L = I['m'].layout
    return dict(p=p, sums=[sum(p[i] for i, r in enumerate(L.rows)
                               if r[0] == o) for o in L.obs])


def simplex_oracle(W, m, I):
    return dict(p=Pred(lambda v: (v > 0), 'positive'),
                sums=[1] * len(m.layout.obs))


def cases(tier):
    out = nested_suite(observe, oracle, tier, ridge=False)
    N = nested_case
    for t, l, s in (('plain', LN, NB), ('missing', LN4, NB4),
                    ('order', LN4S, NB4)):
        out.append(N(l, s, 'parts-' + t, parts, parts_oracle))
        out.append(N(l, s, 'simplex-' + t, simplex, simplex_oracle))
    return out
