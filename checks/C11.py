"""Gradient of the logit-type models = derivative of the objective."""
from .common import *

FUNCTIONS = ['choice_calcs.calc_gradient', 'choice_calcs.calc_probabilities',
             'estimation.LogitTypeEstimator.convenience_calc_gradient',
             'every _*_utility_transform, _*_transform_deriv_v/_shape/_alpha '
             'and create_calc_dh_* of conditional_logit, clog_log, scobit, '
             'uneven_logit, asym_logit', 'every split_param_vec',
             'choice_tools.create_design_matrix',
             'choice_tools.create_long_form_mappings']
BOUNDS = ('2 observations over alternatives {2,5,11} (5 rows, one alternative '
          'unavailable), 1-3 index coefficients, every intercept/shape '
          'reference position; all covariates, parameters, weights (constant '
          'within an observation) and the ridge are arbitrary reals')
ASSUMPTIONS = ['clog-log: systematic utility <= 3 (the code switches to the '
               'asymptote at 3.7); scobit: |V| <= 10 except in the one '
               'observation case `extremes`, which is unrestricted']


def observe(W, est, th, mod, I):
    return dict(gradient=est.convenience_calc_gradient(th))


def oracle(W, m, I):
    ll = m.loglik(I['cols'], I['th'], I['w'], I['ridge'])
    return dict(gradient=obj([T.diff(ll, t) for t in I['th']]))


def cases(tier):
    return lt_suite(observe, oracle, tier)
