"""Objective of the logit-type models."""
from .common import *

FUNCTIONS = ['choice_calcs.calc_log_likelihood',
             'nested_choice_calcs.calc_nested_log_likelihood',
             'mixed_logit_calcs.calc_mixed_log_likelihood',
             'mixed_logit_calcs.calc_choice_sequence_probs',
             'mixed_logit_calcs.create_expanded_design_for_mixing',
             'convenience_calc_log_likelihood of all seven estimators']
BOUNDS = ('logit-type: 2 observations over alternatives {2,5,11} (5 rows), 1-3 '
          'index coefficients, every intercept/shape reference position; '
          'nested: 1-3 observations, 2-4 alternatives, 1-2 nests; mixed: 2-3 '
          'observations of 1-2 individuals, 1-3 draws, 1-2 mixed '
          'coefficients; covariates, parameters, draws, weights and ridge '
          'arbitrary reals')
ASSUMPTIONS = ['clog-log: systematic utility <= 3 (the code switches to the '
               'asymptote at 3.7); scobit: |V| <= 10; no overflow of exp',
               'weights are constant within an observation (mixed: within an '
               'individual)']


def observe(W, est, th, mod, I):
    return dict(ll=est.convenience_calc_log_likelihood(th))


def oracle(W, m, I):
    return dict(ll=m.loglik(I['cols'], I['th'], I['w'], I['ridge']))


def mixed_oracle(W, m, I):
    return dict(ll=m.mixed_loglik(I['cols'], I['th'], I['z'], I['w'],
                                  I['ridge']))


def cases(tier):
    return (lt_suite(observe, oracle, tier) +
            nested_suite(observe, oracle, tier) +
            mixed_suite(observe, mixed_oracle, tier))
