"""Gradient of the mixed logit = derivative of its simulated objective."""
from .common import *

FUNCTIONS = ['mixed_logit_calcs.calc_mixed_logit_gradient',
             'mixed_logit_calcs.calc_choice_sequence_probs',
             'mixed_logit_calcs.create_expanded_design_for_mixing',
             'choice_calcs.calc_probabilities (3D designs)',
             'mixed_logit.MixedEstimator.convenience_calc_gradient']
BOUNDS = ('2-3 observations of 1-2 individuals, 2-3 alternatives, 1-3 draws, '
          '1-3 mixed coefficients out of 1-3; covariates, parameters, draws, '
          'weights (constant within an individual) and ridge arbitrary reals')
ASSUMPTIONS = ['no overflow/underflow of exp (range cuts are listed)']


def observe(W, est, th, mod, I):
    return dict(gradient=est.convenience_calc_gradient(th))


def oracle(W, m, I):
    ll = m.mixed_loglik(I['cols'], I['th'], I['z'], I['w'], I['ridge'])
    return dict(gradient=obj([T.diff(ll, t) for t in I['th']]))


def cases(tier):
    return mixed_suite(observe, oracle, tier)
