"""Gradient of the nested logit = derivative of its objective."""
from .common import *

FUNCTIONS = ['nested_choice_calcs.calc_nested_gradient',
             'nested_choice_calcs.prep_vectors_for_gradient',
             'nested_choice_calcs.calc_nested_probs',
             'nested_choice_calcs.naturalize_nest_coefs',
             'nested_logit.NestedEstimator.convenience_calc_gradient']
BOUNDS = ('1-3 observations, 2-4 alternatives in one or two nests (listed in '
          'unsorted order, single-member nests, a nest without any available '
          'alternative), 1-3 index coefficients; all parameters, weights, the '
          'ridge and covariates arbitrary reals')
ASSUMPTIONS = ['no overflow/underflow of exp (range cuts are listed)']


def observe(W, est, th, mod, I):
    return dict(gradient=est.convenience_calc_gradient(th))


def oracle(W, m, I):
    ll = m.nested_loglik(I['cols'], I['th'], I['w'], I['ridge'])
    g = [T.diff(ll, t) for t in I['th']]
    if I['ridge'] is not None:
        # penalty on the nest coefficients: see the case `ridge-nests`
        for k in range(m.nnest):
            g[k] = Skip()
    return dict(gradient=obj(g))


def natural(W, est, th, mod, I):
    nc = W.mod('nested_choice_calcs')
    m = I['m']
    g = nc.calc_nested_gradient(
        th[:m.nnest], th[m.nnest:], mod.design, mod.choices, est.rows_to_obs,
        est.rows_to_nests, weights=None if I['w'] is None else W.arr(I['w']),
        use_jacobian=False)
    return dict(gradient=g)


def natural_oracle(W, m, I):
    """Derivative with respect to the natural nest coefficients"""
    orig = I['th'][:m.nnest]
    ll = m.nested_loglik(I['cols'], I['th'], I['w'], None)
    g = [T.diff(ll, t) for t in I['th']]
    for k, o in enumerate(orig):
        lam = 1 / (1 + T.exp(-T.lift(o)))
        g[k] = g[k] / (lam * (1 - lam))
    return dict(gradient=obj(g))


def full_oracle(W, m, I):
    ll = m.nested_loglik(I['cols'], I['th'], I['w'], I['ridge'])
    return dict(gradient=obj([T.diff(ll, t) for t in I['th']]))


def recorded_oracle(W, m, I):
    """known finding: the penalty enters the nest part as 20 - parameter"""
    ll = m.nested_loglik(I['cols'], I['th'], I['w'], None)
    g = [T.diff(ll, t) for t in I['th']]
    for k, t in enumerate(I['th']):
        g[k] = g[k] - 2 * I['ridge'] * (20 - t if k < m.nnest else t)
    return dict(gradient=obj(g))


def cases(tier):
    out = nested_suite(observe, oracle, tier)
    out += [nested_case(LN, NB, 'natural', natural, natural_oracle, False,
                        True),
            nested_case(LN4S, NB4, 'natural-2x2', natural, natural_oracle)]
    for l, n, t in ((LN, NB, ''), (LN4S, NB4, '-2x2')):
        for o, q in ((full_oracle, ''), (recorded_oracle, '#as-recorded')):
            out.append(nested_case(l, n, 'ridge-nests' + t + q, observe, o,
                                   True, True))
    return out
