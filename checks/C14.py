"""Hessian."""
from .common import *

FUNCTIONS = ['choice_calcs.calc_hessian', 'estimation.EstimationObj and the '
             'logit-type estimators\' convenience_calc_hessian']
BOUNDS = ('1-2 observations, 2-3 alternatives, up to 2 shapes, 2 intercepts '
          'and 2 index coefficients; covariates, parameters, weights, ridge '
          'symbolic reals')
ASSUMPTIONS = ['the utility transform and its derivatives are arbitrary '
               'values per row in the abstract cases (they are proved against '
               'the formulas in C06 and C11)', 'exact real arithmetic']


def observe(W, est, th, mod, I):
    return dict(hessian=est.convenience_calc_hessian(th))


def oracle(m, I, h, D):
    """Exact second derivatives when h is linear in the parameters (MNL);
    otherwise the curvature with the second-order terms of h dropped:
    -sum_obs w * sum_r P_r (dh_r - dhbar)(dh_r - dhbar)'"""
    n = len(I['th'])
    if m.kind == 'mnl':
        ll = m.loglik(I['cols'], I['th'], I['w'], I['ridge'])
        g = [T.diff(ll, t) for t in I['th']]
        H = [[T.diff(g[a], I['th'][b]) for b in range(n)] for a in range(n)]
        return dict(hessian=obj(H))
    obs = [r[0] for r in m.layout.rows]
    P = softmax(h, obs)
    H = [[T.ZERO] * n for _ in range(n)]
    for o in m.layout.obs:
        rows = [i for i in range(len(obs)) if obs[i] == o]
        w = I['w'][rows[0]] if I['w'] is not None else 1
        for a in range(n):
            for b in range(n):
                s = ma = mb = T.ZERO
                for i in rows:
                    s = s + P[i] * D[i][a] * D[i][b]
                    ma = ma + P[i] * D[i][a]
                    mb = mb + P[i] * D[i][b]
                H[a][b] = H[a][b] - w * (s - ma * mb)
    if I['ridge'] is not None:
        for a in range(n):
            H[a][a] = H[a][a] - 2 * I['ridge']
    return dict(hessian=obj(H))


def cases(tier):
    return second_suite(observe, oracle, tier)
