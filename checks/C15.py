"""BHHH."""
from .common import *

FUNCTIONS = ['choice_calcs.calc_fisher_info_matrix',
             'nested_choice_calcs.calc_bhhh_hessian_approximation',
             'mixed_logit_calcs.calc_bhhh_hessian_approximation_mixed_logit',
             'convenience_calc_fisher_approx / convenience_calc_hessian of the '
             'estimators (constrained positions of nested and mixed)']
BOUNDS = ('logit-type: 2 observations over alternatives {2,5,11} (5 rows), '
          'every intercept/shape reference position, arbitrary transformation '
          'values and derivatives per row; nested: 1-3 observations, 2-4 '
          'alternatives, 1-2 nests; mixed: 2-3 observations of 1-2 '
          'individuals, 1-3 draws')
ASSUMPTIONS = ['weights are constant within an observation (mixed: within an '
               'individual)', 'mixed logit: no ridge']


def observe(W, est, th, mod, I):
    return dict(fisher=est.convenience_calc_fisher_approx(th))


def oracle(m, I, h, D):
    """sum over observations of w * s s' with s the score of the observation
    (minus the ridge on the diagonal)"""
    obs = [r[0] for r in m.layout.rows]
    n = len(I['th'])
    P = softmax(h, obs)
    y = I['cols']['choice']
    F = [[T.ZERO] * n for _ in range(n)]
    for o in m.layout.obs:
        rows = [i for i in range(len(obs)) if obs[i] == o]
        w = I['w'][rows[0]] if I['w'] is not None else 1
        s = []
        for k in range(n):
            t = T.ZERO
            for i in rows:
                t = t + (y[i] - P[i]) * D[i][k]
            s.append(t)
        for a in range(n):
            for b in range(n):
                F[a][b] = F[a][b] + w * s[a] * s[b]
    if I['ridge'] is not None:
        for a in range(n):
            F[a][a] = F[a][a] - 2 * I['ridge']
    return dict(fisher=obj(F))


def outer(scores, ws, n):
    H = [[T.ZERO] * n for _ in range(n)]
    for s, w in zip(scores, ws):
        for a in range(n):
            for b in range(n):
                H[a][b] = H[a][b] - w * s[a] * s[b]
    return H


def constrain(H, pos):
    for p in pos:
        for k in range(len(H)):
            H[p][k] = H[k][p] = T.ZERO
        H[p][p] = T.const(-1)
    return H


def hessian(W, est, th, mod, I):
    return dict(hessian=est.convenience_calc_hessian(th))


def nested_oracle(pos=()):
    def oracle(W, m, I):
        R = m.nested(I['cols'], I['th'][:m.nnest], I['th'][m.nnest:])
        y, n = I['cols']['choice'], len(I['th'])
        sc, ws = [], []
        for o in m.layout.obs:
            i = [k for k, r in enumerate(m.layout.rows)
                 if r[0] == o and y[k]][0]
            sc.append([T.diff(R['logP'][i], t) for t in I['th']])
            ws.append(1 if I['w'] is None else I['w'][i])
        H = outer(sc, ws, n)
        if I['ridge'] is not None:
            for a in range(n):
                H[a][a] = H[a][a] - 2 * I['ridge']
        return dict(hessian=obj(constrain(H, pos)))
    return oracle


def mixed_oracle(pos=()):
    def oracle(W, m, I):
        S = m.sequence(I['cols'], m.kernel(I['cols'], I['th'], I['z']))
        sc, ws = [], []
        for u, row in enumerate(S):
            ll = T.log(sum(row[1:], row[0]) / m.D)
            sc.append([T.diff(ll, t) for t in I['th']])
            ws.append(1 if I['w'] is None else I['w'][u])
        return dict(hessian=obj(constrain(outer(sc, ws, len(I['th'])), pos)))
    return oracle


def cases(tier):
    out = second_suite(observe, oracle, tier)
    out += nested_suite(hessian, nested_oracle(), tier)
    out += mixed_suite(hessian, mixed_oracle(), tier, ridge=False,
                       light=tier == 'quick', budget=600)
    out += [nested_case(LN, NB, 'constrained', hessian, nested_oracle([1]),
                        False, True, constrained=[1]),
            nested_case(LN2, NB, 'constrained2', hessian,
                        nested_oracle([0, 3]), False, True, spec=SPEC2,
                        constrained=[3, 0]),
            mixed_case(Mixed(LMP, ['B_x'], 2), 'constrained', hessian,
                       mixed_oracle([1]), False, True, constrained=[1])]
    return out
