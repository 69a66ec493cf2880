"""Simulated probabilities of the mixed logit."""
from .common import *

FUNCTIONS = ['mixed_logit_calcs.create_expanded_design_for_mixing',
             'mixed_logit_calcs.get_normal_draws',
             'mixed_logit_calcs.convert_mixing_names_to_positions',
             'mixed_logit_calcs.calc_choice_sequence_probs',
             'choice_calcs.calc_probabilities (3D designs)',
             'mixed_logit.MixedEstimator.convenience_calc_probs',
             'mixed_logit.MixedLogit.fit_mle (seed, draws, expanded design)']
BOUNDS = ('2-3 observations of 1-2 individuals, 2-3 alternatives, 1-3 draws, '
          '1-3 mixed coefficients out of 1-3; covariates, parameters and '
          'draws arbitrary reals')
ASSUMPTIONS = ['the normal generator and the optimiser are replaced by '
               'arbitrary values of the right shape; no overflow of exp']


def chosen(m, y, P):
    out = []
    for o in m.layout.obs:
        i = [k for k, r in enumerate(m.layout.rows) if r[0] == o and y[k]][0]
        out.append(P[i])
    return out


def observe(W, est, th, mod, I):
    c, p = est.convenience_calc_probs(th)
    mlc = W.mod('mixed_logit_calcs')
    s, e = mlc.calc_choice_sequence_probs(p, est.choice_vector,
                                          est.rows_to_mixers,
                                          return_type='all')
    s2 = mlc.calc_choice_sequence_probs(p, est.choice_vector,
                                        est.rows_to_mixers)
    return dict(design=mod.design_3d, chosen=c, long=p, seq=s, expanded=e,
                seq2=s2)


def oracle(W, m, I):
    P = m.kernel(I['cols'], I['th'], I['z'])
    S = m.sequence(I['cols'], P)
    mean = [sum(r[1:], r[0]) / m.D for r in S]
    X = m.columns(I['cols'])
    L = m.layout
    design = [[[X[k][i] for k in range(len(X))] +
               [X[k][i] * I['z'][q][m.mixers.index(L.mix[o])][d]
                for q, k in enumerate(m.pos)] for d in range(m.D)]
              for i, (o, a) in enumerate(L.rows)]
    return dict(design=obj(design), long=obj(P),
                chosen=obj(chosen(m, I['cols']['choice'], P)),
                seq=obj(mean), seq2=obj(mean), expanded=obj(S))


def fitted(m, tag, **kw):
    """Through fit_mle: the draws come from the generator, the optimiser
    returns an arbitrary point; the objective follows from them."""
    n = m.nparam()

    def inputs(W):
        I = dict(cols=m.layout.data(W))
        M, D = len(m.mixers), m.D
        I['z'] = [[[W.real('z%d' % (v * M * D + u * D + d))
                    for d in range(D)] for u in range(M)]
                  for v in range(len(m.pos))]
        I['x'] = [W.real('x0_%d' % i) for i in range(n)]
        return I

    def run(W, I):
        mod = m.build(W, I['cols'])
        r = mod.fit_mle(W.arr([0.25] * n), num_draws=m.D, seed=7,
                        print_res=False, just_point=True)
        return dict(seeds=[v for k, v in W.events if k == 'seed'],
                    design=mod.design_3d, x=r['x'], ll=-1 * r['fun'])

    def expect(W, I, out):
        D = oracle(W, m, dict(cols=I['cols'], z=I['z'], th=I['x']))['design']
        return dict(seeds=[7], design=D, x=obj(I['x']),
                    ll=m.mixed_loglik(I['cols'], I['x'], I['z']))
    return Case('fit-' + tag, inputs, run, expect, budget=200, **kw)


def simplex(W, est, th, mod, I):
    p = est.convenience_calc_probs(th)[1]
    L, m = I['m'].layout, I['m']
    return dict(p=p, sums=[[sum(p[i, d] for i, r in enumerate(L.rows)
                                if r[0] == o) for d in range(m.D)]
                           for o in L.obs])


def simplex_oracle(W, m, I):
    return dict(p=Pred(lambda v: (v > 0), 'positive'),
                sums=[[1] * m.D for o in m.layout.obs])


def cases(tier):
    out = mixed_suite(observe, oracle, tier, ridge=False)
    out.append(mixed_case(Mixed(LMZ, ['b_z7', 'b_x'], 2, *SPECM), 'simplex',
                          simplex, simplex_oracle))
    out.append(fitted(Mixed(LM1, ['B_x'], 2), 'plain'))
    out.append(fitted(Mixed(LM1, ['B_x'], 1), 'one-draw'))
    out.append(fitted(Mixed(LM, ['B_x'], 2), 'panel'))
    out.append(fitted(Mixed(LMZ, ['b_z7', 'b_x'], 2, *SPECM), 'spec'))
    out.append(fitted(Mixed(LMZ, MIX3, 2, *SPECM), 'three-mixed'))
    return out
