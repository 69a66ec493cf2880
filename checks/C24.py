"""Individual-level (panel) predictions of the mixed logit model."""
from .common import *
from .C17 import fake_results
from .C19 import sibling

FUNCTIONS = ['mixed_logit.MixedLogit.panel_predict (and its filtering of the '
             'mappings of the estimation data)',
             'mixed_logit_calcs.get_normal_draws, '
             'create_expanded_design_for_mixing, calc_choice_sequence_probs',
             'choice_calcs.calc_probabilities',
             'choice_tools.create_long_form_mappings, create_design_matrix']
BOUNDS = ('1-3 individuals with 1-3 past choice situations, 1-3 individuals '
          'with 1-2 future choice situations, 1-2 mixing variables, 1-3 '
          'draws; covariates of both data sets, parameters and draws '
          'arbitrary reals')
ASSUMPTIONS = []

OLD = LM                                    # individuals 20, 11, 20
OLD3 = Layout([(4, 12), (4, 3), (6, 3), (6, 12), (10, 12), (10, 3)],
              {4: 3, 6: 12, 10: 12}, mix={4: 20, 6: 11, 10: 5})
SAME = Layout([(30, 12), (30, 3), (31, 3), (31, 12)], {30: 3, 31: 12},
              mix={30: 20, 31: 11})
SWAP = Layout([(30, 12), (30, 3), (31, 3), (31, 12)], {30: 3, 31: 12},
              mix={30: 11, 31: 20})
SUB = Layout([(31, 3), (31, 12)], {31: 12}, mix={31: 11})
NEWBIE = Layout([(31, 3), (31, 12), (8, 3), (8, 12), (40, 12), (40, 3)],
                {31: 12, 8: 3, 40: 3}, mix={31: 99, 8: 11, 40: 20})
NEW1 = Layout([(31, 3), (31, 12), (8, 3), (8, 12), (40, 12), (40, 3)],
              {31: 12, 8: 3, 40: 3}, mix={31: 20, 8: 99, 40: 20})
NOBODY = Layout([(31, 3), (31, 12), (8, 3), (8, 12)], {31: 12, 8: 3},
                mix={31: 99, 8: 98})
ROT = Layout([(31, 3), (31, 12), (8, 3), (8, 12), (40, 12), (40, 3)],
             {31: 12, 8: 3, 40: 3}, mix={31: 5, 8: 20, 40: 11})
SAMEZ = Layout([(31, 3), (31, 12), (8, 5), (8, 12), (8, 3)], {31: 12, 8: 3},
               cols=('x', 'z'), mix={31: 11, 8: 20},
               conc={'z': [2, .5, 1, -1, 3]})
ORDZ = Layout([(31, 3), (31, 12), (8, 5), (8, 12), (8, 3)], {31: 12, 8: 3},
              cols=('x', 'z'), mix={31: 20, 8: 77},
              conc={'z': [2, .5, 1, -1, 3]})


def panel_case(m, layout, tag, choice=True, long=True, seed=11, **kw):
    n = m.nparam()
    q = sibling(m, layout)
    L = layout

    def inputs(W):
        M, D = len(q.mixers), q.D
        return dict(old=m.layout.data(W), cols=L.data(W, 'n'),
                    x=[W.real('p%d' % i) for i in range(n)],
                    z=[[[W.real('z%d' % (v * M * D + u * D + d))
                         for d in range(D)] for u in range(M)]
                       for v in range(len(q.pos))])

    def run(W, I):
        mod = m.build(W, I['old'])
        mod.design_3d = np.zeros((len(m.layout.rows), m.D, n))
        mod.store_fit_results(fake_results(W, m, mod, dict(x=I['x'])))
        a = dict(choice_col='choice') if choice else {}
        if seed is not None:
            a['seed'] = seed
        cols = I['cols']
        if not choice:
            cols = OrderedDict((k, v) for k, v in cols.items()
                               if k != 'choice')
        r = mod.panel_predict(W.df(cols), m.D, return_long_probs=long, **a)
        out = dict(seeds=[v for k, v in W.events if k == 'seed'])
        if choice and long:
            out['chosen'], out['long'] = r
        else:
            out['long' if long else 'chosen'] = r
        return out

    def expect(W, I, out):
        x = I['x']
        # the draws of an individual are the same in both data sets; the
        # past of the other individuals of the estimation data is irrelevant
        pad = [[I['z'][v][q.mixers.index(u)] if u in q.mixers
                else [T.ZERO] * m.D for u in m.mixers]
               for v in range(len(m.pos))]
        S = m.sequence(I['old'], m.kernel(I['old'], x, pad))
        K = q.kernel(I['cols'], x, I['z'])
        p = []
        for i, (o, a) in enumerate(L.rows):
            u = L.mix[o]
            if u in m.mixers:
                s = S[m.mixers.index(u)]
                tot = sum(s[1:], s[0])
                w = [v / tot for v in s]
            else:
                w = [T.const(1) / m.D] * m.D
            t = T.ZERO
            for d in range(m.D):
                t = t + w[d] * K[i][d]
            p.append(t)
        e = dict(seeds=[] if seed is None else [seed])
        if long:
            e['long'] = obj(p)
        if choice:
            e['chosen'] = obj([p[i] for o in L.obs
                               for i, r in enumerate(L.rows)
                               if r[0] == o and L.chosen[o] == r[1]])
        return e
    kw.setdefault('bounds', '%d past and %d new rows, %d draws'
                  % (len(m.layout.rows), len(L.rows), m.D))
    return Case(tag, inputs, run, expect, **kw)


def cases(tier):
    P = panel_case
    M = Mixed(OLD, ['B_x'], 2)
    M3 = Mixed(OLD3, ['B_x'], 2)
    MZ = Mixed(LMZ, ['b_z7', 'b_x'], 2, *SPECM)
    return [P(M, SAME, 'same-order'),
            P(M, SWAP, 'other-order'),
            P(Mixed(LMI, ['B_x'], 2),
              Layout(SWAP.rows, SWAP.chosen, mix=SWAP.mix,
                     conc={'x': [2, -1, 1, 3]}), 'integer-data'),
            P(M, SUB, 'subset', choice=False),
            P(M, NEWBIE, 'stranger-first'),
            P(M, NEW1, 'stranger-and-panel', choice=False),
            P(M, NOBODY, 'strangers-only'),
            P(M3, ROT, 'rotated', long=False),
            P(M3, SUB, 'subset-of-three', long=False, seed=None),
            P(MZ, SAMEZ, 'spec-other-order'),
            P(MZ, ORDZ, 'spec-stranger', choice=False),
            P(Mixed(OLD, ['B_x'], 1), SWAP, 'one-draw'),
            P(Mixed(LM1, ['B_x'], 3), NEWBIE, 'three-draws', long=False)]
