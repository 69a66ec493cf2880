"""Predictions on new data."""
import os

from .common import *
from .C17 import fake_results

FUNCTIONS = ['base_multinomial_cm_v2.MNDC_Model.predict',
             'choice_calcs.calc_probabilities',
             'nested_choice_calcs.calc_nested_probs',
             'mixed_logit_calcs.get_normal_draws / '
             'create_expanded_design_for_mixing',
             'choice_tools.create_design_matrix / create_long_form_mappings '
             'on the new data']
BOUNDS = ('models estimated on 2 observations; new data of 1-3 observations '
          'with other identifiers, row order and availability; 1-3 index '
          'coefficients; covariates, parameters and draws arbitrary reals; '
          '1-2 parameter vectors per call')
ASSUMPTIONS = ['clog-log: V <= 3, scobit: |V| <= 10; the new data contain '
               'every alternative of the models with per-alternative '
               'parameters and every alternative named in the specification '
               '(otherwise the call is rejected by the code)']

# new data: other ids, other order, alternative 2 missing in observation 8
NEW = Layout([(21, 5), (21, 11), (21, 2), (8, 11), (8, 5)], {21: 11, 8: 5})
# balanced data whose second observation lists the alternatives in another
# order
NEWBAL = Layout([(21, 2), (21, 5), (21, 11), (8, 11), (8, 5), (8, 2)],
                {21: 11, 8: 5})
NEWZ = Layout([(21, 5), (21, 11), (21, 2), (8, 11), (8, 5)], {21: 2, 8: 11},
              cols=('x', 'z'), conc={'z': [2, .5, 1, -1, 3]})
NEWSUB = Layout([(21, 5), (21, 2), (30, 2), (30, 5)], {21: 5, 30: 2})
NEWSH = Layout([(21, 7), (21, 3), (5, 3), (5, 7)], {21: 7, 5: 3})
NEWN4 = Layout([(30, 7), (30, 2), (31, 5), (31, 11), (31, 2)],
               {30: 7, 31: 5})
NEWM = Layout([(31, 3), (31, 12), (8, 3), (8, 12), (40, 12), (40, 3)],
              {31: 12, 8: 3, 40: 3}, mix={31: 11, 8: 99, 40: 11})
NEWMZ = Layout([(31, 3), (31, 12), (8, 5), (8, 12), (8, 3)], {31: 12, 8: 3},
               cols=('x', 'z'), mix={31: 11, 8: 99},
               conc={'z': [2, .5, 1, -1, 3]})

NEWI = Layout(NEW.rows, NEW.chosen,
              conc={'x': [3 - 2 * i + i * i for i in range(len(NEW.rows))]})
NEWMI = Layout(NEWM.rows, NEWM.chosen, mix=NEWM.mix,
               conc={'x': [(3 * i) % 5 - 2 for i in range(len(NEWM.rows))]})


def sibling(m, layout):
    """The same model on another layout (for the oracle)."""
    n = Model(m.kind, layout, m.spec, m.names, m.iref, m.sref or 0,
              m.nest_spec, m.mixing_vars)
    n.sref = m.sref
    if m.kind == 'mixed':
        n = Mixed(layout, m.mixing_vars, m.D, m.spec, m.names)
    if m.kind != 'mnl':
        assert m.kind in ('nested', 'mixed') or layout.alts == m.layout.alts
    return n


def concrete(L, W):
    cols = L.data(W)
    return OrderedDict((k, [float(3 * j + len(k)) / 8 for j in range(len(v))]
                        if k in L.cols else v) for k, v in cols.items())


def from_csv(cols, call):
    """Call with the path of a CSV file that holds the columns."""
    import shutil
    import tempfile
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, 'data.csv')
        with open(f, 'w') as g:
            g.write(','.join(cols) + '\n')
            for r in zip(*cols.values()):
                g.write(','.join(str(v.args if isinstance(v, T.Node) else v)
                                 for v in r) + '\n')
        return call(f)
    finally:
        shutil.rmtree(d)


def blocks(m, W, th):
    sh, ic, b = m.split(th)
    nest = None
    if m.nest_spec:
        nest, sh = sh, []
    g = lambda v: W.arr(v) if v else None
    return [g(b), g(ic), g(sh), g(nest)]


def predict_case(m, layout, tag, by='fit', choice=True, long=True,
                 seed=11, csv=False, **kw):
    """by: 'fit' (stored estimates), 'list' (param_list), 'list1', 'list2'
    (one / two columns of parameter vectors), 'listnone' (a param_list
    without intercepts for a model that has them)"""
    n = m.nparam()
    q = sibling(m, layout)
    L = layout

    def inputs(W):
        I = dict(cols=L.data(W, 'n'), x=[W.real('p%d' % i)
                                         for i in range(n)])
        if by == 'listnone':
            k = m.nshape
            I['x'][k:k + m.nint] = [W.num(0)] * m.nint
        if by == 'list2':
            I['x2'] = [W.real('q%d' % i) for i in range(n)]
        if m.kind == 'mixed':
            M, D = len(q.mixers), q.D
            I['z'] = [[[W.real('z%d' % (v * M * D + u * D + d))
                        for d in range(D)] for u in range(M)]
                      for v in range(len(q.pos))]
        if m.kind in ('clog', 'scobit'):
            X = q.columns(I['cols'])
            for k in ('x', 'x2'):
                if k in I:
                    region(W, m, [lin(X, m.split(I[k])[2], i)
                                  for i in range(len(L.rows))])
        return I

    def run(W, I):
        mod = m.build(W, concrete(m.layout, W))
        if m.kind == 'mixed':
            mod.design_3d = np.zeros((len(m.layout.rows), m.D, n))
        start = I['x'] if by == 'fit' else [W.num(7 + i) for i in range(n)]
        mod.store_fit_results(fake_results(W, m, mod, dict(x=start)))
        a = {}
        if by == 'list':
            a['param_list'] = blocks(m, W, I['x'])
        elif by == 'listnone':
            a['param_list'] = blocks(m, W, I['x'])
            a['param_list'][1] = None
        elif by == 'list1':
            a['param_list'] = [None if u is None else u[:, None]
                               for u in blocks(m, W, I['x'])]
        elif by == 'list2':
            one, two = blocks(m, W, I['x']), blocks(m, W, I['x2'])
            a['param_list'] = [None if u is None else np.concatenate(
                [u[:, None], v[:, None]], axis=1)
                for u, v in zip(one, two)]
        if choice:
            a['choice_col'] = 'choice'
        if m.kind == 'mixed':
            a.update(num_draws=m.D)
            if seed is not None:
                a['seed'] = seed
        cols = I['cols']
        if not choice:
            cols = OrderedDict((k, v) for k, v in cols.items()
                               if k != 'choice')
        df = W.df(cols)
        if csv:
            r = from_csv(cols, lambda f: mod.predict(
                f, return_long_probs=long, **a))
        else:
            r = mod.predict(df, return_long_probs=long, **a)
        out = {}
        if choice and long:
            out['chosen'], out['long'] = r
        elif long:
            out['long'] = r
        else:
            out['chosen'] = r
        if by == 'list1':
            out = {k: np.ravel(v) for k, v in out.items()}
        if m.kind == 'mixed':
            out['seeds'] = [v for k, v in W.events if k == 'seed']
        out['columns'] = list(df.columns)
        return out

    def expect(W, I, out):
        def P(x):
            if m.kind == 'nested':
                return q.nested(I['cols'], x[:m.nnest], x[m.nnest:])['P']
            if m.kind == 'mixed':
                K = q.kernel(I['cols'], x, I['z'])
                return [sum(r[1:], r[0]) / q.D for r in K]
            return q.probs(I['cols'], x)
        p = P(I['x'])
        if by == 'list2':
            p = [[a, b] for a, b in zip(p, P(I['x2']))]
        y = [int(L.chosen[o] == a) for o, a in L.rows]
        ch = [p[i] for o in L.obs for i, r in enumerate(L.rows)
              if r[0] == o and y[i]]
        e = dict(columns=[k for k in I['cols'] if choice or k != 'choice'])
        if long:
            e['long'] = obj(p)
        if choice:
            e['chosen'] = obj(ch)
        if m.kind == 'mixed':
            e['seeds'] = [] if seed is None else [seed]
        return e
    kw.setdefault('bounds', '%d new rows, %d parameters' % (len(L.rows), n))
    return Case('%s-%s-%s' % (m.kind, by, tag), inputs, run, expect, **kw)


def cases(tier):
    P = predict_case
    out = [P(Model('mnl', LX), NEW, 'plain'),
           P(Model('mnl', LX), NEW, 'nochoice', choice=False),
           P(Model('mnl', LX), NEW, 'short', long=False),
           P(Model('mnl', LX), NEWSUB, 'subset', 'list'),
           P(Model('mnl', LX2, *SPEC2), NEWZ, 'spec', 'list'),
           P(Model('mnl', LX2, *SPEC2), NEWZ, 'spec', 'list2')]
    for k in ('clog', 'scobit', 'uneven', 'asym'):
        m = Model(k, LX, intercept_ref=1, shape_ref=2)
        if k == 'asym':
            out += [P(m, NEW, 'intercepts', choice=False),
                    P(Model(k, LS2, shape_ref=1), NEWSH, 'plain', 'list2'),
                    P(Model(k, LS2, intercept_ref=1, shape_ref=1), NEWSH,
                      'plain', 'list1')]
        else:
            out += [P(m, NEW, 'intercepts'),
                    P(m, NEW, 'intercepts', 'list'),
                    P(m, NEW, 'intercepts', 'list1'),
                    P(m, NEW, 'intercepts', 'list2'),
                    P(Model(k, LX, shape_ref=0), NEW, 'plain', 'list2'),
                    P(Model(k, LX, shape_ref=0), NEW, 'plain', long=False)]
    for k in ('clog', 'scobit', 'uneven'):
        out.append(P(Model(k, LX, intercept_ref=1), NEW, 'intercepts',
                     'listnone'))
    for k in ('mnl', 'scobit', 'uneven', 'asym'):
        m = Model(k, LX, **(dict() if k == 'mnl' else
                            dict(intercept_ref=1, shape_ref=2)))
        out.append(P(m, NEWBAL, 'balanced', choice=k != 'asym'))
    N = Model('nested', LN, nest_spec=NB)
    N4 = Model('nested', LN4, nest_spec=NB4)
    out += [P(N, NEW, 'plain', choice=False),
            P(N, NEW, 'short', long=False),
            P(N, NEW, 'both'),
            P(N4, NEWN4, 'four-both', 'list'),
            P(N, NEW, 'list', 'list', choice=False),
            P(N4, NEWN4, 'four', 'list', long=False),
            P(N4, NEWN4, 'four', choice=False)]
    out += [P(Model('mnl', LXI), NEWI, 'integer-data'),
            P(Model('scobit', LXI, shape_ref=0), NEWI, 'integer-data',
              'list2'),
            P(Model('nested', LXI, nest_spec=NB), NEWI, 'integer-data'),
            P(Mixed(LMI, ['B_x'], 2), NEWMI, 'integer-data'),
            P(Model('mnl', LX), NEWI, 'csv', csv=True),
            P(Model('nested', LN, nest_spec=NB), NEWI, 'csv', csv=True,
              choice=False)]
    M = Mixed(LM, ['B_x'], 2)
    MZ = Mixed(LMZ, ['b_z7', 'b_x'], 2, *SPECM)
    out += [P(M, NEWM, 'panel', choice=False),
            P(M, NEWM, 'panel', long=False),
            P(M, NEWM, 'both'),
            P(MZ, NEWMZ, 'both', 'list'),
            P(M, NEWM, 'no-seed', choice=False, seed=None),
            P(M, NEWM, 'panel', 'list', choice=False),
            P(MZ, NEWMZ, 'spec', choice=False),
            P(MZ, NEWMZ, 'spec', 'list', long=False),
            P(Mixed(LM1, ['B_x'], 1), NEWM, 'one-draw', choice=False)]
    return out
