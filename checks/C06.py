"""Choice probabilities of the logit-type models."""
from .common import *

FUNCTIONS = ['choice_calcs.calc_probabilities',
             'estimation.LogitTypeEstimator.convenience_calc_probs',
             'base_multinomial_cm_v2.MNDC_Model.predict',
             'the utility transforms of conditional_logit, clog_log, scobit, '
             'uneven_logit, asym_logit (1D and 2D arguments)',
             'asym_logit._convert_eta_to_c', 'every split_param_vec']
BOUNDS = ('2 observations over alternatives {2,5,11} (5 rows, one alternative '
          'unavailable), 1-3 index coefficients, every intercept/shape '
          'reference position, parameter arrays with one or two columns; all '
          'covariates and parameters are arbitrary reals')
ASSUMPTIONS = ['clog-log: systematic utility <= 3 (the code switches to the '
               'asymptote at 3.7); scobit: |V| <= 10; transformed utilities '
               'within +-700 (see C07 for the rest)']

L1 = Layout([(3, 11), (3, 2), (3, 5)], {3: 5})


def chosen(m, y, P):
    out = []
    for o in m.layout.obs:
        s = T.ZERO
        for i, r in enumerate(m.layout.rows):
            if r[0] == o:
                s = s + y[i] * P[i]
        out.append(s)
    return out


def observe(W, est, th, mod, I):
    c, p = est.convenience_calc_probs(th)
    sh, ic, b = I['m'].split(I['th'])
    pl = [W.arr(b), W.arr(ic) if len(ic) else None,
          W.arr(sh) if len(sh) else None, None]
    q = mod.predict(W.df(I['cols']), param_list=pl)
    c2 = mod.predict(W.df(I['cols']), param_list=pl, return_long_probs=False,
                     choice_col='choice')
    return dict(chosen=c, long=p, predicted=q, predicted_chosen=c2)


def oracle(W, m, I):
    P = m.probs(I['cols'], I['th'])
    c = chosen(m, I['cols']['choice'], P)
    return dict(chosen=obj(c), long=obj(P), predicted=obj(P),
                predicted_chosen=obj(c))


def keep(W, m, I):
    I['m'] = m
    region(W, m, I['V'])


def simplex(kind, **kw):
    """Probabilities are in (0, 1) and add up to one per choice situation."""
    def observe(W, est, th, mod, I):
        c, p = est.convenience_calc_probs(th)
        return dict(p=p, sums=[sum(p[i] for i, r in enumerate(LX.rows)
                                   if r[0] == o) for o in LX.obs])

    def oracle(W, m, I):
        return dict(p=Pred(lambda v: (v > 0), 'positive'), sums=[1, 1])
    return lt_case(kind, LX, 'simplex', observe, oracle, sref=1,
                   iref=None if kind == 'mnl' else 1, **kw)


def two_d(kind, layout=LX, iref=1, sref=0, tag=''):
    """Two parameter columns at once: column k equals the 1D result."""
    m = Model(kind, layout, intercept_ref=iref if kind != 'mnl' else None,
              shape_ref=sref)

    def inputs(W):
        I = dict(cols=layout.data(W), a=m.params(W, 'a'), b=m.params(W, 'b'))
        for t in (I['a'], I['b']):
            region(W, m, [lin(m.columns(I['cols']), m.split(t)[2], i)
                          for i in range(len(layout.rows))])
        return I

    def run(W, I):
        mod = m.build(W, I['cols'])
        pl = []
        for u, v in zip(m.split(I['a']), m.split(I['b'])):
            pl.append(W.mat([list(q) for q in zip(u, v)]) if len(u) else None)
        pl = [pl[2], pl[1], pl[0], None]
        p = mod.predict(W.df(I['cols']), param_list=pl)
        c = mod.predict(W.df(I['cols']), param_list=pl,
                        return_long_probs=False, choice_col='choice')
        return dict(long=p, chosen=c)

    def expect(W, I, out):
        A, B = m.probs(I['cols'], I['a']), m.probs(I['cols'], I['b'])
        y = I['cols']['choice']
        return dict(long=obj([list(q) for q in zip(A, B)]),
                    chosen=obj([list(q) for q in zip(chosen(m, y, A),
                                                     chosen(m, y, B))]))
    return Case('%s-2d%s' % (kind, tag), inputs, run, expect,
                budget=200 if not tag else 1200)


def cases(tier):
    out = lt_suite(observe, oracle, tier, ridge=False, pre=keep)
    for k in LT:
        out.append(two_d(k, L1 if k == 'asym' else LX))
        out.append(simplex(k))
        if k in ('scobit', 'uneven', 'asym') and tier == 'thorough':
            for r in (0, 2):
                out.append(two_d(k, LX, r, r, '-ref%d' % r))
    return out
