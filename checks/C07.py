"""Extreme utilities and parameters: floating-point overflow and underflow."""
import itertools

from .common import *

FUNCTIONS = ['choice_calcs.calc_probabilities, calc_log_likelihood, '
             'calc_gradient',
             'the utility transforms of conditional_logit, clog_log, scobit, '
             'uneven_logit, asym_logit', 'asym_logit._convert_eta_to_c',
             'nested_choice_calcs.calc_nested_probs, naturalize_nest_coefs, '
             'calc_nested_log_likelihood']
BOUNDS = ('one observation of 2-3 alternatives; systematic utilities, '
          'intercepts, shape and nest parameters arbitrary reals up to 1e15 '
          'in size')
ASSUMPTIONS = ['floating point is modelled as exact arithmetic with overflow '
               'to infinity, underflow to zero of exp and of quotients, '
               'absorption into a constant and overflow of products; other '
               'rounding is not modelled (replays use real doubles)',
               'gradients: MNL only']
BOX = 10 ** 15


def finite(v):
    if isinstance(v, T.Node):
        return True
    v = float(v)
    return v == v and abs(v) != float('inf')


def prob(v):
    if not finite(v):
        return False
    if isinstance(v, T.Node):
        return T.and_(T.cmp_('<', T.ZERO, v),
                       T.cmp_('<=', v, T.const(1 + 1e-9)))
    return 0 < v <= 1 + 1e-9


def positive(v):
    if not finite(v):
        return False
    return T.cmp_('<', T.ZERO, v) if isinstance(v, T.Node) else v > 0


def near_one(v):
    if not finite(v):
        return False
    if isinstance(v, T.Node):
        return T.and_(T.cmp_('<=', T.const(1 - 1e-6), v),
                       T.cmp_('<=', v, T.const(1 + 1e-6)))
    return abs(v - 1) <= 1e-6


def extreme(kind, L, tag, iref=None, gradient=False, nests=None, vary=None,
            loose=False, budget=200):
    m = Model(kind, L, intercept_ref=iref, shape_ref=1, nest_spec=nests)
    n = m.nparam() - 1
    k = len(L.rows)

    def inputs(W):
        x = []
        for i in range(k):
            x.append(W.real('v%d' % i, box=(-900, 900))
                     if vary is None or 'v%d' % i in vary else W.num(0.25 * i))
        t = [W.real('t%d' % i, box=(-40, 40))
             if vary is None or 't%d' % i in vary else W.num(0) for i in
             range(n)]
        for q in x + t:
            W.assume(q <= BOX)
            W.assume(q >= -BOX)
        cols = L.data(W)
        cols['x'] = x
        return dict(cols=cols, th=t + [W.num(1)])

    def run(W, I):
        mod = m.build(W, I['cols'])
        th = W.arr(I['th'])
        est = estimator(W, mod, th)
        p = est.convenience_calc_probs(th)[1]
        out = dict(p=list(np.asarray(p).ravel()))
        s = p[0]
        for q in p[1:]:
            s = s + q
        out['sum'] = s
        out['ll'] = est.convenience_calc_log_likelihood(th)
        if gradient:
            out['g'] = list(est.convenience_calc_gradient(th))
        return out

    def expect(W, I, out):
        e = dict(p=[Pred(positive, '> 0') if loose else
                    Pred(prob, 'in (0, 1]') for _ in range(k)],
                 sum=Skip() if loose else Pred(near_one, 'one'),
                 ll=Pred(finite, 'finite'))
        if gradient:
            e['g'] = [Pred(finite, 'finite') for _ in range(m.nparam())]
        return e
    pts = []
    for vs in itertools.product((-5e3, -720., -45., 0., 45., 720., 5e3),
                                repeat=min(k, 2)):
        for ts in itertools.product(*[(0., 3., -30., 30., -800., 800.)] *
                                    min(n, 2)):
            d = {'v%d' % i: v for i, v in enumerate(vs + (1.,) * (k - 2))}
            d.update({'t%d' % i: t for i, t in
                      enumerate(ts + (0.5,) * (n - 2))})
            pts.append(d)
    return Case('%s-%s' % (kind, tag), inputs, run, expect, fp=True, cut=False,
                budget=budget, hints=pts)


L2 = Layout([(4, 3), (4, 7)], {4: 7})
L3 = Layout([(3, 11), (3, 2), (3, 5)], {3: 2})


def cases(tier):
    out = [extreme('mnl', L2, '2', gradient=True),
           extreme('clog', L2, '2'),
           extreme('clog', L2, 'int', iref=0, vary=('v0', 't0')),
           extreme('clog', L2, 'int1', iref=0, vary=('v1', 't0'))]
    for k in ('uneven', 'scobit', 'asym'):
        out += [extreme(k, L2, 'v', vary=('v0', 'v1')),
                extreme(k, L2, 'int', iref=0, vary=('v1', 't1'
                        if k == 'asym' else 't2'))]
        if k != 'scobit' or tier == 'thorough':
            out.append(extreme(k, L2, 'vt', vary=('v0', 't0')))
        if k == 'asym':
            out.append(extreme(k, L2, 'vt1', vary=('v1', 't0')))
    one = OrderedDict([('n', [3, 7])])
    two = OrderedDict([('a', [11, 5]), ('b', [2])])
    out += [extreme('nested', L2, 'v', nests=one, loose=True, vary=('v0', 'v1')),
            extreme('nested', L2, 'vt', nests=one, loose=True, vary=('v0', 't0'))]
    if tier == 'thorough':
        out += [
            extreme('nested', L3, 'two', nests=two, loose=True, vary=('v0', 't0')),
            extreme('nested', L3, 'two-b', nests=two, loose=True, vary=('v1', 'v2'))]
        out += [extreme('mnl', L3, '3', gradient=True, budget=800)]
        for k in ('uneven', 'scobit', 'asym'):
            out.append(extreme(k, L2, 'full', budget=1500))
        out += [extreme('clog', L2, '2-int', iref=0, budget=900),
                extreme('nested', L2, 'full', nests=one, loose=True, budget=1500)]
    return out
