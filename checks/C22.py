"""Approximate bootstrap confidence (ABC) intervals."""
import types

from symex.world import Harness

from .common import *

FUNCTIONS = ['bootstrap_abc: create_long_form_weights, '
             'calc_finite_diff_terms_for_abc, calc_empirical_influence_abc, '
             'calc_2nd_order_influence_abc, calc_std_error_abc, '
             'calc_acceleration_abc, calc_bias_abc, '
             'efron_quadratic_coef_abc, calc_total_curvature_abc, '
             'calc_bias_correction_abc, '
             'efron_endpoints_for_abc_confidence_interval, calc_abc_interval',
             'bootstrap.Boot.calc_abc_interval, calc_conf_intervals']
BOUNDS = ('2-4 observations in 4-7 rows, 1-2 parameters; the estimator is an '
          'arbitrary (uninterpreted) function of the row weights; epsilon '
          'and the confidence level concrete, point estimates and the '
          'user\'s observation weights arbitrary')
ASSUMPTIONS = ['differences of estimates that are not identically zero exceed '
               'the code\'s 1e-12 / 1e-10 tolerances, below which it counts '
               'them as zero (checked for differences down to 1e-7)']


def _impl(p):
    def f(*w):
        s = t = 0.0
        for r, v in enumerate(w):
            s += v * ((3 * r * r + 5 * p * r + 2 * p + 1) % 7 - 2.5)
            t += v * ((2 * r + 3 + p) % 5)
        return s + 0.5 * s * s + 0.25 * t * s + 0.125 * p * t ** 3
    return f


for _p in range(2):
    T.UF_IMPL['abc%d' % _p] = _impl(_p)
LIN = [0.5, -1.0, 2.0, 0.25, 1.5, -0.75, 3.0]


class Fake(object):
    """A model whose estimates are arbitrary functions of the weights."""
    obs_id_col = 'obs'

    def __init__(self, W, rows, P, linear=()):
        self.W, self.rows, self.P, self.linear = W, rows, P, linear
        obs = []
        for o in rows:
            if o not in obs:
                obs.append(o)
        self.obs = obs
        self.data = pd.DataFrame({'obs': rows,
                                  'x': [1.0] * len(rows)})
        self.calls = []
        self.ind_var_names = ['b%d' % i for i in range(P)]
        self.intercept_names = self.shape_names = self.nest_names = None

    def get_mappings_for_fit(self, dense=False):
        d = np.array([[1 if r == o else 0 for o in self.obs]
                      for r in self.rows])
        return dict(rows_to_obs=self.W.csr(d), rows_to_alts=None,
                    chosen_row_to_obs=None, rows_to_nests=None,
                    rows_to_mixers=None)

    def value(self, p, w):
        if p in self.linear:
            s = 0
            for c, v in zip(LIN, w):
                s = s + c * v
            return s
        if self.W.symbolic:
            return T.uf('abc%d' % p, *w)
        return T.UF_IMPL['abc%d' % p](*w)

    def fit_mle(self, init_vals, weights=None, **kw):
        w = np.asarray(weights)
        if w.shape != (len(self.rows),):
            raise ValueError('weights of the wrong shape')
        self.calls.append((list(np.asarray(init_vals)), dict(kw)))
        return {'x': self.W.arr([self.value(p, list(w))
                                 for p in range(self.P)])}


def long(m, wide, w0):
    k = {o: i for i, o in enumerate(m.obs)}
    return [wide[k[o]] * (w0[r] if w0 else 1) for r, o in enumerate(m.rows)]


def oracle(W, m, I, conf, eps):
    """Efron's ABC interval for the statistic m.value"""
    n = len(m.obs)
    e = T.const(eps) if W.symbolic else eps
    one = T.ONE if W.symbolic else 1.0
    p0 = [one / n] * n
    w0 = I.get('w')

    def t(p, wide):
        return m.value(p, long(m, wide, w0))
    lo, hi, extra = [], [], {}
    T1s, T2s, SE, AC, ZQ = [], [], [], [], []
    for p in range(m.P):
        th = I['mle'][p]
        T1, T2 = [], []
        for i in range(n):
            a = t(p, [(1 - e) * q + (e if j == i else 0)
                      for j, q in enumerate(p0)])
            b = t(p, [(1 + e) * q - (e if j == i else 0)
                      for j, q in enumerate(p0)])
            T1.append((a - b) / (2 * e))
            T2.append((a - 2 * th + b) / (e * e))
        s2 = s3 = b2 = 0
        for v in T1:
            s2 = s2 + v * v
            s3 = s3 + v * v * v
        for v in T2:
            b2 = b2 + v
        se = W.sqrt(s2) / n
        acc = s3 / (6 * s2 * W.sqrt(s2))
        bias = b2 / (2 * n * n)
        d = [v / (n * n * se) for v in T1]
        cq = (t(p, [q + e * v for q, v in zip(p0, d)]) - 2 * th +
              t(p, [q - e * v for q, v in zip(p0, d)])) / (2 * se * e * e)
        gam = bias / se - cq
        z0 = W.norm('ppf', 2 * W.norm('cdf', acc) * W.norm('cdf', -gam))
        half = (100 - conf) / 200.
        for q, dest in ((half, lo), (1 - half, hi)):
            z = z0 + W.norm('ppf', T.const(q) if W.symbolic else q)
            lam = z / ((1 - acc * z) * (1 - acc * z))
            dest.append(t(p, [u + lam * v for u, v in zip(p0, d)]))
        T1s.append(T1), T2s.append(T2), SE.append(se), AC.append(acc)
        ZQ.append(cq)
    return dict(ci=obj([lo, hi]),
                t1=obj([[T1s[p][i] for p in range(m.P)] for i in range(n)]),
                t2=obj([[T2s[p][i] for p in range(m.P)] for i in range(n)]),
                se=obj(SE), acc=obj(AC), cq=obj(ZQ))


def abc_case(rows, P, conf, eps, tag, weights=False, linear=(),
             through=None, parts=False, **kw):
    L = []
    for o in rows:
        if o not in L:
            L.append(o)

    def inputs(W):
        I = dict(mle=W.reals('m', P), init=W.reals('i', P))
        if weights:
            by = {o: W.real('w%s' % o, box=(.5, 2), sign='+') for o in L}
            I['w'] = [by[o] for o in rows]
        W.generic_isclose()
        if not parts or linear:
            # the estimate is the statistic at the original weights
            m = Fake(W, rows, P, linear)
            one = T.ONE if W.symbolic else 1.0
            w = long(m, [one / len(L)] * len(L), I.get('w'))
            I['mle'] = [m.value(p, w) for p in range(P)]
        return I

    def run(W, I):
        abc = W.mod('bootstrap_abc')
        m = Fake(W, rows, P, linear)
        kw = dict(ridge=0.25, method='BFGS')
        if weights:
            kw['weights'] = W.arr(I['w'])
        keep = dict(kw)
        a = (m, W.arr(I['mle']), W.arr(I['init']))
        out = {}
        if parts:
            t1, t2 = abc.calc_influence_arrays_for_abc(*a + (eps,), **kw)
            se = abc.calc_std_error_abc(t1)
            out = dict(t1=t1, t2=t2, se=se,
                       acc=abc.calc_acceleration_abc(t1),
                       cq=abc.efron_quadratic_coef_abc(
                           *a + (t1, se, eps), **kw))
        elif through is None:
            out['ci'] = abc.calc_abc_interval(*a + (conf,), epsilon=eps,
                                              **kw)
        else:
            b = W.mod('bootstrap').Boot(m, W.arr(I['mle']))
            if through == 'boot':
                b.calc_abc_interval(conf, W.arr(I['init']), epsilon=eps,
                                    **kw)
            else:
                b.calc_conf_intervals(conf, interval_type='abc',
                                      init_vals=W.arr(I['init']),
                                      epsilon=eps, **kw)
            out['ci'] = b.abc_interval
        out['init'] = all(bool(u is v) or bool(u == v)
                          for c in m.calls for u, v in zip(c[0], I['init']))
        out['kw'] = all(c[1] == dict(ridge=0.25, method='BFGS',
                                     just_point=True) for c in m.calls)
        out['user_kw'] = sorted(kw) == sorted(keep)
        return out

    def expect(W, I, out):
        m = Fake(W, rows, P, linear)
        r = oracle(W, m, I, conf, eps)
        e = dict(init=True, kw=True, user_kw=True)
        if parts:
            for k in ('t1', 't2', 'se', 'acc', 'cq'):
                e[k] = r[k]
        elif through is None:
            e['ci'] = r['ci']
        else:
            al = 100 - conf
            e['ci'] = pd.DataFrame(
                r['ci'].T, index=m.ind_var_names,
                columns=['{:.3g}%'.format(al / 2.),
                         '{:.3g}%'.format(100 - al / 2.)])
        return e
    kw.setdefault('bounds', '%d rows, %d parameters' % (len(rows), P))
    return Case(tag, inputs, run, expect, points=1, **kw)


def long_weights(two, given):
    rows = [5, 5, 2, 9, 9, 9]
    obs = [5, 2, 9]

    def inputs(W):
        return dict(w=[W.reals('w%d_' % i, 2 if two else 1)
                       for i in range(3)])

    def run(W, I):
        abc = W.mod('bootstrap_abc')
        m = Fake(W, rows, 1)
        a = {}
        if given:
            a['rows_to_obs'] = m.get_mappings_for_fit()['rows_to_obs']
        w = W.mat(I['w']) if two else W.arr([r[0] for r in I['w']])
        return dict(w=abc.create_long_form_weights(m, w, **a))

    def expect(W, I, out):
        r = [I['w'][obs.index(o)] for o in rows]
        return dict(w=obj(r) if two else obj([x[0] for x in r]))
    return Case('long-weights-%s-%s' % ('2d' if two else '1d',
                                        'given' if given else 'built'),
                inputs, run, expect, points=1)


def apart(W, d, by):
    """|d| >= by"""
    if W.symbolic:
        by = T.const(by)
        W.assume(T.or_(T.cmp_('<=', by, T.lift(d)),
                       T.cmp_('<=', T.lift(d), -by)))
    else:
        W.assume(abs(d) >= by)


def small_first(eps):
    """Differences far above the code's tolerances are never dropped, whatever
    the size of the estimates."""
    def inputs(W):
        I = dict(p=W.reals('p', 2), m=W.reals('q', 2))
        for a, b in zip(I['p'], I['m']):
            apart(W, a - b, 2.0 ** -26)
        return I

    def run(W, I):
        return dict(t=W.mod('bootstrap_abc').calc_empirical_influence_abc(
            W.mat([I['p']]), W.mat([I['m']]), eps))

    def expect(W, I, out):
        e = T.const(eps) if W.symbolic else eps
        return dict(t=obj([[(a - b) / (2 * e)
                            for a, b in zip(I['p'], I['m'])]]))
    return Case('small-differences', inputs, run, expect, points=1,
                hints=[dict(p0=1.0, q0=1.0 + 2.0 ** -20),
                       dict(p0=2.0 ** -20, q0=0.0)])


def small_second(eps, kind):
    def inputs(W):
        I = dict(mle=[W.real('t')], d=W.real('d', box=(-1, 1)))
        apart(W, I['d'], 2.0 ** -23)
        if kind == 'influence':
            I['p'] = W.real('p')
        return I

    def lin(W, I):
        m = Fake(W, R2, 1, (0,))
        one = T.ONE if W.symbolic else 1.0
        return m, m.value(0, long(m, [one / 2] * 2, None))

    def run(W, I):
        abc = W.mod('bootstrap_abc')
        if kind == 'influence':
            t = I['mle'][0]
            return dict(t=abc.calc_2nd_order_influence_abc(
                W.arr([t]), W.mat([[I['p']]]),
                W.mat([[2 * t + I['d'] - I['p']]]), eps))
        m, v = lin(W, I)
        # a linear statistic: the second difference is -2 * shift
        return dict(t=abc.efron_quadratic_coef_abc(
            m, W.arr([v + I['d']]), W.arr([v]),
            W.mat([[0.5], [-0.5]]), W.arr([0.25]), eps))

    def expect(W, I, out):
        e = T.const(eps) if W.symbolic else eps
        if kind == 'influence':
            return dict(t=obj([[I['d'] / (e * e)]]))
        return dict(t=obj([-2 * I['d'] / (2 * .25 * e * e)]))
    return Case('small-curvature-%s' % kind, inputs, run, expect, points=1,
                hints=[dict(d=2.0 ** -20), dict(d=-2.0 ** -17)])


R2 = [5, 5, 2, 2]
R3 = [5, 5, 2, 9, 9]
R4 = [5, 5, 2, 9, 9, 7, 7]


def all_case(rows, conf, eps):
    """calc_conf_intervals('all'): the joint table holds the percentile, the
    BCa and the ABC interval of each parameter under its own heading."""
    P, OFF = 2, [[-1.5, -.75], [-.25, -.5], [.5, .25], [2., 3.]]
    JK = [[.5, -1.], [1.25, 2.5], [3., 2.]]

    def inputs(W):
        I = dict(init=W.reals('i', P))
        W.generic_isclose()
        m = Fake(W, rows, P)
        n = len(m.obs)
        one = T.ONE if W.symbolic else 1.0
        w = long(m, [one / n] * n, None)
        I['mle'] = [m.value(p, w) for p in range(P)]
        return I

    def table(W, I, kinds):
        m = Fake(W, rows, P)
        b = W.mod('bootstrap').Boot(m, W.arr(I['mle']))
        c = b.mle_params.index
        b.bootstrap_replicates = pd.DataFrame(
            W.mat([[v + W.num(d) for v, d in zip(I['mle'], r)]
                   for r in OFF]), columns=c)
        b.jackknife_replicates = pd.DataFrame(W.mat(JK), columns=c)
        for k in kinds:
            a = {}
            if k in ('abc', 'all'):
                a = dict(init_vals=W.arr(I['init']), epsilon=eps)
            b.calc_conf_intervals(conf, interval_type=k, **a)
        return b

    def run(W, I):
        b = table(W, I, ['all'])
        q = table(W, I, ['pi', 'bca', 'abc'])
        parts = np.concatenate([q.percentile_interval.values,
                                q.bca_interval.values,
                                q.abc_interval.values], axis=1)
        return dict(difference=np.asarray(b.all_intervals.values) - parts,
                    columns=[tuple(x) for x in b.all_intervals.columns],
                    index=list(b.all_intervals.index))

    def expect(W, I, out):
        al = 100 - conf
        ends = ['{:.3g}%'.format(al / 2.), '{:.3g}%'.format(100 - al / 2.)]
        return dict(difference=obj([[0] * 6] * P),
                    columns=[(k, e) for k in (
                        'percentile_interval', 'BCa_interval',
                        'ABC_interval') for e in ends],
                    index=['b%d' % i for i in range(P)])
    return Case('all-intervals', inputs, run, expect, points=1,
                bounds='%d rows, %d parameters' % (len(rows), P))


def cases(tier):
    A = abc_case
    return [long_weights(t, g) for t in (True, False)
            for g in (True, False)] + [
        small_first(.125), small_second(.125, 'influence'),
        small_second(.125, 'quadratic'),
        A(R2, 1, 90, .001, 'parts-two', parts=True),
        A(R3, 2, 90, .125, 'parts-three', parts=True),
        A(R3, 1, 90, .125, 'parts-weighted', weights=True, parts=True),
        A(R2, 1, 80, .125, 'interval-two'),
        A(R3, 2, 80, .125, 'interval-three'),
        A(R3, 1, 95, .125, 'interval-weighted', weights=True),
        A(R2, 2, 80, .125, 'linear-parameter', linear=(1,)),
        A(R2, 2, 95, .125, 'boot', through='boot'),
        A(R2, 1, 60, .25, 'dispatch', through='dispatch'),
        all_case(R2, 80, .125)]
