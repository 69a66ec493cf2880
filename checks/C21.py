"""Percentile and BCa bootstrap intervals."""
import types
from fractions import Fraction

from .common import *

FUNCTIONS = ['bootstrap_calcs: calc_percentile_interval, '
             'calc_bias_correction_bca, calc_acceleration_bca, '
             'calc_lower_bca_percentile, calc_upper_bca_percentile, '
             'calc_bca_interval',
             'bootstrap_utils: check_conf_percentage_validity, '
             'ensure_samples_is_ndim_ndarray, get_alpha_from_conf_percentage, '
             'combine_conf_endpoints',
             'bootstrap.Boot: calc_percentile_interval, calc_bca_interval, '
             'calc_conf_intervals']
BOUNDS = ('3-5 bootstrap replicates, 3-4 jackknife replicates of 1-2 '
          'parameters, all values arbitrary reals; confidence level '
          'arbitrary in (0, 100)')
ASSUMPTIONS = ['the confidence level is not within 0.001 replicate ranks of a '
               'level where the order statistic changes (there the float '
               'rank decides)',
               'BCa: some but not all replicates lie below the estimate '
               '(otherwise the bias correction is infinite) and BCa '
               'percentiles lie in [0, 100]; the first two jackknife '
               'replicates differ (all equal: separate case)',
               'the normal distribution functions are uninterpreted apart '
               'from symmetry']


def srt(vals):
    out = []
    for v in vals:
        k = 0
        while k < len(out) and bool(out[k] < v):
            k += 1
        out.insert(k, v)
    return out


def order_stat(col, pos, higher):
    """smallest order statistic of rank >= pos / largest of rank <= pos"""
    s = srt(col)
    k = 0
    while not bool(pos <= k):
        k += 1
    if higher or bool(pos == k):
        return s[k]
    return s[k - 1]


def away(W, pos, n, eps=1e-3):
    for k in range(n):
        if W.symbolic:
            W.assume(T.or_(T.cmp_('<', pos, T.const(k) - eps),
                           T.cmp_('<', T.const(k) + eps, pos)))
        else:
            W.assume(pos < k - eps or pos > k + eps)


def reps(W, name, B, P):
    return [W.reals('%s%d_' % (name, b), P) for b in range(B)]


def column(M, j):
    return [r[j] for r in M]


NAMES = ['shape', 'b_x']


def boot(W, P, mle=None):
    m = types.SimpleNamespace(ind_var_names=NAMES[-P:][-1:],
                              intercept_names=None,
                              shape_names=NAMES[:1] if P == 2 else None,
                              nest_names=None)
    return W.mod('bootstrap').Boot(m, W.arr(mle if mle is not None
                                            else [0.0] * P))


def pi_expected(I, B, P):
    half = (100 - I['conf']) / 2
    lo = [order_stat(column(I['r'], j), half * (B - 1) / 100, False)
          for j in range(P)]
    hi = [order_stat(column(I['r'], j), (100 - half) * (B - 1) / 100, True)
          for j in range(P)]
    return lo, hi


def pi_case(B, P, conf, tag, through=None, **kw):
    def inputs(W):
        I = dict(r=reps(W, 'r', B, P), conf=conf)
        if conf is None:
            I['conf'] = W.real('conf', box=(5, 95))
            if W.symbolic:
                W.assume(T.cmp_('<', T.ZERO, I['conf']))
                W.assume(T.cmp_('<', I['conf'], T.const(100)))
            half = (100 - I['conf']) / 2
            away(W, half * (B - 1) / 100, B)
            away(W, (100 - half) * (B - 1) / 100, B)
        return I

    def run(W, I):
        if through is None:
            return dict(ci=W.mod('bootstrap_calcs').calc_percentile_interval(
                W.mat(I['r']), I['conf']))
        b = boot(W, P)
        b.bootstrap_replicates = pd.DataFrame(W.mat(I['r']),
                                              columns=b.mle_params.index)
        if through == 'boot':
            r = b.calc_percentile_interval(I['conf'])
        else:
            r = b.calc_conf_intervals(I['conf'], interval_type='pi')
        return dict(ci=b.percentile_interval)

    def expect(W, I, out):
        lo, hi = pi_expected(I, B, P)
        if through is None:
            return dict(ci=obj([lo, hi]))
        a = 100 - I['conf']
        return dict(ci=pd.DataFrame(
            obj([[l, h] for l, h in zip(lo, hi)]), index=NAMES[-P:],
            columns=['{:.3g}%'.format(a / 2.), '{:.3g}%'.format(100 - a / 2.)]
            ))
    kw.setdefault('bounds', '%d replicates, %d parameters' % (B, P))
    return Case('percentile-' + tag, inputs, run, expect, points=1, **kw)


def invalid(tag, which):
    def inputs(W):
        c = W.real('conf', box=(100, 200) if which == 'high' else (-90, 0))
        if W.symbolic:
            W.assume(T.cmp_('<=', T.const(100), c) if which == 'high'
                     else T.cmp_('<=', c, T.ZERO))
        else:
            W.assume(c >= 100 if which == 'high' else c <= 0)
        return dict(conf=c, r=reps(W, 'r', 3, 2), j=reps(W, 'j', 3, 2),
                    m=W.reals('m', 2))

    def run(W, I):
        bc = W.mod('bootstrap_calcs')
        if tag == 'percentile':
            return bc.calc_percentile_interval(W.mat(I['r']), I['conf'])
        return bc.calc_bca_interval(W.mat(I['r']), W.mat(I['j']),
                                    W.arr(I['m']), I['conf'])
    return Case('invalid-%s-%s' % (tag, which), inputs, run,
                lambda W, I, out: {'!': Raises('ValueError')}, points=1)


def invalid_shape(tag, what):
    def run(W, I):
        bc = W.mod('bootstrap_calcs')
        r = W.arr(I['r']) if what == '1d' else [I['r']]
        if tag == 'percentile':
            return bc.calc_percentile_interval(r, 90)
        good = W.mat([I['r']] * 3)
        if tag == 'bca-boot':
            return bc.calc_bca_interval(r, good, W.arr(I['r']), 90)
        return bc.calc_bca_interval(good, r, W.arr(I['r']), 90)
    return Case('invalid-%s-%s' % (tag, what),
                lambda W: dict(r=W.reals('r', 2)), run,
                lambda W, I, out: {'!': Raises('ValueError')}, points=1)


# -- BCa --------------------------------------------------------------------
def accel(W, col):
    n = len(col)
    m = col[0]
    for v in col[1:]:
        m = m + v
    m = m / n
    d3 = d2 = 0
    for v in col:
        d = m - v
        d3 = d3 + d * d * d
        d2 = d2 + d * d
    if bool(d2 == 0):
        return 0
    return d3 / (6 * d2 * W.sqrt(d2))


def parts(W, I, P, B):
    z0, ac, lo, hi = [], [], [], []
    I = dict(I, j=[[T.lift(v) if W.symbolic else v for v in r]
                   for r in I['j']])
    a2 = (100 - I['conf']) / 200
    for j in range(P):
        c = sum(1 for v in column(I['r'], j) if bool(v < I['m'][j]))
        z = W.norm('ppf', T.const(Fraction(c, B)) if W.symbolic
                   else c / float(B))
        a = accel(W, column(I['j'], j))
        z0.append(z)
        ac.append(a)
        for q, dest in ((a2, lo), (1 - a2, hi)):
            t = z + W.norm('ppf', q)
            dest.append(100 * W.norm('cdf', z + t / (1 - a * t)))
    return z0, ac, lo, hi


def bca_inputs(W, B, J, P, conf, fixed=None, first=None):
    I = dict(r=reps(W, 'r', B, P), j=reps(W, 'j', J, P), m=W.reals('m', P),
             conf=conf)
    if fixed:
        I['j'] = fixed
    if first:
        # one parameter with given replicates, the others arbitrary
        k, col, m0 = first
        I['r'] = [[W.num(col[b]) if j == k else v
                   for j, v in enumerate(r)] for b, r in enumerate(I['r'])]
        I['m'] = [W.num(m0) if j == k else v for j, v in enumerate(I['m'])]
    if conf is None:
        I['conf'] = W.real('conf', box=(5, 95))
        if W.symbolic:
            W.assume(T.cmp_('<', T.ZERO, I['conf']))
            W.assume(T.cmp_('<', I['conf'], T.const(100)))
    for j in range(P):
        c = column(I['r'], j)
        a, b = I['j'][0][j], I['j'][1][j]
        if fixed is None:
            W.assume(T.not_(T.cmp_('==', a, b)) if W.symbolic else a != b)
        if W.symbolic:
            W.assume(T.or_(*[T.cmp_('<', v, I['m'][j]) for v in c]))
            W.assume(T.or_(*[T.cmp_('<=', I['m'][j], v) for v in c]))
        else:
            W.assume(any(v < I['m'][j] for v in c))
            W.assume(any(v >= I['m'][j] for v in c))
    return I


def parts_case(B, J, P, conf, tag, **kw):
    def run(W, I):
        bc = W.mod('bootstrap_calcs')
        z = bc.calc_bias_correction_bca(W.mat(I['r']), W.arr(I['m']))
        a = bc.calc_acceleration_bca(W.mat(I['j']))
        al = 100 - I['conf']
        return dict(z0=z, a=a, lo=bc.calc_lower_bca_percentile(al, z, a),
                    hi=bc.calc_upper_bca_percentile(al, z, a))

    def expect(W, I, out):
        z, a, lo, hi = parts(W, I, P, B)
        return dict(z0=obj(z), a=obj(a), lo=obj(lo), hi=obj(hi))
    kw.setdefault('bounds', '%d and %d replicates, %d parameters'
                  % (B, J, P))
    return Case('bca-parts-' + tag,
                lambda W: bca_inputs(W, B, J, P, conf), run, expect,
                points=1, **kw)


def equal_jack(P=2):
    """identical jackknife replicates: no acceleration"""
    def inputs(W):
        v = W.reals('v', P)
        return dict(j=[list(v) for _ in range(3)])

    def run(W, I):
        return dict(a=W.mod('bootstrap_calcs').calc_acceleration_bca(
            W.mat(I['j'])))
    return Case('bca-no-acceleration', inputs, run,
                lambda W, I, out: dict(a=obj([0] * P)), points=1)


def bca_case(B, J, P, conf, tag, through=None, fixed=None, first=None,
             **kw):
    def inputs(W):
        I = bca_inputs(W, B, J, P, conf, fixed, first)
        if not W.symbolic:
            z, a, lo, hi = parts(W, I, P, B)
            for v in lo + hi:
                away(W, v * (B - 1) / 100, B)
                W.assume(0 <= v <= 100)
        return I

    def run(W, I):
        if through is None:
            return dict(ci=W.mod('bootstrap_calcs').calc_bca_interval(
                W.mat(I['r']), W.mat(I['j']), W.arr(I['m']), I['conf']))
        b = boot(W, P, I['m'])
        b.bootstrap_replicates = pd.DataFrame(W.mat(I['r']),
                                              columns=b.mle_params.index)
        b.jackknife_replicates = pd.DataFrame(W.mat(I['j']),
                                              columns=b.mle_params.index)
        if through == 'boot':
            b.calc_bca_interval(I['conf'])
        else:
            b.calc_conf_intervals(I['conf'], interval_type='bca')
        return dict(ci=b.bca_interval)

    def expect(W, I, out):
        z, a, lo, hi = parts(W, I, P, B)
        L, H = [], []
        for j in range(P):
            for v, dest, up in ((lo[j], L, False), (hi[j], H, True)):
                dest.append(order_stat(column(I['r'], j),
                                       v * (B - 1) / 100, up))
        if through is None:
            return dict(ci=obj([L, H]))
        al = 100 - I['conf']
        return dict(ci=pd.DataFrame(
            obj([[l, h] for l, h in zip(L, H)]), index=NAMES[-P:],
            columns=['{:.3g}%'.format(al / 2.),
                     '{:.3g}%'.format(100 - al / 2.)]))
    kw.setdefault('bounds', '%d and %d replicates, %d parameters'
                  % (B, J, P))
    return Case('bca-' + tag, inputs, run, expect, points=1, **kw)


J1 = [[.5], [1.25], [3.]]
J2 = [[.5, -1.], [1.25, 2.5], [3., 2.]]


def cases(tier):
    out = [pi_case(3, 2, 90, 'three'), pi_case(4, 1, 80, 'four'),
           pi_case(5, 1, 50, 'exact-rank'), pi_case(3, 1, None, 'any-level'),
           pi_case(4, 1, None, 'any-level-four'),
           pi_case(3, 2, 95, 'boot', 'boot'),
           pi_case(3, 2, 60, 'dispatch', 'dispatch'),
           parts_case(3, 3, 1, None, 'one'),
           parts_case(3, 3, 2, 90, 'two'),
           parts_case(4, 4, 1, 80, 'four'), equal_jack(),
           bca_case(3, 3, 1, 90, 'one', fixed=J1),
           bca_case(4, 3, 1, 80, 'four', fixed=J1),
           bca_case(3, 2, 1, 80, 'symmetric'),
           bca_case(3, 3, 2, 95, 'boot', 'boot', J2),
           bca_case(3, 3, 1, 70, 'dispatch', 'dispatch', J1),
           bca_case(4, 3, 2, 40, 'own-percents', None, J2,
                    (0, [4., 1., 3., 2.], 1.5)),
           bca_case(4, 3, 2, 40, 'own-percents-last', None, J2,
                    (1, [4., 1., 3., 2.], 3.5))]
    from .C22 import R2, all_case
    out.append(all_case(R2, 80, .125))
    for t in ('percentile', 'bca'):
        for w in ('low', 'high'):
            out.append(invalid(t, w))
    for t in ('percentile', 'bca-boot', 'bca-jack'):
        for w in ('1d', 'list'):
            out.append(invalid_shape(t, w))
    return out
