"""Repeatability: results do not depend on what was evaluated before, and the
caller's data structures are left as they were."""
import copy

from symex.world import Harness

from .common import *
from .C17 import fake_results, mixed_inputs, objective
from .C19 import NEW, NEWSH, NEWM, blocks, concrete
from .C23 import LB, mnl_of

FUNCTIONS = ['the estimation objects of all seven models (objective, '
             'gradient, Hessian, BHHH, probabilities)',
             'fit_mle of all seven models', 'estimation.estimate',
             'base_multinomial_cm_v2.MNDC_Model.store_fit_results, predict',
             'pylogit.create_choice_model', 'choice_tools.convert_wide_to_long'
             ', convert_long_to_wide',
             'bootstrap.Boot.generate_*_replicates, calc_*_interval']
BOUNDS = ('1-2 observations of 2-3 alternatives; sequences of two or three '
          'evaluations / fits / predictions at arbitrary points; covariates, '
          'parameters, weights and ridge arbitrary reals')
ASSUMPTIONS = ['clog-log: V <= 3, scobit: |V| <= 10',
               'the intercept column that create_choice_model adds to the '
               'data frame is documented and allowed']


# ---------------------------------------------------------------------------
def leaves(v, path=''):
    """flat list of (path, scalar) of a nested structure"""
    if isinstance(v, pd.DataFrame):
        out = [(path + '.columns', tuple(v.columns)),
               (path + '.index', tuple(v.index))]
        for c in v.columns:
            out += leaves(v[c].values, '%s[%s]' % (path, c))
        return out
    if isinstance(v, pd.Series):
        return [(path + '.index', tuple(v.index))] + leaves(v.values, path)
    if hasattr(v, 'toarray'):
        return leaves(v.toarray(), path)
    if isinstance(v, np.ndarray):
        return [(path + '#', v.shape)] + [
            ('%s%s' % (path, list(i)), v[i]) for i in np.ndindex(v.shape)]
    if isinstance(v, dict):
        out = [(path + '.keys', tuple(v))]
        for k in v:
            out += leaves(v[k], '%s[%r]' % (path, k))
        return out
    if isinstance(v, (list, tuple)):
        out = [(path + '#', len(v))]
        for i, x in enumerate(v):
            out += leaves(x, '%s[%d]' % (path, i))
        return out
    return [(path, v)]


def compare(a, b):
    """differences of two structures, one per leaf: all 0 if equal"""
    a, b = leaves(a), leaves(b)
    if [p for p, v in a] != [p for p, v in b]:
        return [1]
    num = (float, int, np.floating, np.integer)
    out = []
    for (p, x), (q, y) in zip(a, b):
        if x is y:
            out.append(0)
        elif isinstance(x, T.Node) or isinstance(y, T.Node):
            out.append(T.lift(x) - T.lift(y))
        elif isinstance(x, num) and isinstance(y, num):
            if x == y or x != x and y != y:
                out.append(0)
            else:
                out.append((float(x) - float(y)) / max(1., abs(float(y))))
        else:
            out.append(0 if x == y else 1)
    return out


def snap(v):
    """a copy that shares no mutable state"""
    if isinstance(v, pd.DataFrame) or isinstance(v, pd.Series):
        return v.copy(deep=True)
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, OrderedDict):
        return OrderedDict((k, snap(x)) for k, x in v.items())
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    if isinstance(v, list):
        return [snap(x) for x in v]
    if isinstance(v, tuple):
        return tuple(snap(x) for x in v)
    if hasattr(v, 'toarray'):
        return v.toarray().copy()
    return v


def zero(out, keys):
    """expected: every listed comparison is all zeros"""
    return dict((k, [0] * len(out[k])) if out is not None and k in out
                else (k, Skip()) for k in keys)


# ---------------------------------------------------------------------------
# evaluation history of one estimation object
# ---------------------------------------------------------------------------
def evaluate(est, th, parts):
    f = dict(ll=lambda: est.convenience_calc_log_likelihood(th),
             grad=lambda: est.convenience_calc_gradient(th),
             hess=lambda: est.convenience_calc_hessian(th),
             fisher=lambda: est.convenience_calc_fisher_approx(th),
             probs=lambda: est.convenience_calc_probs(th),
             both=lambda: est.calc_neg_log_likelihood_and_neg_gradient(th))
    r = dict((k, f[k]()) for k in parts)
    return OrderedDict((k, r[k]) for k in sorted(r))


def history_case(m, tag, parts=('ll', 'grad', 'hess', 'fisher', 'probs',
                                'both'), ridge=False, weights=False,
                 constrained=None, **kw):
    L, n = m.layout, m.nparam()

    def inputs(W):
        I = dict(cols=L.data(W), a=[W.real('a%d' % i) for i in range(n)],
                 b=[W.real('b%d' % i) for i in range(n)],
                 ridge=W.real('ridge', sign='0+') if ridge else None, w=None)
        if weights and m.kind == 'mixed':
            by = {u: W.real('w%s' % u, sign='0+') for u in m.mixers}
            I['w'] = [by[L.mix[o]] for o, a in L.rows]
        elif weights:
            I['w'] = weights_by_obs(W, L)
        if m.kind == 'mixed':
            I['z'] = m.draws(W)
        if m.kind in ('clog', 'scobit'):
            X = m.columns(I['cols'])
            for k in 'ab':
                region(W, m, [lin(X, m.split(I[k])[2], i)
                              for i in range(len(L.rows))])
        return I

    def make(W, I):
        mod = m.build(W, I['cols'])
        if m.kind == 'mixed':
            mod.design_3d = W.mod('mixed_logit_calcs')\
                .create_expanded_design_for_mixing(
                    mod.design, [W.mat(q) for q in I['z']], mod.mixing_pos,
                    mod.get_mappings_for_fit()['rows_to_mixers'])
        w = None if I['w'] is None else W.arr(I['w'])
        c = None if constrained is None else list(constrained)
        return mod, estimator(W, mod, W.arr(I['a']), I['ridge'], w, c), w, c

    def run(W, I):
        mod, est, w, c = make(W, I)
        ta, tb = W.arr(I['a']), W.arr(I['b'])
        kept = snap([ta, tb, w, c, mod.data, mod.design,
                     est.design, est.choice_vector])
        first = evaluate(est, ta, parts)
        s1 = snap(first)
        second = evaluate(est, tb, parts[::-1])
        s2 = snap(second)
        again = evaluate(est, ta, parts)
        out = dict(held=compare(first, s1), held2=compare(second, s2),
                   again=compare(again, s1),
                   inputs=compare([ta, tb, w, c, mod.data, mod.design,
                                   est.design, est.choice_vector], kept))
        _, fresh, _, _ = make(W, I)
        # the caller reuses one array
        buf = ta.copy()
        evaluate(est, buf, parts)
        buf[:] = tb
        out['reused'] = compare(evaluate(est, buf, parts), s2)
        out['fresh'] = compare(s2, evaluate(fresh, W.arr(I['b']), parts))
        return out

    def expect(W, I, out):
        return zero(out, ('held', 'held2', 'again', 'inputs', 'fresh', 'reused'))
    kw.setdefault('bounds', '%d rows, %d parameters' % (len(L.rows), n))
    return Case('history-%s-%s' % (m.kind, tag), inputs, run, expect, **kw)


# ---------------------------------------------------------------------------
# two fits of one model object
# ---------------------------------------------------------------------------
def refit_case(m, tag, options=(), constrained=None, **kw):
    """a fit with weights, a ridge penalty and fixed parameters, then one
    without: the second is the plain problem, and the caller's arguments of
    both are as they were"""
    L, n = m.layout, m.nparam()

    def inputs(W):
        off = 0
        I = dict(cols=L.data(W), x=[W.real('x1_%d' % i) for i in range(n)],
                 first=[W.real('x0_%d' % i) for i in range(n)],
                 init=[W.real('i%d' % i) for i in range(n)],
                 jnit=[W.real('j%d' % i) for i in range(n)],
                 ridge=None, w=None, rg=W.real('ridge', sign='0+'))
        if m.kind == 'mixed':
            by = {u: W.real('w%s' % u, sign='0+') for u in m.mixers}
            I['ww'] = [by[L.mix[o]] for o, a in L.rows]
            M, D = len(m.mixers), m.D
            off = len(m.pos) * M * D
            I['z'] = [[[W.real('z%d' % (off + v * M * D + u * D + d))
                        for d in range(D)] for u in range(M)]
                      for v in range(len(m.pos))]
        else:
            I['ww'] = weights_by_obs(W, L)
        if m.kind in ('clog', 'scobit'):
            X = m.columns(I['cols'])
            for k in ('x', 'first'):
                region(W, m, [lin(X, m.split(I[k])[2], i)
                              for i in range(len(L.rows))])
        return I

    def run(W, I):
        mod = m.build(W, I['cols'])
        i1, i2, w = W.arr(I['init']), W.arr(I['jnit']), W.arr(I['ww'])
        c = list(constrained or [0])
        kept = snap([i1, i2, w, c, mod.data, mod.specification,
                     mod.name_spec, mod.nest_spec])
        a = dict(print_res=False, just_point=True)
        if m.kind == 'mixed':
            a.update(num_draws=m.D, seed=3)
        mod.fit_mle(i1, weights=w, ridge=I['rg'], constrained_pos=c,
                    method='L-BFGS-B', maxiter=3, **a)
        r = mod.fit_mle(i2, **a)
        q = W.minimize_calls
        out = dict(calls=len(q), inputs=compare(
            [i1, i2, w, c, mod.data, mod.specification, mod.name_spec,
             mod.nest_spec], kept))
        if len(q) == 2:
            out.update(x0=q[1].x0, value=q[1].value, gradient=q[1].g,
                       x=r['x'], method=q[1].method)
        return out

    def expect(W, I, out):
        ll = objective(m, I, I['x'])
        fixed = set()
        if m.nest_spec:
            fixed |= set(i for i, v in enumerate(m.nest_spec.values())
                         if len(v) == 1)
        g = [T.ZERO if i in fixed else -T.diff(ll, I['x'][i])
             for i in range(n)]
        e = zero(out, ('inputs',))
        e.update(calls=2, x0=obj(I['jnit']), value=-ll, gradient=obj(g),
                 x=obj(I['x']), method='BFGS')
        return e
    kw.setdefault('bounds', '%d rows, %d parameters' % (len(L.rows), n))
    return Case('refit-%s-%s' % (m.kind, tag), inputs, run, expect, **kw)


def restore_case(m, tag, **kw):
    """storing a second set of results leaves nothing of the first"""
    n = m.nparam()
    ATTR = ('params', 'coefs', 'intercepts', 'shapes', 'nests', 'cov',
            'robust_cov', 'standard_errors', 'summary', 'hessian', 'gradient',
            'fisher_information', 'llf', 'aic', 'bic', 'constrained_pos',
            'fit_summary')

    def inputs(W):
        return dict(a=[W.real('a%d' % i) for i in range(n)],
                    b=[W.real('b%d' % i) for i in range(n)])

    def run(W, I):
        mod, mod2 = [m.build(W, concrete(m.layout, W)) for _ in (0, 1)]
        if m.kind == 'mixed':
            for q in (mod, mod2):
                q.design_3d = np.zeros((len(m.layout.rows), m.D, n))
        r = fake_results(W, m, mod, dict(x=I['a']))
        r['constrained_pos'] = [n - 1]
        r['final_log_likelihood'] = -3.0
        r['final_hessian'] = -2.0 * np.eye(n)
        mod.store_fit_results(r)
        s = fake_results(W, m, mod2, dict(x=I['b']))
        kept = snap({k: v for k, v in s.items() if k != 'constrained_pos'})
        mod.store_fit_results(s)
        mod2.store_fit_results(fake_results(W, m, mod2, dict(x=I['b'])))
        out = {}
        for k in ATTR:
            out[k] = compare(getattr(mod, k, 'no'), getattr(mod2, k, 'no'))
        return out

    def expect(W, I, out):
        return zero(out, ATTR)
    return Case('restore-%s-%s' % (m.kind, tag), inputs, run, expect, **kw)


# ---------------------------------------------------------------------------
# predictions
# ---------------------------------------------------------------------------
STATE = ('params', 'coefs', 'intercepts', 'shapes', 'nests', 'cov', 'summary',
         'design', 'choices', 'alt_IDs', 'data', 'specification', 'name_spec',
         'ind_var_names', 'nest_spec', 'mixing_pos', 'design_3d')


def predict_case(m, layout, tag, param=False, **kw):
    L, n = layout, m.nparam()

    def inputs(W):
        I = dict(cols=L.data(W, 'n'), x=[W.real('p%d' % i)
                                         for i in range(n)])
        if m.kind in ('clog', 'scobit'):
            q = Model(m.kind, L, m.spec, m.names, m.iref, m.sref or 0)
            X = q.columns(I['cols'])
            region(W, m, [lin(X, m.split(I['x'])[2], i)
                          for i in range(len(L.rows))])
        return I

    def run(W, I):
        mod = m.build(W, concrete(m.layout, W))
        if m.kind == 'mixed':
            mod.design_3d = np.zeros((len(m.layout.rows), m.D, n))
        start = [W.num(7 + i) for i in range(n)] if param else I['x']
        mod.store_fit_results(fake_results(W, m, mod, dict(x=start)))
        a = {}
        pl = None
        if param:
            pl = a['param_list'] = blocks(m, W, I['x'])
        if m.kind == 'mixed':
            a.update(num_draws=m.D, seed=11)
        df = W.df(I['cols'])
        st = lambda: [getattr(mod, k, None) for k in STATE]
        kept = snap([df, pl, st()])
        r1 = mod.predict(df, **a)
        s1 = snap(r1)
        out = dict(inputs=compare([df, pl, st()], kept))
        if m.kind != 'mixed':          # (draws differ between calls)
            r2 = mod.predict(df, **a)
            out['again'] = compare(r2, s1)
        out['held'] = compare(r1, s1)
        return out

    def expect(W, I, out):
        return zero(out, ('inputs', 'held') + (
            () if m.kind == 'mixed' else ('again',)))
    return Case('predict-%s-%s' % (m.kind, tag), inputs, run, expect, **kw)


# ---------------------------------------------------------------------------
# construction and conversions
# ---------------------------------------------------------------------------
def create_case(m, tag, intercept=False, **kw):
    L = m.layout

    def inputs(W):
        return dict(cols=L.data(W))

    def run(W, I):
        df = W.df(I['cols'])
        spec = OrderedDict((k, snap(v)) for k, v in m.spec.items())
        names = OrderedDict((k, snap(v)) for k, v in m.names.items())
        k = m.kwargs()
        kept = snap([df, spec, names, k])
        W.pl.create_choice_model(df, 'alt', 'obs', 'choice', spec,
                                 MODEL[m.kind], names=names, **k)
        now = df
        if intercept and 'intercept' in df.columns:
            now = df[[c for c in df.columns if c != 'intercept']]
        return dict(inputs=compare([now, spec, names, k], kept))

    def expect(W, I, out):
        return zero(out, ('inputs',))
    return Case('create-%s-%s' % (m.kind, tag), inputs, run, expect, **kw)


def w2l_case(tag='wide-to-long'):
    def inputs(W):
        return dict(v=[W.reals(c, 3) for c in 'abcd'])

    def run(W, I):
        a, b, c, d = I['v']
        df = W.df(OrderedDict([('id', [5, 2, 9]), ('y', [3, 1, 3]),
                               ('inc', a), ('t1', b), ('t3', c), ('c3', d),
                               ('av1', [1, 1, 0]), ('av3', [1, 0, 1])]))
        args = [df, ['inc'], OrderedDict([('time', OrderedDict(
            [(1, 't1'), (3, 't3')])), ('cost', OrderedDict([(3, 'c3')]))]),
            OrderedDict([(3, 'av3'), (1, 'av1')]), 'id', 'y']
        kept = snap(args)
        W.mod('choice_tools').convert_wide_to_long(
            *args, new_alt_id_name='alt')
        return dict(inputs=compare(args, kept))

    def expect(W, I, out):
        return zero(out, ('inputs',))
    return Case('convert-' + tag, inputs, run, expect)


def l2w_case(tag='long-to-wide'):
    def inputs(W):
        return dict(v=[W.reals(c, 5) for c in 'ab'], i=W.reals('i', 2))

    def run(W, I):
        a, b = I['v']
        i = I['i']
        df = W.df(OrderedDict([('obs', [3, 3, 3, 10, 10]),
                               ('alt', [11, 2, 5, 5, 2]), ('x', a), ('z', b),
                               ('inc', [i[0]] * 3 + [i[1]] * 2),
                               ('choice', [0, 1, 0, 1, 0])]))
        args = [df, ['inc'], ['x', 'z'], {}, 'obs', 'alt', 'choice',
                OrderedDict([(11, 'nine'), (2, 'two'), (5, 'five')]), None]
        kept = snap(args)
        W.mod('choice_tools').convert_long_to_wide(*args)
        return dict(inputs=compare(args, kept))

    def expect(W, I, out):
        return zero(out, ('inputs',))
    return Case('convert-' + tag, inputs, run, expect)


# ---------------------------------------------------------------------------
# bootstrap
# ---------------------------------------------------------------------------
def boot_case(m, tag, jack=False, **kw):
    n = m.nparam()
    mm = mnl_of(m)

    def inputs(W):
        return dict(cols=m.layout.data(W), mle=W.reals('m', n),
                    minit=W.reals('i', mm.nparam()),
                    w=weights_by_obs(W, m.layout))

    def run(W, I):
        W.split_picks = True
        mod = m.build(W, I['cols'])
        a = dict(mnl_init_vals=W.arr(I['minit']),
                 mnl_fit_kwargs=dict(maxiter=7), constrained_pos=[0])
        if m.kind != 'mnl':
            a['mnl_obj'] = mm.build(W, OrderedDict(I['cols']))
        if not jack:
            a['weights'] = W.arr(I['w'])
        v = W.arr(I['mle'])
        b = W.mod('bootstrap').Boot(mod, v)
        st = lambda: [v, {k: x for k, x in a.items() if k != 'mnl_obj'},
                      mod.data, mod.design, mod.specification,
                      mod.name_spec, mod.nest_spec, b.mle_params]
        kept = snap(st())
        if jack:
            b.generate_jackknife_replicates(**a)
        else:
            b.generate_bootstrap_replicates(1, boot_seed=4, **a)
        return dict(inputs=compare(st(), kept))

    def expect(W, I, out):
        return zero(out, ('inputs',))
    return Case('%s-%s-%s' % ('jackknife' if jack else 'bootstrap', m.kind,
                              tag), inputs, run, expect, **kw)


def interval_case(tag):
    def inputs(W):
        r = [[W.real('r%d%d' % (i, p)) for p in range(2)] for i in range(3)]
        j = [[2.0, 5.0], [3.5, 5.0], [7.0, 1.0]]
        W.assume(r[0][0] < r[1][0])
        W.assume(r[1][0] < r[2][0])
        W.assume(r[0][1] > r[1][1])
        W.assume(r[1][1] > r[2][1])
        return dict(r=r, j=j)

    def run(W, I):
        r, j = W.mat(I['r']), W.mat(I['j'])
        mle = W.arr([(I['r'][0][p] + I['r'][1][p]) / 2 for p in range(2)])
        kept = snap([r, j, mle])
        bc = W.mod('bootstrap_calcs')
        bc.calc_percentile_interval(r, 80)
        if tag == 'bca':
            bc.calc_bca_interval(r, j, mle, 80)
        return dict(inputs=compare([r, j, mle], kept))

    def expect(W, I, out):
        return zero(out, ('inputs',))
    return Case('interval-' + tag, inputs, run, expect)


def cases(tier):
    H, R, P, C, B = (history_case, refit_case, predict_case, create_case,
                     boot_case)
    NOH = ('ll', 'grad', 'fisher', 'probs', 'both')
    out = [H(Model('mnl', LX), 'plain'),
           H(Model('mnl', LX2, *SPEC2), 'spec', ridge=True, weights=True,
             constrained=[2, 0])]
    for k in ('clog', 'scobit', 'uneven', 'asym'):
        out += [H(Model(k, LS if k in ('asym', 'scobit') else LX,
                        intercept_ref=1, shape_ref=0), 'intercepts'),
                H(Model(k, LS, shape_ref=1), 'options', ridge=True,
                  weights=True, constrained=[0])]
    out += [H(Model('nested', LN, nest_spec=NB), 'plain'),
            H(Model('nested', LN4, nest_spec=NB4), 'options', weights=True,
              ridge=True, constrained=[1]),
            H(Mixed(LM1, ['B_x'], 2), 'plain', NOH),
            H(Mixed(LMP, ['B_x'], 2), 'panel', NOH, weights=True, ridge=True,
              constrained=[1])]
    for k in ('mnl', 'clog', 'scobit', 'uneven'):
        out += [R(Model(k, LX, shape_ref=1), 'plain')]
    out += [R(Model('clog', LX, intercept_ref=1), 'intercepts'),
            R(Model('asym', LS, shape_ref=0, intercept_ref=0), 'intercepts'),
            R(Model('nested', LN, nest_spec=NB), 'degenerate',
              constrained=[2]),
            R(Model('nested', LN4S, nest_spec=NB4), 'two'),
            R(Mixed(LM1, ['B_x'], 2), 'plain')]
    out += [restore_case(Model('mnl', LX2, *SPEC2), 'spec'),
            restore_case(Model('uneven', LX, intercept_ref=1), 'intercepts'),
            restore_case(Model('asym', LX, shape_ref=1), 'plain'),
            restore_case(Model('nested', LN, nest_spec=NB), 'plain'),
            restore_case(Mixed(LMZ, ['b_z7', 'b_x'], 2, *SPECM), 'spec')]
    for k in ('mnl', 'clog', 'scobit', 'uneven'):
        out += [P(Model(k, LX, intercept_ref=None if k == 'mnl' else 1), NEW,
                  'fit'),
                P(Model(k, LX, intercept_ref=None if k == 'mnl' else 1), NEW,
                  'list', True)]
    out += [P(Model('asym', LS2, shape_ref=1), NEWSH, 'list', True),
            P(Model('nested', LN, nest_spec=NB), NEW, 'fit'),
            P(Model('nested', LN, nest_spec=NB), NEW, 'list', True),
            P(Mixed(LM, ['B_x'], 2), NEWM, 'fit'),
            P(Mixed(LM, ['B_x'], 2), NEWM, 'list', True)]
    ic = (OrderedDict([('intercept', [2, 5]), ('x', [[2, 11], 5])]),
          OrderedDict([('intercept', ['a2', 'a5']), ('x', ['b29', 'b5'])]))
    out += [C(Model('mnl', LX, *ic), 'intercept', True),
            C(Model('mnl', LX2, *SPEC2), 'spec'),
            C(Model('asym', LX, intercept_ref=1, shape_ref=0), 'all'),
            C(Model('scobit', LX, intercept_ref=2), 'all'),
            C(Model('nested', LN2, SPEC2[0], SPEC2[1], nest_spec=NB), 'spec'),
            C(Mixed(LMZ, ['b_z7', 'b_x'], 2, *SPECM), 'spec'),
            w2l_case(), l2w_case()]
    out += [B(Model('mnl', LB), 'plain'), B(Model('mnl', LB), 'plain', True),
            B(Model('uneven', LB, intercept_ref=0), 'intercepts'),
            B(Model('nested', LB, nest_spec=OrderedDict(
                [('A', [12]), ('B', [3])])), 'plain', True),
            interval_case('percentile'), interval_case('bca')]
    return out
