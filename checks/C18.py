"""Fit statistics stored by fit_mle."""
from symex.world import Harness

from .common import *
from .C17 import fake_results, flat_names, mixed_inputs, objective

FUNCTIONS = ['estimation.estimate',
             'estimation.calc_and_store_post_estimation_results',
             'estimation.calc_individual_chi_squares',
             'estimation.calc_rho_and_rho_bar_squared',
             'base_multinomial_cm_v2: compute_aic, compute_bic, '
             '_store_basic_estimation_results, '
             '_record_values_for_fit_summary_and_statsmodels, '
             '_create_fit_summary',
             'mixed_logit.add_mixl_specific_results_to_estimation_res']
BOUNDS = ('1-3 observations, 2-4 alternatives, 1-6 parameters; covariates, '
          'solution, starting values and stored statistics arbitrary reals')
ASSUMPTIONS = ['the optimiser is a stand-in returning an arbitrary point',
               'clog-log: V <= 3, scobit: |V| <= 10']


def probs_of(m, I, x):
    if m.kind == 'nested':
        return m.nested(I['cols'], x[:m.nnest], x[m.nnest:])['P']
    if m.kind == 'mixed':
        return m.kernel(I['cols'], x, I['z'])
    return m.probs(I['cols'], x)


def expected_stats(m, I):
    """log-likelihood, null, probabilities, residuals, chi2 from the model
    formulas at the solution."""
    L = m.layout
    x = I['x']
    y = I['cols']['choice']
    P = probs_of(m, I, x)
    ll = objective(m, I, x)
    null = objective(m, I, [T.ZERO] * len(x))
    rows = range(len(L.rows))
    two = m.kind == 'mixed'
    if two:
        res = [[y[i] - P[i][d] for d in range(m.D)] for i in rows]
        chi = [[sum((res[i][d] * res[i][d] / P[i][d]
                     for i in rows if L.rows[i][0] == o), T.ZERO)
                for d in range(m.D)] for o in L.obs]
    else:
        res = [y[i] - P[i] for i in rows]
        chi = [sum((res[i] * res[i] / P[i] for i in rows
                    if L.rows[i][0] == o), T.ZERO) for o in L.obs]
    ch = [P[i] for o in L.obs for i in rows
          if L.rows[i][0] == o and y[i]]
    return dict(ll=ll, null=null, long=P, chosen=ch, res=res, chi=chi,
                rho=1 - ll / null, rhobar=1 - (ll - len(x)) / null)


def estimate_case(m, tag, **kw):
    n = m.nparam()
    L = m.layout

    def inputs(W):
        I = dict(cols=L.data(W), x=[W.real('x0_%d' % i) for i in range(n)],
                 init=[W.real('i%d' % i) for i in range(n)], ridge=None,
                 w=None)
        X = m.columns(I['cols'])
        if m.kind == 'mixed':
            I['z'] = m.draws(W, 'zz')
        if m.kind in ('clog', 'scobit'):
            for q in ('x', 'init'):
                region(W, m, [lin(X, m.split(I[q])[2], i)
                              for i in range(len(L.rows))])
        return I

    def run(W, I):
        mod = m.build(W, I['cols'])
        if m.kind == 'mixed':
            mlc = W.mod('mixed_logit_calcs')
            mod.design_3d = mlc.create_expanded_design_for_mixing(
                mod.design, [W.mat(q) for q in I['z']], mod.mixing_pos,
                mod.get_mappings_for_fit()['rows_to_mixers'])
        est = estimator(W, mod, W.arr(I['init']))
        fn = getattr(W.mod('estimation'), 'estimate', None)
        if fn is None:
            raise Harness('estimation.estimate is gone')
        # curvature is decided by C14-C16; keep the path cheap
        for k in ('convenience_calc_hessian', 'convenience_calc_fisher_approx',
                  'convenience_calc_gradient'):
            if not hasattr(est, k):
                raise Harness('estimator has no ' + k)
        g = W.arr([0.5] * n)
        est.convenience_calc_gradient = lambda p: g.copy()
        est.convenience_calc_hessian = lambda p: -1 * np.eye(n)
        est.convenience_calc_fisher_approx = lambda p: np.eye(n)
        r = fn(W.arr(I['init']), est, 'BFGS', 1e-6, 1e-6, 10, False)
        if m.kind == 'mixed':
            ml = W.mod('mixed_logit')
            r = ml.add_mixl_specific_results_to_estimation_res(est, r)
        out = dict(ll=r['final_log_likelihood'],
                   null=r['log_likelihood_null'], long=r['long_probs'],
                   chosen=r['chosen_probs'], res=r['residuals'],
                   chi=r['ind_chi_squareds'], rho=r['rho_squared'],
                   rhobar=r['rho_bar_squared'], x=r['x'])
        if m.kind == 'mixed':
            out['seq'] = r['simulated_sequence_probs']
        return out

    def expect(W, I, out):
        e = expected_stats(m, I)
        e = {k: obj(v) if isinstance(v, list) else v for k, v in e.items()}
        e['x'] = obj(I['x'])
        if m.kind == 'mixed':
            S = m.sequence(I['cols'], m.kernel(I['cols'], I['x'], I['z']))
            e['seq'] = obj([sum(r[1:], r[0]) / m.D for r in S])
        return e
    kw.setdefault('bounds', '%d rows, %d parameters' % (len(L.rows), n))
    return Case('estimate-%s-%s' % (m.kind, tag), inputs, run, expect, **kw)


def store_case(m, tag, **kw):
    """Stored statistics are arbitrary; derived ones follow."""
    n = m.nparam()
    L = m.layout

    def inputs(W):
        nobs, nrow = len(L.obs), len(L.rows)
        return dict(x=[W.real('p%d' % i) for i in range(n)],
                    ll=W.real('ll', box=(-9, -1)),
                    null=W.real('null', box=(-20, -10)),
                    rho=W.real('rho'), bar=W.real('bar'),
                    long=W.reals('l', nrow), ch=W.reals('c', nobs),
                    res=W.reals('r', nrow), chi=W.reals('k', nobs))

    def run(W, I):
        cols = L.data(W)
        cols = {k: [float(3 * j + len(k)) / 8 for j in range(len(v))]
                if k in L.cols else v for k, v in cols.items()}
        mod = m.build(W, cols)
        if m.kind == 'mixed':
            mod.design_3d = np.zeros((len(L.rows), m.D, n))
        r = fake_results(W, m, mod, I)
        r.update(final_log_likelihood=I['ll'], log_likelihood_null=I['null'],
                 rho_squared=I['rho'], rho_bar_squared=I['bar'],
                 long_probs=W.arr(I['long']), chosen_probs=W.arr(I['ch']),
                 residuals=W.arr(I['res']), ind_chi_squareds=W.arr(I['chi']))
        mod.store_fit_results(r)
        return dict(log_likelihood=mod.log_likelihood, llf=mod.llf,
                    null=mod.null_log_likelihood, rho=mod.rho_squared,
                    bar=mod.rho_bar_squared, fitted=mod.fitted_probs,
                    long=mod.long_fitted_probs, res=mod.long_residuals,
                    ind=mod.ind_chi_squareds, chi=mod.chi_square,
                    nobs=mod.nobs, df=mod.df_model, dfr=mod.df_resid,
                    aic=mod.aic, bic=mod.bic,
                    ok=mod.estimation_success, msg=mod.estimation_message,
                    summary=mod.fit_summary)

    def expect(W, I, out):
        nobs = len(L.obs)
        chi = T.ZERO
        for v in I['chi']:
            chi = chi + v
        bic = -2 * I['ll'] + n * T.log(T.const(nobs))
        return dict(log_likelihood=I['ll'], llf=I['ll'], null=I['null'],
                    rho=I['rho'], bar=I['bar'], fitted=obj(I['ch']),
                    long=obj(I['long']), res=obj(I['res']),
                    ind=obj(I['chi']), chi=chi, nobs=nobs, df=n,
                    dfr=nobs - n, aic=2 * n - 2 * I['ll'], bic=bic, ok=True,
                    msg='ok', summary=pd.Series(
                        obj([n, nobs, I['null'], I['ll'], I['rho'], I['bar'],
                             'ok']),
                        index=['Number of Parameters',
                               'Number of Observations',
                               'Null Log-Likelihood',
                               'Fitted Log-Likelihood', 'Rho-Squared',
                               'Rho-Bar-Squared', 'Estimation Message']))
    kw.setdefault('bounds', '%d rows, %d parameters' % (len(L.rows), n))
    return Case('store-%s-%s' % (m.kind, tag), inputs, run, expect, **kw)


def whole_fit(m, tag, **kw):
    n = m.nparam()
    L = m.layout

    def inputs(W):
        return dict(cols=L.data(W), ridge=None, w=None,
                    x=[W.real('x0_%d' % i) for i in range(n)],
                    init=[W.real('i%d' % i) for i in range(n)])

    def run(W, I):
        mod = m.build(W, I['cols'])
        mod.fit_mle(W.arr(I['init']), print_res=False)
        return dict(ll=mod.log_likelihood, null=mod.null_log_likelihood,
                    long=mod.long_fitted_probs, chosen=mod.fitted_probs,
                    res=mod.long_residuals, chi=mod.ind_chi_squareds,
                    rho=mod.rho_squared, rhobar=mod.rho_bar_squared,
                    aic=mod.aic, bic=mod.bic, nobs=mod.nobs,
                    _defined=mod.cov.values)

    def expect(W, I, out):
        e = expected_stats(m, I)
        e = {k: obj(v) if isinstance(v, list) else v for k, v in e.items()}
        N = len(L.obs)
        e.update(aic=2 * n - 2 * e['ll'], nobs=N,
                 bic=n * T.log(T.const(N)) - 2 * e['ll'])
        return e
    return Case('fit-%s-%s' % (m.kind, tag), inputs, run, expect,
                bounds='%d rows, %d parameters' % (len(L.rows), n), **kw)


class Stubbed(object):
    """Curvature is decided by C11-C16: the estimators return fixed gradient,
    Hessian and Fisher matrices so that the rest of fit_mle stays cheap."""

    def __init__(self, W, n):
        self.n = n
        self.cls = []
        for mod, nm in (('estimation', 'LogitTypeEstimator'),
                        ('nested_logit', 'NestedEstimator'),
                        ('mixed_logit', 'MixedEstimator')):
            c = getattr(W.mod(mod), nm, None)
            if c is None:
                raise Harness('%s.%s is gone' % (mod, nm))
            self.cls.append(c)

    def matrix(self, which):
        n = self.n
        if which == 'gradient':
            return np.array([.5 + i for i in range(n)])
        d = np.diag([1.0 + i for i in range(n)])
        return -2 * d if which == 'hessian' else 4 * d

    def __enter__(self):
        self.old = []
        for c in self.cls:
            for nm, k in (('convenience_calc_gradient', 'gradient'),
                          ('convenience_calc_hessian', 'hessian'),
                          ('convenience_calc_fisher_approx', 'fisher')):
                if not hasattr(c, nm):
                    raise Harness('no ' + nm)
                self.old.append((c, nm, c.__dict__.get(nm)))
                setattr(c, nm, lambda s, p, k=k: self.matrix(k))
        return self

    def __exit__(self, *a):
        for c, nm, f in self.old:
            if f is None:
                delattr(c, nm)
            else:
                setattr(c, nm, f)


def stub_fit(m, tag, ridge=False, weights=False, **kw):
    """fit_mle from start to finish."""
    n = m.nparam()
    L = m.layout

    def inputs(W):
        I = dict(cols=L.data(W), x=[W.real('x0_%d' % i) for i in range(n)],
                 init=[W.real('i%d' % i) for i in range(n)],
                 ridge=W.real('ridge', sign='+') if ridge else None, w=None)
        if weights and m.kind == 'mixed':
            by = {u: W.real('w%s' % u, sign='+') for u in m.mixers}
            I['w'] = [by[L.mix[o]] for o, a in L.rows]
        elif weights:
            I['w'] = weights_by_obs(W, L)
        if m.kind == 'mixed':
            mixed_inputs(W, m, I)
        X = m.columns(I['cols'])
        if m.kind in ('clog', 'scobit'):
            for q in ('x', 'init'):
                region(W, m, [lin(X, m.split(I[q])[2], i)
                              for i in range(len(L.rows))])
        return I

    def run(W, I):
        mod = m.build(W, I['cols'])
        a = dict(print_res=False, ridge=I['ridge'])
        if I['w'] is not None:
            a['weights'] = W.arr(I['w'])
        if m.kind == 'mixed':
            a.update(num_draws=m.D, seed=3)
        with Stubbed(W, n):
            r = mod.fit_mle(W.arr(I['init']), **a)
        out = dict(ret=r, ll=mod.log_likelihood, null=mod.null_log_likelihood,
                   long=mod.long_fitted_probs, chosen=mod.fitted_probs,
                   res=mod.long_residuals, chi=mod.ind_chi_squareds,
                   rho=mod.rho_squared, rhobar=mod.rho_bar_squared,
                   aic=mod.aic, bic=mod.bic, nobs=mod.nobs, df=mod.df_model,
                   params=mod.params.values, gradient=mod.gradient.values,
                   hessian=mod.hessian.values,
                   fisher=mod.fisher_information.values)
        return out

    def expect(W, I, out):
        e = expected_stats(m, I)
        e = {k: obj(v) if isinstance(v, list) else v for k, v in e.items()}
        N = len(L.obs)
        st = Stubbed(W, n)
        e.update(ret=None, aic=2 * n - 2 * e['ll'], nobs=N, df=n,
                 bic=n * T.log(T.const(N)) - 2 * e['ll'],
                 params=obj(I['x']), gradient=st.matrix('gradient'),
                 hessian=st.matrix('hessian'), fisher=st.matrix('fisher'))
        return e
    return Case('whole-%s-%s' % (m.kind, tag), inputs, run, expect,
                bounds='%d rows, %d parameters' % (len(L.rows), n), **kw)


def cases(tier):
    E, S = estimate_case, store_case
    out = [E(Model('mnl', LX), 'plain'),
           E(Model('mnl', LX2, *SPEC2), 'spec')]
    for k in ('clog', 'scobit', 'uneven'):
        out.append(E(Model(k, LX, intercept_ref=1), 'plain'))
    out.append(E(Model('asym', LS2, intercept_ref=1, shape_ref=0), 'plain'))
    out += [E(Model('nested', LN, nest_spec=NB), 'plain'),
            E(Model('nested', LN4, nest_spec=NB4), 'missing-nest'),
            E(Mixed(LM1, ['B_x'], 2), 'plain'),
            E(Mixed(LM, ['B_x'], 2), 'panel'),
            S(Model('mnl', LX2, *SPEC2), 'spec'),
            S(Model('scobit', LX, intercept_ref=0), 'all'),
            S(Model('asym', LX, intercept_ref=0, shape_ref=2), 'all'),
            S(Model('nested', LN4, nest_spec=NB4), 'all'),
            S(Mixed(LM, ['B_x'], 2), 'panel'),
            stub_fit(Model('mnl', LX2, *SPEC2), 'rw', True, True),
            stub_fit(Model('clog', LX, intercept_ref=1), 'rw', True, True),
            stub_fit(Model('scobit', LS2, intercept_ref=0), 'w', False, True),
            stub_fit(Model('uneven', LX, intercept_ref=2), 'r', True),
            stub_fit(Model('asym', LS, intercept_ref=1, shape_ref=0), 'rw',
                     True, True),
            stub_fit(Model('nested', LN4, nest_spec=NB4), 'w', False, True),
            stub_fit(Model('nested', LN2S, nest_spec=NBS), 'r', True),
            stub_fit(Mixed(LMP, ['B_x'], 2), 'w', False, True),
            stub_fit(Mixed(LM, ['B_x'], 2), 'r', True),
            whole_fit(Model('mnl', LX), 'one'),
            whole_fit(Model('mnl', LX2), 'two'),
            whole_fit(Model('nested', LN2S, nest_spec=NBS), 'degenerate')]
    return out
