"""What fit_mle hands to the optimiser and how the solution is labelled."""
from .common import *

FUNCTIONS = ['fit_mle of all seven models', 'estimation.estimate',
             'EstimationObj.calc_neg_log_likelihood_and_neg_gradient',
             'EstimationObj.calc_neg_hessian', 'every split_param_vec',
             'nested_logit.identify_degenerate_nests',
             'base_multinomial_cm_v2.MNDC_Model.store_fit_results '
             '(parameter names and blocks)']
BOUNDS = ('1-3 observations, 2-4 alternatives, 1-3 index coefficients, every '
          'combination of blocks (nests | shapes, intercepts, index); '
          'covariates, starting values, weights, ridge and the point at which '
          'the optimiser evaluates the objective arbitrary reals')
ASSUMPTIONS = ['scipy.optimize.minimize is replaced by a stand-in that '
               'evaluates objective, gradient and Hessian at an arbitrary '
               'point and returns it',
               'clog-log: V <= 3, scobit: |V| <= 10']


def mixed_inputs(W, m, I):
    M, D = len(m.mixers), m.D
    I['z'] = [[[W.real('z%d' % (v * M * D + u * D + d)) for d in range(D)]
               for u in range(M)] for v in range(len(m.pos))]


def objective(m, I, x):
    if m.kind == 'mixed':
        w = None
        if I['w'] is not None:
            w = [I['w'][[m.layout.mix[r[0]] for r in m.layout.rows].index(u)]
                 for u in m.mixers]
        return m.mixed_loglik(I['cols'], x, I['z'], w, I['ridge'])
    return m.loglik(I['cols'], x, I['w'], I['ridge'])


def fit_case(m, tag, ridge=False, weights=False, constrained=None,
             parts=False, hess=False, **kw):
    n = m.nparam()
    L = m.layout

    def inputs(W):
        I = dict(cols=L.data(W), x=[W.real('x0_%d' % i) for i in range(n)],
                 init=[W.real('i%d' % i) for i in range(n)],
                 ridge=W.real('ridge', sign='0+') if ridge else None, w=None)
        if weights and m.kind == 'mixed':
            by = {u: W.real('w%s' % u, sign='0+') for u in m.mixers}
            I['w'] = [by[L.mix[o]] for o, a in L.rows]
        elif weights:
            I['w'] = weights_by_obs(W, L)
        if m.kind == 'mixed':
            mixed_inputs(W, m, I)
        X = m.columns(I['cols'])
        if m.kind in ('clog', 'scobit'):
            region(W, m, [lin(X, m.split(I['x'])[2], i)
                          for i in range(len(L.rows))])
        return I

    def run(W, I):
        mod = m.build(W, I['cols'])
        a = dict(print_res=False, just_point=True, method='L-BFGS-B',
                 loss_tol=1e-3, gradient_tol=1e-4, maxiter=17,
                 ridge=I['ridge'], constrained_pos=constrained)
        if I['w'] is not None:
            a['weights'] = W.arr(I['w'])
        if m.kind == 'mixed':
            a.update(num_draws=m.D, seed=3)
        init = W.arr(I['init'])
        if parts:
            sh, ic, b = m.split(I['init'])
            a['init_coefs'] = W.arr(b)
            if sh:
                a['init_shapes'] = W.arr(sh)
            if ic:
                a['init_intercepts'] = W.arr(ic)
            r = mod.fit_mle(None, **a)
        else:
            r = mod.fit_mle(init, **a)
        c = W.minimize_calls
        if len(c) != 1:
            return dict(calls=len(c))
        c = c[0]
        out = dict(calls=1, x0=c.x0, value=c.value, gradient=c.g,
                   method=c.method, tol=c.tol,
                   options=dict(c.options), x=r['x'], fun=r['fun'],
                   stored_method=mod.optimization_method,
                   stored_ridge=mod.ridge_param)
        if hess:
            out['hessian'] = c.H
        return out

    def expect(W, I, out):
        x = I['x']
        ll = objective(m, I, x)
        fixed = set(constrained or [])
        if m.nest_spec:
            fixed |= set(i for i, v in enumerate(m.nest_spec.values())
                         if len(v) == 1)
        g = [T.ZERO if i in fixed else -T.diff(ll, x[i]) for i in range(n)]
        if m.kind == 'nested' and ridge:
            g = [Skip() if i < m.nnest and i not in fixed else v
                 for i, v in enumerate(g)]
        e = dict(calls=1, x0=obj(I['init']), value=-ll, gradient=obj(g),
                 method='L-BFGS-B', tol=1e-3,
                 options=dict(gtol=1e-4, maxiter=17), x=obj(x), fun=-ll,
                 stored_method='L-BFGS-B', stored_ridge=I['ridge'])
        if hess:
            e['hessian'] = obj([[-T.diff(T.diff(ll, a), b) for b in x]
                                for a in x])
        return e
    kw.setdefault('bounds', '%d rows, %d parameters' % (len(L.rows), n))
    return Case('%s-%s' % (m.kind, tag), inputs, run, expect, **kw)


# ---------------------------------------------------------------------------
# labels: parameter names, blocks, order
# ---------------------------------------------------------------------------
def flat_names(m):
    out = []
    for var in m.spec:
        v = m.names[var]
        out += list(v) if isinstance(v, list) else [v]
    return out


def label_case(m, tag, twice=False, **kw):
    """store_fit_results on an arbitrary solution."""
    n = m.nparam()

    def inputs(W):
        return dict(x=[W.real('p%d' % i) for i in range(n)])

    def run(W, I):
        cols = m.layout.data(W)
        cols = {k: [float(3 * j + len(k)) / 8 for j in range(len(v))]
                if k in m.layout.cols else v for k, v in cols.items()}
        mod = m.build(W, cols)
        a = dict(print_res=False)
        if m.kind == 'mixed':
            a.update(num_draws=m.D, seed=3)
        if m.kind == 'mixed':
            mod.design_3d = np.zeros((len(m.layout.rows), m.D, n))
        r = fake_results(W, m, mod, I)
        for _ in range(2 if twice else 1):
            mod.store_fit_results(r)
        return dict(params=mod.params, coefs=mod.coefs,
                    intercepts=mod.intercepts, shapes=mod.shapes,
                    nests=mod.nests, names=list(mod.params.index),
                    hess=list(mod.hessian.columns),
                    cov=list(mod.cov.index),
                    summary=list(mod.summary.index))

    def expect(W, I, out):
        nest = list(m.nest_spec) if m.nest_spec else []
        kw = m.kwargs()
        sh = kw.get('shape_names') or []
        ic = kw.get('intercept_names') or []
        ind = flat_names(m) + ['Sigma ' + v for v in (m.mixing_vars or [])]
        names = nest + sh + ic + ind
        x = I['x']

        def ser(i, j, nm):
            return pd.Series(obj(x[i:j]), index=nm) if nm else None
        a = len(nest) + len(sh)
        b = a + len(ic)
        return dict(params=ser(0, n, names), coefs=ser(b, n, ind),
                    intercepts=ser(a, b, ic), shapes=ser(len(nest), a, sh),
                    nests=ser(0, len(nest), nest), names=names, hess=names,
                    cov=names, summary=names)
    return Case('labels-%s-%s' % (m.kind, tag), inputs, run, expect, **kw)


def fake_results(W, m, mod, I):
    """The dictionary estimation.py produces, with the blocks taken from the
    model's own splitting of the solution vector."""
    x = W.arr(I['x'])
    n = len(x)
    est = estimator(W, mod, x)
    nests, shapes, inter, coefs = est.convenience_split_params(
        x, return_all_types=True)
    nobs, nrow = len(m.layout.obs), len(m.layout.rows)
    eye = -1.0 * np.eye(n)
    return dict(final_log_likelihood=-4.0, chosen_probs=np.ones(nobs) * .5,
                long_probs=np.ones(nrow) * .5, residuals=np.zeros(nrow),
                ind_chi_squareds=np.zeros(nobs), success=True, message='ok',
                rho_squared=.1, rho_bar_squared=.05, log_likelihood_null=-5.0,
                nest_params=nests, shape_params=shapes,
                intercept_params=inter, utility_coefs=coefs,
                final_gradient=np.zeros(n), final_hessian=eye,
                fisher_info=-1 * eye, constrained_pos=None,
                expanded_sequence_probs=None, sequence_probs=None, x=x)


def cases(tier):
    F = fit_case
    out = []
    for k in ('mnl', 'clog', 'scobit', 'uneven', 'asym'):
        out.append(F(Model(k, LX, shape_ref=1), 'plain', hess=(k == 'mnl')))
        out.append(F(Model(k, LX, shape_ref=2), 'rw', True, True, [0],
                     hess=(k == 'mnl')))
        if k != 'mnl':
            m = Model(k, LX, intercept_ref=1, shape_ref=0)
            out.append(F(m, 'intercepts', False, True,
                         [m.nshape, m.nparam() - 1]))
            out.append(F(m, 'parts', parts=True))
            out.append(F(Model(k, LX, shape_ref=1), 'parts-noic',
                         parts=True))
        out.append(F(Model(k, LXI, shape_ref=1), 'integer-data', False, True,
                     hess=(k == 'mnl')))
    out.append(F(Model('nested', LXI, nest_spec=NB), 'integer-data'))
    out.append(F(Mixed(LMI, ['B_x'], 2), 'integer-data', False, True))
    out.append(F(Model('mnl', LX2, *SPEC2), 'spec', True, True, [1]))
    out.append(F(Model('nested', LN, nest_spec=NB), 'plain', False, True))
    out.append(F(Model('nested', LN2, SPEC2[0], SPEC2[1], nest_spec=NB2),
                 'spec', True, False, [3]))
    out.append(F(Model('nested', LN2, SPEC2[0], SPEC2[1],
                       nest_spec=OrderedDict([('q', [11]), ('c', [2]),
                                              ('e', [5])])),
                 'four-fixed', False, True, [4]))
    out.append(F(Model('nested', LN2, SPEC2[0], SPEC2[1], nest_spec=NB2),
                 'overlap', False, False, [3, 0]))
    out.append(F(Model('nested', LN4, nest_spec=NB4), 'two', False, True,
                 [1]))
    out.append(F(Mixed(LM1, ['B_x'], 2), 'plain'))
    out.append(F(Mixed(LMP, ['B_x'], 2), 'panel', False, True, [1]))
    out.append(F(Mixed(LMZ, ['b_z7', 'b_x'], 1, *SPECM), 'spec', False, True,
                 [2, 0]))
    lab = label_case
    out.append(lab(Model('mnl', LX2, *SPEC2), 'spec'))
    for k in ('clog', 'scobit', 'uneven', 'asym'):
        out.append(lab(Model(k, LX2, SPEC2[0], SPEC2[1], intercept_ref=1,
                             shape_ref=2), 'all'))
        out.append(lab(Model(k, LX, shape_ref=0), 'no-intercept'))
    out.append(lab(Model('nested', LN2, SPEC2[0], SPEC2[1], nest_spec=NB2),
                   'spec'))
    out.append(lab(Mixed(LMZ, ['b_z7', 'b_x'], 2, *SPECM), 'spec'))
    out.append(lab(Mixed(LMZ, ['b_z7', 'b_x'], 2, *SPECM), 'spec-refit',
                   True))
    # coefficients whose own names look like those of the spreads
    for v, w in (('Sigma z', 'Sigma_z'), ('b', 'Sigma ')):
        m = Mixed(LMZ, [v], 2, SPECM[0],
                  OrderedDict([('x', v), ('z', [w, 'Sigma of z'])]))
        out.append(lab(m, 'sigma-names-' + v[0], True))
    return out
