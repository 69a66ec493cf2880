"""Standard errors, t, p, confidence intervals from Hessian and BHHH."""
from .common import *
from .C17 import fake_results, flat_names

FUNCTIONS = ['base_multinomial_cm_v2.MNDC_Model.store_fit_results',
             '_store_generic_inference_results',
             '_adjust_inferential_results_for_parameter_constraints',
             '_create_results_summary', 'conf_int',
             'choice_calcs.calc_asymptotic_covariance',
             'conditional_logit.MNL.fit_mle (end to end)']
BOUNDS = ('1-3 parameters (4 with concrete Hessians), Hessian and BHHH '
          'arbitrary symmetric real matrices with non-zero determinant and '
          'negative-definite leading entries, parameters and the confidence '
          'level arbitrary')
ASSUMPTIONS = ['the matrix inverse is exact arithmetic; the normal '
               'distribution functions are uninterpreted apart from symmetry']


def minv(M):
    """Inverse by cofactors."""
    n = len(M)
    if n == 1:
        return [[1 / M[0][0]]]

    def d(A):
        if len(A) == 1:
            return A[0][0]
        s = T.ZERO
        for j in range(len(A)):
            sub = [r[:j] + r[j + 1:] for r in A[1:]]
            t = A[0][j] * d(sub)
            s = s + t if j % 2 == 0 else s - t
        return s
    D = d(M)
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            sub = [r[:i] + r[i + 1:] for k, r in enumerate(M) if k != j]
            c = d(sub)
            row.append((c if (i + j) % 2 == 0 else -c) / D)
        out.append(row)
    return out


def mmul(A, B):
    n = len(A)
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            s = T.ZERO
            for k in range(n):
                s = s + A[i][k] * B[k][j]
            row.append(s)
        out.append(row)
    return out


def symm(W, name, n, low=None):
    M = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            if i == j:
                v = W.real('%s%d%d' % (name, i, j), box=(1, 3), sign='+')
                if low:
                    v = -v
            else:
                v = W.real('%s%d%d' % (name, i, j), box=(-.25, .25))
            M[i][j] = M[j][i] = v
    return M


def inference(m, tag, constrained=None, n_sub=None, offdiag=True, **kw):
    n = m.nparam()

    def inputs(W):
        I = dict(x=[W.real('p%d' % i) for i in range(n)],
                 H=symm(W, 'h', n, True), F=symm(W, 'f', n),
                 alpha=W.real('alpha', box=(.01, .5), sign='+'))
        if not offdiag:
            for M in (I['H'], I['F']):
                for i in range(n):
                    for j in range(n):
                        if i != j and (i + j) % 3:
                            M[i][j] = 0
        return I

    def run(W, I):
        cols = m.layout.data(W)
        cols = {k: [float(3 * j + len(k)) / 8 for j in range(len(v))]
                if k in m.layout.cols else v for k, v in cols.items()}
        mod = m.build(W, cols)
        if m.kind == 'mixed':
            mod.design_3d = np.zeros((len(m.layout.rows), m.D,
                                      n))
        r = fake_results(W, m, mod, I)
        r['final_hessian'] = W.mat(I['H'])
        r['fisher_info'] = W.mat(I['F'])
        r['constrained_pos'] = constrained
        mod.store_fit_results(r)
        nm = list(mod.params.index)
        a = I['alpha']
        return dict(cov=mod.cov, se=mod.standard_errors, t=mod.tvalues,
                    p=mod.pvalues, fisher=mod.fisher_information,
                    hess=mod.hessian, rcov=mod.robust_cov,
                    rse=mod.robust_std_errs, rt=mod.robust_t_stats,
                    rp=mod.robust_p_vals, summary=mod.summary.values,
                    sumidx=list(mod.summary.index),
                    sumcol=list(mod.summary.columns),
                    covH=np.dot(mod.cov.values, mod.hessian.values),
                    HrH=np.dot(mod.hessian.values,
                               np.dot(mod.robust_cov.values,
                                      mod.hessian.values)),
                    ci=mod.conf_int(alpha=a),
                    cis=mod.conf_int(alpha=a, coefs=[nm[-1], nm[0]],
                                     return_df=True),
                    ci05=mod.conf_int(return_df=True))

    def expect(W, I, out):
        nest = list(m.nest_spec) if m.nest_spec else []
        k = m.kwargs()
        names = nest + (k.get('shape_names') or []) + (
            k.get('intercept_names') or []) + flat_names(m) + [
            'Sigma ' + v for v in (m.mixing_vars or [])]
        H = [[T.lift(v) for v in r] for r in I['H']]
        F = [[T.lift(v) for v in r] for r in I['F']]
        Hi = minv(H)
        C = [[-v for v in r] for r in Hi]
        R = mmul(Hi, mmul(F, Hi))
        fixed = set(constrained or [])
        nan = float('nan')
        x = I['x']

        def infer(V):
            se, t, p = [], [], []
            for i in range(n):
                if i in fixed:
                    se.append(nan), t.append(nan), p.append(nan)
                    continue
                s = T.sqrt(V[i][i])
                se.append(s)
                t.append(x[i] / s)
                p.append(2 * T.uf('norm_sf', abs(T.lift(x[i] / s))))
            return se, t, p
        se, t, p = infer(C)
        rse, rt, rp = infer(R)

        def ser(v):
            return pd.Series(obj(v), index=names)

        def ci(alpha, idx):
            z = T.uf('norm_ppf', 1 - T.lift(alpha) / 2)
            return [[nan, nan] if i in fixed else
                    [x[i] - z * se[i], x[i] + z * se[i]] for i in idx]
        allp = range(n)
        df = pd.DataFrame(obj(ci(I['alpha'], [n - 1, 0])),
                          index=[names[-1], names[0]],
                          columns=['lower', 'upper'])
        df5 = pd.DataFrame(obj(ci(0.05, allp)), index=names,
                           columns=['lower', 'upper'])
        mat = lambda M: pd.DataFrame(obj(M), index=names, columns=names)
        return dict(cov=mat(C), hess=mat(H), fisher=mat(F), rcov=mat(R),
                    se=ser(se), t=ser(t), p=ser(p), rse=ser(rse), rt=ser(rt),
                    rp=ser(rp), sumidx=names,
                    sumcol=['parameters', 'std_err', 't_stats', 'p_values',
                            'robust_std_err', 'robust_t_stats',
                            'robust_p_values'],
                    covH=obj([[T.const(-1 if i == j else 0)
                               for j in allp] for i in allp]),
                    HrH=obj(F),
                    summary=obj([[x[i], se[i], t[i], p[i], rse[i], rt[i],
                                  rp[i]] for i in allp]),
                    ci=obj(ci(I['alpha'], allp)), cis=df, ci05=df5)
    kw.setdefault('bounds', '%d parameters' % n)
    return Case('%s-%s' % (m.kind, tag), inputs, run, expect, **kw)


def whole_fit(m, tag, ridge=False, constrained=None, **kw):
    """fit_mle end to end: the curvature is evaluated at the solution."""
    n = m.nparam()
    L = m.layout

    def inputs(W):
        return dict(cols=L.data(W), x=[W.real('x0_%d' % i) for i in range(n)],
                    init=[W.real('i%d' % i) for i in range(n)],
                    ridge=W.real('ridge', sign='0+') if ridge else None)

    def run(W, I):
        mod = m.build(W, I['cols'])
        mod.fit_mle(W.arr(I['init']), print_res=False, ridge=I['ridge'],
                    constrained_pos=constrained)
        return dict(x=mod.params.values, H=mod.hessian.values,
                    F=mod.fisher_information.values, g=mod.gradient.values,
                    _defined=mod.cov.values)

    def expect(W, I, out):
        x = I['x']
        ll = m.loglik(I['cols'], x, None, I['ridge'])
        g = [T.diff(ll, t) for t in x]
        fixed = set(constrained or [])
        if m.nest_spec:
            fixed |= set(i for i, v in enumerate(m.nest_spec.values())
                         if len(v) == 1)
        F = [[T.ZERO] * n for _ in range(n)]
        y = I['cols']['choice']
        obs = [r[0] for r in L.rows]
        for o in L.obs:
            w = [1 if q == o else 0 for q in obs]
            lo = m.loglik(I['cols'], x, w)
            s = [T.ZERO if m.kind == 'nested' and i in fixed
                 else T.diff(lo, x[i]) for i in range(n)]
            for a in range(n):
                for b in range(n):
                    F[a][b] = F[a][b] + s[a] * s[b]
        if m.kind == 'nested':
            for a in fixed:
                F[a][a] = T.const(1)
            H = [[-v for v in r] for r in F]
            F = Skip()
        else:
            H = [[T.diff(g[a], x[b]) for b in range(n)] for a in range(n)]
            if I['ridge'] is not None:
                F = [[v - 2 * I['ridge'] if i == j else v
                      for j, v in enumerate(r)] for i, r in enumerate(F)]
        return dict(x=obj(x), H=obj(H), F=F if isinstance(F, Skip)
                    else obj(F), g=obj(g))
    return Case('fit-%s-%s' % (m.kind, tag), inputs, run, expect,
                bounds='%d rows, %d parameters' % (len(L.rows), n), **kw)


def cases(tier):
    out = [inference(Model('mnl', LX), 'one'),
           inference(Model('mnl', LX2), 'two'),
           inference(Model('mnl', LX2), 'two-fixed', [1]),
           inference(Model('mnl', LX2, *SPEC2), 'three'),
           inference(Model('mnl', LX2, *SPEC2), 'three-fixed', [0, 2]),
           inference(Model('nested', LN, nest_spec=NB), 'three', [1]),
           inference(Model('clog', LX, intercept_ref=1), 'three'),
           inference(Model('asym', LX, shape_ref=1), 'three'),
           inference(Mixed(LM1, ['B_x'], 2), 'two')]
    out += [whole_fit(Model('mnl', LX), 'one'),
            whole_fit(Model('mnl', LX2), 'two'),
            whole_fit(Model('mnl', LX2), 'ridge', True),
            whole_fit(Model('nested', LN2S, nest_spec=NBS), 'degenerate'),
            whole_fit(Model('nested', LN, nest_spec=NB), 'two-nests')]
    return out
