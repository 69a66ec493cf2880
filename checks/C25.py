"""Log-likelihoods and gradient norms of bootstrap / jackknife replicates."""
from .common import *
from .C17 import fake_results

FUNCTIONS = ['bootstrap.Boot.calc_log_likes_for_replicates, '
             'calc_gradient_norm_for_replicates',
             'bootstrap.get_param_list_for_prediction, get_param_names, '
             'ensure_replicates_kwarg_validity',
             'base_multinomial_cm_v2.MNDC_Model.predict',
             'construct_estimator.create_estimation_obj',
             'convenience_calc_gradient of the estimators']
BOUNDS = ('1-2 observations of 2-3 alternatives, 1-3 replicates; covariates, '
          'replicates, weights, ridge and draws arbitrary reals')
ASSUMPTIONS = ['clog-log: V <= 3, scobit: |V| <= 10',
               'mixed logit: the draws are arbitrary reals shared by all '
               'replicates (same seed)']


def boot_inputs(W, m, R, ridge=False, weights=False):
    L, n = m.layout, m.nparam()
    I = dict(cols=L.data(W), rep=[[W.real('r%d_%d' % (r, i))
                                   for i in range(n)] for r in range(R)],
             ridge=W.real('ridge', sign='0+') if ridge else None, w=None)
    if weights and m.kind == 'mixed':
        by = {u: W.real('w%s' % u, sign='0+') for u in m.mixers}
        I['w'] = [by[L.mix[o]] for o, a in L.rows]
    elif weights:
        I['w'] = weights_by_obs(W, L)
    if m.kind in ('clog', 'scobit'):
        X = m.columns(I['cols'])
        for x in I['rep']:
            region(W, m, [lin(X, m.split(x)[2], i)
                          for i in range(len(L.rows))])
    return I


def fitted(W, m, I):
    n = m.nparam()
    mod = m.build(W, I['cols'])
    if m.kind == 'mixed':
        mlc = W.mod('mixed_logit_calcs')
        z = I.get('zfit') or [[[0.5] * m.D] * len(m.mixers)] * len(m.pos)
        maps = mod.get_mappings_for_fit()
        mod.design_3d = mlc.create_expanded_design_for_mixing(
            mod.design, [W.mat(q) for q in z], mod.mixing_pos,
            maps['rows_to_mixers'])
    mod.store_fit_results(fake_results(
        W, m, mod, dict(x=[W.num(7 + i) for i in range(n)])))
    b = W.mod('bootstrap').Boot(mod, W.arr([7.0 + i for i in range(n)]))
    return mod, b


def attach(W, b, which, rep, names):
    df = pd.DataFrame(np.array([list(W.arr(r)) for r in rep]),
                      columns=names)
    setattr(b, which + '_replicates', df)
    other = 'jackknife' if which == 'bootstrap' else 'bootstrap'
    setattr(b, other + '_replicates', pd.DataFrame(
        np.ones((1, len(names))) * .375, columns=names))


def loglik_case(m, tag, R=2, which='bootstrap', default=False, naive=False,
                **kw):
    L = m.layout

    def inputs(W):
        I = boot_inputs(W, m, R)
        if m.kind == 'mixed':
            M, D = len(m.mixers), m.D
            # fresh draws are made for every replicate; same seed, same draws
            I['z'] = []
            k = 0
            for r in range(R):
                I['z'].append([])
                for v in range(len(m.pos)):
                    I['z'][r].append([])
                    for u in range(M):
                        I['z'][r][v].append([])
                        for d in range(D):
                            I['z'][r][v][u].append(W.real('z%d' % k))
                            k += 1
        return I

    def run(W, I):
        mod, b = fitted(W, m, I)
        names = list(b.mle_params.index)
        attach(W, b, which, I['rep'], names)
        a = {} if default else dict(replicates=which)
        if m.kind == 'mixed':
            a.update(num_draws=m.D, seed=11)
        W.events = []
        r = b.calc_log_likes_for_replicates(**a)
        s = getattr(b, which + '_log_likelihoods')
        out = dict(result=np.ravel(r), stored=s.values, name=s.name, n=len(names),
                   replicates=getattr(b, which + '_replicates').values)
        if m.kind == 'mixed':
            out['seeds'] = [v for k, v in W.events if k == 'seed']
        return out

    def expect(W, I, out):
        def ll(r):
            x = I['rep'][r]
            if m.kind != 'mixed':
                return m.loglik(I['cols'], x)
            if not naive:
                return m.mixed_loglik(I['cols'], x, I['z'][r])
            P = m.kernel(I['cols'], x, I['z'][r])
            s = T.ZERO
            for i, (o, a) in enumerate(L.rows):
                if L.chosen[o] == a:
                    t = T.ZERO
                    for p in P[i]:
                        t = t + p
                    s = s + T.log(t / m.D)
            return s
        v = [ll(r) for r in range(R)]
        e = dict(result=obj(v), stored=obj(v), n=m.nparam(),
                 name=which + '_log_likelihoods', replicates=obj(I['rep']))
        if m.kind == 'mixed':
            e['seeds'] = [11] * R
        return e
    kw.setdefault('bounds', '%d rows, %d parameters, %d replicates'
                  % (len(L.rows), m.nparam(), R))
    return Case('loglik-%s-%s' % (m.kind, tag), inputs, run, expect, **kw)


def sum_sq(v):
    s = v[0] * v[0]
    for x in v[1:]:
        s = s + x * x
    return s


def norm_case(m, tag, R=2, which='bootstrap', ridge=False, weights=False,
              constrained=None, own=False, **kw):
    """own: compare with the norm of the model's own gradient (decided by
    C11) instead of the derivative of the likelihood."""
    L, n = m.layout, m.nparam()

    def inputs(W):
        I = boot_inputs(W, m, R, ridge, weights)
        if m.kind == 'mixed':
            I['zfit'] = m.draws(W)
        return I

    def run(W, I):
        mod, b = fitted(W, m, I)
        attach(W, b, which, I['rep'], list(b.mle_params.index))
        r = b.calc_gradient_norm_for_replicates(
            replicates=which, ridge=I['ridge'], constrained_pos=constrained,
            weights=None if I['w'] is None else W.arr(I['w']))
        out = dict(norm=r)
        if own:
            est = estimator(W, mod, W.arr(I['rep'][0]), I['ridge'],
                            None if I['w'] is None else W.arr(I['w']))
            ref = []
            for x in I['rep']:
                g = est.convenience_calc_gradient(W.arr(x))
                ref.append(sum_sq([g[i] for i in range(n)
                                   if i not in (constrained or [])]))
            out['same'] = [a * a - b for a, b in zip(r, ref)]
            del out['norm']
        return out

    def expect(W, I, out):
        if own:
            return dict(same=[0] * R)
        res = []
        fixed = set(constrained or [])
        if m.nest_spec:
            fixed |= set(i for i, v in enumerate(m.nest_spec.values())
                         if len(v) == 1)
        for x in I['rep']:
            if m.kind == 'mixed':
                w = None
                if I['w'] is not None:
                    w = [I['w'][[L.mix[o] for o, a in L.rows].index(u)]
                         for u in m.mixers]
                ll = m.mixed_loglik(I['cols'], x, I['zfit'], w, I['ridge'])
            else:
                ll = m.loglik(I['cols'], x, I['w'], I['ridge'])
            s = T.ZERO
            for i in range(n):
                if i not in fixed:
                    g = T.diff(ll, x[i])
                    s = s + g * g
            res.append(T.sqrt(s))
        return dict(norm=obj(res))
    kw.setdefault('bounds', '%d rows, %d parameters, %d replicates'
                  % (len(L.rows), n, R))
    return Case('norm-%s-%s' % (m.kind, tag), inputs, run, expect, **kw)


def reject_case(tag, arg):
    def inputs(W):
        return dict(rep=[[W.real('r0')]])

    def run(W, I):
        m = Model('mnl', LS)
        mod, b = fitted(W, m, dict(cols=OrderedDict(
            obs=[4, 4], alt=[7, 3], x=[1., 2.], choice=[0, 1])))
        attach(W, b, 'bootstrap', I['rep'], list(b.mle_params.index))
        if tag.startswith('loglik'):
            b.calc_log_likes_for_replicates(replicates=arg)
        else:
            b.calc_gradient_norm_for_replicates(replicates=arg)
        return dict(ok=True)

    def expect(W, I, out):
        return {'!': Raises('ValueError')}
    return Case('reject-' + tag, inputs, run, expect)


def cases(tier):
    G, N = loglik_case, norm_case
    out = [G(Model('mnl', LX), 'plain', 3), G(Model('mnl', LX), 'default',
                                              default=True),
           G(Model('mnl', LX2, *SPEC2), 'spec', which='jackknife')]
    for k in ('clog', 'scobit', 'uneven', 'asym'):
        lay = LS2 if k == 'asym' else LX
        m = Model(k, lay, intercept_ref=1, shape_ref=0)
        out += [G(m, 'single', 1),
                G(Model(k, LS, intercept_ref=0, shape_ref=1) if k == 'asym'
                  else m, 'intercepts', 2),
                G(Model(k, LS2, shape_ref=1), 'plain', 2, 'jackknife')]
    out += [G(Model('nested', LN, nest_spec=NB), 'plain', 2),
            G(Model('nested', LN4, nest_spec=NB4), 'four', 2, 'jackknife'),
            G(Mixed(LM1, ['B_x'], 2), 'one-choice', 2),
            G(Mixed(LMZ, ['b_z7', 'b_x'], 1, *SPECM), 'spec', 2,
              'jackknife'),
            G(Mixed(LM, ['B_x'], 2), 'panel', 2),
            G(Mixed(LM, ['B_x'], 2), 'panel#as-recorded', 2, naive=True)]
    out += [N(Model('mnl', LX), 'plain', 3),
            N(Model('mnl', LX2, *SPEC2), 'spec', 2, 'jackknife', True, True,
              [1])]
    for k in ('clog', 'scobit', 'uneven', 'asym'):
        out += [N(Model(k, LS, intercept_ref=None if k == 'scobit' else 0,
                        shape_ref=1), 'plain', 2, own=k == 'scobit'),
                N(Model(k, LS, intercept_ref=1, shape_ref=0), 'options', 2,
                  'jackknife', True, True, [0], own=k == 'scobit')]
    out += [N(Model('nested', LN, nest_spec=NB), 'plain', 2),
            N(Model('nested', LN4S, nest_spec=NB4), 'options', 2,
              'jackknife', False, True, [1]),
            N(Mixed(LM1, ['B_x'], 1), 'plain', 2),
            N(Mixed(LMP, ['B_x'], 2), 'panel', 1, 'jackknife', False, True,
              [1])]
    out += [reject_case('loglik-other', 'both'),
            reject_case('norm-other', 'boot')]
    return out
