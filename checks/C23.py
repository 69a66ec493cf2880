"""Bootstrap and jackknife replicates: the same model on the resampled data."""
from .common import *
from .C17 import flat_names

FUNCTIONS = ['bootstrap.Boot.__init__, generate_bootstrap_replicates, '
             'generate_jackknife_replicates',
             'bootstrap.get_param_names',
             'bootstrap_mle.retrieve_point_est, get_mnl_point_est, '
             'extract_default_init_vals, get_model_creation_kwargs, '
             'get_model_abbrev',
             'bootstrap_sampler (all)', 'fit_mle of the models']
BOUNDS = ('3 observations of 2-3 alternatives, 1-2 bootstrap samples (every '
          'outcome of the draws), every leave-one-out sample; covariates, '
          'starting values, ridge and the optimiser\'s points arbitrary')
ASSUMPTIONS = ['the optimiser is a stand-in returning an arbitrary point',
               'random draws return an arbitrary member of the population',
               'clog-log: V <= 3, scobit: |V| <= 10']

LB = Layout([(4, 12), (4, 3), (6, 3), (6, 12), (10, 12), (10, 3)],
            {4: 3, 6: 12, 10: 12})
LBX = Layout([(4, 12), (4, 3), (4, 5), (6, 3), (6, 12), (10, 12), (10, 3)],
             {4: 3, 6: 12, 10: 3})
LB2 = Layout([(4, 12), (4, 3), (6, 3), (6, 12), (10, 12), (10, 3)],
             {4: 3, 6: 12, 10: 3})
SPECZ = (OrderedDict([('z', [12]), ('x', 'all_same')]),
         OrderedDict([('z', ['b_z7']), ('x', 'b_x')]))
LBZ = Layout([(4, 12), (4, 3), (6, 3), (6, 12), (10, 12), (10, 3)],
             {4: 3, 6: 12, 10: 12}, cols=('x', 'z'),
             conc={'z': [1, -1, 2, .5, 3, -2]})
# fixed covariates: the sign of an index is the sign of its coefficient
LBC = Layout([(4, 12), (4, 3), (6, 3), (6, 12), (10, 12), (10, 3)],
             {4: 3, 6: 12, 10: 12}, conc={'x': [2, -1, .5, 3, -1.5, 1]})
NEST = OrderedDict([('N1', [3, 12])])
NEST2 = OrderedDict([('A', [12]), ('B', [3])])


def sampled(m, cols, ids):
    """(model on the resampled data, its columns)"""
    L = m.layout
    rows, idx, ch = [], [], {}
    for k, o in enumerate(ids):
        ch[k + 1] = L.chosen[o]
        for i, (q, a) in enumerate(L.rows):
            if q == o:
                rows.append((k + 1, a))
                idx.append(i)
    N = Layout(rows, ch, L.cols)
    n = Model(m.kind, N, m.spec, m.names, m.iref, m.sref or 0, m.nest_spec)
    n.sref = m.sref
    return n, OrderedDict((c, [v[i] for i in idx]) for c, v in cols.items()), idx


def mnl_of(m):
    """the MNL that provides starting values"""
    if m.iref is None:
        spec, names = m.spec, m.names
    else:
        keep = [a for i, a in enumerate(m.layout.alts) if i != m.iref]
        spec = OrderedDict([('intercept', keep)])
        names = OrderedDict([('intercept', ['ASC_%d' % a for a in keep])])
        spec.update(m.spec)
        names.update(m.names)
    return Model('mnl', m.layout, spec, names)


def replicate_case(m, tag, jack=False, S=1, opts=None, init=True, custom=False,
                   weights=False, seed=4, **kw):
    L = m.layout
    n = m.nparam()
    own = m.kind == 'mnl'
    mm = mnl_of(m)
    nm = mm.nparam()
    R = len(L.obs) if jack else S
    per = 1 if own else 2
    opts = opts or {}

    def inputs(W):
        I = dict(cols=L.data(W), mle=W.reals('m', n), minit=W.reals('i', nm),
                 ridge=W.real('ridge', sign='0+') if 'ridge' in opts
                 else None, sol=[])
        if jack:
            I['ids'] = [[o for o in L.obs if o != q] for q in sorted(L.obs)]
        if weights:
            by = {o: W.real('w%d' % o, sign='0+') for o in L.obs}
            I['w'] = [by[o] for o, a in L.rows]
        k = 0
        for r in range(R):
            d = {}
            if not own:
                d['mnl'] = [W.real('x%d_%d' % (k, i)) for i in range(nm)]
                k += 1
            d['x'] = [W.real('x%d_%d' % (k, i)) for i in range(n)]
            k += 1
            I['sol'].append(d)
        if m.kind in ('clog', 'scobit'):
            X = m.columns(I['cols'])
            for d in I['sol']:
                region(W, m, [lin(X, m.split(d['x'])[2], i)
                              for i in range(len(L.rows))])
        return I

    def run(W, I):
        W.split_picks = True
        mod = m.build(W, I['cols'])
        before = mod.data.copy(deep=True)
        a = dict(opts)
        if 'ridge' in a:
            a['ridge'] = I['ridge']
        fk = {}
        if not own:
            a['mnl_obj'] = mm.build(W, OrderedDict(I['cols']))
            a['mnl_init_vals'] = W.arr(I['minit'])
            fk = a['mnl_fit_kwargs'] = dict(method='CG', maxiter=7)
        elif init:
            a['mnl_init_vals'] = W.arr(I['minit'])
        if custom:
            a['extract_init_vals'] = lambda mo, s, k: W.arr(
                [s.values[0] + j for j in range(k)])
        if weights:
            a['weights'] = W.arr(I['w'])
        b = W.mod('bootstrap').Boot(mod, W.arr(I['mle']))
        if jack:
            b.generate_jackknife_replicates(**a)
            rep = b.jackknife_replicates
        else:
            ids = W.mod('bootstrap_sampler')\
                .create_cross_sectional_bootstrap_samples(
                    W.ints([o for o, q in L.rows]),
                    W.ints([q for o, q in L.rows]),
                    W.ints(I['cols']['choice']), S, seed=seed)
            I['ids'] = [[int(v) for v in r] for r in ids]
            W.n_choice = 0
            W.events = []
            b.generate_bootstrap_replicates(S, boot_seed=seed, **a)
            rep = b.bootstrap_replicates
        c = W.minimize_calls
        out = dict(rep=rep, mle=b.mle_params, ncalls=len(c))
        if len(c) == R * per:
            out['x0'] = [q.x0 for q in c]
            out['value'] = [q.value for q in c]
            out['method'] = [q.method for q in c]
            out['maxiter'] = [q.options.get('maxiter') for q in c]
            out['tol'] = [q.tol for q in c]
        out['columns'] = list(mod.data.columns)
        out['same'] = all(
            bool(u is v) or bool(u == v) for col in before.columns
            for u, v in zip(before[col].values, mod.data[col].values))
        if not jack:
            out['seeds'] = [v for k, v in W.events if k == 'seed']
        return out

    def expect(W, I, out):
        nest = list(m.nest_spec) if m.nest_spec else []
        k = m.kwargs()
        names = nest + (k.get('shape_names') or []) + (
            k.get('intercept_names') or []) + flat_names(m)
        e = dict(mle=pd.Series(obj(I['mle']), index=names),
                 rep=pd.DataFrame(obj([d['x'] for d in I['sol']]),
                                  columns=names),
                 ncalls=R * per, same=True, x0=[], value=[], method=[],
                 maxiter=[], tol=[],
                 columns=list(I['cols']) + (
                     ['intercept'] if 'intercept' in m.spec else []))
        if not jack:
            e['seeds'] = [] if seed is None else [seed]
        if 'ids' not in I:
            return {}
        ids = I['ids']
        for r, s in enumerate(ids):
            q, cols, idx = sampled(m, I['cols'], s)
            d = I['sol'][r]
            w = [I['w'][i] for i in idx] if weights else None
            if not own:
                qm, cm, _ = sampled(mm, I['cols'], s)
                e['x0'].append(obj(I['minit']))
                e['value'].append(-qm.loglik(cm, d['mnl']))
                e['method'].append('CG')
                e['maxiter'].append(7)
                e['tol'].append(Skip())
                if custom:
                    x0 = [d['mnl'][0] + j for j in range(n)]
                else:
                    ni = m.nint
                    b = d['mnl'][ni:]
                    if m.kind == 'asym':
                        b = [v / T.log(T.const(m.J)) for v in b]
                    x0 = [T.ZERO] * (n - ni - len(b)) + d['mnl'][:ni] + b
            else:
                x0 = I['minit'] if init else [0] * n
            e['x0'].append(obj(x0))
            e['value'].append(-q.loglik(cols, d['x'], w, I['ridge']))
            e['method'].append(opts.get('method', 'BFGS'))
            e['maxiter'].append(opts.get('maxiter', 1000))
            e['tol'].append(opts.get('loss_tol', 1e-6))
        return e
    kw.setdefault('bounds', '%d rows, %d parameters, %d replicates'
                  % (len(L.rows), n, R))
    return Case(('jackknife-' if jack else 'bootstrap-') + tag, inputs, run,
                expect, points=1, **kw)


def cases(tier):
    A = replicate_case
    J = lambda *a, **k: A(*a, jack=True, **k)
    O = dict(ridge=1, method='L-BFGS-B', maxiter=23, loss_tol=1e-3)
    mnl, mnl2 = Model('mnl', LB), Model('mnl', LBX)
    out = [A(mnl, 'mnl', S=2), A(mnl2, 'mnl-availability', init=False),
           A(mnl, 'mnl-options', opts=O), A(mnl, 'mnl-weights', weights=True),
           A(Model('mnl', LBZ, *SPECZ), 'mnl-spec', S=2, seed=None),
           J(mnl, 'mnl'), J(mnl2, 'mnl-availability', init=False),
           J(mnl, 'mnl-options', opts=O),
           J(Model('mnl', LBZ, *SPECZ), 'mnl-spec')]
    for kind in ('clog', 'scobit', 'uneven', 'asym'):
        m = Model(kind, LB, intercept_ref=0, shape_ref=1)
        p = Model(kind, LBC if kind == 'asym' else LB, shape_ref=0)
        out += [A(m, kind, opts=O), J(p, kind)]
        if kind in ('clog', 'asym'):
            out += [J(m if kind == 'clog' else p, kind + '-options', opts=O),
                    A(p, kind + '-custom', custom=True)]
    out += [A(Model('asym', LBC, shape_ref=1), 'asym-weights', weights=True),
            A(Model('nested', LB, nest_spec=NEST), 'nested'),
            J(Model('nested', LB, nest_spec=NEST), 'nested',
              opts=dict(maxiter=9)),
            A(Model('nested', LBZ, SPECZ[0], SPECZ[1], nest_spec=NEST2),
              'nested-degenerate', opts=dict(method='L-BFGS-B'))]
    return out
