"""Bootstrap resampling of observations and the resampled data frames."""
import itertools

from .common import *

FUNCTIONS = ['bootstrap_sampler: relate_obs_ids_to_chosen_alts, '
             'get_num_obs_choosing_each_alternative, '
             'create_cross_sectional_bootstrap_samples, '
             'create_bootstrap_id_array, create_deepcopied_groupby_dict, '
             'create_bootstrap_dataframe, check_column_existence, '
             'ensure_resampled_obs_ids_in_df']
BOUNDS = ('2-4 observations with 2-3 alternatives, 1-3 samples; observation '
          'identifiers arbitrary integers, chosen alternatives, covariates '
          'and the outcomes of the random draws arbitrary')
ASSUMPTIONS = ['numpy.random.choice is replaced by a stand-in that returns an '
               'arbitrary member of the population for every draw']


def ids(W, n, span=40, base=0):
    v = [W.int('id%d' % i, base, base + span - 1) for i in range(n)]
    for i in range(n):
        for j in range(i):
            W.assume(T.not_(T.cmp_('==', v[i], v[j])) if W.symbolic
                     else v[i] != v[j])
    return v


def sum_(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def chosen_inputs(W, rows, alts, base=0):
    """rows: list of (observation, alternative); one chosen row each."""
    n = max(o for o, a in rows) + 1
    I = dict(ids=ids(W, n, base=base), ch=[], y=[])
    for o in range(n):
        av = [a for q, a in rows if q == o]
        k = W.int('ch%d' % o, 0, len(av) - 1)
        I['ch'].append((k, av))
    for o, a in rows:
        k, av = I['ch'][o]
        I['y'].append(1 if bool(k == av.index(a)) else 0)
    return I


def exactly(W, hits, c):
    """exactly c of the entries hit one of their targets"""
    if not W.symbolic:
        return sum(any(h) for h in hits) == c
    h = [T.or_(*v) if v else False for v in hits]
    if not all(hits):
        return c == 0
    n = len(h)
    return T.or_(*[T.and_(*[h[i] if i in S else T.not_(h[i])
                            for i in range(n)])
                   for S in itertools.combinations(range(n), c)])


def sample_case(rows, S, tag, seed=5, base=0, **kw):
    n = max(o for o, a in rows) + 1
    alts = sorted(set(a for o, a in rows))

    def inputs(W):
        return chosen_inputs(W, rows, alts, base)

    def run(W, I):
        bs = W.mod('bootstrap_sampler')
        o = W.ints([I['ids'][q] for q, a in rows])
        a = W.ints([q for _, q in rows])
        y = W.ints(I['y'])
        r = bs.create_cross_sectional_bootstrap_samples(o, a, y, S,
                                                        seed=seed)
        r = np.asarray(r)
        out = dict(shape=list(r.shape),
                   seeds=[v for k, v in W.events if k == 'seed'])
        kinds = [k for k, v in W.events]
        out['seed_first'] = 'seed' not in kinds or 'choice' not in kinds or \
            kinds.index('seed') < kinds.index('choice')
        ev = [v for k, v in W.events if k == 'choice']
        out['with_replacement'] = all(bool(v[2]) for v in ev)
        out['uniform'] = all(v[3] is None for v in ev)
        out['ndraws'] = sum(1 if v[1] is None else int(np.prod(v[1]))
                            for v in ev)
        # every draw is used exactly once
        out['sum'] = sum_(x for x in r.ravel())
        out['sum2'] = sum_(x * x for x in r.ravel())
        # strata sizes in every sample
        cnt = []
        for s in range(r.shape[0]):
            for al in alts:
                mem = [I['ids'][q] for (q, b), c in zip(rows, I['y'])
                       if c and b == al]
                cnt.append(exactly(W, [[T.cmp_('==', T.lift(x), m)
                                        if W.symbolic else x == m
                                        for m in mem] for x in r[s]],
                                   len(mem)))
        out['strata'] = cnt
        # populations of the draws
        pops = {}
        for pop, size, rep, p in ev:
            mem = list(pop)
            key = None
            for al in alts:
                grp = [I['ids'][q] for (q, b), c in zip(rows, I['y'])
                       if c and b == al]
                if any(bool(mem[0] == g) for g in grp) if mem else False:
                    key = al
                    ok = len(mem) == len(grp) and all(
                        any(bool(m == g) for m in mem) for g in grp)
                    k = pops.setdefault(al, [0, True])
                    k[0] += 1 if size is None else int(np.prod(size))
                    k[1] = k[1] and ok
            if key is None and mem:
                pops['other'] = [0, False]
        out['pops'] = {str(k): v for k, v in pops.items()}
        return out

    def expect(W, I, out):
        N = S * n
        draws = [T.var('c%d' % k, 'I') if W.symbolic
                 else W.used['c%d' % k] for k in range(N)]
        cnt = {}
        for (o, a), c in zip(rows, I['y']):
            cnt[a] = cnt.get(a, 0) + c
        return dict(shape=[S, n], seeds=[] if seed is None else [seed],
                    seed_first=True, with_replacement=True, uniform=True,
                    ndraws=N, sum=sum_(draws), sum2=sum_(d * d for d in
                                                         draws),
                    strata=[True] * (S * len(alts)),
                    pops={str(a): [S * cnt[a], True] for a in alts
                          if cnt[a]})
    kw.setdefault('bounds', '%d observations, %d samples' % (n, S))
    return Case('samples-' + tag, inputs, run, expect, points=1, **kw)


def seed_case(seed):
    def run(W, I):
        bs = W.mod('bootstrap_sampler')
        return bs.create_cross_sectional_bootstrap_samples(
            W.ints([1, 1, 2, 2]), W.ints([1, 2, 1, 2]), W.ints([0, 1, 1, 0]),
            2, seed=seed)
    return Case('bad-seed-%r' % seed, lambda W: {}, run,
                lambda W, I, out: {'!': Raises('ValueError')}, points=1)


def frame_case(rows, n, S, tag, perm=None, missing=False, **kw):
    """create_bootstrap_dataframe: resampled ids arbitrary."""
    def inputs(W):
        return dict(ids=ids(W, n), x=W.reals('x', len(rows)),
                    w=[W.int('w%d' % i, 0, 9) for i in range(len(rows))],
                    pick=[W.int('s%d' % j, 0, n - 1) for j in range(S)])

    def run(W, I):
        bs = W.mod('bootstrap_sampler')
        cols = OrderedDict([('x', I['x']),
                            ('obs', [I['ids'][o] for o, a in rows]),
                            ('alt', [a for o, a in rows]), ('w', I['w'])])
        df = W.df(cols, index=[3 * i + 2 for i in range(len(rows))])
        keep = df.copy(deep=True)
        g = bs.create_deepcopied_groupby_dict(df, 'obs')
        res = []
        for k in I['pick']:
            for i in range(n):
                if bool(k == i):
                    res.append(I['ids'][i])
                    break
        if missing:
            res[-1] = W.num(99)
        r = bs.create_bootstrap_dataframe(df, 'obs', W.arr(res), g,
                                          boot_id_col='boot')
        # writing into the result must not reach the original
        out = dict(res=r.copy(), orig=None)
        r['x'] = 0.0
        r.loc[:, 'w'] = -1
        g[list(g)[0]]['x'] = -7.0
        out['orig'] = df
        return out

    def expect(W, I, out):
        if missing:
            return {'!': Raises('ValueError')}
        sel = []
        for j, k in enumerate(I['pick']):
            for i in range(n):
                if bool(k == i):
                    sel += [(j + 1, q) for q, (o, a) in enumerate(rows)
                            if o == i]
                    break
        new = pd.DataFrame(OrderedDict([
            ('x', obj([I['x'][q] for _, q in sel])),
            ('obs', obj([I['ids'][rows[q][0]] for _, q in sel])),
            ('alt', obj([rows[q][1] for _, q in sel])),
            ('w', obj([I['w'][q] for _, q in sel])),
            ('boot', [j for j, _ in sel])]))
        orig = pd.DataFrame(OrderedDict([
            ('x', obj(I['x'])), ('obs', obj([I['ids'][o] for o, a in rows])),
            ('alt', [a for o, a in rows]), ('w', obj(I['w']))]),
            index=[3 * i + 2 for i in range(len(rows))])
        return dict(res=new, orig=orig)
    kw.setdefault('bounds', '%d rows, %d resampled ids' % (len(rows), S))
    return Case('frame-' + tag, inputs, run, expect, points=1, **kw)


def reject_frame(tag, **a):
    def run(W, I):
        bs = W.mod('bootstrap_sampler')
        df = W.df(OrderedDict([('obs', [1, 1, 2, 2]), ('x', I['x'])]))
        g = bs.create_deepcopied_groupby_dict(df, 'obs')
        args = dict(obs='obs', boot='boot')
        args.update(a)
        return bs.create_bootstrap_dataframe(
            df, args['obs'], np.array([1, 2]), g, boot_id_col=args['boot'])
    return Case('reject-' + tag, lambda W: dict(x=W.reals('x', 4)), run,
                lambda W, I, out: {'!': Raises('ValueError')}, points=1)


def array_case(n, S):
    def run(W, I):
        bs = W.mod('bootstrap_sampler')
        return dict(m=bs.create_bootstrap_id_array(W.mat(I['m'])))
    return Case('ids-%dx%d' % (S, n),
                lambda W: dict(m=[W.reals('m%d_' % s, n) for s in range(S)]),
                run, lambda W, I, out: dict(
                    m=np.array([list(range(1, n + 1))] * S)),
                points=1)


R3 = [(0, 3), (0, 8), (1, 8), (1, 3), (2, 3), (2, 8)]
R3A = [(0, 11), (0, 3), (0, 8), (1, 8), (1, 3), (2, 3), (2, 11)]
R2 = [(0, 11), (0, 3), (1, 3), (1, 8)]
R4 = [(0, 3), (0, 8), (1, 8), (1, 3), (2, 3), (2, 8), (3, 8), (3, 3)]


def cases(tier):
    out = [sample_case(R3, 2, 'three'),
           sample_case(R3A, 1, 'availability', seed=None),
           sample_case(R2, 3, 'two', seed=0, base=2 ** 25),
           seed_case(1.5), seed_case('a'),
           frame_case([(0, 3), (0, 8), (1, 8), (1, 3)], 2, 2, 'two'),
           frame_case([(0, 3), (0, 8), (0, 1), (1, 8), (2, 3), (2, 8)], 3, 3,
                      'three', witness_paths=3),
           frame_case([(0, 3), (1, 8), (0, 8), (1, 3)], 2, 2, 'interleaved'),
           frame_case([(0, 3), (0, 8), (1, 8), (1, 3)], 2, 2, 'unknown',
                      missing=True),
           reject_frame('no-obs-column', obs='zzz'),
           reject_frame('existing-boot-column', boot='x'),
           array_case(3, 2), array_case(1, 3)]
    if tier == 'thorough':
        out += [sample_case(R4, 2, 'four', budget=600),
                sample_case(R3A, 3, 'availability-three', budget=600)]
    return out
