"""Ill-formed data and arguments are rejected, well-formed ones accepted."""
from .common import *

FUNCTIONS = ['choice_tools.ensure_contiguity_in_observation_rows',
             'estimation.ensure_positivity_and_length_of_weights',
             'base_multinomial_cm_v2: ensure_valid_nums_in_specification_cols, '
             'ensure_ref_position_is_valid, '
             'check_length_of_shape_or_intercept_names, the nest_spec checks, '
             'check_param_list_validity, '
             'ensure_all_mixing_vars_are_in_the_name_dict',
             'choice_tools.check_type_and_values_of_specification_dict, '
             'check_keys_and_values_of_name_dictionary',
             'check_length_of_initial_values of all seven estimators',
             'pylogit.create_choice_model, MNDC_Model.__init__',
             'bootstrap_utils, bootstrap_sampler.create_bootstrap_dataframe '
             '(validation)',
             'convert_wide_to_long, convert_long_to_wide, predict, '
             'panel_predict (validation)']
BOUNDS = ('5 rows; row ids, weights, reference positions, vector lengths, '
          'nest members, positions of a bad value are symbolic integers/reals '
          'in windows that straddle the legal range')
ASSUMPTIONS = ['contiguous but descending observation ids are rejected too by '
               'design; no claim is made about them']
O = OrderedDict
BAD = {'!': Raises('ValueError')}


def C(name, inputs, run, ok, **kw):
    """ok(W, I) -> True (accepted) | False (ValueError) | None (no claim) or
    the name of another exception"""
    def expect(W, I, out):
        r = ok(W, I)
        if r is None:
            return {'*': 1}
        if r is True:
            return dict(ok=True)
        return {'!': Raises(*(r if isinstance(r, tuple) else ('ValueError',)))}

    def go(W, I):
        run(W, I)
        return dict(ok=True)
    kw.setdefault('budget', 150)
    return Case(name, inputs, go, expect, points=1, witness_paths=16, **kw)


def tiny(kind, **mk):
    """model on LX with one covariate of concrete values"""
    if kind == 'nested':
        mk.setdefault('nest_spec', O([('A', [11, 2]), ('B', [5])]))
    L = Layout(LX.rows, {3: 2, 10: 5}, conc={'x': [1, -1, 2, .5, 3]})
    if kind == 'mixed':
        L.mix = {3: 1, 10: 2}
        mk.setdefault('mixing_vars', ['B_x'])
    return Model(kind, L, **mk)


def fit(W, mod, kind, init, **kw):
    kw.setdefault('just_point', True)
    kw.setdefault('print_res', False)
    if kind == 'mixed':
        kw.setdefault('num_draws', 2)
    return mod.fit_mle(init, **kw)


def contiguity(kind):
    m = tiny(kind)

    def inputs(W):
        d = m.layout.data(W)
        d['obs'] = [2] + [W.int('o%d' % i, 1, 4) for i in range(3)] + [3]
        d['alt'] = [11, 2, 5, 2, 11]
        return d

    def run(W, I):
        mod = m.build(W, I)
        ce = W.mod('construct_estimator')
        if kind == 'mixed':
            mod.design_3d = None
        ce.create_estimation_obj(mod, W.arr([0.1] * m.nparam()))

    def ok(W, I):
        o = I['obs']
        up = all([bool(o[i] <= o[i + 1]) for i in range(4)])
        if up:
            return True
        # split block?
        for i in range(5):
            for k in range(i + 2, 5):
                if bool(o[i] == o[k]) and not all(
                        [bool(o[i] == o[q]) for q in range(i, k)]):
                    return False
        return None
    return C('contiguity-' + kind, inputs, run, ok)


def contiguity_fn(n):
    def inputs(W):
        return dict(o=[W.int('o%d' % i, 1, 5) for i in range(n)])

    def run(W, I):
        W.mod('choice_tools').ensure_contiguity_in_observation_rows(
            W.ints(I['o']))

    def ok(W, I):
        o = I['o']
        if all([bool(o[i] <= o[i + 1]) for i in range(n - 1)]):
            return True
        for i in range(n):
            for k in range(i + 2, n):
                if bool(o[i] == o[k]) and not all(
                        [bool(o[i] == o[q]) for q in range(i, k)]):
                    return False
        return None
    return C('contiguity-function', inputs, run, ok, budget=240)


def weights(kind):
    m = tiny(kind)

    def inputs(W):
        return dict(w=W.reals('w', 5), d=m.layout.data(W))

    def run(W, I):
        mod = m.build(W, I['d'])
        if kind == 'mixed':
            mod.design_3d = None
        W.mod('construct_estimator').create_estimation_obj(
            mod, W.arr([0.1] * m.nparam()), weights=W.arr(I['w']))

    def ok(W, I):
        return not any([bool(w < 0) for w in I['w']])
    return C('weights-sign-' + kind, inputs, run, ok)


def weight_len():
    m = tiny('mnl')

    def inputs(W):
        return dict(n=W.int('n', 0, 8), kind=W.int('k', 0, 2),
                    d=m.layout.data(W))

    def run(W, I):
        mod = m.build(W, I['d'])
        n = pin(I['n'], 0, 8)
        k = pin(I['kind'], 0, 2)
        w = W.arr([1.0] * n)
        w = w if k == 0 else (w[:, None] if k == 1 else list(w))
        W.mod('construct_estimator').create_estimation_obj(
            mod, W.arr([0.1]), weights=w)

    def ok(W, I):
        return pin(I['n'], 0, 8) == 5 and pin(I['kind'], 0, 2) == 0
    return C('weights-shape', inputs, run, ok)


def pin(v, lo, hi):
    for k in range(lo, hi + 1):
        if bool(v == k):
            return k
    raise AssertionError('outside window')


def bad_number(kind):
    m = tiny(kind, spec=O([('x', 'all_same'), ('z', [5])]),
             names=O([('x', 'bx'), ('z', ['bz'])]),
             **({'mixing_vars': ['bz']} if kind == 'mixed' else {}))

    def inputs(W):
        d = m.layout.data(W)
        d['z'] = [2.0, 1.0, -1.0, 0.5, 3.0]
        return dict(d=d, pos=W.int('pos', -1, 4), col=W.int('col', 0, 2),
                    what=W.int('what', 0, 3))

    def bad(I):
        p, c, w = pin(I['pos'], -1, 4), pin(I['col'], 0, 2), \
            pin(I['what'], 0, 3)
        return p, ('x', 'z', 'unused')[c], (float('nan'), float('inf'),
                                            -float('inf'), 'text')[w]

    def run(W, I):
        p, c, v = bad(I)
        d = O((k, list(x)) for k, x in I['d'].items())
        d['unused'] = [1.0] * 5
        if p >= 0:
            d[c] = list(d[c])
            d[c][p] = v
        cols = O()
        for k, x in d.items():
            if any(isinstance(q, str) for q in x):
                s = pd.Series(np.array(x, dtype=object))
            elif k in ('obs', 'alt', 'choice', 'mix'):
                s = pd.Series(np.array(x, dtype=int))
            else:
                s = pd.Series(np.array(x, dtype=float))
            cols[k] = s
        df = pd.DataFrame(cols)
        W.pl.create_choice_model(
            df, 'alt', 'obs', 'choice', O(m.spec), MODEL[kind],
            names=O(m.names), **m.kwargs())

    def ok(W, I):
        p, c, v = bad(I)
        return p < 0 or c == 'unused'
    return C('bad-number-' + kind, inputs, run, ok)


def init_len(kind, iref):
    m = tiny(kind, intercept_ref=iref, shape_ref=1)
    hi = m.nparam() + 3

    def inputs(W):
        return dict(n=W.int('n', 0, hi), d=m.layout.data(W))

    def run(W, I):
        n = pin(I['n'], 0, hi)
        mod = m.build(W, I['d'])
        W.fix = dict((i, 1) for i in range(n))
        fit(W, mod, kind, W.arr([0.1] * n))

    def ok(W, I):
        return pin(I['n'], 0, hi) == m.nparam()
    return C('init-length-%s-%s' % (kind, iref), inputs, run, ok)


def init_parts(kind):
    """init_shapes / init_intercepts / init_coefs lengths"""
    iref = 1
    m = tiny(kind, intercept_ref=iref, shape_ref=2)

    def inputs(W):
        return dict(a=W.int('a', 1, 4), b=W.int('b', 1, 3),
                    c=W.int('c', 0, 2), d=m.layout.data(W))

    def run(W, I):
        a, b, c = pin(I['a'], 1, 4), pin(I['b'], 1, 3), pin(I['c'], 0, 2)
        mod = m.build(W, I['d'])
        W.fix = dict((i, 1) for i in range(20))
        k = dict(init_intercepts=W.arr([0.2] * b), init_coefs=W.arr([.1] * c))
        if kind != 'clog':
            k['init_shapes'] = W.arr([0.3] * a)
        fit(W, mod, kind, None, **k)

    def ok(W, I):
        a, b, c = pin(I['a'], 1, 4), pin(I['b'], 1, 3), pin(I['c'], 0, 2)
        return (kind == 'clog' or a == m.nshape) and b == 2 and c == 1
    return C('init-parts-' + kind, inputs, run, ok)


def nests(spec_shape, tag):
    L = tiny('mnl').layout
    k = sum(spec_shape)

    def inputs(W):
        return dict(a=[W.int('a%d' % i, 1, 4) for i in range(k)],
                    d=L.data(W))

    def run(W, I):
        d = O(I['d'])
        d['alt'] = [3, 1, 2, 2, 1]
        sp, q = O(), 0
        for i, n in enumerate(spec_shape):
            sp['N%d' % i] = list(I['a'][q:q + n])
            q += n
        W.pl.create_choice_model(
            W.df(d), 'alt', 'obs', 'choice', O([('x', 'all_same')]),
            'Nested Logit', names=O([('x', 'bx')]), nest_spec=sp)

    def ok(W, I):
        if 0 in spec_shape:
            return False
        a = I['a']
        for i in range(k):
            if not any([bool(a[i] == v) for v in (1, 2, 3)]):
                return False
            for j in range(i):
                if bool(a[i] == a[j]):
                    return False
        return k == 3
    return C('nests-' + tag, inputs, run, ok)


def refs(kind, what):
    L = tiny('mnl').layout

    def inputs(W):
        return dict(r=W.int('r', -2, 4), n=W.int('n', 1, 4), d=L.data(W))

    def run(W, I):
        n = pin(I['n'], 1, 4)
        r = pin(I['r'], -2, 4)
        k = {}
        if what == 'intercept':
            k = dict(intercept_ref_pos=r,
                     intercept_names=['i%d' % q for q in range(n)])
            if kind == 'asym':
                k['shape_ref_pos'] = 0
        else:
            k = dict(shape_ref_pos=r, shape_names=['s%d' % q
                                                   for q in range(n)])
        W.pl.create_choice_model(
            W.df(I['d']), 'alt', 'obs', 'choice', O([('x', 'all_same')]),
            MODEL[kind], names=O([('x', 'bx')]), **k)

    def ok(W, I):
        n, r = pin(I['n'], 1, 4), pin(I['r'], -2, 4)
        return 0 <= r <= 2 and n == 2
    return C('ref-%s-%s' % (what, kind), inputs, run, ok)


def param_list(kind, pos):
    """predict(param_list=...) with one array of the wrong length"""
    m = tiny(kind, intercept_ref=None if kind in ('mnl', 'nested') else 0,
             shape_ref=1)
    right = [m.nbeta(), m.nint, m.nshape, m.nnest]

    def inputs(W):
        return dict(n=W.int('n', 0, 5), d=m.layout.data(W))

    def run(W, I):
        n = pin(I['n'], 0, 5)
        mod = m.build(W, I['d'])
        ls = list(right)
        ls[pos] = n
        pl = [W.arr([0.2] * q) if q or i == 0 or i == pos else None
              for i, q in enumerate(ls)]
        mod.predict(W.df(I['d']), param_list=pl)

    def ok(W, I):
        return pin(I['n'], 0, 5) == right[pos]
    return C('param-list-%s-%d' % (kind, pos), inputs, run, ok)


def flag(name, fns):
    """A list of (legal?, thunk) chosen by a symbolic index; illegal ones
    carry the exception names allowed."""
    def inputs(W):
        return dict(k=W.int('k', 0, len(fns) - 1), d=LX2.data(W))

    def run(W, I):
        fns[pin(I['k'], 0, len(fns) - 1)][1](W, I['d'])

    def ok(W, I):
        return fns[pin(I['k'], 0, len(fns) - 1)][0]
    return C(name, inputs, run, ok)


def mk(spec, names, model='MNL', drop=None, **kw):
    def go(W, d):
        d = O(d)
        for c in drop or ():
            d.pop(c)
        W.pl.create_choice_model(W.df(d), 'alt', 'obs', 'choice', spec, model,
                                 names=names, **kw)
    return go


V, TY = ('ValueError',), ('TypeError',)
VT = ('ValueError', 'TypeError')


def specs():
    S = O([('x', 'all_same')])
    N = O([('x', 'bx')])
    out = [
        (True, mk(S, N)), (True, mk(S, None)),
        (True, mk(O([('z', 'all_diff')]), O([('z', ['a', 'b', 'c'])]))),
        (V, mk(O([('z', 'all_diff')]), O([('z', ['a', 'b'])]))),
        (V, mk(O([('z', 'all')]), None)),
        (TY, mk(O([('z', 3)]), None)),
        (V, mk(O([('z', [2, 7])]), None)),
        (V, mk(O([('z', [[2, 7]])]), None)),
        (V, mk(O([('z', [[2, [5]]])]), None)),
        (V, mk(O([('nope', 'all_same')]), None)),
        (TY, mk({'x': 'all_same'}, None)),
        (TY, mk(S, {'x': 'bx'})),
        (V, mk(S, O([('z', 'bx')]))),
        (VT, mk(S, O([('x', ['bx'])]))),
        (V, mk(O([('z', [2, [5, 11]])]), O([('z', ['a'])]))),
        (V, mk(O([('z', [2, [5, 11]])]), O([('z', ['a', 3])]))),
        (True, mk(O([('z', [2, [5, 11]])]), O([('z', ['a', 'b'])]))),
        (V, mk(S, N, 'Logit')), (V, mk(S, N, 'mnl')),
        (V, mk(S, N, drop=['alt'])), (V, mk(S, N, drop=['obs'])),
        (V, mk(S, N, drop=['choice'])), (V, mk(S, N, drop=['x'])),
        (V, mk(S, N, 'Nested Logit')),
        (V, mk(S, N, 'Asym')),
        (V, mk(S, N, 'MNL', intercept_ref_pos=0)),
        (V, mk(S, N, 'Mixed Logit', mixing_vars=['zz'], mixing_id_col='obs')),
        (True, mk(S, N, 'Mixed Logit', mixing_vars=['bx'],
                  mixing_id_col='obs')),
        (V, mk(S, N, 'Mixed Logit', mixing_vars=['bx'], mixing_id_col='obs',
               intercept_ref_pos=1)),
        (TY, mk(S, N, 'Nested Logit', nest_spec={'A': [2, 5, 11]})),
        (TY, mk(S, N, 'Nested Logit', nest_spec=O([('A', (2, 5, 11))]))),
        (TY, mk(S, N, 'Nested Logit', nest_spec=O([(1, [2, 5, 11])]))),
        (V, mk(S, N, 'Nested Logit', nest_spec=O([('A', ['2', 5, 11])]))),
        (True, mk(S, N, 'Nested Logit', nest_spec=O([('A', [2, 5, 11])]))),
        (V, mk(S, N, 'Uneven', intercept_names=['a', 'b'])),
    ]
    return flag('specifications', out)


def ridges():
    m = tiny('mnl')

    def go(r):
        def f(W, d):
            mod = m.build(W, m.layout.data(W))
            W.mod('construct_estimator').create_estimation_obj(
                mod, W.arr([0.1]), ridge=r)
        return f
    return flag('ridge', [(True, go(None)), (True, go(2)), (True, go(0.5)),
                          (TY, go('a')), (TY, go([0.1])),
                          (TY, go((1.0,)))])


def levels(which):
    """the confidence level is accepted exactly when it lies in (0, 100)"""
    def inputs(W):
        return dict(c=W.real('c', box=(-50, 150)))

    def run(W, I):
        a = np.array([[.25, -1.], [.75, 2.], [.5, 0.]])
        bc = W.mod('bootstrap_calcs')
        if which == 'percentile':
            bc.calc_percentile_interval(W.mat(a[:1]), I['c'])
        elif which == 'bca':
            bc.calc_bca_interval(W.mat(a), W.mat(a), W.arr([.6, .5]), I['c'])
        else:
            W.mod('bootstrap_utils').check_conf_percentage_validity(I['c'])

    def ok(W, I):
        return bool(I['c'] > 0) and bool(I['c'] < 100)
    return C('level-' + which, inputs, run, ok)


def lists(kind):
    """malformed param_list arguments of predict"""
    m = tiny(kind, intercept_ref=None if kind in ('mnl', 'nested') else 0,
             shape_ref=1)
    n = [m.nbeta(), m.nint, m.nshape, m.nnest]

    def go(f, **a):
        def g(W, d):
            d = m.layout.data(W)
            mod = m.build(W, d)
            good = [W.arr([0.2] * q) if q else None for q in n]
            mod.predict(W.df(d), param_list=f(W, good), **a)
        return g

    def two(W, g, k=2):
        return [None if v is None else np.repeat(v[:, None], k, axis=1)
                for v in g]

    def put(i, f):
        def g(W, good):
            good = list(good)
            good[i] = f(W, good)
            return good
        return g
    out = [(True, go(lambda W, g: g)),
           (V, go(lambda W, g: tuple(g))), (V, go(lambda W, g: g[:3])),
           (V, go(lambda W, g: g + [None])),
           (TY, go(put(0, lambda W, g: None))),
           (TY, go(put(0, lambda W, g: list(g[0])))),
           (V, go(put(0, lambda W, g: g[0][:, None, None]))),
           (V, go(lambda W, g: g, return_long_probs=False))]
    if kind != 'nested':
        out.append((True, go(two)))
    for i in range(4):
        if n[i] == 0:
            out.append((V, go(put(i, lambda W, g: W.arr([.1])))))
            out.append((V, go(put(i, lambda W, g: W.arr([.1, .2])))))
        elif i:
            out.append((V, go(put(i, lambda W, g, i=i: g[i][:, None]))))
            out.append((V, go(lambda W, g, i=i: [
                x if j != i or x is None else np.concatenate([x, x], axis=1)
                for j, x in enumerate(two(W, g))])))
            out.append((V, go(lambda W, g, i=i: [
                x if j != i or x is None else x[:, :1]
                for j, x in enumerate(two(W, g))])))
        if i:
            out.append((TY, go(put(i, lambda W, g, i=i: (
                [.1] if g[i] is None else list(g[i]))))))
    return flag('param-lists-' + kind, out)


def samples():
    """arrays of replicates and resampled frames"""
    a = np.array([[.25, -1.], [.75, 2.], [.5, 0.]])

    def pct(x):
        return lambda W, d: W.mod('bootstrap_calcs').calc_percentile_interval(
            x, 90)

    def bca(x, y):
        return lambda W, d: W.mod('bootstrap_calcs').calc_bca_interval(
            x, y, np.array([.6, .5]), 90)

    def frame(obs, boot, ids, drop=()):
        def g(W, d):
            s = W.mod('bootstrap_sampler')
            d = O((k, v) for k, v in LX2.data(W).items())
            d['extra'] = [1.0] * len(d['obs'])
            df = W.df(d)
            grp = s.create_deepcopied_groupby_dict(df, 'obs')
            s.create_bootstrap_dataframe(df, obs, np.array(ids), grp, boot)
        return g

    def plist(x):
        def g(W, d):
            mod = tiny('mnl').build(W, tiny('mnl').layout.data(W))
            W.mod('bootstrap').get_param_list_for_prediction(mod, x)
        return g

    def design(df, alt, spec):
        def g(W, d):
            f = W.df(O((k, v) for k, v in LX2.data(W).items()))
            W.mod('choice_tools').create_design_matrix(
                f if df is None else df, spec, alt)
        return g
    S = O([('x', 'all_same')])
    return flag('samples', [
        (True, pct(a)), (V, pct(a[0])), (V, pct(a.tolist())),
        (V, pct(a[None])), (True, bca(a, a)), (V, bca(a[0], a)),
        (V, bca(a, a[:, 0])), (V, bca(a, a[None])), (V, bca(a, a.tolist())),
        (True, frame('obs', 'boot', [3, 10, 3])),
        (V, frame('obs', 'extra', [3, 10, 3])),
        (V, frame('nope', 'boot', [3, 10])),
        (V, frame('obs', 'boot', [3, 11])),
        (True, plist(a[:, :1])), (V, plist(a[:, 0])), (V, plist(a[None])),
        (True, design(None, 'alt', S)), (TY, design('x', 'alt', S)),
        (TY, design(None, 'alt', {'x': 'all_same'})),
        (V, design(None, 'nope', S))])


def conversions():
    """the two data converters on ill-formed frames and arguments"""
    NAN = float('nan')

    def wide(edit=None, ind=('inc',), asv=None, av=None, obs='obs',
             choice='ch'):
        def g(W, d):
            c = O([('obs', [4, 2, 9]), ('ch', [1, 3, 1]),
                   ('inc', [.5, -1., 2.]), ('t1', [1., 2., 3.]),
                   ('t3', [4., .5, 6.]), ('a1', [1, 1, 1]),
                   ('a3', [0, 1, 1])])
            if edit:
                edit(c)
            W.mod('choice_tools').convert_wide_to_long(
                W.df(c), list(ind),
                asv or O([('t', {1: 't1', 3: 't3'})]),
                av or {1: 'a1', 3: 'a3'}, obs, choice, 'alt')
        return g

    def long(edit=None, ind=('inc',), asv=('t',), sub=None, names=None,
             obs='obs', alt='alt', choice='ch'):
        def g(W, d):
            c = O([('obs', [4, 4, 2, 2, 9]), ('alt', [1, 3, 1, 3, 3]),
                   ('ch', [0, 1, 1, 0, 1]), ('inc', [.5, .5, 1., 1., 2.]),
                   ('t', [1., 2., 3., 4., .5])])
            if edit:
                edit(c)
            W.mod('choice_tools').convert_long_to_wide(
                W.df(c), list(ind), list(asv), sub or {}, obs, alt, choice,
                alt_name_dict=names)
        return g

    def put(col, pos, v):
        def e(c):
            c[col][pos] = v
        return e

    def drop(col):
        return lambda c: c.pop(col)
    return flag('conversions', [
        (True, wide()),
        (V, wide(put('obs', 1, 4))), (V, wide(put('obs', 2, 2))),
        (V, wide(put('ch', 0, NAN))), (V, wide(put('ch', 2, NAN))),
        (V, wide(put('ch', 0, 3))), (True, wide(put('ch', 2, 3))),
        (V, wide(put('ch', 2, 5))),
        (V, wide(put('a1', 2, 0))), (V, wide(put('a3', 1, 0))),
        (True, wide(put('a3', 2, 0))),
        (V, wide(drop('inc'))), (V, wide(drop('t3'))), (V, wide(drop('a1'))),
        (V, wide(drop('obs'))), (V, wide(drop('ch'))),
        (V, wide(av={1: 'a1', 3: 'a3', 7: 'a3'})),
        (V, wide(asv=O([('t', {1: 't1', 3: 't3', 7: 't1'})]))),
        (V, wide(asv=O([('u', {1: 'inc'}), ('t', {1: 't1', 3: 'nope'})]))),
        (V, wide(ind=('inc', 'nope'))),
        (True, long()), (True, long(names={1: 'car', 3: 'bus'})),
        (V, long(put('alt', 1, 1))), (V, long(put('alt', 2, 3))),
        (V, long(put('ch', 1, 0))), (V, long(put('ch', 4, 0))),
        (V, long(put('ch', 0, 1))), (V, long(put('ch', 3, 1))),
        (V, long(drop('inc'))), (V, long(drop('t'))), (V, long(drop('obs'))),
        (V, long(drop('alt'))), (V, long(drop('ch'))),
        (V, long(asv=('t', 'nope'))), (V, long(sub={'nope': [1]})),
        (True, long(asv=(), sub={'t': [3]})),
        (TY, long(names=[(1, 'car'), (3, 'bus')])),
        (V, long(names={1: 'car', 3: 'bus', 4: 'air'}))])


def new_data(kind):
    """data frames given to predict and panel_predict"""
    m = tiny(kind)

    def go(drop=(), panel=False, **a):
        def g(W, d):
            d = m.layout.data(W)
            mod = m.build(W, d)
            mod.coefs = pd.Series(W.arr(
                [.25] * (m.nbeta() + (kind == 'mixed'))))
            mod.intercepts = mod.shapes = None
            mod.nests = (pd.Series(W.arr([.5] * m.nnest)) if m.nnest
                         else None)
            f = W.df(O((k, v) for k, v in d.items() if k not in drop))
            if kind == 'mixed':
                a.setdefault('num_draws', 2)
                a.setdefault('seed', 3)
            (mod.panel_predict if panel else mod.predict)(f, **a)
        return g
    out = [(True, go()), (True, go(['choice'])), (V, go(['alt'])),
           (V, go(['obs'])), (V, go(['x'])),
           (V, go(return_long_probs=False)),
           (True, go(return_long_probs=False, choice_col='choice'))]
    if kind == 'mixed':
        out += [(V, go(['mix'])), (True, go(panel=True)),
                (V, go(['mix'], True)), (V, go(['alt'], True)),
                (V, go(['obs'], True)), (V, go(['x'], True)),
                (V, go(panel=True, return_long_probs=False))]
    return flag('new-data-' + kind, out)


def cases(tier):
    out = [contiguity_fn(5 if tier == 'quick' else 6)]
    out += [contiguity(k) for k in ('mnl', 'nested', 'mixed')]
    kinds = ('mnl', 'clog', 'scobit', 'uneven', 'asym', 'nested', 'mixed')
    out += [weights(k) for k in kinds]
    out.append(weight_len())
    out += [bad_number(k) for k in ('mnl', 'nested', 'mixed', 'asym')]
    for k in kinds:
        out.append(init_len(k, None))
        if k in ('clog', 'scobit', 'uneven', 'asym'):
            out.append(init_len(k, 2))
            out.append(init_parts(k))
    out += [nests((2, 1), '2-1'), nests((1, 1, 1), '1-1-1'),
            nests((3, 0), 'empty'), nests((1, 1), 'short')]
    for k in ('clog', 'scobit', 'uneven', 'asym'):
        out.append(refs(k, 'intercept'))
    out.append(refs('asym', 'shape'))
    out += [param_list('mnl', 0), param_list('scobit', 1),
            param_list('uneven', 2), param_list('asym', 2),
            param_list('clog', 1), param_list('nested', 3),
            param_list('nested', 0)]
    out += [specs(), ridges(), samples(), conversions()]
    out += [new_data(k) for k in ('mnl', 'nested', 'mixed')]
    out += [levels(q) for q in ('percentile', 'bca', 'utility')]
    out += [lists(k) for k in ('mnl', 'scobit', 'asym', 'nested')]
    return out
