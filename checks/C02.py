"""Design matrix columns and their names."""
from .common import *
from .C01 import distinct, srt

FUNCTIONS = ['choice_tools.create_design_matrix',
             'choice_tools.check_type_and_values_of_specification_dict',
             'choice_tools.check_keys_and_values_of_name_dictionary',
             'MNDC_Model.__init__ (design, ind_var_names)',
             'MNDC_Model intercept column handling',
             'choice_tools.convert_mixing_names_to_positions']
BOUNDS = ('3-5 rows; symbolic cases: alternative ids arbitrary integers in '
          '1..4, -1..1 or 8..11 and arbitrary real covariates; naming cases: the listed '
          'concrete alternative ids with arbitrary real covariates')
ASSUMPTIONS = []

O = OrderedDict


def sym_case(n, spec, tag, lo=1, hi=4):
    """Alternative ids symbolic: the id pattern decides which rows a column
    covers and whether the specification is legal."""
    def inputs(W):
        return dict(a=[W.int('a%d' % i, lo, hi) for i in range(n)],
                    x=W.reals('x', n), z=W.reals('z', n))

    def run(W, I):
        df = W.df(O([('alt', I['a']), ('x', I['x']), ('z', I['z'])]))
        M, names = W.mod('choice_tools').create_design_matrix(
            df, O((k, [list(g) if isinstance(g, list) else g for g in v]
                   if isinstance(v, list) else v) for k, v in spec.items()),
            'alt')
        return dict(design=np.asarray(M), n=len(names))

    def expect(W, I, out):
        alts = srt(distinct(I['a']))
        colsx = []
        for var, s in spec.items():
            v = I[var]
            if s == 'all_same':
                colsx.append(list(v))
                continue
            groups = [[a] for a in alts] if s == 'all_diff' else [
                g if isinstance(g, list) else [g] for g in s]
            for g in groups:
                for q in g:
                    if not any(bool(q == a) for a in alts):
                        return {'!': Raises('ValueError')}
                colsx.append([v[i] if any(bool(I['a'][i] == q) for q in g)
                              else 0 for i in range(n)])
        M = np.empty((n, len(colsx)), dtype=object)
        for k, c in enumerate(colsx):
            M[:, k] = c
        return dict(design=M, n=len(colsx))
    return Case('symbolic-' + tag, inputs, run, expect, points=1,
                witness_paths=10, budget=200,
                bounds='%d rows, spec %s' % (n, dict(spec)))


def name_case(kind, layout, spec, names, expected_names, tag, **mk):
    m = Model(kind, layout, spec, names or O(), **mk)

    def inputs(W):
        return layout.data(W)

    def run(W, I):
        df = W.df(I)
        mod = W.pl.create_choice_model(
            df, 'alt', 'obs', 'choice', O(spec), MODEL[kind],
            names=None if names is None else O(names), **m.kwargs())
        M, nm = W.mod('choice_tools').create_design_matrix(
            df, O(spec), 'alt', names=None if names is None else O(names))
        return dict(design=np.asarray(mod.design),
                    names=list(mod.ind_var_names),
                    design2=np.asarray(M), names2=list(nm))

    def expect(W, I, out):
        X = m.columns(I)
        M = np.empty((len(layout.rows), len(X)), dtype=object)
        for k, c in enumerate(X):
            M[:, k] = c
        return dict(design=M, names=expected_names, design2=M,
                    names2=expected_names)
    return Case('names-%s-%s' % (kind, tag), inputs, run, expect, points=1)


def intercept_case(kind):
    """A specification with 'intercept': a constant when absent."""
    spec = O([('intercept', [5, 11]), ('x', 'all_same')])
    names = O([('intercept', ['ASC5', 'ASC9']), ('x', 'bx')])

    kw = dict(shape_ref_pos=1) if kind == 'asym' else {}

    def run(W, I):
        df = W.df(I)
        mod = W.pl.create_choice_model(df, 'alt', 'obs', 'choice', O(spec),
                                       MODEL[kind], names=O(names), **kw)
        return dict(design=np.asarray(mod.design),
                    names=list(mod.ind_var_names))

    def expect(W, I, out):
        M = np.empty((5, 3), dtype=object)
        for i, (o, a) in enumerate(LX.rows):
            M[i] = [int(a == 5), int(a == 11), I['x'][i]]
        return dict(design=M, names=['ASC5', 'ASC9', 'bx'])
    return Case('intercept-' + kind, lambda W: LX.data(W), run, expect,
                points=1)


def mixing_case():
    def inputs(W):
        return {}

    def run(W, I):
        f = W.mod('choice_tools').convert_mixing_names_to_positions
        return dict(p=f(['c', 'a'], ['a', 'b', 'c']))

    def expect(W, I, out):
        return dict(p=[2, 0])
    return Case('mixing-positions', inputs, run, expect, points=1)


def cases(tier):
    n = 3 if tier == 'quick' else 4
    out = [sym_case(n, O([('x', 'all_diff'), ('z', 'all_same')]), 'diff-same',
                    8, 11),
           sym_case(n, O([('z', [[3, 1], 2])]), 'groups'),
           sym_case(3, O([('z', [0, [1, -1]]), ('x', 'all_diff')]), 'zero-id',
                    -1, 1),
           sym_case(n, O([('x', [2]), ('z', [4, [1, 2]])]), 'two-lists'),
           sym_case(n, O([('z', 'all_same'), ('x', [[1], [2, 3]])]),
                    'overlap')]
    A = O([('x', 'all_diff'), ('z', [[11, 2], 5, [2]])])
    An = ['x_2', 'x_5', 'x_11', 'z_[11, 2]', 'z_5', 'z_[2]']
    for kind in ('mnl', 'clog', 'scobit', 'uneven', 'asym', 'nested'):
        mk = {}
        if kind == 'nested':
            mk['nest_spec'] = O([('N1', [2, 11]), ('N2', [5])])
        out.append(name_case(kind, LX2, A, None, An, 'default', **mk))
        out.append(name_case(
            kind, LX2, O([('z', [11, [5, 2]]), ('x', 'all_same')]),
            O([('z', ['zz9', 'zz52']), ('x', 'xx')]),
            ['zz9', 'zz52', 'xx'], 'given', **mk))
    out.append(name_case('mnl', LX2, O([('z', 'all_same'), ('x', 'all_diff')]),
                         O([('z', 'Z'), ('x', ['q', 'r', 's'])]),
                         ['Z', 'q', 'r', 's'], 'given-diff'))
    out.append(name_case('mnl', LX2,
                         O([('z', [11, [5, 2]]), ('x', 'all_same')]),
                         O([('x', 'xx'), ('z', ['zz9', 'zz52'])]),
                         ['zz9', 'zz52', 'xx'], 'given-other-order'))
    L = Layout(LX2.rows, LX2.chosen, LX2.cols, mix={3: 1, 10: 2},
               conc=LX2.conc)
    out.append(name_case('mixed', L, O([('z', 'all_same'), ('x', [11])]),
                         O([('x', ['X9']), ('z', 'Z')]),
                         ['Z', 'X9'], 'given-other-order',
                         mixing_vars=['Z']))
    out.append(name_case('mixed', L, O([('z', 'all_same'), ('x', [11])]),
                         O([('z', 'Z'), ('x', ['X9'])]),
                         ['Z', 'X9'], 'given',
                         mixing_vars=['Z']))
    for kind in ('mnl', 'clog', 'scobit', 'uneven', 'asym'):
        out.append(intercept_case(kind))
    LI = Layout(LX2.rows, LX2.chosen, LX2.cols, conc={'z': [1, -1, 2, 0, 3]})
    out.append(name_case('mnl', LI, O([('z', [11, [5, 2]]),
                                       ('x', 'all_same')]),
                         O([('z', ['z11', 'z52']), ('x', 'b')]),
                         ['z11', 'z52', 'b'], 'integer-column'))
    out.append(mixing_case())
    return out
