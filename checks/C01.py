"""Row -> observation / alternative / chosen / nest / mixer mappings."""
from .common import *

FUNCTIONS = ['choice_tools.create_long_form_mappings',
             'choice_tools.create_sparse_mapping',
             'choice_tools.create_row_to_some_id_col_mapping',
             'choice_tools.get_original_order_unique_ids',
             'base_multinomial_cm_v2.MNDC_Model.get_mappings_for_fit',
             'base_multinomial_cm_v2.MNDC_Model.__init__']
BOUNDS = ('4 rows (thorough: 5) whose observation, alternative and mixing ids '
          'are arbitrary integers in a window of 4-5 values (so every pattern '
          'of repeats and orders; windows around 10, 0 and 2**40); choice indicators 0/1 symbolic; nests over '
          '3-4 alternatives in every assignment order listed')
ASSUMPTIONS = ['mappings are compared as dense matrices']


NAMES = ('rows_to_obs', 'rows_to_alts', 'chosen_row_to_obs', 'rows_to_nests',
         'rows_to_mixers')


def distinct(ids):
    out = []
    for v in ids:
        if not any(bool(v == u) for u in out):
            out.append(v)
    return out


def srt(vals):
    out = []
    for v in vals:
        k = 0
        while k < len(out) and bool(out[k] < v):
            k += 1
        out.insert(k, v)
    return out


def onehot(ids, labels):
    return obj([[1 if bool(i == l) else 0 for l in labels] for i in ids])


def dense(x):
    return x if isinstance(x, np.ndarray) else np.asarray(x.toarray())


def mapping_case(n, span, which, flag, base=8):
    def inputs(W):
        ids = lambda c: [W.int('%s%d' % (c, i), base, base + span - 1)
                         for i in range(n)]
        o = ids('o') if 'obs' in which else [12, 12, 5, 5, 5][:n]
        a = ids('a') if 'alt' in which else [4, 12, 12, 7, 4][:n]
        m = ids('m') if 'mix' in which else [16, 16, 3, 3, 3][:n]
        y = [W.int('y%d' % i, 0, 1) for i in range(n)]
        return dict(o=o, a=a, m=m, y=y)

    def run(W, I):
        df = W.df(OrderedDict([('obs', I['o']), ('alt', I['a']),
                               ('mix', I['m']), ('choice', I['y'])]))
        ct = W.mod('choice_tools')
        r = ct.create_long_form_mappings(df, 'obs', 'alt',
                                         choice_col='choice',
                                         mix_id_col='mix', dense=flag)
        return dict((k, dense(r[k])) for k in NAMES if r[k] is not None)

    def expect(W, I, out):
        ob = onehot(I['o'], distinct(I['o']))
        ch = ob.copy()
        for i in range(n):
            for j in range(ob.shape[1]):
                ch[i, j] = ob[i, j] * I['y'][i]
        return dict(rows_to_obs=ob,
                    rows_to_alts=onehot(I['a'], srt(distinct(I['a']))),
                    chosen_row_to_obs=ch,
                    rows_to_mixers=onehot(I['m'], distinct(I['m'])))
    return Case('mappings-%s-%s' % ('-'.join(which),
                                    'dense' if flag else 'sparse'),
                inputs, run, expect, points=1, witness_paths=12, budget=200,
                bounds='%d rows, ids in %d..%d' % (n, base, base + span - 1))


def single_case(n, span, fn, given, base=0, half=False):
    """create_sparse_mapping with / without explicit ids (ids not listed get a
    zero row) and the dense variant."""
    def inputs(W):
        I = dict(ids=[W.int('i%d' % i, base, base + span - 1)
                      for i in range(n)])
        I['u'] = [base + 3, base + 1] if given else None
        if half:
            # identifiers that are not whole numbers
            I['ids'] = [v * 0.5 for v in I['ids']]
            I['u'] = [v * 0.5 for v in I['u']] if given else None
        return I

    def run(W, I):
        ct = W.mod('choice_tools')
        ids = (W.arr if half else W.ints)(I['ids'])
        if fn == 'order':
            return dict(u=ct.get_original_order_unique_ids(ids))
        if fn == 'dense':
            return dict(m=ct.create_row_to_some_id_col_mapping(ids))
        if given:
            return dict(m=dense(ct.create_sparse_mapping(
                ids, unique_ids=np.array(I['u']))))
        return dict(m=dense(ct.create_sparse_mapping(ids)))

    def expect(W, I, out):
        if fn == 'order':
            return dict(u=obj(distinct(I['ids'])))
        u = I['u'] or distinct(I['ids'])
        if half:
            u = [T.lift(v) for v in u]
        return dict(m=onehot([T.lift(v) for v in I['ids']] if half else
                             I['ids'], u))
    return Case('%s%s%s' % (fn, '-given' if given else '',
                            '-halves' if half else '-large' if base else ''),
                inputs, run, expect,
                points=1, witness_paths=12,
                bounds='%d rows, ids in %d..%d' % (n, base, base + span - 1))


def label_case():
    """Individuals and observations named by strings."""
    o = ['t2', 't2', 't10', 't10', 't1', 't1']
    m = ['bo', 'bo', 'al', 'al', 'bo', 'bo']
    a = [4, 12, 12, 7, 4, 7]

    def inputs(W):
        return dict(y=[W.int('y%d' % i, 0, 1) for i in range(6)])

    def run(W, I):
        df = W.df(OrderedDict([('obs', o), ('alt', a), ('mix', m),
                               ('choice', I['y'])]))
        r = W.mod('choice_tools').create_long_form_mappings(
            df, 'obs', 'alt', choice_col='choice', mix_id_col='mix')
        return dict((k, dense(r[k])) for k in NAMES if r[k] is not None)

    def expect(W, I, out):
        ob = onehot(o, distinct(o))
        ch = ob.copy()
        for i in range(6):
            for j in range(ob.shape[1]):
                ch[i, j] = ob[i, j] * I['y'][i]
        return dict(rows_to_obs=ob, rows_to_alts=onehot(a, [4, 7, 12]),
                    chosen_row_to_obs=ch,
                    rows_to_mixers=onehot(m, distinct(m)))
    return Case('labels', inputs, run, expect, points=1, witness_paths=12,
                bounds='6 rows, string identifiers, symbolic choices')


def nest_case(n, spec, tag):
    alts = sorted(sum(spec.values(), []))

    def inputs(W):
        return dict(a=[W.int('a%d' % i, min(alts), max(alts))
                       for i in range(n)],
                    o=[1, 1, 2, 2, 2][:n])

    def run(W, I):
        for v in I['a']:
            W.assume(anyof(W, v, alts))
        df = W.df(OrderedDict([('obs', I['o']), ('alt', I['a'])]))
        ct = W.mod('choice_tools')
        r = ct.create_long_form_mappings(df, 'obs', 'alt',
                                         nest_spec=OrderedDict(spec))
        return dict(nests=dense(r['rows_to_nests']),
                    obs=dense(r['rows_to_obs']),
                    alts=dense(r['rows_to_alts']),
                    chosen_none=r['chosen_row_to_obs'] is None)

    def expect(W, I, out):
        M = [[1 if any(bool(v == q) for q in g) else 0
              for g in spec.values()] for v in I['a']]
        return dict(nests=obj(M), obs=onehot(I['o'], distinct(I['o'])),
                    alts=onehot(I['a'], srt(distinct(I['a']))),
                    chosen_none=True)
    return Case('nests-' + tag, inputs, run, expect, points=1,
                witness_paths=10, budget=200,
                bounds='%d rows, nests %s' % (n, dict(spec)))


def anyof(W, v, alts):
    if W.symbolic:
        return T.or_(*[T.cmp_('==', T.lift(v), T.const(a)) for a in alts])
    return v in alts


def model_case(kind):
    """The mappings a built model uses."""
    nest = OrderedDict([('N2', [11]), ('N1', [5, 2])]) if kind == 'nested' \
        else None
    L = LX if kind != 'mixed' else Layout(LX.rows, LX.chosen,
                                          mix={3: 44, 10: 7})
    m = Model(kind, L, nest_spec=nest,
              mixing_vars=['B_x'] if kind == 'mixed' else None)

    def inputs(W):
        d = L.data(W)
        d['choice'] = [W.int('y%d' % i, 0, 1) for i in range(5)]
        return d

    def run(W, I):
        mod = m.build(W, I)
        r = mod.get_mappings_for_fit()
        out = dict((k, dense(r[k])) for k in NAMES if r.get(k) is not None)
        out['choices'] = np.asarray(mod.choices)
        return out

    def expect(W, I, out):
        obs = [r[0] for r in L.rows]
        ob = onehot(obs, [3, 10])
        ch = ob.copy()
        for i in range(5):
            for j in range(2):
                ch[i, j] = ob[i, j] * I['choice'][i]
        e = dict(rows_to_obs=ob, chosen_row_to_obs=ch,
                 rows_to_alts=onehot([r[1] for r in L.rows], [2, 5, 11]),
                 choices=obj(I['choice']))
        if nest:
            e['rows_to_nests'] = obj([[1, 0], [0, 1], [0, 1], [0, 1], [0, 1]])
        if kind == 'mixed':
            e['rows_to_mixers'] = onehot([44, 44, 44, 7, 7], [44, 7])
        return e
    return Case('model-' + kind, inputs, run, expect, points=1)


def cases(tier):
    n = 4 if tier == 'quick' else 5
    out = []
    for flag in (False, True):
        for which in (('obs',), ('alt',), ('mix',)):
            out.append(mapping_case(n, 4, which, flag))
    out.append(mapping_case(3, 3, ('obs', 'alt'), False, -1))
    out.append(mapping_case(3, 3, ('alt', 'mix'), True, 0))
    for fn, given in (('order', False), ('dense', False), ('sparse', False),
                      ('sparse', True)):
        out.append(single_case(n, 4, fn, given))
        out.append(single_case(3, 4, fn, given, base=2 ** 40))
        out.append(single_case(3, 4, fn, given, base=5, half=True))
    out.append(label_case())
    S = OrderedDict
    out.append(nest_case(n, S([('B', [3, 1]), ('A', [2, 4])]), '2x2'))
    out.append(nest_case(3, S([('z', [4]), ('y', [2, 7, 5]), ('x', [6])]),
                         '1-3-1'))
    for k in ('mnl', 'clog', 'scobit', 'uneven', 'asym', 'nested', 'mixed'):
        out.append(model_case(k))
    return out
