"""Long -> wide conversion and the round trip."""
from .common import *
from .C01 import distinct, srt

FUNCTIONS = ['choice_tools.convert_long_to_wide',
             'choice_tools.check_dataframe_for_duplicate_records',
             'choice_tools.ensure_num_chosen_alts_equals_num_obs',
             'choice_tools.create_long_form_mappings',
             'choice_tools.convert_wide_to_long (round trip)']
BOUNDS = ('4-6 long rows, 2-3 alternatives; covariates arbitrary reals; '
          'observation ids symbolic (every grouping and order of the rows, '
          'interleaved included), choices symbolic 0/1')
ASSUMPTIONS = ['every observation records exactly one choice and the '
               'individual-specific columns are constant within an '
               'observation (the converter documents a check of the total '
               'only)']
O = OrderedDict
NAN = float('nan')


def case(tag, obs, alts_, ch, alt_vars=('c',), subset=None, ind=('inc',),
         null=None, names=None, **kw):
    """obs: list of ids or ('sym', lo, hi); ch: list, or 'sym'."""
    n = len(alts_)
    subset = O(subset or ())
    alts = sorted(set(alts_))

    def inputs(W):
        d = O()
        d['id'] = [W.int('id%d' % i, obs[1], obs[2]) for i in range(n)] \
            if obs[0] == 'sym' else list(obs)
        d['alt'] = list(alts_)
        d['ch'] = [W.int('y%d' % i, 0, 1) for i in range(n)] if ch == 'sym' \
            else list(ch)
        # individual variables: constant within an observation
        groups = []
        for i in range(n):
            k = [g for g in groups if bool(d['id'][g] == d['id'][i])]
            groups.append(i) if not k else None
            d.setdefault('_g', []).append(k[0] if k else i)
        g = d.pop('_g')
        for v in ind:
            vals = W.reals(v, n)
            d[v] = [vals[k] for k in g]
        for v in list(alt_vars) + list(subset):
            d[v] = W.reals(v, n)
        # exactly one choice per observation
        ys = {}
        for i in range(n):
            ys.setdefault(g[i], []).append(d['ch'][i])
        for q in ys.values():
            W.assume(sum(q) == 1)
        return d

    def run(W, I):
        df = W.df(I)
        k = {}
        if null is not None:
            k['null_value'] = null
        if names is not None:
            k['alt_name_dict'] = dict(names)
        r = W.pl.convert_long_to_wide(
            df, list(ind), list(alt_vars),
            O((a, list(b)) for a, b in subset.items()), 'id', 'alt', 'ch',
            **k)
        return dict(wide=r)

    def expect(W, I, out):
        ids = distinct(I['id'])
        rows = dict((k, []) for k in range(len(ids)))
        for i in range(n):
            k = [j for j, v in enumerate(ids) if bool(v == I['id'][i])][0]
            if any(alts_[q] == alts_[i] for q in rows[k]):
                return {'!': Raises('ValueError')}
            rows[k].append(i)
        cols = O()
        cols['id'] = ids
        cols['ch'] = []
        for k in range(len(ids)):
            cols['ch'].append([alts_[q] for q in rows[k]
                               if bool(I['ch'][q] == 1)][0])
        nm = (lambda a: names[a]) if names else str
        for a in alts:
            cols['availability_%s' % nm(a)] = [
                int(any(alts_[q] == a for q in rows[k]))
                for k in range(len(ids))]
        for v in ind:
            cols[v] = [I[v][rows[k][0]] for k in range(len(ids))]
        for v in list(alt_vars) + list(subset):
            for a in alts:
                if v in subset and a not in subset[v]:
                    continue
                cols['%s_%s' % (v, nm(a))] = [
                    ([I[v][q] for q in rows[k] if alts_[q] == a] +
                     [NAN if null is None else null])[0]
                    for k in range(len(ids))]
        f = O()
        for c, v in cols.items():
            o = np.empty(len(v), dtype=object)
            o[:] = v
            f[c] = o
        return dict(wide=pd.DataFrame(f, columns=list(f)))
    return Case(tag, inputs, run, expect, points=1, witness_paths=12,
                budget=250, bounds='%d long rows, alternatives %s, '
                'observation ids %s' % (n, alts_, obs), **kw)


def round_trip(tag, rows, n_alt_vars=True):
    L = Layout(rows, {}, cols=('c', 't'))
    alts = L.alts

    def inputs(W):
        d = O()
        d['id'] = [r[0] for r in rows]
        d['alt'] = [r[1] for r in rows]
        d['ch'] = [W.int('y%d' % i, 0, 1) for i in range(len(rows))]
        for o in L.obs:
            s = 0
            for i, r in enumerate(rows):
                if r[0] == o:
                    s = s + d['ch'][i]
            W.assume(s == 1)
        inc = dict((o, W.real('inc%d' % o)) for o in L.obs)
        d['inc'] = [inc[r[0]] for r in rows]
        d['c'] = W.reals('c', len(rows))
        d['t'] = W.reals('t', len(rows))
        # every alternative is chosen by somebody
        for a in alts:
            s = 0
            for i, r in enumerate(rows):
                if r[1] == a:
                    s = s + d['ch'][i]
            W.assume(s >= 1)
        return d

    def run(W, I):
        wide = W.pl.convert_long_to_wide(
            W.df(I), ['inc'], ['c', 't'], {}, 'id', 'alt', 'ch')
        long = W.pl.convert_wide_to_long(
            wide, ['inc'],
            O([(v, dict((a, '%s_%d' % (v, a)) for a in alts))
               for v in ('c', 't')]),
            O((a, 'availability_%d' % a) for a in reversed(alts)),
            'id', 'ch', 'alt')
        return dict(long=long)

    def expect(W, I, out):
        order = [i for o in L.obs for a in alts for i, r in enumerate(rows)
                 if r == (o, a)]
        f = O()
        for c in ('id', 'alt', 'ch', 'inc', 'c', 't'):
            o = np.empty(len(rows), dtype=object)
            o[:] = [I[c][i] for i in order]
            f[c] = o
        return dict(long=pd.DataFrame(f, columns=list(f)))
    return Case(tag, inputs, run, expect, points=1, witness_paths=8,
                bounds='rows %s' % (rows,))


def cases(tier):
    out = [
        case('contiguous-choices', [8, 8, 5, 5, 5], [11, 2, 2, 5, 11], 'sym',
             ('c', 't'), subset=[('s', [5, 2])], ind=('inc', 'age')),
        case('null-names', [8, 8, 5, 5], [11, 2, 11, 5], 'sym', ('c',),
             null=-99, names={11: 'car', 2: 'bus', 5: 'rail'}),
        case('any-grouping', ('sym', -1, 1), [0, 5, 5, 0], 'sym', ('c',),
             ind=('inc',)),
        case('any-grouping-3alts', ('sym', 1, 2), [11, 2, 5, 2], 'sym', ('c',),
             ind=()),
        case('interleaved', [4, 7, 4, 7, 4], [2, 11, 5, 2, 11], 'sym', ('c',)),
        case('null-subset', [2 ** 40 + 1, 2 ** 40 + 1, 2 ** 40, 2 ** 40], [11, 2, 11, 5], 'sym', ('c',),
             O([('s', [11, 2])]), null=-7.5),
        case('only-subset', [8, 8, 5, 5], [11, 2, 11, 5], 'sym', (),
             subset=[('s', [11, 5])]),
        round_trip('round-trip', [(3, 11), (3, 2), (10, 2), (10, 5), (10, 11),
                                  (1, 5), (1, 11)]),
        round_trip('round-trip-interleaved', [(3, 5), (0, 0), (0, 5),
                                              (3, 0)]),
    ]
    if tier == 'thorough':
        out += [case('any-grouping-5', ('sym', 1, 2), [2, 5, 11, 5, 2], 'sym',
                     ('c', 't')),
                case('any-grouping-4ids', ('sym', 1, 4), [2, 5, 5, 2], 'sym',
                     ('c',), subset=[('s', [5])])]
    return out
