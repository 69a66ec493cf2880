"""Wide -> long conversion."""
from .common import *
from .C01 import distinct, srt

FUNCTIONS = ['choice_tools.convert_wide_to_long',
             'choice_tools.ensure_unique_obs_ids_in_wide_data',
             'choice_tools.check_wide_data_for_blank_choices',
             'choice_tools.ensure_all_wide_alt_ids_are_chosen',
             'choice_tools.ensure_chosen_alternatives_are_in_user_alt_ids',
             'choice_tools.ensure_each_wide_obs_chose_an_available_alternative']
BOUNDS = ('2-3 wide rows, 2-3 alternatives; covariates arbitrary reals, '
          'observation ids / choices / availability flags symbolic integers '
          'as listed per case; availability and alternative-specific '
          'dictionaries written in several key orders')
ASSUMPTIONS = ['availability flags are 0/1; the converter documents that every '
               'alternative must be chosen at least once (ValueError '
               'otherwise)']
O = OrderedDict


def case(tag, n, av_order, sym, alt_spec, ind=('inc',), name=None, ids=None,
         av=None, choices=None, ints=(), blank=False, extra=(), **kw):
    alts = sorted(av_order)

    def inputs(W):
        d = O()
        d['id'] = [W.int('id%d' % i, -1, 3) for i in range(n)] if 'id' in sym \
            else list(ids or [7, 3, 9][:n])
        d['ch'] = [W.int('ch%d' % i, alts[0], alts[-1]) for i in range(n)] \
            if 'ch' in sym else list(choices)
        for a in alts:
            d['av%d' % a] = [W.int('v%d_%d' % (a, i), 0, 1)
                             for i in range(n)] if 'av' in sym else \
                list(av[a] if av else [1] * n)
        for v in ind:
            d[v] = W.reals(v, n)
        for new, m in alt_spec.items():
            for a, c in m.items():
                if c not in d:
                    d[c] = list(range(3, n + 3)) if c in ints else \
                        W.reals(c + '_', n)
                    if blank:       # no attributes where it is unavailable
                        d[c] = [v if av[a][i] else float('nan')
                                for i, v in enumerate(d[c])]
        for c in extra:
            d[c] = [5 + i for i in range(n)]
        return d

    def run(W, I):
        df = W.df(I)
        r = W.pl.convert_wide_to_long(
            df, list(ind), O((k, dict(v)) for k, v in alt_spec.items()),
            O((a, 'av%d' % a) for a in av_order), 'id', 'ch', name)
        return dict(long=r)

    def expect(W, I, out):
        ch, ids_ = I['ch'], I['id']
        for c in ch:
            if not any(bool(c == a) for a in alts):
                return {'!': Raises('ValueError')}
        for a in alts:
            if not any([bool(c == a) for c in ch]):
                return {'!': Raises('ValueError')}
        for i in range(n):
            for k in range(i):
                if bool(ids_[i] == ids_[k]):
                    return {'!': Raises('ValueError')}
        rows = []
        for i in range(n):
            for a in alts:
                ok = bool(I['av%d' % a][i] == 1)
                mine = bool(ch[i] == a)
                if mine and not ok:
                    return {'!': Raises('ValueError')}
                if not ok:
                    continue
                r = [ids_[i], a, 1 if mine else 0]
                r += [I[v][i] for v in ind]
                for new, m in alt_spec.items():
                    r.append(I[m[a]][i] if a in m else 0)
                rows.append(r)
        names = ['id', name or 'alt_id', 'ch'] + list(ind) + list(alt_spec)
        cols = O()
        for k, c in enumerate(names):
            o = np.empty(len(rows), dtype=object)
            o[:] = [r[k] for r in rows]
            cols[c] = o
        return dict(long=pd.DataFrame(cols, columns=names))
    return Case(tag, inputs, run, expect, points=1, witness_paths=12,
                budget=250, bounds='%d wide rows, alternatives %s written in '
                'order %s, symbolic %s' % (n, alts, av_order,
                                           '/'.join(sym) or 'values only'),
                **kw)


def cases(tier):
    A = O([('cost', {2: 'c2', 5: 'c5'}), ('time', {5: 't5'})])
    B = O([('cost', {11: 'c9', 2: 'c2', 5: 'c5'}), ('time', {5: 't5', 11: 't9'})])
    out = [
        case('flags-sorted', 2, [2, 5], ('av', 'ch'), A),
        case('flags-unsorted', 2, [5, 2], ('av', 'ch'), A),
        case('ids', 3, [2, 5], ('id', 'ch'), A, name='mode',
             av={2: [1, 1, 1], 5: [1, 0, 1]}),
        case('zero-alt', 2, [3, 0], ('av', 'ch'),
             O([('cost', {0: 'c0', 3: 'c3'})]), ids=[0, -4]),
        case('three-sorted', 3, [2, 5, 11], ('ch',), B, ind=('inc', 'age'),
             av={2: [1, 1, 1], 5: [1, 0, 1], 11: [0, 1, 1]}),
        case('three-unsorted', 3, [11, 2, 5], ('ch',), B, ind=(),
             av={2: [1, 1, 1], 5: [1, 0, 1], 11: [0, 1, 1]}),
        case('three-flags', 3, [5, 11, 2], ('av',), B, choices=[11, 5, 2],
             ids=[2 ** 40 + 1, 2 ** 40, 9]),
        case('integer-column', 3, [2, 5, 11], (), B, choices=[11, 5, 2],
             ints=('c2', 't5')),
        case('blank-attributes', 3, [5, 2, 11], ('ch',), B, blank=True,
             av={2: [1, 1, 1], 5: [1, 0, 1], 11: [0, 1, 1]}),
        case('unused-column', 2, [5, 2], ('ch',), A, name='mode',
             extra=('mode', 'alt_id')),
        case('no-alt-specific', 2, [5, 2], ('av',), O(), choices=[5, 2]),
    ]
    if tier == 'thorough':
        out += [case('three-flags-sorted', 3, [2, 5, 11], ('av',), B,
                     choices=[11, 5, 2]),
                case('four-rows', 4, [5, 2], ('av', 'ch'), A,
                     ids=[7, 3, 9, 1]),
                case('ids-flags', 2, [5, 2], ('id', 'ch', 'av'), A)]
    return out
