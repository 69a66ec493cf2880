"""Shared scenarios and oracles (written from the papers / documentation, not
from the code): data layouts, model construction, choice probabilities."""
from collections import OrderedDict

import numpy as np
import pandas as pd

from symex import term as T
from symex.case import Case, Pred, Raises, Skip

MODEL = {'mnl': 'MNL', 'clog': 'Cloglog', 'scobit': 'Scobit',
         'uneven': 'Uneven', 'asym': 'Asym', 'nested': 'Nested Logit',
         'mixed': 'Mixed Logit'}


class Layout(object):
    """Long-format data: rows = [(obs id, alt id)], chosen = {obs: alt}."""

    def __init__(self, rows, chosen, cols=('x',), mix=None, sym_choice=False,
                 conc=None):
        self.rows = rows
        self.chosen = chosen
        self.cols = cols
        self.mix = mix              # {obs: mixing id}
        self.sym_choice = sym_choice
        self.conc = conc or {}
        self.obs = []
        for o, a in rows:
            if o not in self.obs:
                self.obs.append(o)
        self.alts = sorted(set(a for o, a in rows))

    def integer(self, c):
        return all(isinstance(v, int) for v in self.conc[c])

    def data(self, W, pre='', choice=True):
        d = OrderedDict()
        d['obs'] = [o for o, a in self.rows]
        d['alt'] = [a for o, a in self.rows]
        for c in self.cols:
            if c in self.conc:
                d[c] = list(self.conc[c])
                if W.symbolic and self.integer(c):
                    # an integer column in the real package; a column of
                    # numbers that mixes with symbols in the encoding
                    d[c] = [T.const(v) for v in d[c]]
            else:
                d[c] = W.reals('%s%s_' % (pre, c), len(self.rows))
        if choice:
            if self.sym_choice:
                y = W.reals(pre + 'y', len(self.rows), box=(0, 1))
                ys = list(y)
                for o in self.obs:
                    idx = [i for i, r in enumerate(self.rows) if r[0] == o]
                    s = 1
                    for i in idx[:-1]:
                        s = s - ys[i]
                    ys[idx[-1]] = s
                d['choice'] = ys
            else:
                d['choice'] = [int(self.chosen[o] == a) for o, a in self.rows]
        if self.mix is not None:
            d['mix'] = [self.mix[o] for o, a in self.rows]
        return d


# ids are neither consecutive nor sorted inside an observation
LX = Layout([(3, 11), (3, 2), (3, 5), (10, 5), (10, 2)], {3: 2, 10: 5})
LX2 = Layout([(3, 11), (3, 2), (3, 5), (10, 5), (10, 2)], {3: 11, 10: 2},
             cols=('x', 'z'), conc={'z': [1, -1, 2, 0.5, 3]})
L4 = Layout([(3, 11), (3, 2), (3, 5), (3, 7), (10, 7), (10, 2)],
            {3: 7, 10: 2})
# every column of the data is of an integer type
LXI = Layout(LX.rows, LX.chosen, conc={'x': [2, -1, 3, 1, -2]})
LS = Layout([(4, 7), (4, 3)], {4: 3})
LS2 = Layout([(4, 3), (4, 7), (6, 7), (6, 3)], {4: 3, 6: 7})
L22 = Layout([(1, 1), (1, 2), (2, 1), (2, 2)], {1: 2, 2: 1})
L32 = Layout([(1, 1), (1, 2), (1, 3), (2, 1), (2, 3)], {1: 2, 2: 3})
L33 = Layout([(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3)],
             {1: 2, 2: 3})


def spec_same(cols):
    return (OrderedDict((c, 'all_same') for c in cols),
            OrderedDict((c, 'B_' + c) for c in cols))


class Model(object):
    """A model built by the package on a layout, with a parameter vector laid
    out as documented: [nests|shapes, intercepts, index coefficients]."""

    def __init__(self, kind, layout, spec=None, names=None, intercept_ref=None,
                 shape_ref=0, nest_spec=None, mixing_vars=None, xcols=None):
        self.kind = kind
        self.layout = layout
        if spec is None:
            spec, names = spec_same(layout.cols)
        self.spec, self.names = spec, names
        self.iref = intercept_ref
        self.sref = shape_ref if kind == 'asym' else None
        self.nest_spec = nest_spec
        self.mixing_vars = mixing_vars
        J = len(layout.alts)
        self.J = J
        self.nshape = {'scobit': J, 'uneven': J, 'asym': J - 1}.get(kind, 0)
        self.nint = J - 1 if intercept_ref is not None else 0
        self.nnest = len(nest_spec) if nest_spec else 0

    def kwargs(self):
        kw = {}
        L = self.layout
        if self.iref is not None:
            kw['intercept_ref_pos'] = self.iref
            kw['intercept_names'] = ['ASC_%d' % a for i, a in
                                     enumerate(L.alts) if i != self.iref]
        if self.kind == 'asym':
            kw['shape_ref_pos'] = self.sref
            kw['shape_names'] = ['sh_%d' % a for i, a in enumerate(L.alts)
                                 if i != self.sref]
        elif self.nshape:
            kw['shape_names'] = ['sh_%d' % a for a in L.alts]
        if self.nest_spec:
            kw['nest_spec'] = OrderedDict(self.nest_spec)
        if self.mixing_vars:
            kw['mixing_vars'] = list(self.mixing_vars)
            kw['mixing_id_col'] = 'mix'
        return kw

    def build(self, W, cols, drop=()):
        df = W.df(cols)
        spec = OrderedDict((k, (list(v) if isinstance(v, list) else v))
                           for k, v in self.spec.items())
        names = OrderedDict((k, (list(v) if isinstance(v, list) else v))
                            for k, v in self.names.items())
        return W.pl.create_choice_model(
            df, 'alt', 'obs', 'choice', spec, MODEL[self.kind], names=names,
            **self.kwargs())

    # ---- oracle -----------------------------------------------------------
    def columns(self, cols):
        """Rows of the design matrix implied by the specification."""
        n = len(self.layout.rows)
        out = []
        for var, s in self.spec.items():
            v = cols[var] if var in cols else [1] * n
            if s == 'all_same':
                out.append(list(v))
                continue
            groups = [[a] for a in self.layout.alts] if s == 'all_diff' else [
                g if isinstance(g, list) else [g] for g in s]
            for g in groups:
                out.append([v[i] if self.layout.rows[i][1] in g else 0
                            for i in range(n)])
        return out

    def nbeta(self, cols=None):
        k = 0
        for var, s in self.spec.items():
            k += 1 if s == 'all_same' else (
                self.J if s == 'all_diff' else len(s))
        return k

    def nparam(self):
        return self.nnest + self.nshape + self.nint + self.nbeta() + (
            len(self.mixing_vars) if self.mixing_vars else 0)

    def params(self, W, pre='p'):
        return [W.real('%s%d' % (pre, i)) for i in range(self.nparam())]

    def split(self, th):
        a = self.nnest + self.nshape
        return th[:a], th[a:a + self.nint], th[a + self.nint:]

    def utilities(self, cols, beta):
        X = self.columns(cols)
        V = []
        for i in range(len(self.layout.rows)):
            s = T.ZERO
            for k in range(len(X)):
                s = s + X[k][i] * beta[k]
            V.append(T.lift(s))
        return V

    def transformed(self, V, sh, ic):
        """h(V) for each row: the published index transformations."""
        L = self.layout
        e, lg = T.exp, T.log
        if self.kind == 'asym':
            full = list(sh)
            full.insert(self.sref, T.ZERO)
            den = T.ZERO
            for s in full:
                den = den + e(T.lift(s))
            c = [e(T.lift(s)) / den for s in full]
        out = []
        for i, (o, a) in enumerate(L.rows):
            j = L.alts.index(a)
            v = V[i]
            if self.kind in ('mnl',):
                h = v
            elif self.kind == 'clog':
                h = lg(e(e(v)) - 1)
            elif self.kind == 'scobit':
                g = e(T.lift(sh[j]))
                h = -lg(T.power(1 + e(-v), g) - 1)
            elif self.kind == 'uneven':
                g = e(T.lift(sh[j]))
                h = v + lg(1 + e(-v)) - lg(1 + e(-(g * v)))
            elif self.kind == 'asym':
                if bool(v >= 0):
                    h = lg(c[j]) - v * lg(c[j])
                else:
                    h = lg(c[j]) - v * lg((1 - c[j]) / (self.J - 1))
            if self.iref is not None and j != self.iref:
                h = h + ic[j if j < self.iref else j - 1]
            out.append(T.lift(h))
        return out

    def hrows(self, cols, th):
        sh, ic, b = self.split(th)
        return self.transformed(self.utilities(cols, b), sh, ic)

    def probs(self, cols, th):
        return softmax(self.hrows(cols, th), [r[0] for r in self.layout.rows])

    # ---- nested logit (McFadden, in the 0 < scale <= 1 parametrisation) ----
    def nested(self, cols, orig, b):
        lam = [1 / (1 + T.exp(-T.lift(o))) for o in orig]
        return self.nested_natural(cols, lam, b)

    def nested_natural(self, cols, lam, b):
        V = self.utilities(cols, b)
        rows = self.layout.rows
        nest = [[k for k, v in enumerate(self.nest_spec.values())
                 if a in v][0] for o, a in rows]
        e = [T.exp(V[i] / lam[nest[i]]) for i in range(len(rows))]
        S = {}
        for i, (o, a) in enumerate(rows):
            S[o, nest[i]] = S.get((o, nest[i]), T.ZERO) + e[i]
        D = {}
        for (o, k), s in S.items():
            D[o] = D.get(o, T.ZERO) + T.exp(lam[k] * T.log(s))
        R = dict(V=V, nest=nest, lam=lam, S=S, e=e)
        R['P'], R['given'], R['logP'], R['choice'] = [], [], [], {}
        for (o, k), s in S.items():
            R['choice'][o, k] = T.exp(lam[k] * T.log(s)) / D[o]
        for i, (o, a) in enumerate(rows):
            k = nest[i]
            s = S[o, k]
            R['P'].append(e[i] / s * R['choice'][o, k])
            R['given'].append(e[i] / s)
            R['logP'].append(V[i] / lam[k] + (lam[k] - 1) * T.log(s) -
                             T.log(D[o]))
        return R

    def nested_loglik(self, cols, th, w=None, ridge=None, R=None):
        R = R or self.nested(cols, th[:self.nnest], th[self.nnest:])
        y = cols['choice']
        ll = T.ZERO
        for i in range(len(y)):
            ll = ll + y[i] * (w[i] if w is not None else 1) * R['logP'][i]
        if ridge is not None:
            for x in R['lam']:
                ll = ll - ridge * (x - 1) * (x - 1)
            for x in th[self.nnest:]:
                ll = ll - ridge * x * x
        return T.lift(ll)

    def loglik(self, cols, th, w=None, ridge=None):
        if self.kind == 'nested':
            return self.nested_loglik(cols, th, w, ridge)
        return self._loglik(cols, th, w, ridge)

    def _loglik(self, cols, th, w=None, ridge=None):
        """sum_r w_r y_r log P_r - ridge * |theta|^2 , with log P written as
        h - log sum exp h"""
        h = self.hrows(cols, th)
        obs = [r[0] for r in self.layout.rows]
        y = cols['choice']
        ll = T.ZERO
        for i, o in enumerate(obs):
            den = T.ZERO
            for k, q in enumerate(obs):
                if q == o:
                    den = den + T.exp(h[k])
            ll = ll + y[i] * (w[i] if w is not None else 1) * (
                h[i] - T.log(den))
        if ridge is not None:
            for t in th:
                ll = ll - ridge * t * t
        return T.lift(ll)


def softmax(h, groups):
    ex = [T.exp(T.lift(x)) for x in h]
    out = []
    for i, g in enumerate(groups):
        den = T.ZERO
        for k, q in enumerate(groups):
            if q == g:
                den = den + ex[k]
        out.append(ex[i] / den)
    return out


def estimator(W, model, th, ridge=None, weights=None, constrained=None):
    ce = W.mod('construct_estimator')
    est = ce.create_estimation_obj(model, th, ridge=ridge, weights=weights,
                                   constrained_pos=constrained)
    if hasattr(est, 'set_derivatives'):
        est.set_derivatives()
    return est


def weights_by_obs(W, layout, name='w'):
    ws = {}
    for o in layout.obs:
        ws[o] = W.real('%s%s' % (name, o), sign='0+')
    return [ws[o] for o, a in layout.rows]


def region(W, m, V):
    """Main region of the utilities: the clog-log overflow switch and the
    scobit special treatment of |V| > 10 are handled by separate cases."""
    for v in V:
        if m.kind == 'clog':
            W.assume(v <= 3)
        elif m.kind == 'scobit':
            W.assume(v <= 10)
            W.assume(v >= -10)


def lin(X, b, i):
    s = X[0][i] * b[0]
    for k in range(1, len(b)):
        s = s + X[k][i] * b[k]
    return s


LT = ('mnl', 'clog', 'scobit', 'uneven', 'asym')
SPEC2 = (OrderedDict([('x', 'all_same'), ('z', [[2, 11], 5])]),
         OrderedDict([('x', 'b_x'), ('z', ['b_z29', 'b_z5'])]))


def lt_case(kind, layout, tag, observe, oracle, ridge=False, weights=False,
            iref=None, sref=0, spec=None, free=False, pre=None, **kw):
    """observe(W, est, theta, model, I) -> dict ; oracle(W, m, I) -> dict"""
    spec = spec or (None, None)
    m = Model(kind, layout, spec[0], spec[1], intercept_ref=iref,
              shape_ref=sref)

    def inputs(W):
        cols = layout.data(W)
        th = m.params(W)
        I = dict(cols=cols, th=th,
                 ridge=W.real('ridge', sign='0+') if ridge else None,
                 w=weights_by_obs(W, layout) if weights else None)
        X = m.columns(cols)
        I['V'] = [lin(X, m.split(th)[2], i) for i in range(len(layout.rows))]
        if pre is not None:
            pre(W, m, I)
        elif not free:
            region(W, m, I['V'])
        return I

    def run(W, I):
        mod = m.build(W, I['cols'])
        th = W.arr(I['th'])
        est = estimator(W, mod, th, I['ridge'],
                        None if I['w'] is None else W.arr(I['w']))
        return observe(W, est, th, mod, I)

    def expect(W, I, out):
        return oracle(W, m, I)
    kw.setdefault('bounds', '%d rows, %d observations, alternatives %s, %d '
                  'parameters' % (len(layout.rows), len(layout.obs),
                                  layout.alts, m.nparam()))
    return Case('%s-%s' % (kind, tag), inputs, run, expect, **kw)


def lt_suite(observe, oracle, tier, kinds=LT, ridge=True, thin=False,
             four=True, **kw):
    """The standard grid of logit-type cases."""
    out = []
    for k in kinds:
        out.append(lt_case(k, LX, 'plain', observe, oracle, **kw))
        if ridge:
            out.append(lt_case(k, LX, 'ridge-weights', observe, oracle, True,
                               True, sref=1, **kw))
        if k != 'mnl':
            for r in ((1,) if thin else (0, 1, 2)):
                rw = ridge and r != 1
                out.append(lt_case(k, LX, 'intercept-ref%d' % r, observe,
                                   oracle, rw, rw, iref=r, sref=2 - r, **kw))
        else:
            out.append(lt_case(k, LX2, 'spec', observe, oracle, ridge, ridge,
                               spec=SPEC2, **kw))
        if tier == 'thorough':
            out.append(lt_case(k, LX2, 'spec-rw', observe, oracle, ridge,
                               ridge, spec=SPEC2, budget=900, timeout=30,
                               iref=None if k == 'mnl' else 1, **kw))
        if four:
            out.append(lt_case(k, L4, 'four', observe, oracle, False, ridge,
                               iref=None if k == 'mnl' else 2, sref=3, **kw))
        out.append(lt_case(k, LXI, 'integer-data', observe, oracle, False,
                           ridge, iref=None if k == 'mnl' else 1, sref=0,
                           **kw))
        if k in ('clog', 'scobit'):
            out.append(lt_case(k, LS, 'extremes', observe, oracle, ridge,
                               ridge, iref=0, free=(k == 'scobit'), **kw))
    return out


def obj(xs):
    a = np.empty(np.shape(xs), dtype=object)
    a[...] = xs
    return a


class Abstract(object):
    """Replace the index transformation of a real estimator by an arbitrary
    one: h, dh/dV, dh/dshape are unconstrained symbols per row."""

    def __init__(self, W, m):
        n = len(m.layout.rows)
        self.h = W.reals('h', n)
        self.d = W.reals('d', n)
        self.c = None
        if m.nshape:
            if m.kind == 'asym':
                self.c = [W.reals('c%d_' % i, m.nshape) for i in range(n)]
            else:
                self.c = W.reals('c', n)

    def install(self, W, m, est):
        n = len(m.layout.rows)
        est.utility_transform = lambda *a, **k: W.arr(self.h)[:, None]
        dv = est.calc_dh_dv
        from_diag = W.sparse.csr_matrix((W.arr(self.d), (range(n), range(n))),
                                        shape=(n, n))
        est.calc_dh_dv = lambda *a, **k: from_diag
        if m.kind == 'asym':
            mat = np.matrix(W.mat(self.c))
            est.calc_dh_d_shape = lambda *a, **k: mat
        elif m.nshape:
            cols = [m.layout.alts.index(r[1]) for r in m.layout.rows]
            sp = W.sparse.csr_matrix((W.arr(self.c), (range(n), cols)),
                                     shape=(n, m.J))
            est.calc_dh_d_shape = lambda *a, **k: sp

    def jac(self, m, cols):
        X = m.columns(cols)
        out = []
        for i, (o, a) in enumerate(m.layout.rows):
            j = m.layout.alts.index(a)
            row = []
            if m.kind == 'asym':
                row += self.c[i]
            elif m.nshape:
                row += [self.c[i] if q == j else 0 for q in range(m.J)]
            if m.iref is not None:
                row += [1 if q == j else 0 for q in range(m.J)
                        if q != m.iref]
            row += [self.d[i] * X[k][i] for k in range(len(X))]
            out.append(row)
        return out


def second_order(kind, layout, tag, observe, oracle, abstract=True,
                 ridge=False, weights=False, iref=None, sref=0, spec=None,
                 free=False, **kw):
    """oracle(m, I, h, D) with h the transformed utilities and D[r][k] their
    parameter derivatives."""
    spec = spec or (None, None)
    m = Model(kind, layout, spec[0], spec[1], intercept_ref=iref,
              shape_ref=sref)

    def inputs(W):
        cols = layout.data(W)
        th = m.params(W)
        I = dict(cols=cols, th=th,
                 ridge=W.real('ridge', sign='0+') if ridge else None,
                 w=weights_by_obs(W, layout) if weights else None)
        X = m.columns(cols)
        if abstract:
            I['abs'] = Abstract(W, m)
        elif not free:
            region(W, m, [lin(X, m.split(th)[2], i)
                          for i in range(len(layout.rows))])
        return I

    def run(W, I):
        mod = m.build(W, I['cols'])
        th = W.arr(I['th'])
        est = estimator(W, mod, th, I['ridge'],
                        None if I['w'] is None else W.arr(I['w']))
        if abstract:
            I['abs'].install(W, m, est)
        return observe(W, est, th, mod, I)

    def expect(W, I, out):
        if abstract:
            h, D = I['abs'].h, I['abs'].jac(m, I['cols'])
        else:
            h = m.hrows(I['cols'], I['th'])
            D = [[T.diff(x, t) for t in I['th']] for x in h]
        return oracle(m, I, h, D)
    kw.setdefault('bounds', '%d rows, %d observations, alternatives %s, %d '
                  'parameters%s' % (
                      len(layout.rows), len(layout.obs), layout.alts,
                      m.nparam(), '; arbitrary transformation' if abstract
                      else ''))
    return Case('%s-%s' % (kind, tag), inputs, run, expect, **kw)


def second_suite(observe, oracle, tier):
    S = second_order
    out = [S('mnl', LX, 'full', observe, oracle, False),
           S('mnl', LX2, 'full-spec-rw', observe, oracle, False, True, True,
             spec=SPEC2),
           S('mnl', LXI, 'full-integer-data', observe, oracle, False, True,
             True)]
    for k in ('clog', 'scobit', 'uneven', 'asym'):
        for r in (None, 0, 1, 2):
            rw = r in (0, 2)
            out.append(S(k, LX, 'any-h-ref%s' % r, observe, oracle, True, rw,
                         rw, iref=r, sref=1 if r is None else 2 - r))
        out.append(S(k, LX2, 'any-h-spec', observe, oracle, True, True, True,
                     iref=1, spec=SPEC2))
        out.append(S(k, L4, 'any-h-four', observe, oracle, True, False, True,
                     iref=2, sref=3))
        out.append(S(k, LXI, 'any-h-integer-data', observe, oracle, True,
                     False, True, iref=1, sref=0))
        out.append(S(k, LS, 'full-small', observe, oracle, False, True, True,
                     iref=1, sref=0, free=(k == 'scobit')))
        if tier == 'thorough':
            out.append(S(k, LS2, 'full-mid', observe, oracle, False, False,
                         False, iref=0, sref=1, budget=1500, timeout=60))
    return out


# ---------------------------------------------------------------------------
# nested logit
# ---------------------------------------------------------------------------
# alternatives {2,5,11}; observation 10 lacks alternative 11, observation 11 has
# none of nest B
LN = Layout([(3, 11), (3, 2), (3, 5), (10, 5), (10, 2)], {3: 2, 10: 5})
LN2 = Layout([(3, 11), (3, 2), (3, 5), (10, 5), (10, 2)], {3: 11, 10: 2},
             cols=('x', 'z'), conc={'z': [1, -1, 2, 0.5, 3]})
LN4 = Layout([(3, 11), (3, 2), (3, 5), (3, 7), (10, 5), (10, 7), (12, 2),
              (12, 7)], {3: 2, 10: 5, 12: 7})
LN4S = Layout([(3, 11), (3, 2), (3, 5), (3, 7)], {3: 5})
LN2S = Layout([(3, 2), (3, 11), (8, 2)], {3: 11, 8: 2})
NB = OrderedDict([('zz', [5, 11]), ('aa', [2])])
NB2 = OrderedDict([('m', [2]), ('k', [11, 5])])
NB4 = OrderedDict([('u', [11, 2]), ('d', [7, 5])])
NB1 = OrderedDict([('solo', [11, 5, 2])])
NBS = OrderedDict([('q', [11]), ('c', [2])])


def nested_case(layout, nests, tag, observe, oracle, ridge=False,
                weights=False, spec=None, constrained=None, **kw):
    spec = spec or (None, None)
    m = Model('nested', layout, spec[0], spec[1], nest_spec=nests)

    def inputs(W):
        cols = layout.data(W)
        return dict(cols=cols, th=m.params(W), m=m,
                    ridge=W.real('ridge', sign='0+') if ridge else None,
                    w=weights_by_obs(W, layout) if weights else None)

    def run(W, I):
        mod = m.build(W, I['cols'])
        th = W.arr(I['th'])
        est = estimator(W, mod, th, I['ridge'],
                        None if I['w'] is None else W.arr(I['w']),
                        constrained)
        return observe(W, est, th, mod, I)

    def expect(W, I, out):
        return oracle(W, m, I)
    kw.setdefault('bounds', '%d rows, %d observations, nests %s, %d '
                  'parameters' % (len(layout.rows), len(layout.obs),
                                  list(nests.values()), m.nparam()))
    return Case('nested-%s' % tag, inputs, run, expect, **kw)


def nested_suite(observe, oracle, tier, ridge=True, **kw):
    N = nested_case
    out = [N(LN, NB, 'plain', observe, oracle, **kw),
           N(LN, NB2, 'order', observe, oracle, False, True, **kw),
           N(LN2, NB, 'spec', observe, oracle, ridge, True, spec=SPEC2, **kw),
           N(LN4, NB4, 'missing-nest', observe, oracle, False, True, **kw),
           N(LN4S, NB4, 'two-by-two', observe, oracle, ridge, False, **kw),
           N(LN2S, NBS, 'degenerate', observe, oracle, False, True, **kw),
           N(LN, NB1, 'one-nest', observe, oracle, ridge, True, **kw),
           N(LXI, NB, 'integer-data', observe, oracle, False, True, **kw)]
    return out


# ---------------------------------------------------------------------------
# mixed logit
# ---------------------------------------------------------------------------
class Mixed(Model):
    """theta = [index coefficients, spread of each mixed coefficient]; the
    standard normal draws are symbols z{var}_{individual}_{draw}."""

    def __init__(self, layout, mixing, draws, spec=None, names=None):
        Model.__init__(self, 'mixed', layout, spec, names,
                       mixing_vars=mixing)
        self.D = draws
        self.mixers = []
        for o, a in layout.rows:
            if layout.mix[o] not in self.mixers:
                self.mixers.append(layout.mix[o])
        flat = []
        for var, s in self.spec.items():
            n = self.names[var]
            flat += n if isinstance(n, list) else [n]
        self.pos = [flat.index(v) for v in mixing]

    def draws(self, W, name='z'):
        return [[[W.real('%s%d_%d_%d' % (name, v, i, d))
                  for d in range(self.D)] for i in range(len(self.mixers))]
                for v in range(len(self.pos))]

    def kernel(self, cols, th, z, rows=None, mixers=None):
        """P[row][draw] for each draw"""
        L = self.layout
        X = self.columns(cols)
        nb = len(X)
        out = []
        for d in range(self.D):
            V = []
            for i, (o, a) in enumerate(L.rows):
                u = self.mixers.index(L.mix[o])
                s = T.ZERO
                for k in range(nb):
                    s = s + X[k][i] * th[k]
                for q, k in enumerate(self.pos):
                    s = s + X[k][i] * z[q][u][d] * th[nb + q]
                V.append(s)
            out.append(softmax(V, [r[0] for r in L.rows]))
        return [[out[d][i] for d in range(self.D)]
                for i in range(len(L.rows))]

    def sequence(self, cols, P):
        L = self.layout
        y = cols['choice']
        out = []
        for u in self.mixers:
            row = []
            for d in range(self.D):
                s = T.ONE
                for i, (o, a) in enumerate(L.rows):
                    if L.mix[o] == u and y[i]:
                        s = s * P[i][d]
                row.append(s)
            out.append(row)
        return out

    def mixed_loglik(self, cols, th, z, w=None, ridge=None):
        S = self.sequence(cols, self.kernel(cols, th, z))
        ll = T.ZERO
        for u, row in enumerate(S):
            m = T.ZERO
            for x in row:
                m = m + x
            ll = ll + (1 if w is None else w[u]) * T.log(m / self.D)
        if ridge is not None:
            for t in th:
                ll = ll - ridge * t * t
        return T.lift(ll)


LM = Layout([(4, 12), (4, 3), (6, 3), (6, 12), (10, 12), (10, 3)],
            {4: 3, 6: 12, 10: 12}, mix={4: 20, 6: 11, 10: 20})
LM1 = Layout([(4, 12), (4, 3), (6, 3), (6, 12)], {4: 3, 6: 12},
             mix={4: 20, 6: 11})
LMP = Layout([(4, 12), (4, 3), (6, 3), (6, 12)], {4: 3, 6: 12},
             mix={4: 5, 6: 5})
LMZ = Layout([(4, 12), (4, 3), (4, 5), (6, 3), (6, 12)], {4: 5, 6: 12},
             cols=('x', 'z'), mix={4: 20, 6: 11},
             conc={'z': [1, -1, 2, .5, 3]})
LMI = Layout(LM.rows, LM.chosen, mix=LM.mix,
             conc={'x': [1, -1, 2, 3, 0, -2]})
SPECM = (OrderedDict([('x', 'all_same'), ('z', [[3, 5], 12])]),
         OrderedDict([('x', 'b_x'), ('z', ['b_z35', 'b_z7'])]))
MIX3 = ['b_z7', 'b_x', 'b_z35']


def mixed_case(m, tag, observe, oracle, ridge=False, weights=False,
               constrained=None, **kw):
    L = m.layout

    def inputs(W):
        cols = L.data(W)
        I = dict(cols=cols, th=m.params(W), m=m, z=m.draws(W),
                 ridge=W.real('ridge', sign='0+') if ridge else None,
                 w=None)
        if weights:
            I['w'] = [W.real('w%s' % u, sign='0+') for u in m.mixers]
        return I

    def run(W, I):
        mod = m.build(W, I['cols'])
        th = W.arr(I['th'])
        mlc = W.mod('mixed_logit_calcs')
        maps = mod.get_mappings_for_fit()
        mod.design_3d = mlc.create_expanded_design_for_mixing(
            mod.design, [W.mat(q) for q in I['z']], mod.mixing_pos,
            maps['rows_to_mixers'])
        w = None
        if I['w'] is not None:
            w = W.arr([I['w'][m.mixers.index(L.mix[o])] for o, a in L.rows])
        est = estimator(W, mod, th, I['ridge'], w, constrained)
        return observe(W, est, th, mod, I)

    def expect(W, I, out):
        return oracle(W, m, I)
    kw.setdefault('bounds', '%d rows, %d observations, %d individuals, %d '
                  'draws, %d mixed coefficients' % (
                      len(L.rows), len(L.obs), len(m.mixers), m.D,
                      len(m.pos)))
    return Case('mixed-%s' % tag, inputs, run, expect, **kw)


def mixed_suite(observe, oracle, tier, ridge=True, light=False, **kw):
    M = mixed_case
    d = 1 if light else 2
    out = [M(Mixed(LM1, ['B_x'], 2), 'plain', observe, oracle, **kw),
           M(Mixed(LMP, ['B_x'], 2), 'panel', observe, oracle, ridge, True,
             **kw),
           M(Mixed(LM, ['B_x'], d), 'panel2', observe, oracle, ridge, True,
             **kw),
           M(Mixed(LMZ, ['b_z7', 'b_x'], d, *SPECM), 'spec', observe, oracle,
             ridge, True, **kw),
           M(Mixed(LM1, ['B_x'], 1), 'one-draw', observe, oracle, ridge, True,
             **kw)]
    out.append(M(Mixed(LMI, ['B_x'], d), 'integer-data', observe, oracle,
                 False, True, **kw))
    out.append(M(Mixed(LMZ, MIX3, 1, *SPECM), 'three-mixed', observe, oracle,
                 False, True, **kw))
    if not light:
        out.append(M(Mixed(LM1, ['B_x'], 3), 'three-draws', observe, oracle,
                     ridge, False, **kw))
    return out
