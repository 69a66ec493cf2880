"""The two worlds a harness runs in.

SymWorld : pylogit's current source executed on symbolic inputs.
RealWorld: the unmodified package from /repo/src executed on one concrete
           point (a solver model or a validation point).
"""
import importlib
import math
import os
import random
import sys
import types
import warnings
import zlib
from fractions import Fraction

import numpy as np
import pandas as pd
import scipy
import scipy.linalg
import scipy.optimize
import scipy.sparse
import scipy.stats

from . import load, shims
from . import term as T

Node = T.Node


class Harness(Exception):
    """The harness itself cannot continue (never blamed on the code)."""


class World(object):
    symbolic = False

    def reset(self):
        self.events = []
        self.minimize_calls = []
        self.n_draws = 0
        self.n_choice = 0
        self.n_opt = 0
        self.fix = {}              # optimiser positions that stay at x0
        self.opt_names = None
        self.tag = ''
        self.decl = {}
        shims.OPTS['isclose'] = None
        self.split_picks = False   # one path per outcome of a random choice

    def generic_isclose(self):
        shims.OPTS['isclose'] = 'generic'

    def event(self, kind, val=None):
        self.events.append((kind, val))

    # -- environment stubs (arbitrary results within the contract) ---------
    def normal_draws(self, size):
        if size is None:
            self.n_draws += 1
            return self.real('z%s%d' % (self.tag, self.n_draws - 1))
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(
            int(s) for s in size)
        out = np.empty(shape, dtype=object if self.symbolic else float)
        for i in np.ndindex(*shape):
            out[i] = self.real('z%s%d' % (self.tag, self.n_draws))
            self.n_draws += 1
        return out

    def random_choice(self, a, size=None, replace=True, p=None):
        if isinstance(a, (int, np.integer)):
            a = np.arange(a)
        a = np.asarray(a).ravel()
        n = 1 if size is None else int(np.prod(size))
        out = []
        left = list(range(len(a)))
        for _ in range(n):
            out.append(self.pick('c%s%d' % (self.tag, self.n_choice), a,
                                 left))
            self.n_choice += 1
            if not replace:
                raise T.Unsupported('choice without replacement')
        self.event('choice', (a, size, replace, p))
        if size is None:
            return out[0]
        o = np.empty(len(out), dtype=object)
        o[:] = out
        return self.back(o, a).reshape(size)

    def minimize(self, fun, x0, args=(), method=None, jac=None, hess=None,
                 hessp=None, bounds=None, constraints=(), tol=None,
                 callback=None, options=None, **kw):
        k = self.n_opt
        self.n_opt += 1
        x0 = np.asarray(x0)
        if not isinstance(args, tuple):
            args = (args,)
        x = np.empty(x0.shape, dtype=object if self.symbolic else float)
        for i in range(x0.shape[0]):
            if i in self.fix:
                x[i] = x0[i]
            elif self.opt_names is not None:
                x[i] = self.real(self.opt_names(k, i))
            else:
                x[i] = self.real('x%s%d_%d' % (self.tag, k, i))
        f = fun(x, *args)
        g = None
        if jac is True:
            f, g = f[0], f[1]
        elif callable(jac):
            g = jac(x, *args)
        H = hess(x, *args) if callable(hess) else None
        self.minimize_calls.append(types.SimpleNamespace(
            fun=fun, x0=x0, x=x, args=args, method=method, jac=jac, g=g,
            hess=hess, H=H, tol=tol, options=options, value=f))
        return scipy.optimize.OptimizeResult(
            x=x, fun=f, jac=g, success=True, status=0,
            message='Optimization terminated successfully.', nit=1, nfev=1,
            njev=1)

    # -- data builders -------------------------------------------------------
    def mat(self, rows):
        rows = [list(r) for r in rows]
        a = np.empty((len(rows), len(rows[0])),
                     dtype=object if self.symbolic else float)
        for i, r in enumerate(rows):
            for j, v in enumerate(r):
                a[i, j] = self.num(v)
        return a

    def arr(self, xs):
        xs = list(xs)
        a = np.empty(len(xs), dtype=object if self.symbolic else float)
        for i, v in enumerate(xs):
            a[i] = self.num(v)
        return a

    def ints(self, xs):
        xs = list(xs)
        if any(isinstance(v, Node) for v in xs):
            a = np.empty(len(xs), dtype=object)
            a[:] = xs
            return a
        return np.array(xs, dtype=int)

    def df(self, cols, index=None):
        d = {}
        if index is None:
            # row labels that are neither positions nor in ascending order,
            # like those of a filtered and re-sorted data frame
            n = len(next(iter(cols.values()))) if cols else 0
            index = [7 * (n - i) - 5 for i in range(n)]
        for k, v in cols.items():
            v = list(v)
            if any(isinstance(x, str) for x in v):
                d[k] = pd.Series(v, index=index)
            elif all(isinstance(x, (int, np.integer)) for x in v):
                d[k] = pd.Series(np.array(v, dtype=int), index=index)
            elif any(isinstance(x, Node) for x in v):
                o = np.empty(len(v), dtype=object)
                o[:] = [T.lift(x) if x == x or isinstance(x, Node) else x
                        for x in v]
                d[k] = pd.Series(o, index=index)
            elif self.symbolic:
                o = np.empty(len(v), dtype=object)
                o[:] = [shims.lift_elem(float(x)) for x in v]
                d[k] = pd.Series(o, index=index)
            else:
                d[k] = pd.Series(np.array(v, dtype=float), index=index)
        return pd.DataFrame(d, columns=list(cols))

    def reals(self, name, n, **kw):
        return [self.real('%s%d' % (name, i), **kw) for i in range(n)]


class SymWorld(World):
    symbolic = True

    def __init__(self):
        self.reset()
        self.package = load.Package(self)
        self.np = self.package.np
        self.sparse = self.package.scipy.sparse
        self.pl = self.package.module('')
        self.engine = None
        self.boxes = {}

    def mod(self, name):
        return self.package.module(name)

    def num(self, v):
        if isinstance(v, Node):
            return v
        if isinstance(v, float) and not math.isfinite(v):
            return v
        return T.const(v)

    def real(self, name, box=(-2, 2), sign=None):
        if sign in ('+', '0+') and box[0] < 0:
            box = (0.25, max(box[1], 2))
        self.boxes[name] = ('R', box)
        return T.var(name, 'R', sign)

    def int(self, name, lo, hi):
        """Integer in [lo, hi] (an assumption)."""
        v = T.var(name, 'I')
        self.boxes[name] = ('I', (lo, hi))
        if name not in self.decl:
            self.decl[name] = True
            self.engine.assume(T.cmp_('<=', T.const(lo), v))
            self.engine.assume(T.cmp_('<=', v, T.const(hi)))
        return v

    def assume(self, c):
        self.engine.assume(c)

    def pick(self, name, a, left):
        vals = [x if isinstance(x, Node) else shims.lift_elem(x) for x in a]
        if all(isinstance(v, (int, np.integer)) or
               (isinstance(v, Node) and v.sort == 'I') for v in vals):
            v = T.var(name, 'I')
        else:
            v = T.var(name, 'R')
        self.boxes[name] = ('pick', None)
        self.engine.assume(T.or_(*[T.cmp_('==', v, T.lift(x))
                                   for x in vals]))
        if self.split_picks:
            for x in list(a)[:-1]:
                if bool(T.cmp_('==', v, T.lift(x))):
                    return x
            return a[-1]
        return v

    def back(self, o, a):
        return o

    def exp(self, x):
        return T.exp(T.lift(x))

    def log(self, x):
        return T.log(T.lift(x))

    def sqrt(self, x):
        return T.sqrt(T.lift(x))

    def norm(self, name, x):
        return T.uf('norm_' + name, x)

    def csr(self, dense):
        return self.sparse.csr_matrix(dense)


class Missing(Exception):
    pass


class RealWorld(World):
    """One concrete point; names absent from env are filled from a fixed
    pseudo-random value so that a replay is deterministic."""
    np = np
    sparse = scipy.sparse
    _pl = None

    def __init__(self, env=None, seed=0):
        self.reset()
        self.env = dict(env or {})
        self.seed = seed
        self.used = {}
        self.pl = real_package()

    def mod(self, name):
        return importlib.import_module('pylogit' + ('.' + name if name
                                                    else ''))

    def num(self, v):
        return float(v)

    def _get(self, name, default):
        v = self.env.get(name)
        if v is None:
            v = default()
        self.used[name] = v
        return v

    def _rnd(self, name):
        return random.Random(zlib.crc32(('%s/%d' % (name, self.seed))
                                        .encode()))

    def real(self, name, box=(-2, 2), sign=None):
        if sign in ('+', '0+') and box[0] < 0:
            box = (0.25, max(box[1], 2))

        def d():
            # dyadic values: exact in binary and in decimal
            r = self._rnd(name)
            n = 64
            lo, hi = int(math.ceil(box[0] * n)), int(math.floor(box[1] * n))
            return r.randint(lo, hi) / float(n)
        return float(self._get(name, d))

    def int(self, name, lo, hi):
        return int(self._get(name, lambda: self._rnd(name).randint(lo, hi)))

    def assume(self, c):
        if not c:
            raise Missing('assumption')

    def pick(self, name, a, left):
        v = self.env.get(name)
        if v is None:
            v = a[self._rnd(name).randrange(len(a))]
        else:
            best = min(range(len(a)), key=lambda i: abs(float(a[i]) -
                                                        float(v)))
            v = a[best]
        self.used[name] = float(v)
        return v

    def back(self, o, a):
        return np.array(list(o), dtype=a.dtype)

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def norm(self, name, x):
        return float(getattr(scipy.stats.norm, name)(x))

    def csr(self, dense):
        return scipy.sparse.csr_matrix(np.asarray(dense, dtype=float))

    # -- stubs installed around a real run -----------------------------------
    def __enter__(self):
        self._undo = []

        def patch(obj, name, new):
            if name in obj.__dict__:
                self._undo.append((obj, name, obj.__dict__[name], True))
            else:
                self._undo.append((obj, name, None, False))
            setattr(obj, name, new)
        orig = scipy.optimize.minimize
        patch(scipy.optimize, 'minimize', self.minimize)
        for k, m in list(sys.modules.items()):
            if (k == 'pylogit' or k.startswith('pylogit.')) and m is not None:
                for nm, v in list(vars(m).items()):
                    if v is orig:
                        patch(m, nm, self.minimize)
        R = np.random
        patch(R, 'choice', self.random_choice)
        patch(R, 'seed', lambda *a, **k: self.event('seed',
                                                    a[0] if a else None))
        patch(R, 'normal', lambda loc=0.0, scale=1.0, size=None:
              self.normal_draws(size) * scale + loc)
        patch(R, 'standard_normal', lambda size=None: self.normal_draws(size))
        patch(R, 'randn', lambda *s: self.normal_draws(s or None))

        def randint(low, high=None, size=None, dtype=int):
            if high is None:
                low, high = 0, low
            return self.random_choice(np.arange(low, high), size)
        patch(R, 'randint', randint)

        def rvs(size=None, loc=0.0, scale=1.0, random_state=None):
            if random_state is not None:
                self.event('seed', random_state)
            r = self.normal_draws(size)
            return r if (loc, scale) == (0.0, 1.0) else r * scale + loc
        patch(scipy.stats.norm, 'rvs', rvs)
        # frozen distributions are built from the class
        patch(type(scipy.stats.norm), 'rvs',
              lambda self_, *a, **k: rvs(**dict(zip(('loc', 'scale'), a), **k)))
        self._np = np.errstate(all='ignore')
        self._np.__enter__()
        self._w = warnings.catch_warnings()
        self._w.__enter__()
        warnings.simplefilter('ignore')
        self._out = sys.stdout
        sys.stdout = open(os.devnull, 'w')
        return self

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self._out
        self._w.__exit__(*a)
        self._np.__exit__(*a)
        for obj, name, old, had in reversed(self._undo):
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)
        return False


def real_package():
    if RealWorld._pl is None:
        src = os.path.dirname(load.SRC)
        sys.dont_write_bytecode = True
        sys.pycache_prefix = '/nonexistent-verif-pycache'
        if sys.path[0] != src:
            sys.path.insert(0, src)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m = importlib.import_module('pylogit')
        if os.path.realpath(os.path.dirname(m.__file__)) != \
                os.path.realpath(load.SRC):
            raise Harness('pylogit imported from ' + m.__file__)
        RealWorld._pl = m
    return RealWorld._pl
