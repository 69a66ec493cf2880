"""Stand-ins for numpy / scipy inside the symbolically executed copy of pylogit.

They keep numpy's array machinery (object arrays of Nodes) and replace only
what numpy or scipy cannot do on symbolic elements.
"""
import itertools
import math
import types
from fractions import Fraction

import numpy as np
import pandas as pd
import scipy
import scipy.linalg
import scipy.optimize
import scipy.sparse
import scipy.stats

from . import term as T

Node = T.Node


def has_node(a):
    if isinstance(a, Node):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object
    if isinstance(a, (list, tuple)):
        return any(has_node(x) for x in a)
    return hasattr(a, 'dtype') and getattr(a, 'dtype', None) == object


def objarr(a):
    """Object array in which finite float entries are exact constants."""
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    flat = out.ravel() if out.flags.c_contiguous else None
    src = a.ravel()
    for i in range(src.size):
        flat[i] = lift_elem(src[i])
    return flat.reshape(a.shape)


def lift_elem(x):
    if isinstance(x, (float, np.floating)) and math.isfinite(x):
        return T.const(float(x))
    if isinstance(x, np.generic):
        return x.item()
    return x


def is_float_dtype(dt):
    if dt is None:
        return True
    try:
        return np.dtype(dt).kind == 'f'
    except TypeError:
        return False


def elementwise(f):
    uf = np.frompyfunc(f, 1, 1)

    def g(x, *args, **kw):
        if isinstance(x, Node) or isinstance(x, (int, float, np.number)):
            return f(x)
        if hasattr(x, 'to_numpy') and hasattr(x, 'index'):   # pandas
            r = x.copy().astype(object)
            if r.ndim == 1:
                r[:] = g(np.asarray(x.values))
                return r
            return type(x)(g(np.asarray(x.values)), index=x.index,
                           columns=x.columns)
        if isinstance(x, SMatrix):
            return x.map(f)
        r = uf(x)
        return r
    return g


def boolwise(f):
    uf = np.frompyfunc(f, 1, 1)

    def g(x, *args, **kw):
        if isinstance(x, Node) or isinstance(x, (int, float, np.number)):
            return f(x)
        r = uf(x)
        if hasattr(x, 'index') and hasattr(x, 'to_numpy'):
            return r.astype(bool)
        return np.asarray(r).astype(bool) if not isinstance(
            x, np.matrix) else np.matrix(np.asarray(r).astype(bool))
    return g


def _f_exp(x):
    if isinstance(x, Node):
        return T.exp_fp(x)
    x = float(x)
    if math.isfinite(x):
        return T.exp_fp(T.const(x))
    return float(np.exp(x))


def _f_log(x):
    if not isinstance(x, Node):
        x = float(x)
        if not math.isfinite(x) or x <= 0:
            return float(np.log(x)) if x == x else x
        x = T.const(x)
    return T.log_fp(x)


def _f_log1p(x):
    if isinstance(x, Node):
        return T.log1p_fp(x)
    return _f_log(1 + x) if not isinstance(x, float) or math.isfinite(x) \
        else float(np.log1p(x))


def _f_expm1(x):
    r = _f_exp(x)
    return r - 1


def _f_sqrt(x):
    if isinstance(x, Node):
        return T.sqrt(x)
    x = float(x)
    if not math.isfinite(x) or x < 0:
        return float(np.sqrt(x))
    return T.sqrt(T.const(x))


def _f_isinf(x):
    return isinstance(x, (float, np.floating)) and math.isinf(x)


def _f_isposinf(x):
    return isinstance(x, (float, np.floating)) and x == T.INF


def _f_isneginf(x):
    return isinstance(x, (float, np.floating)) and x == -T.INF


def _f_isnan(x):
    return isinstance(x, (float, np.floating)) and x != x


def _f_isfinite(x):
    return not (isinstance(x, (float, np.floating)) and not math.isfinite(x))


# 'generic': values that are not identical terms are further apart than the
# tolerance of isclose (an assumption a case has to declare)
OPTS = {'isclose': None}


def _isclose1(a, b, rtol, atol, equal_nan=False):
    for u in (a, b):
        if isinstance(u, float) and not math.isfinite(u):
            return a == b if isinstance(a, float) and isinstance(b, float) \
                else False
    if not isinstance(a, Node) and not isinstance(b, Node):
        return bool(np.isclose(float(a), float(b), rtol=rtol, atol=atol))
    a, b = T.lift(a), T.lift(b)
    d = T.sub(a, b)
    f = T.nf(d)
    if f[0] == 0:
        return True
    if OPTS['isclose'] == 'generic':
        return False
    lim = T.const(atol)
    if rtol:
        lim = T.add(lim, T.mul(T.const(rtol), T.fabs(b)))
    return bool(T.and_(T.cmp_('<=', d, lim),
                       T.cmp_('<=', T.mul(T.MONE, lim), d)))


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not has_node(a) and not has_node(b):
        return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    A, B = np.broadcast_arrays(np.asarray(a, dtype=object),
                               np.asarray(b, dtype=object))
    out = np.empty(A.shape, dtype=bool)
    for i in np.ndindex(*A.shape):
        out[i] = _isclose1(A[i], B[i], rtol, atol)
    return out if out.shape else bool(out)


def np_allclose(*a, **k):
    return bool(np.all(np_isclose(*a, **k)))


def _percentile(a, q, axis=None, interpolation='linear', method=None, **kw):
    """Order statistics of symbolic samples; concrete or symbolic q."""
    method = method or interpolation
    a = np.asarray(a)
    if a.dtype != object and not has_node(q):
        return np.percentile(a, q, axis=axis, method=method)
    if axis is None:
        a = a.ravel()
        axis = 0
    a = np.moveaxis(a, axis, 0)
    qs = np.asarray(q, dtype=object)
    out = np.empty(qs.shape + a.shape[1:], dtype=object)
    n = a.shape[0]
    for col in np.ndindex(*a.shape[1:]):
        srt = np.sort(np.array([a[(i,) + col] for i in range(n)],
                               dtype=object))
        for qi in np.ndindex(*qs.shape):
            v = T.lift(qs[qi])
            if v is None:
                raise T.Unsupported('percentile')
            pos = T.div(T.mul(v, T.const(n - 1)), T.const(100))
            # lowest k with k >= pos
            if not bool(T.cmp_('<=', T.ZERO, pos)) or not bool(
                    T.cmp_('<=', pos, T.const(n - 1))):
                raise ValueError('Percentiles must be in the range [0, 100]')
            k = 0
            while not bool(T.cmp_('<=', pos, T.const(k))):
                k += 1
            exact = bool(T.cmp_('==', pos, T.const(k)))
            if exact or method == 'higher':
                r = srt[k]
            elif method == 'lower':
                r = srt[k - 1]
            elif method == 'linear':
                fr = T.sub(pos, T.const(k - 1))
                r = srt[k - 1] + (srt[k] - srt[k - 1]) * fr
            elif method == 'midpoint':
                r = (srt[k - 1] + srt[k]) / 2
            elif method == 'nearest':
                fr = T.sub(pos, T.const(k - 1))
                half = T.const(Fraction(1, 2))
                if bool(T.cmp_('<', fr, half)):
                    r = srt[k - 1]
                elif bool(T.cmp_('<', half, fr)):
                    r = srt[k]
                else:
                    r = srt[k - 1] if (k - 1) % 2 == 0 else srt[k]
            else:
                raise T.Unsupported('percentile method ' + str(method))
            out[qi + col] = r
    return out if out.shape else out.item()


def det(M):
    n = M.shape[0]
    if n == 0:
        return T.ONE
    if n == 1:
        return M[0, 0]
    tot = T.ZERO
    for j in range(n):
        if isinstance(M[0, j], Node) and T.is_zero(M[0, j]) or (
                not isinstance(M[0, j], Node) and M[0, j] == 0):
            continue
        minor = np.delete(np.delete(M, 0, 0), j, 1)
        t = M[0, j] * det(minor)
        tot = tot + t if j % 2 == 0 else tot - t
    return tot


def inv(M, *args, **kw):
    """Matrix inverse by the adjugate (singular matrices are outside)."""
    M = np.asarray(M)
    if M.dtype != object:
        M = objarr(M)
    n = M.shape[0]
    if M.ndim != 2 or M.shape[1] != n:
        raise ValueError('expected square matrix')
    d = det(M)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(M, j, 0), i, 1)
            c = det(minor)
            c = c if (i + j) % 2 == 0 else -c
            out[i, j] = T.div(T.lift(c), T.lift(d))
    return out


def solve(A, b, *args, **kw):
    return np.dot(inv(A), np.asarray(b))


def norm_vec(x, ord=None, axis=None, keepdims=False):
    x = np.asarray(x)
    if ord not in (None, 2) and not (ord == 'fro'):
        raise T.Unsupported('norm ord')
    if axis is None:
        s = (x * x).sum()
        return _f_sqrt(s)
    return elementwise(_f_sqrt)((x * x).sum(axis=axis, keepdims=keepdims))


class RandomStub(object):
    """np.random: arbitrary values constrained only by the contract."""

    def __init__(self, world):
        self._w = world

    def seed(self, *a, **k):
        self._w.event('seed', a[0] if a else None)

    def choice(self, a, size=None, replace=True, p=None):
        return self._w.random_choice(a, size, replace, p)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._w.normal_draws(size) * scale + loc

    def standard_normal(self, size=None):
        return self._w.normal_draws(size)

    def randn(self, *size):
        return self._w.normal_draws(size or None)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self._w.random_choice(np.arange(low, high), size, True, None)

    def RandomState(self, seed=None):
        self.seed(seed)
        return self

    default_rng = RandomState

    def __getattr__(self, n):
        raise T.Unsupported('np.random.' + n)


class NP(types.ModuleType):
    """numpy, with symbolic-aware replacements."""

    def __init__(self, world):
        types.ModuleType.__init__(self, 'numpy')
        self.random = RandomStub(world)
        self.linalg = LinalgNS(np.linalg)
        for k, v in _NPFUNCS.items():
            setattr(self, k, v)

    def __getattr__(self, n):
        return getattr(np, n)


class LinalgNS(object):
    def __init__(self, real):
        self._real = real
        self.inv = inv
        self.solve = solve
        self.norm = norm_vec
        self.det = lambda M: det(np.asarray(M))
        self.pinv = inv
        self.LinAlgError = np.linalg.LinAlgError
        self.block_diag = scipy.linalg.block_diag

    def __getattr__(self, n):
        raise T.Unsupported('linalg.' + n)


def _shape(s):
    return s


def _filled(val):
    def f(shape, dtype=None, order='C', **kw):
        if is_float_dtype(dtype):
            a = np.empty(shape, dtype=object)
            a.fill(val)
            return a
        return {0: np.zeros, 1: np.ones}[int(float(val.args))](
            shape, dtype=dtype)
    return f


def _filled_like(val):
    def f(a, dtype=None, **kw):
        if dtype is None and np.asarray(a).dtype.kind in 'iub':
            return np.full(np.shape(a), int(float(val.args)),
                           dtype=np.asarray(a).dtype)
        return _filled(val)(kw.get('shape') or np.shape(a), dtype=dtype)
    return f


def np_full(shape, fill_value, dtype=None, **kw):
    if is_float_dtype(dtype) and not (dtype is None and isinstance(
            fill_value, (int, np.integer, bool, str))):
        a = np.empty(shape, dtype=object)
        if isinstance(fill_value, (np.ndarray, list)):
            a[...] = fill_value
        else:
            a.fill(lift_elem(fill_value))
        return a
    return np.full(shape, fill_value, dtype=dtype)


def np_eye(n, m=None, k=0, dtype=float, **kw):
    r = np.eye(n, m, k)
    return objarr(r) if is_float_dtype(dtype) else r.astype(dtype)


def np_identity(n, dtype=None):
    return np_eye(n, dtype=float if dtype is None else dtype)


def np_array(a, dtype=None, **kw):
    if dtype is not None and is_float_dtype(dtype):
        return objarr(np.array(a, dtype=object) if has_node(a)
                      else np.array(a, dtype=float))
    kw.pop('like', None)
    r = np.array(a, dtype=dtype, **kw)
    return r


def np_asarray(a, dtype=None, **kw):
    if isinstance(a, SMatrix):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    if dtype is not None and is_float_dtype(dtype):
        return objarr(np.asarray(a, dtype=object) if has_node(a)
                      else np.asarray(a, dtype=float))
    return np.asarray(a, dtype=dtype)


def np_linspace(*a, **k):
    return objarr(np.linspace(*a, **k))


def np_logaddexp(a, b):
    return NPFN('log')(NPFN('exp')(a) + NPFN('exp')(b))


def np_clip(a, lo=None, hi=None, out=None, **kw):
    lo = kw.get('a_min', lo)
    hi = kw.get('a_max', hi)
    a = np.asarray(a, dtype=object)
    r = a.copy()
    L = np.broadcast_to(np.asarray(lo, dtype=object), a.shape) \
        if lo is not None else None
    H = np.broadcast_to(np.asarray(hi, dtype=object), a.shape) \
        if hi is not None else None
    for i in np.ndindex(*a.shape):
        x = r[i]
        if L is not None and x < L[i]:
            x = lift_elem(L[i])
        if H is not None and x > H[i]:
            x = lift_elem(H[i])
        r[i] = x
    if out is not None:
        out[...] = r
        return out
    return r


def np_power(a, b, **kw):
    if not has_node(a) and not has_node(b):
        return np.power(a, b, **kw)
    if isinstance(a, SMatrix):
        return a.power(b)
    f = np.frompyfunc(lambda x, y: T.power_fp(x, y), 2, 1)
    return f(a, b)


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = np.asarray(x)
    if x.dtype != object:
        return np.nan_to_num(x, copy=copy, nan=nan, posinf=posinf,
                             neginf=neginf)
    r = x.copy() if copy else x
    for i in np.ndindex(*x.shape):
        v = x[i]
        if _f_isnan(v):
            r[i] = T.const(nan)
        elif _f_isposinf(v):
            r[i] = T.const(T.MAXF if posinf is None else posinf)
        elif _f_isneginf(v):
            r[i] = T.const(-T.MAXF if neginf is None else neginf)
    return r


def np_issubdtype(a, b):
    if np.dtype(a) == object and b in (np.number, np.floating, float,
                                       np.float64, np.inexact):
        return True
    return np.issubdtype(a, b)


def np_where(cond, *args):
    if not args:
        c = np.asarray(cond)
        if c.dtype == object:
            c = boolwise(lambda v: bool(v))(c)
        return np.where(c)
    c = np.asarray(cond)
    if c.dtype == object:
        c = boolwise(lambda v: bool(v))(c)
    if has_node(args[0]) or has_node(args[1]):
        return np.where(c, np.asarray(args[0], dtype=object),
                        np.asarray(args[1], dtype=object))
    return np.where(c, *args)


def np_unique(ar, return_index=False, return_inverse=False,
              return_counts=False, **kw):
    ar = np.asarray(ar)
    if ar.dtype != object:
        return np.unique(ar, return_index=return_index,
                         return_inverse=return_inverse,
                         return_counts=return_counts, **kw)
    flat = list(ar.ravel())
    groups = []          # (value, first index, [indices]) ascending
    for i, v in enumerate(flat):
        pos = 0
        for g in groups:
            if bool(g[0] == v):
                g[2].append(i)
                break
            if bool(v < g[0]):
                groups.insert(pos, (v, i, [i]))
                break
            pos += 1
        else:
            groups.append((v, i, [i]))
    vals = np.empty(len(groups), dtype=object)
    for k, g in enumerate(groups):
        vals[k] = g[0]
    out = [vals]
    if return_index:
        out.append(np.array([g[1] for g in groups], dtype=int))
    if return_inverse:
        invx = np.empty(len(flat), dtype=int)
        for k, g in enumerate(groups):
            invx[g[2]] = k
        out.append(invx)
    if return_counts:
        out.append(np.array([len(g[2]) for g in groups], dtype=int))
    return out[0] if len(out) == 1 else tuple(out)


def np_in1d(a, b, assume_unique=False, invert=False):
    a = np.asarray(a).ravel()
    if hasattr(b, 'keys') or isinstance(b, (set, frozenset)):
        b = list(b)
    b = np.asarray(b).ravel()
    if a.dtype != object and b.dtype != object:
        return np.in1d(a, b, assume_unique=assume_unique, invert=invert)
    out = np.zeros(a.shape, dtype=bool)
    for i, x in enumerate(a):
        out[i] = any(bool(x == y) for y in b) != invert
    return out


def np_isin(a, b, assume_unique=False, invert=False):
    a = np.asarray(a)
    return np_in1d(a, b, invert=invert).reshape(a.shape)


def np_sum(a, *args, **kw):
    if isinstance(a, SMatrix):
        return a.sum(*args, **kw)
    return np.sum(a, *args, **kw)


def np_dot(a, b, out=None):
    if isinstance(a, SMatrix):
        return a.dot(b)
    if isinstance(b, SMatrix):
        return b.__rmul__(np.asarray(a))
    return np.dot(a, b)


def np_matmul(a, b, **kw):
    if isinstance(a, SMatrix) or isinstance(b, SMatrix):
        return np_dot(a, b)
    return np.matmul(a, b)


def np_multiply(a, b, **kw):
    if isinstance(a, SMatrix):
        return a.multiply(b)
    if isinstance(b, SMatrix):
        return b.multiply(a)
    return np.multiply(a, b, **kw)


def np_rec_fromarrays(*a, **k):
    return np.rec.fromarrays(*a, **k)


def np_einsum(sub, *ops, **kw):
    ops = [np.asarray(o) for o in ops]
    if not any(o.dtype == object for o in ops):
        return np.einsum(sub, *ops, **kw)
    sub = sub.replace(' ', '')
    if '->' in sub:
        ins, out = sub.split('->')
    else:
        ins = sub
        letters = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(letters)
                             if letters.count(c) == 1))
    ins = ins.split(',')
    if '.' in sub:
        raise T.Unsupported('einsum ellipsis')
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape):
            dims[c] = d
    summed = sorted(set(''.join(ins)) - set(out))
    res = np.empty([dims[c] for c in out], dtype=object)
    for oi in np.ndindex(*res.shape):
        env = dict(zip(out, oi))
        tot = T.ZERO
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            t = 1
            for s, o in zip(ins, ops):
                t = o[tuple(env[c] for c in s)] * t
            tot = tot + t
        res[oi] = tot
    return res if res.shape else res.item()


_NPFUNCS = dict(
    exp=elementwise(_f_exp), log=elementwise(_f_log),
    log1p=elementwise(_f_log1p), expm1=elementwise(_f_expm1),
    sqrt=elementwise(_f_sqrt),
    log2=elementwise(lambda x: _f_log(x) / _f_log(2)),
    log10=elementwise(lambda x: _f_log(x) / _f_log(10)),
    isinf=boolwise(_f_isinf), isposinf=boolwise(_f_isposinf),
    isneginf=boolwise(_f_isneginf), isnan=boolwise(_f_isnan),
    isfinite=boolwise(_f_isfinite), isclose=np_isclose, allclose=np_allclose,
    zeros=_filled(T.ZERO), ones=_filled(T.ONE), empty=_filled(T.ZERO),
    zeros_like=_filled_like(T.ZERO), ones_like=_filled_like(T.ONE),
    empty_like=_filled_like(T.ZERO), full=np_full, eye=np_eye,
    full_like=lambda a, v, dtype=None, **k: np_full(np.shape(a), v, dtype),
    identity=np_identity, array=np_array, asarray=np_asarray,
    asanyarray=lambda a, dtype=None, **k: a if isinstance(a, np.ndarray)
    and dtype is None else np_asarray(a, dtype),
    percentile=_percentile, quantile=lambda a, q, **k: _percentile(
        a, np.asarray(q, dtype=object) * 100 if has_node(q)
        else np.asarray(q) * 100, **k),
    linspace=np_linspace, logaddexp=np_logaddexp, clip=np_clip,
    power=np_power, float_power=np_power, nan_to_num=np_nan_to_num,
    issubdtype=np_issubdtype, where=np_where, unique=np_unique,
    in1d=np_in1d, isin=np_isin, sum=np_sum, dot=np_dot, matmul=np_matmul,
    multiply=np_multiply, einsum=np_einsum,
    float64=lambda x: x if isinstance(x, Node) else np.float64(x),
)


def NPFN(n):
    return _NPFUNCS[n]


# numpy scalar types keep working as dtypes
class _F64(np.float64):
    pass


_NPFUNCS.pop('float64')


# ---------------------------------------------------------------------------
# sparse matrices
# ---------------------------------------------------------------------------
class SMatrix(object):
    """csr / csc / coo matrix with arbitrary (symbolic) entries."""
    __array_priority__ = 20.0
    ndim = 2

    def __init__(self, arg, shape=None, dtype=None, copy=False, fmt='csr'):
        self.format = fmt
        if isinstance(arg, SMatrix):
            self.shape = arg.shape
            self._e = dict(arg._e)
        elif isinstance(arg, tuple) and len(arg) == 2 and \
                isinstance(arg[1], tuple) and len(arg[1]) == 2:
            data, (r, c) = arg
            r = [int(x) for x in r]
            c = [int(x) for x in c]
            self._e = {}
            for i, j, v in zip(r, c, list(data)):
                v = lift_elem(v)
                self._e[i, j] = self._e[i, j] + v if (i, j) in self._e else v
            self.shape = tuple(shape) if shape is not None else (
                max(r) + 1 if r else 0, max(c) + 1 if c else 0)
            if r and (max(r) >= self.shape[0] or max(c) >= self.shape[1]
                      or min(r) < 0 or min(c) < 0):
                raise ValueError('row/column index exceeds matrix dimensions')
        elif isinstance(arg, tuple) and len(arg) == 3:
            data, ind, ptr = arg
            self._e = {}
            n = len(ptr) - 1
            mx = 0
            for i in range(n):
                for k in range(int(ptr[i]), int(ptr[i + 1])):
                    j = int(ind[k])
                    mx = max(mx, j + 1)
                    key = (i, j) if fmt != 'csc' else (j, i)
                    v = lift_elem(data[k])
                    self._e[key] = self._e[key] + v if key in self._e else v
            self.shape = tuple(shape) if shape is not None else (
                (n, mx) if fmt != 'csc' else (mx, n))
        elif isinstance(arg, tuple):
            self.shape = (int(arg[0]), int(arg[1]))
            self._e = {}
        else:
            a = np.atleast_2d(np.asarray(arg))
            self.shape = a.shape
            self._e = {}
            for i in range(a.shape[0]):
                for j in range(a.shape[1]):
                    v = a[i, j]
                    if isinstance(v, (bool, np.bool_)):
                        v = int(v)
                    if isinstance(v, Node):
                        if T.nf(v)[0] == 0:
                            continue
                    elif v == 0:
                        continue
                    self._e[i, j] = lift_elem(v)
        self._sort()

    def _new(self, e, shape, fmt=None):
        m = SMatrix.__new__(SMatrix)
        m.shape = shape
        m._e = e
        m.format = fmt or self.format
        m._sort()
        return m

    def _sort(self):
        key = (lambda ij: (ij[1], ij[0])) if self.format == 'csc' else None
        self._e = {k: self._e[k] for k in sorted(self._e, key=key)}

    # -- attributes --------------------------------------------------------
    @property
    def data(self):
        a = np.empty(len(self._e), dtype=object)
        for i, v in enumerate(self._e.values()):
            a[i] = v
        return a

    @data.setter
    def data(self, vals):
        vals = np.asarray(vals)
        if vals.size != len(self._e):
            raise T.Unsupported('sparse data of a different length')
        vals = vals.ravel()
        for k, v in zip(list(self._e), vals):
            self._e[k] = lift_elem(v)

    @property
    def indices(self):
        return np.array([k[0 if self.format == 'csc' else 1]
                         for k in self._e], dtype=np.int32)

    @property
    def indptr(self):
        ax = 1 if self.format == 'csc' else 0
        cnt = [0] * (self.shape[ax] + 1)
        for k in self._e:
            cnt[k[ax] + 1] += 1
        return np.cumsum(cnt).astype(np.int32)

    @property
    def row(self):
        return np.array([k[0] for k in self._e], dtype=np.int32)

    @property
    def col(self):
        return np.array([k[1] for k in self._e], dtype=np.int32)

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def nnz(self):
        return len(self._e)

    def getnnz(self, axis=None):
        return len(self._e)

    def count_nonzero(self):
        return sum(1 for v in self._e.values() if bool(v != 0))

    @property
    def size(self):
        return len(self._e)

    def __len__(self):
        raise TypeError('sparse matrix length is ambiguous; use getnnz()')

    @property
    def T(self):
        return self.transpose()

    @property
    def A(self):
        return self.toarray()

    def transpose(self, *a, **k):
        return self._new({(j, i): v for (i, j), v in self._e.items()},
                         (self.shape[1], self.shape[0]),
                         {'csr': 'csc', 'csc': 'csr'}.get(self.format,
                                                          self.format))

    def toarray(self, *a, **k):
        out = np.empty(self.shape, dtype=object)
        out.fill(0)
        for (i, j), v in self._e.items():
            out[i, j] = v
        if all(isinstance(v, (int, bool)) for v in self._e.values()):
            return out.astype(int)
        return out

    def todense(self, *a, **k):
        return np.matrix(self.toarray())

    def tocsr(self, *a, **k):
        return self._new(dict(self._e), self.shape, 'csr')

    def tocsc(self, *a, **k):
        return self._new(dict(self._e), self.shape, 'csc')

    def tocoo(self, *a, **k):
        return self._new(dict(self._e), self.shape, 'coo')

    def tolil(self, *a, **k):
        return self._new(dict(self._e), self.shape, 'lil')

    def asformat(self, fmt, copy=False):
        return self._new(dict(self._e), self.shape, fmt or self.format)

    def copy(self):
        return self._new(dict(self._e), self.shape)

    def astype(self, *a, **k):
        return self.copy()

    def eliminate_zeros(self):
        self._e = {k: v for k, v in self._e.items() if not (
            v == 0 if not isinstance(v, Node) else T.nf(v)[0] == 0)}

    def sort_indices(self):
        pass

    def sum_duplicates(self):
        pass

    def map(self, f):
        return self._new({k: f(v) for k, v in self._e.items()}, self.shape)

    def diagonal(self, k=0):
        n = min(self.shape)
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = self._e.get((i, i), 0)
        return out

    def setdiag(self, v, k=0):
        n = min(self.shape)
        v = np.broadcast_to(np.asarray(v, dtype=object), (n,))
        for i in range(n):
            self._e[i, i] = lift_elem(v[i])
        self._sort()

    def nonzero(self):
        ks = [k for k, v in self._e.items() if bool(v != 0)]
        return (np.array([k[0] for k in ks], dtype=int),
                np.array([k[1] for k in ks], dtype=int))

    # -- algebra -------------------------------------------------------------
    def _mm(self, B):
        """self @ dense 2d"""
        out = np.empty((self.shape[0],) + B.shape[1:], dtype=object)
        out.fill(0)
        for (i, k), v in self._e.items():
            if isinstance(v, int) and v == 1:
                out[i] = B[k] + out[i] if B.ndim > 1 else B[k] + out[i]
            else:
                out[i] = v * B[k] + out[i]
        return out

    def dot(self, other):
        if isinstance(other, SMatrix):
            if self.shape[1] != other.shape[0]:
                raise ValueError('dimension mismatch')
            rows = {}
            for (k, j), v in other._e.items():
                rows.setdefault(k, []).append((j, v))
            e = {}
            for (i, k), v in self._e.items():
                for j, w in rows.get(k, ()):
                    t = v * w
                    e[i, j] = e[i, j] + t if (i, j) in e else t
            return self._new(e, (self.shape[0], other.shape[1]))
        if np.isscalar(other) or isinstance(other, Node):
            return self.map(lambda v: v * other)
        mat = isinstance(other, np.matrix)
        B = np.asarray(other)
        if B.ndim == 0:
            return self.map(lambda v: v * B.item())
        if B.shape[0] != self.shape[1]:
            raise ValueError('dimension mismatch')
        if B.ndim > 2:
            raise ValueError('sparse.dot of a %dd array' % B.ndim)
        intlike = B.dtype.kind in 'iub' and all(
            isinstance(v, int) for v in self._e.values())
        r = self._mm(B if B.dtype.kind != 'b' else B.astype(int))
        if intlike:
            r = r.astype(int)
        return np.matrix(r) if mat else r

    def __matmul__(self, o):
        return self.dot(o)

    def __rmatmul__(self, o):
        return self.__rmul__(np.asarray(o))

    def __mul__(self, o):
        return self.dot(o)

    def __rmul__(self, o):
        if np.isscalar(o) or isinstance(o, Node):
            return self.map(lambda v: v * o)
        mat = isinstance(o, np.matrix)
        o = np.asarray(o)
        if o.ndim == 0:
            return self.map(lambda v: v * o.item())
        r = self.transpose().dot(o.T).T
        return np.matrix(r) if mat else r

    def multiply(self, o):
        if isinstance(o, SMatrix):
            if o.shape == self.shape:
                e = {k: v * o._e[k] for k, v in self._e.items()
                     if k in o._e}
                return self._new(e, self.shape)
            o = o.toarray()
        if np.isscalar(o) or isinstance(o, Node):
            return self.map(lambda v: v * o)
        o = np.asarray(o)
        if o.ndim == 0:
            return self.map(lambda v: v * o.item())
        shape = np.broadcast_shapes(self.shape, o.shape)
        B = np.broadcast_to(o, shape)
        if shape != self.shape:
            S = np.broadcast_to(self.toarray(), shape)
            return SMatrix(S * B)
        e = {}
        for (i, j), v in self._e.items():
            b = B[i, j]
            if isinstance(b, (bool, np.bool_)):
                b = int(b)
            e[i, j] = lift_elem(v * b)
        return self._new(e, self.shape, 'coo')

    def power(self, n, dtype=None):
        return self.map(lambda v: v ** n)

    def __pow__(self, n):
        r = self
        for _ in range(int(n) - 1):
            r = r.dot(self)
        return r

    def _addsub(self, o, s):
        if isinstance(o, SMatrix):
            e = dict(self._e)
            for k, v in o._e.items():
                e[k] = e[k] + s * v if k in e else s * v
            return self._new(e, self.shape)
        if np.isscalar(o) and not isinstance(o, Node) and o == 0:
            return self.copy()
        return self.todense() + s * np.asarray(o)

    def __add__(self, o):
        return self._addsub(o, 1)

    def __radd__(self, o):
        return self._addsub(o, 1)

    def __sub__(self, o):
        return self._addsub(o, -1)

    def __rsub__(self, o):
        return (-self)._addsub(o, 1)

    def __neg__(self):
        return self.map(lambda v: -v)

    def __abs__(self):
        return self.map(abs)

    def __truediv__(self, o):
        if np.isscalar(o) or isinstance(o, Node):
            return self.map(lambda v: T.lift(v) / o)
        if isinstance(o, SMatrix):
            o = o.toarray()
        return np.matrix(self.toarray().astype(object) / np.asarray(o))

    def sum(self, axis=None, dtype=None, out=None):
        a = self.toarray()
        if axis is None:
            return a.sum()
        return np.matrix(a).sum(axis=axis)

    def mean(self, axis=None, **kw):
        a = self.toarray()
        if axis is None:
            return a.mean()
        return np.matrix(a.astype(object)).mean(axis=axis)

    def max(self, axis=None, **kw):
        a = self.toarray()
        if axis is None:
            return a.max()
        r = a.max(axis=axis)
        return SMatrix(r[None, :] if axis == 0 else r[:, None], fmt='coo')

    def min(self, axis=None, **kw):
        a = self.toarray()
        if axis is None:
            return a.min()
        r = a.min(axis=axis)
        return SMatrix(r[None, :] if axis == 0 else r[:, None], fmt='coo')

    def argmax(self, axis=None):
        r = self.toarray().argmax(axis=axis)
        if axis is None:
            return r
        return np.matrix(r) if axis == 0 else np.matrix(r).T

    def getrow(self, i):
        return self[[i], :]

    def getcol(self, j):
        return self[:, [j]]

    def reshape(self, *shape, **kw):
        if len(shape) == 1:
            shape = shape[0]
        return SMatrix(self.toarray().reshape(shape), fmt=self.format)

    def _idx(self, k, n):
        if isinstance(k, slice):
            return list(range(*k.indices(n)))
        if isinstance(k, (int, np.integer)):
            return [int(k) % n]
        k = np.asarray(k).ravel()
        if k.dtype == bool:
            return list(np.where(k)[0])
        return [int(x) % n for x in k]

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            if isinstance(key, np.ndarray) and key.ndim == 2:
                raise T.Unsupported('sparse fancy index')
            key = (key, slice(None))
        if len(key) != 2:
            raise IndexError('sparse index')
        if all(isinstance(k, (int, np.integer)) for k in key):
            return self._e.get((int(key[0]) % self.shape[0],
                                int(key[1]) % self.shape[1]), 0)
        if all(isinstance(k, (list, np.ndarray)) for k in key):
            i = np.asarray(key[0])
            j = np.asarray(key[1])
            if i.dtype != bool and i.ndim == 1 and j.ndim == 1:
                return np.matrix([[self._e.get((int(x), int(y)), 0)
                                   for x, y in zip(i, j)]], dtype=object)
        ri = self._idx(key[0], self.shape[0])
        ci = self._idx(key[1], self.shape[1])
        e = {}
        for a, i in enumerate(ri):
            for b, j in enumerate(ci):
                if (i, j) in self._e:
                    e[a, b] = self._e[i, j]
        return self._new(e, (len(ri), len(ci)))

    def __setitem__(self, key, val):
        a = self.toarray().astype(object)
        a[key] = val
        self._e = SMatrix(a)._e
        self._sort()

    def __eq__(self, o):
        if isinstance(o, SMatrix):
            o = o.toarray()
        return SMatrix(self.toarray() == o)

    def __ne__(self, o):
        if isinstance(o, SMatrix):
            o = o.toarray()
        return SMatrix(self.toarray() != o)

    __hash__ = object.__hash__

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[[i], :]

    def __bool__(self):
        raise ValueError('truth value of a sparse matrix is ambiguous')

    def __deepcopy__(self, memo):
        return self.copy()

    def __array__(self, *a, **k):
        r = np.empty((), dtype=object)
        r[()] = self
        return r


def _cls(fmt):
    class M(SMatrix):
        def __new__(cls, *a, **k):
            m = SMatrix.__new__(SMatrix)
            k.pop('fmt', None)
            SMatrix.__init__(m, *a, fmt=fmt, **k)
            return m
    M.__name__ = fmt + '_matrix'
    return M


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SMatrix) and (
            cls.fmt is None or x.format == cls.fmt)

    def __call__(cls, *a, **k):
        return SMatrix(*a, fmt=cls.fmt or 'csr', **k)


def _mk_cls(fmt):
    return _Meta((fmt or 'sp') + '_matrix', (object,), {'fmt': fmt})


csr_matrix = _mk_cls('csr')
csc_matrix = _mk_cls('csc')
coo_matrix = _mk_cls('coo')
lil_matrix = _mk_cls('lil')
spmatrix = _mk_cls(None)


def issparse(x):
    return isinstance(x, SMatrix)


def sp_hstack(blocks, format=None, dtype=None):
    blocks = [b if isinstance(b, SMatrix) else SMatrix(b) for b in blocks]
    e, off = {}, 0
    n = blocks[0].shape[0]
    for b in blocks:
        if b.shape[0] != n:
            raise ValueError('blocks must have the same number of rows')
        for (i, j), v in b._e.items():
            e[i, j + off] = v
        off += b.shape[1]
    return blocks[0]._new(e, (n, off), format or 'coo')


def sp_vstack(blocks, format=None, dtype=None):
    return sp_hstack([(b if isinstance(b, SMatrix) else SMatrix(b)).T
                      for b in blocks]).T.asformat(format or 'csr')


def sp_diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if offsets not in (0, [0], (0,)):
        raise T.Unsupported('diags offsets')
    d = diagonals
    if isinstance(offsets, (list, tuple)) or (
            isinstance(d, (list, tuple)) and len(d) and
            np.ndim(d[0]) == 1):
        d = d[0]
    d = list(np.asarray(d).ravel())
    n = len(d)
    m = SMatrix((n, n) if shape is None else shape, fmt=format or 'dia')
    m._e = {(i, i): lift_elem(v) for i, v in enumerate(d)}
    return m


def sp_eye(m, n=None, k=0, dtype=float, format=None):
    return sp_diags([1] * m, 0, format=format)


def sp_block_diag(mats, format=None, dtype=None):
    e, r, c = {}, 0, 0
    for b in mats:
        b = b if isinstance(b, SMatrix) else SMatrix(b)
        for (i, j), v in b._e.items():
            e[i + r, j + c] = v
        r += b.shape[0]
        c += b.shape[1]
    return SMatrix((0, 0))._new(e, (r, c), format or 'coo')


class SparseNS(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'scipy.sparse')
        self.csr_matrix = csr_matrix
        self.csc_matrix = csc_matrix
        self.coo_matrix = coo_matrix
        self.lil_matrix = lil_matrix
        self.csr_array = csr_matrix
        self.spmatrix = spmatrix
        self.issparse = issparse
        self.isspmatrix = issparse
        self.isspmatrix_csr = lambda x: issparse(x) and x.format == 'csr'
        self.isspmatrix_csc = lambda x: issparse(x) and x.format == 'csc'
        self.hstack = sp_hstack
        self.vstack = sp_vstack
        self.diags = sp_diags
        self.eye = sp_eye
        self.identity = sp_eye
        self.block_diag = sp_block_diag

    def __getattr__(self, n):
        raise AttributeError(n)


# ---------------------------------------------------------------------------
# scipy.stats.norm and friends
# ---------------------------------------------------------------------------
def _ufwise(name):
    real = getattr(scipy.stats.norm, name)

    def one(x):
        if isinstance(x, Node):
            return T.uf('norm_' + name, x)
        x = float(x)
        if not math.isfinite(x):
            return float(real(x))
        return T.uf('norm_' + name, T.const(x))
    f = elementwise(one)

    def g(x, loc=0, scale=1):
        if hasattr(x, 'values') and hasattr(x, 'index'):
            x = np.asarray(x.values)
        if not (isinstance(loc, (int, float)) and loc == 0
                and isinstance(scale, (int, float)) and scale == 1):
            return f((x - loc) / scale) if name != 'ppf' else \
                f(x) * scale + loc
        return f(x)
    return g


class NormStub(object):
    def __init__(self, world, loc=0.0, scale=1.0):
        self._w = world
        self._ls = (loc, scale)
        for n in ('ppf', 'cdf', 'sf', 'isf', 'pdf'):
            setattr(self, n, _ufwise(n))

    def __call__(self, loc=0.0, scale=1.0):
        if (loc, scale) != (0.0, 1.0):
            raise T.Unsupported('norm(loc, scale)')
        return self

    def rvs(self, size=None, loc=0.0, scale=1.0, random_state=None):
        if random_state is not None:
            self._w.event('seed', random_state)
        r = self._w.normal_draws(size)
        if (loc, scale) != (0.0, 1.0):
            r = r * scale + loc
        return r


class StatsNS(types.ModuleType):
    def __init__(self, world):
        types.ModuleType.__init__(self, 'scipy.stats')
        self.norm = NormStub(world)

    def __getattr__(self, n):
        raise T.Unsupported('scipy.stats.' + n)


class SpecialNS(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'scipy.special')

        def logsumexp(a, axis=None, keepdims=False, **k):
            ex = NPFN('exp')(a)
            return NPFN('log')(np.sum(ex, axis=axis, keepdims=keepdims))
        self.logsumexp = logsumexp
        self.expit = elementwise(lambda x: 1 / (1 + _f_exp(-1 * x)))

        def softmax(x, axis=None):
            ex = NPFN('exp')(x)
            return ex / np.sum(ex, axis=axis, keepdims=True)
        self.softmax = softmax
        self.ndtr = _ufwise('cdf')
        self.ndtri = _ufwise('ppf')

    def __getattr__(self, n):
        raise T.Unsupported('scipy.special.' + n)


class OptimizeNS(types.ModuleType):
    def __init__(self, world):
        types.ModuleType.__init__(self, 'scipy.optimize')
        self.minimize = world.minimize
        self.OptimizeResult = scipy.optimize.OptimizeResult

    def __getattr__(self, n):
        raise T.Unsupported('scipy.optimize.' + n)


class ScipyNS(types.ModuleType):
    def __init__(self, world):
        types.ModuleType.__init__(self, 'scipy')
        self.sparse = SparseNS()
        self.linalg = LinalgNS(scipy.linalg)
        self.stats = StatsNS(world)
        self.optimize = OptimizeNS(world)
        self.special = SpecialNS()


# ---------------------------------------------------------------------------
# hooks called from the rewritten source
# ---------------------------------------------------------------------------
def h_astype(x, *args, **kw):
    if isinstance(x, SMatrix):
        return x.astype(*args, **kw)
    dt = args[0] if args else kw.get('dtype')
    tgt = getattr(x, 'dtype', None)
    if tgt is not None and tgt == object and isinstance(x, np.ndarray):
        try:
            k = np.dtype(dt).kind
        except TypeError:
            return x.astype(*args, **kw)
        if k == 'f':
            return np.asarray(objarr(x))
        if k in 'iu' and any(isinstance(v, Node) for v in x.ravel()):
            return np_toint(x)
        if k == 'b':
            return boolwise(lambda v: bool(v))(x)
    elif tgt is not None and isinstance(x, np.ndarray):
        try:
            if np.dtype(dt).kind == 'f':
                return objarr(x.astype(float))
        except TypeError:
            pass
    elif tgt is not None and hasattr(x, 'index') and tgt == object:
        try:
            k = np.dtype(dt).kind
        except TypeError:
            return x.astype(*args, **kw)
        if k in 'iuf' and any(isinstance(v, Node) for v in x.values):
            return x.copy()
    return x.astype(*args, **kw)


def np_toint(x):
    r = x.copy()
    for i in np.ndindex(*x.shape):
        r[i] = h_int(x[i])
    return r


def h_int(x, *a):
    if isinstance(x, Node):
        if x.op == 'const':
            return int(x.args)
        if x.sort == 'I':
            return x
        raise T.Unsupported('int() of a real term')
    return int(x, *a)


def h_float(x=0.0):
    if isinstance(x, Node):
        return x
    return float(x)


def h_kind(x):
    """`.kind` attribute"""
    if isinstance(x, np.dtype) and x == object:
        return 'f'
    return x.kind


def h_getitem(obj, key):
    if isinstance(obj, dict) and (
            isinstance(key, Node) or (
                isinstance(key, (int, float, np.number))
                and any(isinstance(k, Node) for k in obj))):
        for k in obj:
            if isinstance(k, (Node, int, float, np.number)) and \
                    bool(k == key):
                return dict.__getitem__(obj, k) if isinstance(k, Node) \
                    else obj[k]
        raise KeyError(key)
    return obj[key]


def h_in(x, c):
    if isinstance(x, Node) and isinstance(c, (dict, set, frozenset,
                                              type({}.keys()))):
        return any(isinstance(k, (Node, int, float, np.number)) and
                   bool(k == x) for k in c)
    if isinstance(c, (dict, set, frozenset, type({}.keys()))) and \
            isinstance(x, (int, float, np.number)) and \
            any(isinstance(k, Node) for k in c):
        return any(bool(k == x) for k in c)
    return x in c


def h_not_in(x, c):
    return not h_in(x, c)


def h_isinstance(x, t):
    if isinstance(x, Node):
        ts = t if isinstance(t, tuple) else (t,)
        for u in ts:
            if u in (float, np.floating, np.float64, np.number):
                if x.sort == 'R':
                    return True
            if u in (int, np.integer, np.int64):
                if x.sort == 'I':
                    return True
    return isinstance(x, t)


def h_isin(x, vals):
    """Series/DataFrame.isin with symbolic members: membership by equality
    (pandas would use hashes)."""
    if isinstance(x, pd.Series):
        v = list(vals)
        if has_node(x.values) or any(isinstance(q, T.Node) for q in v):
            return pd.Series([any([bool(a == b) for b in v])
                              for a in x.values], index=x.index, dtype=bool)
    return x.isin(vals)


def h_kind_of(x):
    """x.dtype.kind : an object array of symbolic numbers stands for floats,
    an object array holding anything else does not."""
    k = x.dtype.kind
    if k == 'O' and all(isinstance(v, (T.Node, int, float, Fraction))
                        for v in np.asarray(x, dtype=object).ravel()):
        return 'f'
    return k
