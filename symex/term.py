"""Symbolic terms over the reals / integers, executed by the real pylogit code.

A `Node` is an immutable hash-consed expression.  Nodes overload arithmetic, so
that numpy object arrays of Nodes flow through pylogit unchanged.  Comparisons
give Bool nodes whose truth value is decided (with the SMT solver) by the
current engine.

`nf` gives a canonical "factored product" normal form
        coef * prod(base_i ** e_i)
used to identify transcendental atoms (exp/log arguments) and to print
denominator-free polynomial queries for the solver.
"""
import math
import numbers
from fractions import Fraction

import numpy as np


class Unsupported(Exception):
    """The encoding cannot represent an operation (inconclusive)."""


ENGINE = None  # set by engine.Engine while a symbolic run is active

_table = {}
_nodes = []


def _mk(op, args, sort):
    key = (op, args if op in ('const', 'var') else tuple(
        a.id if isinstance(a, Node) else a for a in args), sort)
    n = _table.get(key)
    if n is None:
        n = Node.__new__(Node)
        n.op = op
        n.args = args
        n.sort = sort
        n.id = len(_nodes)
        n._nf = None
        _nodes.append(n)
        _table[key] = n
    return n


_CONST = {}


def const(v):
    """Real constant from a python/numpy number."""
    if isinstance(v, Fraction):
        f = v
    else:
        if isinstance(v, (bool, np.bool_)):
            f = Fraction(int(v))
        elif isinstance(v, (int, np.integer)):
            f = Fraction(int(v))
        else:
            v = float(v)
            if v != v or v in (float('inf'), float('-inf')):
                raise Unsupported('non-finite constant %r' % v)
            f = _simplest(v)
    return _mk('const', f, 'R')


_SIMPLE = {}


def _simplest(v):
    """A float literal is read as the simplest rational (denominator <= 10^6)
    that rounds to it, so that 0.01 means 1/100; otherwise as its exact value."""
    f = _SIMPLE.get(v)
    if f is None:
        f = Fraction(v)
        if f.denominator > 1 << 20:
            g = f.limit_denominator(1000000)
            if float(g) == v:
                f = g
        _SIMPLE[v] = f
    return f


class Var(object):
    __slots__ = ('name', 'sort', 'sign')


VARS = {}


def var(name, sort='R', sign=None):
    """sign: None, '+' (>0), '0+' (>=0), '-' (<0)."""
    n = _mk('var', name, sort)
    VARS[name] = (sort, sign)
    return n


def lift(o):
    if isinstance(o, Node):
        return o
    if isinstance(o, (numbers.Number, np.number, np.bool_)):
        return const(o)
    if isinstance(o, np.ndarray) and o.ndim == 0 and o.dtype != object:
        return const(o.item())
    return None


def is_sym(x):
    return isinstance(x, Node)


class Node(object):
    __slots__ = ('op', 'args', 'sort', 'id', '_nf')
    __array_priority__ = -1.0

    # ---- numbers.Number-like protocol -------------------------------
    def __hash__(self):
        # every symbolic value shares one hash, so that dict/set/hash-table
        # membership is decided by (symbolic) equality
        return 7

    def _b(self, o, f, name=None, rev=False):
        if not isinstance(o, Node):
            if isinstance(o, (float, np.floating)) and not (
                    -MAXF <= o <= MAXF):
                return nonfinite(name, self, float(o), rev)
            o = lift(o)
            if o is None:
                return NotImplemented
        r = f(o, self) if rev else f(self, o)
        if ENGINE is not None and ENGINE.fp and name in FP_OPS:
            return fp_result(name, self, o, r, rev)
        return r

    def __add__(self, o):
        return self._b(o, add, 'add')
    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, sub, 'sub')

    def __rsub__(self, o):
        return self._b(o, sub, 'sub', True)

    def __mul__(self, o):
        return self._b(o, mul, 'mul')
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, div, 'div')

    def __rtruediv__(self, o):
        return self._b(o, div, 'div', True)

    def __pow__(self, o):
        return self._b(o, power, 'pow')

    def __rpow__(self, o):
        return self._b(o, power, 'pow', True)

    def __neg__(self):
        return mul(const(-1), self)

    def __pos__(self):
        return self

    def __abs__(self):
        return fabs(self)

    def __floordiv__(self, o):
        raise Unsupported('floordiv')

    def __mod__(self, o):
        raise Unsupported('mod')

    def __float__(self):
        if self.op == 'const':
            return float(self.args)
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.op == 'const' and self.args.denominator == 1:
            return int(self.args)
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        if self.op == 'const' and self.args.denominator == 1:
            return int(self.args)
        raise Unsupported('index with a symbolic value')

    def __round__(self, n=None):
        raise Unsupported('round() of a symbolic value')

    # comparisons -------------------------------------------------------
    def __lt__(self, o):
        return self._b(o, lambda a, b: cmp_('<', a, b), 'lt')

    def __le__(self, o):
        return self._b(o, lambda a, b: cmp_('<=', a, b), 'lt')

    def __gt__(self, o):
        return self._b(o, lambda a, b: cmp_('<', b, a), 'gt')

    def __ge__(self, o):
        return self._b(o, lambda a, b: cmp_('<=', b, a), 'gt')

    def __eq__(self, o):
        l = lift_eq(o)
        if l is None:
            return NotImplemented if isinstance(o, (np.ndarray,)) or hasattr(
                o, '__array__') else False
        if l is False:
            return False
        return cmp_('==', self, l)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, Node):
            return not_(r)
        return not r

    def __bool__(self):
        if self.sort == 'B':
            return ENGINE.decide(self)
        return ENGINE.decide(not_(cmp_('==', self, const(0)))) \
            if self.op != 'const' else self.args != 0

    # boolean algebra -----------------------------------------------------
    def __and__(self, o):
        return bool(self) & bool(o)
    __rand__ = __and__

    def __or__(self, o):
        return bool(self) | bool(o)
    __ror__ = __or__

    def __invert__(self):
        return not bool(self)

    # numpy object-array ufunc hooks -------------------------------------
    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def log1p(self):
        return log(add(const(1), self))

    def expm1(self):
        return sub(exp(self), const(1))

    def sqrt(self):
        return sqrt(self)

    def square(self):
        return mul(self, self)

    def conjugate(self):
        return self

    def is_integer(self):
        if self.sort == 'I':
            return True
        raise Unsupported('is_integer')

    def item(self):
        return self

    def __repr__(self):
        return 'Sym<%s>' % show(self)

    def __str__(self):
        return show(self)

    def __format__(self, spec):
        return ENGINE.name_of(self) if ENGINE is not None else show(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')


numbers.Number.register(Node)

MAXF = float(np.finfo(float).max)
INF = float('inf')
NAN = float('nan')


def _sgn(x):
    if x.op == 'const':
        return (x.args > 0) - (x.args < 0)
    if cmp_('==', x, ZERO).__bool__():
        return 0
    return 1 if bool(cmp_('<', ZERO, x)) else -1


def nonfinite(name, x, v, rev):
    """IEEE result of (finite Node x) op (non-finite float v)."""
    if name in ('lt', 'gt'):
        return False if v != v else (v > 0) == (name == 'lt')
    if v != v:
        return NAN
    if name == 'add':
        return v
    if name == 'sub':
        return v if rev else -v
    if name == 'mul':
        s = _sgn(x)
        return NAN if s == 0 else s * v
    if name == 'div':
        if not rev:
            return ZERO
        s = _sgn(x)
        return v if s >= 0 else -v
    if name == 'pow' and not rev:
        if v > 0:
            if bool(cmp_('<', ONE, x)):
                return INF
            return ONE if bool(cmp_('==', x, ONE)) else ZERO
        if bool(cmp_('<', ONE, x)):
            return ZERO
        return ONE if bool(cmp_('==', x, ONE)) else INF
    if name == 'pow' and rev:
        s = _sgn(x)
        if v > 0:
            return INF if s > 0 else ONE if s == 0 else ZERO
    raise Unsupported('non-finite operand of ' + str(name))


def lift_eq(o):
    if isinstance(o, Node):
        return o
    if isinstance(o, (float, np.floating)) and (
            o != o or o in (float('inf'), float('-inf'))):
        return False
    return lift(o)


ZERO = const(0)
ONE = const(1)
MONE = const(-1)


def _sort2(a, b):
    return 'I' if a.sort == 'I' and b.sort == 'I' else 'R'


def _csort(n):
    # integer constants act as either sort
    return n.sort == 'I' or (n.op == 'const' and n.args.denominator == 1)


def add(a, b):
    if a.sort == 'B':
        a = const(bool(a))
    if b.sort == 'B':
        b = const(bool(b))
    if a.op == 'const':
        if b.op == 'const':
            return const(a.args + b.args)
        if a.args == 0:
            return b
    elif b.op == 'const' and b.args == 0:
        return a
    s = 'I' if _csort(a) and _csort(b) else 'R'
    if a.id > b.id:
        a, b = b, a
    return _mk('add', (a, b), s)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, mul(MONE, b))


def mul(a, b):
    if a.sort == 'B':
        a = const(bool(a))
    if b.sort == 'B':
        b = const(bool(b))
    if b.op == 'const':
        a, b = b, a
    if a.op == 'const':
        if b.op == 'const':
            return const(a.args * b.args)
        if a.args == 0:
            return ZERO
        if a.args == 1:
            return b
        if b.op == 'mul' and b.args[0].op == 'const':
            return mul(const(a.args * b.args[0].args), b.args[1])
    s = 'I' if _csort(a) and _csort(b) else 'R'
    if a.op != 'const' and a.id > b.id:
        a, b = b, a
    return _mk('mul', (a, b), s)


def div(a, b):
    if b.op == 'const':
        if b.args == 0:
            raise ZeroDivisionError
        return mul(const(1 / b.args), a) if a.op != 'const' else const(
            a.args / b.args)
    if a.op == 'const' and a.args == 0:
        return ZERO
    return _mk('div', (a, b), 'R')


def power(a, b):
    if b.op == 'const':
        e = b.args
        if a.op == 'const':
            if e.denominator == 1:
                return const(a.args ** int(e))
            if a.args == 1:
                return ONE
            if a.args == 0 and e > 0:
                return ZERO
        if e == 0:
            return ONE
        if e == 1:
            return a
        return _mk('pow', (a, b), 'R')
    if a.op == 'const' and a.args == 1:
        return ONE
    return exp(mul(b, log(a)))


def exp(a):
    a = lift(a)
    if a.op == 'const' and a.args == 0:
        return ONE
    return _mk('exp', (a,), 'R')


def log(a):
    a = lift(a)
    if a.op == 'const' and a.args == 1:
        return ZERO
    return _mk('log', (a,), 'R')


def sqrt(a):
    a = lift(a)
    if a.op == 'const' and a.args in (0, 1):
        return a
    return _mk('pow', (a, const(Fraction(1, 2))), 'R')


def fabs(a):
    a = lift(a)
    if a.op == 'const':
        return const(abs(a.args))
    s = sign_of(nf(a))
    if s in ('+', '0+', '0'):
        return a
    if s in ('-', '0-'):
        return mul(MONE, a)
    return _mk('abs', (a,), 'R')


def uf(name, *args):
    """Uninterpreted real function (functional consistency via the nf key)."""
    args = tuple(lift(a) for a in args)
    # the normal cdf and quantile function through their odd parts
    # O(x) = cdf(x) - 1/2 and Q(q) = ppf(q + 1/2), so that sf/cdf/isf/ppf
    # written in different ways agree
    half = const(Fraction(1, 2))
    if name == 'norm_cdf':
        return add(half, uf('norm_O', args[0]))
    if name == 'norm_sf':
        return sub(half, uf('norm_O', args[0]))
    if name == 'norm_ppf':
        return uf('norm_Q', sub(args[0], half))
    if name == 'norm_isf':
        return mul(const(-1), uf('norm_Q', sub(args[0], half)))
    return _mk('uf', (name,) + args, 'R')


def cmp_(op, a, b):
    if op not in ('<', '<=', '=='):
        raise ValueError(op)
    a = lift(a)
    b = lift(b)
    if a is b:
        return op != '<'
    if a.op == 'const' and b.op == 'const':
        return (a.args < b.args if op == '<' else
                a.args <= b.args if op == '<=' else a.args == b.args)
    if op == '==' and a.id > b.id:
        a, b = b, a
    return _mk('cmp', (op, a, b), 'B')


def not_(a):
    if isinstance(a, (bool, np.bool_)):
        return not a
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,), 'B')


def and_(*xs):
    out = []
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if not x:
                return False
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return _mk('and', tuple(out), 'B')


def or_(*xs):
    out = []
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if x:
                return True
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return _mk('or', tuple(out), 'B')


def show(n, d=4):
    if n.op == 'const':
        return str(n.args) if n.args.denominator == 1 else '%.6g' % float(n.args)
    if n.op == 'var':
        return n.args
    if d == 0:
        return '..'
    if n.op == 'cmp':
        return '(%s %s %s)' % (show(n.args[1], d - 1), n.args[0],
                               show(n.args[2], d - 1))
    return '%s(%s)' % (n.op, ', '.join(
        show(a, d - 1) if isinstance(a, Node) else str(a) for a in n.args))


# ---------------------------------------------------------------------------
# numeric evaluation
# ---------------------------------------------------------------------------
UF_IMPL = {}


def _norm_impl():
    import scipy.stats
    n = scipy.stats.norm
    cdf, ppf = n.cdf, n.ppf
    UF_IMPL['norm_O'] = lambda x: float(cdf(x)) - 0.5
    UF_IMPL['norm_Q'] = lambda q: float(ppf(q + 0.5))
    UF_IMPL['norm_pdf'] = lambda x: float(n.pdf(x))


_norm_impl()


def evaluate(n, env, cache=None):
    """Float evaluation of a term at a point (iterative)."""
    if not isinstance(n, Node):
        return n
    if cache is None:
        cache = {}
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in cache:
            stack.pop()
            continue
        if x.op == 'const':
            cache[x.id] = float(x.args)
            stack.pop()
            continue
        if x.op == 'var':
            cache[x.id] = env[x.args]
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, Node) and a.id not in cache]
        if todo:
            stack.extend(todo)
            continue
        v = [cache[a.id] if isinstance(a, Node) else a for a in x.args]
        o = x.op
        try:
            if o == 'add':
                r = v[0] + v[1]
            elif o == 'mul':
                r = v[0] * v[1]
            elif o == 'div':
                r = v[0] / v[1]
            elif o == 'pow':
                r = v[0] ** v[1]
            elif o == 'exp':
                r = math.exp(v[0])
            elif o == 'log':
                r = math.log(v[0])
            elif o == 'abs':
                r = abs(v[0])
            elif o == 'uf':
                r = UF_IMPL[v[0]](*v[1:])
            elif o == 'cmp':
                r = (v[1] < v[2] if v[0] == '<' else v[1] <= v[2]
                     if v[0] == '<=' else v[1] == v[2])
            elif o == 'not':
                r = not v[0]
            elif o == 'and':
                r = all(v)
            elif o == 'or':
                r = any(v)
            else:
                raise Unsupported('evaluate ' + o)
        except (ZeroDivisionError, OverflowError, ValueError):
            r = float('nan')
        if isinstance(r, complex):
            r = float('nan')
        cache[x.id] = r
        stack.pop()
    return cache[n.id]


# ---------------------------------------------------------------------------
# symbolic differentiation
# ---------------------------------------------------------------------------
def diff(n, x, cache=None):
    if cache is None:
        cache = {}
    n = lift(n)
    stack = [n]
    while stack:
        t = stack[-1]
        if t.id in cache:
            stack.pop()
            continue
        if t.op == 'const':
            cache[t.id] = ZERO
            stack.pop()
            continue
        if t.op == 'var':
            cache[t.id] = ONE if t is x else ZERO
            stack.pop()
            continue
        todo = [a for a in t.args if isinstance(a, Node) and a.id not in cache]
        if todo:
            stack.extend(todo)
            continue
        a = t.args
        if t.op == 'add':
            r = add(cache[a[0].id], cache[a[1].id])
        elif t.op == 'mul':
            r = add(mul(cache[a[0].id], a[1]), mul(a[0], cache[a[1].id]))
        elif t.op == 'div':
            da, db = cache[a[0].id], cache[a[1].id]
            r = sub(div(da, a[1]), mul(div(a[0], a[1]), div(db, a[1]))
                    if db is not ZERO else ZERO)
        elif t.op == 'exp':
            r = mul(t, cache[a[0].id])
        elif t.op == 'log':
            r = div(cache[a[0].id], a[0])
        elif t.op == 'pow':
            d = cache[a[0].id]
            r = ZERO if d is ZERO else mul(
                mul(a[1], power(a[0], const(a[1].args - 1))), d)
        elif t.op == 'abs' and cache[a[0].id] is ZERO:
            r = ZERO
        elif t.op == 'uf' and all(cache[y.id] is ZERO for y in a[1:]):
            r = ZERO
        else:
            raise Unsupported('diff ' + t.op)
        cache[t.id] = r
        stack.pop()
    return cache[n.id]


def variables(ns):
    seen, out, stack = set(), {}, [n for n in ns if isinstance(n, Node)]
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'var':
            out[t.args] = t
        elif t.op != 'const':
            stack.extend(a for a in t.args if isinstance(a, Node))
    return out


# ---------------------------------------------------------------------------
# normal form: coef * prod base**e
# ---------------------------------------------------------------------------
class Base(object):
    """An indivisible factor: variable, exp/log/abs/uf atom, or polynomial."""
    __slots__ = ('id', 'kind', 'data', 'sign')


BASES = []
_btable = {}


def _base(kind, data, sign=None):
    key = (kind, data)
    b = _btable.get(key)
    if b is None:
        b = Base()
        b.id = len(BASES)
        b.kind = kind
        b.data = data
        b.sign = sign
        BASES.append(b)
        _btable[key] = b
    elif kind == 'var':
        b.sign = sign
    return b.id


# FProd: (coef, {base_id: Fraction}) ; polynomial: dict {mono: coef}, with
# mono = tuple(sorted((base_id, exponent)))
def fp_key(f):
    return (f[0], tuple(sorted(f[1].items())))


def fp_mul(f, g):
    if f[0] == 0 or g[0] == 0:
        return (Fraction(0), {})
    if len(f[1]) < len(g[1]):
        f, g = g, f
    d = dict(f[1])
    for b, e in g[1].items():
        ne = d.get(b, 0) + e
        if ne == 0:
            del d[b]
        else:
            d[b] = ne
    c = f[0] * g[0]
    if ROOTS:
        for b in [b for b in d if b in ROOTS]:
            k = d[b].numerator // d[b].denominator      # floor
            if k:
                c = c * ROOTS[b] ** k
                d[b] = d[b] - k
                if d[b] == 0:
                    del d[b]
    return (c, d)


ROOTS = {}                  # base of exp(log q), q prime -> q


def _big_exp(c):
    """rational close to exp(c); far outside the range of doubles only its
    side of that range matters"""
    c = max(Fraction(-3000), min(Fraction(3000), c))
    k = 1 + int(abs(c)) // 500
    return Fraction(math.exp(float(c / k))) ** k


def const_pow(c, e):
    """c ** e for a positive rational c, through prime roots in [0, 1)."""
    if _fp() and Fraction(e).denominator > 8:
        return (_big_exp(Fraction(e) * Fraction(
            math.log(c.numerator) - math.log(c.denominator))), {})
    out = (Fraction(1), {})
    fac = _small_factors(c.numerator)
    for q, k in _small_factors(c.denominator).items():
        fac[q] = fac.get(q, 0) - k
    for q, k in sorted(fac.items()):
        if not k:
            continue
        b = _base('exp', ((_base('log', Fraction(q)), Fraction(1)),), '+')
        ROOTS[b] = Fraction(q)
        out = fp_mul(out, (Fraction(1), {b: Fraction(e) * k}))
    return fp_mul(out, (Fraction(1), {}))


def fp_pow(f, e):
    if f[0] == 0:
        if e > 0:
            return (Fraction(0), {})
        raise ZeroDivisionError
    if Fraction(e).denominator == 1:
        return (f[0] ** int(e), {b: x * e for b, x in f[1].items()})
    if not f[1] and f[0] > 0:
        return const_pow(f[0], e)
    # fractional power of the whole (assumed >= 0)
    e = Fraction(e)
    if f[0] > 0:
        out, odd = {}, 0
        for b, x in f[1].items():
            if base_sign(b) in ('+', '0+') or x.denominator != 1:
                out[b] = out.get(b, 0) + x * e
            elif x % 2 == 0:
                k = _base('abs', fp_key((Fraction(1), {b: Fraction(1)})),
                          '0+')
                out[k] = out.get(k, 0) + x * e
            else:
                odd += 1
                out[b] = out.get(b, 0) + x * e
        if odd <= 1:
            r = const_pow(f[0], e) if f[0] != 1 else (Fraction(1), {})
            return fp_mul(r, (Fraction(1), {b: x for b, x in out.items()
                                            if x}))
    return (Fraction(1), {_base('poly', _poly_key(fp_expand(f)[1])): Fraction(e)})\
        if not any(x < 0 for x in f[1].values()) else \
        (Fraction(1), {_base('fp', fp_key(f), '0+'): Fraction(e)})


def _poly_key(p):
    return tuple(sorted(p.items()))


def _mono_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for b, e in n:
        ne = d.get(b, 0) + e
        if ne == 0:
            del d[b]
        else:
            d[b] = ne
    return tuple(sorted(d.items()))


MAX_TERMS = 400000


def poly_mul(p, q):
    if len(p) * len(q) > 40 * MAX_TERMS:
        raise Unsupported('polynomial too large')
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = _mono_mul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                del r[k]
            else:
                r[k] = v
    if len(r) > MAX_TERMS:
        raise Unsupported('polynomial too large')
    return r


def fp_expand(f):
    """-> (True, poly) expanding poly bases with positive integer exponents;
    other exponents stay inside monomials."""
    c, d = f
    if c == 0:
        return True, {}
    mono = {}
    polys = []
    for b, e in d.items():
        B = BASES[b]
        if B.kind == 'poly' and e > 0 and e.denominator == 1:
            polys.append((dict(B.data), int(e)))
        else:
            mono[b] = e
    p = {tuple(sorted(mono.items())): c}
    for q, e in polys:
        for _ in range(e):
            p = poly_mul(p, q)
    return True, p


def fp_sum(fs):
    fs = [f for f in fs if f[0] != 0]
    if not fs:
        return (Fraction(0), {})
    if len(fs) == 1:
        return fs[0]
    # merge identical products first
    acc = {}
    for f in fs:
        k = tuple(sorted(f[1].items()))
        v = acc.get(k, 0) + f[0]
        if v == 0:
            del acc[k]
        else:
            acc[k] = v
    if not acc:
        return (Fraction(0), {})
    fs = [(c, dict(k)) for k, c in acc.items()]
    if len(fs) == 1:
        return fs[0]
    # common factor
    common = dict(fs[0][1])
    for b in list(common):
        if common[b] > 0:
            pass
    allb = set()
    for f in fs:
        allb.update(f[1])
    common = {}
    for b in allb:
        e = min(f[1].get(b, Fraction(0)) for f in fs)
        if e != 0:
            common[b] = e
    total = {}
    inv = {b: -e for b, e in common.items()}
    for f in fs:
        g = fp_mul(f, (Fraction(1), inv))
        _, p = fp_expand(g)
        for m, c in p.items():
            v = total.get(m, 0) + c
            if v == 0:
                del total[m]
            else:
                total[m] = v
    res = fp_mul((Fraction(1), common), poly_to_fp(total))
    if res[0] != 0 and sign_of(res) is None:
        ss = set(sign_of(f) for f in fs)
        for want, weak in (('+', '0+'), ('-', '0-')):
            if want in ss and ss <= {want, weak}:
                _deduce(res, want)
    return res


def _deduce(f, want):
    """The product f is known to have the strict sign `want`; record what that
    says about its only factor of unknown sign."""
    unknown = []
    s = 1 if f[0] > 0 else -1
    for b, e in f[1].items():
        x = base_sign(b)
        if e.denominator != 1 or e % 2 == 0:
            continue
        if x in ('+', '-'):
            s = -s if x == '-' else s
        else:
            unknown.append(b)
    if len(unknown) == 1 and BASES[unknown[0]].kind == 'poly' and \
            BASES[unknown[0]].sign is None:
        BASES[unknown[0]].sign = want if s > 0 else _neg(want)


def poly_to_fp(p):
    """Primitive factored form of a polynomial."""
    if not p:
        return (Fraction(0), {})
    if len(p) == 1:
        (m, c), = p.items()
        return (c, dict(m))
    # monomial content
    it = iter(p)
    cont = dict(next(it))
    for m in it:
        if not cont:
            break
        d = dict(m)
        for b in list(cont):
            e = min(cont[b], d.get(b, Fraction(0)))
            if e == 0:
                del cont[b]
            else:
                cont[b] = e
        # bases with negative exponent absent from cont
    neg = {}
    for m in p:
        for b, e in m:
            if e < 0 and (b not in cont):
                neg[b] = min(neg.get(b, 0), e)
    for b, e in neg.items():
        cont[b] = e
    if cont:
        inv = tuple(sorted((b, -e) for b, e in cont.items()))
        p = {_mono_mul(m, inv): c for m, c in p.items()}
    lead = min(p)          # deterministic leading monomial
    lead = max(p)
    c = p[lead]
    if c != 1:
        p = {m: v / c for m, v in p.items()}
    b = _base('poly', _poly_key(p))
    cont = dict(cont)
    cont[b] = cont.get(b, Fraction(0)) + 1
    return (c, cont)


def _binomial(b):
    """poly base x + c with x a power of one base -> (x base, exponent, c)"""
    data = BASES[b].data
    if len(data) != 2:
        return None
    (m, c), (n, d) = data
    if m:
        m, c, n, d = n, d, m, c
    if m or len(n) != 1 or d != 1 or n[0][1] <= 0:
        return None
    return n[0][0], n[0][1], c


def _partial_fractions(p):
    """Canonical form of monomials over binomial denominators (x + c)."""
    out, todo, steps = {}, list(p.items()), 0
    while todo:
        m, c = todo.pop()
        steps += 1
        d = dict(m)
        hit = None
        for b, e in m:
            if e < 0 and e.denominator == 1 and BASES[b].kind == 'poly':
                q = _binomial(b)
                if q is not None:
                    x = d.get(q[0], 0)
                    if x >= q[1] or x < 0 and x <= -q[1]:
                        hit = (b, q, x)
                        break
        if hit is None or steps > 5000:
            v = out.get(m, 0) + c
            if v == 0:
                out.pop(m, None)
            else:
                out[m] = v
            continue
        b, (x, k, z), e = hit
        if e > 0:
            # x^k = (x^k + z) - z
            r = _mono_mul(m, ((x, -k),))
            todo.append((_mono_mul(r, ((b, Fraction(1)),)), c))
            todo.append((r, -z * c))
        else:
            # 1/(x^k (x^k+z)) = (1/x^k - 1/(x^k+z)) / z
            todo.append((_mono_mul(m, ((b, Fraction(1)),)), c / z))
            todo.append((_mono_mul(m, ((x, k),)), -c / z))
    return out


def _exp_fp(a):
    """nf of exp(argument nf a)."""
    _, p = fp_expand(a)
    if any(e < 0 and BASES[b].kind == 'poly' for m in p for b, e in m):
        p = _partial_fractions(p)
    out = (Fraction(1), {})
    for m, c in p.items():
        if m and all(BASES[b].kind == 'log' for b, e in m) and len(m) == 1 \
                and m[0][1] == 1:
            lb = BASES[m[0][0]].data
            if _fp() and (c.denominator > 8 or abs(c) > 16):
                pass
            elif isinstance(lb, int):
                if c.denominator == 1 or BASES[lb].kind in ('poly', 'var',
                                                            'fp', 'uf'):
                    out = fp_mul(out, (Fraction(1), {lb: c}))
                    continue
            else:
                out = fp_mul(out, const_pow(lb, c))
                continue
        if _fp() and (c.denominator > 8 or abs(c) > 16):
            if not m:
                out = fp_mul(out, (_big_exp(c), {}))
                continue
            m, c = ((_base('poly', ((m, c),)), Fraction(1)),), Fraction(1)
        out = fp_mul(out, (Fraction(1), {_base('exp', m, '+'): c}))
    return out


def _small_factors(n):
    """{prime: exponent} for the primes below 1000, plus the cofactor."""
    out = {}
    q = 2
    while q < 1000 and q * q <= n:
        while n % q == 0:
            out[q] = out.get(q, 0) + 1
            n //= q
        q += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _log_terms(f):
    """nf list of log|f|."""
    terms = []
    c, d = f
    if c == 0:
        raise ZeroDivisionError
    c = abs(c)
    if c != 1:
        fac = _small_factors(c.numerator)
        for q, k in _small_factors(c.denominator).items():
            fac[q] = fac.get(q, 0) - k
        for q, k in sorted(fac.items()):
            if k:
                terms.append((Fraction(k), {_base('log', Fraction(q)):
                                            Fraction(1)}))
    for b, e in d.items():
        B = BASES[b]
        if B.kind == 'exp':
            terms.append((e, dict(B.data)))
        else:
            terms.append((e, {_base('log', b): Fraction(1)}))
    return terms


def nf(n):
    if n._nf is not None:
        return n._nf
    stack = [n]
    while stack:
        t = stack[-1]
        if t._nf is not None:
            stack.pop()
            continue
        if t.op == 'add':
            # flatten
            leaves, st, ok = [], [t], True
            while st:
                y = st.pop()
                if y.op == 'add' and y._nf is None:
                    st.extend(y.args)
                else:
                    leaves.append(y)
            todo = [y for y in leaves if y._nf is None]
            if todo:
                stack.extend(todo)
                continue
            t._nf = fp_sum([y._nf for y in leaves])
            stack.pop()
            continue
        todo = [a for a in t.args if isinstance(a, Node) and a._nf is None] \
            if t.op not in ('const', 'var') else []
        if todo:
            stack.extend(todo)
            continue
        o = t.op
        if o == 'const':
            r = (t.args, {})
        elif o == 'var':
            s = VARS[t.args]
            r = (Fraction(1), {_base('var', t.args, s[1]): Fraction(1)})
        elif o == 'mul':
            r = fp_mul(t.args[0]._nf, t.args[1]._nf)
        elif o == 'div':
            r = fp_mul(t.args[0]._nf, fp_pow(t.args[1]._nf, -1))
        elif o == 'pow':
            r = fp_pow(t.args[0]._nf, t.args[1].args)
        elif o == 'exp':
            r = _exp_fp(t.args[0]._nf)
        elif o == 'log':
            r = fp_sum(_log_terms(t.args[0]._nf))
        elif o == 'abs':
            a = t.args[0]._nf
            s = sign_of(a)
            if s in ('+', '0+', '0'):
                r = a
            elif s in ('-', '0-'):
                r = (-a[0], a[1])
            else:
                r = (abs(a[0]), {_base('abs', fp_key((Fraction(1), a[1])),
                                       '0+'): Fraction(1)})
        elif o == 'uf' and t.args[0] in ('norm_O', 'norm_Q'):
            a = t.args[1]._nf
            if a[0] == 0:
                r = a
            else:
                r = (Fraction(1 if a[0] > 0 else -1),
                     {_base('uf', (t.args[0], fp_key((abs(a[0]), a[1])))):
                      Fraction(1)})
        elif o == 'uf':
            r = (Fraction(1), {_base('uf', (t.args[0],) + tuple(
                fp_key(a._nf) for a in t.args[1:])): Fraction(1)})
        else:
            raise Unsupported('nf ' + o)
        t._nf = r
        stack.pop()
    return n._nf


_CONSTV = {}


def base_value(b):
    """float value of a base without variables, else None"""
    if b in _CONSTV:
        return _CONSTV[b]
    B = BASES[b]
    v = None
    try:
        if b in ROOTS:
            v = float(ROOTS[b])
        elif B.kind == 'poly':
            v = 0.0
            for m, c in B.data:
                t = fp_value((c, dict(m)))
                v = None if t is None or v is None else v + t
        elif B.kind == 'exp':
            t = fp_value((Fraction(1), dict(B.data)))
            v = None if t is None else math.exp(t)
        elif B.kind == 'log':
            t = base_value(B.data) if isinstance(B.data, int) \
                else float(B.data)
            v = None if t is None else math.log(t)
        elif B.kind in ('abs', 'fp'):
            t = fp_value((B.data[0], dict(B.data[1])))
            v = None if t is None else (abs(t) if B.kind == 'abs' else t)
        elif B.kind == 'uf':
            a = [fp_value((k[0], dict(k[1]))) for k in B.data[1:]]
            if not any(x is None for x in a) and B.data[0] in UF_IMPL:
                v = UF_IMPL[B.data[0]](*a)
    except (ValueError, OverflowError, ZeroDivisionError):
        v = None
    if v is not None and not (abs(v) < 1e6):
        v = None
    _CONSTV[b] = v
    return v


def fp_value(f):
    v = float(f[0])
    for b, e in f[1].items():
        x = base_value(b)
        if x is None:
            return None
        v *= x ** float(e)
    return v


def is_zero(n):
    return nf(n)[0] == 0


# ---- structural signs -----------------------------------------------------
def base_sign(b):
    B = BASES[b]
    if B.sign is not None:
        return B.sign
    if B.kind == 'poly':
        s = None
        strict = False
        for m, c in B.data:
            ms = '+' if c > 0 else '-'
            for bb, e in m:
                x = base_sign(bb)
                if x == '+':
                    continue
                if e.denominator == 1 and e % 2 == 0:
                    if x in ('-',):
                        continue
                    ms = {'+': '0+', '-': '0-', '0+': '0+', '0-': '0-'}[ms]
                    continue
                if x == '0+':
                    ms = {'+': '0+', '-': '0-', '0+': '0+', '0-': '0-'}[ms]
                elif x == '-':
                    ms = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}[ms]
                else:
                    return _poly_bound_sign(b, B.data)
            if s is None:
                s = ms[-1]
            elif s != ms[-1]:
                return _poly_bound_sign(b, B.data)
            if len(ms) == 1:
                strict = True
        return s if strict else '0' + s
    if B.kind == 'log':
        u = _unit(B.data) if isinstance(B.data, int) else \
            (1 if B.data > 1 else -1)
        return {1: '+', -1: '-'}.get(u)
    return None


_UNIT = {}


def _unit(b):
    """1: base > 1 everywhere, -1: 0 < base < 1 everywhere, 0: unknown"""
    r = _UNIT.get(b)
    if r is not None:
        return r
    B = BASES[b]
    r = 0
    if B.kind == 'exp':
        s = sign_of((Fraction(1), dict(B.data)))
        r = 1 if s == '+' else -1 if s == '-' else 0
    elif B.kind == 'poly':
        lo, hi, strict = _poly_bounds(B.data)
        if lo is not None and (lo > 1 or lo == 1 and strict):
            r = 1
        elif hi is not None and lo is not None and (hi < 1 or hi == 1
                and strict) and (lo > 0 or lo == 0 and strict):
            r = -1
    _UNIT[b] = r
    return r


def _poly_bounds(data):
    """Bounds (lower, upper, strict) from 0/1 bounds of the monomials."""
    lo, hi, strict = Fraction(0), Fraction(0), False
    for m, c in data:
        if not m:
            lo = lo + c if lo is not None else None
            hi = hi + c if hi is not None else None
            continue
        a, z = Fraction(1), Fraction(1)     # bounds of the monomial
        for bb, e in m:
            u = _unit(bb)
            if base_sign(bb) != '+' and not u:
                return None, None, False
            up = (u == 1 and e > 0) or (u == -1 and e < 0)
            dn = (u == -1 and e > 0) or (u == 1 and e < 0)
            if not up:
                a = Fraction(0)
            if not dn:
                z = None
        strict = True
        l, h = (a, z) if c > 0 else (z, a)
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
    return lo, hi, strict


_PBS = {}


def _poly_bound_sign(b, data):
    if b in _PBS:
        return _PBS[b]
    _PBS[b] = None
    r = _poly_bound_sign1(b, data)
    if r is None:
        r = _poly_exp_sign(data)
    _PBS[b] = r
    return r


def _neg(s):
    return {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}.get(s, s)


def _poly_exp_sign(data):
    """c*(A - B) with A, B products of exponentials: sign of log A - log B;
    sums with logarithms: sign of exp(sum) - 1."""
    if len(data) == 2 and data[0][1] == -data[1][1]:
        (m1, c), (m2, _) = data
        if all(BASES[b].kind == 'exp' for b, e in m1) and \
                all(BASES[b].kind == 'exp' for b, e in m2):
            fs = [(e, dict(BASES[b].data)) for b, e in m1] + \
                 [(-e, dict(BASES[b].data)) for b, e in m2]
            s = sign_of(fp_sum(fs))
            return s if c > 0 else _neg(s)
    if any(BASES[b].kind == 'log' for m, c in data for b, e in m) and \
            len(data) <= 6:
        for m, c in data:
            for b, e in m:
                if BASES[b].kind == 'log' and (
                        len(m) > 1 or e != 1 or c.denominator != 1 or abs(c) > 4):
                    return None
        g = _exp_fp((Fraction(1), {_base('poly', data): Fraction(1)}))
        if any(BASES[b].kind == 'log' for b in g[1]):
            return None
        return sign_of(fp_sum([g, (Fraction(-1), {})]))
    return None


def _poly_bound_sign1(b, data):
    lo, hi, strict = _poly_bounds(data)
    if lo is not None and (lo > 0 or (lo == 0 and strict)):
        return '+'
    if hi is not None and (hi < 0 or (hi == 0 and strict)):
        return '-'
    return None


def sign_of(f):
    """'+','-','0','0+','0-' or None."""
    if f[0] == 0:
        return '0'
    s = 1 if f[0] > 0 else -1
    weak = False
    for b, e in f[1].items():
        x = base_sign(b)
        if e.denominator == 1 and e % 2 == 0:
            if x not in ('+', '-'):
                weak = weak or e > 0
            continue
        if e.denominator != 1:
            # fractional power: defined only for nonnegative bases
            if x != '+':
                weak = weak or e > 0
            continue
        if x is None:
            return None
        if x[0] == '0':
            if e > 0:
                weak = True
        if x[-1] == '-':
            s = -s
    r = '+' if s > 0 else '-'
    return '0' + r if weak else r


# ---------------------------------------------------------------------------
# floating-point aware entry points.  In the default mode they are the exact
# real functions; with ENGINE.fp they model overflow to inf, underflow to 0
# and absorption into 1 by branching on the IEEE double thresholds.
# ---------------------------------------------------------------------------
EXP_MAX = Fraction(709782712893384, 10**12)
EXP_MIN = Fraction(-7451332191019412, 10**13)
TINY = Fraction(1, 2**54)


FP_OPS = ('add', 'sub', 'mul', 'div')
DENORMAL = Fraction(1, 2**1073)


def fp_result(name, a, b, r, rev):
    """Overflow, underflow to zero and absorption of one operation."""
    big = const(MAXF)
    if r.op == 'const':
        v = r.args
        if abs(v) > big.args:
            return INF if v > 0 else -INF
        if v != 0 and abs(v) < DENORMAL:
            return ZERO
        return r
    if name in ('add', 'sub'):
        for c, x in ((a, b), (b, a)):
            if c.op != 'const' or c.args == 0:
                continue
            t = const(abs(c.args) * TINY)
            nt = const(-abs(c.args) * TINY)
            if bool(cmp_('<=', x, t)) and bool(cmp_('<=', nt, x)):
                return c if (name == 'add' or (c is a) != rev) else \
                    mul(MONE, c)
            if bool(cmp_('<=', r, t)) and bool(cmp_('<=', nt, r)):
                return ZERO
    elif name == 'mul':
        cs = [abs(x.args) for x in (a, b) if x.op == 'const']
        if not cs or cs[0] > 10**100:
            if bool(cmp_('<', big, r)):
                return INF
            if bool(cmp_('<', r, const(-MAXF))):
                return -INF
    else:
        d = const(DENORMAL)
        if (a if rev else b).op != 'const' and bool(cmp_('<', r, d)) and \
                bool(cmp_('<', const(-DENORMAL), r)):
            return ZERO
    return r


def _fp():
    return ENGINE is not None and getattr(ENGINE, 'fp', False)


def exp_fp(x):
    x = lift(x)
    if _fp():
        if bool(cmp_('<', const(EXP_MAX), x)):
            return INF
        if bool(cmp_('<', x, const(EXP_MIN))):
            return ZERO
        if bool(cmp_('<=', x, const(TINY))) and \
                bool(cmp_('<=', const(-TINY), x)):
            return ONE
        if x.op == 'const':
            return const(Fraction(math.exp(float(x.args))))
    return exp(x)


def log_fp(x):
    x = lift(x)
    if x.op == 'const' and x.args <= 0:
        return -INF if x.args == 0 else NAN
    if _fp():
        if bool(cmp_('==', x, ZERO)):
            return -INF
        if bool(cmp_('<', x, ZERO)):
            return NAN
    return log(x)


def log1p_fp(x):
    x = lift(x)
    return log_fp(add(ONE, x))


def power_fp(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        a, b = float(a), float(b)
        if not (math.isfinite(a) and math.isfinite(b)):
            return float(np.power(a, b))
        a, b = const(a), const(b)
    if not isinstance(a, Node) or not isinstance(b, Node):
        o = b if isinstance(a, Node) else a
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            return nonfinite('pow', a if isinstance(a, Node) else b,
                             float(o), not isinstance(a, Node))
    a, b = lift(a), lift(b)
    if b.op != 'const' and nf(a)[0] == 0:
        if bool(cmp_('<', ZERO, b)):
            return ZERO
    if _fp() and (b.op != 'const' or b.args.denominator > 8 or
                  abs(b.args) > 16):
        la = log_fp(a)
        if not isinstance(la, Node):
            return la * _sgn(b)
        return exp_fp(mul(b, la))
    return power(a, b)
