"""Printing of Bool nodes as SMT-LIB over atoms (inputs, exp/log/... atoms)."""
from fractions import Fraction
import math
from math import gcd

from . import term as T


GRID = (-745, -700, -300, -37, 0, 37, 300, 700)


def _lcm(a, b):
    return a * b // gcd(a, b)


def num(q, real=True):
    q = Fraction(q)
    neg = q < 0
    q = abs(q)
    if q.denominator == 1:
        s = '%d%s' % (q.numerator, '.0' if real else '')
    else:
        s = '(/ %d.0 %d.0)' % (q.numerator, q.denominator)
    return '(- %s)' % s if neg else s


class Emit(object):
    def __init__(self, axioms='full'):
        self.axioms = axioms
        self.den = {}
        self.seen = set()
        self.lines = []
        self.emitted = {}
        self.inputs = {}     # input name -> smt symbol
        self.size = 0

    # -- pass 1: denominators of the exponents of every base ------------------
    def gather_fp(self, d):
        for b, e in d.items() if isinstance(d, dict) else d:
            self.den[b] = _lcm(self.den.get(b, 1), Fraction(e).denominator)
            self.gather_base(b)

    def gather_base(self, b):
        if b in self.seen:
            return
        self.seen.add(b)
        B = T.BASES[b]
        if B.kind == 'poly':
            for m, c in B.data:
                self.gather_fp(m)
        elif B.kind == 'exp':
            self.gather_fp(B.data)
        elif B.kind == 'log':
            if isinstance(B.data, int):
                self.gather_base(B.data)
                self.den.setdefault(B.data, 1)
        elif B.kind in ('abs', 'fp'):
            self.gather_fp(B.data[1])
        elif B.kind == 'uf':
            for k in B.data[1:]:
                self.gather_fp(k[1])

    def gather(self, n):
        if not isinstance(n, T.Node):
            return
        if n.op == 'cmp':
            for f in (T.nf(n.args[1]), T.nf(n.args[2])):
                self.gather_fp(f[1])
            f = T.nf(T.sub(n.args[1], n.args[2]))
            self.gather_fp(f[1])
        elif n.op in ('not', 'and', 'or'):
            for a in n.args:
                self.gather(a)
        elif n.op == 'bvar':
            pass
        else:
            raise T.Unsupported('emit ' + n.op)

    # -- pass 2 ------------------------------------------------------------
    def base(self, b):
        """symbol for base**(1/den)"""
        s = self.emitted.get(b)
        if s is not None:
            return s
        B = T.BASES[b]
        L = self.den.get(b, 1)
        if B.kind == 'var':
            sym = '|%s|' % B.data
            sort = T.VARS[B.data][0]
            self.lines.append('(declare-const %s %s)' % (
                sym, 'Int' if sort == 'I' else 'Real'))
            self.inputs[B.data] = sym
            s = '(to_real %s)' % sym if sort == 'I' else sym
            sg = T.VARS[B.data][1]
            if sg:
                self.lines.append('(assert (%s %s 0))' % (
                    {'+': '>', '0+': '>=', '-': '<'}[sg], sym))
        elif B.kind == 'poly':
            body = self.poly(B.data)
            s = 'k!p%d' % b
            self.lines.append('(define-fun %s () Real %s)' % (s, body))
        elif B.kind == 'exp':
            s = 'k!e%d' % b
            self.lines.append('(declare-const %s Real)' % s)
            self.emitted[b] = s
            self.lines.append('(assert (> %s 0.0))' % s)
            if self.axioms == 'full' and all(e > 0 for _, e in B.data):
                arg = self.mono(B.data, Fraction(1, L))
                if T._fp() and L == 1:
                    # monotonicity at a few constants
                    for c in GRID:
                        self.lines.append('(assert (= (<= %s %s) (<= %s %s)))'
                                          % (arg, num(c), s,
                                             num(Fraction(math.exp(c)))))
                self.lines.append('(assert (>= %s (+ 1.0 %s)))' % (s, arg))
                self.lines.append('(assert (<= (* %s (- 1.0 %s)) 1.0))'
                                  % (s, arg))
                self.lines.append('(assert (=> (> %s 0.0) (> %s 1.0)))'
                                  % (arg, s))
                self.lines.append('(assert (=> (< %s 0.0) (< %s 1.0)))'
                                  % (arg, s))
            return s
        elif B.kind == 'log':
            s = 'k!l%d' % b
            self.lines.append('(declare-const %s Real)' % s)
            self.emitted[b] = s
            if isinstance(B.data, int):
                if self.axioms == 'full':
                    L2 = self.den.get(B.data, 1)
                    x = self.base(B.data)
                    if L2 == 1:
                        self.lines.append(
                            '(assert (=> (> %s 0.0) (<= %s (- %s 1.0))))'
                            % (x, s, x))
                        self.lines.append(
                            '(assert (=> (> %s 0.0) (>= (* %s %s) '
                            '(- %s 1.0))))' % (x, s, x, x))
            else:
                # log of a positive rational constant: rational enclosure
                v = math.log(B.data.numerator) - math.log(B.data.denominator)
                lo, hi = Fraction(v) - Fraction(1, 10**9), \
                    Fraction(v) + Fraction(1, 10**9)
                self.lines.append('(assert (and (< %s %s) (< %s %s)))' % (
                    num(lo), s, s, num(hi)))
            return s
        elif B.kind == 'abs':
            x = self.fprod((Fraction(1), dict(B.data[1])))
            s = '(ite (>= %s 0.0) %s (- %s))' % (x, x, x)
        elif B.kind == 'fp':
            s = self.fprod((B.data[0], dict(B.data[1])))
        elif B.kind == 'uf':
            s = 'k!u%d' % b
            self.lines.append('(declare-const %s Real)' % s)
            self.uf_axioms(B, s)
        else:
            raise T.Unsupported(B.kind)
        if L > 1 and B.kind != 'exp':
            r = 'k!r%d' % b
            self.lines.append('(declare-const %s Real)' % r)
            self.lines.append('(assert (>= %s 0.0))' % r)
            self.lines.append('(assert (= (* %s) %s))' % (
                ' '.join([r] * L), s))
            s = r
        self.emitted[b] = s
        return s

    def uf_axioms(self, B, s):
        """facts about the normal distribution functions"""
        name = B.data[0]
        if name not in ('norm_O', 'norm_Q'):
            return
        if name == 'norm_O':
            self.lines.append('(assert (and (< (- 0.5) %s) (< %s 0.5)))'
                              % (s, s))
        c, m = B.data[1]
        v = T.fp_value((c, dict(m)))
        if v is not None:
            v = T.UF_IMPL[name](v)
            if v == v and abs(v) < 1e6:
                v = Fraction(v)
                d = Fraction(1, 10**7)
                self.lines.append('(assert (and (< %s %s) (< %s %s)))' % (
                    num(v - d), s, s, num(v + d)))
        elif self.axioms == 'full':
            x = self.fprod((c, dict(m)))
            self.lines.append('(assert (=> (> %s 0.0) (> %s 0.0)))' % (x, s))
            self.lines.append('(assert (=> (< %s 0.0) (< %s 0.0)))' % (x, s))

    def factors(self, b, e):
        """list of symbols for base**e (e>0)"""
        L = self.den.get(b, 1)
        k = Fraction(e) * L
        if k.denominator != 1 or k < 0 or k > 64:
            raise T.Unsupported('exponent %s' % e)
        return [self.base(b)] * int(k)

    def mono(self, m, c):
        fs = []
        for b, e in (m.items() if isinstance(m, dict) else m):
            if e < 0:
                # quotient inside a polynomial: fresh inverse symbol
                fs.extend([self.inverse(b)] * int(-e * self.den.get(b, 1)))
            else:
                fs.extend(self.factors(b, e))
        self.size += 1 + len(fs)
        if not fs:
            return num(c)
        if c == 1:
            return fs[0] if len(fs) == 1 else '(* %s)' % ' '.join(fs)
        return '(* %s %s)' % (num(c), ' '.join(fs))

    def inverse(self, b):
        key = ('inv', b)
        s = self.emitted.get(key)
        if s is None:
            x = self.base(b)
            s = 'k!i%d' % b
            self.lines.append('(declare-const %s Real)' % s)
            self.lines.append('(assert (= (* %s %s) 1.0))' % (s, x))
            self.emitted[key] = s
        return s

    def poly(self, data):
        ts = [self.mono(m, c) for m, c in data]
        return ts[0] if len(ts) == 1 else '(+ %s)' % ' '.join(ts)

    def fprod(self, f):
        return self.mono(f[1], f[0])

    # comparisons -------------------------------------------------------------
    def int_poly(self, f, scale=False):
        """Int-sorted printing of nf f, or None."""
        p = T.fp_expand(f)[1]
        parts = []
        den = 1
        for m, c in p.items():
            den = _lcm(den, c.denominator)
        if den != 1 and not scale:
            return None
        for m, c in p.items():
            fs = []
            for b, e in m:
                B = T.BASES[b]
                if B.kind != 'var' or T.VARS[B.data][0] != 'I' \
                        or e.denominator != 1 or e < 0:
                    return None
                self.base(b)
                fs.extend(['|%s|' % B.data] * int(e))
            parts.append('(* %s)' % ' '.join([num(c * den, False)] + fs)
                         if fs else num(c * den, False))
        if not parts:
            return '0'
        return parts[0] if len(parts) == 1 else '(+ %s)' % ' '.join(parts)

    def cmp(self, op, a, b):
        fa, fb = T.nf(a), T.nf(b)
        if op == '==':
            pa = self.int_poly(fa) if len(fa[1]) < 4 else None
            pb = self.int_poly(fb) if pa is not None else None
            if pa is not None and pb is not None:
                return '(= %s %s)' % (pa, pb)
            # cross-multiplied equality of two factored fractions
            lhs, rhs = dict(fa[1]), dict(fb[1])
            for x in set(lhs) | set(rhs):
                ea, eb = lhs.get(x, Fraction(0)), rhs.get(x, Fraction(0))
                m = min(ea, eb)
                # divide both sides by x**m only if that is safe (m<=0, or
                # the factor is known to be non-zero)
                if m > 0 and T.base_sign(x) not in ('+', '-'):
                    m = Fraction(0)
                for d, e in ((lhs, ea), (rhs, eb)):
                    if e - m == 0:
                        d.pop(x, None)
                    else:
                        d[x] = e - m
            ca, cb = fa[0], fb[0]
            if ca == 0:
                return '(= 0.0 %s)' % self.mono(rhs, 1) if cb != 0 else 'true'
            if cb == 0:
                return '(= %s 0.0)' % self.mono(lhs, 1)
            return '(= %s %s)' % (self.mono(lhs, ca), self.mono(rhs, cb))
        f = T.nf(T.sub(a, b))
        if f[0] == 0:
            return 'false' if op == '<' else 'true'
        ip = self.int_poly(f, True)
        if ip is not None:
            return '(%s %s 0)' % (op, ip)
        d = {}
        for x, e in f[1].items():
            if T.base_sign(x) == '+':
                continue
            if e.denominator == 1:
                if e % 2 == 0:
                    if e > 0 and T.base_sign(x) != '-':
                        d[x] = Fraction(2)
                else:
                    d[x] = Fraction(1)
            elif e > 0:
                d[x] = Fraction(1, e.denominator)
        return '(%s %s 0.0)' % (op, self.mono(d, 1 if f[0] > 0 else -1))

    def bool(self, n):
        if not isinstance(n, T.Node):
            return 'true' if n else 'false'
        if n.op == 'cmp':
            return self.cmp(*n.args)
        if n.op == 'not':
            return '(not %s)' % self.bool(n.args[0])
        return '(%s %s)' % (n.op, ' '.join(self.bool(a) for a in n.args))


def script(asserts, axioms='full', extra_vars=()):
    """-> (text, {input name: symbol})"""
    em = Emit(axioms)
    for a in asserts:
        em.gather(a)
    out = []
    for a in asserts:
        s = em.bool(a)
        out.append('(assert %s)' % s)
    for v in extra_vars:
        if v not in em.inputs:
            b = T._base('var', v, T.VARS[v][1])
            em.base(b)
    return '\n'.join(em.lines + out), em.inputs
