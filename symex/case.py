"""One case = inputs + a run of the code + the expected observations.

A case is decided in four steps
  1. symbolic exploration of every feasible path of the code on the inputs,
  2. for every observation and path, a solver query  pc & actual != expected,
  3. replay of every satisfying assignment on the unmodified package,
  4. validation: witness points of each path are run on the unmodified package
     and compared with the encoding (and with the expectation).
"""
import contextlib
import io
import math
import os
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np
import pandas as pd
import scipy.sparse

from . import engine as E
from . import shims
from . import smt
from . import term as T
from .solver import STATS, SolverError
from .world import Harness, Missing, RealWorld, SymWorld

Node = T.Node


class Pred(object):
    """Expectation given as a predicate of the observed value; it is called
    with Nodes (returns a Bool node) or with floats (returns bool)."""

    def __init__(self, fn, text=''):
        self.fn = fn
        self.text = text


class Raises(object):
    def __init__(self, *names):
        self.names = names

    def __repr__(self):
        return 'raises ' + '/'.join(self.names or ('any',))


class Skip(object):
    pass


class Case(object):
    def __init__(self, name, inputs, run, expect, timeout=8.0, max_paths=4000,
                 budget=120.0, points=2, rtol=1e-6, atol=1e-8, fp=False,
                 cut=True, finding=None, note='', bounds='', allow=(),
                 witness_paths=4, hints=()):
        self.__dict__.update(locals())
        del self.__dict__['self']


# ---------------------------------------------------------------------------
# flattening of observations
# ---------------------------------------------------------------------------
def flatten(v, path='', out=None):
    if out is None:
        out = {}
    if isinstance(v, (Pred, Raises, Skip)):
        out[path] = v
    elif isinstance(v, (shims.SMatrix,)) or scipy.sparse.issparse(v):
        flatten(np.asarray(v.toarray()), path, out)
    elif isinstance(v, pd.DataFrame):
        flatten([str(c) for c in v.columns], path + '.columns', out)
        flatten([x for x in v.index], path + '.index', out)
        for j, c in enumerate(v.columns):
            flatten(list(v.iloc[:, j].values), path + '[%s]' % (c,), out)
    elif isinstance(v, pd.Series):
        flatten([x for x in v.index], path + '.index', out)
        flatten(list(v.values), path, out)
    elif isinstance(v, pd.Index):
        flatten(list(v), path, out)
    elif isinstance(v, np.ndarray):
        if v.ndim == 0:
            flatten(v.item(), path, out)
        else:
            if not isinstance(v, np.matrix):
                out[path + '#'] = str(v.shape)
            else:
                out[path + '#'] = str(v.shape)
                v = np.asarray(v)
            for i in np.ndindex(*v.shape):
                flatten(v[i], path + '[%s]' % ','.join(map(str, i)), out)
    elif isinstance(v, dict):
        out[path + '#'] = 'dict'
        for k in v:
            flatten(v[k], '%s.%s' % (path, k), out)
    elif isinstance(v, (list, tuple)):
        out[path + '#'] = '(%d,)' % len(v)
        for i, x in enumerate(v):
            flatten(x, path + '[%d]' % i, out)
    elif isinstance(v, (bool, np.bool_)):
        out[path] = bool(v)
    elif isinstance(v, np.generic):
        out[path] = v.item()
    else:
        out[path] = v
    return out


def is_num(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


def leaf_obligation(a, e):
    """-> True | False | Bool node stating that actual a meets e."""
    if isinstance(e, Pred):
        try:
            r = e.fn(a)
        except T.Unsupported:
            raise
        except Exception:
            return False
        return r if isinstance(r, Node) else bool(r)
    if isinstance(a, bool) or isinstance(e, bool):
        if isinstance(a, Node) or isinstance(e, Node):
            n, o = (a, e) if isinstance(a, Node) else (e, a)
            if n.sort == 'B':
                return n if o else T.not_(n)
            return T.cmp_('==', n, T.const(int(o)))
        return a == e
    if isinstance(a, Node) or isinstance(e, Node):
        if isinstance(a, float) and not math.isfinite(a) or \
                isinstance(e, float) and not math.isfinite(e):
            return False
        la, le = T.lift(a), T.lift(e)
        if la is None or le is None:
            return False
        if la.sort == 'B' or le.sort == 'B':
            return bool(la) == bool(le)
        return T.cmp_('==', la, le)
    if is_num(a) and is_num(e):
        if a != a or e != e:
            return (a != a) == (e != e)
        return a == e or close(float(a), float(e), 1e-9, 1e-12)
    return type(a) == type(e) and a == e or (
        isinstance(a, str) and isinstance(e, str) and a == e)


def close(x, y, rtol, atol):
    if x != x or y != y:
        return (x != x) == (y != y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= atol + rtol * max(abs(x), abs(y))


class PathRes(object):
    pass


def sym_run(case, W, eng):
    """One symbolic execution of the harness -> PathRes"""
    W.reset()
    p = PathRes()
    p.out = p.exp = None
    I = case.inputs(W)
    p.exc = None
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p.out = case.run(W, I)
    except T.Unsupported:
        raise
    except (E.Budget, Harness):
        raise
    except Exception as ex:
        p.exc = type(ex).__name__
        p.trace = traceback.format_exc()
        p.out = {'!': Raises(p.exc)}
    p.exp = case.expect(W, I, None if p.exc else p.out)
    p.pc = list(eng.pc)
    return p


def pair_up(out, exp):
    """-> list of (label, actual leaf, expected leaf)"""
    res = []
    if '*' in exp:                      # no claim on this path
        return res
    for k, e in exp.items():
        if k == '!':
            a = out.get('!')
            ok = isinstance(a, Raises) and (
                not e.names or a.names[0] in e.names)
            res.append(('outcome', 'raises ' + a.names[0] if isinstance(
                a, Raises) else 'returns', True if ok else False, repr(e)))
            return res
    if '!' in out:
        return [('outcome', 'raises ' + out['!'].names[0], False, 'returns')]
    for k, e in exp.items():
        if isinstance(e, Skip):
            continue
        if k not in out:
            res.append((k, None, False, 'present'))
            continue
        fe = flatten(e, k)
        if len(fe) == 1 and isinstance(list(fe.values())[0], Pred):
            fa = {k: out[k]}
            pr = list(fe.values())[0]
            if pr.text != 'whole':
                fa = flatten(out[k], k)
                for lab, a in fa.items():
                    if lab.endswith('#'):
                        continue
                    res.append((lab, a, leaf_obligation(a, pr), pr))
                continue
        else:
            fa = flatten(out[k], k)
        for lab, ev in fe.items():
            if isinstance(ev, Skip):
                continue
            if lab not in fa:
                res.append((lab, 'absent', False, ev))
            else:
                res.append((lab, fa[lab], leaf_obligation(fa[lab], ev), ev))
        for lab in fa:
            if lab not in fe:
                res.append((lab, fa[lab], False, 'absent'))
    return res


def ev(n, env, cache=None):
    if isinstance(n, Node):
        try:
            return T.evaluate(n, env, cache)
        except (KeyError, OverflowError, ValueError, ZeroDivisionError,
                TypeError):
            return None
    return n


def real_run(case, env, seed=0):
    """Run the unmodified package. -> (out dict, W) ; raises Missing"""
    W = RealWorld(env, seed)
    with W:
        I = case.inputs(W)
        try:
            out = case.run(W, I)
        except (Missing, Harness):
            raise
        except Exception as ex:
            out = {'!': Raises(type(ex).__name__)}
            out['!'].detail = str(ex)[:300]
    return out, W


TOL = 1e-5


def compare_real(case, path, env, out, loose=False):
    """Real observations against a path's expectation at env.
    -> (list of violated (label, actual, expected), undecided count)"""
    exp = path.exp
    bad, und = [], 0
    if '*' in exp:
        return bad, und
    if '!' in exp:
        a = out.get('!')
        names = exp['!'].names
        if not (isinstance(a, Raises) and (not names or a.names[0] in names)):
            bad.append(('outcome', 'raises ' + a.names[0] if isinstance(
                a, Raises) else 'returns', repr(exp['!'])))
        return bad, und
    if '!' in out:
        d = getattr(out['!'], 'detail', '')
        return [('outcome', 'raises %s: %s' % (out['!'].names[0], d),
                 'returns')], 0
    cache = {}
    for k, e in exp.items():
        if isinstance(e, Skip):
            continue
        fe = flatten(e, k)
        if k not in out:
            bad.append((k, 'absent', 'present'))
            continue
        if len(fe) == 1 and isinstance(list(fe.values())[0], Pred):
            pr = list(fe.values())[0]
            fa = {k: out[k]} if pr.text == 'whole' else flatten(out[k], k)
            for lab, a in fa.items():
                if lab.endswith('#'):
                    continue
                try:
                    ok = pr.fn(a)
                    if isinstance(ok, Node):
                        ok = ev(ok, env, cache)
                    if ok is None:
                        und += 1
                        continue
                    ok = bool(ok)
                except Exception:
                    ok = False
                if not ok:
                    bad.append((lab, str(a)[:200], pr.text))
            continue
        fa = flatten(out[k], k)
        for lab, v in fe.items():
            if isinstance(v, Skip):
                continue
            if lab not in fa:
                bad.append((lab, 'absent', show(v)))
                continue
            a = fa[lab]
            if isinstance(v, Pred):
                ok = v.fn(a)
                if isinstance(ok, Node):
                    ok = ev(ok, env, cache)
                if ok is None:
                    und += 1
                elif not ok:
                    bad.append((lab, str(a)[:200], v.text))
                continue
            x = ev(v, env, cache)
            if isinstance(v, Node) and (x is None or x != x):
                # the formula has no value there
                und += 1
                continue
            if not same(a, x, case) and not (
                    loose and is_num(a) and is_num(x) and
                    close(float(a), float(x), 10 * TOL, TOL)):
                bad.append((lab, show(a), show(x)))
        for lab in fa:
            if lab not in fe:
                bad.append((lab, show(fa[lab]), 'absent'))
    return bad, und


def same(a, x, case):
    if isinstance(a, bool) and is_num(x):
        return float(a) == float(x)
    if isinstance(x, bool) and is_num(a):
        return float(a) == float(x)
    if is_num(a) and is_num(x):
        return close(float(a), float(x), case.rtol, case.atol)
    return type(a) == type(x) and a == x


def show(v):
    if isinstance(v, float):
        return repr(v)
    return str(v)[:200]


def encoding_matches(case, path, env, out):
    """The symbolic observations, evaluated at env, equal the real ones."""
    if ('!' in out) != ('!' in path.out):
        return ['outcome: encoding %s, code %s' % (
            path.out.get('!', 'returns'), out.get('!', 'returns'))]
    if '!' in out:
        if out['!'].names != path.out['!'].names:
            return ['exception type']
        return []
    mism = []
    cache = {}
    for k in path.out:
        if k.startswith('_'):
            continue
        if k not in out:
            mism.append(k)
            continue
        fa, fs = flatten(out[k], k), flatten(path.out[k], k)
        for lab in set(fa) | set(fs):
            if lab not in fa or lab not in fs:
                mism.append(lab)
                continue
            s = ev(fs[lab], env, cache)
            if isinstance(fs[lab], Node) and (s is None or (
                    case.fp and s != s)):
                continue
            if not same(fa[lab], s, case):
                if is_num(fa[lab]) or is_num(s) or fa[lab] != s:
                    mism.append('%s: encoding %s, code %s' % (
                        lab, show(s), show(fa[lab])))
    return mism


# ---------------------------------------------------------------------------
def pc_holds(path, env):
    cache = {}
    for c in path.pc:
        v = ev(c, env, cache)
        if v is None or not v:
            return False
    return True


def sample_env(boxes, rnd, special=False):
    """A point of the boxes; `special`: with whole numbers and ties."""
    env = {}
    for n, (sort, box) in boxes.items():
        if sort == 'R':
            lo, hi = box
            k = 64
            env[n] = rnd.randint(int(math.ceil(lo * k)),
                                 int(math.floor(hi * k))) / float(k)
            if special:
                z = rnd.random()
                same = [v for m, v in env.items() if m != n and
                        boxes[m] == (sort, box)]
                if z < .4 and math.ceil(lo) <= math.floor(hi):
                    env[n] = float(rnd.randint(int(math.ceil(lo)),
                                               int(math.floor(hi))))
                elif z < .5 and same:
                    env[n] = rnd.choice(same)
        elif sort == 'I':
            env[n] = rnd.randint(*box)
    return env


def box_constraints(boxes, names, scale=1):
    out = []
    for n in names:
        sort, box = boxes.get(n, ('R', (-2, 2)))
        if sort == 'R':
            v = T.var(n, 'R', T.VARS[n][1])
            lo, hi = Fraction(box[0]) * scale, Fraction(box[1]) * scale
            if box[0] > 0:
                lo = Fraction(box[0]) / scale
            out.append(T.cmp_('<=', T.const(lo), v))
            out.append(T.cmp_('<=', v, T.const(hi)))
    return out


def clean(model):
    env = {}
    for k, v in (model or {}).items():
        if T.VARS.get(k, ('R',))[0] == 'I':
            env[k] = int(v)
        else:
            env[k] = float(v)
    return env


def fill(env, boxes, rnd):
    e = sample_env(boxes, rnd)
    e.update(env)
    return e


# ---------------------------------------------------------------------------
def decide_case(case, tier='quick', seed=1):
    t0 = time.time()
    R = dict(name=case.name, bounds=case.bounds, note=case.note,
             paths=0, obligations=0, proved=0, trivial=0, undecided=[],
             violations=[], findings=[], validated=0, encoding_mismatch=[],
             witness_paths=0, cuts={}, error=None, allowed=[])
    W = SymWorld()
    eng = E.Engine(cut_extremes=case.cut, timeout=case.timeout)
    eng.fp = case.fp
    W.engine = eng
    paths = []
    deadline = t0 + case.budget
    rnd = random.Random(seed * 7919 + len(case.name))
    try:
        for p, exc in eng.explore(lambda: sym_run(case, W, eng),
                                  max_paths=case.max_paths,
                                  deadline=deadline):
            if exc is not None:
                R['error'] = 'harness: %r' % (exc,)
                R['trace'] = ''.join(traceback.format_exception(
                    type(exc), exc, exc.__traceback__))[-3000:]
                break
            if p.exc and '!' not in p.exp:
                R['trace'] = p.trace[-2500:]
            paths.append(p)
    except T.Unsupported as ex:
        R['error'] = 'not encodable: %s' % ex
        R['trace'] = traceback.format_exc()[-2500:]
    except E.Budget as ex:
        R['error'] = 'exploration stopped: %s' % ex
    R['paths'] = len(paths)
    R['branch_queries'] = eng.solver_decisions
    R['cuts'] = dict(eng.cuts)
    boxes = dict(W.boxes)
    old = T.ENGINE
    T.ENGINE = eng
    seen_labels = {}
    try:
        for pi, p in enumerate(paths):
            eng.begin([])
            eng.pc = list(p.pc)
            for a in p.pc:
                eng._learn(a, True)
            try:
                obs = pair_up(p.out, p.exp)
            except (T.Unsupported, E.PathAbort) as ex:
                R['undecided'].append('path %d: %s' % (pi, ex))
                continue
            for lab, a, ob, e in obs:
                R['obligations'] += 1
                if ob is True:
                    R['proved'] += 1
                    R['trivial'] += 1
                    continue
                if time.time() > deadline + 30:
                    R['undecided'].append('%s: time' % lab)
                    continue
                v = discharge(case, eng, W, p, lab, a, ob, e, boxes, rnd, R,
                              paths)
                if v == 'unsat':
                    R['proved'] += 1
                elif v == 'violation':
                    if len(R['violations']) >= 3:
                        break
                else:
                    R['undecided'].append('%s: %s' % (lab, v))
            if len(R['violations']) >= 3 or (
                    R['violations'] and time.time() > t0 + 60):
                break
        if not R['violations']:
            validate(case, eng, paths, boxes, rnd, R, tier)
    finally:
        T.ENGINE = old
        eng.solver.close()
    if R['error'] and not R['violations']:
        fallback(case, rnd, R)
    R['files'] = sorted(os.path.basename(f) for f in W.package.files)
    R['wall'] = round(time.time() - t0, 2)
    R['solver'] = STATS.as_dict()
    return R


RAW_LIMIT = 4000


def nf_size(n):
    f = T.nf(n)
    s = 1
    for b, e in f[1].items():
        B = T.BASES[b]
        if B.kind == 'poly':
            s *= max(1, len(B.data)) ** max(1, abs(int(e)))
    return s


def query(eng, asserts, want, timeout, seed=0):
    try:
        return eng.solve(asserts, want=want, timeout=timeout, seed=seed)
    except T.Unsupported:
        return 'unknown', None


def discharge(case, eng, W, p, lab, a, ob, e, boxes, rnd, R, paths):
    """One obligation on one path."""
    names = sorted(T.variables(list(p.pc) + ([ob] if isinstance(ob, Node)
                                             else [])))
    # quick numeric look: is the obligation false at some point of the path?
    guess = None
    if isinstance(ob, Node):
        neg = T.not_(ob)
        for k in range(8):
            env = sample_env(boxes, rnd)
            if not pc_holds(p, env):
                continue
            if ob.op == 'cmp' and ob.args[0] == '==':
                x, y = ev(ob.args[1], env), ev(ob.args[2], env)
                if x is None or y is None or isinstance(x, complex) or \
                        isinstance(y, complex):
                    continue
                if not close(x, y, case.rtol, case.atol):
                    guess = env
                break
            else:
                v = ev(ob, env)
                if v is None:
                    continue
                if not v:
                    guess = env
                    break
        asserts = eng.relevant(p.pc, neg) + [neg]
    else:
        asserts = list(p.pc)
    models = []
    ans = None
    if guess is None and isinstance(ob, Node):
        if ob.op == 'cmp' and ob.args[0] == '==':
            d = T.sub(ob.args[1], ob.args[2])
            try:
                size = nf_size(ob.args[1]) + nf_size(ob.args[2])
                zero = T.is_zero(d)
            except T.Unsupported as ex:
                return 'too large to encode (%s)' % ex
            if size <= RAW_LIMIT:
                # the two sides as they stand, cross-multiplied
                ans, m = query(eng, [neg], names, 2.0 if zero
                               else case.timeout)
                if ans == 'unsat':
                    return ans
            if zero:
                # the difference after polynomial normalisation is what is
                # sent: `0 != 0`
                R['normalised'] = R.get('normalised', 0) + 1
                return eng_trivial(eng)[0]
            if size > RAW_LIMIT:
                neg = T.not_(T.cmp_('==', d, T.ZERO))
                asserts = eng.relevant(p.pc, neg) + [neg]
        ans, m = query(eng, asserts, names, case.timeout)
        if ans == 'unsat':
            return 'unsat'
        if ans == 'sat' and m:
            models.append(clean(m))
    if ans is None or ans in ('sat', 'unknown'):
        for sc, sd in ((1, 0), (1, 7), (4, 3)):
            a2, m = query(eng, asserts + box_constraints(boxes, names, sc),
                          names, min(case.timeout, 4.0), sd)
            if a2 == 'sat' and m:
                models.insert(0, clean(m))
                ans = 'sat'
            elif a2 == 'unsat' and ans is None:
                pass
        if guess is not None:
            models.append(guess)
        for h in case.hints:
            for k in range(6):
                env = fill(h, boxes, rnd)
                if pc_holds(p, env):
                    models.append(env)
                    break
        for k in range(20):
            env = sample_env(boxes, rnd)
            if pc_holds(p, env):
                models.append(env)
                if len(models) > 8:
                    break
    tried = 0
    for m in models:
        env = fill(m, boxes, rnd)
        r = replay(case, paths, env, R, lab, p)
        tried += 1
        if r == 'violation':
            return 'violation'
    if not tried and not case.fp:
        for env in wide_points(p, boxes, rnd):
            if replay_wide(case, p, env, R, lab) == 'violation':
                return 'violation'
    if ans == 'sat' or guess is not None:
        return 'solver counterexample did not reproduce (%d tried)' % tried
    return 'solver: unknown'


def wide_points(p, boxes, rnd):
    """Points of a path that the input box itself does not reach."""
    if getattr(p, 'wide', None) is None:
        p.wide = []
        names = [n for n, (s, b) in boxes.items() if s == 'R' and b[0] < 0]
        end = time.time() + 3
        for k in range(300):
            if len(p.wide) >= 3 or time.time() > end:
                break
            env = sample_env(boxes, rnd)
            sc = (2, 3, 4)[k % 3]
            for n in (names if k % 4 == 0 else
                      rnd.sample(names, min(len(names), 1 + k % 2))):
                env[n] *= sc
            if pc_holds(p, env):
                p.wide.append(env)
    return p.wide


def replay_wide(case, p, env, R, lab):
    """Replay outside the input box: only a gross difference at a point where
    the code computes what was encoded (no overflow guard, no rounding)
    counts."""
    global TOL
    try:
        out, RW = real_run(case, env)
    except Missing:
        return 'outside'
    full = dict(env)
    full.update(RW.used)
    if not pc_holds(p, full) or encoding_matches(case, p, full, out) or \
            not defined(p, full):
        return 'outside'
    TOL = 1e-3
    try:
        bad, _ = compare_real(case, p, full, out, loose=True)
    finally:
        TOL = 1e-5
    if not bad:
        return 'holds'
    R['violations'].append(dict(
        case=case.name, label=lab, env=full,
        failures=[dict(observation=b[0], actual=b[1], expected=b[2])
                  for b in bad[:6]]))
    return 'violation'


def eng_trivial(eng):
    """The normalised negation is `0 != 0`; the solver is asked all the same."""
    ans, _ = eng.solver.query('(assert (not (= 0.0 0.0)))', timeout=5)
    return ans, None


def defined(path, env):
    """Every encoded observation has a value at env (no zero division)."""
    cache = {}
    for k, v in path.out.items():
        for lab, x in flatten(v, k).items():
            if isinstance(x, Node) and ev(x, env, cache) is None:
                return False
    return True


def replay(case, paths, env, R, lab, p=None):
    try:
        out, RW = real_run(case, env)
    except Missing:
        return 'outside'
    full = dict(env)
    full.update(RW.used)
    cand = [q for q in ([p] if p is not None else []) + paths
            if q is not None and pc_holds(q, full)]
    if not cand and case.fp:
        # expectations of floating-point cases hold on every path
        cand = [p] if p is not None else paths[:1]
    if not cand:
        return 'no path'
    if '!' in out and '!' not in cand[0].out and not defined(cand[0], full):
        return 'outside'
    bad, _ = compare_real(case, cand[0], full, out)
    if bad:
        R['violations'].append(dict(
            case=case.name, label=lab, env=full,
            failures=[dict(observation=b[0], actual=b[1], expected=b[2])
                      for b in bad[:6]]))
        return 'violation'
    return 'holds'


def validate(case, eng, paths, boxes, rnd, R, tier):
    n = 0
    order = list(range(len(paths)))
    if len(order) > case.witness_paths:
        rnd.shuffle(order)
        order = order[:case.witness_paths]
    for i in order:
        p = paths[i]
        got = 0
        for att in range(30 if case.points else 0):
            if got >= case.points:
                break
            env = sample_env(boxes, rnd)
            if att >= 12 and not got and att % 6 == 0 or att == 12:
                names = sorted(T.variables(p.pc))
                a, m = query(eng, list(p.pc) + box_constraints(boxes, names),
                             names, 4.0, att)
                if a == 'sat' and m:
                    env = fill(clean(m), boxes, rnd)
            if not pc_holds(p, env):
                # picks are filled by the real run
                if not any(s == 'pick' for s, _ in boxes.values()):
                    continue
            try:
                out, RW = real_run(case, env, seed=att)
            except Missing:
                continue
            full = dict(env)
            full.update(RW.used)
            q = p if pc_holds(p, full) else next(
                (x for x in paths if pc_holds(x, full)), None)
            if q is None:
                continue
            got += 1
            n += 1
            # proved already: rounding of the code is not a violation
            bad, _ = compare_real(case, q, full, out, loose=not case.fp)
            if bad:
                R['violations'].append(dict(
                    case=case.name, label=bad[0][0], env=full,
                    failures=[dict(observation=b[0], actual=b[1],
                                   expected=b[2]) for b in bad[:6]]))
                return
            mm = encoding_matches(case, q, full, out)
            if mm:
                R['encoding_mismatch'].extend(mm[:3])
        if got:
            R['witness_paths'] += 1
    R['validated'] = n


def fallback(case, rnd, R):
    """The code could not be encoded: the expectation is still evaluated at
    points of the input box against the unmodified package (not a proof)."""
    W = SymWorld.__new__(SymWorld)
    W.__dict__.update(SymWorld().__dict__)
    eng = E.Engine(timeout=2.0)
    W.engine = eng
    paths = []

    def go():
        W.reset()
        p = PathRes()
        I = case.inputs(W)
        p.exp = case.expect(W, I, None)
        p.out = {}
        p.pc = list(eng.pc)
        return p
    try:
        for p, exc in eng.explore(go, max_paths=50,
                                  deadline=time.time() + 20):
            if exc is None and p.exp:
                paths.append(p)
    except Exception as ex:
        R['fallback'] = 'no: %s' % ex
        eng.solver.close()
        return
    n = 0
    limit = time.time() + 30
    for k in range(24 + len(case.hints)):
        if k >= 12 and time.time() > limit:
            break
        env = sample_env(W.boxes, rnd, k % 2) if k < 24 else fill(
            case.hints[k - 24], W.boxes, rnd)
        if replay(case, paths, env, R, 'fallback') == 'violation':
            break
        n += 1
    R['fallback'] = n
    eng.solver.close()
