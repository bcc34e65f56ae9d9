"""Bounded symbolic checking of the real maxlike code.

A check is a list of cases.  A case is a harness `fn(env, **params)` that calls
the real package on inputs taken from `env` and states the property as
assertions.  Run with a SymEnv the inputs are SMT variables and every assertion
becomes a solver query over the terms the real code produced; run with a
ConcEnv (replay) the very same harness feeds floats to the real code.
"""
import contextlib
import hashlib
import itertools
import json
import math
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import patch as P
from . import sym as S
from .sym import Sym, SymBool, Unsupported

import z3
from . import enc as E

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOL = 1e-6


class Infeasible(Exception):
    pass


class PathLimit(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Case(object):
    def __init__(self, name, fn, paths=64, timeout=10, wall=None, **params):
        self.name = name
        self.fn = fn
        self.params = params
        self.paths = paths
        self.timeout = timeout
        self.wall = wall


# ------------------------------------------------------------------ domains
def _dom_cond(v, dom):
    if dom == 'real':
        return []
    if dom == 'pos':
        return [v > 0]
    if dom == 'nonneg':
        return [v >= 0]
    if dom == 'unit':
        return [v > 0, v < 1]
    if dom == 'cunit':
        return [v >= 0, v <= 1]
    if dom[0] == 'open':
        return [v > dom[1], v < dom[2]]
    if dom[0] == 'closed':
        return [v >= dom[1], v <= dom[2]]
    raise ValueError(dom)


def _dom_sample(rng, dom):
    if dom == 'real':
        return rng.uniform(-2, 2)
    if dom in ('pos', 'nonneg'):
        return rng.uniform(.1, 3)
    if dom in ('unit', 'cunit'):
        return rng.uniform(.05, .95)
    lo, hi = float(dom[1]), float(dom[2])
    w = hi - lo
    return rng.uniform(lo + .02 * w, hi - .02 * w)


def _bvn(x, y, rho):
    f = P._r.get('mvnun')
    return f((-999, -999), (x, y), (0, 0), ((1, rho), (rho, 1)))[0]


# library functions that are uninterpreted in the encoding
REAL = {'ndtri': lambda x: P._r['sp.ndtri'](x), 'ndtr': lambda x: P._r['sp.ndtr'](x), 'bvn': _bvn, 'abs': abs, 'max': max}


def uf_family(name, orders, args):
    """a smooth concrete function for an uninterpreted name (replay only)"""
    if name in REAL:
        if any(orders):
            raise S.EvalError('derivative of ' + name)
        return float(REAL[name](*args))
    h = random.Random('uf:' + name)
    sc = 3. / (2 + len(args))
    r = 0.0
    for _ in range(3):
        A = h.uniform(.2, .7)
        t = A
        ex = 0.0
        for o, x in zip(orders, args):
            a = h.uniform(-.7, .7) * sc
            t *= a ** o
            ex += a * x
        r += t * math.exp(ex)
    return r


def ufs_of(point):
    """interpretation of the uninterpreted names at a point: the values the solver
    chose (kept with the point), the fixed family for names it did not mention"""
    tab = point.get(UF)
    if not tab:
        return uf_family
    by = {}
    for name, orders, args, v in tab:
        by.setdefault((name, tuple(orders)), []).append((args, v))

    def f(name, orders, args):
        e = by.get((name, tuple(orders)))
        if e is None:
            return uf_family(name, orders, args)
        for a, v in e:
            if close(a, args):
                return v
        if any(close(a, args, 1e-3) for a, v in e):
            # the same arguments up to rounding, or not: no answer
            raise S.EvalError('%s elsewhere' % name)
        return uf_family(name, orders, args)
    return f


def close(a, b, tol=1e-9):
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(x)) for x, y in zip(a, b))


UF = '__uf__'


# ------------------------------------------------------------------ envs
class BaseEnv(object):
    sym = False

    def arr(self, name, shape=(), dom='real'):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        if shape == ():
            return self.var(name, dom)
        out = np.empty(shape, dtype=object if self.sym else float)
        for i in np.ndindex(*shape):
            out[i] = self.var(name + '_' + '_'.join(map(str, i)), dom)
        return out

    def exact(self, x):
        """arr of the exact mode dtype"""
        return np.asarray(x, dtype=object if self.sym else float)

    def fresh(self, prefix, dom='real'):
        k = self.counters.get(prefix, 0)
        self.counters[prefix] = k + 1
        return self.var('%s#%d' % (prefix, k), dom)

    def eq(self, label, actual, expected, broadcast=False, known=None):
        a = _toarr(actual)
        if expected is None:
            self._rec('eq', label, a, None, known)
            return
        e = _toarr(expected)
        if broadcast:
            try:
                shp = np.broadcast_shapes(a.shape, e.shape)
            except ValueError:
                shp = None
            if shp is not None:
                a = np.broadcast_to(a, shp)
                e = np.broadcast_to(e, shp)
        if a.shape != e.shape:
            self._rec('bool', label + ':shape %s vs %s' % (a.shape, e.shape), False, None, known)
            return
        if e.dtype == object and not self.sym:
            e = None
            known = None
        if known is not None:
            known = (known[0], np.broadcast_to(_toarr(known[1]), a.shape))
        self._rec('eq', label, a, e, known)

    def le(self, label, lo, hi, strict=False):
        a, b = np.broadcast_arrays(_toarr(lo), _toarr(hi))
        self._rec('lt' if strict else 'le', label, a, b, None)

    def lt(self, label, lo, hi):
        self.le(label, lo, hi, strict=True)

    def true(self, label, cond, known=None):
        self._rec('bool', label, cond, None, known)

    def raises(self, label, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except Unsupported:
            raise
        except exc:
            self.true(label, True)
            return
        except Exception as e:
            self.true(label + ': wrong exception %s' % type(e).__name__, False)
            return
        self.true(label, False)


def _toarr(x):
    if isinstance(x, np.ndarray):
        x = np.asarray(x)
        if x.dtype == object and any(type(c).__name__ == 'Tensor' for c in x.ravel()):
            # numpy keeps 0-d tensors of objects as cells; the float run
            # converts them to numbers
            y = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                y[i] = x[i].toarray()[()] if type(x[i]).__name__ == 'Tensor' else x[i]
            return y
        return x
    if type(x).__name__ in ('Tensor', 'GenericTensor'):
        r = x.toarray()
        return np.asarray(r)
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return np.asarray(x)


class SymEnv(BaseEnv):
    sym = True

    def __init__(self, ex):
        self.ex = ex
        self.counters = {}
        self.records = []
        self.vars = {}
        self.assumptions = []

    def var(self, name, dom='real'):
        if name not in self.vars:
            v = S.var(name)
            self.vars[name] = dom
            for c in _dom_cond(v, dom):
                self.assumptions.append(c)
        return S.var(name)

    @contextlib.contextmanager
    def once(self):
        """what happens inside is followed along one path only (that of a point the
        present path allows): calls whose results are not checked themselves"""
        kept = S.HOOK['fork']
        state = {}

        def fork(cond):
            known = {_ckey(c) for c in self.assumptions + self.pc}
            if _ckey(cond) in known:
                return True
            if _ckey(_neg(cond)) in known:
                return False
            n = len(self.vars), len(self.pc)
            if state.get('n') != n:
                rng = random.Random(7)
                pts = sample_points(self, rng, 1)
                state['p'] = pts[0] if pts else {k: _dom_sample(rng, d) for k, d in self.vars.items()}
                state['n'] = n
            try:
                return bool(num_bool(cond, state['p']))
            except S.EvalError:
                raise Unsupported('branch on a value without interpretation')
        S.HOOK['fork'] = fork
        try:
            yield
        finally:
            S.HOOK['fork'] = kept

    def assume(self, c):
        if isinstance(c, SymBool):
            self.assumptions.append(c)
        elif not c:
            raise Infeasible()

    def uf(self, name, args, orders=None):
        return S.uf(name, args, orders)

    def deriv(self, x, v):
        a = _toarr(x)
        out = np.empty(a.shape, dtype=object)
        memo = self.ex.dmemo.setdefault(v.id, {})
        for i in np.ndindex(*a.shape):
            out[i] = S.diff(S.to_sym(a[i]), v, memo)
        return out

    def _rec(self, kind, label, a, e, known):
        self.records.append((kind, label, a, e, known))


class ConcEnv(BaseEnv):
    sym = False

    def once(self):
        return contextlib.nullcontext()

    def __init__(self, point, fill=None):
        self.point = point
        self.counters = {}
        self.records = []
        self.fill = fill

    def var(self, name, dom='real'):
        if name not in self.point:
            if self.fill is None:
                raise Infeasible('no value for ' + name)
            # an input the symbolic run did not get to
            self.point[name] = _dom_sample(self.fill, dom)
        return float(self.point[name])

    def assume(self, c):
        pass

    def uf(self, name, args, orders=None):
        args = [float(a) for a in args]
        try:
            return ufs_of(self.point)(name, orders or (0,) * len(args), args)
        except S.EvalError as e:
            raise Infeasible(str(e))

    def deriv(self, x, v):
        return None

    def _rec(self, kind, label, a, e, known):
        self.records.append((kind, label, a, e, known))


# ------------------------------------------------------------------ exploration
class Explorer(object):

    def __init__(self, case):
        self.case = case
        self.dmemo = {}
        self.forks = 0
        self.fcache = {}

    def feasible(self, conds):
        key = frozenset(_ckey(c) for c in conds)
        if key in self.fcache:
            return self.fcache[key]
        roots = []
        enc = E.Enc()
        for c in conds:
            roots += enc.bool_roots(c)
        try:
            enc.gather(roots)
            fs = [enc.zbool(c) for c in conds]
            ax = enc.axioms()
            r, _ = E.solve(fs + enc.side + ax, 3000)
        except (E.TooBig, z3.Z3Exception):
            r = 'unknown'
        self.fcache[key] = r
        return r

    def run(self):
        """yield (env, exception) per path"""
        todo = [[]]
        done = 0
        while todo:
            prefix = todo.pop()
            if done >= self.case.paths:
                raise PathLimit(done)
            env = SymEnv(self)
            pc = env.pc = []
            trace = []

            def fork(cond):
                i = len(trace)
                if i < len(prefix):
                    d = prefix[i]
                else:
                    base = env.assumptions + pc
                    known = {_ckey(c) for c in base}
                    if _ckey(cond) in known:
                        return True
                    if _ckey(_neg(cond)) in known:
                        return False
                    t = self.feasible(base + [cond])
                    if t == 'unsat':
                        return False
                    f = self.feasible(base + [_neg(cond)])
                    if f == 'unsat':
                        return True
                    # the generic side first
                    d = not (isinstance(cond, SymBool) and cond.rel == '==')
                    todo.append([x for x in trace] + [not d])
                    self.forks += 1
                trace.append(d)
                pc.append(cond if d else _neg(cond))
                return d

            def fork_replay(cond):
                # decided-by-solver branches are not part of the prefix, so
                # they are decided again (cached) on re-execution
                base = env.assumptions + pc
                known = {_ckey(c) for c in base}
                if _ckey(cond) in known:
                    return True
                if _ckey(_neg(cond)) in known:
                    return False
                if len(trace) < len(prefix):
                    t = self.feasible(base + [cond])
                    if t == 'unsat':
                        return False
                    f = self.feasible(base + [_neg(cond)])
                    if f == 'unsat':
                        return True
                return fork(cond)

            S.HOOK['fork'] = fork_replay
            S.HOOK['concretize'] = None
            P.set_mode(True)
            exc = None
            try:
                with np.errstate(all='ignore'):
                    self.case.fn(env, **self.case.params)
            except Infeasible:
                done += 1
                continue
            except CaseTimeout:
                raise
            except Exception as e:
                exc = e
            finally:
                P.set_mode(False)
                S.HOOK['fork'] = None
            env.pc = pc
            done += 1
            yield env, exc


def _neg(c):
    if c.rel == '<':
        return SymBool('<=', S.neg(c.node))
    if c.rel == '<=':
        return SymBool('<', S.neg(c.node))
    if c.rel == '==':
        return SymBool('!=', c.node)
    if c.rel == '!=':
        return SymBool('==', c.node)
    return ~c


def _ckey(c):
    if isinstance(c, bool):
        return c
    if c.rel in ('and', 'or'):
        return (c.rel, _ckey(c.node[0]), _ckey(c.node[1]))
    if c.rel == 'not':
        return ('not', _ckey(c.node))
    return (c.rel, c.node.id)


def num_bool(c, point):
    if isinstance(c, bool):
        return c
    if c.rel == 'not':
        return not num_bool(c.node, point)
    if c.rel == 'and':
        return num_bool(c.node[0], point) and num_bool(c.node[1], point)
    if c.rel == 'or':
        return num_bool(c.node[0], point) or num_bool(c.node[1], point)
    v = S.evaluate([c.node], point, ufs_of(point))[0]
    if c.rel == '==':
        return abs(v) < 1e-12
    if c.rel == '!=':
        return abs(v) > 1e-12
    return v < 0 if c.rel == '<' else v <= 1e-15


# ------------------------------------------------------------------ checking
def _cells(rec):
    kind, label, a, e, known = rec
    for i in np.ndindex(*a.shape):
        yield i, a[i], e[i]


def _num(x):
    return x.item() if isinstance(x, np.generic) else x


class Result(object):
    def __init__(self, case):
        self.case = case
        self.d = dict(case=case, paths=0, infeasible=0, forks=0, obligations=0, discharged=0,
                      trivial=0, structural=0, undecided=[], violations=[], known=[],
                      validated=0, mismatches=[], samples=[], vars=0, notes=[], calls=0,
                      functions=[], exhaustive=True)


def sample_points(env, rng, n, model_point=None):
    """points satisfying assumptions and the path condition"""
    conds = env.assumptions + env.pc
    out = []
    eqs = [c for c in env.pc if c.rel == '==']
    tries = 0
    while len(out) < n and tries < 40 * n + 60:
        tries += 1
        p = {k: _dom_sample(rng, d) for k, d in env.vars.items()}
        if model_point is not None and tries % 2:
            if rng.random() < .5:
                p = {k: (model_point.get(k, p[k]) if rng.random() < .7 else p[k]) for k in p}
        elif tries % 7 == 3:
            p = {k: v * 10 ** rng.uniform(-1, 1) for k, v in p.items()}
        for c in eqs:
            # try to satisfy var == const / var == var shapes directly
            fix_eq(c.node, p)
        try:
            if all(num_bool(c, p) for c in conds):
                out.append(p)
        except (S.EvalError, Unsupported):
            pass
    return out


def fix_eq(node, p):
    """solve node == 0 for one of its variables if it is affine in it"""
    vs = [n for n in S.reach([node]) if n.op == 'v']
    for v in vs:
        d = S.diff(node, v) if not any(n.op in 'u' for n in S.reach([node])) else None
        if d is None:
            return
        try:
            f0, df = S.evaluate([node, d], p, ufs_of(p))
        except (S.EvalError, Unsupported):
            return
        if df != 0:
            q = p[v.args[0]] - f0 / df
            if math.isfinite(q):
                p[v.args[0]] = q
                return


def run_concrete(case, point, fill=None):
    env = ConcEnv(point, fill)
    P.set_mode(False)
    with np.errstate(all='ignore'):
        case.fn(env, **case.params)
    return env.records


def model_point(m, enc, env):
    p = {}
    for k in env.vars:
        i = enc.aindex.get(('v', k))
        v = None
        if i is not None and i in enc.zv:
            v = m.eval(enc.zv[i], model_completion=True)
            q = enc.lcd.get(i, 1)
        else:
            v = m.eval(z3.Real(k), model_completion=True)
            q = 1
        try:
            if z3.is_algebraic_value(v):
                v = v.approx(30)
            f = float(v.as_fraction()) ** q
        except Exception:
            f = 0.0
        p[k] = f
    tab = uf_table(m, enc, env, p)
    if tab:
        p[UF] = tab
    return p


def uf_table(m, enc, env, p):
    """the values the model gives to the applications of uninterpreted functions"""
    roots = []
    for kind, label, a, e, known in env.records:
        for x in (a, e):
            if isinstance(x, np.ndarray):
                roots += [v for v in x.ravel() if isinstance(v, Sym)]
    for c in env.assumptions + env.pc:
        roots += enc.bool_roots(c)
    us = [n for n in S.reach(roots) if n.op == 'u' and n.args[0] not in REAL]
    if not us or len(us) > 4000:
        return None
    tab, by = [], {}
    for n in us:
        i = None
        try:
            r = enc.memo.get(n.id)
            if r is not None:
                key = [mm for mm in r.n]
                if len(key) == 1 and len(key[0]) == 1 and enc.atoms[key[0][0][0]][0] == 'u':
                    i = key[0][0][0]
        except (AttributeError, IndexError, TypeError):
            i = None
        if i is None or i not in enc.zv:
            continue
        v = m.eval(enc.zv[i], model_completion=True)
        try:
            if z3.is_algebraic_value(v):
                v = v.approx(30)
            f = float(v.as_fraction()) ** enc.lcd.get(i, 1)
            q = dict(p)
            q[UF] = tab
            args = S.evaluate(list(n.args[2:]), q, ufs_of(q)) if len(n.args) > 2 else []
        except Exception:
            continue
        old = by.setdefault((n.args[0], n.args[1]), [])
        if not any(close(a, args) for a in old):
            old.append(args)
            tab.append([n.args[0], list(n.args[1]), args, f])
    return tab


def path_equalities(env):
    """substitutions  atom -> value  implied by the equalities of the path"""
    key = len(env.pc)
    memo = env.__dict__.get('_eqs')
    if memo is not None and memo[0] == key:
        return memo[1]
    mp = {}
    for c in env.pc + env.assumptions:
        if isinstance(c, bool) or c.rel != '==':
            continue
        try:
            n, = S.subst([c.node], mp)
        except (ZeroDivisionError, Unsupported):
            continue
        x, k, c0 = n, Fraction(1), Fraction(0)      # n = k x + c0
        while True:
            if x.op == '+' and x.args[0].op == 'c':
                c0, x = c0 + k * x.args[0].args[0], x.args[1]
            elif x.op == '+' and x.args[1].op == 'c':
                c0, x = c0 + k * x.args[1].args[0], x.args[0]
            elif x.op == '*' and x.args[0].op == 'c':
                k, x = k * x.args[0].args[0], x.args[1]
            else:
                break
        if x.op in 'vu':
            v = S.const(-c0 / k)
            mp = {i: S.subst([t], {x.id: v})[0] for i, t in mp.items()}
            mp[x.id] = v
        elif x.op == '+' and c0 == 0:
            # a + k b == 0 between atoms
            a, b = x.args
            if b.op not in 'vu':
                a, b = b, a
            if b.op in 'vu':
                v = S.neg(a)
                if b.id not in {t.id for t in S.reach([v])}:
                    mp[b.id] = v
    env._eqs = (key, mp)
    return mp


class Checker(object):

    def __init__(self, case, res, seed):
        self.case = case
        self.res = res
        self.rng = random.Random('%s:%s' % (seed, case.name))

    # -- one query: premises |- all goals, returns status, model point
    def query(self, env, goals, timeout, level):
        """goals: list of (kind, lhs, rhs); status of  premises /\\ some goal fails"""
        enc = E.Enc()
        prem = [] if level in ('nd0', 'op') else env.assumptions + env.pc
        roots = []
        for c in prem:
            roots += enc.bool_roots(c)
        diffs = []
        done = set()
        sub = path_equalities(env) if level == 'op' else None
        for kind, a, e in goals:
            d = S.sub(S.to_sym(a), S.to_sym(e))
            if sub:
                try:
                    d, = S.subst([d], sub)
                except (ZeroDivisionError, Unsupported):
                    return 'unknown', None
            if (kind, d.id) in done:
                continue
            done.add((kind, d.id))
            diffs.append((kind, d))
            roots.append(d)
        try:
            if level != 'op':
                enc.gather(roots)
            bad = []
            extra = []
            for kind, d in diffs:
                if level == 'op':
                    if d is diffs[0][1]:
                        for c in env.pc:
                            if not isinstance(c, bool) and c.rel == '==':
                                enc.op_rule(S.subst([c.node], sub)[0] if sub else c.node)
                    bad.append(enc.op_goal(d) != 0)
                elif kind == 'eq' and level != 'rc':
                    num, den = enc.enc_nd(d)
                    for q in enc.nd_polys(den):
                        extra.append(q != 0)
                    bad.append(num != 0)
                else:
                    t = enc.enc(d)
                    bad.append(t != 0 if kind == 'eq' else (t > 0 if kind == 'le' else t >= 0))
            fs = [enc.zbool(c) for c in prem]
            ax = enc.axioms() if (prem or level == 'rc') else []
            allf = fs + enc.side + ax + extra + [z3.Or(bad) if len(bad) > 1 else bad[0]]
        except (E.TooBig, z3.Z3Exception, ZeroDivisionError):
            return 'unknown', None
        r, m = E.solve(allf, timeout * 1000, model=True)
        if r == 'sat':
            return r, model_point(m, enc, env)
        return r, None

    @staticmethod
    def usesdiv(goals):
        rs = [S.to_sym(x) for g in goals for x in g[1:]]
        return any(n.op == '/' and n.args[1].op not in 'cv' for n in S.reach(rs))

    def decide(self, env, goals, whole=False):
        """-> list of (status, model point) per goal"""
        T = self.case.timeout
        levels = ['nd', 'rc'] if all(k == 'eq' for k, _, _ in goals) else ['rc']
        if levels[0] == 'nd':
            eqs = any(not isinstance(c, bool) and c.rel == '==' for c in env.pc)
            if self.usesdiv(goals):
                levels.insert(0, 'op')
            elif len(goals) > 1 and (env.assumptions or env.pc):
                levels[:0] = ['nd0', 'op'] if eqs else ['nd0']
            elif eqs:
                levels.insert(0, 'op')
        for lv in levels:
            r, mp = self.query(env, goals, T, lv)
            if r == 'unsat':
                return [('unsat', None)] * len(goals)
            if len(goals) == 1 and r == 'sat':
                if lv == 'op':
                    continue
                return [(r, mp)]
            if r == 'sat' and lv not in ('nd0', 'op'):
                break
        if whole:
            return [('unknown', None)] * len(goals)
        if len(goals) == 1:
            return [self.pin(env, goals[0])]
        out = []
        bad = 0
        for g in goals:
            if bad >= 3:
                out.append(('skipped', None))
                continue
            s = self.decide(env, [g])[0]
            if s[0] != 'unsat':
                bad += 1
            out.append(s)
        return out

    def pin(self, env, goal):
        """solver said unknown: look for a point at which the goal fails, and let
        the solver confirm it there"""
        kind, a, e = goal
        d = S.sub(S.to_sym(a), S.to_sym(e))
        for p in sample_points(env, self.rng, 6):
            try:
                v = S.evaluate([d], p, ufs_of(p))[0]
                s = S.evaluate([S.to_sym(a)], p, ufs_of(p))[0]
            except (S.EvalError, Unsupported):
                continue
            badp = abs(v) > TOL * (1 + abs(s)) if kind == 'eq' else v > TOL
            if badp:
                env2 = _Pinned(env, p)
                r, _ = self.query(env2, [goal], self.case.timeout, 'rc')
                if r != 'unsat':
                    return ('sat' if r == 'sat' else 'unknown'), p
        return 'unknown', None

    # -- confirm a solver counterexample on the real code
    def confirm(self, env, rec_idx, cell, mp):
        kind, label, a, e, known = env.records[rec_idx]
        pts = []
        if mp is not None:
            try:
                if all(num_bool(c, mp) for c in env.assumptions + env.pc):
                    pts.append(mp)
            except (S.EvalError, Unsupported):
                pass
        pts += sample_points(env, self.rng, 12, mp)
        for p in pts:
            ok = self.replay(env, rec_idx, cell, p)
            if ok is not None:
                return p, ok
        return None, None

    def replay(self, env, rec_idx, cell, p):
        kind, label, a, e, known = env.records[rec_idx]
        try:
            recs = run_concrete(self.case, p)
        except Exception as ex:
            return None
        if rec_idx >= len(recs) or recs[rec_idx][1].split(':shape')[0] != label.split(':shape')[0]:
            return None
        k2, l2, a2, e2, _ = recs[rec_idx]
        if kind == 'bool':
            if k2 == 'bool' and not bool(a2):
                return {'label': l2}
            return None
        if k2 == 'bool':
            return {'label': l2} if not a2 else None
        if a2.shape != a.shape:
            return None
        try:
            act = float(a2[cell])
            lhs_sym = S.evaluate([S.to_sym(a[cell])], p, ufs_of(p))[0]
            exp = S.evaluate([S.to_sym(e[cell])], p, ufs_of(p))[0]
        except (S.EvalError, Unsupported, TypeError, ValueError):
            return None
        if kind == 'eq':
            if math.isnan(act) or abs(act - exp) > TOL * (1 + abs(exp) + abs(act)):
                return {'actual': act, 'expected': exp}
        else:
            if e2 is not None:
                exp = float(e2[cell])
            if act > exp + TOL * (1 + abs(exp)) or (kind == 'lt' and act >= exp):
                return {'lhs': act, 'rhs': exp, 'relation': kind}
        return None

    def path_point(self, env):
        """a point of the path, from the solver"""
        enc = E.Enc()
        prem = env.assumptions + env.pc
        if not prem:
            return None
        roots = []
        try:
            for c in prem:
                roots += enc.bool_roots(c)
            enc.gather(roots)
            fs = [enc.zbool(c) for c in prem]
            r, m = E.solve(fs + enc.side + enc.axioms(), self.case.timeout * 1000, model=True)
        except (E.TooBig, z3.Z3Exception):
            return None
        return model_point(m, enc, env) if r == 'sat' and m is not None else None

    # -- a whole path
    def path(self, env, exc):
        R = self.res.d
        prem = env.assumptions + env.pc
        r = self.ex.feasible(prem) if prem else 'sat'
        if r == 'unsat':
            R['infeasible'] += 1
            return
        if exc is not None:
            self.exception(env, exc)
            return
        R['paths'] += 1
        R['vars'] = max(R['vars'], len(env.vars))
        if not env.records:
            R['undecided'].append('no assertion reached')
        self.validate(env)
        for idx, rec in enumerate(env.records):
            kind, label, a, e, known = rec
            if kind == 'bool':
                if isinstance(a, SymBool):
                    self.symbool(env, idx, a)
                    continue
                R['obligations'] += 1
                R['structural'] += 1
                if bool(a):
                    R['discharged'] += 1
                else:
                    self.failed(env, idx, (), None)
                continue
            if e is None:
                R['undecided'].append(label + ': no expectation')
                continue
            goals, cells = [], []
            for i, x, y in _cells(rec):
                R['obligations'] += 1
                x, y = S.to_sym(x) if not _nonfinite(x) else x, S.to_sym(y) if not _nonfinite(y) else y
                if not isinstance(x, Sym) or not isinstance(y, Sym):
                    same = (not isinstance(x, Sym) and not isinstance(y, Sym) and
                            (x == y or (x != x and y != y)))
                    if same and kind == 'eq' or (kind != 'eq' and not isinstance(x, Sym) and x == -np.inf):
                        R['discharged'] += 1
                        R['structural'] += 1
                    else:
                        self.failed(env, idx, i, None, nonfinite=True)
                    continue
                if kind == 'eq' and x is y or (kind == 'le' and x is y):
                    R['trivial'] += 1
                goals.append((kind, x, y))
                cells.append(i)
            s = 0
            while s < len(goals):
                t, n = s, 0
                while t < len(goals) and n < 48 and t - s < 2000:
                    n += goals[t][1] is not goals[t][2]
                    t += 1
                self.batch(env, idx, goals[s:t], cells[s:t])
                s = t

    def batch(self, env, idx, goals, cells):
        R = self.res.d
        label = env.records[idx][1]
        known = env.records[idx][4]
        if known is not None and KNOWN.get((PROP[0], known[0])) is not None:
            if all(st == 'unsat' for st, _ in self.decide(env, goals, whole=True)):
                R['discharged'] += len(goals)
                return
            kg = [(k, x, S.to_sym(known[1][c])) for (k, x, y), c in zip(goals, cells)]
            sts = self.decide(env, kg)
            if all(st == 'unsat' for st, _ in sts):
                R['known'].append((known[0], label))
                R['discharged'] += len(goals)
                return
        sts = self.decide(env, goals)
        if len(R['samples']) < 3 and goals:
            k, x, y = goals[-1]
            R['samples'].append('%s[%s]: %s  %s  %s  ->  %s' % (
                label, ','.join(map(str, cells[-1])), S.show(x, 4)[:160],
                {'eq': '==', 'le': '<=', 'lt': '<'}[k], S.show(y, 4)[:160], sts[-1][0]))
        for g, c, (st, mp) in zip(goals, cells, sts):
            if st == 'unsat':
                R['discharged'] += 1
            elif st == 'skipped':
                R['undecided'].append('%s%s: skipped after failures' % (label, list(c)))
            else:
                self.failed(env, idx, c, mp, unknown=(st == 'unknown'))

    def symbool(self, env, idx, cond):
        R = self.res.d
        R['obligations'] += 1
        enc = E.Enc()
        prem = env.assumptions + env.pc
        roots = []
        for c in prem + [cond]:
            roots += enc.bool_roots(c)
        try:
            enc.gather(roots)
            fs = [enc.zbool(c) for c in prem] + [z3.Not(enc.zbool(cond))]
            ax = enc.axioms()
            r, m = E.solve(fs + enc.side + ax, self.case.timeout * 1000, model=True)
        except (E.TooBig, z3.Z3Exception):
            r, m = 'unknown', None
        if len(R['samples']) < 3:
            R['samples'].append('%s: %s -> %s' % (env.records[idx][1], repr(cond)[:200], r))
        if r == 'unsat':
            R['discharged'] += 1
        else:
            self.failed(env, idx, (), model_point(m, enc, env) if m is not None else None,
                        unknown=(r == 'unknown'))

    def failed(self, env, idx, cell, mp, unknown=False, nonfinite=False):
        R = self.res.d
        kind, label, a, e, known = env.records[idx]
        where = '%s%s' % (label, list(cell) if cell != () else '')
        if unknown and mp is None:
            R['undecided'].append(where + ': solver gave no answer')
            return
        if known is not None and KNOWN.get((PROP[0], known[0])) is not None:
            if self.known_same(env, idx, cell, known):
                R['known'].append((known[0], where))
                R['discharged'] += 1
                return
        if len(R['violations']) >= 3:
            return
        if nonfinite:
            p, info = None, None
            for q in sample_points(env, self.rng, 4):
                info = self.replay_nonfinite(env, idx, cell, q)
                if info is not None:
                    p = q
                    break
        else:
            p, info = self.confirm(env, idx, cell, mp)
            if p is None and mp is None:
                mp = self.path_point(env)
                if mp is not None:
                    p, info = self.confirm(env, idx, cell, mp)
        if p is None:
            R['undecided'].append(where + ': counterexample not reproduced on the real code')
            return
        R['violations'].append(dict(case=self.case.name, label=label, record=idx,
                                    cell=list(cell), point=p, detail=info, kind=kind,
                                    path=[repr(c)[:200] for c in env.pc]))

    def known_same(self, env, idx, cell, known):
        kind, label, a, e, _ = env.records[idx]
        if kind == 'bool':
            return True
        x, y = a[cell], known[1][cell]
        if _nonfinite(x) or _nonfinite(y):
            return False
        st = self.decide(env, [('eq', S.to_sym(x), S.to_sym(y))])[0][0]
        return st == 'unsat'

    def replay_nonfinite(self, env, idx, cell, p):
        try:
            recs = run_concrete(self.case, p)
            k2, l2, a2, e2, _ = recs[idx]
            act, exp = float(a2[cell]), float(e2[cell]) if e2 is not None else float('nan')
        except Exception:
            return None
        if act == exp or (act != act and exp != exp):
            return None
        if abs(act - exp) <= TOL * (1 + abs(exp)):
            return None
        return {'actual': act, 'expected': exp}

    def exception(self, env, exc):
        R = self.res.d
        msg = '%s: %s' % (type(exc).__name__, str(exc)[:200])
        tb = traceback.extract_tb(exc.__traceback__)
        at = '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else '?'
        if isinstance(exc, Unsupported):
            R['undecided'].append('not encodable (%s at %s)' % (msg, at))
            return
        pts = sample_points(env, self.rng, 4)
        if not pts:
            mp = self.path_point(env)
            if mp is not None:
                try:
                    if all(num_bool(c, mp) for c in env.assumptions + env.pc):
                        pts = [mp]
                except (S.EvalError, Unsupported):
                    pass
                pts += sample_points(env, self.rng, 4, mp)
        for p in pts:
            try:
                run_concrete(self.case, p, random.Random(0))
            except (Infeasible, Unsupported):
                continue
            except Exception as e2:
                if type(e2).__name__ == type(exc).__name__ or True:
                    R['obligations'] += 1
                    R['violations'].append(dict(
                        case=self.case.name, label='exception', record=-1, cell=[], point=p,
                        detail={'exception': '%s: %s' % (type(e2).__name__, str(e2)[:300])},
                        kind='exception', path=[repr(c)[:200] for c in env.pc]))
                    return
        R['undecided'].append('not encodable (symbolic run only: %s at %s)' % (msg, at))

    def validate(self, env):
        """run the real code on floats and compare with the encoding"""
        R = self.res.d
        if R['paths'] > 12:
            return
        for p in sample_points(env, self.rng, 1):
            try:
                recs = run_concrete(self.case, p)
            except Infeasible:
                continue        # the harness cuts this history
            except Exception as e:
                R['mismatches'].append('concrete run raised %s: %s' % (type(e).__name__, str(e)[:120]))
                return
            if len(recs) != len(env.records):
                R['mismatches'].append('records %d vs %d' % (len(recs), len(env.records)))
                return
            roots, vals, labs = [], [], []
            for (k, l, a, e, _), (k2, l2, a2, e2, _) in zip(env.records, recs):
                if k == 'bool' or k2 == 'bool' or a.shape != a2.shape:
                    if (k == 'bool') != (k2 == 'bool'):
                        R['mismatches'].append('structure of %s' % l)
                        return
                    continue
                for i in np.ndindex(*a.shape):
                    if _nonfinite(a[i]):
                        continue
                    roots.append(S.to_sym(a[i]))
                    vals.append(float(a2[i]))
                    labs.append((l, i))
            try:
                ev = S.evaluate(roots, p, ufs_of(p))
            except (S.EvalError, Unsupported) as e:
                return
            bad = [(l, x, y) for l, x, y in zip(labs, ev, vals)
                   if not abs(x - y) <= 1e-5 * (1 + abs(x) + abs(y))]
            if bad:
                R['mismatches'].append('%s encoding %.9g real %.9g' % (bad[0][0], bad[0][1], bad[0][2]))
            else:
                R['validated'] += 1


def _nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


class _Pinned(object):
    def __init__(self, env, p):
        self.vars = env.vars
        self.pc = env.pc
        self.assumptions = env.assumptions + [
            SymBool('==', S.sub(S.var(k), S.to_sym(float(v)))) for k, v in p.items()]


PROP = ['']
KNOWN = {}
_CASES = []


def _alarm(*a):
    raise CaseTimeout()


class Monitor(object):
    """which maxlike functions the symbolic execution entered, and how often"""
    TOOL = 3

    def __init__(self):
        self.calls = {}
        self.root = os.path.realpath(P.REPO) + '/maxlike'

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'vlib')

        def start(code, off):
            if not code.co_filename.startswith(self.root):
                return m.DISABLE
            if P.MODE['sym']:
                k = code.co_filename[len(self.root) + 1:] + ':' + code.co_qualname
                self.calls[k] = self.calls.get(k, 0) + 1
        m.register_callback(self.TOOL, m.events.PY_START, start)
        m.set_events(self.TOOL, m.events.PY_START)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.PY_START, None)
        m.free_tool_id(self.TOOL)


def run_case(i, seed, wall):
    case = _CASES[i]
    S.reset_table()
    E.STATS.update({'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'max': 0.0})
    res = Result(case.name)
    R = res.d
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, case.wall or wall)
    mon = Monitor()
    try:
        with mon:
            ex = Explorer(case)
            ch = Checker(case, res, seed)
            ch.ex = ex
            try:
                for env, exc in ex.run():
                    ch.path(env, exc)
            except PathLimit as e:
                R['exhaustive'] = False
                R['notes'].append('path bound %d reached' % case.paths)
            R['forks'] = ex.forks
    except CaseTimeout:
        R['undecided'].append('case time limit')
        R['exhaustive'] = False
    except MemoryError:
        R['undecided'].append('memory limit')
        R['exhaustive'] = False
    except Exception as e:
        R['undecided'].append('engine: %s' % traceback.format_exc()[-600:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        P.set_mode(False)
    R['wall'] = time.time() - t0
    R['stats'] = dict(E.STATS)
    R['calls'] = sum(mon.calls.values())
    R['functions'] = sorted(mon.calls)
    return R


def _worker_init():
    import resource
    lim = 6 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    z3.set_param('memory_max_size', 3000)


def _lost(i, why):
    """result of a case whose process gave none"""
    R = Result(_CASES[i].name).d
    R.update(undecided=[why], exhaustive=False, wall=0.0, calls=0, functions=[],
             stats={'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'max': 0.0})
    return R


def run_all(prop, cases, seed, wall, jobs=8, budget=None, first=False):
    """one process per case, each with its own time limit; a process that dies
    or hangs leaves its case undecided; first: stop at the first violation"""
    import pickle
    import select
    PROP[0] = prop
    _CASES[:] = cases
    load_known()
    if jobs <= 1 or len(cases) == 1:
        return [run_case(i, seed, wall) for i in range(len(cases))]
    todo = sorted(range(len(cases)), key=lambda i: -(cases[i].wall or 0))[::-1]
    end = time.time() + (budget or 1e9)
    live, rs = {}, {}
    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop()
            if time.time() > end:
                rs[i] = _lost(i, 'time budget of the check used up')
                continue
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    _worker_init()
                    d = pickle.dumps(run_case(i, seed, wall))
                    with os.fdopen(w, 'wb') as f:
                        f.write(d)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            live[r] = (i, pid, [], time.time() + 1.3 * (cases[i].wall or wall) + 10)
        if not live:
            continue
        for r in select.select(list(live), [], [], .5)[0]:
            d = os.read(r, 1 << 20)
            i, pid, buf, _ = live[r]
            if d:
                buf.append(d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                rs[i] = pickle.loads(b''.join(buf))
            except Exception:
                rs[i] = _lost(i, 'the process deciding the case ended early')
        now = time.time()
        for r, (i, pid, buf, lim) in list(live.items()):
            if now > min(lim, end + 30):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                rs[i] = _lost(i, 'case time limit')
        if first and any(r['violations'] for r in rs.values()):
            for r, (i, pid, buf, lim) in live.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
            return list(rs.values())
    return [rs[i] for i in range(len(cases))]


def load_known():
    KNOWN.clear()
    fn = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                KNOWN[(d['property'], d['id'])] = d
