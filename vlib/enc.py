"""DAG -> SMT (z3, reals).

Transcendental sub-terms are replaced by algebraic atoms after their arguments
have been brought to a canonical rational form, using only laws that hold for
the real functions on their domain:
   exp(sum c_i t_i) = prod exp(t_i)^c_i,   exp(log P) = P,  exp(0)=1
   log(c * prod a_i^k_i * P / Q) = log c + sum k_i log|a_i| + log|P| - log|Q|
   gammaln(P + k) = gammaln(P) + sum_{i<k} log(P + i)
What remains (exp(t), log P, gammaln P, arctan P, f(..) uninterpreted) is a free
real (exp atoms: positive).  So `unsat` is a proof for all values of the inputs;
`sat` is only a candidate, which the caller replays on the real code.
"""
import math
import time
from fractions import Fraction

import z3

from . import sym as S

LIMIT = 3000
STATS = {'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'max': 0.0}


class TooBig(Exception):
    pass


ONEM = ()


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        e2 = d.get(k, 0) + e
        if e2 == 0:
            d.pop(k, None)
        else:
            d[k] = e2
    return tuple(sorted(d.items()))


def m_pow(a, n):
    if n == 0:
        return ONEM
    return tuple((k, e * n) for k, e in a)


def p_add(a, b):
    r = dict(a)
    for m, c in b.items():
        c2 = r.get(m, 0) + c
        if c2 == 0:
            r.pop(m, None)
        else:
            r[m] = c2
    return r


def p_mulm(a, m, c):
    return {m_mul(x, m): v * c for x, v in a.items()}


def p_mul(a, b):
    if len(a) * len(b) > LIMIT:
        raise TooBig
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            c = r.get(m, 0) + c1 * c2
            if c == 0:
                r.pop(m, None)
            else:
                r[m] = c
    return r


P1 = {ONEM: Fraction(1)}


def content(p):
    """monomial content (min exponents), leading coefficient, primitive part"""
    ms = list(p)
    common = None
    for m in ms:
        d = dict(m)
        if common is None:
            common = dict(d)
            first = True
            continue
        for k in list(common):
            common[k] = min(common[k], d.get(k, 0))
        for k in d:
            if k not in common:
                common[k] = min(0, d[k])
    common = tuple(sorted((k, e) for k, e in common.items() if e != 0))
    inv = m_pow(common, -1)
    q = {m_mul(m, inv): c for m, c in p.items()}
    lead = max(q)
    lc = q[lead]
    q = {m: c / lc for m, c in q.items()}
    return common, lc, q


def _lex(m):
    return tuple(sorted(m, reverse=True))


class Rat(object):
    __slots__ = ('n', 'd', '_k')

    def __init__(self, n, d):
        if n:
            if d is not P1:
                cm, lc, dp = content(d)
                if cm or lc != 1:
                    n = p_mulm(n, m_pow(cm, -1), 1 / lc)
                d = dp
                if len(d) == 1:
                    d = P1
                elif len(n) == len(d):
                    cm, lc, np_ = content(n)
                    if np_ == d:
                        n = {cm: lc}
                        d = P1
        else:
            d = P1
        self.n = n
        self.d = d
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = (frozenset(self.n.items()), frozenset(self.d.items()))
        return self._k


def r_const(c):
    return Rat({ONEM: Fraction(c)} if c else {}, P1)


def r_add(a, b):
    if a.d == b.d:
        return Rat(p_add(a.n, b.n), a.d)
    if len(a.n) + len(b.n) > LIMIT:
        raise TooBig
    return Rat(p_add(p_mul(a.n, b.d), p_mul(b.n, a.d)), p_mul(a.d, b.d))


class Enc(object):

    def __init__(self):
        self.atoms = []          # index -> description tuple
        self.aindex = {}
        self.memo = {}           # node id -> Rat | None (too big)
        self.lcd = {}
        self.root = {}           # atom index -> Poly P  (atom stands for P^1, used with frac. exps)
        self.zv = {}             # atom index -> z3 var
        self.zinv = {}
        self.side = []           # z3 side constraints
        self.rec = {}
        self.zmemo = {}
        self.opaque = 0
        self.bools = {}

    # ---------------------------------------------------------------- atoms
    def atom(self, desc):
        i = self.aindex.get(desc)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(desc)
            self.aindex[desc] = i
        return i

    def a_rat(self, desc):
        return Rat({((self.atom(desc), 1),): Fraction(1)}, P1)

    # ------------------------------------------------------------ rat algebra
    def r_mul(self, a, b):
        n = p_mul(a.n, b.n)
        d = a.d if b.d is P1 else (b.d if a.d is P1 else p_mul(a.d, b.d))
        if a.d is not P1 and a.n == b.d:
            n, d = b.n, a.d
        elif b.d is not P1 and b.n == a.d:
            n, d = a.n, b.d
        r = Rat(n, d)
        return self._fixroots(r) if self.root else r

    def r_pow(self, a, k):
        if k < 0:
            a, k = Rat(a.d, a.n), -k
        r = r_const(1)
        for _ in range(k):
            r = self.r_mul(r, a)
        return r

    def _fixroots(self, r):
        def bad(p):
            return any(k in self.root and (e >= 1 or e < 0) for m in p for k, e in m)
        if not bad(r.n) and not bad(r.d):
            return r

        def rebuild(p):
            tot = r_const(0)
            for m, c in p.items():
                t = r_const(c)
                keep = []
                for k, e in m:
                    if k in self.root and (e >= 1 or e < 0):
                        f = math.floor(e)
                        t = Rat(*self._nd_mul(t, self.r_pow(Rat(self.root[k], P1), f)))
                        e = e - f
                        if e == 0:
                            continue
                    keep.append((k, e))
                t = Rat(p_mulm(t.n, tuple(keep), 1), t.d)
                tot = r_add(tot, t)
            return tot
        n, d = rebuild(r.n), rebuild(r.d)
        return Rat(p_mul(n.n, d.d), p_mul(n.d, d.n))

    def _nd_mul(self, a, b):
        return p_mul(a.n, b.n), p_mul(a.d, b.d)

    # ---------------------------------------------------------------- canon
    def canon(self, node):
        """canonical Rat of a node, or None when it gets too big"""
        if node.id in self.memo:
            return self.memo[node.id]
        for n in S.reach([node]):
            if n.id in self.memo:
                continue
            try:
                self.memo[n.id] = self._canon1(n)
            except TooBig:
                if n.op in 'fu':
                    self.memo[n.id] = self.a_rat(('O', n.id))
                else:
                    self.memo[n.id] = None
        return self.memo[node.id]

    def _c(self, n):
        r = self.memo[n.id]
        if r is None:
            raise TooBig
        return r

    def _canon1(self, n):
        op = n.op
        if op == 'c':
            return r_const(n.args[0])
        if op == 'v':
            return self.a_rat(('v', n.args[0]))
        if op == '+':
            return r_add(self._c(n.args[0]), self._c(n.args[1]))
        if op == '*':
            return self.r_mul(self._c(n.args[0]), self._c(n.args[1]))
        if op == '/':
            b = self._c(n.args[1])
            if not b.n:
                raise TooBig
            return self.r_mul(self._c(n.args[0]), Rat(b.d, b.n))
        if op == '^':
            return self.r_pow(self._c(n.args[0]), n.args[1])
        if op == 'u':
            keys = tuple(self._c(a).key for a in n.args[2:])
            d = ('u', n.args[0], n.args[1], keys)
            r = self.a_rat(d)
            return r
        name = n.args[0]
        a = self._c(n.args[1])
        if name == 'exp':
            return self._exp(a)
        if name == 'log':
            return self._log(a)
        if name == 'gammaln':
            return self._gammaln(a)
        return self.a_rat((name, a.key))

    def _exp(self, a):
        r = r_const(1)
        for m, c in sorted(a.n.items()):
            # log atom alone?
            if a.d is P1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'L':
                r = self.r_mul(r, self._exp_log(m[0][0], c))
            elif (a.d is P1 and len(m) == 1 and m[0][1] == 1 and abs(c) < 200
                  and self.atoms[m[0][0]][0] == 'LC'):
                k = math.floor(c)
                r = self.r_mul(r, r_const(Fraction(self.atoms[m[0][0]][1]) ** k))
                if c != k:
                    e = self.atom(('E', (m, frozenset(P1.items()))))
                    r = self.r_mul(r, Rat({((e, c - k),): Fraction(1)}, P1))
            else:
                t = (m, frozenset(a.d.items()))
                k = self.atom(('E', t))
                r = self.r_mul(r, Rat({((k, c),): Fraction(1)}, P1))
        return r

    def _exp_log(self, latom, c):
        """exp(c * log P) = P^c"""
        pk = self.atoms[latom][1]
        p = dict(pk)
        if len(p) == 1:
            (m, co), = p.items()      # plus or minus a single atom
            if co == 1:
                return Rat({m_pow(m, c): Fraction(1)}, P1)
            if c.denominator == 1:
                return Rat({m_pow(m, c): Fraction(-1) ** int(c)}, P1)
        k = math.floor(c)
        r = self.r_pow(Rat(p, P1), k)
        f = c - k
        if f:
            e = self.atom(('R', pk))
            self.root[e] = p
            r = self.r_mul(r, Rat({((e, f),): Fraction(1)}, P1))
        return r

    def _log_atom(self, p):
        k = self.atom(('L', frozenset(p.items())))
        return Rat({((k, 1),): Fraction(1)}, P1)

    def _log(self, a):
        if not a.n:
            raise TooBig
        cm, lc, p = content(a.n)
        flip = lc < 0
        if flip:
            # one factor carries the sign
            lc = -lc
            if len(p) > 1:
                p = {m: -c for m, c in p.items()}
                flip = False
        r = self._log_const(lc)
        for k, e in cm:
            d = self.atoms[k]
            if flip and d[0] not in 'ER' and e.denominator == 1 and e.numerator % 2:
                flip = False
                t = self._log_atom({((k, 1),): Fraction(-1)})
                r = r_add(r, Rat(p_mulm(t.n, ONEM, Fraction(e)), P1))
                continue
            if d[0] == 'E':
                m, den = d[1]
                t = Rat({m: Fraction(1)}, dict(den) if dict(den) != P1 else P1)
                r = r_add(r, Rat(p_mulm(t.n, ONEM, Fraction(e)), t.d))
            elif d[0] == 'R':
                t = self._log_atom(dict(d[1]))
                r = r_add(r, Rat(p_mulm(t.n, ONEM, Fraction(e)), P1))
            else:
                t = self._log_atom({((k, 1),): Fraction(1)})
                r = r_add(r, Rat(p_mulm(t.n, ONEM, Fraction(e)), P1))
        if len(p) > 1:
            r = r_add(r, self._log_atom(p))
        if a.d is not P1:
            t = self._log_atom({m: -c for m, c in a.d.items()} if flip else a.d)
            flip = False
            r = r_add(r, Rat(p_mulm(t.n, ONEM, Fraction(-1)), P1))
        return r

    def _log_const(self, c):
        r = {}
        for v, s in ((c.numerator, 1), (c.denominator, -1)):
            q = 2
            while v > 1:
                if q * q > v:
                    q = v
                if q > 100000:
                    q = v
                while v % q == 0:
                    k = self.atom(('LC', q))
                    r = p_add(r, {((k, 1),): Fraction(s)})
                    v //= q
                q += 1
        return Rat(r, P1)

    def _gammaln(self, a):
        k0 = a.n.get(ONEM, Fraction(0)) if a.d is P1 else Fraction(0)
        rest = dict(a.n)
        rest.pop(ONEM, None)
        if a.d is not P1:
            return self.a_rat(('G', a.key))
        if not rest:
            if k0.denominator == 1 and 0 < k0 <= 60:
                return self._log_const(Fraction(math.factorial(int(k0) - 1)))
            k = math.floor(k0)
            if 0 <= k <= 60 and k0 != k:
                r = self.a_rat(('G', r_const(k0 - k).key))
                for i in range(k):
                    r = r_add(r, self._log_const(k0 - k + i))
                return r
            return self.a_rat(('G', a.key))
        k = math.floor(k0)
        if k > 40 or k < -40:
            return self.a_rat(('G', a.key))
        base = dict(rest)
        if k0 - k:
            base[ONEM] = k0 - k
        b = Rat(base, P1)
        r = self.a_rat(('G', b.key))
        for i in range(k):
            r = r_add(r, self._log(r_add(b, r_const(i))))
        for i in range(-k):
            t = self._log(r_add(b, r_const(-1 - i)))
            r = r_add(r, Rat(p_mulm(t.n, ONEM, Fraction(-1)), t.d))
        return r

    # ------------------------------------------------------------ z3 side
    def gather(self, roots):
        """canonicalise every function argument / divisor below the roots, so
        that the fractional exponents in use are known before encoding"""
        rats = []
        for n in S.reach(roots):
            if n.op in 'fu':
                r = self.canon(n)
                rats.append(r)
            elif n.op == '/':
                r = self.canon(n.args[1])
                if r is not None:
                    rats.append(r)
        todo = list(rats)
        for p in list(self.root.values()):
            todo.append(Rat(p, P1))
        for r in todo:
            for p in (r.n, r.d):
                for m in p:
                    for k, e in m:
                        q = Fraction(e).denominator
                        if q != 1:
                            o = self.lcd.get(k, 1)
                            n = o * q // math.gcd(o, q)
                            if n != o:
                                if k in self.zv:
                                    raise TooBig   # encoded too early
                                self.lcd[k] = n

    def zatom(self, k):
        """z3 term of (atom k)^(1/lcd)"""
        v = self.zv.get(k)
        if v is None:
            d = self.atoms[k]
            q = self.lcd.get(k, 1)
            if d[0] == 'v' and q == 1:
                v = z3.Real(d[1])
            else:
                v = z3.Real('%s!%d' % (d[0], k))
                if d[0] == 'E':
                    self.side.append(v > 0)
                elif d[0] == 'R':
                    self.zv[k] = v
                    self.side.append(v >= 0)
                    self.side.append(self._zpow(v, q) == self.zpoly(self.root[k]))
                elif q != 1:
                    self.side.append(v >= 0)
                elif d[0] == 'LC':
                    self.side.append(v > z3.RealVal(str(Fraction(math.log(d[1])) - Fraction(1, 10**9))))
                    self.side.append(v < z3.RealVal(str(Fraction(math.log(d[1])) + Fraction(1, 10**9))))
                if d[0] == 'v' and q != 1:
                    self.side.append(z3.Real(d[1]) == self._zpow(v, q))
            self.zv[k] = v
        return v

    @staticmethod
    def _zpow(v, n):
        n = int(n)
        if n == 0:
            return z3.RealVal(1)
        r = v
        for _ in range(n - 1):
            r = r * v
        return r

    def zinvatom(self, k):
        v = self.zinv.get(k)
        if v is None:
            a = self.zatom(k)
            v = z3.Real('inv!%d' % k)
            self.side.append(v * a == 1)
            self.zinv[k] = v
        return v

    def zmono(self, m, c):
        fs = []
        for k, e in m:
            a = self.zatom(k)
            e = e * self.lcd.get(k, 1)
            if e >= 0:
                fs.append(self._zpow(a, e))
            else:
                fs.append(self._zpow(self.zinvatom(k), -e))
        if c != 1 or not fs:
            fs.insert(0, z3.RealVal(str(c)))
        r = fs[0]
        for f in fs[1:]:
            r = r * f
        return r

    def zpoly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = [self.zmono(m, c) for m, c in sorted(p.items())]
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def zrat(self, r):
        n = self.zpoly(r.n)
        if r.d is P1:
            return n
        return n * self.zrecip_poly(r.d)

    def zrecip_poly(self, p):
        key = frozenset(p.items())
        v = self.rec.get(key)
        if v is None:
            v = z3.Real('rec!%d' % len(self.rec))
            self.rec[key] = v
            self.side.append(v * self.zpoly(p) == 1)
        return v

    def zrecip_node(self, b):
        r = self.canon(b)
        if r is not None and len(r.n) + len(r.d) < 400:
            if not r.n:
                # division by an identically zero term: no constraint can hold
                v = z3.Real('undef!%d' % b.id)
                self.side.append(z3.BoolVal(False))
                return v
            return self.zrat(Rat(r.d, r.n))
        key = ('node', b.id)
        v = self.rec.get(key)
        if v is None:
            v = z3.Real('rec!%d' % len(self.rec))
            self.rec[key] = v
            self.side.append(v * self.enc(b) == 1)
        return v

    def enc(self, node):
        """z3 term of a node (call gather first)"""
        if node.id in self.zmemo:
            return self.zmemo[node.id]
        for n in S.reach([node]):
            if n.id in self.zmemo:
                continue
            op = n.op
            if op == 'c':
                r = z3.RealVal(str(n.args[0]))
            elif op == 'v':
                k = self.atom(('v', n.args[0]))
                r = self._zpow(self.zatom(k), self.lcd.get(k, 1))
            elif op == '+':
                r = self.zmemo[n.args[0].id] + self.zmemo[n.args[1].id]
            elif op == '*':
                r = self.zmemo[n.args[0].id] * self.zmemo[n.args[1].id]
            elif op == '^':
                r = self._zpow(self.zmemo[n.args[0].id], n.args[1])
            elif op == '/':
                r = self.zmemo[n.args[0].id] * self.zrecip_node(n.args[1])
            else:
                r = self.zrat(self.canon(n))
            self.zmemo[n.id] = r
        return self.zmemo[node.id]

    # fraction-free encoding: node -> (z3 numerator, {denominator key: mult})
    def enc_nd(self, node):
        memo = self.__dict__.setdefault('ndmemo', {})
        polys = self.__dict__.setdefault('ndpolys', {})
        if node.id in memo:
            return memo[node.id]

        def prodd(d):
            r = None
            for k, e in sorted(d.items(), key=lambda t: repr(t[0])):
                f = self._zpow(polys[k], e)
                r = f if r is None else r * f
            return r

        def rat_nd(r):
            # negative exponents of atoms become denominator factors
            dens = {}
            for m in r.n:
                for k, e in m:
                    e = e * self.lcd.get(k, 1)
                    if e < 0:
                        kk = ('a', k)
                        polys.setdefault(kk, self.zatom(k))
                        dens[kk] = max(dens.get(kk, 0), int(-e))
            ts = []
            for m, c in sorted(r.n.items()):
                left = dict(dens)
                fs = [z3.RealVal(str(c))]
                for k, e in m:
                    e = e * self.lcd.get(k, 1)
                    if e > 0:
                        fs.append(self._zpow(self.zatom(k), e))
                    else:
                        left[('a', k)] -= int(-e)
                for kk, e in left.items():
                    if e:
                        fs.append(self._zpow(polys[kk], e))
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                ts.append(t)
            num = z3.Sum(ts) if ts else z3.RealVal(0)
            if r.d is not P1:
                kk = ('p', frozenset(r.d.items()))
                polys.setdefault(kk, self.zpoly(r.d))
                dens[kk] = 1
            return num, dens

        for n in S.reach([node]):
            if n.id in memo:
                continue
            op = n.op
            if op in 'cv':
                r = (self.enc(n), {})
            elif op == '+':
                (n1, d1), (n2, d2) = memo[n.args[0].id], memo[n.args[1].id]
                if d1 == d2:
                    r = (n1 + n2, d1)
                else:
                    l = dict(d1)
                    for k, e in d2.items():
                        l[k] = max(l.get(k, 0), e)
                    f1 = prodd({k: e - d1.get(k, 0) for k, e in l.items() if e > d1.get(k, 0)})
                    f2 = prodd({k: e - d2.get(k, 0) for k, e in l.items() if e > d2.get(k, 0)})
                    r = ((n1 if f1 is None else n1 * f1) + (n2 if f2 is None else n2 * f2), l)
            elif op == '*':
                (n1, d1), (n2, d2) = memo[n.args[0].id], memo[n.args[1].id]
                l = dict(d1)
                for k, e in d2.items():
                    l[k] = l.get(k, 0) + e
                r = (n1 * n2, l)
            elif op == '^':
                n1, d1 = memo[n.args[0].id]
                r = (self._zpow(n1, n.args[1]), {k: e * n.args[1] for k, e in d1.items()})
            elif op == '/':
                n1, d1 = memo[n.args[0].id]
                b = self.canon(n.args[1])
                if b is not None and b.n and len(b.n) + len(b.d) < 400:
                    n2, d2 = rat_nd(Rat(b.d, b.n))
                else:
                    bn, bd = memo[n.args[1].id]
                    kk = ('n', n.args[1].id)
                    polys.setdefault(kk, bn)
                    n2 = prodd(bd)
                    n2 = z3.RealVal(1) if n2 is None else n2
                    d2 = {kk: 1}
                l = dict(d1)
                for k, e in d2.items():
                    l[k] = l.get(k, 0) + e
                r = (n1 * n2, l)
            else:
                r = rat_nd(self.canon(n))
            memo[n.id] = r
        return memo[node.id]

    def nd_polys(self, d):
        return [self.ndpolys[k] for k in d]

    # ------------------------------------------------ opaque reciprocals
    # polynomials (exponents may be negative) over the atoms and atoms w = 1/P,
    # one per multi-term divisor P (normalised), with  w * P == 1
    def op_canon(self, node):
        memo = self.__dict__.setdefault('opmemo', {})
        if node.id in memo:
            r = memo[node.id]
            if r is None:
                raise TooBig
            return r
        for n in S.reach([node]):
            if n.id in memo:
                continue
            try:
                memo[n.id] = self._op1(n)
            except TooBig:
                memo[n.id] = None
        if memo[node.id] is None:
            raise TooBig
        return memo[node.id]

    def _op1(self, n):
        memo = self.opmemo

        def c(a):
            r = memo[a.id]
            if r is None:
                raise TooBig
            return r
        op = n.op
        if op == 'c':
            return {ONEM: n.args[0]} if n.args[0] else {}
        if op == '+':
            r = p_add(c(n.args[0]), c(n.args[1]))
            if len(r) > 4 * LIMIT:
                raise TooBig
            return r
        if op == '*':
            return self.op_reduce(p_mul(c(n.args[0]), c(n.args[1])))
        if op == '^':
            return self._oppow(c(n.args[0]), n.args[1])
        if op == '/':
            return self.op_reduce(p_mul(c(n.args[0]), self.op_recip(n.args[1])))
        r = self.canon(n)
        if r is None:
            raise TooBig
        return self.op_rat(r)

    def _oppow(self, p, k):
        r = P1
        for _ in range(k):
            r = self.op_reduce(p_mul(r, p))
        return r

    def op_rat(self, r):
        if any(k in self.root for p in (r.n, r.d) for m in p for k, e in m):
            raise TooBig
        return dict(r.n) if r.d is P1 else p_mul(r.n, self.op_recip_poly(r.d))

    def op_recip(self, b):
        """1 / b as a polynomial"""
        memo = self.__dict__.setdefault('oprmemo', {})
        if b.id not in memo:
            memo[b.id] = self._oprecip(b)
        return memo[b.id]

    def _oprecip(self, b):
        if b.op == '*':
            return p_mul(self.op_recip(b.args[0]), self.op_recip(b.args[1]))
        if b.op == '^':
            return self._oppow(self.op_recip(b.args[0]), b.args[1])
        if b.op == '/':
            return p_mul(self.op_recip(b.args[0]), self.op_canon(b.args[1]))
        r = self.canon(b)
        if r is None or len(r.n) + len(r.d) > 200:
            p = self.op_canon(b)
            if not p:
                raise TooBig
            return self.op_recip_poly(p)
        if not r.n or any(k in self.root for p in (r.n, r.d) for m in p for k, e in m):
            raise TooBig
        return p_mul(r.d, self.op_recip_poly(r.n))

    def op_recip_poly(self, p):
        cm, lc, q = content(p)
        if len(q) == 1:
            return {m_pow(cm, -1): 1 / lc}
        lead = max(q, key=_lex)
        q = {m: c / q[lead] for m, c in q.items()}
        lc2 = p[m_mul(lead, cm)]
        W = self.__dict__.setdefault('opw', {})
        k = self.atom(('W', frozenset(q.items())))
        if k not in W:
            rest = {m: -c for m, c in q.items() if m != lead}
            W[k] = (lead, dict(lead), p_add(P1, {}), rest, q)
        return {m_mul(m_pow(cm, -1), ((k, 1),)): 1 / lc2}

    def op_rule(self, node):
        """the node is zero:  lead -> -rest"""
        try:
            p = self.op_canon(node)
        except TooBig:
            return
        if not p:
            return
        neg = {}
        for m in p:
            for k, e in m:
                if e < 0:
                    neg[k] = min(neg.get(k, 0), e)
        if neg:
            # atoms with negative exponents are divisors, not zero
            p = p_mulm(p, tuple(sorted((k, -e) for k, e in neg.items())), 1)
        lead = max(p, key=_lex)
        if not lead:
            return
        self.__dict__.setdefault('oprules', []).append(
            (lead, dict(lead), {m: -c / p[lead] for m, c in p.items() if m != lead}))

    def op_reduce(self, p):
        """w * lead(P)  ->  1 - w * rest(P)"""
        W = self.__dict__.get('opw') or {}
        rules = self.__dict__.get('oprules') or ()
        if not W and not rules:
            return p
        out = {}
        todo = dict(p)
        steps = 0
        while todo:
            m, c = todo.popitem()
            hit = None
            d = dict(m)
            for k, e in m:
                if e > 0 and k in W:
                    ld = W[k][1]
                    if all(d.get(a, 0) >= x for a, x in ld.items()):
                        hit = k
                        break
            if hit is None:
                for ru in rules:
                    if all(d.get(a, 0) >= x for a, x in ru[1].items()):
                        hit = ru
                        break
                if hit is not None:
                    steps += 1
                    if steps > 60000:
                        raise TooBig
                    base = m_mul(m, m_pow(hit[0], -1))
                    for m3, c3 in hit[2].items():
                        m2 = m_mul(base, m3)
                        v = todo.get(m2, 0) + c * c3
                        if v == 0:
                            todo.pop(m2, None)
                        else:
                            todo[m2] = v
                    continue
                c2 = out.get(m, 0) + c
                if c2 == 0:
                    out.pop(m, None)
                else:
                    out[m] = c2
                continue
            steps += 1
            if steps > 60000:
                raise TooBig
            lead, ld, _, rest, _q = W[hit]
            base = m_mul(m, m_pow(lead, -1))
            nm = m_mul(base, ((hit, -1),))
            for m2, c2 in [(nm, c)] + [(m_mul(base, m3), c * c3) for m3, c3 in rest.items()]:
                v = todo.get(m2, 0) + c2
                if v == 0:
                    todo.pop(m2, None)
                else:
                    todo[m2] = v
        return out

    def op_goal(self, node):
        """z3 term equal to the node wherever its divisors do not vanish"""
        p = self.op_reduce(self.op_canon(node))
        neg = {}
        for m in p:
            for k, e in m:
                if e < 0:
                    neg[k] = min(neg.get(k, 0), e)
        p = self.op_reduce(p_mulm(p, tuple(sorted((k, -e) for k, e in neg.items())), 1)) if neg else p
        for k in list(neg):
            self.side.append(self.zatom(k) != 0)
        for m in p:
            for k, e in m:
                if Fraction(e).denominator != 1:
                    raise TooBig
        W = self.__dict__.get('opw') or {}
        for m in p:
            for k, e in m:
                if k in W and ('W', k) not in self.rec:
                    self.rec[('W', k)] = 1
                    self.side.append(self.zatom(k) * self.zpoly(W[k][4]) == 1)
        return self.zpoly(p)

    # ------------------------------------------------------------ booleans
    def bool_roots(self, b):
        if isinstance(b, (bool,)):
            return []
        if b.rel == 'not':
            return self.bool_roots(b.node)
        if b.rel in ('and', 'or'):
            return self.bool_roots(b.node[0]) + self.bool_roots(b.node[1])
        return [b.node]

    def zbool(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        if b.rel == 'not':
            return z3.Not(self.zbool(b.node))
        if b.rel == 'and':
            return z3.And(self.zbool(b.node[0]), self.zbool(b.node[1]))
        if b.rel == 'or':
            return z3.Or(self.zbool(b.node[0]), self.zbool(b.node[1]))
        t = self.enc(b.node)
        return {'==': lambda: t == 0, '!=': lambda: t != 0,
                '<': lambda: t < 0, '<=': lambda: t <= 0}[b.rel]()

    def axioms(self):
        """order facts about the atoms in use (only ever added assumptions that
        are true of the real functions)"""
        out = []
        done = self.__dict__.setdefault('axdone', set())
        changed = True
        while changed:
            changed = False
            for k in list(self.zv):
                if k in done:
                    continue
                done.add(k)
                d = self.atoms[k]
                if d[0] == 'E' and self.lcd.get(k, 1) == 1:
                    m, den = d[1]
                    den = dict(den)
                    t = self.zrat(Rat({m: Fraction(1)}, P1 if den == P1 else den))
                    v = self.zv[k]
                    out.append((t > 0) == (v > 1))
                    out.append((t < 0) == (v < 1))
                    changed = True
                elif d[0] == 'L':
                    t = self.zpoly(dict(d[1]))
                    v = self.zv[k]
                    out.append(z3.Implies(t > 1, v > 0))
                    out.append(z3.Implies(z3.And(t < 1, t > 0), v < 0))
                    changed = True
                elif d[0] == 'u' and d[1] in ('abs', 'max') and self.lcd.get(k, 1) == 1:
                    v = self.zv[k]
                    try:
                        nd = [self.znd(key) for key in d[3]]
                    except TooBig:
                        continue
                    ge = lambda s, n, q: v * q * q >= s * n * q if q is not None else v >= s * n
                    eq = lambda s, n, q: v * q == s * n if q is not None else v == s * n
                    if d[1] == 'abs':
                        (n, q), = nd
                        out.append(v >= 0)
                        some = z3.Or(eq(1, n, q), eq(-1, n, q))
                    else:
                        out += [ge(1, n, q) for n, q in nd]
                        some = z3.Or([eq(1, n, q) for n, q in nd])
                    qs = [q != 0 for n, q in nd if q is not None]
                    out.append(z3.Implies(z3.And(qs), some) if qs else some)
                    changed = True
        return out + self.congruence()

    def zsafe(self, key):
        r = keyrat(key)
        if r.d is not P1:
            raise TooBig          # would assume a divisor nonzero
        for p in (r.n, r.d):
            for m in p:
                for k, e in m:
                    if e < 0:
                        raise TooBig
                    if Fraction(e * self.lcd.get(k, 1)).denominator != 1:
                        raise TooBig
        return self.zrat(r)

    def znd(self, key):
        """numerator and divisor (None: 1) of an argument"""
        r = keyrat(key)
        low = {}
        for p in (r.n, r.d):
            for m in p:
                for k, e in m:
                    if Fraction(e * self.lcd.get(k, 1)).denominator != 1:
                        raise TooBig
                    low[k] = min(e, low.get(k, 0))
        low = {k: -e for k, e in low.items() if e < 0}
        if not low:
            return self.zpoly(r.n), (None if r.d is P1 or r.d == P1 else self.zpoly(r.d))
        low = tuple(sorted(low.items()))
        return self.zpoly(p_mulm(r.n, low, 1)), self.zpoly(p_mulm(r.d, low, 1))

    def congruence(self, limit=60):
        """equal arguments give equal values: needed once a path condition makes
        arguments equal that are not identical"""
        groups = {}
        for k in list(self.zv):
            d = self.atoms[k]
            if self.lcd.get(k, 1) != 1:
                continue
            if d[0] == 'u':
                groups.setdefault(('u', d[1], d[2]), []).append((k, d[3]))
            elif d[0] in CONGRUENT:
                groups.setdefault(d[0], []).append((k, (d[1],)))
        out = []
        done = self.__dict__.setdefault('cgdone', set())
        for g in groups.values():
            for a in range(len(g)):
                for b in range(a):
                    if (g[a][0], g[b][0]) in done or len(done) >= limit:
                        continue
                    done.add((g[a][0], g[b][0]))
                    try:
                        ds = []
                        for x, y in zip(g[a][1], g[b][1]):
                            if x != y:
                                ds.append(self.zsafe(x) == self.zsafe(y))
                    except (TooBig, KeyError):
                        continue
                    out.append(z3.Implies(z3.And(ds), self.zv[g[a][0]] == self.zv[g[b][0]]))
        return out


CONGRUENT = {'arctan', 'ndtri', 'ndtr', 'sqrt', 'psi'}


def keyrat(key):
    n, d = key
    d = dict(d)
    return Rat(dict(n), P1 if d == P1 else d)


def solve(formulas, timeout_ms=5000, model=False, tactic=None):
    """-> ('unsat'|'sat'|'unknown', model or None)"""
    if tactic is None:
        s = z3.SolverFor('QF_NRA')
    else:
        s = z3.Tactic(tactic).solver()
    s.set('timeout', int(timeout_ms))
    s.set('max_memory', 1200)
    t0 = time.time()
    try:
        for f in formulas:
            s.add(f)
        r = s.check()
        res = str(r)
    except z3.Z3Exception as e:   # treated as inconclusive
        res = 'unknown'
    dt = time.time() - t0
    STATS['queries'] += 1
    STATS['time'] += dt
    STATS['max'] = max(STATS['max'], dt)
    STATS[res] += 1
    m = s.model() if res == 'sat' and model else None
    return res, m


def smt2(formulas):
    s = z3.Solver()
    for f in formulas:
        s.add(f)
    return s.to_smt2()
