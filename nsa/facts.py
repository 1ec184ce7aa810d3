"""Partition facts: signs of polynomials, linear inequalities, equalities, known bits.

A partition of the abstract state carries the comparison outcomes that select it.  The
domain is signs of canonical polynomials closed under (a) substitution of recorded
equalities, (b) monomial factoring / even powers, (c) linear entailment over monomials by
exact Fourier-Motzkin projection (the polyhedra-domain inclusion test), with integer
tightening.
"""
import math
from fractions import Fraction
from .poly import (Q, ZERO, pcanon, pkey, patoms, padd, pneg, pscale, mdiv, _atom_int,
                   _atoms, _norm_c, psubst)

NEG, ZER, POS = -1, 0, 1
ALL = frozenset((-1, 0, 1))
S_POS = frozenset((1,))
S_NEG = frozenset((-1,))
S_ZERO = frozenset((0,))
S_NN = frozenset((0, 1))
S_NP = frozenset((-1, 0))
S_NZ = frozenset((-1, 1))

ALLOWED = {'lt': S_NEG, 'le': S_NP, 'gt': S_POS, 'ge': S_NN, 'eq': S_ZERO, 'ne': S_NZ}


class Contradiction(Exception):
    pass


def smul(a, b):
    return frozenset(x * y for x in a for y in b)


_FM_CACHE = {}


def fm_infeasible(cons):
    """cons: list of (dict mono->coef (may include ()), strict) meaning expr >= 0 or > 0.
    True if there is certainly no solution over the reals."""
    key = frozenset((pkey(c), s) for c, s in cons)
    r = _FM_CACHE.get(key)
    if r is None:
        r = _FM_CACHE[key] = _fm(cons)
        if len(_FM_CACHE) > 200000:
            _FM_CACHE.clear()
    return r


def _fm(cons):
    work = {}
    for c, s in cons:
        k = [m for m in c if m != ()]
        if not k:
            v = c.get((), 0)
            if v < 0 or (v == 0 and s):
                return True
            continue
        _add(work, c, s)
    while work:
        cs = list(work.values())
        cnt = {}
        for c, s in cs:
            for m, v in c.items():
                if m != ():
                    p = cnt.setdefault(m, [0, 0])
                    p[0 if v > 0 else 1] += 1
        if not cnt:
            break
        v = min(cnt, key=lambda m: cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1])
        pos = [x for x in cs if x[0].get(v, 0) > 0]
        neg = [x for x in cs if x[0].get(v, 0) < 0]
        rest = [x for x in cs if v not in x[0]]
        if len(pos) * len(neg) > 4000:
            return False
        work = {}
        for c, s in rest:
            _add(work, c, s)
        for a, sa in pos:
            for b, sb in neg:
                ka, kb = a[v], -b[v]
                c = padd(pscale(a, Fraction(1) / ka), pscale(b, Fraction(1) / kb))
                c.pop(v, None)
                s = sa or sb
                if not any(m != () for m in c):
                    x = c.get((), 0)
                    if x < 0 or (x == 0 and s):
                        return True
                    continue
                _add(work, c, s)
        if len(work) > 3000:
            return False
    return False


def _add(work, c, s):
    ms = sorted(m for m in c if m != ())
    k = abs(c[ms[0]])
    c = {m: _norm_c(Fraction(v) / k) for m, v in c.items()}
    key = tuple((m, c[m]) for m in ms)
    o = work.get(key)
    if o is not None:
        oc, os_ = o
        a, b = c.get((), 0), oc.get((), 0)
        if a > b or (a == b and (os_ or not s)):
            return
    work[key] = (c, s)


class Facts:
    __slots__ = ('signs', 'subst', 'bits', 'bools', 'notes', '_lin')

    def __init__(self):
        self.signs = {}     # pkey(canonical poly) -> frozenset
        self.subst = {}     # atom -> Q
        self.bits = {}      # atom -> (mask, value)
        self.bools = {}     # boolean atom -> bool
        self.notes = ()     # human readable partition decisions
        self._lin = None

    def clone(self):
        f = Facts.__new__(Facts)
        f.signs = dict(self.signs); f.subst = dict(self.subst); f.bits = dict(self.bits)
        f.bools = dict(self.bools); f.notes = self.notes; f._lin = self._lin
        return f

    # ---- normal form
    def norm(self, q):
        n = 0
        while self.subst and n < 30:
            r = q.subst(self.subst)
            if r is q or r == q:
                return q
            q = r
            n += 1
        return q

    # ---- linear constraints
    def _constraints(self):
        if self._lin is None:
            out = []
            for k, s in self.signs.items():
                p = dict(k)
                isint = all(_atom_int[a] for m in p for a, _ in m)
                if isint:
                    den = 1
                    for c in p.values():
                        if type(c) is Fraction:
                            den = den * c.denominator
                    if den != 1:
                        p = pscale(p, den)
                if s == S_POS or s == S_NN:
                    out.append(self._tight(p, s == S_POS, isint))
                elif s == S_NEG or s == S_NP:
                    out.append(self._tight(pneg(p), s == S_NEG, isint))
                elif s == S_ZERO:
                    out.append((p, False)); out.append((pneg(p), False))
            self._lin = [(c, s, frozenset(m for m in c if m != ())) for c, s in out]
        return self._lin

    @staticmethod
    def _tight(p, strict, isint):
        if not isint:
            return (p, strict)
        k = p.get((), 0) - (1 if strict else 0)
        g = 0
        for m, x in p.items():
            if type(x) is not int:
                break
            if m != ():
                g = math.gcd(g, x)
        else:
            if g > 1:                 # whole numbers: g*t + k >= 0 iff t + floor(k/g) >= 0
                p = {m: x // g for m, x in p.items() if m != ()}
                k //= g
                if k:
                    p[()] = k
                return (p, False)
        if strict:
            p = dict(p)
            p[()] = k
            if k == 0:
                del p[()]
        return (p, False)

    def entails_infeasible(self, extra):
        """are the facts + extra [(poly, strict)] inconsistent (linear reasoning)?"""
        cons = self._constraints()
        vs = set()
        for p, _ in extra:
            vs |= set(m for m in p if m != ())
        rel = []
        todo = True
        left = list(cons)
        while todo:
            todo = False
            nl = []
            for c, s, ms in left:
                if ms & vs:
                    rel.append((c, s)); vs |= ms; todo = True
                else:
                    nl.append((c, s, ms))
            left = nl
        for m in list(vs):           # even monomials are >= 0, atoms with known sign
            ms = self._mono_sign(m)
            if ms == S_POS or ms == S_NN:
                rel.append(({m: 1}, ms == S_POS))
            elif ms == S_NEG or ms == S_NP:
                rel.append(({m: -1}, ms == S_NEG))
        return fm_infeasible(rel + list(extra))

    def _mono_sign(self, m):
        r = S_POS
        for a, e in m:
            s = self.atom_sign(a)
            if e % 2 == 0:
                s = frozenset(x * x for x in s)
            r = smul(r, s)
        return r

    def atom_sign(self, a):
        s = self.signs.get((((((a, 1),), 1)),), None)
        k = _atoms[a][0]
        if s is None:
            s = ALL
        if k in ('sqrt', 'acos', 'abs'):
            s = s & S_NN or s
            if k == 'sqrt' and s == S_NN:
                inner = self._sign_noatom(_atoms[a][1])
                if inner == S_POS:
                    s = S_POS
        if k == 'exp':
            s = S_POS
        if a in self.bits:
            pass
        return s

    def _sign_noatom(self, q):
        try:
            return self.sign(q, depth=1)
        except RecursionError:
            return ALL

    # ---- sign query
    def sign(self, q, depth=0):
        if q.is_const():
            c = q.cval()
            return frozenset(((c > 0) - (c < 0),))
        q = self.norm(q)
        if q.is_const():
            c = q.cval()
            return frozenset(((c > 0) - (c < 0),))
        s = self.psign(q.num, depth)
        if s == S_ZERO:
            return s
        for k, e in q.den:
            if e % 2:
                s = smul(s, self.psign(dict(k), depth) - S_ZERO)
        return s

    def psign(self, p, depth=0):
        if not p:
            return S_ZERO
        u, c = pcanon(p)
        us = S_POS if u > 0 else S_NEG
        return smul(us, self._csign(c, depth))

    def _csign(self, c, depth):
        if len(c) == 1:
            (m, x), = c.items()
            if m == ():
                return S_POS if x > 0 else S_NEG
            s = smul(S_POS if x > 0 else S_NEG, self._mono_sign(m))
            f = self.signs.get(pkey(c))
            if f is not None:
                s = s & f
            if len(s) == 1 or len(m) > 1:
                return s
        s = ALL
        f = self.signs.get(pkey(c))
        if f is not None:
            s = f
            if len(s) == 1:
                return s
        # common monomial factor
        it = iter(c)
        common = dict(next(it))
        for m in it:
            d = dict(m)
            for a in list(common):
                e = min(common[a], d.get(a, 0))
                if e:
                    common[a] = e
                else:
                    del common[a]
            if not common:
                break
        if common and len(c) > 1:
            cm = tuple(sorted(common.items()))
            rest = {mdiv(m, cm): x for m, x in c.items()}
            t = smul(self._mono_sign(cm), self.psign(rest, depth + 1))
            s = s & t
            if len(s) <= 1:
                return s
        # sums of same-signed monomials
        if len(c) <= 60:
            lo = hi = True
            strict = False
            for m, x in c.items():
                ms = self._mono_sign(m) if m else S_POS
                ms = smul(ms, S_POS if x > 0 else S_NEG)
                if ms == S_POS:
                    hi = False; strict = True
                elif ms == S_NN:
                    hi = False
                elif ms == S_NEG:
                    lo = False; strict = True
                elif ms == S_NP:
                    lo = False
                elif ms == S_ZERO:
                    pass
                else:
                    lo = hi = False
                if not lo and not hi:
                    break
            if lo:
                s = s & (S_POS if strict else S_NN)
            elif hi:
                s = s & (S_NEG if strict else S_NP)
            if len(s) <= 1:
                return s
        # linear entailment
        if depth < 4 and len(c) <= 40:
            isint = all(_atom_int[a] for m in c for a, _ in m)
            if POS in s and self.entails_infeasible([self._tight(_ints(c, isint), True, isint)]):
                s = s - S_POS
            if NEG in s and self.entails_infeasible([self._tight(pneg(_ints(c, isint)), True, isint)]):
                s = s - S_NEG
            if ZER in s and len(s) > 1:
                if self.entails_infeasible([(c, False), (pneg(c), False)]):
                    s = s - S_ZERO
        return s

    # ---- recording
    def assume_sign(self, q, allowed):
        """restrict sign(q) to allowed; raises Contradiction"""
        q = self.norm(q)
        cur = self.sign(q)
        new = cur & allowed
        if not new:
            raise Contradiction
        if new == cur and len(new) == 1 and q.is_const():
            return
        ds = S_POS
        for k, e in q.den:
            if e % 2:
                d = self.psign(dict(k)) - S_ZERO
                ds = smul(ds, d)
        if q.is_const():
            return
        if ds == S_POS:
            self._assume_p(q.num, new)
        elif ds == S_NEG:
            self._assume_p(q.num, frozenset(-x for x in new))
        elif new == S_ZERO or new == S_NZ:
            self._assume_p(q.num, new)
        # otherwise: sound to forget

    def _strip(self, p, s):
        """divide by the common monomial factor as far as its sign is known"""
        it = iter(p)
        common = dict(next(it))
        for m in it:
            d = dict(m)
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
            if not common:
                return p, s
        if len(p) == 1:
            return p, s
        div = []
        for a, e in sorted(common.items()):
            t = self._csign({((a, 1),): 1}, 2)
            if ZER in t:
                continue
            if t == S_POS or e % 2 == 0:
                pass
            elif t == S_NEG:
                s = frozenset(-x for x in s)
            elif not (s == S_ZERO or s == S_NZ):
                continue
            div.append((a, e))
        if div:
            cm = tuple(div)
            p = {mdiv(m, cm): x for m, x in p.items()}
        return p, s

    def _assume_p(self, p, s):
        p, s = self._strip(p, s)
        u, c = pcanon(p)
        if u < 0:
            s = frozenset(-x for x in s)
        k = pkey(c)
        old = self.signs.get(k, ALL)
        s = s & old
        if not s:
            raise Contradiction
        if s == S_ZERO:
            self._equality(c)
            return
        if len(c) == 1:
            (m, x), = c.items()
            if s == S_NZ or 0 not in s:
                # a product is nonzero: every atom is
                if len(m) > 1 or m[0][1] > 1:
                    for a, e in m:
                        ka = ((((a, 1),), 1),)
                        o = self.signs.get(ka, ALL)
                        if 0 in o:
                            self.signs[ka] = o - S_ZERO
        self.signs[k] = s
        self._lin = None
        if len(s) == 2 or len(s) == 1:
            self._pin(c, s)

    def _pin(self, c, s):
        """an integer between two bounds that meet is known"""
        vs = [m for m in c if m != ()]
        if s == S_NZ or len(vs) > 2 or any(len(m) != 1 or m[0][1] != 1 or not _atom_int[m[0][0]] for m in vs):
            return
        p = dict(c) if POS in s else pneg(c)
        m = 1
        for x in p.values():
            if type(x) is Fraction:
                m = math.lcm(m, x.denominator)
        p = {k: int(x * m) for k, x in p.items()}
        g = 0
        for m in vs:
            g = math.gcd(g, p[m])
        k = p.get((), 0) - (0 if ZER in s else 1)
        p = {m: p[m] // g for m in vs}
        if k // g:
            p[()] = k // g
        q = dict(p)
        q[()] = q.get((), 0) - 1
        if not q[()]:
            del q[()]
        if self.entails_infeasible([(q, False)]):
            if self.entails_infeasible([(p, False)]):
                raise Contradiction
            u, c = pcanon(p)
            self._equality(c)

    def _equality(self, c):
        """record c == 0: eliminate an atom if one is linear with a usable coefficient"""
        best = None
        for m in c:
            for a, e in m:
                if e != 1 or a in self.subst:
                    continue
                # coefficient of a (must not contain a otherwise)
                coef, rest, ok = {}, {}, True
                for m2, x in c.items():
                    d = dict(m2)
                    if a in d:
                        if d[a] != 1:
                            ok = False
                            break
                        coef[mdiv(m2, ((a, 1),))] = x
                    else:
                        rest[m2] = x
                if not ok or a in patoms(rest) or a in patoms(coef):
                    continue
                # never eliminate through terms that mention the atom itself
                kind = 0 if _atoms[a][0] == 'sym' else 1
                if not (set(coef) == {()}):
                    if 0 in self.psign(coef, 3):
                        continue
                    kind += 2
                if _atom_int[a] and not (set(coef) == {()} and abs(coef[()]) == 1 and
                                         all(type(v) is int for v in rest.values())):
                    kind += 4
                if best is None or (kind, -a) < best[0]:
                    best = ((kind, -a), a, coef, rest)
        if best is None:
            self.signs[pkey(c)] = S_ZERO
            self._lin = None
            return
        _, a, coef, rest = best
        v = Q(pneg(rest)) / Q(coef) if rest else ZERO
        for b in list(self.subst):
            self.subst[b] = self.subst[b].subst({a: v})
        self.subst[a] = v
        old = self.signs
        self.signs = {}
        self._lin = None
        todo = []
        for k, s in old.items():
            p = dict(k)
            if a in patoms(p):
                todo.append((p, s))
            else:
                self.signs[k] = s
        todo.sort(key=lambda x: len(x[0]))
        for p, s in todo:
            q = psubst(p, {a: v})
            if q.is_const():
                x = q.cval()
                if ((x > 0) - (x < 0)) not in s:
                    raise Contradiction
                continue
            self.assume_sign(q, s)
        self._lin = None

    def consistent(self):
        cons = [(c, s) for c, s, _ in self._constraints()]
        return not fm_infeasible(cons)


def _ints(c, isint):
    if not isint:
        return c
    den = 1
    for v in c.values():
        if type(v) is Fraction:
            den *= v.denominator
    return pscale(c, den) if den != 1 else c
