"""Value-number domain: rational functions over interned atoms.

A numeric abstract value is a quotient  num / prod(f_i ** e_i)  of polynomials with
rational coefficients over *atoms* (input symbols and uninterpreted terms such as
sqrt(x), sin(x)).  Two values are congruent iff the cross-multiplied numerators are
the same polynomial (after the rewrite rules below).  Nothing here searches or
solves: all operations are normal-form computations.
"""
from fractions import Fraction

# --------------------------------------------------------------------------
# atoms (interned)
_atoms = []          # id -> key
_atom_ids = {}       # key -> id
_atom_int = []       # id -> bool: integer valued
_rewrite = {}        # id -> (power n, Q)   atom**n == Q


class Blowup(Exception):
    pass


MAX_TERMS = 60000


def reset():
    _atoms.clear(); _atom_ids.clear(); _atom_int.clear(); _rewrite.clear()


def atom(key, integer=False):
    i = _atom_ids.get(key)
    if i is None:
        i = len(_atoms)
        _atom_ids[key] = i
        _atoms.append(key)
        _atom_int.append(integer)
    return i


def atom_key(i):
    return _atoms[i]


_fresh = [0]


def fresh_atom(name='t', integer=False):
    _fresh[0] += 1
    return atom(('sym', '%s#%d' % (name, _fresh[0])), integer)


# --------------------------------------------------------------------------
# polynomials: dict monomial -> coefficient; monomial: sorted tuple of (atom, exp)
def _norm_c(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = s
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def pscale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: _norm_c(c * k) for m, c in a.items()}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    r = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            r.append((x[0], x[1] + y[1])); i += 1; j += 1
        elif x[0] < y[0]:
            r.append(x); i += 1
        else:
            r.append(y); j += 1
    r.extend(a[i:]); r.extend(b[j:])
    return tuple(r)


def pmul_raw(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            s = r.get(m, 0) + c1 * c2
            if s == 0:
                r.pop(m, None)
            else:
                r[m] = _norm_c(s)
    if len(r) > MAX_TERMS:
        raise Blowup('polynomial with %d terms' % len(r))
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def pconst(c):
    return {(): c} if c != 0 else {}


def patoms(p):
    s = set()
    for m in p:
        for a, _ in m:
            s.add(a)
    return s


ONE = {(): 1}


def pcanon(p):
    """p = unit * canon with canon's first (max) monomial coefficient 1. -> (unit, canon)"""
    m = max(p)
    c = p[m]
    if c == 1:
        return 1, p
    inv = Fraction(1) / c
    return c, {k: _norm_c(v * inv) for k, v in p.items()}


def mdiv(a, b):
    """monomial a / b or None"""
    d = dict(a)
    for x, e in b:
        r = d.get(x, 0) - e
        if r < 0:
            return None
        if r == 0:
            d.pop(x, None)
        else:
            d[x] = r
    return tuple(sorted(d.items()))


def _grlex(order, m):
    """monomial order for division: total degree, then exponents (a genuine monomial order)"""
    d = dict(m)
    v = tuple(d.get(x, 0) for x in order)
    return (sum(v), v)


def pdivexact(p, f):
    """exact division p / f or None."""
    if not p:
        return {}
    if len(f) == 1:
        (fm, fc), = f.items()
        r = {}
        for m, c in p.items():
            q = mdiv(m, fm)
            if q is None:
                return None
            r[q] = _norm_c(Fraction(c) / fc) if fc != 1 else c
        return r
    fa = patoms(f)
    if not fa <= patoms(p):
        return None
    order = tuple(sorted(fa | patoms(p)))
    gl = {}

    def g(m):
        v = gl.get(m)
        if v is None:
            v = gl[m] = _grlex(order, m)
        return v
    fm = max(f, key=g)
    fc = f[fm]
    # quick degree filter: trailing monomials must divide as well
    ft = min(f, key=g)
    pt = min(p, key=g)
    if mdiv(pt, ft) is None:
        return None
    r = dict(p)
    q = {}
    steps = 0
    while r:
        m = max(r, key=g)
        d = mdiv(m, fm)
        if d is None:
            return None
        c = _norm_c(Fraction(r[m]) / fc)
        q[d] = c
        steps += 1
        if steps > 4000:
            return None
        for m2, c2 in f.items():
            k = mmul(d, m2)
            s = r.get(k, 0) - c * c2
            if s == 0:
                r.pop(k, None)
            else:
                r[k] = _norm_c(s)
    return q


# --------------------------------------------------------------------------
class Q:
    """num / prod(factor^exp); factors are canonical non-constant polynomials (as keys)."""
    __slots__ = ('num', 'den', '_key', '_hash')

    def __init__(self, num, den=()):
        self.num = num
        self.den = den          # tuple of (pkey, exp) sorted
        self._key = None
        self._hash = None

    # -- construction
    @staticmethod
    def const(c):
        c = _norm_c(c)
        return Q(pconst(c))

    @staticmethod
    def atom(i):
        return Q({((i, 1),): 1})

    @staticmethod
    def sym(name, integer=False):
        return Q.atom(atom(('sym', name), integer))

    @staticmethod
    def fresh(name='t', integer=False):
        return Q.atom(fresh_atom(name, integer))

    def key(self):
        if self._key is None:
            self._key = (pkey(self.num), self.den)
        return self._key

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(self.key())
        return self._hash

    def __eq__(self, o):
        return isinstance(o, Q) and self.key() == o.key()

    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and () in self.num))

    def cval(self):
        return self.num.get((), 0)

    def as_atom(self):
        """atom id if this is exactly one atom"""
        if not self.den and len(self.num) == 1:
            (m, c), = self.num.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self):
        s = patoms(self.num)
        for k, _ in self.den:
            s |= patoms(dict(k))
        return s

    def is_int(self):
        if self.den:
            return False
        for m, c in self.num.items():
            if type(c) is Fraction and c.denominator != 1:
                return False
            for a, _ in m:
                if not _atom_int[a]:
                    return False
        return True

    # -- arithmetic
    def _mk(num, den):
        """reduce powers + cancel den factors"""
        num, extra = _reduce_poly(num)
        if extra is not None:
            return _mkq(num, den, extra)
        for k, e in den:
            if e > 1 and len(k) == 1 and len(k[0][0]) == 1 and k[0][0][0][1] == 1:
                rw = _rewrite.get(k[0][0][0][0])
                if rw is not None and e >= rw[0]:
                    d = tuple((k2, e2 if k2 != k else e % rw[0]) for k2, e2 in den if k2 != k or e % rw[0])
                    r = Q._mk(num, d)
                    for _ in range(e // rw[0]):
                        r = r / rw[1]
                    return r
        if not num:
            return ZERO
        if den:
            nd = []
            for k, e in den:
                f = dict(k)
                while e > 0:
                    q = pdivexact(num, f)
                    if q is None:
                        break
                    num = q
                    e -= 1
                if e > 0:
                    nd.append((k, e))
            den = tuple(nd)
        return Q(num, den)

    def __neg__(self):
        return Q(pneg(self.num), self.den)

    def __add__(self, o):
        if not isinstance(o, Q):
            o = Q.const(o)
        if not self.num:
            return o
        if not o.num:
            return self
        if self.den == o.den:
            return Q._mk(padd(self.num, o.num), self.den) if self.den else Q(padd(self.num, o.num))
        d1, d2 = dict(self.den), dict(o.den)
        l = dict(d1)
        for k, e in d2.items():
            if l.get(k, 0) < e:
                l[k] = e
        n1, n2 = self.num, o.num
        for k, e in l.items():
            f = dict(k)
            for _ in range(e - d1.get(k, 0)):
                n1 = pmul_raw(n1, f)
            for _ in range(e - d2.get(k, 0)):
                n2 = pmul_raw(n2, f)
        return Q._mk(padd(n1, n2), tuple(sorted(l.items())))

    __radd__ = __add__

    def __sub__(self, o):
        if not isinstance(o, Q):
            o = Q.const(o)
        return self + (-o)

    def __rsub__(self, o):
        return Q.const(o) - self

    def __mul__(self, o):
        if not isinstance(o, Q):
            o = Q.const(o)
        if not self.num or not o.num:
            return ZERO
        if o.is_const():
            return Q(pscale(self.num, o.cval()), self.den)
        if self.is_const():
            return Q(pscale(o.num, self.cval()), o.den)
        d = dict(self.den)
        for k, e in o.den:
            d[k] = d.get(k, 0) + e
        n1, n2 = self.num, o.num
        if d:      # cross-cancel first: keeps things small
            for k in list(d):
                f = dict(k)
                while d[k] > 0:
                    q = pdivexact(n1, f) if self.den != () or o.den != () else None
                    if q is not None:
                        n1 = q; d[k] -= 1
                        continue
                    q = pdivexact(n2, f)
                    if q is not None:
                        n2 = q; d[k] -= 1
                        continue
                    break
                if d[k] == 0:
                    del d[k]
        return Q._mk(pmul_raw(n1, n2), tuple(sorted(d.items())))

    __rmul__ = __mul__

    def inv(self):
        if not self.num:
            raise ZeroDivisionError
        u, c = pcanon(self.num)
        num = pconst(Fraction(1) / u)
        for k, e in self.den:
            f = dict(k)
            for _ in range(e):
                num = pmul_raw(num, f)
        num = {m: _norm_c(x) for m, x in num.items()}
        if c == ONE:
            return Q._mk(num, ())
        # factor out monomial content so that factors stay small
        den = {}
        ms = list(c)
        common = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            for a in list(common):
                e = min(common[a], d.get(a, 0))
                if e:
                    common[a] = e
                else:
                    del common[a]
            if not common:
                break
        if common:
            cm = tuple(sorted(common.items()))
            c = {mdiv(m, cm): x for m, x in c.items()}
            for a, e in cm:
                den[pkey({((a, 1),): 1})] = e
        if c != ONE:
            u2, c2 = pcanon(c)
            if u2 != 1:
                num = pscale(num, Fraction(1) / u2)
            den[pkey(c2)] = 1
        return Q._mk(num, tuple(sorted(den.items())))

    def __truediv__(self, o):
        if not isinstance(o, Q):
            o = Q.const(o)
        if o.is_const():
            c = o.cval()
            if c == 0:
                raise ZeroDivisionError
            return Q({m: _norm_c(Fraction(x) / c) for m, x in self.num.items()}, self.den)
        return self * o.inv()

    def __rtruediv__(self, o):
        return Q.const(o) / self

    def __pow__(self, n):
        r = ONEQ
        for _ in range(n):
            r = r * self
        return r

    def subst(self, mp):
        """substitute atoms by Q values (mp: atom id -> Q)"""
        if not any(a in mp for a in self.atoms()):
            return self
        r = psubst(self.num, mp)
        for k, e in self.den:
            f = psubst(dict(k), mp)
            for _ in range(e):
                r = r / f
        return r

    def __repr__(self):
        s = pstr(self.num)
        if self.den:
            s = '(%s)/(%s)' % (s, ' * '.join('(%s)%s' % (pstr(dict(k)), '^%d' % e if e > 1 else '')
                                            for k, e in self.den))
        return s


def psubst(p, mp):
    r = ZERO
    keep = {}
    for m, c in p.items():
        if any(a in mp for a, _ in m):
            t = Q.const(c)
            rest = []
            for a, e in m:
                if a in mp:
                    for _ in range(e):
                        t = t * mp[a]
                else:
                    rest.append((a, e))
            if rest:
                t = t * Q({tuple(rest): 1})
            r = r + t
        else:
            keep[m] = c
    return r + Q(keep)


def _mkq(num, den, extra):
    # num/den + extra/den where extra is a Q (from power rewriting)
    d = Q._mk(num, den) if num else ZERO
    e = extra
    for k, x in den:
        f = Q(dict(k))
        for _ in range(x):
            e = e / f
    return d + e


def _reduce_poly(p):
    """rewrite atom powers (sqrt(x)^2 -> x, sin^2 -> 1-cos^2).
    -> (poly without reducible monomials, Q rest or None)"""
    if not _rewrite:
        return p, None
    bad = None
    for m in p:
        for a, e in m:
            rw = _rewrite.get(a)
            if rw is not None and e >= rw[0]:
                bad = bad or []
                bad.append(m)
                break
    if bad is None:
        return p, None
    r = dict(p)
    extra = ZERO
    for m in bad:
        c = r.pop(m)
        t = Q.const(c)
        rest = []
        for a, e in m:
            rw = _rewrite.get(a)
            if rw is not None and e >= rw[0]:
                for _ in range(e // rw[0]):
                    t = t * rw[1]
                if e % rw[0]:
                    rest.append((a, e % rw[0]))
            else:
                rest.append((a, e))
        if rest:
            t = t * Q({tuple(rest): 1})
        extra = extra + t
    return r, extra


ZERO = Q({})
ONEQ = Q({(): 1})


def set_rewrite(aid, n, q):
    _rewrite[aid] = (n, q)


def astr(a):
    k = _atoms[a]
    if k[0] == 'sym':
        return k[1]
    return '%s(%s)' % (k[0], ', '.join(_kstr(x) for x in k[1:]))


def _kstr(x):
    if isinstance(x, Q):
        return repr(x)
    return str(x)


def pstr(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda t: (len(t[0]), t[0])):
        s = '*'.join(astr(a) + ('^%d' % e if e > 1 else '') for a, e in m)
        if not m:
            t = str(c)
        elif c == 1:
            t = s
        elif c == -1:
            t = '-' + s
        else:
            t = '%s*%s' % (c, s)
        out.append(t)
        if len(out) > 14:
            out.append('... (%d terms)' % len(p))
            break
    return ' + '.join(out).replace('+ -', '- ')


# --------------------------------------------------------------------------
# uninterpreted functions with rewrite rules
def fn(name, *args, integer=False):
    return Q.atom(atom((name,) + args, integer))


def psqrt_exact(c):
    """rational square root or None"""
    c = Fraction(c)
    if c < 0:
        return None
    import math
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def qsqrt(x):
    if x.is_const():
        r = psqrt_exact(x.cval())
        if r is not None:
            return Q.const(r)
    # pull a square constant factor out
    if x.num:
        u, c = pcanon(x.num)
        r = psqrt_exact(u)
        if r is not None and r != 1:
            return Q.const(r) * qsqrt(Q(c, x.den))
    k = ('sqrt', x)
    new = k not in _atom_ids
    a = atom(k)
    if new:
        set_rewrite(a, 2, x)
    return Q.atom(a)


def _angle_split(x):
    """canonical sign: (sign, x') so that x = sign * x'"""
    if not x.num:
        return 1, x
    c = x.num[max(x.num)]
    return (-1, -x) if c < 0 else (1, x)


def _even(x):
    return (not x.den and x.num and all(type(c) is int and c % 2 == 0 for c in x.num.values()))


_trig = {}


def qcos(x):
    if not x.num:
        return ONEQ
    ka = x.as_atom()
    if ka is not None and _atoms[ka][0] == 'acos':
        return _atoms[ka][1]
    if ka is not None and _atoms[ka][0] == 'atan2':
        y, xx = _atoms[ka][1], _atoms[ka][2]
        return xx / qsqrt(xx * xx + y * y)
    if ka is not None and _atoms[ka][0] == 'asin':
        return qsqrt(ONEQ - _atoms[ka][1] * _atoms[ka][1])
    s, y = _angle_split(x)
    if _even(y):
        h = y / 2
        sn = qsin(h)
        return ONEQ - 2 * (sn * sn)
    return Q.atom(atom(('cos', y)))


def qsin(x):
    if not x.num:
        return ZERO
    s, y = _angle_split(x)
    ka = y.as_atom()
    if ka is not None and _atoms[ka][0] == 'asin':
        return s * _atoms[ka][1]
    if ka is not None and _atoms[ka][0] == 'acos':
        v = _atoms[ka][1]
        return s * qsqrt(ONEQ - v * v)
    if ka is not None and _atoms[ka][0] == 'atan2':
        yy, xx = _atoms[ka][1], _atoms[ka][2]
        return s * (yy / qsqrt(xx * xx + yy * yy))
    if _even(y):
        h = y / 2
        return s * 2 * qsin(h) * qcos(h)
    k = ('sin', y)
    new = k not in _atom_ids
    a = atom(k)
    if new:
        c = Q.atom(atom(('cos', y)))
        set_rewrite(a, 2, ONEQ - c * c)
    return s * Q.atom(a)
