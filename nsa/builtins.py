"""Models of the external functions the analysed code calls: language runtime, libm,
libc memory functions, and the harness intrinsics (sa_*)."""
import re
from fractions import Fraction
from . import interp as I
from .interp import (Ptr, FnP, NULL, UNDEF, Cond, Opq, BW, Agg, Cat, Fill, PathEnd, Throw, AnalysisError,
                     ENTERED, toq, simp, cnot, ceval, Fork, ForkN, State)
from .poly import Q, ZERO, ONEQ, qsqrt, qsin, qcos, fn as qfn, atom, atom_key, patoms
from .facts import S_NN, S_NP, S_ZERO, S_NZ, S_POS, S_NEG, Contradiction


def cstr(it, st, p):
    if isinstance(p, Ptr):
        o = st.mem[p.obj]
        if o.kind == 'global':
            g = it.mod.glob(o.ext)
            init = g.get('init')
            if init and init[0] == 'agg':
                b = [int(x[2]) & 255 for x in init[2]][p.off:]
                return bytes(b).split(b'\0')[0].decode('latin1')
            if init and init[0] == 'z':
                return ''
    return repr(p)


# ---------------------------------------------------------------- harness intrinsics
def sa_real(it, st, a, ins):
    return Q.sym(cstr(it, st, a[0]))


def sa_int(it, st, a, ins):
    return Q.sym(cstr(it, st, a[0]), True)


def sa_size(it, st, a, ins):
    q = Q.sym(cstr(it, st, a[0]), True)
    it.sizes.add(q.as_atom())
    st.facts.assume_sign(q, S_NN)
    st.facts.assume_sign(Q.const(1 << 47) - q, S_NN)
    return q


def sa_uint(it, st, a, ins):
    q = Q.sym(cstr(it, st, a[0]), True)
    st.facts.assume_sign(q, S_NN)
    st.facts.assume_sign(Q.const((1 << 31) - 1) - q, S_NN)
    return q


def sa_bits(it, st, a, ins):
    w = I.width(ins['t'])
    return BW({frozenset(['%s:%d' % (cstr(it, st, a[0]), w)]): (1 << w) - 1})


def sa_bool(it, st, a, ins):
    return Cond('b', cstr(it, st, a[0]))


def sa_opaque(it, st, a, ins):
    return Opq(('sym', cstr(it, st, a[0])))


def sa_fresh_bool(it, st, a, ins):
    st.ghost['nb'] = n = st.ghost.get('nb', 0) + 1
    return Cond('b', '%s#%d' % (cstr(it, st, a[0]), n))


def sa_assume(it, st, a, ins):
    if not it.decide(st, a[0]):
        raise PathEnd('dropped')
    return None


def sa_expect(it, st, a, ins):
    label = cstr(it, st, a[1])
    c = a[0]
    if c is UNDEF:
        it.report(st, 'expect', label, False, 'depends on an uninitialised value')
        return None
    if isinstance(c, int):
        ok = bool(c)
        it.report(st, 'expect', label, ok, '' if ok else 'does not hold')
        return None
    c = it.to_cond(st, c)
    if isinstance(c, Cond) and not getattr(it, 'weak', False):
        ok = it.decide(st, c)      # splits the partition when the facts do not settle it
        it.report(st, 'expect', label, ok, '' if ok else 'does not hold where %r' % (cnot(c),))
    return None


def close(d, ref):
    """difference polynomial is only constant-folding noise"""
    if not d.num:
        return True
    sc = max([abs(c) for c in ref.num.values()] or [1])
    return all(abs(c) <= sc * Fraction(1, 10 ** 6) for c in d.num.values())


def eq_num(it, st, x, y, label):
    if x is UNDEF or y is UNDEF:
        return it.report(st, 'expect', label, False, 'value is uninitialised')
    if isinstance(x, Cond) or isinstance(y, Cond):
        if isinstance(x, Cond):
            x = it.concrete_bool(st, x)
        if isinstance(y, Cond):
            y = it.concrete_bool(st, y)
    if not isinstance(x, (Q, int)) or not isinstance(y, (Q, int)):
        if isinstance(x, BW) or isinstance(y, BW):
            ok = x == y
            if not ok:
                a, b = it.to_bw(x, 64), it.to_bw(y, 64)
                ok = a is not None and b is not None and a.xor(b).const() == 0
        else:
            ok = x == y
        return it.report(st, 'expect', label, ok, '' if ok else 'got %r, expected %r' % (x, y))
    qx, qy = toq(x), toq(y)
    d = st.facts.norm(qx - qy)
    ok = not d.num
    if not ok:
        d2 = deep_norm(st, d)
        ok = not d2.num
        if not ok and st.facts.sign(d2) == S_ZERO:
            ok = True
        if not ok and isinstance(x, Q) and isinstance(y, Q) and not (qx.is_int() and qy.is_int() and not qx.is_const()):
            # constants folded at compile time carry rounding
            num = qx.num if not qx.den else None
            ok = close(d2, qx if num is not None else d2)
            if not ok and any(isinstance(c, Fraction) and c.denominator > 10 ** 6 for c in d.num.values()):
                ok = close(d2, qx)
        if not ok:
            d2 = merge_applications(st, d2)
            ok = not d2.num or st.facts.sign(d2) == S_ZERO
        d = d2
    it.report(st, 'expect', label, ok, '' if ok else 'got %s, expected %s (difference %s)' % (
        _cut(qx), _cut(qy), _cut(d)))


SPECIAL = {'acos': ((1, 0),), 'asin': ((0, 0),), 'atan': ((0, 0),), 'sin': ((0, 0),), 'cos': ((0, 1),), 'tan': ((0, 0),),
           'exp': ((0, 1),), 'log': ((1, 0),), 'sqrt': ((0, 0), (1, 1))}


def merge_applications(st, d):
    """the same function applied to arguments that are equal by the facts of this partition"""
    for _ in range(4):
        apps = {}
        for i in sorted(d.atoms()):
            k = atom_key(i)
            if k[0] != 'sym' and len(k) > 1 and all(isinstance(x, Q) for x in k[1:]):
                apps.setdefault((k[0], len(k)), []).append(i)
        sub = {}
        for (f, n), same in apps.items():
            for x, v in SPECIAL.get(f, ()) if n == 2 else ():
                for i in same:
                    if st.facts.sign(atom_key(i)[1] - x) == S_ZERO:
                        sub[i] = Q.const(v)
        for same in apps.values():
            for n, j in enumerate(same):
                for i in same[:n]:
                    if i not in sub and j not in sub and all(st.facts.sign(x - y) == S_ZERO for x, y in zip(atom_key(i)[1:], atom_key(j)[1:])):
                        sub[j] = Q.atom(i)
                        break
        if not sub:
            return d
        d = st.facts.norm(d.subst(sub))
    return d


def _cut(q):
    s = repr(q)
    return s if len(s) < 400 else s[:400] + '...'


def deep_norm(st, q, depth=0):
    """apply recorded equalities below uninterpreted functions too"""
    sub = st.facts.subst
    if not sub or depth > 6:
        return q
    from . import poly
    for _ in range(4):
        mp = {}
        for a in q.atoms():
            k = poly.atom_key(a)
            if k[0] == 'sym':
                if a in ELEMS:         # an element whose index is known by now
                    name, idx, real = ELEMS[a]
                    i2 = simp(deep_norm(st, st.facts.norm(idx), depth + 1))
                    if isinstance(i2, Q) and st.facts.sign(i2) == S_ZERO:
                        i2 = 0
                    if not (i2 == idx):
                        mp[a] = element(name, i2, real)
                continue
            args = []
            ch = False
            for x in k[1:]:
                if isinstance(x, Q):
                    y = deep_norm(st, st.facts.norm(x), depth + 1)
                    ch = ch or not (y == x)
                    args.append(y)
                else:
                    args.append(x)
            if ch:
                mp[a] = rebuild(k[0], args, poly._atom_int[a])
        q2 = q.subst(mp) if mp else q
        q2 = st.facts.norm(q2)
        if q2 == q:
            return q
        q = q2
    return q


def rebuild(name, args, integer):
    if name == 'sqrt':
        return qsqrt(args[0])
    if name == 'sin':
        return qsin(args[0])
    if name == 'cos':
        return qcos(args[0])
    return qfn(name, *args, integer=integer)


def sa_eq(it, st, a, ins):
    eq_num(it, st, a[0], a[1], cstr(it, st, a[2]))


def sa_is_undef(it, st, a, ins):
    return int(a[0] is UNDEF)


def sa_mark(it, st, a, ins):
    st.ghost[cstr(it, st, a[0])] = a[1] if len(a) > 1 else 1


def sa_precise(it, st, a, ins):
    st.ghost['precise'] = a[0]


def sa_divisors(it, st, a, ins):
    """from here on every division must have a divisor that is certainly not zero"""
    st.ghost['divisors'] = a[0]


def sa_domains(it, st, a, ins):
    """from here on arguments of sqrt, acos and asin must certainly lie in the domain of the function"""
    st.ghost['domains'] = a[0]


def psd(q):
    """q is a quadratic form that is certainly not negative: L D L^T decomposition of its matrix"""
    if q.den:
        return False
    idx, m = {}, {}
    for mono, k in q.num.items():
        fs = [a for a, e in mono for _ in range(e)]
        if len(fs) > 2:
            return False
        fs += [None] * (2 - len(fs))
        i, j = (idx.setdefault(a, len(idx)) for a in fs)
        v = Fraction(k)
        if i == j:
            m[i, i] = m.get((i, i), 0) + v
        else:
            m[i, j] = m[j, i] = m.get((i, j), 0) + v / 2
    n = len(idx)
    g = [[Fraction(m.get((i, j), 0)) for j in range(n)] for i in range(n)]
    for p in range(n):
        if g[p][p] < 0:
            return False
        if g[p][p] == 0:
            if any(g[p][j] for j in range(p, n)):
                return False
            continue
        for i in range(p + 1, n):
            f = g[i][p] / g[p][p]
            for j in range(p, n):
                g[i][j] -= f * g[p][j]
    return True


def in_domain(it, st, name, low, x):
    """low: quantities that have to be non-negative"""
    mode = st.ghost.get('domains')
    if not mode or (mode == 2 and name == 'sqrt'):
        return
    for what, q in low:
        if not (st.facts.sign(q) <= S_NN or psd(q)):
            it.report(st, 'expect', 'the argument of %s is in its domain' % name, False,
                      '%s(%s): %s is possible' % (name, repr(x)[:300], what))
            return
    it.report(st, 'expect', 'the argument of %s is in its domain' % name, True, '')


def sa_square(it, st, a, ins):
    """assumption v * v == q, for a symbol v"""
    from . import poly
    k = a[0].as_atom()
    if k is None:
        raise I.AnalysisError('sa_square needs a symbol')
    poly.set_rewrite(k, 2, a[1])


def sa_stop(it, st, a, ins):
    raise PathEnd('stop')


def sa_fail(it, st, a, ins):
    it.report(st, 'expect', cstr(it, st, a[0]), False, 'this point must not be reached')


def sa_reach(it, st, a, ins):
    it.report(st, 'expect', cstr(it, st, a[0]), True)


def sa_live_heap(it, st, a, ins):
    """number of live heap objects"""
    return sum(1 for o in st.mem.values() if o.alive and o.kind == 'heap' and not o.name.startswith('exception'))


ELEMS = {}        # element atom -> (buffer, index, real)


def element(name, idx, real):
    a = atom(('sym', '%s[%r]' % (name, idx)), not real)
    if isinstance(idx, Q):
        ELEMS[a] = (name, idx, real)
    return Q.atom(a)


def sa_buffer(it, st, a, ins):
    """input region of `n` elements of `es` bytes, arbitrary content; kind 0 int, 1 real"""
    name, n, es, kind = cstr(it, st, a[0]), a[1], a[2], a[3]
    size = simp(toq(n) * toq(es))

    def lazy(it_, s, oi, off, sz, ty):
        real = I.is_float_t(ty)
        if sz != es:
            if isinstance(off, int) and isinstance(es, int) and sz > es and sz % es == 0 and not real:
                return Cat([(k, es, lazy(it_, s, oi, off + k, es, 'i%d' % (8 * es))) for k in range(0, sz, es)], sz)
            if sz < es and isinstance(off, int):
                v = lazy(it_, s, oi, off - off % es, es, 'i%d' % (8 * es))
                return it_.extract(s, v, off % es, sz, es)
            return Opq(('mem', name, off, sz))
        if ty == 'ptr':
            return Opq(('mem', name, off, sz))
        idx = off // es if isinstance(off, int) else simp(s.facts.norm(off / es))
        if isinstance(idx, Q) and s.facts.sign(idx) == S_ZERO:
            idx = 0
        if not real and kind == 2:
            return BW({frozenset(['%s[%r]' % (name, idx)]): (1 << (8 * sz)) - 1})
        return element(name, idx, real)
    i = st.alloc(size, 'heap', 'buffer ' + name, lazy=lazy)
    return Ptr(i, 0)


def sa_heap(it, st, a, ins):
    i = st.alloc(a[0], 'heap', 'buffer')
    return Ptr(i, 0)


def sa_same(it, st, a, ins):
    """pointer identity as expectation"""
    x, y, l = a[0], a[1], cstr(it, st, a[2])
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        d = None
        ok = x.obj == y.obj
        if ok:
            d = st.facts.norm(toq(x.off) - toq(y.off))
            ok = not d.num or st.facts.sign(d) == S_ZERO
    else:
        ok = x == y
    it.report(st, 'expect', l, ok, '' if ok else 'got %r, expected %r' % (x, y))


# ---------------------------------------------------------------- runtime
def op_new(it, st, a, ins):
    n = a[0]
    if isinstance(n, Q):
        n = simp(st.facts.norm(n))
    if st.ghost.get('alloc_may_fail'):
        st.ghost['alloc_n'] = k = st.ghost.get('alloc_n', 0) + 1
        c = Cond('b', 'alloc_fails#%d' % k)
        if ceval(c, st.facts) is None:
            st.ghost['alloc_n'] = k - 1
            raise Fork(c)
        if ceval(c, st.facts):
            raise Throw('_ZTISt9bad_alloc')
    i = st.alloc(n, 'heap', 'heap block')
    return Ptr(i, 0)


def op_delete(it, st, a, ins):
    p = a[0]
    if p is UNDEF:
        raise PathEnd('memory', 'delete of an uninitialised pointer')
    if p == NULL:
        return None
    if not isinstance(p, Ptr):
        raise AnalysisError('delete %r' % (p,))
    o = st.mem.get(p.obj)
    if o is None or not o.alive:
        raise PathEnd('memory', 'block is freed twice')
    if o.kind != 'heap' or not (isinstance(p.off, int) and p.off == 0):
        raise PathEnd('memory', 'delete of something that was not allocated (%s, offset %r)' % (o.name, p.off))
    st.wobj(p.obj).alive = False
    return None


def cxa_alloc(it, st, a, ins):
    i = st.alloc(a[0], 'heap', 'exception object')
    return Ptr(i, 0)


def cxa_free(it, st, a, ins):
    return None


def cxa_throw(it, st, a, ins):
    p = a[0]
    ti = st.mem[a[1].obj].ext if isinstance(a[1], Ptr) else a[1].name
    st.exch[p.obj] = (ti, a[2])
    it.do_throw(st, p)
    return ENTERED


def cxa_begin(it, st, a, ins):
    st.caught.append(a[0])
    st.uncaught -= 1
    return a[0]


def cxa_end(it, st, a, ins):
    if st.caught:
        st.caught.pop()
    return None


def cxa_rethrow(it, st, a, ins):
    if not st.caught:
        raise PathEnd('terminate', 'rethrow without exception')
    p = st.caught[-1]
    it.do_throw(st, p)
    return ENTERED


def terminate(it, st, a, ins):
    raise PathEnd('terminate', 'std::terminate is reached')


def uncaught(it, st, a, ins):
    base = st.ghost.get('uncaught_base')
    if base is not None:
        return simp(toq(base) + st.uncaught) if st.uncaught else base
    return st.uncaught


def eh_typeid(it, st, a, ins):
    p = a[0]
    if isinstance(p, FnP):
        return it.typeid(p.name)
    return it.typeid(st.mem[p.obj].ext)


def type_bases(it, ti):
    """[(typeinfo symbol, offset)] of the direct non-virtual bases"""
    g = it.mod.glob(ti)
    if g is None or 'init' not in g or g['init'][0] != 'agg':
        return []
    f = g['init'][2]

    def sym(x):
        while x[0] == 'gep':
            x = x[1]
        return x[1] if x[0] == 'g' else None
    if len(f) == 3:
        return [(sym(f[2]), 0)]
    out = []
    for k in range(4, len(f) - 1, 2):
        flags = int(f[k + 1][2])
        if flags & 1:
            raise AnalysisError('virtual base class')
        if flags & 2:
            out.append((sym(f[k]), flags >> 8))
    return out


def dynamic_cast(it, st, a, ins):
    p = a[0]
    if p == NULL:
        return NULL
    vp = it.load(st, p, 8, 'ptr')
    top = it.load(st, it.padd(vp, -16), 8, 'i64')
    ti = it.load(st, it.padd(vp, -8), 8, 'ptr')
    dst = st.mem[a[2].obj].ext
    found = []

    def walk(t, off):
        if t == dst:
            found.append(off)
            return
        for b, o in type_bases(it, t):
            walk(b, off + o)
    walk(st.mem[ti.obj].ext, 0)
    if len(found) != 1:
        return NULL
    return it.padd(it.padd(p, top), found[0])


def guard_acquire(it, st, a, ins):
    v = st.ghost.get(('guard', a[0].obj))
    return 0 if v else 1


def guard_release(it, st, a, ins):
    st.ghost[('guard', a[0].obj)] = 1
    return None


def noop(it, st, a, ins):
    return None


def ret0(it, st, a, ins):
    return 0


def first_arg(it, st, a, ins):
    return a[0]


def opaque_ret(it, st, a, ins):
    st.ghost['opq'] = n = st.ghost.get('opq', 0) + 1
    return Opq(('ext', n))


def thrower(ti):
    def f(it, st, a, ins):
        raise Throw(ti)
    return f


def assert_fail(it, st, a, ins):
    raise PathEnd('assert', 'assertion "%s" fails' % cstr(it, st, a[0]))


def glibcxx_assert(it, st, a, ins):
    raise PathEnd('assert', 'standard library precondition "%s" violated' % cstr(it, st, a[3]))


def memcpy(it, st, a, ins):
    it.memcpy(st, a[0], a[1], a[2])
    return a[0]


def memset(it, st, a, ins):
    p, v, n = a[0], a[1], a[2]
    if isinstance(n, Q):
        n = simp(st.facts.norm(n))
    if v == 0 and n != 0 and (isinstance(n, Q) or isinstance(n, int) and isinstance(p, Ptr) and isinstance(p.off, Q)):
        if isinstance(n, Q) and it.decide(st, it.cfold(Cond('sgn', n, S_ZERO))):
            return p
        it.check_access(st, p, n, 'write')
        it.overlay(st, p, n, None, 0)
        return p
    if not isinstance(n, int) or not isinstance(v, int):
        raise AnalysisError('memset')
    if n == 0:
        return p
    o = it.check_access(st, p, n, 'write')
    if not isinstance(p.off, int):
        raise AnalysisError('memset at symbolic offset')
    o = st.wobj(p.obj)
    it.put(st, o, p.off, n, Fill(v & 255))
    return p


def strlen(it, st, a, ins):
    p = a[0]
    if not isinstance(p, Ptr) or p.obj == 0:
        raise PathEnd('memory', 'strlen of null pointer')
    n = 0
    while True:
        v = it.load(st, it.padd(p, n), 1, 'i8')
        if v is UNDEF:
            raise PathEnd('memory', 'string is not terminated')
        if it.decide(st, it.icmp(st, 'eq', v, 0, 'i8')):
            return n
        n += 1
        if n > 64:
            raise AnalysisError('strlen bound')


def memcmp(it, st, a, ins):
    n = a[2]
    if isinstance(n, Q):
        n = simp(st.facts.norm(n))
    if not isinstance(n, int):
        raise AnalysisError('memcmp of symbolic length')
    def cell(p, k):
        if not isinstance(p, Ptr) or p.obj not in st.mem:
            return None
        o = st.mem[p.obj]
        off = simp(st.facts.norm(toq(p.off)))
        if not isinstance(off, int) or o.sym:
            return None
        c = o.cells.get(off + k)
        return c if c is not None and isinstance(c[1], (int, Q)) and (not isinstance(c[1], Q) or c[1].is_int()) else None
    k = 0
    while k < n:
        # equality of whole numbers is decided as such; their byte order is not modelled
        cx, cy = cell(a[0], k), cell(a[1], k)
        if cx is not None and cy is not None and cx[0] == cy[0] and k + cx[0] <= n and cx[0] > 1:
            ty = 'i%d' % (8 * cx[0])
            if not it.decide(st, it.icmp(st, 'eq', cx[1], cy[1], ty)):
                r = Q.fresh('memcmp', True)
                st.facts.assume_sign(r, S_NZ)
                return r
            k += cx[0]
            continue
        x = it.load(st, it.padd(a[0], k), 1, 'i8'); y = it.load(st, it.padd(a[1], k), 1, 'i8')
        k += 1
        if not it.decide(st, it.icmp(st, 'eq', x, y, 'i8')):
            return 1 if it.decide(st, it.icmp(st, 'ugt', x, y, 'i8')) else -1
    return 0


# ---------------------------------------------------------------- math
def f1(f):
    def h(it, st, a, ins):
        x = a[0]
        if x is UNDEF:
            return x
        if not isinstance(x, Q):
            return Opq((f.__name__, x))
        return f(it, st, x)
    return h


def m_sqrt(it, st, x):
    x = st.facts.norm(x)
    in_domain(it, st, 'sqrt', [('an argument below 0', x)], x)
    return qsqrt(x)


def m_sin(it, st, x):
    return qsin(x)


def m_cos(it, st, x):
    return qcos(x)


def m_tan(it, st, x):
    return qsin(x) / qcos(x)


def m_fabs(it, st, x):
    s = st.facts.sign(x)
    if s <= S_NN:
        return x
    if s <= S_NP:
        return -x
    raise Fork(Cond('sgn', x, S_NN))


def un(name):
    def f(it, st, x):
        if x.is_const() and name in ('floor', 'ceil', 'trunc', 'round'):
            import math
            c = Fraction(x.cval())
            return Q.const({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
                            'round': lambda v: math.floor(v + Fraction(1, 2)) if v >= 0 else -math.floor(-v + Fraction(1, 2))}[name](c))
        if name in ('floor', 'ceil', 'trunc', 'round') and st.facts.sign(x) == S_ZERO:
            return ZERO
        if name in ('floor', 'ceil', 'trunc', 'round') and x.is_int() and not st.ghost.get('precise'):
            return x
        return qfn(name, x, integer=name in ('floor', 'ceil', 'trunc', 'round'))
    f.__name__ = name
    return f


def m_acos(it, st, x):
    in_domain(it, st, 'acos', [('an argument above 1', ONEQ - x), ('an argument below -1', x + ONEQ)], x)
    if x.is_const() and x.cval() == 1:
        return ZERO
    return qfn('acos', x)


def m_asin(it, st, x):
    in_domain(it, st, 'asin', [('an argument above 1', ONEQ - x), ('an argument below -1', x + ONEQ)], x)
    if not x.num:
        return ZERO
    return qfn('asin', x)


def m_atan2(it, st, a, ins):
    if a[0] is UNDEF or a[1] is UNDEF:
        return UNDEF
    return qfn('atan2', a[0], a[1])


def m_fmod(it, st, a, ins):
    return qfn('fmod', a[0], a[1])


def m_pow(it, st, a, ins):
    if isinstance(a[1], Q) and a[1].is_const() and isinstance(a[1].cval(), int) and 0 <= a[1].cval() <= 16:
        return a[0] ** a[1].cval()
    if isinstance(a[1], Q) and a[1].is_const() and a[1].cval() == Fraction(1, 2):
        return qsqrt(a[0])
    return qfn('pow', a[0], a[1])


def m_copysign(it, st, a, ins):
    m = m_fabs(it, st, a[0])
    return m if it.decide(st, it.cfold(Cond('sgn', a[1], S_NN))) else -m


def m_fma(it, st, a, ins):
    return a[0] * a[1] + a[2]


def m_minmax(lo):
    def h(it, st, a, ins):
        d = a[0] - a[1]
        c = it.decide(st, it.cfold(Cond('sgn', d, S_NEG)))
        return a[0] if c == lo else a[1]
    return h


def with_overflow(op):
    def h(it, st, a, ins):
        w = I.width(ins['t'][2][0][1])
        r = it.binop(st, op, a[0], a[1], 'i%d' % w)
        if isinstance(a[0], int) and isinstance(a[1], int) and 'umul' in ins['f'][1]:
            full = I.unsig(a[0], w) * I.unsig(a[1], w)
            return Agg([r, int(full >> w != 0)])
        return Agg([r, 0])
    return h


def i_abs(it, st, a, ins):
    x = a[0]
    if isinstance(x, int):
        return abs(x)
    return -x if it.decide(st, it.icmp(st, 'slt', x, 0, ins['t'])) else x


def iminmax(pred):
    def h(it, st, a, ins):
        return a[0] if it.decide(st, it.icmp(st, pred, a[0], a[1], ins['t'])) else a[1]
    return h


def is_constant(it, st, a, ins):
    return 0


def expect_val(it, st, a, ins):
    return a[0]


def install(it):
    E = it.ext
    for n, h in {
        'sa_real': sa_real, 'sa_realf': sa_real, 'sa_int': sa_int, 'sa_long': sa_int, 'sa_size': sa_size,
        'sa_uint': sa_uint, 'sa_bits8': sa_bits, 'sa_bits16': sa_bits, 'sa_bits32': sa_bits, 'sa_bits64': sa_bits,
        'sa_bool': sa_bool, 'sa_fresh_bool': sa_fresh_bool, 'sa_opaque': sa_opaque,
        'sa_assume': sa_assume, 'sa_expect': sa_expect, 'sa_eq_f': sa_eq, 'sa_eq_i': sa_eq, 'sa_eq_ff': sa_eq,
        'sa_is_undef_f': sa_is_undef, 'sa_is_undef_i': sa_is_undef, 'sa_mark': sa_mark, 'sa_precise': sa_precise,
        'sa_stop': sa_stop, 'sa_divisors': sa_divisors, 'sa_domains': sa_domains, 'sa_square': sa_square, 'sa_fail': sa_fail, 'sa_reach': sa_reach, 'sa_live_heap': sa_live_heap,
        'sa_buffer': sa_buffer, 'sa_heap': sa_heap, 'sa_same': sa_same,
        '_Znwm': op_new, '_Znam': op_new, '_ZdlPv': op_delete, '_ZdlPvm': op_delete, '_ZdaPv': op_delete,
        '_ZdaPvm': op_delete, 'malloc': op_new, 'free': op_delete,
        '_ZnwmSt11align_val_t': op_new, '_ZdlPvmSt11align_val_t': op_delete, '_ZdlPvSt11align_val_t': op_delete,
        '__cxa_allocate_exception': cxa_alloc, '__cxa_free_exception': cxa_free, '__cxa_throw': cxa_throw,
        '__cxa_begin_catch': cxa_begin, '__cxa_end_catch': cxa_end, '__cxa_rethrow': cxa_rethrow,
        '_ZSt9terminatev': terminate, '__clang_call_terminate': terminate, 'abort': terminate,
        '__cxa_pure_virtual': terminate, '__dynamic_cast': dynamic_cast, '_ZSt18uncaught_exceptionv': uncaught,
        '_ZSt19uncaught_exceptionsv': uncaught, 'llvm.eh.typeid.for': eh_typeid, 'llvm.eh.typeid.for.p0': eh_typeid,
        '__cxa_guard_acquire': guard_acquire, '__cxa_guard_release': guard_release, '__cxa_guard_abort': noop,
        '__cxa_atexit': ret0, '__assert_fail': assert_fail, '_ZSt21__glibcxx_assert_failPKciS0_S0_': glibcxx_assert,
        '_ZNSt8ios_base4InitC1Ev': noop, '_ZNSt8ios_base4InitD1Ev': noop,
        'memcpy': memcpy, 'memmove': memcpy, 'memset': memset, 'strlen': strlen, 'memcmp': memcmp, 'bcmp': memcmp,
        '_ZSt25__throw_bad_function_callv': thrower('_ZTISt17bad_function_call'),
        '_ZSt20__throw_length_errorPKc': thrower('_ZTISt12length_error'),
        '_ZSt19__throw_logic_errorPKc': thrower('_ZTISt11logic_error'),
        '_ZSt20__throw_out_of_rangePKc': thrower('_ZTISt12out_of_range'),
        '_ZSt24__throw_out_of_range_fmtPKcz': thrower('_ZTISt12out_of_range'),
        '_ZSt24__throw_invalid_argumentPKc': thrower('_ZTISt16invalid_argument'),
        '_ZSt21__throw_runtime_errorPKc': thrower('_ZTISt13runtime_error'),
        '_ZSt19__throw_range_errorPKc': thrower('_ZTISt11range_error'),
        '_ZSt17__throw_bad_allocv': thrower('_ZTISt9bad_alloc'),
        '_ZSt28__throw_bad_array_new_lengthv': thrower('_ZTISt20bad_array_new_length'),
        '_ZSt16__throw_bad_castv': thrower('_ZTISt8bad_cast'), '__cxa_bad_cast': thrower('_ZTISt8bad_cast'),
        '_ZSt20__throw_domain_errorPKc': thrower('_ZTISt12domain_error'),
        '__cxa_throw_bad_array_new_length': thrower('_ZTISt20bad_array_new_length'),
    }.items():
        E[n] = h
    for base, f in {'sqrt': m_sqrt, 'sin': m_sin, 'cos': m_cos, 'tan': m_tan, 'fabs': m_fabs, 'acos': m_acos,
                    'asin': m_asin, 'atan': un('atan'), 'floor': un('floor'), 'ceil': un('ceil'),
                    'trunc': un('trunc'), 'round': un('round'), 'rint': un('rint'), 'nearbyint': un('nearbyint'),
                    'exp': un('exp'), 'exp2': un('exp2'), 'log': un('log'), 'log10': un('log10'), 'log2': un('log2'), 'cbrt': un('cbrt'),
                    'sinh': un('sinh'), 'cosh': un('cosh'), 'tanh': un('tanh'), 'asinh': un('asinh'), 'acosh': un('acosh'), 'atanh': un('atanh')}.items():
        for suf in ('', 'f', 'l'):
            E[base + suf] = f1(f)
        for ty in ('f32', 'f64', 'f80'):
            E['llvm.%s.%s' % (base, ty)] = f1(f)
    for base, h in {'atan2': m_atan2, 'fmod': m_fmod, 'pow': m_pow, 'copysign': m_copysign, 'fma': m_fma,
                    'fmin': m_minmax(True), 'fmax': m_minmax(False)}.items():
        for suf in ('', 'f', 'l'):
            E[base + suf] = h
    for ty in ('f32', 'f64'):
        E['llvm.pow.' + ty] = m_pow
        E['llvm.copysign.' + ty] = m_copysign
        E['llvm.fma.' + ty] = m_fma
        E['llvm.fmuladd.' + ty] = m_fma
        E['llvm.minnum.' + ty] = m_minmax(True)
        E['llvm.maxnum.' + ty] = m_minmax(False)
    E['__isnan'] = E['__isinf'] = E['__finite'] = ret0
    it.intr = [
        ('llvm.memcpy', memcpy), ('llvm.memmove', memcpy), ('llvm.memset', memset),
        ('llvm.lifetime', noop), ('llvm.dbg', noop), ('llvm.assume', noop), ('llvm.experimental', noop),
        ('llvm.umul.with.overflow', with_overflow('mul')), ('llvm.uadd.with.overflow', with_overflow('add')),
        ('llvm.smul.with.overflow', with_overflow('mul')), ('llvm.sadd.with.overflow', with_overflow('add')),
        ('llvm.usub.with.overflow', with_overflow('sub')), ('llvm.ssub.with.overflow', with_overflow('sub')),
        ('llvm.abs', i_abs), ('llvm.smin', iminmax('slt')), ('llvm.smax', iminmax('sgt')),
        ('llvm.umin', iminmax('ult')), ('llvm.umax', iminmax('ugt')), ('llvm.is.constant', is_constant),
        ('llvm.expect', expect_val), ('llvm.trap', terminate), ('llvm.stacksave', opaque_ret),
        ('llvm.stackrestore', noop), ('llvm.is.fpclass', ret0),
    ]
    it.ext_re = [
        (re.compile(r'_ZNSt\w*(argument|error|range|exception|call|alloc|cast)[CD]\dE?.*'), noop),
        (re.compile(r'_ZNKSt\w*(argument|error|range|exception)4whatEv'), opaque_ret),
        (re.compile(r'_ZStlsI.*'), first_arg),
        (re.compile(r'_ZNSolsE.*'), first_arg),
        (re.compile(r'_ZNSo(3put|5flush|9_M_insertI).*'), first_arg),
        (re.compile(r'_ZSt(4endl|5flush).*'), first_arg),
        (re.compile(r'_ZSt16__ostream_insert.*'), first_arg),
        (re.compile(r'_ZNSt(9exception|13runtime_error|11logic_error).*'), noop),
        (re.compile(r'sa_real\w*'), sa_real),
    ]
