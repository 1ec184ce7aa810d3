"""Abstract interpreter over LLVM IR (trace-partitioned).

Abstract values: value numbers (rational functions over input symbols, poly.py), boolean
polynomials for bit patterns, points-to pairs (object, offset), pending conditions.  A
branch on a condition that the partition's facts do not decide splits the partition and
records the outcome as a fact.  There is no solver and nothing is executed: input values
are never instantiated.
"""
import re
import time
from fractions import Fraction
from .poly import (Q, ZERO, ONEQ, atom, atom_key, fn as qfn, qsqrt, qsin, qcos, patoms, pcanon,
                   _atom_int, _atoms, Blowup)
from .facts import Facts, Contradiction, ALLOWED, ALL, S_POS, S_NEG, S_ZERO, S_NN, S_NP, S_NZ


class AnalysisError(Exception):
    """the analysis cannot interpret something (no verdict)"""


class Fork(Exception):
    def __init__(self, leaf):
        self.leaf = leaf


class Replaced(Exception):
    """the partition is replaced by the given ones"""
    def __init__(self, states):
        self.states = states


class ForkN(Exception):
    """n-way split: alternatives are callables applied to the cloned state"""
    def __init__(self, alts):
        self.alts = alts


class Throw(Exception):
    """builtin wants an exception thrown: (typeinfo name)"""
    def __init__(self, ti):
        self.ti = ti


class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind; self.msg = msg


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = obj; self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return 'null' if self.obj == 0 and self.off == 0 else '&%s+%s' % (self.obj, self.off)


NULL = Ptr(0, 0)


class FnP:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnP) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '&' + self.name


class Opq:
    """opaque non-numeric value with identity"""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Opq) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return 'opaque(%s)' % (self.key,)


def joined(a, b):
    """the value whose adjacent pieces a and b are"""
    if isinstance(a, Opq) and isinstance(b, Opq) and isinstance(a.key, tuple) and isinstance(b.key, tuple) and \
            len(a.key) == 5 == len(b.key) and a.key[0] == 'byte' == b.key[0]:
        _, v, o, n, w = a.key
        _, v2, o2, n2, w2 = b.key
        if o + n == o2 and w == w2 and type(v) is type(v2) and v == v2:
            return v if o == 0 and n + n2 == w else Opq(('byte', v, o, n + n2, w))
    return None


class Cat:
    """several adjacent cells loaded as one wide value"""
    __slots__ = ('parts', 'size')

    def __init__(self, parts, size):
        self.parts = tuple(parts); self.size = size

    def __eq__(self, o):
        return isinstance(o, Cat) and o.parts == self.parts and o.size == self.size

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return 'cat%r' % (self.parts,)


class Fill:
    __slots__ = ('byte',)

    def __init__(self, b):
        self.byte = b

    def __eq__(self, o):
        return isinstance(o, Fill) and o.byte == self.byte

    def __hash__(self):
        return hash(self.byte)


_shift = {}      # name of a moved word -> (word, places)


def shifted(a, n):
    b, k = _shift.get(a, (a, 0))
    k += n
    if not k:
        return b
    name = '%s%s%d' % (b, '<<' if k > 0 else '>>', abs(k))
    _shift[name] = (b, k)
    return name


def drop_sign_copies(b):
    """b without bits that only repeat the highest bit of sign-extended symbols: it is zero iff b is"""
    ws = {s.rpartition(':')[2] if ':' in s else '' for k in b.t for s in k}
    w = ws.pop() if len(ws) == 1 else ''
    if not w.isdigit():
        return b
    w = int(w)
    top = {k for k, m in b.t.items() if m >> (w - 1) & 1}
    n = max(m.bit_length() for m in b.t.values())
    drop = 0
    for i in range(w, n):
        if {k for k, m in b.t.items() if m >> i & 1} == top:
            drop |= 1 << i
    return BW({k: m & ~drop for k, m in b.t.items()}) if drop else b


class BW:
    """bit pattern as boolean polynomial (algebraic normal form): xor of masked products"""
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = {k: v for k, v in t.items() if v}
        self._h = None

    def key(self):
        return tuple(sorted((tuple(sorted(k)), v) for k, v in self.t.items()))

    def __eq__(self, o):
        return isinstance(o, BW) and o.t == self.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def xor(self, o):
        r = dict(self.t)
        for k, v in o.t.items():
            r[k] = r.get(k, 0) ^ v
        return BW(r)

    def and_(self, o):
        r = {}
        for k, v in self.t.items():
            for k2, v2 in o.t.items():
                kk = k | k2
                r[kk] = r.get(kk, 0) ^ (v & v2)
        return BW(r)

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and frozenset() in self.t:
            return self.t[frozenset()]
        return None

    def ones(self):
        """bits that are certainly set"""
        o = 0
        for k, v in self.t.items():
            if k:
                o |= v
        return self.t.get(frozenset(), 0) & ~o

    def maybe(self):
        """bits that may be set"""
        o = 0
        for v in self.t.values():
            o |= v
        return o

    def shift(self, n, w):
        """moves every bit n places up (n < 0: down)"""
        full = (1 << w) - 1
        r = {}
        for k, v in self.t.items():
            v &= full
            v = (v << n) & full if n >= 0 else v >> -n
            if v:
                r[frozenset(shifted(a, n) for a in k)] = v
        return BW(r)

    def __repr__(self):
        return 'bits{%s}' % ' ^ '.join('%s%s' % ('&'.join(sorted(k)), '' if v in (-1,) else '&%#x' % v)
                                       for k, v in self.t.items())


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return isinstance(o, Agg) and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return '<%s>' % ', '.join(map(repr, self.v))


# ---------------------------------------------------------------- conditions
class Cond:
    __slots__ = ('op', 'a', 'b')

    def __init__(self, op, a, b=None):
        self.op = op; self.a = a; self.b = b

    def __eq__(self, o):
        return isinstance(o, Cond) and (o.op, o.a, o.b) == (self.op, self.a, self.b)

    def __hash__(self):
        return hash((self.op, self.a, self.b))

    def __repr__(self):
        if self.op == 'sgn':
            names = {S_POS: '> 0', S_NEG: '< 0', S_ZERO: '== 0', S_NN: '>= 0', S_NP: '<= 0', S_NZ: '!= 0'}
            return '(%r %s)' % (self.a, names.get(self.b, self.b))
        if self.op == 'not':
            return '!%r' % (self.a,)
        if self.op in ('and', 'or', 'xor'):
            return '(%r %s %r)' % (self.a, self.op, self.b)
        return '%s[%s]' % (self.op, self.a)


def cnot(c):
    if isinstance(c, int):
        return 1 - c
    if c.op == 'sgn':
        return Cond('sgn', c.a, ALL - c.b)
    if c.op == 'not':
        return c.a
    return Cond('not', c)


def ceval(c, facts):
    """True / False / None"""
    if isinstance(c, int):
        return bool(c)
    op = c.op
    if op == 'sgn':
        s = facts.sign(c.a)
        if s <= c.b:
            return True
        if not (s & c.b):
            return False
        return None
    if op == 'not':
        r = ceval(c.a, facts)
        return None if r is None else not r
    if op == 'and':
        a = ceval(c.a, facts)
        if a is False:
            return False
        b = ceval(c.b, facts)
        if b is False:
            return False
        return True if a and b else None
    if op == 'or':
        a = ceval(c.a, facts)
        if a is True:
            return True
        b = ceval(c.b, facts)
        if b is True:
            return True
        return False if a is False and b is False else None
    if op == 'xor':
        a = ceval(c.a, facts); b = ceval(c.b, facts)
        return None if a is None or b is None else a != b
    return facts.bools.get((op, c.a))


def leaf(c, facts):
    if c.op in ('and', 'or', 'xor'):
        if isinstance(c.a, Cond) and ceval(c.a, facts) is None:
            return leaf(c.a, facts)
        return leaf(c.b, facts)
    if c.op == 'not':
        return leaf(c.a, facts)
    return c


def assume(facts, c, truth):
    """record a leaf condition; raises Contradiction"""
    if isinstance(c, int):
        if bool(c) != truth:
            raise Contradiction
        return
    if c.op == 'sgn':
        facts.assume_sign(c.a, c.b if truth else ALL - c.b)
        facts.notes = facts.notes + (repr(c if truth else cnot(c)),)
        return
    if c.op == 'not':
        return assume(facts, c.a, not truth)
    k = (c.op, c.a)
    if facts.bools.get(k, truth) != truth:
        raise Contradiction
    facts.bools[k] = truth
    facts.notes = facts.notes + (('' if truth else '!') + repr(c),)


def rounded(v):
    """the result of rounding to an integer, or a constant"""
    return isinstance(v, Q) and not v.den and all(
        atom_key(a)[0] in ('floor', 'ceil', 'round', 'trunc') for m in v.num for a, _ in m)


def by_divisor(facts, c):
    """the sign of a quotient splits on the sign of its divisor first, when that is not known: only then can the
    outcome be recorded as a fact about the dividend"""
    if isinstance(c, int) or c.op != 'sgn':
        return c
    q = facts.norm(c.a)
    if c.b in (S_ZERO, S_NZ):
        return c
    for k, e in q.den:
        if e % 2:
            t = facts.psign(dict(k)) - S_ZERO
            if len(t) == 2:
                return Cond('sgn', Q(dict(k)), S_POS)
    return c


# ---------------------------------------------------------------- memory
class Obj:
    __slots__ = ('size', 'cells', 'sym', 'alive', 'kind', 'name', 'lazy', 'owner', 'ro', 'ext')

    def __init__(self, size, kind, name, owner, lazy=None, ro=False):
        self.size = size; self.kind = kind; self.name = name; self.owner = owner
        self.cells = {}; self.sym = {}; self.alive = True; self.lazy = lazy; self.ro = ro
        self.ext = None

    def copy(self, owner):
        o = Obj.__new__(Obj)
        o.size = self.size; o.kind = self.kind; o.name = self.name; o.owner = owner
        o.cells = dict(self.cells); o.sym = dict(self.sym); o.alive = self.alive
        o.lazy = self.lazy; o.ro = self.ro; o.ext = self.ext
        return o


class Frame:
    __slots__ = ('fn', 'bi', 'ii', 'regs', 'ret', 'inv', 'prev', 'allocas', 'extra', 'hits')

    def __init__(self, fn):
        self.fn = fn; self.bi = 0; self.ii = 0; self.regs = {}; self.ret = None
        self.inv = None; self.prev = -1; self.allocas = []; self.extra = None; self.hits = {}

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.bi = self.bi; f.ii = self.ii; f.regs = dict(self.regs); f.ret = self.ret
        f.inv = self.inv; f.prev = self.prev; f.allocas = list(self.allocas); f.extra = self.extra
        f.hits = dict(self.hits)
        return f


_token = [0]


def new_token():
    _token[0] += 1
    return _token[0]


class State:
    def __init__(self):
        self.mem = {}; self.frames = []; self.facts = Facts(); self.token = new_token()
        self.nobj = 1; self.globals = {}; self.caught = []; self.uncaught = 0; self.exc = None
        self.ghost = {}; self.steps = 0; self.exch = {}

    def clone(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.frames = [f.clone() for f in self.frames]
        s.facts = self.facts.clone(); s.token = new_token(); self.token = new_token()
        s.nobj = self.nobj; s.globals = dict(self.globals); s.caught = list(self.caught)
        s.uncaught = self.uncaught; s.exc = self.exc; s.ghost = dict(self.ghost); s.steps = self.steps
        s.exch = dict(self.exch)
        return s

    def alloc(self, size, kind, name, lazy=None, ro=False):
        i = self.nobj
        self.nobj += 1
        self.mem[i] = Obj(size, kind, name, self.token, lazy, ro)
        return i

    def wobj(self, i):
        o = self.mem[i]
        if o.owner != self.token:
            o = self.mem[i] = o.copy(self.token)
        return o


# ---------------------------------------------------------------- helpers
def width(t):
    return int(t[1:])


def is_int_t(t):
    return isinstance(t, str) and t[0] == 'i'


def is_float_t(t):
    return t in ('f32', 'f64', 'f80')


def canon_int(v, w):
    if w == 1:
        return v & 1
    v &= (1 << w) - 1
    if v >> (w - 1):
        v -= 1 << w
    return v


def unsig(v, w):
    return v & ((1 << w) - 1)


def tsize(t):
    if isinstance(t, str):
        if t == 'ptr':
            return 8
        if t == 'f32':
            return 4
        if t == 'f64':
            return 8
        if t == 'f80':
            return 16
        return (width(t) + 7) // 8
    return t[1]


def simp(q):
    """int-typed Q -> int if constant"""
    if q.is_const():
        c = q.cval()
        if type(c) is Fraction:
            if c.denominator != 1:
                return q
            c = c.numerator
        return c
    return q


def toq(v):
    if isinstance(v, Q):
        return v
    if isinstance(v, int):
        return Q.const(v)
    raise AnalysisError('not a number: %r' % (v,))


EXC_BASES = {
    '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
    '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
    '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
    '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTISt9bad_alloc': '_ZTISt9exception',
    '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt8bad_cast': '_ZTISt9exception',
    '_ZTISt18bad_variant_access': '_ZTISt9exception', '_ZTISt19bad_optional_access': '_ZTISt9exception',
    '_ZTISt12bad_weak_ptr': '_ZTISt9exception',
}

ARITH = {'add', 'sub', 'mul'}


def always_divisible(p, d):
    """is an integer polynomial a multiple of d for all integers (residue enumeration)"""
    from .poly import patoms
    if not isinstance(d, int) or d > 8 or any(type(c) is not int for c in p.values()):
        return False
    at = sorted(patoms(p))
    if d ** len(at) > 512:
        return False
    import itertools
    for vals in itertools.product(range(d), repeat=len(at)):
        v = dict(zip(at, vals))
        t = 0
        for m, c in p.items():
            for a, e in m:
                c = c * v[a] ** e
            t += c
        if t % d:
            return False
    return True


class Interp:
    def __init__(self, mod, budget=16000000, max_states=16000, repo='/repo'):
        self.mod = mod; self.models = {}
        self.repo = repo
        self.budget = budget
        self.max_states = max_states
        self.steps = 0
        self.okcount = {}        # label -> discharged obligations
        self.results = []        # (kind, label, ok, message, where)
        self.fns_seen = set()
        self.forks = 0
        self.paths = 0
        self.dropped = 0
        self.ext = {}            # extern name -> handler(interp, state, args, inst) -> value
        self.hooks = {}          # defined function name -> handler (intercepted)
        self.hook_re = []        # (regex on demangled, handler)
        self._hookcache = {}
        self.precise = False
        self.sizes = set()            # atoms that are sizes or positions: up to 2^47
        self.checks = 0
        self.loop_hook = None
        self.accel = None        # summaries of loops (accel.py)
        self.stop = None; self.loadlog = None; self.accelerated = 0; self.declined = 0; self.hurry = 0; self.trace_accel = False
        from . import builtins as _b
        _b.install(self)

    # ------------------------------------------------------------ reporting
    def where(self, st):
        """innermost nytl frame, and the chain"""
        chain = []
        for f in reversed(st.frames):
            ins = f.fn.blocks[f.bi][min(f.ii, len(f.fn.blocks[f.bi]) - 1)]
            l = ins.get('l') or [f.fn.fn, f.fn.line, 0]
            chain.append((f.fn.dem, l[0], l[1]))
        for c in chain:
            if '/nytl/' in c[1] and '/verif/' not in c[1]:
                return c, chain
        return (chain[0] if chain else ('?', '?', 0)), chain

    def report(self, st, kind, label, ok, msg=''):
        self.checks += 1
        if not ok:
            self.congruent(st)
        if ok:
            self.okcount[label] = self.okcount.get(label, 0) + 1
            return
        w = self.where(st)
        self.results.append((kind, label, ok, msg, w, st.facts.notes))

    def congruent(self, st):
        """elements of a buffer whose indices turn out to be equal are equal: a partition that says otherwise is empty"""
        from .builtins import ELEMS, element
        if not ELEMS:
            return
        fs = st.facts
        atoms = {a for k in fs.signs for m, _ in k for a, _ in m} | set(fs.subst)
        for a in sorted(atoms & set(ELEMS)):
            name, idx, real = ELEMS[a]
            i = simp(fs.norm(idx))
            if isinstance(i, Q) and fs.sign(i) == S_ZERO:
                i = 0
            if not (i == idx):
                try:
                    fs.assume_sign(Q.atom(a) - element(name, i, real), S_ZERO)
                except Contradiction:
                    raise PathEnd('dropped') from None

    # ------------------------------------------------------------ decisions
    def decide(self, st, c):
        if c is UNDEF:
            raise PathEnd('undef', 'a branch depends on an uninitialised value')
        if isinstance(c, int):
            return bool(c)
        if not isinstance(c, Cond):
            c = self.to_cond(st, c)
            if isinstance(c, int):
                return bool(c)
        r = ceval(c, st.facts)
        if r is None:
            raise Fork(leaf(c, st.facts))
        return r

    def to_cond(self, st, v):
        """integer value used as truth value (!= 0)"""
        if isinstance(v, int):
            return int(v != 0)
        if isinstance(v, Cond):
            return v
        if isinstance(v, Q):
            return Cond('sgn', v, S_NZ)
        if isinstance(v, BW):
            c = v.const()
            if c is not None:
                return int(c != 0)
            if v.ones():
                return 1
            return Cond('bw', v)
        if isinstance(v, Opq):
            return Cond('opq', v)
        if v is UNDEF:
            return v
        if isinstance(v, (Ptr, FnP)):
            return int(v != NULL)
        raise AnalysisError('truth value of %r' % (v,))

    def concrete_bool(self, st, v):
        """Cond used as a number: split"""
        return 1 if self.decide(st, v) else 0

    # ------------------------------------------------------------ constants
    def const(self, st, c):
        k = c[0]
        if k == 'c':
            v = int(c[2])
            w = width(c[1])
            return canon_int(v, w)
        if k == 'f':
            f = float.fromhex(c[2]) if 'inf' not in c[2] and 'nan' not in c[2] else None
            if f is None:
                return Opq(('float', c[2]))
            if c[1] == 'f32':
                return Q.const(_nice(f, True))
            return Q.const(_nice(f, False))
        if k == 'n':
            return NULL
        if k == 'u':
            return self.undef_of(c[1])
        if k == 'z':
            return self.zero_of(c[1])
        if k == 'g':
            return self.gptr(st, c[1])
        if k == 'gep':
            p = self.const(st, c[1])
            return self.padd(p, c[2])
        if k == 'agg':
            return Agg(self.const(st, x) for x in c[2])
        if k == 'ce':
            ops = [self.const(st, x) for x in c[3]]
            if c[1] in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return ops[0]
            if c[1] in ('sub', 'add'):
                return self.binop(st, c[1], ops[0], ops[1], c[2])
            if c[1] == 'trunc':
                return self.trunc(st, ops[0], width(c[2]), 64)
        raise AnalysisError('constant %r' % (c[:3],))

    def zero_of(self, t):
        if isinstance(t, str):
            if t[0] == 'i':
                return 0
            if t == 'ptr':
                return NULL
            return ZERO
        if t[0] == 's':
            return Agg(self.zero_of(x[1]) for x in t[2])
        return Agg(self.zero_of(t[3]) for _ in range(t[2]))

    def undef_of(self, t):
        if isinstance(t, str):
            return UNDEF
        if t[0] == 's':
            return Agg(self.undef_of(x[1]) for x in t[2])
        return Agg(self.undef_of(t[3]) for _ in range(t[2]))

    def gptr(self, st, name):
        i = st.globals.get(name)
        if i is not None:
            return Ptr(i, 0)
        a = self.mod.aliases.get(name)
        if a is not None:
            return self.const(st, a)
        if self.mod.has_fn(name):
            return FnP(name)
        g = self.mod.glob(name)
        if g is None:
            raise AnalysisError('unknown global %s' % name)
        i = st.alloc(g['sz'] if 'init' in g else None, 'global', g['d'], ro=g['const'])
        st.globals[name] = i
        o = st.mem[i]
        o.ext = name
        if 'init' in g:
            self.init_store(st, i, 0, g['ty'], g['init'])
        elif name.startswith('_ZTI') or name.startswith('_ZTV'):
            o.size = 64
        elif name == '__libc_single_threaded':
            o.cells[0] = (1, 1)
        return Ptr(i, 0)

    def init_store(self, st, i, off, ty, init):
        k = init[0]
        o = st.mem[i]
        if k == 'z':
            o.cells[off] = (tsize(ty), Fill(0))
        elif k == 'agg':
            t = init[1]
            if t[0] == 's':
                for (o2, et), e in zip(t[2], init[2]):
                    self.init_store(st, i, off + o2, et, e)
            else:
                for n, e in enumerate(init[2]):
                    self.init_store(st, i, off + n * t[4], t[3], e)
        elif k == 'u':
            pass
        else:
            v = self.const(st, init)
            st.wobj(i).cells[off] = (tsize(ty), v)

    # ------------------------------------------------------------ operands
    def ev(self, st, fr, v):
        if v[0] == 'v':
            return fr.regs[v[1]]
        return self.const(st, v)

    # ------------------------------------------------------------ pointer arithmetic
    def padd(self, p, d):
        if isinstance(d, int) and d == 0:
            return p
        if isinstance(p, FnP):
            raise AnalysisError('arithmetic on function pointer')
        if p is UNDEF or d is UNDEF:
            return UNDEF
        if isinstance(p, Opq):
            return Opq(('padd', p.key, d))
        if isinstance(p.off, int) and isinstance(d, int):
            return Ptr(p.obj, p.off + d)
        return Ptr(p.obj, simp(toq(p.off) + toq(d)))

    # ------------------------------------------------------------ memory access
    def check_access(self, st, p, sz, what):
        if p is UNDEF:
            raise PathEnd('memory', '%s through an uninitialised pointer' % what)
        if not isinstance(p, Ptr):
            raise AnalysisError('%s through %r' % (what, p))
        if p.obj == 0:
            raise PathEnd('memory', '%s through a null pointer' % what)
        o = st.mem.get(p.obj)
        if o is None or not o.alive:
            raise PathEnd('memory', '%s of destroyed object %s' % (what, o.name if o else p))
        if o.size is None:
            return o
        off, size = p.off, o.size
        if isinstance(off, int) and isinstance(size, int) and isinstance(sz, int):
            if off < 0 or off + sz > size:
                raise PathEnd('memory', '%s of %s bytes at offset %s of %s (size %s) is out of bounds'
                              % (what, sz, off, o.name, size))
        else:
            lo = Cond('sgn', toq(off), S_NN)
            if not self.decide(st, self.cfold(lo)):
                raise PathEnd('memory', '%s before the start of %s (offset %r)' % (what, o.name, off))
            hi = Cond('sgn', toq(size) - toq(off) - toq(sz), S_NN)
            if not self.decide(st, self.cfold(hi)):
                raise PathEnd('memory', '%s past the end of %s (offset %r, size %r)' % (what, o.name, off, size))
        return o

    def cfold(self, c):
        if c.op == 'sgn' and c.a.is_const():
            v = c.a.cval()
            return int(((v > 0) - (v < 0)) in c.b)
        return c

    def table_offsets(self, st, off):
        """the offsets that an index made of input bits can have here: {offset: bits}, or None; and the free bits"""
        if not isinstance(off, Q) or off.den:
            return None
        bws = [a for a in off.atoms() if atom_key(a)[0] == 'opq' and isinstance(atom_key(a)[1], BW)]
        if len(bws) != 1 or set(off.atoms()) != set(bws):
            return None
        b = atom_key(bws[0])[1]
        scale = base = 0
        for m, c in off.num.items():
            if m == ():
                base = c
            elif m == ((bws[0], 1),):
                scale = c
            else:
                return None
        cells = [(frozenset((_shift.get(a, (a, 0))[0], i - _shift.get(a, (a, 0))[1]) for a in k), i)
                 for k, v in b.t.items() if v > 0 for i in range(v.bit_length()) if v >> i & 1]
        if any(v < 0 for v in b.t.values()):
            return None
        free = sorted({x for k, _ in cells for x in k})
        if len(free) > 10:
            return None
        known = {}
        for k in free:
            r = st.facts.bools.get(('bw', BW({frozenset([k[0]]): 1 << k[1]})))
            if r is not None:
                known[k] = r
        free = [k for k in free if k not in known]
        checks = []
        for (op, c), truth in st.facts.bools.items():
            if op == 'bw' and isinstance(c, BW):
                cc = [(frozenset((_shift.get(a, (a, 0))[0], i - _shift.get(a, (a, 0))[1]) for a in k), i)
                      for k, v in c.t.items() if v > 0 for i in range(v.bit_length()) if v >> i & 1]
                if any(v < 0 for v in c.t.values()):
                    continue
                if all(x in free or x in known for k, _ in cc for x in k):
                    checks.append((cc, truth))
        out = []
        for n in range(1 << len(free)):
            env = dict(known)
            for i, k in enumerate(free):
                env[k] = bool(n >> i & 1)

            def val(cc):
                r = 0
                for k, i in cc:
                    if all(env[x] for x in k):
                        r ^= 1 << i
                return r
            if all(bool(val(cc)) == truth for cc, truth in checks):
                out.append((int(base + scale * val(cells)), env))
        return out, free

    def table_load(self, st, p, sz, ty):
        """a read at an index made of input bits: the value if all possible indices hold the same, or else a split"""
        if not any(atom_key(a)[0] == 'opq' for a in p.off.atoms()):
            return None
        r = self.table_offsets(st, simp(st.facts.norm(p.off)))
        if not r:
            return None
        out, free = r
        if not out:
            raise Contradiction
        if len({x for x, _ in out}) == 1:
            return self.load(st, Ptr(p.obj, out[0][0]), sz, ty)
        o = st.mem.get(p.obj)
        if o is not None and o.alive and not o.sym:
            vals = [o.cells.get(x) for x, _ in out]
            if all(c is not None and c[0] == sz and isinstance(c[1], int) and c[1] == vals[0][1] for c in vals):
                return self.as_type(vals[0][1], ty, sz)
        for k in reversed(free):
            if len({e[k] for _, e in out}) == 2:
                raise Fork(Cond('bw', BW({frozenset([k[0]]): 1 << k[1]})))
        return None

    def load(self, st, p, sz, ty):
        if isinstance(p, Ptr) and isinstance(p.off, Q) and p.obj:
            r = self.table_load(st, p, sz, ty)
            if r is not None:
                return r
        if isinstance(ty, list) and ty[0] in ('s', 'a', 'v'):
            elems = [(x[0], x[1]) for x in ty[2]] if ty[0] == 's' else \
                [(n * ty[4], ty[3]) for n in range(ty[2])]
            return Agg(self.load(st, self.padd(p, o), tsize(t), t) for o, t in elems)
        o = self.check_access(st, p, sz, 'read')
        off = p.off
        if isinstance(off, Q):
            off = simp(st.facts.norm(off))
        if isinstance(off, int) and not o.sym:
            c = o.cells.get(off)
            if c is not None and c[0] == sz:
                return self.as_type(c[1], ty, sz)
            return self.load_slow(st, p.obj, off, sz, ty)
        # symbolic offsets
        over = self.sym_over(st, o, off, sz)
        if len(over) == 1 and over[0][0] == 0 and over[0][1] == sz:
            return self.as_type(over[0][2], ty, sz)
        if isinstance(off, int) and all(src is o.cells for _, _, _, src, _ in over):
            if any(k < off + sz and off < k + s for k, (s, _) in o.cells.items()):
                return self.load_slow(st, p.obj, off, sz, ty)
        if over:
            return self.assemble(st, p.obj, off, sz, ty, over)
        if not isinstance(off, int):
            for k, (s, v) in o.cells.items():
                if isinstance(v, Fill):
                    d = toq(off) - k
                    if self.decide(st, self.cfold(Cond('sgn', d + sz, S_NP))) or self.decide(st, self.cfold(Cond('sgn', d - s, S_NN))):
                        continue
                    if self.decide(st, self.cfold(Cond('sgn', d, S_NN))) and self.decide(st, self.cfold(Cond('sgn', d + (sz - s), S_NP))):
                        return self.fill_val(v, ty, sz)
                    raise AnalysisError('partial overlap with a filled block')
        if o.lazy:
            return o.lazy(self, st, p.obj, off, sz, ty)
        return UNDEF

    def sym_over(self, st, o, off, sz):
        """cells that [off, off+sz) overlaps: (distance, size, value, where, key); the others are provably disjoint"""
        qo = toq(off)
        out = []
        for src in (o.sym, o.cells):
            for k, (s, v) in src.items():
                if isinstance(v, Fill) and src is o.cells:
                    continue
                if isinstance(k, int) and isinstance(off, int):
                    d = off - k
                    if -sz < d < s:
                        out.append((d, s, v, src, k))
                    continue
                d = st.facts.norm(qo - toq(k))
                if not d.is_const():
                    if self.decide(st, self.cfold(Cond('sgn', d - s, S_NN))):
                        continue
                    if self.decide(st, self.cfold(Cond('sgn', d + sz, S_NP))):
                        continue
                    for j in [0] + list(range(1 - sz, 0)) + list(range(1, s)):
                        if self.decide(st, self.cfold(Cond('sgn', d - j, S_ZERO))):
                            d = Q.const(j)
                            break
                    else:
                        raise AnalysisError('partial overlap at symbolic offset %r vs %r' % (off, k))
                d = int(d.cval())
                if -sz < d < s:
                    out.append((d, s, v, src, k))
        return out

    def assemble(self, st, oi, off, sz, ty, over):
        parts, pos = [], 0
        for d, s, v, _, _ in sorted(over, key=lambda x: -x[0]):
            a, b = max(-d, 0), min(s - d, sz)
            if a > pos:
                g = self.gap(st, oi, simp(toq(off) + pos), a - pos)
                if g is not None:
                    parts.append((pos, a - pos, g))
            parts.append((a, b - a, v if b - a == s else self.extract(st, v, a + d, b - a, s)))
            pos = b
        if pos < sz:
            g = self.gap(st, oi, simp(toq(off) + pos), sz - pos)
            if g is not None:
                parts.append((pos, sz - pos, g))
        return self.catval(parts, sz, ty)

    def load_slow(self, st, oi, off, sz, ty):
        o = st.mem[oi]
        parts = []
        pos = off
        end = off + sz
        over = sorted((k, c) for k, c in o.cells.items() if k < end and k + c[0] > off)
        for k, (s, v) in over:
            if isinstance(v, Fill):
                if k <= off and k + s >= end:
                    return self.fill_val(v, ty, sz)
            elif k < off or k + s > end:
                # part of a wider cell
                if k <= off and k + s >= end:
                    return self.as_type(self.extract(st, v, off - k, sz, s), ty, sz)
                raise AnalysisError('partial read of a cell in %s' % o.name)
        for k, (s, v) in over:
            a = max(k, off); b = min(k + s, end)
            if a > pos:
                g = self.gap(st, oi, pos, a - pos)
                if g is not None:
                    parts.append((pos - off, a - pos, g))
            if isinstance(v, Fill):
                parts.append((a - off, b - a, v if v.byte else 0))
            else:
                parts.append((k - off, s, v))
            pos = b
        if pos < end:
            g = self.gap(st, oi, pos, end - pos, None if parts else ty)
            if not parts:
                return self.as_type(g, ty, sz) if g is not None else UNDEF
            if g is not None:
                parts.append((pos - off, end - pos, g))
        if not parts:
            return UNDEF
        return self.catval(parts, sz, ty)

    def gap(self, st, oi, off, sz, ty=None):
        o = st.mem[oi]
        if o.lazy:
            return o.lazy(self, st, oi, off, sz, ty or 'i%d' % (8 * sz))
        return None

    def catval(self, parts, sz, ty):
        if len(parts) == 1 and parts[0][0] == 0 and parts[0][1] == sz:
            return self.as_type(parts[0][2], ty, sz)
        if all(isinstance(v, int) for _, _, v in parts) and is_int_t(ty) and \
                sum(s for _, s, _ in parts) == sz:
            r = 0
            for o, s, v in parts:
                r |= unsig(v, 8 * s) << (8 * o)
            return canon_int(r, 8 * sz)
        flat = []
        for o, s, v in parts:
            for a, b, c in ([(o + a, b, c) for a, b, c in v.parts] if isinstance(v, Cat) else [(o, s, v)]):
                if flat and flat[-1][0] + flat[-1][1] == a:
                    m = joined(flat[-1][2], c)
                    if m is not None:
                        flat[-1] = (flat[-1][0], flat[-1][1] + b, m)
                        continue
                flat.append((a, b, c))
        if len(flat) == 1 and flat[0][0] == 0 and flat[0][1] == sz:
            return self.as_type(flat[0][2], ty, sz)
        return Cat(flat, sz)

    def fill_val(self, v, ty, sz):
        if v.byte == 0:
            return self.zero_of(ty)
        if is_int_t(ty):
            r = 0
            for i in range(sz):
                r |= (v.byte & 255) << (8 * i)
            return canon_int(r, 8 * sz)
        return Opq(('fill', v.byte, str(ty)))

    def extract(self, st, v, o, sz, whole):
        """bytes [o, o+sz) of value v"""
        if isinstance(v, Cat):
            inside = [(a - o, s, x) for a, s, x in v.parts if a < o + sz and a + s > o]
            if all(a >= 0 and a + s <= sz for a, s, x in inside):
                if not inside:
                    return UNDEF
                if len(inside) == 1 and inside[0][0] == 0 and inside[0][1] == sz:
                    return inside[0][2]
                return Cat(inside, sz)
            if len(inside) == 1:
                return self.extract(st, inside[0][2], -inside[0][0], sz, inside[0][1])
        if isinstance(v, int):
            return canon_int(v >> (8 * o), 8 * sz)
        if isinstance(v, Cond):
            return v if o == 0 else 0
        if v is UNDEF:
            return v
        if isinstance(v, Opq) and isinstance(v.key, tuple) and len(v.key) == 5 and v.key[0] == 'byte':
            _, v, o0, _, whole = v.key
            o += o0
        return v if o == 0 and sz == whole else Opq(('byte', v, o, sz, whole))

    def as_type(self, v, ty, sz):
        """reinterpret stored value as type ty (bit casts)"""
        if isinstance(v, int) and is_float_t(ty):
            if v == 0:
                return ZERO
            return Opq(('bits', v, ty))
        if isinstance(v, int) and ty == 'ptr':
            return NULL if v == 0 else Ptr(0, v)
        if isinstance(v, Ptr) and v.obj == 0 and isinstance(v.off, int) and is_int_t(ty):
            return v.off
        if isinstance(v, Opq) and isinstance(v.key, tuple) and v.key and v.key[0] == 'fbits' and is_float_t(ty):
            return v.key[1]
        if isinstance(v, Fill):
            return self.fill_val(v, ty, sz)
        if isinstance(v, Agg) and is_int_t(ty):
            n = len(v.v)
            s = sz // n
            return Cat([(i * s, s, x) for i, x in enumerate(v.v)], sz)
        if isinstance(v, Cat) and not is_int_t(ty):
            if is_float_t(ty) or ty == 'ptr':
                # the same bytes seen through another type (bit cast of an assembled word)
                return Opq(('cat', v, ty))
        if is_int_t(ty) and isinstance(v, Q) and not v.is_int():
            return Opq(('fbits', v))
        if isinstance(v, Opq) and isinstance(v.key, tuple) and len(v.key) == 3 and v.key[0] == 'cat' and is_int_t(ty):
            return v.key[1]
        return v

    def store(self, st, p, sz, val, ty=None):
        if isinstance(val, Agg) and isinstance(ty, list):
            elems = [(x[0], x[1]) for x in ty[2]] if ty[0] == 's' else \
                [(n * ty[4], ty[3]) for n in range(ty[2])]
            for (o, t), v in zip(elems, val.v):
                self.store(st, self.padd(p, o), tsize(t), v, t)
            return
        o = self.check_access(st, p, sz, 'write')
        if o.ro:
            raise PathEnd('memory', 'write to constant %s' % o.name)
        off = p.off
        if isinstance(off, Q):
            off = simp(st.facts.norm(off))
        if isinstance(off, int) and not o.sym:
            o = st.wobj(p.obj)
            self.put(st, o, off, sz, val)
            return
        over = self.sym_over(st, o, off, sz)
        n = o
        o = st.wobj(p.obj)
        if len(over) == 1 and over[0][0] == 0 and over[0][1] == sz:
            d, s, v, src, k = over[0]
            (o.sym if src is n.sym else o.cells)[k] = (sz, val)
            return
        for d, s, v, src, k in over:
            if isinstance(off, int) and src is n.cells:
                continue
            w = o.sym if src is n.sym else o.cells
            del w[k]
            if d > 0:
                w[k] = (d, self.extract(st, v, 0, d, s))
            if s - d > sz:
                e = simp(st.facts.norm(toq(off) + sz))
                (o.cells if isinstance(e, int) else o.sym)[e] = (s - d - sz, self.extract(st, v, d + sz, s - d - sz, s))
        if isinstance(off, int):
            self.put(st, o, off, sz, val)
        else:
            o.sym[off] = (sz, val)

    def put(self, st, o, off, sz, val):
        cells = o.cells
        c = cells.get(off)
        if not (c is not None and c[0] == sz):
            end = off + sz
            over = [k for k, c in cells.items() if k < end and k + c[0] > off]
            for k in over:
                s, v = cells.pop(k)
                if k < off:
                    cells[k] = (off - k, v if isinstance(v, Fill) else self.extract(st, v, 0, off - k, s))
                if k + s > end:
                    cells[end] = (k + s - end, v if isinstance(v, Fill) else
                                  self.extract(st, v, end - k, k + s - end, s))
        if isinstance(val, Cat):
            cells.pop(off, None)
            for a, s, v in val.parts:
                cells[off + a] = (s, v)
        elif val is UNDEF:
            if o.lazy:
                cells[off] = (sz, val)
            else:
                cells.pop(off, None)
        else:
            cells[off] = (sz, val)

    def memcpy(self, st, d, s, n):
        if isinstance(n, Q):
            n = simp(st.facts.norm(n))
        if isinstance(n, int):
            if n == 0:
                return
            so = self.check_access(st, s, n, 'read')
            do = self.check_access(st, d, n, 'write')
            soff = simp(st.facts.norm(toq(s.off)))
            if isinstance(soff, int) and not so.sym and not so.lazy:
                parts = []
                for k, (cs, v) in sorted(so.cells.items()):
                    if k < soff + n and k + cs > soff:
                        a = max(k, soff); b = min(k + cs, soff + n)
                        if (a, b) != (k, k + cs) and not isinstance(v, Fill):
                            v = self.extract(st, v, a - k, b - a, cs)
                        parts.append((a - soff, b - a, v))
                # destination bytes not covered become undefined
                doff = simp(st.facts.norm(toq(d.off)))
                if isinstance(doff, int) and not do.sym:
                    w = st.wobj(d.obj)
                    if w.ro:
                        raise PathEnd('memory', 'write to constant %s' % w.name)
                    self.put(st, w, doff, n, UNDEF)
                    w.cells.pop(doff, None)
                    for a, sz, v in parts:
                        w.cells[doff + a] = (sz, v)
                    return
            v = self.load(st, s, n, 'i%d' % (8 * n))
            self.store(st, d, n, v)
            return
        if not isinstance(n, Q):
            raise AnalysisError('memcpy of length %r' % (n,))
        if self.decide(st, self.cfold(Cond('sgn', n, S_ZERO))):
            return
        self.check_access(st, s, n, 'read')
        self.check_access(st, d, n, 'write')
        self.overlay(st, d, n, self.snapshot(st, s.obj), s.off)

    def snapshot(self, st, oi):
        i = st.alloc(0, 'snapshot', 'copy')
        o = st.mem[oi].copy(st.token)
        o.kind = 'snapshot'
        o.ro = False
        st.mem[i] = o
        return i

    def overlay(self, st, d, n, src, soff):
        """bytes [d, d+n) become those of the snapshot object src from soff on (src None: zero bytes)"""
        if st.mem[d.obj].ro:
            raise PathEnd('memory', 'write to constant %s' % st.mem[d.obj].name)
        old = self.snapshot(st, d.obj)
        doff = d.off

        def lazy(it, s, oi, off, sz, ty):
            k = toq(off) - toq(doff)
            if it.decide(s, it.cfold(Cond('sgn', k, S_NN))) and \
                    it.decide(s, it.cfold(Cond('sgn', toq(n) - k - sz, S_NN))):
                if src is None:
                    return it.zero_of(ty)
                return it.load(s, Ptr(src, simp(toq(soff) + k)), sz, ty)
            if it.decide(s, it.cfold(Cond('sgn', k + sz, S_NP))) or \
                    it.decide(s, it.cfold(Cond('sgn', k - toq(n), S_NN))):
                return it.load(s, Ptr(old, off), sz, ty)
            for b in (ZERO, toq(n)):           # across an end of the block
                for j in range(1, sz):
                    if it.decide(s, it.cfold(Cond('sgn', b - k - j, S_ZERO))):
                        parts = [(0, j, it.load(s, Ptr(oi, off), j, 'i%d' % (8 * j))),
                                 (j, sz - j, it.load(s, Ptr(oi, simp(toq(off) + j)), sz - j, 'i%d' % (8 * (sz - j))))]
                        return it.catval([x for x in parts if x[2] is not UNDEF], sz, ty)
            raise AnalysisError('partial overlap with a block of symbolic length')
        o = st.wobj(d.obj)
        o.cells = {}; o.sym = {}; o.lazy = lazy

    # ------------------------------------------------------------ arithmetic
    def binop(self, st, op, a, b, ty, ins=None):
        if isinstance(ty, list):
            return Agg(self.binop(st, op, x, y, ty[3], ins) for x, y in zip(a.v, b.v))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op[0] == 'f':
            return self.fbin(st, op, a, b)
        w = width(ty)
        if isinstance(a, int) and isinstance(b, int):
            return self.cbin(op, a, b, w)
        if w == 1:
            if op == 'xor':
                if b == 1:
                    return cnot(self.to_cond(st, a))
                if b == 0:
                    return a
                if a == 1:
                    return cnot(self.to_cond(st, b))
                return Cond('xor', self.to_cond(st, a), self.to_cond(st, b))
            if op in ('and', 'or'):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, int):
                        if op == 'and':
                            return y if x else 0
                        return 1 if x else y
                return Cond(op, self.to_cond(st, a), self.to_cond(st, b))
        # booleans stored in wider integers
        if isinstance(a, Cond):
            if op in ('and', 'or', 'xor') and isinstance(b, (Cond, int)) and (isinstance(b, Cond) or b in (0, 1)):
                return self.binop(st, op, a, b, 'i1')
            a = self.concrete_bool(st, a)
            return self.binop(st, op, a, b, ty, ins)
        if isinstance(b, Cond):
            if op in ('and', 'or', 'xor') and a in (0, 1):
                return self.binop(st, op, a, b, 'i1')
            b = self.concrete_bool(st, b)
            return self.binop(st, op, a, b, ty, ins)
        if isinstance(a, (Ptr, FnP)) or isinstance(b, (Ptr, FnP)):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    return simp(toq(a.off) - toq(b.off))
                # distance of unrelated objects: an arbitrary value
                return Q.fresh('ptrdiff', True)
            if op == 'add':
                return self.padd(a, b) if isinstance(a, Ptr) else self.padd(b, a)
            if op == 'sub' and isinstance(a, Ptr):
                r = self.padd(a, -b if isinstance(b, int) else simp(-toq(b)))
                return r.off if not r.obj else r
            if op == 'and' and isinstance(a, FnP) and b == 1 or op == 'and' and isinstance(b, FnP) and a == 1:
                return 0      # functions are aligned (pointers to member functions rely on it)
            return Opq((op, a, b))
        if isinstance(a, (BW,)) or isinstance(b, BW) or op in ('and', 'or', 'xor'):
            r = self.bitop(st, op, a, b, w)
            if r is not None:
                return r
        if isinstance(a, Cat):
            if op == 'lshr' and isinstance(b, int) and b % 8 == 0:
                return self.extract_hi(st, a, b // 8)
            if op == 'and' and isinstance(b, int):
                pass
        if isinstance(a, Opq) or isinstance(b, Opq) or isinstance(a, Cat) or isinstance(b, Cat):
            if isinstance(a, Cat) and op == 'or' or isinstance(b, Cat) and op == 'or':
                r = self.catmerge(a, b, w)
                if r is not None:
                    return r
            if isinstance(b, Cat) and op == 'shl':
                pass
            if isinstance(a, Cat) and op == 'shl' and isinstance(b, int) and b % 8 == 0:
                sh = b // 8
                return Cat([(o + sh, s, v) for o, s, v in a.parts if o + sh + s <= w // 8], w // 8)
            a2 = a if not isinstance(a, Cat) else Opq(('cat', a, ty))
            b2 = b if not isinstance(b, Cat) else Opq(('cat', b, ty))
            return Opq((op, a2, b2))
        qa, qb = toq(a), toq(b)
        if op == 'add':
            return simp(qa + qb)
        if op == 'sub':
            return simp(qa - qb)
        if op == 'mul':
            return simp(qa * qb)
        if op == 'shl' and isinstance(b, int):
            return simp(qa * (1 << b))
        if op in ('sdiv', 'udiv', 'lshr', 'ashr'):
            if op in ('lshr', 'ashr'):
                if not isinstance(b, int):
                    return Opq((op, a, b))
                if b == w - 1:           # the sign bit
                    n = self.decide(st, self.cfold(Cond('sgn', qa, S_NEG)))
                    return (-1 if op == 'ashr' else 1) if n else 0
                qb = Q.const(1 << b)
                if op == 'ashr':
                    return self.floordiv(st, qa, 1 << b)
            if qb.is_const() and qb.cval() != 0:
                r = qa / qb
                if r.is_int():
                    return simp(r)
                d = qb.cval()
                if op in ('udiv', 'lshr'):
                    if d < 0:
                        d += 1 << w
                    qa = self.as_unsigned(st, qa, w)
                return self.idiv(st, qa, d)
            if op in ('udiv', 'sdiv'):
                z = self.decide(st, self.cfold(Cond('sgn', qb, S_ZERO)))
                if z:
                    raise PathEnd('arith', 'integer division by zero')
                return self.idiv_sym(st, qa, qb)
        if op in ('urem', 'srem'):
            d = self.binop(st, 'udiv' if op == 'urem' else 'sdiv', a, b, ty)
            return simp(qa - toq(d) * qb)
        return Opq((op, a, b))

    def floordiv(self, st, qa, d):
        if qa.is_int() and not qa.den and always_divisible(qa.num, d):
            return simp(qa / Q.const(d))
        if self.decide(st, self.cfold(Cond('sgn', qa, S_NN))):
            return self.idiv(st, qa, d)
        return simp(-1 - toq(self.idiv(st, -1 - qa, d)))

    def bitq(self, st, op, a, b, w):
        """bit operations that are arithmetic on integers"""
        for x, y in ((a, b), (b, a)):
            if not isinstance(x, Q) or not x.is_int():
                continue
            if isinstance(y, int):
                if op == 'and':
                    if y > 0 and y & (y + 1) == 0:
                        return simp(x - toq(self.floordiv(st, x, y + 1)) * (y + 1))
                    if y < 0 and -y & (-y - 1) == 0:
                        return simp(toq(self.floordiv(st, x, -y)) * -y)
                    if y > 0 and y & (y - 1) == 0 and y < 1 << (w - 1):
                        h = toq(self.floordiv(st, x, y))
                        return simp((h - toq(self.floordiv(st, h, 2)) * 2) * y)
                if op == 'xor' and y == -1:
                    return simp(-1 - x)
            f = st.facts
            q = toq(y) if isinstance(y, (int, Q)) else None
            if q is None or not q.is_int():
                continue
            if op == 'xor' and f.sign(q) <= S_NP and f.sign(q + 1) <= S_NN:
                return x if self.decide(st, self.cfold(Cond('sgn', q, S_ZERO))) else simp(-1 - x)
            if op in ('or', 'xor') and not x.den and f.sign(q) <= S_NN:
                for k in (1, 2, 3, 4, 8, 16):
                    if always_divisible(x.num, 1 << k) and f.sign(q - (1 << k)) <= S_NEG:
                        return simp(x + q)
        return None

    def idiv(self, st, qa, d):
        """integer division by a positive constant, dividend known/split to be >= 0"""
        s = st.facts.sign(qa)
        if not s <= S_NN and not s <= S_NP:
            raise Fork(Cond('sgn', qa, S_NN))
        neg = s <= S_NP and not s <= S_NN
        q = -qa if neg else qa
        if q.is_int() and not q.den and always_divisible(q.num, d):
            return simp(qa / Q.const(d))
        # floor((d*A + B) / d) = A + floor(B / d)
        whole = ZERO
        if q.is_int() and not q.den and isinstance(d, int) and all(type(c) is int for c in q.num.values()):
            hi = {m: c // d for m, c in q.num.items() if c // d}
            lo = {m: c % d for m, c in q.num.items() if c % d}
            whole, q = Q(hi), Q(lo)
            if q.is_const():
                return simp(-whole) if neg else simp(whole)
        r = qfn('idiv', q, d, integer=True)
        k = ('idiv', q, d)
        if not st.ghost.get(k):
            st.ghost[k] = True
            f = st.facts
            if st.facts.sign(q) <= S_NN:
                f.assume_sign(r, S_NN)
            f.assume_sign(q - r * d, S_NN)
            f.assume_sign(q - r * d - d, S_NEG)
        r = whole + r
        return simp(-r) if neg else simp(r)

    def idiv_sym(self, st, qa, qb):
        r = qfn('idiv', qa, qb, integer=True)
        return r

    def as_unsigned(self, st, q, w):
        s = st.facts.sign(q)
        if s <= S_NN:
            return q
        if not (s & S_NN):
            return q + (1 << w)
        raise Fork(Cond('sgn', q, S_NN))

    def cbin(self, op, a, b, w):
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        elif op == 'shl':
            if unsig(b, w) >= w:
                return UNDEF
            r = a << unsig(b, w)
        elif op == 'lshr':
            if unsig(b, w) >= w:
                return UNDEF
            r = unsig(a, w) >> unsig(b, w)
        elif op == 'ashr':
            if unsig(b, w) >= w:
                return UNDEF
            r = a >> unsig(b, w)
        elif op in ('udiv', 'urem'):
            x, y = unsig(a, w), unsig(b, w)
            if y == 0:
                raise PathEnd('arith', 'integer division by zero')
            r = x // y if op == 'udiv' else x % y
        elif op in ('sdiv', 'srem'):
            if b == 0:
                raise PathEnd('arith', 'integer division by zero')
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            r = q if op == 'sdiv' else a - q * b
        else:
            raise AnalysisError('int op ' + op)
        return canon_int(r, w)

    def to_bw(self, v, w):
        if isinstance(v, BW):
            return v
        if isinstance(v, int):
            return BW({frozenset(): unsig(v, w)})
        if isinstance(v, Q):
            return BW({frozenset([repr(v)]): (1 << w) - 1})
        if isinstance(v, Opq):
            return BW({frozenset([repr(v)]): (1 << w) - 1})
        return None

    def bitop(self, st, op, a, b, w):
        if op == 'and':
            # masking a non-negative quantity by a low mask / single values
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int):
                    if y == 0:
                        return 0
                    if y == -1:
                        return x
        if op in ('or', 'xor'):
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y == 0:
                    return x
        if isinstance(a, Cat) or isinstance(b, Cat):
            return None
        if op in ('and', 'or', 'xor'):
            if isinstance(a, Q) or isinstance(b, Q):
                r = self.bitq(st, op, a, b, w)
                if r is not None:
                    return r
            x, y = self.to_bw(a, w), self.to_bw(b, w)
            if x is None or y is None:
                return None
            if op == 'and':
                r = x.and_(y)
            elif op == 'xor':
                r = x.xor(y)
            else:
                r = x.xor(y).xor(x.and_(y))
            c = r.const()
            if c is not None:
                return canon_int(c, w)
            return r
        if isinstance(a, BW) or isinstance(b, BW):
            if op == 'sub' and a == -1:
                return self.bitop(st, 'xor', a, b, w)
            full = (1 << w) - 1
            if op in ('shl', 'lshr', 'ashr') and isinstance(a, BW) and isinstance(b, int) and 0 <= b < w:
                if op != 'ashr' or not a.maybe() >> (w - 1) & 1:
                    r = a.shift(b if op == 'shl' else -b, w)
                    c = r.const()
                    return r if c is None else canon_int(c, w)
            if op in ('mul', 'udiv', 'urem') and isinstance(a, BW) and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
                if op == 'urem':
                    return self.bitop(st, 'and', a, b - 1, w)
                return self.bitop(st, 'shl' if op == 'mul' else 'lshr', a, b.bit_length() - 1, w)
            if op == 'add':
                x, y = self.to_bw(a, w), self.to_bw(b, w)
                if x is not None and y is not None and not x.maybe() & y.maybe() & full:
                    return self.bitop(st, 'or', x, y, w)
            if op == 'sub' and isinstance(a, BW):
                # no borrow: every bit that is taken away is certainly set
                y = self.to_bw(b, w)
                if y is not None and not (y.maybe() & full) & ~a.ones():
                    return self.bitop(st, 'xor', a, y, w)
            if op == 'sub' and a == b:
                return 0
            ka = a.key() if isinstance(a, BW) else a
            kb = b.key() if isinstance(b, BW) else b
            return Opq((op, ka, kb))
        return None

    def extract_hi(self, st, v, o):
        n = v.size - o
        parts = [(a - o, s, x) for a, s, x in v.parts if a >= o]
        if len(parts) == 1 and parts[0][0] == 0:
            # zero-extended single part
            return Cat(parts + [(parts[0][1], v.size - parts[0][1], 0)], v.size) \
                if parts[0][1] < v.size else parts[0][2]
        return Cat(parts + [(n, v.size - n, 0)], v.size)

    def catmerge(self, a, b, w):
        def parts(x):
            if isinstance(x, Cat):
                return [p for p in x.parts if not (isinstance(p[2], int) and p[2] == 0)]
            return None
        pa, pb = parts(a), parts(b)
        if pa is None or pb is None:
            return None
        allp = sorted(pa + pb, key=lambda p: p[0])
        for x, y in zip(allp, allp[1:]):
            if x[0] + x[1] > y[0]:
                return None
        return Cat(allp, w // 8)

    def fbin(self, st, op, a, b):
        if not isinstance(a, Q) or not isinstance(b, Q):
            return self.fspecial(op, a, b)
        if op == 'fadd':
            return a + b
        if op == 'fsub':
            return a - b
        if op == 'fmul':
            return a * b
        if op == 'fdiv':
            if not b.num:
                return Opq(('fdiv0', a))
            if st.ghost.get('divisors') and not b.is_const() and S_ZERO <= st.facts.sign(b):
                self.report(st, 'expect', 'no division by zero', False, 'the divisor %s can be zero' % (repr(b)[:300],))
            return a / b
        if op == 'frem':
            return qfn('fmod', a, b)
        raise AnalysisError(op)

    def fspecial(self, op, a, b):
        return Opq((op, a, b))

    def trunc(self, st, v, w, w0):
        if isinstance(v, int):
            return canon_int(v, w)
        if v is UNDEF:
            return v
        if isinstance(v, Cond):
            return v
        if w == 1:
            if isinstance(v, BW):
                return self.to_cond(st, v.and_(BW({frozenset(): 1})))
            if isinstance(v, Q):
                return self.to_cond(st, v)
            if isinstance(v, Opq):
                return Cond('opq', v)
        if isinstance(v, BW):
            m = (1 << w) - 1
            r = BW({k: x & m for k, x in v.t.items()})
            c = r.const()
            return canon_int(c, w) if c is not None else r
        if isinstance(v, Cat):
            return self.extract(st, v, 0, w // 8, v.size)
        if isinstance(v, Q):
            return v
        if isinstance(v, Ptr):
            return Opq(('trunc', v, w))
        return Opq(('trunc', v, w))

    def zext(self, st, v, w0, w):
        if isinstance(v, int):
            return unsig(v, w0)
        if isinstance(v, Q):
            return simp(self.as_unsigned(st, v, w0))
        if isinstance(v, Cat):
            return Cat(v.parts + ((v.size, w // 8 - v.size, 0),), w // 8)
        if isinstance(v, Opq) and w0 >= 8 and w0 % 8 == 0 and w % 8 == 0:
            return Cat([(0, w0 // 8, v), (w0 // 8, w // 8 - w0 // 8, 0)], w // 8)
        return v      # BW, Cond: same bits / same truth value

    def sext(self, st, v, w0, w):
        if isinstance(v, int):
            if w0 == 1:
                return -1 if v else 0
            return v
        if isinstance(v, Cond):
            return -1 if self.concrete_bool(st, v) else 0
        if isinstance(v, BW):
            if w0 == 1:
                return v
            t = {}
            for k, m in v.t.items():
                if m >> (w0 - 1) & 1:
                    m |= ((1 << w) - 1) ^ ((1 << w0) - 1)
                t[k] = m
            return BW(t)
        return v

    # ------------------------------------------------------------ comparisons
    def icmp(self, st, p, a, b, ty):
        if isinstance(ty, list):
            return Agg(self.icmp(st, p, x, y, ty[3]) for x, y in zip(a.v, b.v))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        w = 64 if ty == 'ptr' else width(ty)
        if isinstance(a, int) and isinstance(b, int):
            if p[0] == 'u':
                a, b = unsig(a, w), unsig(b, w)
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[
                p if p in ('eq', 'ne') else p[1:]])
        rel = p if p in ('eq', 'ne') else p[1:]
        if isinstance(a, (Ptr, FnP)) or isinstance(b, (Ptr, FnP)):
            return self.pcmp(st, rel, a, b)
        if isinstance(a, Cond) or isinstance(b, Cond):
            ca = self.to_cond(st, a) if isinstance(a, Cond) else a
            cb = self.to_cond(st, b) if isinstance(b, Cond) else b
            if rel in ('eq', 'ne') and isinstance(ca, (Cond, int)) and isinstance(cb, (Cond, int)):
                if isinstance(ca, int):
                    ca, cb = cb, ca
                if isinstance(cb, int):
                    if cb == 0:
                        return ca if rel == 'ne' else cnot(ca)
                    if cb == 1 or (cb == -1 and w == 1):
                        return ca if rel == 'eq' else cnot(ca)
                    return int(rel == 'ne')
                return Cond('xor', ca, cb) if rel == 'ne' else cnot(Cond('xor', ca, cb))
            if isinstance(a, Cond):
                a = self.concrete_bool(st, a)
            if isinstance(b, Cond):
                b = self.concrete_bool(st, b)
            return self.icmp(st, p, a, b, ty)
        if isinstance(a, BW) or isinstance(b, BW):
            if rel in ('eq', 'ne'):
                x, y = self.to_bw(a, w), self.to_bw(b, w)
                if x is not None and y is not None:
                    d = x.xor(y)
                    c = d.const()
                    if c is not None:
                        return int((c == 0) == (rel == 'eq'))
                    if d.ones():
                        return int(rel == 'ne')
                    r = Cond('bw', drop_sign_copies(d))
                    return r if rel == 'ne' else cnot(r)
            r = self.bw_order(p, rel, a, b, w)
            if r is not None:
                return r
            return Cond('icmp', (p, a, b))
        if isinstance(a, Cat) and isinstance(b, int) and b == 0 or isinstance(b, Cat) and isinstance(a, int) and a == 0:
            x = a if isinstance(a, Cat) else b
            if rel in ('eq', 'ne'):
                r = 0
                for _, _, v in x.parts:
                    c = self.to_cond(st, v)
                    r = c if isinstance(r, int) and r == 0 else (r if isinstance(c, int) and c == 0 else Cond('or', r, c))
                return r if rel == 'ne' else cnot(r)
        if isinstance(a, (Opq, Cat)) or isinstance(b, (Opq, Cat)):
            if a == b:
                return int(rel in ('eq', 'le', 'ge'))
            if rel == 'ne':
                return cnot(Cond('icmp', ('eq', a, b)))
            return Cond('icmp', (p, a, b))
        qa, qb = toq(a), toq(b)
        if rel in ('eq', 'ne'):
            d = st.facts.norm(qa - qb)
            if isinstance(b, int) and b < 0 or isinstance(a, int) and a < 0:
                # unsigned symbol against all-ones style constants: same class mod 2^w
                alt = d - (1 << w) if (isinstance(b, int)) else d + (1 << w)
                c = self.cfold(Cond('sgn', d, ALLOWED[rel]))
                if isinstance(c, Cond):
                    s = st.facts.sign(d)
                    if s == S_POS and isinstance(b, int) and not st.facts.sign(alt) == S_NEG:
                        c = self.cfold(Cond('sgn', alt, ALLOWED[rel]))
                return c
            return self.cfold(Cond('sgn', d, ALLOWED[rel]))
        if p[0] == 'u':
            qa = Q.const(unsig(a, w)) if isinstance(a, int) else self.as_unsigned(st, qa, w)
            qb = Q.const(unsig(b, w)) if isinstance(b, int) else self.as_unsigned(st, qb, w)
        d = qa - qb
        return self.cfold(Cond('sgn', d, ALLOWED[rel]))

    def bw_order(self, p, rel, a, b, w):
        """order of bit patterns, by the bits that are known"""
        if rel in ('eq', 'ne'):
            return None
        if not isinstance(a, BW):
            a, b, rel = b, a, {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[rel]
        full = (1 << w) - 1
        lo, hi = a.ones() & full, a.maybe() & full
        sign = 1 << (w - 1)
        if isinstance(b, BW):
            blo, bhi = b.ones() & full, b.maybe() & full
        elif isinstance(b, int):
            blo = bhi = unsig(b, w)
        else:
            return None
        if p[0] == 's':
            # the order of the values with the sign bit inverted
            if (lo ^ hi) & sign or (blo ^ bhi) & sign:
                if not isinstance(b, int) or b != 0 or rel not in ('lt', 'ge'):
                    return None
                c = self.to_cond(None, a.and_(BW({frozenset(): sign})))
                return c if rel == 'lt' else cnot(c)
            lo ^= sign; hi ^= sign; blo ^= sign; bhi ^= sign
        if rel in ('le', 'gt') and hi <= blo:
            return int(rel == 'le')
        if rel in ('lt', 'ge') and hi < blo:
            return int(rel == 'lt')
        if rel in ('lt', 'ge') and lo >= bhi:
            return int(rel == 'ge')
        if rel in ('le', 'gt') and lo > bhi:
            return int(rel == 'gt')
        if isinstance(b, int) and not (p[0] == 's' and blo < sign):
            n = unsig(b, w) + (rel in ('le', 'gt'))      # a < n  or  a >= n
            if n & (n - 1) == 0:
                c = self.to_cond(None, a.and_(BW({frozenset(): full & ~(n - 1)})))
                return cnot(c) if rel in ('lt', 'le') else c
        return None

    def pcmp(self, st, rel, a, b):
        if isinstance(a, int):
            a = NULL if a == 0 else Ptr(0, a)
        if isinstance(b, int):
            b = NULL if b == 0 else Ptr(0, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                d = simp(toq(a.off) - toq(b.off))
                if isinstance(d, int):
                    return int({'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0,
                                'gt': d > 0, 'ge': d >= 0}[rel])
                return self.cfold(Cond('sgn', d, ALLOWED[rel]))
            if rel == 'eq':
                return 0
            if rel == 'ne':
                return 1
            if a.obj == 0:
                return int(rel in ('lt', 'le'))
            if b.obj == 0:
                return int(rel in ('gt', 'ge'))
            return Cond('pord', (rel, a.obj, b.obj))
        if isinstance(a, FnP) or isinstance(b, FnP):
            e = a == b
            if rel == 'eq':
                return int(e)
            if rel == 'ne':
                return int(not e)
        return Cond('pcmp', (rel, a, b))

    def fcmp(self, st, p, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if p in ('true', 'false'):
            return int(p == 'true')
        if p in ('ord', 'uno'):
            return int(p == 'ord')
        if not isinstance(a, Q) or not isinstance(b, Q):
            return Cond('fcmp', (p[1:], a, b))
        rel = {'oeq': 'eq', 'one': 'ne', 'ueq': 'eq', 'une': 'ne'}.get(p, p[1:])
        return self.cfold(Cond('sgn', a - b, ALLOWED[rel]))

    # ------------------------------------------------------------ driver
    def run(self, fname, init=None, ghost=None):
        """interpret one obligation; -> list of end states (kind, state, msg)"""
        fn = self.mod.fn(fname)
        if fn is None or fn.decl:
            raise AnalysisError('no obligation function %s' % fname)
        st = init.clone() if init else State()
        if ghost:
            st.ghost.update(ghost)
        self.enter(st, fn, [], None, None)
        ends = []
        self.explore([st], ends, fname)
        return ends

    def explore(self, work, ends, fname, until=None):
        """process open partitions until none is left (breadth first until `until` are open)"""
        n0 = self.steps
        late = 0
        while work:
            if until is not None:
                if len(work) >= until:
                    return
                st = work.pop(0)
            elif self.declined and self.paths + self.forks & 7 == 0:
                st = work.pop(0)          # a loop that is not summarised may go on for ever on the last partition
            else:
                st = work.pop()
            if self.results:              # the violations found so far stand
                if not late:
                    late = time.time()
                elif self.hurry and time.time() - late > self.hurry:
                    return
            try:
                self.loop(st)
                raise AnalysisError('interpreter loop ended')
            except Replaced as f:
                work.extend(f.states)
            except Fork as f:
                self.forks += 1
                leaf_ = by_divisor(st.facts, f.leaf)
                for truth in (False, True):
                    s = st.clone()
                    try:
                        assume(s.facts, leaf_, truth)
                    except Contradiction:
                        self.dropped += 1
                        continue
                    work.append(s)
                if len(work) > self.max_states:
                    raise AnalysisError('too many open partitions (%d)' % len(work))
            except ForkN as f:
                self.forks += 1
                for alt in f.alts:
                    s = st.clone()
                    try:
                        alt(s)
                    except Contradiction:
                        self.dropped += 1
                        continue
                    work.append(s)
            except Contradiction:
                self.dropped += 1
            except PathEnd as e:
                self.paths += 1
                if e.kind == 'dropped':
                    self.dropped += 1
                elif e.kind == 'joined':
                    pass
                else:
                    try:
                        if e.kind not in ('return', 'stop'):
                            self.report(st, e.kind, e.kind, False, e.msg)
                        ends.append((e.kind, e.msg))
                    except PathEnd:           # empty after all
                        self.dropped += 1
            except AnalysisError as e:
                w, ch = self.where(st)
                raise AnalysisError('%s [in %s at %s:%s]' % (e, w[0], w[1], w[2])) from None
            except Blowup as e:
                w, ch = self.where(st)
                raise AnalysisError('%s [in %s at %s:%s]' % (e, w[0], w[1], w[2])) from None
            if self.steps - n0 > self.budget:
                raise AnalysisError('step budget exhausted in %s' % fname)

    def enter(self, st, fn, args, ret, inv):
        fr = Frame(fn)
        fr.ret = ret
        fr.inv = inv
        for (i, *_), v in zip(fn.args, args):
            fr.regs[i] = v
        self.fns_seen.add(fn.name)
        st.frames.append(fr)
        if len(st.frames) > 200:
            if fn.dem.find('nytl::') >= 0 and sum(f.fn is fn for f in st.frames) > 64:
                raise PathEnd('recursion', 'calls of %s nested without end' % short(fn.dem))
            raise AnalysisError('call depth (recursion)')

    def loop(self, st):
        ops = self.OPS
        n = 0
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.bi][fr.ii]
            n += 1
            self.steps += 1
            if n > 300000:
                if n > 500000:
                    for g in reversed(st.frames):
                        if 'nytl::' in g.fn.dem:
                            raise PathEnd('termination', '%s does not end: %d steps without a decision that depends on the input' % (short(g.fn.dem), n))
                if self.steps > self.budget:
                    raise AnalysisError('step budget exhausted')
            h = ops.get(ins['o'])
            if h is None:
                raise AnalysisError('instruction ' + ins['o'])
            h(self, st, fr, ins)

    # each handler must advance fr.ii
    def goto(self, st, fr, bi):
        fr.prev = fr.bi
        fr.bi = bi
        fr.ii = 0
        blk = fr.fn.blocks[bi]
        if blk[0]['o'] == 'phi':
            vals = []
            for ins in blk:
                if ins['o'] != 'phi':
                    break
                for b, v in ins['in']:
                    if b == fr.prev:
                        vals.append((ins['r'], self.ev(st, fr, v)))
                        break
                else:
                    raise AnalysisError('phi')
            for r, v in vals:
                fr.regs[r] = v
            fr.ii = len(vals)
        if self.accel is not None:
            self.accel.hook(self, st, fr)
        if self.loop_hook is not None:
            self.loop_hook(self, st, fr)

    def i_br(self, st, fr, ins):
        s = ins['s']
        if len(s) == 1:
            self.goto(st, fr, s[0])
            return
        c = self.decide(st, self.ev(st, fr, ins['a'][0]))
        self.goto(st, fr, s[0] if c else s[1])

    def i_switch(self, st, fr, ins):
        v = self.ev(st, fr, ins['a'][0])
        if v is UNDEF:
            raise PathEnd('undef', 'switch on an uninitialised value')
        if isinstance(v, Cond):
            v = self.concrete_bool(st, v)
        for c, b in ins['cases']:
            c = int(c)
            if isinstance(v, int):
                if v == c:
                    return self.goto(st, fr, b)
                continue
            if self.decide(st, self.icmp(st, 'eq', v, c, 'i64')):
                return self.goto(st, fr, b)
        self.goto(st, fr, ins['def'])

    def i_ret(self, st, fr, ins):
        v = self.ev(st, fr, ins['a'][0]) if ins.get('a') else None
        self.do_return(st, v)

    def do_return(self, st, v):
        fr = st.frames.pop()
        for i in fr.allocas:
            st.wobj(i).alive = False
        if self.end_objects and fr.fn.dtor > 1:
            self.end_object(st, fr.regs.get(fr.fn.args[0][0]), fr.fn.dtor)
        if not st.frames:
            st.frames.append(fr)      # for reporting
            raise PathEnd('return')
        caller = st.frames[-1]
        self.finish_call(st, caller, v, fr.ret)

    end_objects = False

    def end_object(self, st, p, n):
        """the object was destroyed: nothing may rely on its contents any more"""
        if not isinstance(p, Ptr) or not isinstance(p.off, int):
            return
        o = st.mem.get(p.obj)
        if o is None or not o.alive or o.ro or o.sym or o.lazy:
            return
        dead = [off for off, (s, _) in o.cells.items() if p.off <= off and isinstance(s, int) and off + s <= p.off + n]
        if dead:
            o = st.wobj(p.obj)
            for off in dead:
                if o.kind == 'global':
                    o.cells[off] = (o.cells[off][0], UNDEF)
                else:
                    del o.cells[off]

    def finish_call(self, st, fr, v, ret):
        ins = fr.fn.blocks[fr.bi][fr.ii]
        if 'r' in ins:
            fr.regs[ins['r']] = v if v is not None else UNDEF
        if ins['o'] == 'invoke':
            self.goto(st, fr, ins['s'][0])
        else:
            fr.ii += 1

    def i_unreachable(self, st, fr, ins):
        raise PathEnd('unreachable', 'control reaches an unreachable point (missing return / undefined behaviour)')

    def i_alloca(self, st, fr, ins):
        cnt = self.ev(st, fr, ins['cnt'])
        name = 'local'
        i = st.alloc(ins['sz'] * cnt, 'stack', '%s in %s' % (name, short(fr.fn.dem)))
        fr.allocas.append(i)
        fr.regs[ins['r']] = Ptr(i, 0)
        fr.ii += 1

    def i_load(self, st, fr, ins):
        p = self.ev(st, fr, ins['a'][0])
        v = fr.regs[ins['r']] = self.load(st, p, ins['sz'], ins['t'])
        if self.loadlog is not None and isinstance(p, Ptr):
            self.loadlog.append((p, ins['sz'], v))
        fr.ii += 1

    def i_store(self, st, fr, ins):
        v = self.ev(st, fr, ins['a'][0])
        p = self.ev(st, fr, ins['a'][1])
        self.store(st, p, ins['sz'], v, ins['vt'])
        fr.ii += 1

    def i_gep(self, st, fr, ins):
        p = self.ev(st, fr, ins['a'][0])
        if ins.get('bad'):
            raise AnalysisError('gep')
        d = ins['off']
        for v, sc, ty in ins['var']:
            x = self.ev(st, fr, v)
            if isinstance(x, Cond):
                x = self.concrete_bool(st, x)
            if x is UNDEF:
                raise PathEnd('undef', 'address computed from an uninitialised value')
            if isinstance(x, (Opq, BW)):
                x = Q.atom(atom(('opq', x), True))
            if isinstance(x, Ptr):
                if x.obj:
                    raise AnalysisError('pointer as index %r' % (x,))
                x = x.off         # an offset to the null pointer
            if isinstance(x, int) and isinstance(d, int):
                d += x * sc
            else:
                d = simp(toq(d) + toq(x) * sc)
        if p == NULL and not (isinstance(d, int) and d == 0) and ins.get('inb'):
            # null + nonzero: undefined; keep as invalid pointer
            fr.regs[ins['r']] = Ptr(0, d)
        else:
            fr.regs[ins['r']] = self.padd(p, d)
        fr.ii += 1

    def i_bin(self, st, fr, ins):
        a = self.ev(st, fr, ins['a'][0])
        b = self.ev(st, fr, ins['a'][1])
        fr.regs[ins['r']] = self.binop(st, ins['o'], a, b, ins['t'], ins)
        fr.ii += 1

    def i_fneg(self, st, fr, ins):
        a = self.ev(st, fr, ins['a'][0])
        if isinstance(a, Agg):
            r = Agg(-x for x in a.v)
        elif isinstance(a, Q):
            r = -a
        elif a is UNDEF:
            r = a
        else:
            r = Opq(('fneg', a))
        fr.regs[ins['r']] = r
        fr.ii += 1

    def i_icmp(self, st, fr, ins):
        a = self.ev(st, fr, ins['a'][0])
        b = self.ev(st, fr, ins['a'][1])
        fr.regs[ins['r']] = self.icmp(st, ins['p'], a, b, ins['ot'])
        fr.ii += 1

    def i_fcmp(self, st, fr, ins):
        a = self.ev(st, fr, ins['a'][0])
        b = self.ev(st, fr, ins['a'][1])
        if isinstance(a, Agg):
            raise AnalysisError('vector compare')
        fr.regs[ins['r']] = self.fcmp(st, ins['p'], a, b)
        fr.ii += 1

    def i_cast(self, st, fr, ins):
        v = self.ev(st, fr, ins['a'][0])
        o, t, ot = ins['o'], ins['t'], ins['ot']
        fr.regs[ins['r']] = self.cast(st, o, v, ot, t)
        fr.ii += 1

    def cast(self, st, o, v, ot, t):
        if isinstance(t, list) and o != 'bitcast':
            return Agg(self.cast(st, o, x, ot[3], t[3]) for x in v.v)
        if v is UNDEF:
            return v
        pr = st.ghost.get('precise')
        if pr == 2 and not isinstance(v, int):
            if o == 'trunc' and width(ot) == 64 and width(t) > 1:
                raise PathEnd('precision', 'a 64 bit number is narrowed to %d bits' % width(t))
            if o in ('sitofp', 'uitofp') and width(ot) == 64:
                raise PathEnd('precision', 'an integer computation goes through floating point')
        if pr and o in ('fptosi', 'fptoui') and not rounded(v):
            raise PathEnd('precision', 'a floating point computation goes through integers')
        if o == 'trunc':
            if self.sizes and isinstance(v, Q) and 8 <= width(t) < 48 and not self.sizes.isdisjoint(v.atoms()):
                # signed or unsigned, the value has to fit
                if not (st.facts.sign(v) <= S_NN and st.facts.sign(Q.const((1 << width(t)) - 1) - v) <= S_NN) and \
                        not (st.facts.sign(v + (1 << (width(t) - 1))) <= S_NN and st.facts.sign(Q.const((1 << (width(t) - 1)) - 1) - v) <= S_NN):
                    raise PathEnd('precision', 'a size or position is narrowed to %d bits' % width(t))
            return self.trunc(st, v, width(t), width(ot))
        if o == 'zext':
            return self.zext(st, v, width(ot), width(t))
        if o == 'sext':
            return self.sext(st, v, width(ot), width(t))
        if o in ('fpext', 'fptrunc'):
            if o == 'fptrunc' and pr:
                raise PathEnd('precision', 'value is narrowed to single precision')
            return v
        if o in ('sitofp', 'uitofp'):
            if isinstance(v, Cond):
                v = self.concrete_bool(st, v)
            if isinstance(v, int):
                if o == 'uitofp':
                    v = unsig(v, width(ot))
                return Q.const(v)
            if isinstance(v, Q):
                return self.as_unsigned(st, v, width(ot)) if o == 'uitofp' else v
            return Q.atom(atom((o, v)))
        if o in ('fptosi', 'fptoui'):
            if isinstance(v, Q):
                if v.is_const():
                    c = v.cval()
                    if type(c) is Fraction:
                        c = abs(c.numerator) // c.denominator * (1 if c > 0 else -1)
                    return canon_int(c, width(t))
                if v.is_int():
                    return v
                return qfn('trunc', v, integer=True)
            return Opq((o, v))
        if o == 'bitcast':
            if isinstance(v, Cat) and isinstance(t, list):
                n = t[2]
                s = tsize(t[3])
                return Agg(self.as_type(self.extract(st, v, i * s, s, v.size), t[3], s) for i in range(n))
            if isinstance(v, Agg) and is_int_t(t):
                return self.as_type(v, t, tsize(t))
            if isinstance(t, list):
                if isinstance(v, int) and v == 0:
                    return self.zero_of(t)
                return v
            return self.as_type(v, t, tsize(t))
        if o in ('ptrtoint', 'inttoptr'):
            if o == 'inttoptr' and isinstance(v, int):
                return NULL if v == 0 else Ptr(0, v)
            if o == 'ptrtoint' and v == NULL:
                return 0
            return v
        if o == 'addrspacecast':
            return v
        raise AnalysisError('cast ' + o)

    def i_select(self, st, fr, ins):
        c = self.decide(st, self.ev(st, fr, ins['a'][0]))
        fr.regs[ins['r']] = self.ev(st, fr, ins['a'][1 if c else 2])
        fr.ii += 1

    def i_extractvalue(self, st, fr, ins):
        v = self.ev(st, fr, ins['a'][0])
        for i in ins['idx']:
            if v is UNDEF:
                break
            v = v.v[i]
        fr.regs[ins['r']] = v
        fr.ii += 1

    def i_insertvalue(self, st, fr, ins):
        v = self.ev(st, fr, ins['a'][0])
        x = self.ev(st, fr, ins['a'][1])

        def ins_(a, idx):
            if not idx:
                return x
            l = list(a.v)
            l[idx[0]] = ins_(l[idx[0]], idx[1:])
            return Agg(l)
        fr.regs[ins['r']] = ins_(v, ins['idx'])
        fr.ii += 1

    def i_extractelement(self, st, fr, ins):
        v = self.ev(st, fr, ins['a'][0])
        i = self.ev(st, fr, ins['a'][1])
        fr.regs[ins['r']] = v if v is UNDEF else v.v[i]
        fr.ii += 1

    def i_insertelement(self, st, fr, ins):
        v = self.ev(st, fr, ins['a'][0])
        x = self.ev(st, fr, ins['a'][1])
        i = self.ev(st, fr, ins['a'][2])
        l = list(v.v)
        l[i] = x
        fr.regs[ins['r']] = Agg(l)
        fr.ii += 1

    def i_shufflevector(self, st, fr, ins):
        a = self.ev(st, fr, ins['a'][0])
        b = self.ev(st, fr, ins['a'][1])
        l = list(a.v) + list(b.v)
        fr.regs[ins['r']] = Agg(UNDEF if m < 0 else l[m] for m in ins['mask'])
        fr.ii += 1

    def i_freeze(self, st, fr, ins):
        fr.regs[ins['r']] = self.ev(st, fr, ins['a'][0])
        fr.ii += 1

    def i_fence(self, st, fr, ins):
        fr.ii += 1

    def i_atomicrmw(self, st, fr, ins):
        p = self.ev(st, fr, ins['a'][0])
        v = self.ev(st, fr, ins['a'][1])
        sz = tsize(ins['t'])
        old = self.load(st, p, sz, ins['t'])
        op = ins['rmw']
        new = v if op == 'xchg' else self.binop(st, op, old, v, ins['t'])
        self.store(st, p, sz, new)
        fr.regs[ins['r']] = old
        fr.ii += 1

    # ------------------------------------------------------------ calls
    def i_call(self, st, fr, ins):
        f = ins['f']
        if f[0] == 'g':
            name = f[1]
        else:
            v = self.ev(st, fr, f)
            if v is UNDEF:
                raise PathEnd('memory', 'call through an uninitialised function pointer')
            if isinstance(v, Ptr):
                raise PathEnd('memory', 'call through %s function pointer' % ('a null' if v.obj == 0 else 'an invalid'))
            if not isinstance(v, FnP):
                raise AnalysisError('indirect call through %r' % (v,))
            name = v.name
        self.call(st, fr, ins, name)

    i_invoke = i_call

    def model_of(self, name):
        """witness units can replace a library function f by the function sa_model.f"""
        m = self.models.get(name)
        if m is None:
            m = 'sa_model.' + name
            m = self.models[name] = m if self.mod.has_fn(m) else name
        return m

    def call(self, st, fr, ins, name):
        name = self.model_of(name)
        args = [self.ev(st, fr, a) for a in ins['a']]
        if name.startswith('llvm.'):
            h = self.intrinsic(name)
            if h is None:
                raise AnalysisError('intrinsic ' + name)
            v = h(self, st, args, ins)
            return self.finish_call(st, fr, v, None)
        hook = self.find_hook(name)
        if hook is not None:
            try:
                v = hook(self, st, args, ins)
            except Throw as t:
                self.throw_builtin(st, t.ti)
                return
            if v is NotImplemented:
                pass
            elif v is not ENTERED:
                return self.finish_call(st, fr, v, None)
            else:
                return
        fn = self.mod.fn(name)
        if fn is not None and fn.decl and re.match(r'(\S+ )?(nytl::|auto nytl::)', fn.dem):
            raise PathEnd('undefined', 'call of %s, which is declared but not defined' % fn.dem)
        if fn is None or fn.decl:
            raise AnalysisError('call to unknown external %s (%s)' % (fn.dem if fn else name, name))
        if 'bv' in ins:
            for i, s in enumerate(ins['bv']):
                if s:
                    o = st.alloc(s, 'stack', 'argument of ' + short(fn.dem))
                    self.memcpy(st, Ptr(o, 0), args[i], s)
                    args[i] = Ptr(o, 0)
        for i in fn.nn:
            if args[i] == NULL:
                raise PathEnd('memory', 'null %s in a call of %s' % (
                    'object' if i == 0 and '::' in fn.dem else 'reference', short(fn.dem)))
        self.enter(st, fn, args, None, ins['o'] == 'invoke')

    def intrinsic(self, name):
        h = self.ext.get(name)
        if h is not None:
            return h
        for pre, hh in self.intr:
            if name.startswith(pre):
                self.ext[name] = hh
                return hh
        return None

    def find_hook(self, name):
        h = self._hookcache.get(name, 0)
        if h != 0:
            return h
        h = self.ext.get(name) or self.hooks.get(name)
        if h is None:
            fn = self.mod.fn(name)
            if fn is not None:
                if fn.decl:
                    for rx, hh in self.ext_re:
                        if rx.match(name):
                            h = hh
                            break
                if h is None:
                    for rx, hh in self.hook_re:
                        if rx.match(fn.dem):
                            h = hh
                            break
        self._hookcache[name] = h
        return h

    # ------------------------------------------------------------ exceptions
    def throw_builtin(self, st, ti):
        i = st.alloc(16, 'heap', 'exception object')
        st.exch[i] = (ti, None)
        self.do_throw(st, Ptr(i, 0))

    def do_throw(self, st, p):
        st.uncaught += 1
        st.exc = p
        self.unwind(st)

    def unwind(self, st):
        """pop frames until an invoke"""
        first = True
        keep = list(st.frames)
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.bi][fr.ii]
            if ins['o'] == 'invoke':
                break
            st.frames.pop()
            for i in fr.allocas:
                st.wobj(i).alive = False
            if not st.frames:
                st.frames = keep[:1]
                ti = st.exch.get(st.exc.obj, ('?',))[0]
                raise PathEnd('exception', 'exception of type %s escapes' % ti)
        self.goto(st, fr, ins['s'][1])

    def i_landingpad(self, st, fr, ins):
        ti = st.exch[st.exc.obj][0]
        sel = 0
        for kind, c in ins['cl']:
            if kind == 'catch':
                if c[0] == 'n':
                    sel = self.typeid(None)
                    break
                nm = c[1] if c[0] == 'g' else (c[1][1] if c[0] == 'gep' else None)
                if self.derives(st, ti, nm):
                    sel = self.typeid(nm)
                    break
        fr.regs[ins['r']] = Agg([st.exc, sel])
        fr.ii += 1
        if sel == 0 and not ins['cleanup']:
            # not for us: keep unwinding
            fr.ii -= 1
            self.resume(st)

    def typeid(self, nm):
        if nm is None:
            return 999
        return 1000 + (sum((i + 1) * ord(c) for i, c in enumerate(nm)) % 1000003)

    def derives(self, st, ti, nm):
        if ti == nm:
            return True
        b = EXC_BASES.get(ti)
        if b is not None:
            return self.derives(st, b, nm)
        g = self.mod.glob(ti)
        if g is None or 'init' not in g or g['init'][0] != 'agg':
            return False
        for x in g['init'][2][2:]:
            r = x
            while r[0] == 'gep':
                r = r[1]
            if r[0] == 'g' and r[1].startswith('_ZTI') and self.derives(st, r[1], nm):
                return True
        return False

    def i_resume(self, st, fr, ins):
        v = self.ev(st, fr, ins['a'][0])
        if isinstance(v, Agg) and isinstance(v.v[0], Ptr):
            st.exc = v.v[0]
        self.resume(st)

    def resume(self, st):
        keep = list(st.frames)
        fr = st.frames.pop()
        for i in fr.allocas:
            st.wobj(i).alive = False
        if not st.frames:
            st.frames = keep[:1]
            raise PathEnd('exception', 'exception of type %s escapes' % st.exch[st.exc.obj][0])
        self.unwind(st)


ENTERED = object()


def short(d):
    return d.split('(')[0]


def _nice(f, single):
    return Fraction(f)


Interp.OPS = {
    'br': Interp.i_br, 'switch': Interp.i_switch, 'ret': Interp.i_ret, 'unreachable': Interp.i_unreachable,
    'alloca': Interp.i_alloca, 'load': Interp.i_load, 'store': Interp.i_store,
    'getelementptr': Interp.i_gep, 'icmp': Interp.i_icmp, 'fcmp': Interp.i_fcmp,
    'select': Interp.i_select, 'extractvalue': Interp.i_extractvalue,
    'insertvalue': Interp.i_insertvalue, 'extractelement': Interp.i_extractelement,
    'insertelement': Interp.i_insertelement, 'shufflevector': Interp.i_shufflevector,
    'call': Interp.i_call, 'invoke': Interp.i_invoke, 'landingpad': Interp.i_landingpad,
    'resume': Interp.i_resume, 'fneg': Interp.i_fneg, 'freeze': Interp.i_freeze,
    'fence': Interp.i_fence, 'atomicrmw': Interp.i_atomicrmw,
}
for _o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
           'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
    Interp.OPS[_o] = Interp.i_bin
for _o in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast',
           'ptrtoint', 'inttoptr', 'addrspacecast'):
    Interp.OPS[_o] = Interp.i_cast
