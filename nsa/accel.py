"""Inductive summaries of loops whose number of rounds is a symbolic quantity.

When a partition comes back to a loop head for the TRIGth time and the number of rounds is not decided by constants, the
effect of a round is guessed from the last two rounds (every changed value is affine in the number of rounds, arrays are
filled element by element by copying or with a constant), and the guess is then proved by interpreting one round from the
generic state "t rounds later".  If it is inductive, the exits of the generic round replace all further rounds; otherwise
nothing is concluded and the loop is followed as before.
"""
from .poly import Q
from .facts import S_NN, S_NP, Contradiction
from . import interp as I

TRIG = 8
STEPS = 60000


class Stop(Exception):
    def __init__(self, kind):
        self.kind = kind


class Decline(Exception):
    pass


def loops(fn):
    """head -> blocks of its natural loop"""
    if 'loops' in fn.meta:
        return fn.meta['loops']
    succ = []
    for b in fn.blocks:
        t = b[-1]
        s = list(t.get('s', ())) + [c[1] for c in t.get('cases', ())]
        if 'def' in t:
            s.append(t['def'])
        succ.append(s)
    pred = [[] for _ in succ]
    for i, s in enumerate(succ):
        for j in s:
            pred[j].append(i)
    out = {}
    seen, onstack = set(), set()
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    onstack.add(0)
    while stack:
        b, it = stack[-1]
        for j in it:
            if j in onstack:
                body = out.setdefault(j, {j})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work += pred[x]
            elif j not in seen:
                seen.add(j)
                onstack.add(j)
                stack.append((j, iter(succ[j])))
                break
        else:
            stack.pop()
            onstack.discard(b)
    fn.meta['loops'] = out
    return out


def hook(it, st, fr):
    """called after every jump"""
    if it.stop is not None:
        d, h, body = it.stop
        n = len(st.frames)
        if n < d:
            raise Stop('exit')
        if n == d:
            if fr.bi == h:
                raise Stop('back')
            if fr.bi not in body:
                raise Stop('exit')
        return
    ls = loops(fr.fn)
    body = ls.get(fr.bi)
    if body is None:
        return
    hits = fr.hits
    n = len(st.facts.notes)
    if fr.prev not in body:
        hits[fr.bi] = (0, n, None, None)
        return
    c, n0, base, prev = hits.get(fr.bi, (-1, 0, None, None))
    if c < 0:
        return
    c += 1
    if c == 1:
        base = st.clone()
    elif c == TRIG - 1:
        prev = st.clone()
    hits[fr.bi] = (c, n0, base, prev)
    if c == TRIG:
        if n == n0:
            hits[fr.bi] = (0, n, None, None)       # the rounds so far were decided by constants
            return
        hits[fr.bi] = (-1, 0, None, None)
        try:
            states = accelerate(it, base, prev, st, fr, body)
        except Decline as e:
            it.declined += 1
            if it.trace_accel:
                print('   loop in %s not summarised: %s' % (fr.fn.dem[:90], e), flush=True)
            return
        it.accelerated += 1
        raise I.Replaced(states)


def delta(a, b, facts):
    """change per round, None for no change"""
    if type(a) is type(b) and a == b:
        return None
    if isinstance(a, I.Ptr) and isinstance(b, I.Ptr):
        if a.obj != b.obj:
            raise Decline('pointer into another object')
        a, b = a.off, b.off
    if not isinstance(a, (int, Q)) or not isinstance(b, (int, Q)):
        raise Decline('value of another kind changes')
    d = facts.norm(I.toq(b) - I.toq(a))
    if not d.num and not d.den:
        return None
    if not d.is_const() or d.cval() != int(d.cval()):
        raise Decline('change %r is not constant' % (d,))
    return int(d.cval())


def later(v, d, t):
    """v after t more rounds of change d"""
    if isinstance(v, I.Ptr):
        return I.Ptr(v.obj, I.simp(I.toq(v.off) + t * d))
    return I.simp(I.toq(v) + t * d)


def same(a, b, facts):
    if type(a) is type(b) and a == b:
        return True
    if isinstance(a, I.Ptr) and isinstance(b, I.Ptr):
        if a.obj != b.obj:
            return False
        a, b = a.off, b.off
    if isinstance(a, (int, Q)) and isinstance(b, (int, Q)):
        d = facts.norm(I.toq(a) - I.toq(b))
        return d.is_const() and d.cval() == 0
    return False


def cellmap(o):
    m = dict(o.cells)
    m.update(o.sym)
    return m


def accelerate(it, s0, s1, s2, fr, body):
    depth, head = len(s2.frames), fr.bi
    if s1.ghost != s2.ghost or s1.caught != s2.caught or s1.uncaught != s2.uncaught or s1.exc != s2.exc or s1.exch != s2.exch:
        raise Decline('ghost state changes')
    # affine registers
    f1 = s1.frames[-1]
    regs = {}
    for ins in fr.fn.blocks[head]:
        if ins['o'] != 'phi':
            break
        r = ins['r']
        d = delta(f1.regs[r], fr.regs[r], s2.facts)
        if d is not None:
            regs[r] = d
    # memory
    cells, arrays, scratch = {}, set(), set()
    for i, o in s2.mem.items():
        p = s1.mem.get(i)
        if p is o:
            continue
        if p is None:
            if o.alive and o.kind not in ('global', 'snapshot'):
                raise Decline('the loop allocates')
            continue
        if not o.alive and not p.alive:
            continue
        if o.alive != p.alive or o.lazy is not p.lazy or o.size is not p.size and o.size != p.size:
            raise Decline('lifetime or layout changes')
        a, b = cellmap(p), cellmap(o)
        for k in b:
            if k not in a:
                arrays.add(i)
            elif a[k] is not b[k] and (a[k][0] != b[k][0] or not (type(a[k][1]) is type(b[k][1]) and a[k][1] == b[k][1])):
                if a[k][0] != b[k][0]:
                    raise Decline('cell changes its size')
                try:
                    d = delta(a[k][1], b[k][1], s2.facts)
                    if d is not None:
                        cells[i, k] = d
                except Decline:
                    scratch.add((i, k))
        if any(k not in b for k in a):
            raise Decline('cells disappear')
    # from here on relative to the first time the loop came back to its head
    s2 = s0
    fr = s2.frames[-1]
    fr.hits[head] = (-1, 0, None, None)
    for i, k in list(cells) + list(scratch):
        if k not in cellmap(s2.mem[i]):
            raise Decline('cell appears later')
    if not regs and not cells:
        raise Decline('nothing advances')
    t = Q.fresh('rounds', True)

    def generic(copies, invs):
        """the state t rounds after s2"""
        g = s2.clone()
        try:
            g.facts.assume_sign(t, S_NN)
            for q, m in invs:
                g.facts.assume_sign(q, m)
        except Contradiction:
            raise Decline('contradiction')
        gf = g.frames[-1]
        for r, d in regs.items():
            gf.regs[r] = later(gf.regs[r], d, t)
        for (i, k), d in cells.items():
            o = g.wobj(i)
            m = o.cells if k in o.cells else o.sym
            m[k] = (m[k][0], later(m[k][1], d, t))
        for i, k in scratch:
            o = g.wobj(i)
            m = o.cells if k in o.cells else o.sym
            m[k] = (m[k][0], I.Opq(('loop', i, repr(k), repr(t))))
        for i, (off, w, d, src, soff) in copies.items():
            back = I.toq(0) if d > 0 else (t - 1) * w
            it.overlay(g, I.Ptr(i, I.simp(I.toq(off) - back)), t * w, None if src is None else it.snapshot(g, src), I.simp(I.toq(soff) - back))
        return g

    def round_(g, lenient=False):
        """one round: states back at the head, states that left, leaves decided in it, loads"""
        backs, exits, leaves = [], [], []
        nres, ok, chk = len(it.results), dict(it.okcount), it.checks
        it.stop = (depth, head, body)
        it.loadlog = []
        work = [g]
        n0 = it.steps
        try:
            while work:
                s = work.pop()
                try:
                    it.loop(s)
                except Stop as e:
                    (backs if e.kind == 'back' else exits).append(s)
                except I.Fork as f:
                    leaves.append(f.leaf)
                    for truth in (False, True):
                        c = s.clone()
                        try:
                            I.assume(c.facts, f.leaf, truth)
                        except Contradiction:
                            continue
                        work.append(c)
                except I.ForkN as f:
                    for alt in f.alts:
                        c = s.clone()
                        try:
                            alt(c)
                        except Contradiction:
                            continue
                        work.append(c)
                except Contradiction:
                    pass
                except I.PathEnd as e:
                    if lenient or e.kind == 'dropped':
                        continue
                    raise Decline('round ends: %s %s' % (e.kind, e.msg))
                except (I.AnalysisError, I.Blowup) as e:
                    if lenient:
                        continue
                    raise Decline(str(e))
                if it.steps - n0 > STEPS or len(backs) + len(exits) + len(work) > 60:
                    raise Decline('round is too long')
            if len(it.results) != nres and not lenient:
                raise Decline('obligation not met in the generic round')
            log = it.loadlog
        except Decline:
            del it.results[nres:]
            it.okcount = ok
            it.checks = chk
            raise
        finally:
            it.stop = None
            it.loadlog = None
        return backs, exits, leaves, log

    def undo(f):
        nres, ok, chk = len(it.results), dict(it.okcount), it.checks
        r = f()
        del it.results[nres:]
        it.okcount = ok
        it.checks = chk
        return r

    at = t.as_atom()

    def at0(q):
        return s2.facts.norm(q.subst({at: Q.const(0)}))

    # -- invariants: bounds that the conditions of the round compare with, if they hold here
    invs = []
    backs, exits, leaves, log = undo(lambda: round_(generic({}, []), True))
    for l in leaves:
        if l.op != 'sgn':
            continue
        q = I.toq(l.a)
        if at not in q.atoms():
            continue
        if len(q.atoms()) == 1:
            raise Decline('number of rounds is bounded by a constant')
        for m in (S_NN, S_NP):
            try:
                if I.ceval(it.cfold(I.Cond('sgn', at0(q), m)), s2.facts) is True and (q, m) not in invs:
                    invs.append((q, m))
            except I.AnalysisError:
                pass
    # -- arrays: what a round stores, and where from
    copies = {}
    for i in arrays:
        if not backs:
            raise Decline('no way back')
        found = None
        for b in backs:
            old, new = cellmap(s2.mem[i]), cellmap(b.mem[i])
            extra = [k for k in new if k not in old]
            if len(extra) != 1:
                raise Decline('%d elements of an array are written' % len(extra))
            off, (w, v) = extra[0], new[extra[0]]
            q = I.toq(off)
            d = 1 if same(q, at0(q) + t * w, b.facts) else -1
            if not same(q, at0(q) + t * w * d, b.facts):
                raise Decline('stride of the array')
            src = None
            if v == 0 and isinstance(v, int):
                src = (None, 0)
            else:
                for p, sz, lv in log:
                    if sz == w and type(lv) is type(v) and lv == v and p.obj != i and p.obj not in arrays and not any(p.obj == c[0] for c in cells) \
                            and isinstance(p.off, (int, Q)):
                        sq = I.toq(p.off)
                        if same(sq, at0(sq) + t * w * d, b.facts):
                            src = (p.obj, I.simp(at0(sq)))
                            break
            if src is None:
                raise Decline('stored value is not a copied element')
            f = (I.simp(at0(q)), w, d, src[0], src[1])
            if found is not None and found != f:
                raise Decline('different stores')
            found = f
        copies[i] = found
    if any(i in copies for i, _ in list(cells) + list(scratch)):
        raise Decline('array next to changing cells')

    # -- prove
    while True:
        g = generic(copies, invs)
        ref = g.clone()
        backs, exits, leaves, log = round_(g)
        bad = set()
        for b in backs:
            nxt = {at: t + 1}
            bf = b.frames[-1]
            rf = ref.frames[-1]
            for ins in fr.fn.blocks[head]:
                if ins['o'] != 'phi':
                    break
                r = ins['r']
                want = rf.regs[r]
                if r in regs:
                    want = later(fr.regs[r], regs[r], t + 1)
                if not same(bf.regs[r], want, b.facts):
                    raise Decline('register is not affine')
            if b.ghost != s2.ghost or b.caught != s2.caught or b.uncaught != s2.uncaught or b.exc != s2.exc or b.exch != s2.exch:
                raise Decline('ghost state changes')
            for i, o in b.mem.items():
                p = ref.mem.get(i)
                if p is o:
                    continue
                if p is None:
                    if o.alive and o.kind not in ('global', 'snapshot'):
                        raise Decline('the round allocates')
                    continue
                if not o.alive and not p.alive:
                    continue
                if o.alive != p.alive or o.lazy is not p.lazy:
                    raise Decline('lifetime changes in the round')
                a, n = cellmap(p), cellmap(o)
                for k in a:
                    if k not in n:
                        raise Decline('cell disappears in the round')
                    if (i, k) in scratch:
                        if n[k][0] != a[k][0]:
                            raise Decline('scratch size')
                    elif (i, k) in cells:
                        w = later(cellmap(s2.mem[i])[k][1], cells[i, k], t + 1)
                        if n[k][0] != a[k][0] or not same(n[k][1], w, b.facts):
                            raise Decline('cell is not affine')
                    elif n[k] is not a[k] and (n[k][0] != a[k][0] or not same(n[k][1], a[k][1], b.facts)):
                        raise Decline('cell changes in the round')
                new = [k for k in n if k not in a]
                if i not in copies:
                    if new:
                        raise Decline('unexpected store')
                    continue
                off, w, d, src, soff = copies[i]
                if len(new) != 1 or not same(I.toq(new[0]), I.toq(off) + t * w * d, b.facts) or n[new[0]][0] != w:
                    raise Decline('array store')
                v = n[new[0]][1]
                if src is None:
                    if v != 0 or not isinstance(v, int):
                        raise Decline('array value')
                else:
                    if ref.mem[src] is not b.mem[src] and cellmap(ref.mem[src]) != cellmap(b.mem[src]):
                        raise Decline('source changes')
                    if not any(sz == w and p.obj == src and type(lv) is type(v) and lv == v and
                               same(I.toq(p.off), I.toq(soff) + t * w * d, b.facts) for p, sz, lv in log):
                        raise Decline('array value')
            for i in copies:
                if b.mem[i] is ref.mem[i]:
                    raise Decline('a round without a store')
            for n_, (q, m) in enumerate(invs):
                if I.ceval(it.cfold(I.Cond('sgn', b.facts.norm(q.subst({at: t + 1})), m)), b.facts) is not True:
                    bad.add(n_)
        if not bad:
            return exits
        invs = [x for n_, x in enumerate(invs) if n_ not in bad]
