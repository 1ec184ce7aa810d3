"""Unbounded histories: a most-general client drives an object in a loop; at every loop head the
abstract state is brought into a canonical form and joined with the states already seen there.

The canonical form renumbers the reachable objects in traversal order, drops unreachable memory and
dead registers, and abstracts every ever-growing counter (ids, call numbers) to the order of the values
that are still stored: the exact number of registrations, removals and calls that happened before is
forgotten.  The number of canonical states is finite, so the exploration ends with a fixpoint that covers
client histories of any length.  Bounded are only the entries stored at one time and the depth of nested
calls (the client decides both).
"""
import time
from . import interp as I
from .interp import (Ptr, FnP, UNDEF, Cond, Agg, Fill, Cat, Opq, BW, PathEnd, AnalysisError, ForkN, Fork, toq, simp)
from .poly import Q, ZERO, atom, atom_key, patoms
from .facts import Facts, S_POS, S_NEG, S_ZERO, S_NN, S_NP, Contradiction
from .builtins import cstr

HUGE = 1 << 61
PRE = 'h!'


def cls_of_atom(a):
    k = atom_key(a)
    if k[0] == 'sym' and isinstance(k[1], str) and k[1].startswith(PRE):
        return k[1].split('!')[1]
    return None


def classes(q):
    """counter classes of the value; None if it is made of anything else"""
    try:
        return _cls[q]
    except KeyError:
        pass
    r = set()
    for a in q.atoms():
        c = cls_of_atom(a)
        if c is None:
            r = None
            break
        r.add(c)
    if len(_cls) > 100000:
        _cls.clear()
    _cls[q] = r
    return r


_cls = {}


def sym(c, n):
    return Q.sym('%s%s!%s' % (PRE, c, n), True)


# ---------------------------------------------------------------- liveness
def _regs(x, out):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'v' and isinstance(x[1], int):
            out.add(x[1])
        else:
            for y in x:
                _regs(y, out)


def uses(ins):
    u = ins.get('\0u')
    if u is None:
        s = set()
        for k, v in ins.items():
            if k in ('t', 'ot', 'vt', 'l', 'o', 'r', 's', 'in'):
                continue
            _regs(v, s)
        u = ins['\0u'] = frozenset(s)
    return u


def live_in(fn):
    """block -> registers live at its start (phi results excluded)"""
    m = fn.meta.get('live')
    if m is not None:
        return m
    nb = len(fn.blocks)
    succ = []
    gen, kill, phiu = [], [], []
    for b in fn.blocks:
        g, k = set(), set()
        pu = {}
        for ins in b:
            if ins['o'] == 'phi':
                k.add(ins['r'])
                for pb, v in ins['in']:
                    s = set()
                    _regs(v, s)
                    pu.setdefault(pb, set()).update(s)
                continue
            g |= uses(ins) - k
            if 'r' in ins:
                k.add(ins['r'])
        gen.append(g); kill.append(k); phiu.append(pu)
        t = b[-1]
        s = list(t.get('s') or ())
        if t['o'] == 'switch':
            s = [x[1] for x in t['cases']] + [t['def']]
        succ.append(s)
    li = [set() for _ in range(nb)]
    ch = True
    while ch:
        ch = False
        for i in range(nb - 1, -1, -1):
            o = out_of(i, succ, li, phiu)
            n = gen[i] | (o - kill[i])
            if n != li[i]:
                li[i] = n; ch = True
    m = fn.meta['live'] = (li, succ, phiu)
    return m


def out_of(i, succ, li, phiu):
    o = set()
    for s in succ[i]:
        o |= li[s]
        o |= phiu[s].get(i, set())
    return o


def live_after(fn, bi, ii):
    """registers live behind the call at (bi, ii)"""
    k = ('after', bi, ii)
    r = fn.meta.get(k)
    if r is None:
        li, succ, phiu = live_in(fn)
        blk = fn.blocks[bi]
        live = set(out_of(bi, succ, li, phiu))
        for ins in reversed(blk[ii + 1:]):
            live.discard(ins.get('r'))
            live |= uses(ins)
        live.discard(blk[ii].get('r'))
        r = fn.meta[k] = tuple(sorted(live))
    return r


# ---------------------------------------------------------------- canonical form
class Canon:
    def __init__(self, it, st):
        self.it = it; self.st = st
        self.num = {}          # object id -> canonical index
        self.queue = []
        self.vals = []         # [(class, |v|, sign)] in traversal order
        self.out = []

    def obj(self, i):
        n = self.num.get(i)
        if n is None:
            n = self.num[i] = len(self.num)
            self.queue.append(i)
        return n

    def val(self, v):
        if type(v) is int:
            return v
        if isinstance(v, Ptr):
            if v.obj == 0:
                return ('n', v.off)
            if not isinstance(v.off, int):
                raise AnalysisError('symbolic offset in a joined state')
            return ('p', self.obj(v.obj), v.off)
        if isinstance(v, FnP):
            return ('f', v.name)
        if isinstance(v, Fill):
            return ('z', v.byte)
        if v is UNDEF:
            return 'u'
        if isinstance(v, Q):
            return self.number(v)
        if isinstance(v, Agg):
            return ('a',) + tuple(self.val(x) for x in v.v)
        if isinstance(v, Cat):
            return ('c', v.size) + tuple((o, s, self.val(x)) for o, s, x in v.parts)
        if isinstance(v, Cond):
            return ('b', self.it.concrete_bool(self.st, v))
        return ('o', repr(v))

    def number(self, v):
        f = self.st.facts
        q = f.norm(v)
        s = simp(q)
        cs = classes(v)
        if isinstance(s, int):
            if not cs:
                return s
            # a counter that some comparison pinned to a number stays a counter
        elif not q.is_int():
            return ('o', repr(q))
        if not cs:
            cs = classes(q)
            if cs is None:
                raise AnalysisError('value %r in a joined state' % (q,))
        sg = f.sign(q)
        if sg == S_ZERO and not isinstance(s, int):
            return 0
        if not (sg <= S_NN or sg <= S_NP):
            raise Fork(Cond('sgn', q, S_NN))
        neg = not sg <= S_NN
        if neg:
            q = -q
        self.vals.append((q, neg, frozenset(cs)))
        return ('q', len(self.vals) - 1)

    def run(self, keep_trace=True):
        st, it = self.st, self.it
        out = self.out
        for name, i in sorted(st.globals.items()):
            o = st.mem[i]
            if not o.ro:
                out.append(('g', name, self.obj(i)))
        for fr in st.frames:
            live = live_after(fr.fn, fr.bi, fr.ii)
            out.append((fr.fn.name, fr.bi, fr.ii, tuple(self.val(fr.regs.get(r, UNDEF)) for r in live)))
        out.append(('x', st.uncaught, tuple(self.val(p) for p in st.caught)))
        if st.uncaught and st.exc is not None:
            out.append(self.val(st.exc))
        q = self.queue
        k = 0
        while k < len(q):
            i = q[k]; k += 1
            o = st.mem.get(i)
            if o is None or not o.alive:
                out.append('dead')
                continue
            if o.kind == 'global':
                if o.ro:
                    out.append(('ro', o.ext))
                    continue
            if o.sym or o.lazy:
                raise AnalysisError('object with symbolic contents in a joined state')
            if o.kind == 'global':
                # statically initialised: a missing cell is zero
                out.append(('G', tuple((off, c[0], self.val(c[1])) for off, c in sorted(o.cells.items())
                                       if not (type(c[1]) is int and c[1] == 0 or isinstance(c[1], Fill) or c[1] == I.NULL))))
                continue
            out.append((o.kind, o.size if isinstance(o.size, int) or o.size is None else repr(o.size),
                        tuple((off, c[0], self.val(c[1])) for off, c in sorted(o.cells.items()) if c[1] is not UNDEF)))

    def order(self):
        """class every counter value and order the values of each class"""
        it, st = self.it, self.st
        par = {}

        def find(c):
            while par.setdefault(c, c) != c:
                c = par[c]
            return c
        info = []
        for q, neg, cs in self.vals:
            cs = sorted(find(c) for c in cs)
            for c in cs[1:]:
                par[c] = cs[0]
            info.append(cs[0])
        self.find = find
        groups = {}
        for (q, neg, cs), c in zip(self.vals, info):
            groups.setdefault(find(c), {}).setdefault(q, None)
        f = st.facts
        rank = {}
        spec = []
        for c, qs in sorted(groups.items()):
            seq = []          # distinct values, ascending; each a list of equal terms
            for q in qs:
                lo, hi = 0, len(seq)
                placed = False
                while lo < hi:
                    mid = (lo + hi) // 2
                    d = q - seq[mid][0]
                    s = f.sign(d)
                    if s == S_ZERO:
                        seq[mid].append(q); placed = True
                        break
                    if s == S_POS:
                        lo = mid + 1
                    elif s == S_NEG:
                        hi = mid
                    elif 0 in s:
                        raise Fork(Cond('sgn', d, S_ZERO))
                    else:
                        raise Fork(Cond('sgn', d, S_POS))
                if not placed:
                    seq.insert(lo, [q])
            pos = f.sign(seq[0][0]) == S_POS if seq else True
            spec.append((c, len(seq), pos))
            for n, eqs in enumerate(seq):
                for q in eqs:
                    rank[c, q] = (c, n)
        self.spec = tuple(spec)
        self.ranks = [(rank[find(c), q], neg) for (q, neg, cs), c in zip(self.vals, info)]
        self.rank = rank

    def key(self):
        return hash((tuple(self.out), tuple(self.ranks), self.spec)), hash((tuple(self.ranks), tuple(self.out)[::-1]))

    def rewrite(self):
        """replace the state by its canonical form"""
        it, st = self.it, self.st
        facts, canon = it.hist_basis(self.spec)
        old = st.facts
        rank = self.rank

        def conv(v):
            if type(v) is int or isinstance(v, (Ptr, FnP, Fill)) or v is UNDEF:
                return v
            if isinstance(v, Q):
                q = old.norm(v)
                s = simp(q)
                cs = classes(v)
                if isinstance(s, int) and not cs:
                    return s
                c = self.find(min(cs or classes(q)))
                r = rank.get((c, q))
                if r is not None:
                    return canon[r]
                r = rank.get((c, -q))
                if r is not None:
                    return -canon[r]
                if old.sign(q) == S_ZERO:
                    return 0
                return v
            if isinstance(v, Agg):
                return Agg(conv(x) for x in v.v)
            if isinstance(v, Cat):
                return Cat([(o, s, conv(x)) for o, s, x in v.parts], v.size)
            if isinstance(v, Cond):
                return it.concrete_bool(st, v)
            return v
        mem = {}
        for i in self.num:
            o = st.mem.get(i)
            if o is None:
                continue
            if o.alive and not o.ro and any(not (type(v) is int or isinstance(v, (Ptr, FnP, Fill)))
                                            for _, v in o.cells.values()):
                o = st.wobj(i)
                for off, (s, v) in list(o.cells.items()):
                    if v is UNDEF:
                        del o.cells[off]
                    else:
                        o.cells[off] = (s, conv(v))
            elif not o.alive and o.cells:
                o = st.wobj(i)
                o.cells = {}
            mem[i] = o
        for i in st.globals.values():
            if i not in mem:
                mem[i] = st.mem[i]
        leaks = [o.name for i, o in st.mem.items() if i not in mem and o.alive and o.kind == 'heap'
                 and o.name != 'exception object']
        for fr in st.frames:
            live = live_after(fr.fn, fr.bi, fr.ii)
            fr.regs = {r: conv(fr.regs.get(r, UNDEF)) for r in live}
            for i in fr.allocas:
                if i not in mem and st.mem[i].alive:
                    # nothing can reach it any more, its end is not observable
                    pass
            fr.allocas = [i for i in fr.allocas if i in mem]
        st.mem = mem
        st.exch = {i: e for i, e in st.exch.items() if i in mem}
        if not st.uncaught and not st.caught:
            st.exc = None
        st.facts = facts.clone()
        for k in list(st.ghost):
            if isinstance(k, tuple):
                del st.ghost[k]
        return leaks


# ---------------------------------------------------------------- intrinsics of the client
def install(it):
    it.budget = 400000000
    it.max_states = 40000
    it.end_objects = True
    it.allfails = lambda: it.fails
    it.onfail = lambda: None
    it.joined = 0
    run0 = it.run
    explore0 = it.explore

    def run(fname, init=None, ghost=None):
        import os
        depth = []

        def explore(work, ends, fname, until=None):
            if depth:
                return explore0(work, ends, fname, until)
            depth.append(1)
            explore_parallel(it, work, ends, fname, min(8, os.cpu_count() or 1))
        it.explore = explore
        return run0(fname, init, ghost)
    it.run = run
    it.memo = Table()
    it.fails = 0
    basis = {}

    def hist_basis(spec):
        r = basis.get(spec)
        if r is None:
            f = Facts()
            canon = {}
            for c, n, pos in spec:
                cur = ZERO
                for k in range(n):
                    a = sym(c, 'q%d' % k)
                    f.assume_sign(a, S_NN)
                    cur = cur + a
                    if k or pos:
                        cur = cur + 1
                    canon[(c, k)] = cur
            r = basis[spec] = (f, canon)
        return r
    it.hist_basis = hist_basis

    def choose(it, st, a, ins):
        v = st.ghost.pop('choice', None)
        if v is not None:
            return v
        n = a[0]

        def alt(k):
            def f(s):
                s.ghost['choice'] = k
            return f
        raise ForkN([alt(k) for k in reversed(range(n))])
    it.ext['sa_choose'] = choose

    seen = []

    def join(it, st, a, ins):
        if it.allfails() >= 6:
            raise PathEnd('stop', 'enough violations')
        if it.hurry and it.allfails():         # do not go on for long when there is a violation
            now = time.time()
            if not seen:
                seen.append(now)
            elif now - seen[0] > it.hurry:
                raise PathEnd('stop', 'enough violations')
        c = Canon(it, st)
        c.run()
        c.order()
        k = c.key()
        if k in it.memo:
            raise PathEnd('joined')
        leaks = c.rewrite()
        if leaks and a[0]:
            it.report(st, 'expect', 'nothing is leaked', False, '%d blocks are allocated but unreachable' % len(leaks))
        it.memo.add(k)
        return None
    it.ext['sa_join'] = join

    def op(it, st, a, ins):
        st.ghost['trace'] = (st.ghost.get('trace'), cstr(it, st, a[0]))
        return None
    it.ext['sa_op'] = op

    def widen(it, st, a, ins):
        """the object a[0] is fresh; a[1], a[2] are copies of it that were used and emptied again: the integers that
        differ are counters, their values are arbitrary from now on (counters that moved alike stay equal)"""
        ids = [p.obj for p in a[:3]]
        n = a[3]
        cls = {}
        o = st.wobj(ids[0])
        offs = [p.off for p in a[:3]]
        for off in sorted(o.cells):
            if not offs[0] <= off < offs[0] + n:
                continue
            s, v = o.cells[off]
            w = [it.load(st, Ptr(i, f + off - offs[0]), s, 'i%d' % (8 * s)) for i, f in zip(ids[1:], offs[1:])]
            if isinstance(v, Fill):
                continue
            if type(v) is not int or any(type(x) is not int for x in w):
                continue
            d = tuple(x - v for x in w)
            if not any(d):
                continue
            if d not in cls:
                c = 'ABCDEFGH'[len(cls)]
                q = sym(c, '0')
                st.facts.assume_sign(q, S_NN)
                cls[d] = q
            o.cells[off] = (s, simp(toq(v) + (cls[d] if max(d) > 0 else -cls[d])))
        return None
    it.ext['sa_widen'] = widen

    def may_fail(it, st, a, ins):
        st.ghost['alloc_may_fail'] = a[0]
        return None
    it.ext['sa_alloc_may_fail'] = may_fail

    def anyid(it, st, a, ins):
        """any value of the same kind, 1 <= x <= a[0]"""
        q = a[0]
        if type(q) is int:
            cs = 'Z'
        else:
            cs = sorted(classes(q) or {'Z'})[0]
        st.ghost['nany'] = n = st.ghost.get('nany', 0) + 1
        x = sym(cs, 'x%d' % (n % 8))
        try:
            st.facts.assume_sign(x - 1, S_NN)
            st.facts.assume_sign(toq(q) - x, S_NN)
        except Contradiction:
            raise PathEnd('dropped')
        return x
    it.ext['sa_any'] = anyid

    def life_end(it, st, a, ins):
        p = a[-1]
        if isinstance(p, Ptr) and p.obj in st.mem and p.off == 0:
            o = st.mem[p.obj]
            if o.alive and o.kind == 'stack' and o.cells:
                st.wobj(p.obj).cells = {}
        return None
    it.ext['llvm.lifetime.end.p0'] = life_end
    it.ext['llvm.lifetime.start.p0'] = life_end

    icmp = it.icmp

    def icmp_(st, p, a, b, ty):
        # counters stay far away from the ends of their range
        if isinstance(a, Q) and type(b) is int and abs(b) >= HUGE:
            return icmp(st, p, 0, b, ty)
        if isinstance(b, Q) and type(a) is int and abs(a) >= HUGE:
            return icmp(st, p, a, 0, ty)
        return icmp(st, p, a, b, ty)
    it.icmp = icmp_

    report = it.report

    def report_(st, kind, label, ok, msg=''):
        if not ok:
            t = []
            n = st.ghost.get('trace')
            while n:
                t.append(n[1]); n = n[0]
            msg = '%s\n    history: %s' % (msg, ', '.join(reversed(t)) or '-')
            st.facts.notes = ()
            it.fails += 1
            it.onfail()
        report(st, kind, label, ok, msg)
        if not ok and kind == 'expect':
            raise PathEnd('stop')
    it.report = report_


# ---------------------------------------------------------------- parallel exploration
# Forked workers share the set of canonical states already taken by anyone (a lock-free hash table; a lost
# race only means that a state is explored twice) and take open partitions from a common list.
PARALLEL = True
SLOTS = 1 << 22


class Table:
    def __init__(self):
        import mmap
        self.m = memoryview(mmap.mmap(-1, SLOTS * 8)).cast('q')
        self.n = 0

    def __contains__(self, key):
        m = self.m
        k = key[0] or 1
        i = (key[1] ^ (k >> 7)) % SLOTS
        for _ in range(10000):
            v = m[i]
            if v == k:
                return True
            if v == 0:
                return False
            i = (i + 1) % SLOTS
        raise AnalysisError('table of states is full')

    def add(self, key):
        m = self.m
        k = key[0] or 1
        i = (key[1] ^ (k >> 7)) % SLOTS
        while m[i] != 0 and m[i] != k:
            i = (i + 1) % SLOTS
        m[i] = k
        self.n += 1

    def __len__(self):
        return self.n


def explore_parallel(it, work, ends, fname, jobs):
    import mmap, os, pickle, tempfile, gc
    gc.set_threshold(200000, 20, 100)
    it.explore(work, ends, fname, until=20 * jobs)
    it.joined = it.memo.n
    if not work:
        return
    ctl = memoryview(mmap.mmap(-1, 8 * (16 + len(work)))).cast('q')   # failures per worker; taken partitions
    tmp = tempfile.mkdtemp(prefix='nsa_h_')
    pids = []
    try:
        for c in range(jobs):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    out = worker(it, work, fname, c, jobs, ctl)
                    with open(os.path.join(tmp, str(c)), 'wb') as f:
                        pickle.dump(out, f)
                    code = 0
                finally:
                    os._exit(code)
            pids.append(pid)
        err = None
        for pid in pids:
            _, s = os.waitpid(pid, 0)
            if s:
                err = err or 'a worker process ended abnormally (status %d)' % s
        for c in range(jobs):
            p = os.path.join(tmp, str(c))
            if not os.path.exists(p):
                continue
            with open(p, 'rb') as f:
                o = pickle.load(f)
            for k, v in o['ok'].items():
                it.okcount[k] = it.okcount.get(k, 0) + v
            it.results += o['results']
            it.checks += o['checks']; it.steps += o['steps']; it.forks += o['forks']; it.paths += o['paths']
            it.dropped += o['dropped']; it.fns_seen |= o['fns']; it.joined += o['joined']
            ends += o['ends']
            err = err or o['error']
        if err:
            raise AnalysisError(err)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def worker(it, work, fname, c, jobs, ctl):
    import os, traceback
    base = dict(checks=it.checks, steps=it.steps, forks=it.forks, paths=it.paths, dropped=it.dropped,
                joined=it.joined)
    it.okcount = {}; it.results = []
    it.memo.n = 0
    it.budget //= jobs
    ends = []
    err = None
    it.allfails = lambda: sum(ctl[k] for k in range(jobs))
    it.onfail = lambda: ctl.__setitem__(c, ctl[c] + 1)
    # every worker starts at its own place of the list and skips what others have taken
    try:
        order = list(range(len(work)))
        order = order[c::jobs] + [k for k in order if k % jobs != c]
        for k in order:
            if ctl[16 + k]:
                continue
            ctl[16 + k] = 1
            it.explore([work[k]], ends, fname)
    except AnalysisError as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    return dict(ok=it.okcount, results=it.results, checks=it.checks - base['checks'], steps=it.steps - base['steps'],
                forks=it.forks - base['forks'], paths=it.paths - base['paths'], dropped=it.dropped - base['dropped'],
                joined=it.memo.n, fns=it.fns_seen, ends=ends, error=err)
