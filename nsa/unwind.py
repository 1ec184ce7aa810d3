"""E01: no function that promises not to throw can be reached by an exception.

For every function of the compiled unit: can an exception leave it (least fixed
point over the call graph, unwind edges included)? Then, for every function of
the library that may not throw: can control reach, along an unwind edge of a
call that may throw, the point where the runtime ends the program?"""
import os
from . import ir
from .driver import REPO, WIT, Broken, build_ir, directives, CompileError, rel

TERMINATE = ('__clang_call_terminate', '_ZSt9terminatev')
# functions of the runtime that are not marked but do not throw in the situations of this check
QUIET = {'__cxa_end_catch', '__cxa_begin_catch', '__cxa_free_exception', '__cxa_allocate_exception', '__assert_fail', 'abort'}
# writing to std::cerr does not throw as long as the program does not ask for it (ios::exceptions)
STREAM = ('std::basic_ostream<', 'std::ostream', 'std::operator<<')


class Unwind:
    def __init__(self, mod):
        self.mod = mod
        self.fns = {n: mod.fn(n) for n in mod.lines}
        self.throws = {}        # name -> reason
        self.solve()

    def callee(self, ins):
        f = ins.get('f')
        if f and f[0] == 'g':
            n = f[1]
            a = self.mod.aliases.get(n)
            if a is not None and a[0] == 'g':
                n = a[1]
            return n
        return None

    def may(self, ins):
        """reason why this call may throw, or None"""
        if ins.get('nt') or ins.get('intr'):
            return None
        n = self.callee(ins)
        if n is None:
            return 'a call of a function that is only known at runtime'
        if n in QUIET:
            return None
        f = self.fns.get(n)
        if f is None:
            return n
        if f.nounwind:
            return None
        if f.decl:
            if f.dem.startswith(STREAM) or 'operator<<' in f.dem.split('(')[0]:
                return None
            return f.dem
        if n in self.throws:
            return f.dem + ' <- ' + self.throws[n]
        return None

    def walk(self, f, targets):
        """instructions in `targets` that can be reached; unwind edges only of calls that may throw.
        returns [(instruction, calls that throw on the way)]"""
        hit = []
        seen = {}
        todo = [(0, ())]
        while todo:
            b, via = todo.pop()
            if b in seen:
                continue
            seen[b] = via
            for i in f.blocks[b]:
                o = i['o']
                if o == 'call':
                    n = self.callee(i)
                    if n in targets:
                        hit.append((i, via))
                        break
                    if 'escape' in targets:
                        r = self.may(i)
                        if r:
                            hit.append((i, via + (r,)))
                elif o == 'resume':
                    if 'resume' in targets:
                        hit.append((i, via))
                elif o == 'invoke':
                    todo.append((i['s'][0], via))
                    r = self.may(i)
                    if r:
                        todo.append((i['s'][1], via + ((r, i.get('l')),)))
                elif 's' in i:
                    todo += [(s, via) for s in i['s']]
        return hit

    def solve(self):
        work = [(n, f) for n, f in self.fns.items() if not f.decl and not f.nounwind]
        changed = True
        while changed:
            changed = False
            for n, f in work:
                if n in self.throws:
                    continue
                h = self.walk(f, ('escape', 'resume'))
                if h:
                    i, via = h[0]
                    r = via[-1] if via else '?'
                    self.throws[n] = r[0] if isinstance(r, tuple) else r
                    changed = True

    def terminates(self, f):
        out = []
        for i, via in self.walk(f, TERMINATE + ('resume',)):
            out.append(via[-1] if via else ('std::terminate', i.get('l')))
        return out


def check(res, arg, work):
    cpp = os.path.join(WIT, arg)
    d = directives(cpp)
    try:
        js = build_ir(cpp, work, d['flags'])
    except CompileError as e:
        raise Broken('%s does not compile: %s' % (arg, str(e)[:600]))
    u = Unwind(ir.Module(js))
    root = os.path.join(REPO, 'nytl')
    n = edges = 0
    for name, f in sorted(u.fns.items(), key=lambda x: x[1].dem):
        if f.decl or not f.file or not ('/' + os.path.normpath(f.file).lstrip('/')).startswith(root + '/'):
            continue
        calls = [i for b in f.blocks for i in b if i['o'] in ('call', 'invoke')]
        res.fns.add(f.dem)
        if not f.nounwind:
            continue
        n += 1
        edges += len(calls)
        res.obligations += 1
        bad = u.terminates(f)
        if not bad:
            res.discharged += 1
            res.ob_names.append(f.dem)
            continue
        for why, loc in bad[:1]:
            at = '%s:%d' % (rel(loc[0]), loc[1]) if loc else '%s:%d' % (rel(f.file), f.line)
            res.violate('%s:%s' % (f.dem, why[:80]), '%s is not allowed to throw, but at %s it calls something that may: %s' % (f.dem, at, why))
    res.tus.append(arg)
    res.notes.append('%d functions that may not throw, %d calls in them; %d of %d functions of the unit may throw' % (n, edges, len(u.throws), len(u.fns)))
    res.samples.append(res.notes[-1])
    if n < d['min'] and not res.violations:
        res.errors.append('%s: only %d functions (at least %d confirmed by hand)' % (arg, n, d['min']))
