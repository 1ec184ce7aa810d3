"""Loader for the line-based JSON produced by tools/irdump."""
import json
import re

_HEAD = re.compile(r'^\{"k":"(\w+)","n":"((?:[^"\\]|\\.)*)"')


class Fn:
    __slots__ = ('name', 'dem', 'ret', 'args', 'file', 'fn', 'line', 'nounwind', 'noreturn',
                 'blocks', 'decl', 'meta', 'dtor', 'nn')

    def __init__(self, d):
        self.name = d['n']; self.dem = d['d']; self.ret = d['ret']; self.args = d['args']
        self.file = d.get('file', ''); self.fn = d.get('fn', ''); self.line = d.get('line', 0)
        self.nounwind = d.get('nounwind', False); self.noreturn = d.get('noreturn', False)
        self.blocks = d.get('blocks'); self.decl = d.get('decl', False)
        self.meta = {}
        self.nn = d.get('nn', ())        # arguments that are references (or this): never null
        self.dtor = d.get('dtor', 0)     # size of the object a destructor ends


class Module:
    def __init__(self, path):
        self.lines = {}
        self.globals = {}
        self.aliases = {}
        self.fns = {}
        with open(path) as f:
            for line in f:
                m = _HEAD.match(line)
                if not m:
                    continue
                k, n = m.group(1), m.group(2)
                if k == 'f':
                    self.lines[n] = line
                elif k == 'g':
                    self.globals[n] = line
                else:
                    d = json.loads(line)
                    self.aliases[d['n']] = d['t']
        self._g = {}

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            l = self.lines.get(name)
            if l is None:
                a = self.aliases.get(name)
                if a is not None and a[0] == 'g':
                    return self.fn(a[1])
                return None
            f = self.fns[name] = Fn(json.loads(l))
        return f

    def has_fn(self, name):
        return name in self.lines

    def glob(self, name):
        g = self._g.get(name)
        if g is None:
            l = self.globals.get(name)
            if l is None:
                return None
            g = self._g[name] = json.loads(l)
        return g
