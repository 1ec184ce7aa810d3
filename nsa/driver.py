"""Builds witnesses against /repo's current tree, runs the analyses, writes evidence."""
import glob
import hashlib
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NSA_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
WIT = os.path.join(HERE, 'witness')
JOBS = 8


class Broken(Exception):
    """the analysis cannot give a verdict"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_tool(name, flags, libs):
    src = os.path.join(HERE, 'tools', name + '.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    exe = os.path.join(BUILD, '%s-%s' % (name, h))
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    cxx = [f for f in sh(['llvm-config', '--cxxflags']).stdout.split() if not f.startswith('-std=')]
    ld = sh(['llvm-config', '--ldflags', '--libs']).stdout.split()
    tmp = exe + '.%d' % os.getpid()
    r = sh(['clang++', '-std=c++17', src, '-o', tmp] + cxx + ['-fno-exceptions'] + flags + libs + ld)
    if r.returncode:
        raise Broken('cannot build %s: %s' % (name, r.stderr[:2000]))
    os.replace(tmp, exe)
    return exe


def ensure_irdump():
    return build_tool('irdump', ['-O1'], [])


def ensure_effects():
    return build_tool('effects', ['-O0', '-fno-rtti'], ['-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1'])


def directives(path):
    d = {'min': 1, 'flags': [], 'opts': {}}
    for line in open(path):
        m = re.match(r'//\s*sa:\s*(.*)', line)
        if m:
            for kv in m.group(1).split():
                k, _, v = kv.partition('=')
                if k == 'min':
                    d['min'] = int(v)
                elif k == 'flag':
                    d['flags'].append(v)
                else:
                    d['opts'][k] = v or True
    return d


CXXFLAGS = ['-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-ffp-contract=off',
            '-fno-discard-value-names', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w']


class CompileError(Exception):
    pass


def build_ir(cpp, work, extra, o1=False):
    base = os.path.join(work, os.path.basename(cpp))
    ll, opt, js = base + '.bc', base + '.opt.bc', base + '.json'
    flags = list(CXXFLAGS)
    if o1:      # keeps the lifetime markers of local objects; no optimisation is run on top
        flags = ['-O1' if f == '-O0' else '-disable-llvm-passes' if f == '-disable-O0-optnone' else f for f in flags]
    r = sh(['clang++'] + flags + extra + ['-I', REPO, '-I', WIT, '-emit-llvm', '-c', cpp, '-o', ll])
    if r.returncode:
        raise CompileError(r.stderr)
    r = sh(['opt', '-passes=mem2reg', ll, '-o', opt])
    if r.returncode:
        raise Broken('opt: ' + r.stderr[:500])
    with open(js, 'w') as f:
        r = subprocess.run([ensure_irdump(), opt] + (['-inline'] if o1 else []), stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise Broken('irdump: ' + r.stderr[:500])
    return js


_MOD = None
_SETUP = None
_HURRY = 0         # seconds to go on with an obligation after its first violation (0: no limit)


def _worker_init(js, setup):
    global _MOD, _SETUP
    from . import ir
    _MOD = ir.Module(js)
    _SETUP = setup


def load_setup(name):
    if not name:
        return None
    import importlib
    return importlib.import_module('nsa.' + name)


def make_interp(mod, setup):
    from . import interp
    sys.setrecursionlimit(10000)
    it = interp.Interp(mod)
    it.hurry = _HURRY
    m = load_setup(setup)
    if m is not None:
        m.install(it)
    else:
        from . import accel
        it.accel = accel
        it.trace_accel = bool(os.environ.get('NSA_TRACE'))
    return it


def _run_one(name):
    t0 = time.time()
    from . import interp, poly
    poly.reset()
    out = {'name': name, 'results': [], 'ok': {}, 'error': None}
    it = None
    try:
        it = make_interp(_MOD, _SETUP)
        init = initial_state(it)
        ends = it.run(name, init=init)
        out['fns'] = sorted(f for f in it.fns_seen if True)
        out['repo_fns'] = sorted({'%s' % _MOD.fn(f).dem for f in it.fns_seen
                                  if '/nytl/' in _MOD.fn(f).file and not _MOD.fn(f).file.startswith(HERE)})
        out['paths'] = it.paths; out['forks'] = it.forks; out['dropped'] = it.dropped
        out['steps'] = it.steps
        kinds = {}
        for k, _ in ends:
            kinds[k] = kinds.get(k, 0) + 1
        out['ends'] = kinds
    except interp.AnalysisError as e:
        out['error'] = str(e)
    except Exception:
        out['error'] = traceback.format_exc()
    if it is not None:
        out['results'] = it.results
        out['ok'] = it.okcount
    out['joined'] = getattr(it, 'joined', 0)
    out['s'] = time.time() - t0
    return out


def initial_state(it):
    """static initialisers of the translation unit (constants of nytl, not iostream)"""
    from . import interp
    st = interp.State()
    g = it.mod.glob('llvm.global_ctors')
    if g is None or 'init' not in g:
        return st
    for e in g['init'][2]:
        f = e[2][1]
        if f[0] != 'g':
            continue
        st2 = st.clone()
        fn = it.mod.fn(f[1])
        it.enter(st2, fn, [], None, None)
        try:
            it.loop(st2)
        except interp.PathEnd as p:
            if p.kind != 'return':
                raise interp.AnalysisError('static initialiser: %s %s' % (p.kind, p.msg))
        except interp.Fork:
            raise interp.AnalysisError('static initialiser is not constant')
        st2.frames = []
        st = st2
    it.results.clear()
    it.okcount.clear()
    return st


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []       # dict(key, text)
        self.obligations = 0
        self.discharged = 0
        self.fns = set()
        self.paths = 0
        self.joined = 0
        self.forks = 0
        self.steps = 0
        self.ob_names = []
        self.notes = []
        self.assumptions = []
        self.errors = []
        self.samples = []
        self.tus = []

    def violate(self, key, text):
        for v in self.violations:
            if v['key'] == key:
                v['count'] += 1
                return
        self.violations.append({'key': key, 'text': text, 'count': 1})


def rel(f):
    f = os.path.normpath(f)
    return os.path.relpath(f, REPO) if f.startswith(REPO + '/') else f


def fmt_where(w):
    if not w:
        return '?'
    inner, chain = w
    s = '%s:%s in %s' % (rel(inner[1]), inner[2], inner[0])
    return s


def run_absint(res, cpp, work, only=None, verbose=False, tier='quick'):
    d = directives(cpp)
    name = os.path.basename(cpp)
    extra = list(d['flags']) + (['-DTHOROUGH'] if tier == 'thorough' else [])
    try:
        js = build_ir(cpp, work, extra, d['opts'].get('build') == 'o1')
    except CompileError as e:
        header_check(cpp, work)
        first = [l for l in str(e).splitlines() if 'error' in l][:3]
        res.obligations += 1
        res.violate('%s:compile' % name, 'the interface this property is stated on no longer compiles:\n    ' +
                    '\n    '.join(first))
        return
    from . import ir
    mod = ir.Module(js)
    obs = sorted(n for n in mod.lines if n.startswith('ob_'))
    if only:
        obs = [o for o in obs if only in o]
    res.tus.append(name)
    setup = d['opts'].get('setup')
    count = 0
    if getattr(load_setup(setup), 'PARALLEL', False):       # one obligation after the other, each on all cores
        import contextlib
        _worker_init(js, setup)
        cm, outs = contextlib.nullcontext(), map(_run_one, obs)
    else:
        cm = multiprocessing.Pool(min(JOBS, max(1, len(obs))), _worker_init, (js, setup))
        outs = cm.imap_unordered(_run_one, obs)
    with cm:
        for out in outs:
            n = sum(out['ok'].values())
            res.discharged += n
            for kind, label, ok, msg, w, notes in out['results']:
                n += 1
                if not ok:
                    key = '%s:%s:%s' % (name, out['name'][3:], label)
                    part = ''
                    if notes:
                        part = '\n    where ' + ' and '.join(notes[-8:])
                    chain = ''
                    if w:
                        chain = '\n    via ' + ' <- '.join('%s (%s:%s)' % (c[0][:90], rel(c[1]), c[2]) for c in w[1][:6])
                    res.violate(key, '%s: [%s] %s\n    at %s%s%s' % (out['name'][3:], label, msg, fmt_where(w), part, chain))
            res.obligations += n
            count += n
            if out['error']:
                # violations found before the analysis gave up stand; otherwise there is no verdict
                res.errors.append('%s: %s' % (out['name'], out['error']))
                continue
            if n == 0:
                res.errors.append('%s: no obligation was reached (vacuous)' % out['name'])
            res.fns |= set(out.get('repo_fns', ()))
            res.joined += out['joined']
            res.paths += out['paths']; res.forks += out['forks']; res.steps += out['steps']
            res.ob_names.append(out['name'][3:])
            if verbose:
                print('   %-40s %5d checks %4d paths %6d steps %.1fs %s%s' % (
                    out['name'], n, out['paths'], out['steps'], out['s'], out['ends'],
                    ' %d joined states' % out['joined'] if out['joined'] else ''))
            if len(res.samples) < 4:
                labs = sorted(out['ok'])
                res.samples.append('%s/%s: %d obligations on %d partitions, e.g. %s' % (
                    name, out['name'][3:], n, out['paths'], '; '.join(labs[:3])))
    if not only and count < d['min'] and not res.violations and not res.errors:
        res.errors.append('%s: only %d obligations (at least %d confirmed by hand)' % (name, count, d['min']))


def header_check(cpp, work):
    """a witness that does not compile is only a verdict if the headers themselves do"""
    incs = re.findall(r'^#include (<nytl/[^>]+>)', open(cpp).read(), re.M)
    t = os.path.join(work, 'hdr_%s.cpp' % os.path.basename(cpp))
    with open(t, 'w') as f:
        for i in incs:
            f.write('#include %s\n' % i)
        f.write('int main() {}\n')
    r = sh(['clang++', '-std=c++17', '-include', 'cstdint', '-fsyntax-only', '-w', '-I', REPO, '-I', WIT, t])
    if r.returncode:
        raise Broken('headers do not compile: ' + r.stderr[:600])


def split_types(cpp):
    base, cases, cur = [], [], None
    for n, line in enumerate(open(cpp), 1):
        m = re.match(r'//@(fail|pass)\s+(\S+)\s*(.*)', line)
        if m:
            cur = [m.group(1), m.group(2), m.group(3), [], n]
            base.append('\n')
            continue
        if re.match(r'//@end', line):
            cases.append(cur)
            cur = None
            base.append('\n')
            continue
        if cur is not None:
            cur[3].append(line)
            base.append('\n')
        else:
            base.append(line)
    return base, cases


def run_types(res, cpp, work):
    """type-level witness: static assertions and must-(not-)compile cases, two front ends"""
    d = directives(cpp)
    name = os.path.basename(cpp)
    res.tus.append(name)
    base, cases = split_types(cpp)
    text = ''.join(base)
    nas = len(re.findall(r'\bstatic_assert\s*\(|\bREQUIRE_T\s*\(|\bREQUIRE_NOT\s*\(', text))
    jobs = []
    comps = (['clang++', '-ferror-limit=0'], ['g++', '-fmax-errors=0'])
    for c in comps:
        t = os.path.join(work, '%s.base.cpp' % name)
        open(t, 'w').write('#line 1 "%s"\n' % cpp + text)
        jobs.append((c, t, None))
    for k, (kind, cname, desc, lines, ln) in enumerate(cases):
        t = os.path.join(work, '%s.case%d.cpp' % (name, k))
        open(t, 'w').write('#line 1 "%s"\n' % cpp + text + '\n#line %d "%s"\n' % (ln + 1, cpp) + ''.join(lines))
        for c in comps:
            jobs.append((c, t, k))
    run_t = d['opts'].get('std', 'c++17')

    def go(j):
        c, t, k = j
        return j, sh(c + ['-std=' + run_t, '-fsyntax-only', '-w', '-I', REPO, '-I', WIT] + d['flags'] + [t])
    from concurrent.futures import ThreadPoolExecutor
    count = 0
    with ThreadPoolExecutor(JOBS) as ex:
        outs = list(ex.map(go, jobs))
    basefail = False
    for (c, t, k), r in outs:
        if k is None:
            res.obligations += nas
            count += nas
            if r.returncode == 0:
                res.discharged += nas
            else:
                basefail = True
                header_check(cpp, work)
                errs = [l for l in r.stderr.splitlines() if 'error' in l]
                seen = 0
                for l in errs[:6]:
                    seen += 1
                    m = re.match(r'([^:]+):(\d+):', l)
                    key = '%s:%s' % (name, re.sub(r'^[^:]*:\d+:\d+: ', '', l)[:120])
                    res.violate(key, '%s: %s' % (c[0], l[:500]))
                res.discharged += max(0, nas - len(errs))
                if not errs:
                    raise Broken('%s: %s' % (c[0], r.stderr[:400]))
    if not basefail:
        for (c, t, k), r in outs:
            if k is None:
                continue
            kind, cname, desc, lines, ln = cases[k]
            res.obligations += 1
            count += 1
            ok = (r.returncode != 0) == (kind == 'fail')
            if ok:
                res.discharged += 1
                continue
            if kind == 'fail':
                res.violate('%s:%s' % (name, cname), '%s accepts a program that must not compile (%s): %s\n%s' % (
                    c[0], cname, desc, ''.join('      ' + l for l in lines)))
            else:
                errs = [l for l in r.stderr.splitlines() if 'error' in l][:2]
                res.violate('%s:%s' % (name, cname), '%s rejects a program that must compile (%s): %s\n    %s' % (
                    c[0], cname, desc, '\n    '.join(errs)))
    res.ob_names.append('%s: %d static assertions, %d must-compile/must-fail programs' % (name, nas, len(cases)))
    if len(res.samples) < 6:
        for kind, cname, desc, lines, ln in cases[:2]:
            res.samples.append('%s %s: %s' % (kind, cname, desc))
        if not cases:
            m = re.findall(r'(?:static_assert|REQUIRE_T|REQUIRE_NOT)\s*\(.*', text)[:2]
            res.samples += m
    if count < d['min'] and not res.violations:
        res.errors.append('%s: only %d obligations (at least %d confirmed)' % (name, count, d['min']))


def known_findings():
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key="([^"]*)"\s*(.*)', l)
            if m:
                out.append(m.groups())
    return out


def check(pid, spec, tier, seed, verbose=False, only=None):
    t0 = time.time()
    res = Result(pid)
    work = tempfile.mkdtemp(prefix='nsa_%s_' % pid)
    global _HURRY
    _HURRY = 0 if any(k[0] == pid for k in known_findings()) else 15
    status = 0
    try:
        if not os.path.isdir(os.path.join(REPO, 'nytl')):
            raise Broken('no nytl sources in ' + REPO)
        from . import poly
        for kind, arg in spec['steps']:
            if kind == 'absint':
                run_absint(res, os.path.join(WIT, arg), work, only, verbose, tier)
            elif kind == 'types':
                if not only:
                    run_types(res, os.path.join(WIT, arg), work)
            else:
                f = load_setup(kind)
                f.check(res, arg, work)
    except Broken as e:
        res.errors.append(str(e))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    known = [k for k in known_findings() if k[0] == pid]
    new = []
    for v in res.violations:
        for _, key, txt in known:
            if key == v['key']:
                print('KNOWN-FINDING: property=%s %s' % (pid, txt or key))
                break
        else:
            new.append(v)
    print('%s: %d obligations, %d discharged; %d trace partitions, %d nytl functions analysed in %s (%.1f s)' % (
        pid, res.obligations, res.discharged, res.paths, len(res.fns), ', '.join(res.tus), wall))
    for e in res.errors:
        print('ANALYSIS-ERROR property=%s %s' % (pid, e))
    os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
    rp = os.path.join(BUILD, 'replay', pid + '.json')
    if new:
        json.dump([dict(v) for v in new], open(rp, 'w'), indent=1, default=str)
        for v in new[:12]:
            print('  ' + v['text'] + ('' if v['count'] == 1 else '   (%d partitions)' % v['count']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        status = 1
    elif res.errors:
        status = 2
    elif res.obligations == 0:
        print('ANALYSIS-ERROR property=%s nothing was analysed' % pid)
        status = 2
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'other'),
        'coverage': {
            'explanation': spec['technique'] + '. Rule: ' + spec['rule'],
            'rule': spec['rule'],
            'obligations': res.obligations, 'discharged': res.discharged,
            'obligation_functions': sorted(res.ob_names),
            'trace_partitions': res.paths, 'joined_states': res.joined, 'partition_splits': res.forks, 'ir_steps': res.steps,
            'nytl_functions': sorted(res.fns), 'nytl_function_count': len(res.fns),
            'witness_units': res.tus, 'samples': res.samples or ['-'],
            'errors': res.errors,
        },
        'assumptions': spec.get('assumptions', []) + res.assumptions,
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    return status
