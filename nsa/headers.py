"""G01: every header is self-contained, and can be included by any number of units of a program."""
import os
import re
from concurrent.futures import ThreadPoolExecutor
from .driver import REPO, JOBS, Broken, sh, rel


def check(res, arg, work):
    root = os.path.join(REPO, 'nytl')
    hdrs = []
    for d, _, fs in os.walk(root):
        hdrs += [os.path.relpath(os.path.join(d, f), REPO) for f in fs if f.endswith('.hpp')]
    hdrs.sort()
    if len(hdrs) < 20:
        raise Broken('only %d headers found' % len(hdrs))
    units = [('alone', [h]) for h in hdrs]
    units += [('twice', [h, h]) for h in hdrs]
    units += [('after the forward declarations', ['nytl/fwd.hpp', h]) for h in hdrs]
    units += [('before the forward declarations', [h, 'nytl/fwd.hpp']) for h in hdrs]
    units += [('all together', hdrs), ('all together, reversed', hdrs[::-1])]
    jobs = []
    for n, (how, hs) in enumerate(units):
        t = os.path.join(work, 'unit%d.cpp' % n)
        with open(t, 'w') as f:
            f.writelines('#include <%s>\n' % h for h in hs)
        for cxx in ('clang++', 'g++'):
            jobs.append((how, hs, cxx, t))

    def go(j):
        return j, sh([j[2], '-std=c++17', '-fsyntax-only', '-w', '-I', REPO, j[3]])
    with ThreadPoolExecutor(JOBS) as ex:
        outs = list(ex.map(go, jobs))
    for (how, hs, cxx, t), r in outs:
        res.obligations += 1
        if r.returncode == 0:
            res.discharged += 1
            continue
        err = [l for l in r.stderr.splitlines() if 'error' in l][:2]
        res.violate('header:%s' % hs[-1 if 'after' in how else 0], '%s does not compile %s (%s)\n    %s' % (
            hs[-1] if len(hs) < 3 else 'the set of headers', how, cxx, '\n    '.join(err)))
    # linkage of everything a unit that only includes the headers defines
    t = os.path.join(work, 'all.cpp')
    with open(t, 'w') as f:
        f.writelines('#include <%s>\n' % h for h in hdrs)
    r = sh(['clang++', '-std=c++17', '-O0', '-w', '-S', '-emit-llvm', '-I', REPO, t, '-o', t + '.ll'])
    if r.returncode == 0:
        defs = 0
        for l in open(t + '.ll'):
            m = re.match(r'define (.*?)@("[^"]+"|[\w.$]+)\(', l) or re.match(r'@("[^"]+"|[\w.$]+) = (.*)', l)
            if not m:
                continue
            if l.startswith('define'):
                attrs, name = m.group(1), m.group(2)
            else:
                name, attrs = m.group(1), m.group(2)
                if re.match(r'(dso_local )?(appending|private|external|internal)', attrs) or name.startswith('llvm.'):
                    continue
            defs += 1
            res.obligations += 1
            if re.match(r'(linkonce|weak|internal|private|available_externally|common)', attrs):
                res.discharged += 1
                continue
            dem = sh(['c++filt', name.strip('"')]).stdout.strip()
            res.violate('odr:%s' % name, '%s has external linkage and is defined in a header: two units that include it cannot be linked' % dem)
        res.notes.append('%d definitions' % defs)
    res.tus.append('%d units from %d headers' % (len(units), len(hdrs)))
    res.ob_names += hdrs
    res.samples += ['%s compiles alone, twice and with the forward declarations, with two compilers' % h for h in hdrs[:3]]
