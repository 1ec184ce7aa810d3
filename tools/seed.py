#!/usr/bin/env python3
"""Confirm seeded changes in a scratch copy of /repo and show which checks catch them.

usage: seed.py [--all-checks | --related] DIR...   (--related also records the result in tools/seeds.json)"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set()
TABLE = os.path.join(HERE, 'tools', 'seeds.json')
REL = '--related' in sys.argv
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from nsa.specs import SPECS, HI  # noqa


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix='seed_')
    r = os.path.join(d, 'repo')
    shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('_build'))
    for f in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + f).read().replace('/repo', r).replace('/opt/vp/build.sh', d + '/build.sh')
        open(os.path.join(d, f), 'w').write(t)
    return d, r


def original_lines(repo, patch):
    """are all removed/changed lines the repository's own"""
    sh('git apply -R --check %s' % patch, cwd=repo)
    bad = []
    root = sh('git rev-list --max-parents=0 HEAD', cwd=repo).stdout.strip()
    cur = None
    ln = 0
    for l in open(patch):
        if l.startswith('--- a/'):
            cur = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m:
            ln = int(m.group(1))
            continue
        if l.startswith('-') and not l.startswith('---'):
            b = sh(['git', 'blame', '-l', '-L', '%d,%d' % (ln, ln), 'HEAD', '--', cur], cwd=repo).stdout
            if not b.lstrip('^').startswith(root[:20]):
                bad.append('%s:%d' % (cur, ln))
            ln += 1
        elif l.startswith(' '):
            ln += 1
    return bad


def one(p, allc):
    p = os.path.abspath(p)
    meta = json.load(open(os.path.join(p, 'meta.json')))
    d, r = scratch()
    out = []
    try:
        dm = os.path.join(d, 'demo')
        shutil.copytree(p, dm, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        x = sh(['bash', dm + '/demo.sh'], cwd=r)
        if x.returncode:
            out.append('DEMO FAILS ON CLEAN TREE: ' + x.stdout[-600:])
        x = sh('git apply %s/patch.diff' % p, cwd=r)
        if x.returncode:
            return p, ['DOES NOT APPLY ' + x.stdout]
        b = original_lines('/repo', p + '/patch.diff')
        if b:
            out.append('touches lines of later commits: %s' % b)
        x = sh(['bash', d + '/build.sh'])
        if x.returncode:
            out.append('BUILD FAILS: ' + x.stdout[-800:])
        else:
            x = sh(['bash', d + '/test.sh', d + '/out.json'])
            res = json.load(open(d + '/out.json'))
            f = [t for t in BASE if t not in res['passed']]
            if f:
                out.append('TESTS FAIL: %s' % f)
        x = sh(['bash', dm + '/demo.sh'], cwd=r)
        if x.returncode == 0:
            out.append('DEMO PASSES WITH THE CHANGE')
        ids = [meta['property']]
        if allc:
            ids = [c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]
        if REL:        # checks anchored in the changed files; histories (expensive) only for their own changes
            files = re.findall(r'^--- a/(\S+)', open(p + '/patch.diff').read(), re.M)
            ids += [i for i, s in SPECS.items() if i not in ids and not s['na'] and not s['technique'].startswith(HI) and set(files) & set(s['files'])]
        ca, caught = [], []
        for i in ids:
            v = d + '/verif'
            os.makedirs(v, exist_ok=True)
            x = sh([sys.executable, HERE + '/check.py', i], cwd=HERE, env=dict(os.environ, NSA_REPO=r))
            if x.returncode == 1:
                caught.append(i)
                first = [l for l in x.stdout.splitlines() if l.startswith('  ')][:1]
                ca.append(i + (': ' + first[0].strip()[:150] if first and not allc else ''))
            elif x.returncode:
                ca.append(i + ' ERROR ' + x.stdout[-300:])
        out.append('caught by: %s' % (ca or 'NOTHING'))
        if REL:
            t = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
            t[os.path.basename(p)] = caught
            json.dump(t, open(TABLE, 'w'), indent=0, sort_keys=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return p, out


if __name__ == '__main__':
    allc = '--all-checks' in sys.argv
    b = json.load(open('/opt/vp/BASELINE.json'))
    BASE.update(b.get('passed') or b.get('stable') or b.get('tests') or [])
    dirs = [a for a in sys.argv[1:] if not a.startswith('-')]
    with ThreadPoolExecutor(3) as ex:
        for p, o in ex.map(lambda a: one(a, allc), dirs):
            print(os.path.basename(p), *o, sep='\n    ')
