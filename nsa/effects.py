"""G02: no function of the library has an effect or a result that depends on hidden shared state."""
import os
import re
from .driver import REPO, Broken, sh, ensure_effects

# functions of the C and C++ library that read or change state of the process (or of the machine)
GLOBAL = re.compile(r'''^(::)?(std::)?(
    rand|srand|rand_r|random|srandom|drand48|lrand48|mrand48|srand48
  | setlocale|localeconv|uselocale|newlocale|locale::(global|locale)
  | strtok|strerror|asctime|ctime|gmtime|localtime|tmpnam|tmpfile|getlogin|ttyname
  | getenv|secure_getenv|setenv|putenv|unsetenv|clearenv
  | mblen|mbtowc|wctomb|mbstowcs|wcstombs|mbrlen|mbrtowc|wcrtomb|c16rtomb|c32rtomb|mbrtoc16|mbrtoc32|btowc|wctob
  | time|clock|clock_gettime|gettimeofday|nanosleep|usleep|sleep
  | printf|puts|putchar|vprintf|perror|scanf|getchar|gets|fopen|freopen|remove|rename|system|popen
  | signal|raise|kill|fork|exec\w*|atexit|at_quick_exit|exit|_exit|quick_exit|_Exit
  | set_terminate|set_unexpected|set_new_handler|setjmp|longjmp
  | fesetround|fegetround|feclearexcept|feraiseexcept|fesetenv|feholdexcept|feupdateenv|fesetexceptflag
  | ios_base::sync_with_stdio
  | chrono::\w+::now|this_thread::\w+|random_device::\w+|basic_(i|o|)fstream.*|filesystem::.*
  | __errno_location|pthread_setspecific|syscall|mallopt|umask|chdir
)$''', re.X)
FOREIGN_OK = {'std::cerr'}
LOCALE_OBJ = re.compile(r'^std::locale::locale$')

CONFIGS = [('default', []), ('NDEBUG', ['-DNDEBUG']), ('with a checking NYTL_BYTES_ASSERT', ['-DNYTL_BYTES_ASSERT(x)=if(!(x)) throw 1']), ('C++20', ['-std=c++20'])]


def check(res, arg, work):
    root = os.path.join(REPO, 'nytl')
    hdrs = []
    for d, _, fs in os.walk(root):
        hdrs += [os.path.relpath(os.path.join(d, f), REPO) for f in fs if f.endswith('.hpp')]
    hdrs.sort()
    if len(hdrs) < 20:
        raise Broken('only %d headers found' % len(hdrs))
    t = os.path.join(work, 'all.cpp')
    with open(t, 'w') as f:
        f.writelines('#include <%s>\n' % h for h in hdrs)
    exe = ensure_effects()
    rdir = sh(['clang', '-print-resource-dir']).stdout.strip()
    seen = set()
    calls = set()
    for cname, flags in CONFIGS:
        r = sh([exe, root, t, '-std=c++17', '-include', 'cstdint', '-w', '-I', REPO, '-resource-dir', rdir] + flags)
        if r.returncode:
            if cname == 'C++20':
                continue        # the library is written for C++17
            raise Broken('effects (%s): %s' % (cname, r.stderr[:600]))
        lines = r.stdout.splitlines()
        if not lines or not lines[0].startswith('TOTAL'):
            raise Broken('effects: no output')
        _, decls, bodies = lines[0].split('\t')
        if int(decls) < 2000 or int(bodies) < 250:
            raise Broken('effects: only %s declarations and %s function bodies found' % (decls, bodies))
        res.obligations += int(decls)
        res.discharged += int(decls)
        res.notes.append('%s: %s declarations, %s function bodies, %d facts' % (cname, decls, bodies, len(lines) - 1))
        for l in lines[1:]:
            f = l.split('\t')
            kind, where, fn, det = f[0], f[1], f[2], f[3:]
            text = None
            if kind == 'STATIC':
                name, ty, how, changeable, uses = (det + [''] * 5)[:5]
                what = '%s (%s) has %s' % (name, ty, how)
                if changeable:
                    text = '%s and can change after its initialization (%s): calls with different objects, also from different threads, influence each other through it' % (what, changeable)
                elif uses:
                    text = '%s and is initialized from "%s" by the first call only: later calls with other arguments use the value of the first' % (what, uses)
                key = name
            elif kind == 'MUTABLE':
                if re.search(r'\b(mutex|once_flag|atomic\w*)\b', det[1]):
                    continue
                text, key = 'the mutable field %s (%s) lets operations on a const object change it' % (det[0], det[1]), det[0]
            elif kind == 'CONSTCAST':
                text, key = 'a cast drops const (%s): the operation can change an object it got as const' % det[0], fn
            elif kind == 'FOREIGN':
                if det[0] in FOREIGN_OK:
                    continue
                text, key = 'uses the variable %s, which is shared with the whole program' % det[0], '%s:%s' % (fn, det[0])
            elif kind == 'ASM':
                text, key = 'inline assembly', fn
            elif kind == 'CALL':
                calls.add((fn, det[0]))
                if not GLOBAL.match(det[0]):
                    continue
                text, key = 'calls %s, which uses state of the whole program' % det[0], '%s:%s' % (fn, det[0])
            if text and (kind, key) not in seen:
                seen.add((kind, key))
                res.discharged -= 1
                res.violate('%s:%s' % (kind, key), '%s (nytl/%s): %s' % (fn, where, text))
    res.tus.append('all %d headers in %d configurations' % (len(hdrs), len(CONFIGS)))
    res.ob_names += hdrs
    res.samples.append('%d references from functions of the library to functions outside of it, none of which uses state of the program' % len(calls))
    res.samples.append('e.g. ' + ', '.join(sorted({c for _, c in calls})[:6]))
