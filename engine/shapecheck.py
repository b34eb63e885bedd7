"""Rules decided on the syntax tree and on the symbol table of the headers: self-containment, linkage, hidden state."""
import concurrent.futures as cf
import os
import re
import shutil
import tempfile
import pipeline

GXX = 'g++'


def headers():
    inc = os.path.join(pipeline.REPO, 'include')
    out = []
    for d, _, fs in os.walk(inc):
        for f in sorted(fs):
            out.append(os.path.relpath(os.path.join(d, f), inc))
    return sorted(out)


def incs():
    return ['-I' + os.path.join(pipeline.REPO, 'include'), '-I/usr/include/eigen3']


def fastad_frames(err):
    out = []
    for l in err.split('\n'):
        m = re.search(r'(include/fastad\S*?):(\d+):\d+: (?:fatal )?(error|note)', l)
        if m:
            out.append([m.group(1), int(m.group(2)), '?'])
    return out[:4]


def run_headers(tier='quick', jobs=8):
    """each public header compiles on its own, with both compilers, and leaves no symbol that two units would both define"""
    res = []
    work = tempfile.mkdtemp(prefix='fastad-hd-')
    hs = headers()
    try:
        def one(a):
            i, h, comp = a
            p = os.path.join(work, 'h%d_%s.cpp' % (i, comp[:2]))
            with open(p, 'w') as f:
                # twice: include guards; then a use, so that the unit is not empty
                f.write('#include <%s>\n#include <%s>\nint unit_%d() { return 0; }\n' % (h, h, i))
            r = pipeline.run([pipeline.CLANG if comp == 'clang++' else GXX, '-std=c++17', '-fsyntax-only', '-w'] + incs() + [p])
            errs = [l for l in r.stderr.split('\n') if 'error:' in l]
            return h, comp, r.returncode == 0, '; '.join(re.sub(r'^.*?error: ', '', e) for e in errs[:2])[:300], fastad_frames(r.stderr)
        jobsl = [(i, h, c) for i, h in enumerate(hs) for c in ('clang++', 'g++')]
        with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
            for h, c, ok, d, fr in ex.map(one, jobsl):
                res.append(dict(name='self-contained:%s:%s' % (h, c), ok=ok, key='self-contained:%s' % h,
                                detail='' if ok else 'does not compile on its own with %s: %s' % (c, d),
                                frames=fr or [['include/' + h, 1, '?']]))
        good = sorted({h for h in hs if all(r['ok'] for r in res if r['name'].startswith('self-contained:%s:' % h))})
        # linkage: everything the headers define must be mergeable across translation units
        p = os.path.join(work, 'all.cpp')
        with open(p, 'w') as f:
            f.write(''.join('#include <%s>\n' % h for h in good))
        ll = os.path.join(work, 'all.ll')
        r = pipeline.run([pipeline.CLANG, '-std=c++17', '-O0', '-S', '-emit-llvm', '-gline-tables-only', '-w'] + incs() + [p, '-o', ll])
        if r.returncode:
            res.append(dict(name='together', ok=False, key='together', detail='the headers do not compile together: ' +
                            '; '.join(l for l in r.stderr.split('\n') if 'error:' in l)[:300], frames=fastad_frames(r.stderr)))
        else:
            res.append(dict(name='together', ok=True, key='together', detail='', frames=[]))
            res += linkage(open(ll).read(), 'linkage')
        # the same in reverse order: headers do not rely on what was included before them
        with open(p, 'w') as f:
            f.write(''.join('#include <%s>\n' % h for h in reversed(good)))
        r = pipeline.run([pipeline.CLANG, '-std=c++17', '-fsyntax-only', '-w'] + incs() + [p])
        res.append(dict(name='together:reverse', ok=r.returncode == 0, key='together:reverse',
                        detail='' if r.returncode == 0 else 'the headers do not compile together in reverse order: ' +
                        '; '.join(l for l in r.stderr.split('\n') if 'error:' in l)[:300], frames=fastad_frames(r.stderr)))
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


MERGE = {'linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'internal', 'private', 'available_externally', 'common', 'extern_weak', 'external'}


def linkage(t, tag):
    res = []
    files = {m.group(1): m.group(2) for m in re.finditer(r'^(!\d+) = !DIFile\(filename: "([^"]*)"', t, re.M)}
    subs = {}
    for m in re.finditer(r'^(!\d+) = distinct !DISubprogram\(name: "([^"]*)".*?file: (!\d+), line: (\d+)', t, re.M):
        subs[m.group(1)] = (m.group(2), files.get(m.group(3), ''), int(m.group(4)))
    n = 0
    for m in re.finditer(r'^define ([^\n]*?)@("?[\w.$]+"?)\(([^\n]*)$', t, re.M):
        n += 1
        strong = not (set(m.group(1).split()) & MERGE)
        if strong:
            q = re.search(r'!dbg (!\d+)', m.group(3))
            s = subs.get(q.group(1)) if q else None
            f = s[1] if s else ''
            f = f[f.index('include/fastad'):] if 'include/fastad' in f else f
            res.append(dict(name='%s:%s' % (tag, m.group(2)), ok=False, key='%s:%s' % (tag, m.group(2)),
                            detail='%s is defined in a header with external linkage: two translation units using the library cannot be '
                            'linked together' % (s[0] if s else m.group(2)), frames=[[f, s[2] if s else 0, s[0] if s else '?']]))
    for m in re.finditer(r'^@("?[\w.$]+"?) = ([^\n]*?)\b(global|constant)\b', t, re.M):
        n += 1
        w = set(m.group(2).split())
        if not (w & MERGE) and not m.group(1).startswith('llvm.'):
            res.append(dict(name='%s:%s' % (tag, m.group(1)), ok=False, key='%s:%s' % (tag, m.group(1)),
                            detail='variable %s is defined in a header with external linkage' % m.group(1), frames=[]))
    res.append(dict(name=tag + ':%d definitions' % n, ok=True, key=tag, detail='', frames=[]))
    return res


IMPURE = re.compile(r'^_?_?(s?rand|random|srandom|[dlm]rand48|rand_r|time|clock|gettimeofday|clock_gettime|getenv|setenv|putenv|fopen|fclose|fread|'
                    r'fwrite|fputs|fputc|puts|putchar|v?f?printf|v?f?scanf|fflush|open|close|read|write|lseek|mmap|munmap|exit|_exit|_Exit|quick_exit|'
                    r'atexit|system|popen|fork|signal|raise|sleep|usleep|nanosleep|pthread_\w+|setlocale|fesetround|feclearexcept|fesetenv)$')
IMPURE_CXX = ('std::random_device', 'std::cout', 'std::cerr', 'std::clog', 'std::cin', 'std::mt19937', 'std::chrono')

def clang_query():
    for n in ('clang-query-18', 'clang-query', '/usr/lib/llvm-18/bin/clang-query'):
        p = shutil.which(n)
        if p:
            return p
    return None


PROBE = '''
#include <fastad>
static constexpr double fine_c_() { return 3; }
// positive examples: each must be reported on every run
namespace probe {
static int hidden_counter = 0;
thread_local double hidden_scratch = 0;
template <class T> struct holder { inline static T shared = T(); };
inline int bump() { static int n = 0; return ++n; }
template <class T> T first_n(T n) { static const T hidden_first = n + 1; return hidden_first; }
struct keeper { double m; double get() { static const double hidden_m = m; return hidden_m; } };
inline double* scratch() { static double* const hidden_buf = new double[4]; return hidden_buf; }
inline int lam(int n) { static const auto hidden_l = [&]() { return n; }(); return hidden_l; }
// negative examples
inline int fine_d(int n) { static const auto fine_l = [](int k) { return k + 1; }; return fine_l(n); }
inline double fine_e() { static const double fine_log = std::log(2 * fine_c_()); return fine_log; }
static const int fine_a = 3; static constexpr double fine_b = 2.; inline const int& fine_c() { static const int q = 1; return q; }
}
'''


def run_state(tier='quick', jobs=8):
    """no variable of static or thread storage duration that can change, and no call with an effect outside memory"""
    res = []
    work = tempfile.mkdtemp(prefix='fastad-st-')
    try:
        cq = clang_query()
        if not cq:
            raise RuntimeError('clang-query is not installed')
        p = os.path.join(work, 'probe.cpp')
        with open(p, 'w') as f:
            f.write(PROBE)

        def q(expr):
            r = pipeline.run([cq, p, '-c', 'set output diag', '-c', 'match ' + expr, '--', '-std=c++17', '-w'] + incs())
            if 'error:' in r.stderr and 'Error' in r.stdout:
                raise RuntimeError(r.stderr[:500])
            hits = []
            for m in re.finditer(r'^(/\S+?):(\d+):(\d+): note: "\w+" binds here\n([^\n]*)', r.stdout, re.M):
                hits.append((m.group(1), int(m.group(2)), m.group(4).strip()))
            return hits, r.stdout + r.stderr
        mut = ('varDecl(anyOf(hasStaticStorageDuration(), hasThreadStorageDuration()), unless(hasType(isConstQualified())), '
               'unless(hasType(references(qualType(isConstQualified())))), unless(isConstexpr()), isExpansionInFileMatching("%s")).bind("v")')
        # constant, but fixed by whichever use came first, or a handle to storage that can change
        first = ('varDecl(isStaticLocal(), hasInitializer(anyOf('
                 'declRefExpr(to(varDecl(hasLocalStorage()))), cxxThisExpr(), '
                 'hasDescendant(declRefExpr(to(varDecl(hasLocalStorage())), unless(hasAncestor(lambdaExpr())))), '
                 'hasDescendant(cxxThisExpr(unless(hasAncestor(lambdaExpr())))), '
                 'hasDescendant(lambdaExpr(hasAnyCapture(lambdaCapture())))'
                 ')), isExpansionInFileMatching("%s")).bind("v")')
        handle = ('varDecl(anyOf(hasStaticStorageDuration(), hasThreadStorageDuration()), '
                  'hasType(qualType(hasCanonicalType(pointsTo(qualType(unless(isConstQualified()), unless(functionType())))))), '
                  'isExpansionInFileMatching("%s")).bind("v")')
        hits, raw = [], ''
        for e in (mut, first, handle):
            h, r = q(e % 'probe.cpp')
            hits += h
            raw += r[-300:]
        lines = {l for _, l, _ in hits}
        src = PROBE.split('\n')
        want = {i + 1 for i, s in enumerate(src) if 'hidden_' in s or 'inline static' in s or 'static int n' in s}
        assert len(want) >= 8
        neg = {i + 1 for i, s in enumerate(src) if 'fine_' in s}
        if not want <= lines or lines & neg:
            raise RuntimeError('the mutable-state query does not match its positive examples: %s vs %s %s' % (sorted(lines), sorted(want), raw[-500:]))
        every, _ = q('varDecl(anyOf(hasStaticStorageDuration(), hasThreadStorageDuration()), isExpansionInFileMatching("include/fastad")).bind("v")')
        hits = [(h, what) for e, what in ((mut, 'mutable object of static or thread storage duration'),
                                          (first, 'object of static storage duration fixed by the first use'),
                                          (handle, 'object of static storage duration that gives access to storage that can change'))
                for h in q(e % 'include/fastad')[0]]
        seen = set()
        for (f, l, s), what in hits:
            f = f[f.index('include/fastad'):]
            if (f, l) in seen:
                continue
            seen.add((f, l))
            res.append(dict(name='state:%s:%d' % (f, l), key='state:%s:%s' % (f, s[:80]), ok=False, frames=[[f, l, '?']],
                            detail=what + ': ' + s[:160]))
        res.append(dict(name='state:%d static objects examined' % len({x[:2] for x in every}), key='state', ok=True, detail='', frames=[]))
        # calls with effects outside memory: resolved callees of the library's own code, in templates and functions
        pos, _ = q('callExpr(callee(functionDecl()), isExpansionInFileMatching("include/fastad")).bind("c")')
        calls = 0
        r = pipeline.run([cq, p, '-c', 'set output print', '-c',
                          'match declRefExpr(to(namedDecl(unless(isExpansionInFileMatching("include/fastad")))), isExpansionInFileMatching("include/fastad")).bind("c")',
                          '--', '-std=c++17', '-w'] + incs())
        names = set(re.findall(r'^Binding for "c":\n([^\n]+)', r.stdout, re.M))
        for nme in sorted(names):
            calls += 1
            base = nme.split('<')[0].strip().split('::')[-1]
            if IMPURE.match(base) or any(nme.startswith(x) for x in IMPURE_CXX):
                h, _ = q('declRefExpr(to(namedDecl(hasName("%s"))), isExpansionInFileMatching("include/fastad")).bind("v")' % base)
                f, l, s = h[0] if h else ('?', 0, nme)
                f = f[f.index('include/fastad'):] if 'include/fastad' in f else f
                res.append(dict(name='effect:%s' % nme, key='effect:%s' % nme, ok=False, frames=[[f, l, '?']],
                                detail='refers to %s, which has effects outside the memory of the expression' % nme))
        res.append(dict(name='effect:%d distinct outside names examined' % calls, key='effect', ok=True, detail='', frames=[]))
        if not names or not pos:
            raise RuntimeError('no call sites found: the rule matches nothing')
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    import sys
    import time
    t = time.time()
    for r in {'headers': run_headers, 'state': run_state}[sys.argv[1]]():
        if not r['ok'] or 'examined' in r['name'] or 'definitions' in r['name']:
            print(r)
    print(time.time() - t)
