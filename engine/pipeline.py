"""source -> unoptimised IR -> fully inlined, unrolled, scalar IR"""
import os, re, subprocess, tempfile, hashlib

REPO = os.environ.get('FASTAD_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = 'clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
OPT = 'opt-18' if os.path.exists('/usr/bin/opt-18') else '/usr/lib/llvm-18/bin/opt'

CFLAGS = ['-std=c++17', '-I' + REPO + '/include', '-I/usr/include/eigen3', '-I' + HERE,
          '-O2', '-fstrict-vtable-pointers', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-gline-tables-only',
          '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_OPTIMIZATION_BARRIER(X)=', '-DEIGEN_NO_CPUID', '-DEIGEN_DONT_PARALLELIZE', '-fno-vectorize', '-fno-slp-vectorize', '-fexceptions', '-fignore-exceptions',
          '-fno-math-errno', '-fno-trapping-math', '-ffp-contract=off', '-fno-delete-null-pointer-checks',
          '-fno-strict-aliasing', '-fno-unwind-tables', '-fno-asynchronous-unwind-tables',
          '-fno-threadsafe-statics', '-w', '-ftemplate-depth=2000']

_O2 = ['-passes=forceattrs,function(sroa,early-cse,simplifycfg),cgscc(inline<only-mandatory>,function(sroa,early-cse,simplifycfg)),'
       'globaldce,default<O2>,loop-simplify,lcssa',
       '-force-attribute=alwaysinline', '-unroll-threshold=20000',
       '-unroll-full-max-count=256', '-unroll-max-percent-threshold-boost=2000', '-unroll-runtime=false',
       '-vectorize-loops=0', '-vectorize-slp=0', '-enable-newgvn=0', '-inline-threshold=100000']
OPTS = [
    _O2,
    ['-passes=forceattrs,default<O3>,loop-unroll,simplifycfg,instcombine<no-verify-fixpoint>,sroa,gvn,sccp,simplifycfg,default<O3>,loop-simplify,lcssa',
     '-force-attribute=alwaysinline', '-unroll-threshold=200000',
     '-unroll-full-max-count=1024', '-unroll-max-percent-threshold-boost=4000',
     '-vectorize-loops=0', '-vectorize-slp=0', '-inline-threshold=100000'],
]
# calls through function objects become direct, and are inlined, step by step
OPTS.append(['-passes=forceattrs,function(sroa,early-cse<memssa>,simplifycfg),'
             'cgscc(devirt<6>(inline<only-mandatory>,function(sroa,early-cse<memssa>,gvn,instcombine<no-verify-fixpoint>,simplifycfg))),'
             'cgscc(devirt<6>(inline,function(sroa,early-cse<memssa>,gvn,instcombine<no-verify-fixpoint>,simplifycfg))),'
             'globaldce,default<O2>,loop-simplify,lcssa'] + _O2[1:])


class CompileError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def compile_ir(src, workdir, name, extra=()):
    cpp = os.path.join(workdir, name + '.cpp')
    with open(cpp, 'w') as f:
        f.write(src)
    ll0 = os.path.join(workdir, name + '.0.ll')
    strict = '--keep-heap' in extra
    extra = [e for e in extra if e != '--keep-heap']
    r = run([CLANG] + CFLAGS + list(extra) + [cpp, '-o', ll0])
    if r.returncode:
        raise CompileError(r.stderr)
    with open(ll0) as f:
        t = f.read()
    t = re.sub(r'^(attributes #[0-9]+ = \{[^\n]*)\bnoinline\b ?', r'\1', t, flags=re.M)
    t = re.sub(r'^(attributes #[0-9]+ = \{[^\n]*)\boptnone\b ?', r'\1', t, flags=re.M)
    # assembler comments carry no effect
    t = re.sub(r'^ *(tail )?call void asm sideeffect "#[^"]*", "[^"]*"\(\)[^\n]*\n', '', t, flags=re.M)
    t = plain_atomics(throws(cut_recursion(t)))
    if strict:          # the optimiser may not remove allocations it can see through
        t = re.sub(r'@(malloc|free|calloc|_Znwm|_Znam|_ZdlPv|_ZdlPvm|_ZdaPv|_ZdaPvm|_ZnwmSt11align_val_t|_ZdlPvSt11align_val_t|'
                   r'_ZdlPvmSt11align_val_t|_ZnwmRKSt9nothrow_t|aligned_alloc)(?=\()', r'@__heap_\1', t)
    with open(ll0, 'w') as f:
        f.write(t)
    return ll0


def precompile(workdir):
    """the shared header, parsed once per run"""
    pch = os.path.join(workdir, 'wit.pch')
    fl = [f for f in CFLAGS if f not in ('-S', '-emit-llvm')]
    r = run([CLANG] + fl + ['-x', 'c++-header', os.path.join(HERE, 'wit.hpp'), '-o', pch])
    return pch if r.returncode == 0 else None


def throws(t):
    """a throw ends the path where the exception object is made"""
    m = re.search(r'^declare [^\n]*@__cxa_allocate_exception\([^\n]*\n', t, flags=re.M)
    if not m:
        return t
    body = ('define internal ptr @__cxa_allocate_exception(i64 %0) alwaysinline noreturn {\n  call void @__exception_thrown() noreturn\n  unreachable\n}\n'
            'declare void @__exception_thrown() noreturn\n')
    return t[:m.start()] + body + t[m.end():]


def plain_atomics(t):
    """atomic operations as their sequential meaning: a witness is one thread (reference counts, counters)"""
    if 'atomic' not in t and 'cmpxchg' not in t and '__libc_single_threaded' not in t:
        return t
    k = [0]

    def rmw(m):
        k[0] += 1
        ind, dst, op, ptr, ty, val, tail = m.groups()
        n = '%%at.%d' % k[0]
        if op == 'xchg':
            return '%s%s = load %s, ptr %s\n%sstore %s %s, ptr %s%s' % (ind, dst, ty, ptr, ind, ty, val, ptr, tail)
        return '%s%s = load %s, ptr %s\n%s%s = %s %s %s, %s\n%sstore %s %s, ptr %s%s' % (ind, dst, ty, ptr, ind, n, op, ty, dst, val, ind, ty, n, ptr, tail)

    def cx(m):
        k[0] += 1
        ind, dst, ptr, ty, old, new, tail = m.groups()
        n = '%%at.%d' % k[0]
        return ('{i}{n}.l = load {t}, ptr {p}\n{i}{n}.e = icmp eq {t} {n}.l, {o}\n{i}{n}.s = select i1 {n}.e, {t} {w}, {t} {n}.l\n{i}store {t} {n}.s, ptr {p}\n'
                '{i}{n}.a = insertvalue {{ {t}, i1 }} poison, {t} {n}.l, 0\n{i}{d} = insertvalue {{ {t}, i1 }} {n}.a, i1 {n}.e, 1{x}').format(
                    i=ind, n=n, t=ty, p=ptr, o=old, w=new, d=dst, x=tail)
    order = r'(?: syncscope\("[^"]*"\))? (?:unordered|monotonic|acquire|release|acq_rel|seq_cst)'
    t = re.sub(r'^( *)(%\S+) = atomicrmw (?:volatile )?(add|sub|and|or|xor|xchg|fadd|fsub) ptr ([^,\n]+), (\S+) (\S+?)' + order + r'(?:, align \d+)?([^\n]*)', rmw, t, flags=re.M)
    t = re.sub(r'^( *)(%\S+) = cmpxchg (?:weak )?(?:volatile )?ptr ([^,\n]+), (\S+) ([^,\n]+), \S+ (\S+?)' + order + order[order.rindex(' ('):] + r'(?:, align \d+)?([^\n]*)', cx, t, flags=re.M)
    t = re.sub(r'^( *%\S+ = load )atomic (?:volatile )?([^\n]*?)' + order + r'(?=,|$)', r'\1\2', t, flags=re.M)
    t = re.sub(r'^( *store )atomic (?:volatile )?([^\n]*?)' + order + r'(?=,|$)', r'\1\2', t, flags=re.M)
    t = re.sub(r'^ *fence [^\n]*\n', '', t, flags=re.M)
    t = re.sub(r'^@__libc_single_threaded = external [^\n]*', '@__libc_single_threaded = internal constant i8 1, align 1', t, flags=re.M)
    return t


def cut_recursion(t):
    """direct self calls become calls of an external function, so the outer level can be inlined.  Where such a call
    stays reachable after constant propagation, the witness is reported as unanalysable."""
    decls = []

    def one(m):
        body, name = m.group(0), m.group(2)
        if body.count('@' + name + '(') < 2:
            return body
        call = re.compile(r'(call [^\n]*@)' + re.escape(name) + r'\(')
        head, _, rest = body.partition('\n')
        if not call.search(rest):
            return body
        sig = re.match(r'define (?:linkonce_odr |internal |weak_odr )?(?:dso_local )?(.*?@)' + re.escape(name) + r'(\(.*?\)) (?:unnamed_addr|local_unnamed_addr|#|comdat|align)', head)
        if not sig:
            return body
        decls.append('declare %s__recurse_%s%s' % (sig.group(1), name, re.sub(r' %[\w.]+(?=[,)])', '', sig.group(2))))
        return head + '\n' + call.sub(lambda c: c.group(1) + '__recurse_' + name + '(', rest)
    t = re.sub(r'^define ([^\n]*?@)([\w.$]+)\([^\n]*\{\n.*?^\}', one, t, flags=re.M | re.S)
    if decls:
        i = t.index('\nattributes #')
        t = t[:i] + '\n' + '\n'.join(decls) + '\n' + t[i:]
    return t


def optimise(ll0, level=0):
    out = ll0.replace('.0.ll', '.%d.ll' % (level + 1))
    r = run([OPT, '-S', ll0, '-o', out] + OPTS[level])
    if r.returncode:
        raise CompileError('opt: ' + r.stderr)
    with open(out) as f:
        return f.read()
