"""Reader for LLVM 18 textual IR (only what optimised, vectoriser-free C++ needs)."""
import re

class IRError(Exception):
    pass

TOK = re.compile(r'''
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<loc>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>![a-zA-Z_.0-9]*)
  | (?P<attr>\#[0-9]+)
  | (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[HKLMR]?[0-9A-Fa-f]+|-?[0-9]+)
  | (?P<word>[a-zA-Z_][a-zA-Z_.0-9]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[()\[\]{}<>,=*|:])
  | (?P<ws>\s+)
  | (?P<cm>;.*)
''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError('cannot tokenize: ' + s[i:i + 60])
        k = m.lastgroup
        if k == 'cm':
            break
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out


class Types:
    def __init__(self):
        self.named = {}

    def size_align(self, t):
        k = t[0]
        if k == 'int':
            b = t[1]
            s = 1
            while s * 8 < b:
                s *= 2
            return s, min(s, 16)
        if k == 'double':
            return 8, 8
        if k == 'float':
            return 4, 4
        if k == 'x86_fp80':
            return 16, 16
        if k == 'ptr':
            return 8, 8
        if k == 'array':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'vector':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == 'struct':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k == 'named':
            return self.size_align(self.named[t[1]])
        raise IRError('size of %r' % (t,))

    def field(self, t, i):
        """offset and type of element i of aggregate type t"""
        if t[0] == 'named':
            t = self.named[t[1]]
        if t[0] in ('array', 'vector'):
            s, _ = self.size_align(t[2])
            return s * i, t[2]
        if t[0] == 'struct':
            off = 0
            for j, f in enumerate(t[1]):
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                if j == i:
                    return off, f
                off += s
        raise IRError('field of %r' % (t,))


PARAM_ATTRS = {
    'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'returned',
    'signext', 'zeroext', 'immarg', 'inreg', 'nofree', 'swiftself', 'allocptr', 'writable',
    'nofpclass', 'dead_on_unwind', 'allocalign', 'noext', 'inrange'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'range',
                   'elementtype', 'nofpclass', 'captures', 'initializes'}
FLAGS = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'inbounds', 'volatile', 'tail', 'musttail', 'notail', 'nneg', 'disjoint', 'atomic', 'nusw'}


class P:
    """token cursor"""
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise IRError('expected %r got %r in %r' % (v, x, ' '.join(a for _, a in self.t)[:300]))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'double':
                t = ('double',)
            elif v == 'float':
                t = ('float',)
            elif v == 'x86_fp80':
                t = ('x86_fp80',)
            elif v == 'ptr':
                t = ('ptr',)
                if self.peek()[1] == 'addrspace':
                    raise IRError('addrspace')
            elif v == 'void':
                t = ('void',)
            elif v == 'label':
                t = ('label',)
            elif v == 'metadata':
                t = ('metadata',)
            elif v == 'token':
                t = ('token',)
            elif re.fullmatch(r'i[0-9]+', v):
                t = ('int', int(v[1:]))
            else:
                raise IRError('type word %r' % v)
        elif k == 'loc' and v[0] == '%':
            t = ('named', v)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('array', n, e)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = self._struct(True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vector', n, e)
        elif v == '{':
            t = self._struct(False)
        else:
            raise IRError('type %r' % v)
        if self.peek()[1] == '(':            # function type
            depth = 0
            while True:
                x = self.next()[1]
                if x == '(':
                    depth += 1
                if x == ')':
                    depth -= 1
                    if not depth:
                        break
            t = ('func', t)
        return t

    def _struct(self, packed):
        fs = []
        if self.accept('}'):
            return ('struct', (), packed)
        while True:
            fs.append(self.type())
            if self.accept('}'):
                break
            self.expect(',')
        return ('struct', tuple(fs), packed)

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS_ARG:
                self.next()
                if self.peek()[1] == '(':
                    d = 0
                    while True:
                        x = self.next()[1]
                        d += (x == '(') - (x == ')')
                        if not d:
                            break
                elif v == 'align':
                    self.next()
            elif k == 'word' and v in PARAM_ATTRS:
                self.next()
            elif k == 'str':
                self.next()
            else:
                return

    def value(self, ty):
        """operand of type ty -> ('local',name) / ('global',name) / constants"""
        k, v = self.next()
        if k == 'loc':
            return ('local' if v[0] == '%' else 'global', v)
        if k == 'num':
            if ty[0] in ('double', 'float', 'x86_fp80'):
                return ('fp', parse_fp(v))
            return ('int', int(v))
        if k == 'word':
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'getelementptr':
                while self.peek()[1] in FLAGS or self.peek()[1] == 'inrange':
                    self.next()
                self.expect('(')
                st = self.type()
                self.expect(',')
                pt = self.type()
                base = self.value(pt)
                idx = []
                while self.accept(','):
                    self.accept('inrange')
                    it = self.type()
                    idx.append(self.value(it))
                self.expect(')')
                return ('gep', st, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'sext', 'zext', 'trunc'):
                self.expect('(')
                st = self.type()
                b = self.value(st)
                self.expect('to')
                self.type()
                self.expect(')')
                return ('cast', v, b)
            if v in ('sub', 'add', 'mul', 'shl', 'and', 'or', 'xor', 'lshr', 'ashr'):
                while self.peek()[1] in FLAGS:
                    self.next()
                self.expect('(')
                st = self.type()
                a = self.value(st)
                self.expect(',')
                st2 = self.type()
                b = self.value(st2)
                self.expect(')')
                return ('cbin', v, st, a, b)
            if v == 'splat':
                self.expect('(')
                et = self.type()
                e = self.value(et)
                self.expect(')')
                return ('agg', [e] * (ty[1] if ty[0] == 'vector' else 1), [et])
        if v in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.next()
                r = self._agg('}')
                self.expect('>')
                return r
            return self._agg(close)
        if k == 'str':
            return ('cstr', v)
        raise IRError('value %r %r' % (k, v))

    def _agg(self, close):
        els = []
        tys = []
        if self.accept(close):
            return ('agg', els, tys)
        while True:
            t = self.type()
            tys.append(t)
            els.append(self.value(t))
            if self.accept(close):
                return ('agg', els, tys)
            self.expect(',')


def parse_fp(v):
    import struct
    if v.startswith('0x'):
        if v[2] in 'KLMHR':
            if v[2] == 'K':            # x86_fp80
                bits = int(v[3:], 16)
                sign = bits >> 79
                ex = (bits >> 64) & 0x7fff
                man = bits & ((1 << 64) - 1)
                if man == 0:
                    return 0.0
                if ex == 0x7fff:
                    return float('-inf') if sign else float('inf')
                import math
                r = math.ldexp(man, ex - 16383 - 63)
                return -r if sign else r
            raise IRError('fp kind ' + v)
        return struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]
    return float(v)


class Inst:
    __slots__ = ('op', 'res', 'ty', 'args', 'dbg', 'text')

    def __init__(self, op, res, ty, args, dbg, text):
        self.op, self.res, self.ty, self.args, self.dbg, self.text = op, res, ty, args, dbg, text


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.blocks = {}      # label -> [Inst]
        self.order = []
        self.dbg = None


class Module:
    def __init__(self, text):
        self.types = Types()
        self.lines = text.split('\n')
        self.globals = {}       # name -> raw line
        self.meta = {}
        self.func_pos = {}
        self.declares = set()
        self._scan()
        self._fn_cache = {}

    def _scan(self):
        L = self.lines
        i = 0
        n = len(L)
        rem = re.compile(r'^(![0-9]+) = (.*)$')
        while i < n:
            s = L[i]
            if s.startswith('define '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', s)
                name = m.group(1).strip('"')
                j = i + 1
                while L[j] != '}':
                    j += 1
                self.func_pos[name] = (i, j)
                i = j
            elif s.startswith('%') and ' = type ' in s:
                name, body = s.split(' = type ', 1)
                if body.strip() != 'opaque':
                    p = P(tokenize(body), self)
                    self.types.named[name.strip()] = p.type()
            elif s.startswith('@'):
                name = s.split(' = ', 1)[0][1:].strip('"')
                self.globals[name] = s
            elif s.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', s)
                if m:
                    self.declares.add(m.group(1).strip('"'))
            elif s.startswith('!'):
                m = rem.match(s)
                if m:
                    self.meta[m.group(1)] = m.group(2)
            i += 1

    # ---- debug locations -------------------------------------------------
    def _field(self, s, k):
        m = re.search(r'\b' + k + r': (![0-9]+|[0-9]+|"[^"]*")', s)
        return m.group(1) if m else None

    def _scope_file(self, sc):
        seen = 0
        name = None
        file = None
        while sc and seen < 60:
            seen += 1
            s = self.meta.get(sc, '')
            if file is None:
                f = self._field(s, 'file')
                if f:
                    fs = self.meta.get(f, '')
                    d = re.search(r'directory: "([^"]*)"', fs)
                    nm = re.search(r'filename: "([^"]*)"', fs)
                    if nm:
                        file = nm.group(1)
                        if not file.startswith('/') and d:
                            file = d.group(1) + '/' + file
            if 'DISubprogram' in s:
                name = self._field(s, 'name')
                return (name or '?').strip('"'), file
            sc = self._field(s, 'scope')
        return '?', file

    def frames(self, dbg):
        """innermost-first list of (file, line, function)"""
        out = []
        n = 0
        while dbg and n < 80:
            n += 1
            s = self.meta.get(dbg, '')
            if 'DILocation' not in s:
                break
            line = int(self._field(s, 'line') or 0)
            fn, fl = self._scope_file(self._field(s, 'scope'))
            out.append((fl, line, fn))
            dbg = self._field(s, 'inlinedAt')
        return out

    # ---- functions -------------------------------------------------------
    def func(self, name):
        if name in self._fn_cache:
            return self._fn_cache[name]
        a, b = self.func_pos[name]
        f = Func(name)
        hdr = self.lines[a]
        m = re.search(r'!dbg (![0-9]+)', hdr)
        f.dbg = m.group(1) if m else None
        st = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', hdr)
        toks = tokenize(hdr[st.end() - 1:])
        p = P(toks, self)
        p.expect('(')
        unnamed = 0
        if not p.accept(')'):
            while True:
                if p.peek()[1] == '...':
                    p.next()
                    p.expect(')')
                    break
                t = p.type()
                p.skip_attrs()
                k, v = p.peek()
                if k == 'loc':
                    p.next()
                    nm = v
                else:
                    nm = '%' + str(unnamed)
                if re.fullmatch(r'%[0-9]+', nm):
                    unnamed += 1
                f.params.append((t, nm))
                if p.accept(')'):
                    break
                p.expect(',')
        cur = None
        i = a + 1
        while i < b:
            s = self.lines[i]
            i += 1
            if not s.strip() or s.lstrip().startswith(';'):
                continue
            if not s.startswith(' '):
                m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', s)
                if not m:
                    raise IRError('label? ' + s)
                cur = '%' + m.group(1)
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = '%' + str(unnamed)
                f.blocks[cur] = []
                f.order.append(cur)
            if s.lstrip().startswith('#dbg'):
                continue
            if re.match(r'^\s+switch ', s) and ']' not in s:
                while ']' not in self.lines[i]:
                    s += ' ' + self.lines[i].strip()
                    i += 1
                s += ' ' + self.lines[i].strip()
                i += 1
            if re.match(r'^\s+(%\S+ = )?invoke ', s) and 'unwind' not in s:
                s += ' ' + self.lines[i].strip()
                i += 1
            ins = self._inst(s)
            if ins is not None:
                f.blocks[cur].append(ins)
        self._fn_cache[name] = f
        return f

    def _inst(self, s):
        text = s.strip()
        dbg = None
        m = re.search(r', !dbg (![0-9]+)', s)
        if m:
            dbg = m.group(1)
        # strip trailing metadata attachments
        cut = re.search(r', ![a-zA-Z_.]+ ![0-9]+', s)
        if cut:
            s = s[:cut.start()]
        p = P(tokenize(s), self)
        res = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            res = p.next()[1]
            p.next()
        while p.peek()[1] in FLAGS:
            p.next()
        op = p.next()[1]

        def mk(ty, args):
            return Inst(op, res, ty, args, dbg, text)

        def flags():
            while p.peek()[1] in FLAGS:
                p.next()
        flags()
        if op == 'load':
            t = p.type()
            p.expect(',')
            p.type()
            return mk(t, [p.value(('ptr',))])
        if op == 'store':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            return mk(t, [v, p.value(('ptr',))])
        if op == 'getelementptr':
            t = p.type()
            p.expect(',')
            p.type()
            base = p.value(('ptr',))
            idx = []
            while p.accept(','):
                it = p.type()
                idx.append((it, p.value(it)))
            return mk(t, [base, idx])
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem',
                  'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            t = p.type()
            x = p.value(t)
            p.expect(',')
            y = p.value(t)
            return mk(t, [x, y])
        if op in ('fneg', 'freeze'):
            t = p.type()
            return mk(t, [p.value(t)])
        if op in ('fcmp', 'icmp'):
            pred = p.next()[1]
            t = p.type()
            x = p.value(t)
            p.expect(',')
            y = p.value(t)
            return mk(t, [pred, x, y])
        if op == 'select':
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            t = p.type()
            x = p.value(t)
            p.expect(',')
            t2 = p.type()
            y = p.value(t2)
            if ct[0] == 'vector':
                raise IRError('vector select')
            return mk(t, [c, x, y])
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                l = p.next()[1]
                p.expect(']')
                inc.append((v, l))
                if not p.accept(','):
                    break
            return mk(t, inc)
        if op == 'br':
            if p.accept('label'):
                return mk(None, [p.next()[1]])
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            a = p.next()[1]
            p.expect(',')
            p.expect('label')
            return mk(None, [c, a, p.next()[1]])
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()[1]
            p.expect('[')
            cs = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cs.append((cv[1], p.next()[1]))
            return mk(t, [v, d, cs])
        if op == 'ret':
            t = p.type()
            return mk(t, [] if t[0] == 'void' else [p.value(t)])
        if op == 'unreachable':
            return mk(None, [])
        if op in ('call', 'invoke'):
            while p.peek()[1] in ('fastcc', 'ccc', 'coldcc') or p.peek()[1] in FLAGS:
                p.next()
            p.skip_attrs()
            t = p.type()
            if t[0] == 'func':
                t = t[1]
            k, callee = p.next()
            if callee == 'asm':
                raise IRError('inline asm')
            if k != 'loc':
                raise IRError('callee ' + text[:100])
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    at = p.type()
                    if at[0] == 'metadata':
                        # skip metadata operand
                        d = 0
                        while not (d == 0 and p.peek()[1] in (',', ')')):
                            x = p.next()[1]
                            d += (x == '(') - (x == ')')
                        args.append((at, ('meta',)))
                    else:
                        p.skip_attrs()
                        args.append((at, p.value(at)))
                    if p.accept(')'):
                        break
                    p.expect(',')
            if op == 'invoke':
                raise IRError('invoke')
            return mk(t, [callee, args])
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            n = ('int', 1)
            if p.accept(',') and p.peek()[1] != 'align':
                nt = p.type()
                n = p.value(nt)
            return mk(t, [n])
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr',
                  'bitcast', 'fpext', 'fptrunc'):
            t = p.type()
            v = p.value(t)
            p.expect('to')
            t2 = p.type()
            return mk(t2, [v, t])
        if op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            return mk(t, [v, idx])
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et = p.type()
            e = p.value(et)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            return mk(t, [v, e, idx])
        if op == 'fence':
            return None
        raise IRError('instruction %s' % text[:120])

    def global_init(self, name):
        """(type, value) of a constant global, or None"""
        s = self.globals.get(name)
        if s is None:
            return None
        cut = re.search(r', (!dbg|align|section|comdat)', s)
        body = s.split(' = ', 1)[1]
        isconst = re.search(r'\bconstant\b', body) is not None
        m = re.search(r'\b(constant|global)\b', body)
        if not m:
            return None
        rest = body[m.end():]
        rest = re.sub(r', (comdat|align [0-9]+|section "[^"]*"|!dbg ![0-9]+).*$', '', rest)
        try:
            p = P(tokenize(rest), self)
            t = p.type()
            if p.i >= len(p.t):
                return (isconst, t, None)
            return (isconst, t, p.value(t))
        except IRError:
            return (isconst, None, None)
