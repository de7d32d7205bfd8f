"""Parser for the textual LLVM IR that clang emits for /repo's sources.

Function bodies are parsed on demand; anything the parser does not understand raises Unsupported,
which the driver reports as an undischarged obligation (never as a pass)."""
import re
import subprocess

CXXFILT = '/usr/lib/llvm-18/bin/llvm-cxxfilt'


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
   \s+
 | ;[^\n]*
 | (?P<str>c?"(?:[^"])*")
 | (?P<loc>%(?:"(?:[^"])*"|[-\w.$]+))
 | (?P<glob>@(?:"(?:[^"])*"|[-\w.$]+))
 | (?P<meta>!(?:"(?:[^"])*"|[-\w.$]*))
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMH]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[A-Za-z_$][\w.$]*)
 | (?P<dots>\.\.\.)
 | (?P<punct><\{|\}>|[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported('lex: %r' % s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k:
            t = m.group(k)
            out.append((k, t))
    return out


def unq(t):
    # %"foo" -> %foo
    if len(t) > 1 and t[1] == '"':
        return t[0] + t[2:-1]
    return t


class Toks:
    __slots__ = ('t', 'i')

    def __init__(self, t):
        self.t = t
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, s):
        if self.peek()[1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x[1] != s:
            raise Unsupported('parse: expected %r got %r near %r' % (
                s, x, ' '.join(t for _, t in self.t[max(0, self.i - 8):self.i + 8])))
        return x


VOID = ('void',)
PTR = ('ptr',)


def I(n):
    return ('int', n)


PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'writable', 'dead_on_unwind',
               'nocapture', 'readonly', 'readnone', 'writeonly', 'returned', 'immarg', 'inreg',
               'nest', 'swiftself', 'noreturn', 'nounwind', 'allocptr', 'nofree', 'noescape',
               'willreturn', 'dso_local', 'inalloca', 'nopoison'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref',
                   'elementtype', 'preallocated', 'range', 'initializes'}


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}     # name -> (kind, type, init tokens or None, is_const)
        self.func_text = {}   # name -> (header, body text)
        self.decls = set()
        self.funcs = {}
        self.ginit = {}
        self.aliases = {}
        self.md_text = {}
        self.demangled = {}
        self._split(text)

    def _split(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("(?:[^"])*"|[-\w.$]+)\(', l)
                name = m.group(1).strip('"')
                self.func_text[name] = (l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith('declare '):
                m = re.search(r'@("(?:[^"])*"|[-\w.$]+)\(', l)
                self.decls.add(m.group(1).strip('"'))
            elif l.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', l)
                self.types[unq(m.group(1))] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'@("(?:[^"])*"|[-\w.$]+) = (.*)$', l)
                self.globals[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('!'):
                m = re.match(r'(![\w.]+) = (.*)$', l)
                if m:
                    self.md_text[m.group(1)] = m.group(2)
            i += 1
        names = list(self.func_text) + list(self.decls) + [g for g in self.globals]
        p = subprocess.run([CXXFILT], input='\n'.join(names), capture_output=True, text=True)
        dl = p.stdout.split('\n')
        for a, b in zip(names, dl):
            self.demangled[a] = b
        self._rt = {}

    # ---- types
    def parse_type(self, tk):
        k, t = tk.next()
        if k == 'word':
            if t[0] == 'i' and t[1:].isdigit():
                ty = ('int', int(t[1:]))
            elif t == 'ptr':
                ty = PTR
            elif t == 'void':
                ty = VOID
            elif t in ('float', 'double', 'x86_fp80', 'fp128', 'half'):
                ty = (t,)
            elif t in ('label', 'metadata', 'token'):
                ty = (t,)
            elif t == 'opaque':
                ty = ('opaque',)
            else:
                raise Unsupported('type %r' % t)
        elif k == 'loc':
            ty = ('named', unq(t))
        elif t == '{':
            ty = ('struct', tuple(self._type_list(tk, '}')), False)
        elif t == '<{':
            ty = ('struct', tuple(self._type_list(tk, '}>')), True)
        elif t == '[':
            n = int(tk.next()[1])
            tk.expect('x')
            e = self.parse_type(tk)
            tk.expect(']')
            ty = ('arr', n, e)
        elif t == '<':
            n = int(tk.next()[1])
            tk.expect('x')
            e = self.parse_type(tk)
            tk.expect('>')
            ty = ('vec', n, e)
        else:
            raise Unsupported('type tok %r' % t)
        # function type suffix
        while tk.peek()[1] == '(' and True:
            # only consumed when directly used as a function type
            save = tk.i
            try:
                tk.next()
                args = []
                va = False
                if not tk.accept(')'):
                    while True:
                        if tk.accept('...'):
                            va = True
                        else:
                            args.append(self.parse_type(tk))
                        if tk.accept(')'):
                            break
                        tk.expect(',')
                ty = ('func', ty, tuple(args), va)
            except Unsupported:
                tk.i = save
                break
        return ty

    def _type_list(self, tk, end):
        out = []
        if tk.accept(end):
            return out
        while True:
            out.append(self.parse_type(tk))
            if tk.accept(end):
                return out
            tk.expect(',')

    def resolve(self, ty):
        while ty[0] == 'named':
            r = self._rt.get(ty[1])
            if r is None:
                txt = self.types.get(ty[1])
                if txt is None:
                    raise Unsupported('unknown type ' + ty[1])
                r = self.parse_type(Toks(tokenize(txt)))
                self._rt[ty[1]] = r
            ty = r
        return ty

    def sizeof(self, ty):
        return self._layout(ty)[0]

    def alignof(self, ty):
        return self._layout(ty)[1]

    def _layout(self, ty):
        c = self._rt.get(('L', ty))
        if c:
            return c
        t = self.resolve(ty)
        k = t[0]
        if k == 'int':
            b = (t[1] + 7) // 8
            p = 1
            while p < b:
                p *= 2
            r = (p, min(p, 16))
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'float':
            r = (4, 4)
        elif k == 'double':
            r = (8, 8)
        elif k == 'x86_fp80':
            r = (16, 16)
        elif k == 'arr':
            s, a = self._layout(t[2])
            r = (s * t[1], a)
        elif k == 'vec':
            s, a = self._layout(t[2])
            r = (s * t[1], s * t[1])
        elif k == 'struct':
            off = 0
            al = 1
            offs = []
            for f in t[1]:
                s, a = self._layout(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            self._rt[('O', t)] = offs
            r = (off, al)
        else:
            raise Unsupported('sizeof %r' % (t,))
        self._rt[('L', ty)] = r
        return r

    def field_offset(self, t, i):
        self._layout(t)
        return self._rt[('O', t)][i]

    # ---- values.  A value is ('c', ty, python) | ('l', name) | ('g', name) | ('ce', op, ...)
    def parse_value(self, tk, ty):
        k, t = tk.next()
        if k == 'loc':
            return ('l', unq(t)[1:])
        if k == 'glob':
            return ('g', unq(t)[1:])
        if k == 'num':
            if ty[0] == 'int':
                return ('int', int(t), ty[1])
            return ('fp', t, ty)
        if k == 'word':
            if t == 'true':
                return ('int', 1, 1)
            if t == 'false':
                return ('int', 0, 1)
            if t == 'null':
                return ('null',)
            if t in ('undef', 'poison'):
                return ('undef', ty)
            if t == 'zeroinitializer':
                return ('zero', ty)
            if t == 'none':
                return ('null',)
            if t == 'getelementptr':
                while tk.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    tk.next()
                    if tk.peek()[1] == '(' and tk.t[tk.i - 1][1] == 'inrange':
                        while tk.next()[1] != ')':
                            pass
                tk.expect('(')
                bt = self.parse_type(tk)
                tk.expect(',')
                ops = []
                while True:
                    while tk.peek()[1] in ('inrange',):
                        tk.next()
                    vt = self.parse_type(tk)
                    ops.append((vt, self.parse_value(tk, vt)))
                    if tk.accept(')'):
                        break
                    tk.expect(',')
                return ('cgep', bt, ops)
            if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                tk.expect('(')
                vt = self.parse_type(tk)
                v = self.parse_value(tk, vt)
                tk.expect('to')
                tt = self.parse_type(tk)
                tk.expect(')')
                return ('ccast', t, vt, v, tt)
            if t in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'icmp'):
                while tk.peek()[0] == 'word' and tk.peek()[1] != '(':
                    tk.next()
                raise Unsupported('constexpr ' + t)
            if t in ('blockaddress', 'asm'):
                raise Unsupported('constexpr ' + t)
        if k == 'str' and t[0] == 'c':
            return ('bytes', self._cstr(t[2:-1]))
        if t == '{' or t == '<{':
            end = '}' if t == '{' else '}>'
            out = []
            if tk.accept(end):
                return ('agg', out)
            while True:
                vt = self.parse_type(tk)
                out.append((vt, self.parse_value(tk, vt)))
                if tk.accept(end):
                    break
                tk.expect(',')
            return ('agg', out)
        if t == '[' or t == '<':
            end = ']' if t == '[' else '>'
            out = []
            if tk.accept(end):
                return ('agg', out)
            while True:
                vt = self.parse_type(tk)
                out.append((vt, self.parse_value(tk, vt)))
                if tk.accept(end):
                    break
                tk.expect(',')
            return ('agg', out)
        raise Unsupported('value %r' % t)

    @staticmethod
    def _cstr(s):
        out = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i + 1] == '\\':
                    out.append(92)
                    i += 2
                else:
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
            else:
                out += s[i].encode('latin1')
                i += 1
        return bytes(out)

    def global_info(self, name):
        """(type, init value or None, is_const)"""
        if name in self.ginit:
            return self.ginit[name]
        txt = self.globals.get(name)
        if txt is None:
            return None
        tk = Toks(tokenize(txt))
        const = False
        ext = False
        alias = False
        while True:
            k, t = tk.peek()
            if t in ('constant', 'global'):
                const = t == 'constant'
                tk.next()
                break
            if t in ('external', 'extern_weak', 'available_externally'):
                ext = ext or t != 'available_externally'
            if t == 'alias':
                alias = True
                tk.next()
                break
            tk.next()
            if t == '(':
                while tk.next()[1] != ')':
                    pass
            if k == 'eof':
                raise Unsupported('global ' + name)
        ty = self.parse_type(tk)
        if alias:
            tk.expect(',')
            at = self.parse_type(tk)
            v = self.parse_value(tk, at)
            r = ('alias', v, True)
        else:
            init = None
            if not ext and tk.peek()[1] not in (',', ''):
                init = self.parse_value(tk, ty)
            r = (ty, init, const)
        self.ginit[name] = r
        return r

    # ---- functions
    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            ft = self.func_text.get(name)
            if ft is None:
                return None
            f = Function(self, name, *ft)
            self.funcs[name] = f
        return f

    def line_of(self, dbg):
        """source line of a !dbg attachment"""
        t = self.md_text.get(dbg, '')
        m = re.search(r'DILocation\(line: (\d+)(?:, column: (\d+))?, scope: (!\d+)', t)
        if not m:
            return None
        return int(m.group(1)), self._scope_file(m.group(3))

    def _scope_file(self, s):
        for _ in range(20):
            t = self.md_text.get(s, '')
            m = re.search(r'file: (!\d+)', t)
            if m:
                f = self.md_text.get(m.group(1), '')
                mm = re.search(r'filename: "([^"]*)"', f)
                return mm.group(1) if mm else ''
            m = re.search(r'scope: (!\d+)', t)
            if not m:
                return ''
            s = m.group(1)
        return ''


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text')

    def __init__(self, op, res, ty, a, dbg, text):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.dbg = dbg
        self.text = text

    def __repr__(self):
        return self.text


def skip_attrs(m, tk):
    """Skip parameter attributes; returns dict of interesting ones."""
    out = {}
    while True:
        k, t = tk.peek()
        if k == 'word' and t in PARAM_ATTRS:
            tk.next()
        elif k == 'word' and t in PARAM_ATTRS_ARG:
            tk.next()
            if tk.accept('('):
                if t in ('sret', 'byval', 'byref', 'elementtype', 'preallocated', 'inalloca'):
                    out[t] = m.parse_type(tk)
                    tk.expect(')')
                else:
                    d = 1
                    while d:
                        x = tk.next()[1]
                        d += (x == '(') - (x == ')')
            else:
                tk.next()
        elif k == 'str':
            tk.next()
            if tk.accept('='):
                tk.next()
        else:
            return out


class Function:
    def __init__(self, m, name, header, body):
        self.m = m
        self.name = name
        self._parse_header(header)
        self._parse_body(body)
        self._loops()

    def _parse_header(self, header):
        m = self.m
        # find "@name("
        i = re.search(r'@("(?:[^"])*"|[-\w.$]+)\(', header)
        pre = header[7:i.start()]
        tk = Toks(tokenize(pre))
        # skip linkage etc. until a type parses
        self.ret = None
        while tk.peek()[0] != 'eof':
            k, t = tk.peek()
            if (k == 'word' and (t in PARAM_ATTRS or t in PARAM_ATTRS_ARG)):
                skip_attrs(m, tk)
                continue
            if k == 'word' and t in ('dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'private',
                                     'hidden', 'protected', 'external', 'available_externally',
                                     'weak', 'linkonce', 'default', 'unnamed_addr', 'fastcc',
                                     'coldcc', 'local_unnamed_addr', 'ccc'):
                tk.next()
                continue
            self.ret = m.parse_type(tk)
            break
        rest = header[i.end():]
        tk = Toks(tokenize(rest))
        self.params = []
        self.va = False
        if not tk.accept(')'):
            n = 0
            while True:
                if tk.accept('...'):
                    self.va = True
                else:
                    ty = m.parse_type(tk)
                    at = skip_attrs(m, tk)
                    k, t = tk.peek()
                    if k == 'loc':
                        tk.next()
                        nm = unq(t)[1:]
                    else:
                        nm = str(n)
                    self.params.append((ty, nm, at))
                    n += 1
                if tk.accept(')'):
                    break
                tk.expect(',')
        mm = re.search(r'!dbg (!\d+)', header)
        self.dbg = mm.group(1) if mm else None

    def _parse_body(self, lines):
        self.blocks = {}
        self.order = []
        # join continuation lines
        cur = None
        first = str(len([p for p in self.params]))
        # entry label: if explicit it appears; otherwise number = next unnamed
        stmts = []
        for l in lines:
            if not l.strip():
                continue
            if l[0] not in ' \t':
                stmts.append(l)
                continue
            s = l.strip()
            if s.startswith(';'):
                continue
            if re.match(r'^(to label |catch |cleanup\b|filter |i\d+ -?\d+, label|\])', s) and stmts:
                stmts[-1] += ' ' + s
                continue
            stmts.append('  ' + s)
        for l in stmts:
            if l[0] not in ' \t':
                lab = re.match(r'^("(?:[^"])*"|[-\w.$]+):', l).group(1).strip('"')
                cur = []
                self.blocks[lab] = cur
                self.order.append(lab)
                continue
            if cur is None:
                # the entry block's number is not printed; compute it lazily
                cur = []
                lab = '__entry__'
                self.blocks[lab] = cur
                self.order.append(lab)
            s = l.strip()
            ins = self._parse_ins(s)
            if ins is not None:
                cur.append(ins)
        # entry naming: numeric entry label
        e = self.order[0]
        if e == '__entry__':
            num = sum(1 for p in self.params if p[1].isdigit())
            lab = str(num)
            self.blocks[lab] = self.blocks.pop('__entry__')
            self.order[0] = lab
        self.entry = self.order[0]
        self.succs = {}
        for b, ins in self.blocks.items():
            t = ins[-1]
            if t.op == 'br':
                s = [t.a[1], t.a[2]] if t.a[0] is not None else [t.a[1]]
            elif t.op == 'switch':
                s = [t.a[1]] + [x[1] for x in t.a[2]]
            elif t.op == 'invoke':
                s = [t.a['normal'], t.a['unwind']]
            else:
                s = []
            self.succs[b] = s

    def _parse_ins(self, s):
        m = self.m
        dbg = None
        i = s.find(', !')
        if i >= 0:
            mm = re.search(r'!dbg (!\d+)', s[i:])
            if mm:
                dbg = mm.group(1)
            # strip trailing metadata; but keep metadata args inside calls (dbg intrinsics)
            s2 = re.sub(r'(, !\w[\w.]* !\d+)+\s*$', '', s)
            s = s2
        if 'llvm.dbg.' in s:
            return None
        s = re.sub(r' #\d+', lambda x: x.group(0), s)
        tk = Toks(tokenize(s))
        res = None
        if tk.peek()[0] == 'loc' and tk.peek(1)[1] == '=':
            res = unq(tk.next()[1])[1:]
            tk.next()
        op = tk.next()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = tk.next()[1]
        tv = lambda: self._tv(tk)
        ty = None
        a = None
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv',
                  'urem', 'srem', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            flags = []
            while tk.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz',
                                   'arcp', 'contract', 'afn', 'reassoc'):
                flags.append(tk.next()[1])
            ty = m.parse_type(tk)
            x = m.parse_value(tk, ty)
            tk.expect(',')
            y = m.parse_value(tk, ty)
            a = (x, y, flags)
        elif op == 'fneg':
            ty, x = tv()
            a = (x,)
        elif op in ('icmp', 'fcmp'):
            pred = tk.next()[1]
            while tk.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                tk.next()
            ty = m.parse_type(tk)
            x = m.parse_value(tk, ty)
            tk.expect(',')
            y = m.parse_value(tk, ty)
            a = (pred, x, y)
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp',
                    'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'):
            while tk.peek()[1] in ('nneg', 'nuw', 'nsw'):
                tk.next()
            ft, x = tv()
            tk.expect('to')
            ty = m.parse_type(tk)
            a = (ft, x)
        elif op == 'load':
            while tk.peek()[1] in ('atomic', 'volatile'):
                tk.next()
            ty = m.parse_type(tk)
            tk.expect(',')
            _, p = tv()
            a = (p,)
        elif op == 'store':
            while tk.peek()[1] in ('atomic', 'volatile'):
                tk.next()
            ty, v = tv()
            tk.expect(',')
            _, p = tv()
            a = (v, p)
        elif op == 'alloca':
            ty = m.parse_type(tk)
            n = None
            if tk.accept(','):
                if tk.peek()[1] != 'align':
                    nt = m.parse_type(tk)
                    n = m.parse_value(tk, nt)
            a = (n,)
        elif op == 'getelementptr':
            while tk.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                tk.next()
            bt = m.parse_type(tk)
            tk.expect(',')
            ops = [tv()]
            while tk.accept(','):
                ops.append(tv())
            ty = PTR
            a = (bt, ops)
        elif op == 'phi':
            while tk.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                tk.next()
            ty = m.parse_type(tk)
            inc = []
            while True:
                tk.expect('[')
                v = m.parse_value(tk, ty)
                tk.expect(',')
                b = unq(tk.next()[1])[1:]
                tk.expect(']')
                inc.append((v, b))
                if not tk.accept(','):
                    break
            a = inc
        elif op == 'select':
            while tk.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                tk.next()
            ct, c = tv()
            tk.expect(',')
            ty, x = tv()
            tk.expect(',')
            _, y = tv()
            a = (c, x, y)
        elif op == 'br':
            if tk.peek()[1] == 'label':
                tk.next()
                a = (None, unq(tk.next()[1])[1:])
            else:
                _, c = tv()
                tk.expect(',')
                tk.expect('label')
                b1 = unq(tk.next()[1])[1:]
                tk.expect(',')
                tk.expect('label')
                b2 = unq(tk.next()[1])[1:]
                a = (c, b1, b2)
        elif op == 'switch':
            ty, v = tv()
            tk.expect(',')
            tk.expect('label')
            d = unq(tk.next()[1])[1:]
            tk.expect('[')
            cases = []
            while not tk.accept(']'):
                ct = m.parse_type(tk)
                cv = m.parse_value(tk, ct)
                tk.expect(',')
                tk.expect('label')
                cases.append((cv[1], unq(tk.next()[1])[1:]))
            a = (v, d, cases)
        elif op == 'ret':
            if tk.peek()[1] == 'void':
                a = None
            else:
                ty, v = tv()
                a = v
        elif op in ('call', 'invoke'):
            # flags, cc, ret attrs
            while True:
                k, t = tk.peek()
                if k == 'word' and t in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
                                         'reassoc', 'fastcc', 'coldcc', 'ccc'):
                    tk.next()
                elif k == 'word' and (t in PARAM_ATTRS or t in PARAM_ATTRS_ARG):
                    skip_attrs(m, tk)
                elif k == 'str':
                    skip_attrs(m, tk)
                else:
                    break
            ty = m.parse_type(tk)
            if tk.peek()[1] == 'asm':
                a = {'callee': ('asm',), 'args': []}
                return Ins(op, res, VOID, a, dbg, s) if op == 'call' else None
            callee = m.parse_value(tk, PTR)
            fty = ty
            if ty[0] == 'func':
                ty = ty[1]
            tk.expect('(')
            args = []
            if not tk.accept(')'):
                while True:
                    at = m.parse_type(tk)
                    attrs = skip_attrs(m, tk)
                    if at[0] == 'metadata':
                        # skip metadata operand
                        d = 0
                        while not (d == 0 and tk.peek()[1] in (',', ')')):
                            x = tk.next()[1]
                            d += (x == '(') - (x == ')')
                        args.append((at, None, attrs))
                    else:
                        args.append((at, m.parse_value(tk, at), attrs))
                    if tk.accept(')'):
                        break
                    tk.expect(',')
            a = {'callee': callee, 'args': args}
            if op == 'invoke':
                while tk.peek()[1] != 'to':
                    tk.next()
                tk.expect('to')
                tk.expect('label')
                a['normal'] = unq(tk.next()[1])[1:]
                tk.expect('unwind')
                tk.expect('label')
                a['unwind'] = unq(tk.next()[1])[1:]
        elif op == 'landingpad':
            ty = m.parse_type(tk)
            clauses = []
            cleanup = False
            while tk.peek()[0] != 'eof':
                t = tk.next()[1]
                if t == 'cleanup':
                    cleanup = True
                elif t in ('catch', 'filter'):
                    ct, v = tv()
                    clauses.append((t, v))
                else:
                    raise Unsupported('landingpad ' + t)
            a = (cleanup, clauses)
        elif op == 'resume':
            ty, v = tv()
            a = v
        elif op == 'unreachable':
            a = None
        elif op == 'extractvalue':
            at, v = tv()
            idx = []
            while tk.accept(','):
                idx.append(int(tk.next()[1]))
            ty = at
            a = (v, idx)
        elif op == 'insertvalue':
            ty, v = tv()
            tk.expect(',')
            et, e = tv()
            idx = []
            while tk.accept(','):
                idx.append(int(tk.next()[1]))
            a = (v, e, idx)
        elif op == 'freeze':
            ty, v = tv()
            a = (v,)
        elif op == 'atomicrmw':
            while tk.peek()[1] in ('volatile',):
                tk.next()
            rop = tk.next()[1]
            _, p = tv()
            tk.expect(',')
            ty, v = tv()
            a = (rop, p, v)
        elif op == 'cmpxchg':
            while tk.peek()[1] in ('weak', 'volatile'):
                tk.next()
            _, p = tv()
            tk.expect(',')
            ty, c = tv()
            tk.expect(',')
            _, n = tv()
            a = (p, c, n)
        elif op == 'fence':
            a = None
        else:
            a = ('unsupported', s)
            op = 'unsupported'
        return Ins(op, res, ty, a, dbg, s)

    def _tv(self, tk):
        ty = self.m.parse_type(tk)
        skip_attrs(self.m, tk)
        return ty, self.m.parse_value(tk, ty)

    def _loops(self):
        """Natural loops: header -> set of blocks, via dominators."""
        succs = self.succs
        order = []
        seen = set()
        stack = [(self.entry, iter(succs[self.entry]))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succs[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in succs[b]:
                preds[s].append(b)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in succs[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += preds[x]
        self.loops = loops
        self.preds = preds
