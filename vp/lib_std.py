"""Assumed contracts on the standard library, the C++ runtime and a few Boost helpers.

Everything here is an *assumption* of the proofs (ISO C++ semantics of the named function); each use
is recorded in the evidence as part of the trusted base."""
import re
import z3
from .terms import *
from .ir import Unsupported
from .mem import *
from .exec import Outcome, Forall, PathEnd, Exec

INTS = {'char': 8, 'unsigned char': 8, 'signed char': 8, 'bool': 8, 'short': 16, 'unsigned short': 16,
        'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'wchar_t': 32, 'char16_t': 16,
        'char32_t': 32, 'long long': 64, 'unsigned long long': 64, 'std::byte': 8}


def match_angle(s, i):
    """s[i] == '<': index just past the matching '>'"""
    d = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>':
            if s[i - 1] != '-':
                d -= 1
                if d == 0:
                    return i + 1
        elif c == '(':
            # skip parenthesised
            e = 1
            i += 1
            while e and i < n:
                e += (s[i] == '(') - (s[i] == ')')
                i += 1
            continue
        i += 1
    return -1


def split_args(s):
    out = []
    d = 0
    cur = ''
    for c in s:
        if c in '<([{':
            d += 1
        elif c in '>)]}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


_norm = {}


def norm(d):
    """normalise a demangled name: Str<T>, Vec<T>, It<T*>"""
    r = _norm.get(d)
    if r is not None:
        return r
    s = d.replace('operator<<', 'operator_SHL').replace('operator<=', 'operator_LE') \
         .replace('operator>>', 'operator_SHR').replace('operator>=', 'operator_GE') \
         .replace('operator->', 'operator_ARROW').replace('operator<', 'operator_LT').replace('operator>', 'operator_GT')
    for key, rep in (('std::__cxx11::basic_string<', 'Str'), ('std::vector<', 'Vec'),
                     ('__gnu_cxx::__normal_iterator<', 'It')):
        while True:
            i = s.find(key)
            if i < 0:
                break
            j = match_angle(s, i + len(key) - 1)
            if j < 0:
                break
            a = split_args(s[i + len(key):j - 1])
            s = s[:i] + rep + '<' + a[0] + '>' + s[j:]
    _norm[d] = s
    return s


CONT = re.compile(r'^(?:.*? )?(Str|Vec)<([^<>]*)>::((?:~?\w+)|operator\S+?|operator(?: \w+)+)(?:<.*>)?\((.*)\)( const)?(?: \[.*\])?$')


def mk(kind, elem, n, arr):
    w = INTS[elem]
    if kind == 'Str':
        return StrVal(n, arr, w, 'Str<%s>' % elem, 32, True)
    return StrVal(n, arr, w, 'Vec<%s>' % elem, 24, False)


def ptr_view(ex, st, p, w):
    """(FArr of element width w indexed from p, index base)"""
    es = w // 8
    if isinstance(p.o, tuple) and p.o[0] == 'S':
        sv = ex.strval(st, p.o)
        if sv.w != w:
            raise Unsupported('view width')
        i = ex.elem_index(p.off, es)
        if i is None:
            raise Unsupported('unaligned view')
        a = sv.arr
        if sv.nul:
            a0, n0 = a, sv.n
            a = Lam(lambda k, a0=a0, n0=n0: ex._nulsel(a0, n0, k), w)
        return a if is_c(i) and i == 0 else Shift(a, i)
    if w == 8:
        ob = st.mem[p.o]
        if is_c(p.off) and ex.range_of(ob, p.off, 0) is None:
            # snapshot of cells
            snap = {}

            def sel(k, ob=ob, p=p):
                k = S(k)
                if not is_c(k):
                    raise Unsupported('symbolic read of cells')
                b = ex.cell_byte(st, ob, p.off + k)
                if b is None:
                    raise Unsupported('uninitialised byte')
                return b
            if is_c(ob.size) and ob.size - p.off <= 128:
                try:
                    base = Base('snap')
                    for k in range(ob.size - p.off):
                        b = ex.cell_byte(st, ob, p.off + k)
                        if b is not None:
                            base = Store(base, k, b)
                    return base
                except Unsupported:
                    pass
            return Lam(sel, 8)
        a, s = ex.load_bytes_fn(st, p)
        return Shift(a, S(sub(p.off, s)))
    a, s = ex.load_bytes_fn(st, p)
    o = S(sub(p.off, s))

    def selw(k):
        b = add(o, mul(k, es))
        return ex.join([N(a.sel(S(add(b, j)))) for j in range(es)])
    return Lam(selw, w)


def cstr_len(ex, st, p):
    """length of the C string at p"""
    if isinstance(p.o, tuple) and p.o[0] == 'S':
        sv = ex.strval(st, p.o)
        # assume no interior NUL unless provably otherwise: not sound in general -> unsupported
        if is_c(sv.n) and is_c(p.off):
            for i in range(p.off, sv.n + 1):
                b = 0 if i == sv.n else S(sv.arr.sel(i))
                if is_c(b):
                    if b == 0:
                        return i - p.off
                else:
                    break
        raise Unsupported('strlen of a dynamic string')
    ob = st.mem.get(p.o)
    if ob is None or not is_c(p.off):
        raise Unsupported('strlen')
    for i in range(p.off, ob.size if is_c(ob.size) else 0):
        b = ex.load_nc(st, Ptr(p.o, i), 1)
        b = S(b)
        if not is_c(b):
            raise Unsupported('strlen of symbolic bytes')
        if b == 0:
            return i - p.off
    raise Unsupported('strlen: no terminator')


def eq_arrays(ex, st, a, na, b, nb, w, name='eq'):
    """Bool: the two sequences are equal (with the defining facts added to st)"""
    ln = S(eq(na, nb))
    if ln is False:
        return False
    n = S(na) if not is_c(na) else na
    if not is_c(n):
        n2 = S(nb) if not is_c(nb) else nb
        if is_c(n2):
            n = n2
    if is_c(n) and n <= 80:
        return And(ln, *[eq(a.sel(i), b.sel(i), w) for i in range(n)])
    e = fresh_bool(name)
    k = fresh_bv(name + '.w', 64)
    ex.assume(st, Implies(e, ln))
    ex.assume(st, Or(e, Not(ln), And(ult(k, na), Not(eq(a.sel(k), b.sel(k), w)))))
    st.foralls.append(Forall(na, lambda m: [Implies(e, eq(a.sel(m), b.sel(m), w))], name))
    ex.hints.append(k)
    return e


def cmp_arrays(ex, st, a, na, b, nb, w, name='cmp', signed=False):
    """three-way lexicographic comparison: returns (lt, eq) Bools"""
    if is_c(na) and is_c(nb) and max(na, nb) <= 64:
        x, y = ([S(v.sel(i)) for i in range(n)] for v, n in ((a, na), (b, nb)))
        if all(is_c(v) for v in x + y):
            if signed:
                x, y = [sgn(v, w) for v in x], [sgn(v, w) for v in y]
            return x < y, x == y
    k = fresh_bv(name + '.w', 64)
    mn = Ite(B(ult(na, nb)), Z(na, 64), Z(nb, 64), 64)
    ex.assume(st, ule(k, mn))
    st.foralls.append(Forall(k, lambda m: [eq(a.sel(m), b.sel(m), w)], name))
    inside = ult(k, mn)
    d = Not(eq(a.sel(k), b.sel(k), w))
    ex.assume(st, Implies(inside, d))
    ex.hints.append(k)
    if signed:
        l = z3.simplify(Z(a.sel(k), w) < Z(b.sel(k), w))
    else:
        l = ult(a.sel(k), b.sel(k), w)
    lt = Ite(B(inside), B(l), B(ult(na, nb)), 1)
    e = And(Not(inside), eq(na, nb))
    return lt, e


def alloc_params(args):
    return args


class Lib:
    """container methods"""

    def __init__(self, ex):
        self.ex = ex
        ex.handlers.append((CONT_RX(), self.container, None))

    def get(self, st, p, what=''):
        sv = self.ex.get_abs(st, p, StrVal)
        if sv is None:
            raise Unsupported('not a container at %r (%s)' % (p, what))
        return sv

    def container(self, ex, st, c):
        mm = CONT.match(norm(c.d))
        kind, elem, meth, params, const = mm.groups()
        if elem not in INTS:
            return NotImplemented
        fn = getattr(self, 'm_' + opname(meth, kind), None)
        if fn is None:
            if kind == 'Vec':
                raise Unsupported('no contract for ' + norm(c.d))
            raise Unsupported('no contract for ' + norm(c.d))
        ex.trusted.add('std::%s<%s>::%s' % ('basic_string' if kind == 'Str' else 'vector', elem, meth))
        ps = split_args(params)
        return fn(st, c, kind, elem, ps, c.args)

    # constructors
    def m_ctor(self, st, c, kind, elem, ps, a):
        ex = self.ex
        w = INTS[elem]
        this = a[0]
        ps = [p for p in ps]
        # drop trailing allocator
        if ps and 'alloc' in ps[-1].lower() and not ps[-1].startswith(('Str', 'Vec', 'It')):
            ps = ps[:-1]
        a = a[1:1 + len(ps)] if True else a

        def T(i):
            return ps[i]
        if not ps:
            sv = mk(kind, elem, 0, Const(0, w))
        elif len(ps) == 1 and ps[0].endswith('&&') and ps[0].startswith(kind):
            src = self.get(st, a[0])
            ex.put_abs(st, a[0], mk(kind, elem, 0, Const(0, w)))
            sv = mk(kind, elem, src.n, src.arr)
        elif len(ps) == 1 and ps[0].startswith(kind + '<'):
            src = self.get(st, a[0])
            sv = mk(kind, elem, src.n, src.arr)
        elif kind == 'Str' and ps[0] == elem + ' const*' and len(ps) == 1:
            n = cstr_len(ex, st, a[0])
            sv = mk(kind, elem, n, ptr_view(ex, st, a[0], w))
        elif kind == 'Str' and ps[0] == elem + ' const*' and len(ps) == 2 and ps[1] == 'unsigned long':
            sv = self.from_ptr(st, kind, elem, a[0], a[1])
        elif ps[0] == 'unsigned long' and len(ps) == 2 and kind == 'Str':
            sv = mk(kind, elem, a[0], Const(a[1], w))
        elif ps[0] == 'unsigned long' and len(ps) == 2:
            v = ex.load(st, a[1], w // 8)
            sv = mk(kind, elem, a[0], Const(v, w))
        elif ps[0] == 'unsigned long' and len(ps) == 1 and kind == 'Vec':
            sv = mk(kind, elem, a[0], Const(0, w))
        elif kind == 'Str' and ps[0].startswith('Str<') and len(ps) in (2, 3):
            src = self.get(st, a[0])
            pos = a[1]
            n = a[2] if len(ps) == 3 else mask(64)
            return self.substr_into(st, kind, elem, this, src, pos, n)
        elif len(ps) == 2 and ps[0] == ps[1]:
            sv = self.from_iters(st, kind, elem, a[0], a[1], ps[0])
        elif len(ps) == 3 and ps[0] == ps[1]:
            sv = self.from_iters(st, kind, elem, a[0], a[1], ps[0])
        elif ps[0].startswith('std::initializer_list'):
            # passed as (ptr, len)
            sv = self.from_ptr(st, kind, elem, a[0], c.args[2])
        else:
            raise Unsupported('constructor %s' % norm(c.d))
        ex.put_abs(st, this, sv)
        return None

    def from_ptr(self, st, kind, elem, p, n):
        ex = self.ex
        w = INTS[elem]
        n = S(n)
        if is_c(n) and n == 0:
            return mk(kind, elem, 0, Const(0, w))
        if p.o == 0:
            ex.oblige(st, ex.site('null pointer only with zero length'), eq(n, 0))
            return mk(kind, elem, 0, Const(0, w))
        ex.bounds(st, p, mul(n, w // 8), 'read')
        return mk(kind, elem, n, ptr_view(ex, st, p, w))

    def from_iters(self, st, kind, elem, b, e, ty):
        ex = self.ex
        w = INTS[elem]
        if isinstance(b, Ptr) and isinstance(e, Ptr):
            if b.o != e.o:
                raise Unsupported('iterators into different objects')
            # source element width
            sw = None
            t = ty
            mm = re.match(r'(?:It<)?([\w ]+?)(?: const)?\*>?$', t)
            if not mm or mm.group(1) not in INTS:
                raise Unsupported('iterator type ' + t)
            sw = INTS[mm.group(1)]
            n = S(sub(e.off, b.off))
            if sw != 8:
                n = ex.elem_index(n, sw // 8)
                if n is None:
                    raise Unsupported('iterator distance')
            if is_c(n) and n >> 63 or not is_c(n):
                ex.oblige(st, ex.site('iterator range is valid'), ule(b.off, e.off))
            if b.o == 0:
                return mk(kind, elem, 0, Const(0, w))
            if is_c(n) and n == 0:
                return mk(kind, elem, 0, Const(0, w))
            ex.bounds(st, b, mul(n, sw // 8), 'read')
            a = ptr_view(ex, st, b, sw)
            if sw != w:
                if sw > w:
                    a2 = Lam(lambda k, a=a: trunc(a.sel(k), sw, w), w)
                else:
                    sg = mm.group(1) in ('char', 'signed char', 'short', 'int', 'long')
                    a2 = Lam(lambda k, a=a: (sext if sg else zext)(a.sel(k), sw, w), w)
                a = a2
            return mk(kind, elem, n, a)
        raise Unsupported('iterators %r' % (b,))

    def m_dtor(self, st, c, kind, elem, ps, a):
        self.ex.del_abs(st, a[0])

    # observers
    def m_size(self, st, c, kind, elem, ps, a):
        return self.get(st, a[0]).n
    m_length = m_size

    def m_max_size(self, st, c, kind, elem, ps, a):
        return mask(62)

    def m_capacity(self, st, c, kind, elem, ps, a):
        k = fresh_bv('capacity', 64)
        self.ex.assume(st, ule(self.get(st, a[0]).n, k))
        return k

    def m_empty(self, st, c, kind, elem, ps, a):
        return eq(self.get(st, a[0]).n, 0)

    def buf(self, p, off=0):
        return Ptr(('S', p.o, p.off), off)

    def elem_ptr(self, p, i, w):
        return Ptr(('S', p.o, p.off), S(mul(i, w // 8)))

    def m_op_index(self, st, c, kind, elem, ps, a):
        ex = self.ex
        sv = self.get(st, a[0])
        w = sv.w
        ok = ule(a[1], sv.n) if kind == 'Str' else ult(a[1], sv.n)
        if ok is not True:
            if not ex.oblige(st, ex.site('operator[] index in bounds'), ok):
                if S(ok) is False:
                    raise PathEnd('index')
                ex.assume(st, ok)
        return self.elem_ptr(a[0], a[1], w)

    def m_at(self, st, c, kind, elem, ps, a):
        ex = self.ex
        sv = self.get(st, a[0])
        ok = S(ult(a[1], sv.n)) if not isinstance(ult(a[1], sv.n), bool) else ult(a[1], sv.n)
        out = []
        if ok is not False and ex.feasible(st, ok):
            s2 = st.fork()
            ex.assume(s2, ok)
            out.append(Outcome(s2, 'ret', self.elem_ptr(a[0], a[1], sv.w)))
        if ok is not True and ex.feasible(st, Not(ok)):
            s2 = st.fork()
            ex.assume(s2, Not(ok))
            out.append(ex.throw(s2, '_ZTISt12out_of_range'))
        return out

    def m_front(self, st, c, kind, elem, ps, a):
        sv = self.get(st, a[0])
        self.ex.oblige(st, self.ex.site('front() of a non-empty container'), Not(eq(sv.n, 0)))
        return self.elem_ptr(a[0], 0, sv.w)

    def m_back(self, st, c, kind, elem, ps, a):
        sv = self.get(st, a[0])
        self.ex.oblige(st, self.ex.site('back() of a non-empty container'), Not(eq(sv.n, 0)))
        return self.elem_ptr(a[0], S(sub(sv.n, 1)), sv.w)

    def m_data(self, st, c, kind, elem, ps, a):
        self.get(st, a[0])
        return self.buf(a[0])
    m_c_str = m_data
    m_begin = m_data
    m_cbegin = m_data
    m__M_data = m_data

    def m_end(self, st, c, kind, elem, ps, a):
        sv = self.get(st, a[0])
        return self.elem_ptr(a[0], sv.n, sv.w)
    m_cend = m_end

    def m_rbegin(self, st, c, kind, elem, ps, a):
        # reverse_iterator is returned through sret: {iterator}
        this = a[1]
        sv = self.get(st, this)
        self.ex.store_nc(st, a[0], 8, self.elem_ptr(this, sv.n, sv.w))

    def m_rend(self, st, c, kind, elem, ps, a):
        self.ex.store_nc(st, a[0], 8, self.buf(a[1]))

    def m_get_allocator(self, st, c, kind, elem, ps, a):
        return None

    # modifiers
    def m_reserve(self, st, c, kind, elem, ps, a):
        self.get(st, a[0])
    m_shrink_to_fit = m_reserve

    def m_clear(self, st, c, kind, elem, ps, a):
        sv = self.get(st, a[0])
        self.ex.put_abs(st, a[0], sv.upd(n=0))

    def m_resize(self, st, c, kind, elem, ps, a):
        sv = self.get(st, a[0])
        n = a[1]
        v = 0
        if len(ps) == 2:
            v = a[2] if kind == 'Str' else self.ex.load(st, a[2], sv.w // 8)
        old = sv.n
        arr = sv.arr
        new = Lam(lambda k: Ite(B(ult(k, old)), arr.sel(k), v, sv.w), sv.w)
        self.ex.put_abs(st, a[0], sv.upd(n=n, arr=new if not (is_c(n) and is_c(old) and n <= old) else arr))

    def m_push_back(self, st, c, kind, elem, ps, a):
        sv = self.get(st, a[0])
        v = a[1]
        if isinstance(v, Ptr):
            v = self.ex.load(st, v, sv.w // 8)
        self.ex.put_abs(st, a[0], sv.upd(n=S(add(sv.n, 1)), arr=Store(sv.arr, sv.n, v)))
        return a[0]

    def m_emplace_back(self, st, c, kind, elem, ps, a):
        self.m_push_back(st, c, kind, elem, ps, a)
        sv = self.get(st, a[0])
        return self.elem_ptr(a[0], S(sub(sv.n, 1)), sv.w)

    def m_pop_back(self, st, c, kind, elem, ps, a):
        sv = self.get(st, a[0])
        self.ex.oblige(st, self.ex.site('pop_back() of a non-empty container'), Not(eq(sv.n, 0)))
        self.ex.put_abs(st, a[0], sv.upd(n=S(sub(sv.n, 1))))

    def append_sv(self, st, p, n, arr):
        sv = self.get(st, p)
        n = S(n)
        if is_c(n) and n <= 8:
            x = sv.arr
            for i in range(n):
                x = Store(x, S(add(sv.n, i)), arr.sel(i))
        else:
            x = CopyR(sv.arr, sv.n, arr, 0, n)
        self.ex.put_abs(st, p, sv.upd(n=S(add(sv.n, n)), arr=x))
        return p

    def m_append(self, st, c, kind, elem, ps, a):
        ex = self.ex
        w = INTS[elem]
        p = a[0]
        if len(ps) == 1 and ps[0].startswith('Str<'):
            o = self.get(st, a[1])
            return self.append_sv(st, p, o.n, o.arr)
        if len(ps) == 1 and ps[0] == elem + ' const*':
            n = cstr_len(ex, st, a[1])
            return self.append_sv(st, p, n, ptr_view(ex, st, a[1], w))
        if len(ps) == 2 and ps[0] == elem + ' const*' and ps[1] == 'unsigned long':
            o = self.from_ptr(st, kind, elem, a[1], a[2])
            return self.append_sv(st, p, o.n, o.arr)
        if len(ps) == 2 and ps[0] == 'unsigned long':
            return self.append_sv(st, p, a[1], Const(a[2], w))
        if len(ps) == 3 and ps[0].startswith('Str<'):
            o = self.get(st, a[1])
            n = self.clip(a[2], a[3], o.n)
            ex.oblige(st, ex.site('append position in range'), ule(a[2], o.n))
            return self.append_sv(st, p, n, Shift(o.arr, a[2]))
        if len(ps) == 2 and ps[0] == ps[1]:
            o = self.from_iters(st, kind, elem, a[1], a[2], ps[0])
            return self.append_sv(st, p, o.n, o.arr)
        raise Unsupported('append %s' % norm(c.d))

    def clip(self, pos, n, size):
        rest = sub(size, pos)
        c = ult(n, rest)
        return S(Ite(c if isinstance(c, bool) else B(c), n, rest, 64))

    def m_op_pluseq(self, st, c, kind, elem, ps, a):
        if ps[0] == elem:
            self.m_push_back(st, c, kind, elem, ps, a)
            return a[0]
        return self.m_append(st, c, kind, elem, ps, a)

    def m_op_assign(self, st, c, kind, elem, ps, a):
        ex = self.ex
        w = INTS[elem]
        if ps[0].endswith('&&') and ps[0].startswith(kind):
            src = self.get(st, a[1])
            self.get(st, a[0])
            ex.put_abs(st, a[0], mk(kind, elem, src.n, src.arr))
            ex.put_abs(st, a[1], mk(kind, elem, 0, Const(0, w)))   # libstdc++: the source (also on self-move) is left empty
        elif ps[0].startswith(kind + '<'):
            src = self.get(st, a[1])
            self.get(st, a[0])
            ex.put_abs(st, a[0], mk(kind, elem, src.n, src.arr))
        elif ps[0] == elem + ' const*':
            n = cstr_len(ex, st, a[1])
            ex.put_abs(st, a[0], mk(kind, elem, n, ptr_view(ex, st, a[1], w)))
        elif ps[0] == elem:
            ex.put_abs(st, a[0], mk(kind, elem, 1, Const(a[1], w)))
        else:
            raise Unsupported('assignment ' + norm(c.d))
        return a[0]

    def m_assign(self, st, c, kind, elem, ps, a):
        ex = self.ex
        w = INTS[elem]
        if len(ps) == 1:
            return self.m_op_assign(st, c, kind, elem, ps, a)
        if len(ps) == 2 and ps[0] == elem + ' const*' and ps[1] == 'unsigned long':
            ex.put_abs(st, a[0], self.from_ptr(st, kind, elem, a[1], a[2]))
            return a[0]
        if len(ps) == 2 and ps[0] == ps[1]:
            ex.put_abs(st, a[0], self.from_iters(st, kind, elem, a[1], a[2], ps[0]))
            return a[0]
        if len(ps) == 2 and ps[0] == 'unsigned long':
            v = a[2] if kind == 'Str' else ex.load(st, a[2], w // 8)
            ex.put_abs(st, a[0], mk(kind, elem, a[1], Const(v, w)))
            return a[0]
        raise Unsupported('assign ' + norm(c.d))

    def m_insert(self, st, c, kind, elem, ps, a):
        ex = self.ex
        w = INTS[elem]
        # iterator-returning overloads return ptr directly
        this = a[0]
        sv = self.get(st, this)

        def do(pos, n, arr):
            old, sn = sv.arr, sv.n
            new = Lam(lambda k: Ite(B(ult(k, pos)), old.sel(k),
                                    Ite(B(ult(sub(k, pos), n)), arr.sel(S(sub(k, pos))), old.sel(S(sub(k, n))), w), w), w)
            p0 = S(eq(pos, sn))
            if p0 is True:
                self.append_sv(st, this, n, arr)
            else:
                ex.put_abs(st, this, sv.upd(n=S(add(sn, n)), arr=new))
        if len(ps) >= 2 and ps[0].startswith('It<') and ps[1] == ps[-1] and len(ps) == 3:
            o = self.from_iters(st, kind, elem, a[2], a[3], ps[1])
            i = ex.elem_index(a[1].off, w // 8)
            do(i, o.n, o.arr)
            return a[1]
        if len(ps) == 2 and ps[0].startswith('It<'):
            i = ex.elem_index(a[1].off, w // 8)
            v = a[2]
            if isinstance(v, Ptr):
                v = ex.load(st, v, w // 8)
            do(i, 1, Const(v, w))
            return a[1]
        if kind == 'Str' and ps[0] == 'unsigned long' and len(ps) == 3 and ps[1] == 'unsigned long':
            ex.oblige(st, ex.site('insert position in range'), ule(a[1], sv.n))
            do(a[1], a[2], Const(a[3], w))
            return this
        if kind == 'Str' and ps[0] == 'unsigned long' and len(ps) == 2 and ps[1].startswith('Str<'):
            o = self.get(st, a[2])
            ex.oblige(st, ex.site('insert position in range'), ule(a[1], sv.n))
            do(a[1], o.n, o.arr)
            return this
        if kind == 'Str' and ps[0] == 'unsigned long' and len(ps) == 2 and ps[1] == elem + ' const*':
            n = cstr_len(ex, st, a[2])
            ex.oblige(st, ex.site('insert position in range'), ule(a[1], sv.n))
            do(a[1], n, ptr_view(ex, st, a[2], w))
            return this
        raise Unsupported('insert ' + norm(c.d))

    def m_erase(self, st, c, kind, elem, ps, a):
        ex = self.ex
        w = INTS[elem]
        this = a[0]
        sv = self.get(st, this)
        if kind == 'Str' and ps[0] == 'unsigned long':
            pos = a[1]
            n = self.clip(pos, a[2], sv.n)
            ex.oblige(st, ex.site('erase position in range'), ule(pos, sv.n))
            ret = this
        elif len(ps) == 1:
            pos = ex.elem_index(a[1].off, w // 8)
            n = 1
            ex.oblige(st, ex.site('erase iterator in range'), ult(pos, sv.n))
            ret = a[1]
        else:
            pos = ex.elem_index(a[1].off, w // 8)
            n = S(sub(ex.elem_index(a[2].off, w // 8), pos))
            ex.oblige(st, ex.site('erase range valid'), And(ule(pos, sv.n), ule(n, sub(sv.n, pos))))
            ret = a[1]
        old = sv.arr
        new = Lam(lambda k: Ite(B(ult(k, pos)), old.sel(k), old.sel(S(add(k, n))), w), w)
        ex.put_abs(st, this, sv.upd(n=S(sub(sv.n, n)), arr=new))
        return ret

    def m_swap(self, st, c, kind, elem, ps, a):
        x, y = self.get(st, a[0]), self.get(st, a[1])
        self.ex.put_abs(st, a[0], y)
        self.ex.put_abs(st, a[1], x)

    def substr_into(self, st, kind, elem, dst, sv, pos, n):
        ex = self.ex
        ok = ule(pos, sv.n)
        ok = S(ok) if not isinstance(ok, bool) else ok
        out = []
        if ok is not False and ex.feasible(st, ok):
            s2 = st.fork()
            ex.assume(s2, ok)
            m = self.clip(pos, n, sv.n)
            ex.put_abs(s2, dst, mk(kind, elem, m, Shift(sv.arr, pos)))
            out.append(Outcome(s2, 'ret', None))
        if ok is not True and ex.feasible(st, Not(ok)):
            s2 = st.fork()
            ex.assume(s2, Not(ok))
            out.append(ex.throw(s2, '_ZTISt12out_of_range'))
        return out

    def m_substr(self, st, c, kind, elem, ps, a):
        return self.substr_into(st, kind, elem, a[0], self.get(st, a[1]), a[2], a[3])

    def m_compare(self, st, c, kind, elem, ps, a):
        ex = self.ex
        x = self.get(st, a[0])
        w = x.w
        if len(ps) == 1 and ps[0].startswith('Str<'):
            y = self.get(st, a[1])
            yn, ya = y.n, y.arr
            xn, xa = x.n, x.arr
        elif len(ps) == 1:
            yn = cstr_len(ex, st, a[1])
            ya = ptr_view(ex, st, a[1], w)
            xn, xa = x.n, x.arr
        else:
            raise Unsupported('compare ' + norm(c.d))
        lt, e = cmp_arrays(ex, st, xa, xn, ya, yn, w)
        return Ite(e, 0, Ite(lt, mask(32), 1, 32), 32)

    def m_find(self, st, c, kind, elem, ps, a):
        ex = self.ex
        x = self.get(st, a[0])
        if ps[0] == elem:
            v = a[1]
            pos = a[2]
            r = fresh_bv('find', 64)
            npos = mask(64)
            ex.assume(st, Or(eq(r, npos), And(ule(pos, r), ult(r, x.n), eq(x.arr.sel(r), v, x.w))))
            st.foralls.append(Forall(x.n, lambda m: [Implies(And(ule(pos, m), ult(m, r)), Not(eq(x.arr.sel(m), v, x.w)))], 'find'))
            ex.hints.append(r)
            return r
        raise Unsupported('find ' + norm(c.d))


def opname(m, kind):
    if m.startswith('~'):
        return 'dtor'
    if m in ('basic_string', 'vector'):
        return 'ctor'
    return {'operator[]': 'op_index', 'operator+=': 'op_pluseq', 'operator=': 'op_assign'}.get(m, m)


class CONT_RX:
    """regex-like: matches on the normalised name"""

    def match(self, d):
        if d.startswith('_Z'):
            return None
        n = norm(d)
        if 'Str<' not in n and 'Vec<' not in n:
            return None
        m = CONT.match(n)
        if m and m.group(2) in INTS:
            return m
        return None


class NormRx:
    def __init__(self, rx):
        self.rx = re.compile(rx)

    def match(self, d):
        if d.startswith('_Z'):
            return None
        return self.rx.match(norm(d))


def H(ex, rx, fn, trusted=None):
    ex.handlers.append((NormRx(rx), fn, trusted))
    ex.hcache.clear()


def nop(ex, st, c):
    return None


def install(ex):
    lib = Lib(ex)
    ex.lib = lib
    ET = r'(char|unsigned char|signed char|unsigned int|int|unsigned long|long|unsigned short|short)'
    CNT = r'(Str|Vec)<%s>' % ET

    # relational operators of strings / integer vectors
    def relop(ex, st, c):
        n = norm(c.d)
        mm = re.match(r'^bool std::operator(==|!=|_LT|_GT|_LE|_GE)<.*>\(' + CNT + r' const&, ' + CNT + r' const&\)$', n)
        op = mm.group(1)
        x, y = lib.get(st, c.args[0]), lib.get(st, c.args[1])
        if op in ('==', '!='):
            e = eq_arrays(ex, st, x.arr, x.n, y.arr, y.n, x.w)
            return e if op == '==' else Not(e)
        if op in ('_GT', '_LE'):
            x, y = y, x
        sg = mm.group(2) == 'Vec' and mm.group(3) in ('signed char', 'int', 'long', 'short', 'char')
        lt, e = cmp_arrays(ex, st, x.arr, x.n, y.arr, y.n, x.w, signed=sg)
        return lt if op in ('_LT', '_GT') else Not(lt)
    H(ex, r'^bool std::operator(==|!=|_LT|_GT|_LE|_GE)<.*>\(' + CNT + r' const&, ' + CNT + r' const&\)$', relop,
      'std relational operators on strings/vectors')

    def rel_cstr(ex, st, c):
        n = norm(c.d)
        neg = 'operator!=' in n
        if re.search(r'\(Str<char> const&, char const\*\)$', n):
            x, p = lib.get(st, c.args[0]), c.args[1]
        else:
            x, p = lib.get(st, c.args[1]), c.args[0]
        ln = cstr_len(ex, st, p)
        e = eq_arrays(ex, st, x.arr, x.n, ptr_view(ex, st, p, 8), ln, 8)
        return Not(e) if neg else e
    H(ex, r'^bool std::operator(==|!=)<.*>\((Str<char> const&, char const\*|char const\*, Str<char> const&)\)$', rel_cstr,
      'std::string ==/!= const char*')

    def plus(ex, st, c):
        n = norm(c.d)
        mm = re.match(r'^Str<char> std::operator\+<.*>\((.*), ([^,]*)\)$', n)
        def seq(ty, v):
            if ty.startswith('Str'):
                s = lib.get(st, v)
                return s.n, s.arr
            if ty == 'char const*':
                return cstr_len(ex, st, v), ptr_view(ex, st, v, 8)
            if ty == 'char':
                return 1, Const(v, 8)
            raise Unsupported('operator+ ' + ty)
        n1, a1 = seq(mm.group(1), c.args[1])
        n2, a2 = seq(mm.group(2), c.args[2])
        if is_c(n2) and n2 <= 8:
            arr = a1
            for i in range(n2):
                arr = Store(arr, S(add(n1, i)), a2.sel(i))
        else:
            arr = CopyR(a1, n1, a2, 0, n2)
        ex.put_abs(st, c.args[0], mk('Str', 'char', S(add(n1, n2)), arr))
        return None
    H(ex, r'^Str<char> std::operator\+<.*>\(.*\)$', plus, 'std::operator+ on strings')

    def swapf(ex, st, c):
        lib.m_swap(st, c, None, None, None, c.args)
    H(ex, r'^void std::swap<.*>\(' + CNT + r'&, ' + CNT + r'&\)$', swapf, 'std::swap of containers')

    # memory primitives
    def memcpy(ex, st, c):
        ex.memcpy(st, c.args[0], c.args[1], c.args[2])
        return c.args[0]
    ex.add_handler(r'^llvm\.mem(cpy|move)\.', memcpy)
    ex.add_handler(r'^mem(cpy|move)$', memcpy, 'memcpy/memmove')

    def memset(ex, st, c):
        v = c.args[1]
        if is_c(v):
            v &= 255
        elif v.size() > 8:
            v = z3.Extract(7, 0, v)
        ex.memset(st, c.args[0], v, c.args[2])
        return c.args[0]
    ex.add_handler(r'^(llvm\.memset\.|memset$)', memset, 'memset')

    def memcmp(ex, st, c):
        p, q, n = c.args
        n = S(n)
        if is_c(n) and n == 0:
            return 0
        ex.bounds(st, p, n, 'read')
        ex.bounds(st, q, n, 'read')
        a, b = ptr_view(ex, st, p, 8), ptr_view(ex, st, q, 8)
        lt, e = cmp_arrays(ex, st, a, n, b, n, 8)
        return Ite(B(e), 0, Ite(B(lt), mask(32), 1, 32), 32)
    ex.add_handler(r'^(memcmp|bcmp)$', memcmp, 'memcmp')

    def strlen(ex, st, c):
        return cstr_len(ex, st, c.args[0])
    ex.add_handler(r'^strlen$', strlen, 'strlen')
    H(ex, r'^std::char_traits<char>::length\(char const\*\)$', strlen, 'strlen')

    def opnew(ex, st, c):
        return ex.alloc(st, c.args[0], 'heap')
    ex.add_handler(r'^(_Znwm|_Znam|_ZnwmSt11align_val_t)$', opnew, 'operator new (never fails)')

    def opdel(ex, st, c):
        p = c.args[0]
        if p.o == 0:
            return None
        if p.o not in st.mem:
            ex.oblige(st, ex.site('deleted object is live'), False)
            raise PathEnd('double free')
        if not (is_c(p.off) and p.off == 0):
            ex.oblige(st, ex.site('delete of the start of an object'), eq(p.off, 0))
        del st.mem[p.o]
        return None
    ex.add_handler(r'^(_ZdlPv|_ZdaPv|_ZdlPvm|_ZdaPvm|_ZdlPvSt11align_val_t|_ZdlPvmSt11align_val_t)$', opdel, 'operator delete')

    ex.add_handler(r'^llvm\.(lifetime|dbg|donothing|assume|invariant|experimental\.noalias|prefetch)', nop)

    def expect(ex, st, c):
        return c.args[0]
    ex.add_handler(r'^llvm\.expect\.', expect)

    def trap(ex, st, c):
        ex.oblige(st, ex.site('trap is not reached'), False)
        raise PathEnd('trap')
    ex.add_handler(r'^llvm\.trap|^abort$|^_ZSt9terminatev$|^__clang_call_terminate$|^_ZSt21__glibcxx_assert_failPKciS0_S0_$', trap)

    def assertfail(ex, st, c):
        ex.oblige(st, ex.site('assert() holds'), False)
        raise PathEnd('assert')
    ex.add_handler(r'^__assert_fail$', assertfail)

    def bswap(ex, st, c):
        v = c.args[0]
        w = int(c.name.split('.i')[-1])
        bs = ex.split(v, w // 8)
        return ex.join(bs[::-1])
    ex.add_handler(r'^llvm\.bswap\.', bswap)
    for nm, nb in (('htons', 2), ('ntohs', 2), ('htonl', 4), ('ntohl', 4)):
        ex.add_handler(r'^%s$' % nm, lambda ex, st, c, nb=nb: ex.join(ex.split(c.args[0], nb)[::-1]), nm)

    def minmax(ex, st, c):
        k = c.name.split('.')[1]
        w = int(c.name.split('.i')[-1])
        a, b = c.args[:2]
        cc = ult(a, b, w) if k[0] == 'u' else (Z(a, w) < Z(b, w))
        cc = S(cc)
        return Ite(cc, a if k.endswith('min') else b, b if k.endswith('min') else a, w)
    ex.add_handler(r'^llvm\.(umin|umax|smin|smax)\.', minmax)

    def fsh(ex, st, c):
        w = int(c.name.split('.i')[-1])
        a, b, s = [Z(x, w) for x in c.args[:3]]
        s = z3.URem(s, z3.BitVecVal(w, w))
        cat = z3.Concat(a, b)
        s2 = z3.ZeroExt(w, s)
        if 'fshl' in c.name:
            return S(z3.Extract(2 * w - 1, w, cat << s2))
        return S(z3.Extract(w - 1, 0, z3.LShR(cat, s2)))
    ex.add_handler(r'^llvm\.fsh[lr]\.', fsh)

    def absf(ex, st, c):
        w = int(c.name.split('.i')[-1])
        a = Z(c.args[0], w)
        return S(z3.If(a < 0, -a, a))
    ex.add_handler(r'^llvm\.abs\.', absf)

    def bits(ex, st, c):
        k = c.name.split('.')[1]
        w = int(c.name.split('.i')[-1])
        a = Z(c.args[0], w)
        r = z3.BitVecVal(w, w)
        if k == 'ctlz':
            for i in range(w):
                r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i, w), r)
        elif k == 'cttz':
            for i in reversed(range(w)):
                r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(i, w), r)
        else:
            r = z3.BitVecVal(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
        return S(r)
    ex.add_handler(r'^llvm\.(ctlz|cttz|ctpop)\.', bits)

    def ovf(ex, st, c):
        k = c.name.split('.')[1]
        w = int(c.name.split('.i')[-1])
        a, b = Z(c.args[0], w), Z(c.args[1], w)
        op = k[1:4]
        r = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
        if k[0] == 'u':
            o = {'add': z3.Not(z3.BVAddNoOverflow(a, b, False)), 'sub': z3.ULT(a, b),
                 'mul': z3.Not(z3.BVMulNoOverflow(a, b, False))}[op]
        else:
            o = {'add': z3.Not(z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))),
                 'sub': z3.Not(z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))),
                 'mul': z3.Not(z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)))}[op]
        return (S(r), S(o))
    ex.add_handler(r'^llvm\.[us](add|sub|mul)\.with\.overflow\.', ovf)

    # exceptions
    def cxa_alloc(ex, st, c):
        return ex.alloc(st, c.args[0], 'exception')
    ex.add_handler(r'^__cxa_allocate_exception$', cxa_alloc)
    ex.add_handler(r'^__cxa_free_exception$', nop)

    def cxa_throw(ex, st, c):
        ti = c.args[1]
        return ex.throw(st, ti.o[1] if isinstance(ti.o, tuple) else str(ti), c.args[0])
    ex.add_handler(r'^__cxa_throw$', cxa_throw)

    def begin_catch(ex, st, c):
        e = st.exc
        st.caught = st.caught + [e]
        st.exc = None
        return e.p if e.p.o != 0 else ex.alloc(st, 64, 'exc')
    ex.add_handler(r'^__cxa_begin_catch$', begin_catch)

    def end_catch(ex, st, c):
        st.caught = st.caught[:-1]
    ex.add_handler(r'^__cxa_end_catch$', end_catch)

    def rethrow(ex, st, c):
        st.exc = st.caught[-1]
        return Outcome(st, 'throw')
    ex.add_handler(r'^__cxa_rethrow$', rethrow)

    def typeid_for(ex, st, c):
        return ex.ti_id(c.args[0].o[1])
    ex.add_handler(r'^llvm\.eh\.typeid\.for', typeid_for)

    def bthrow(ex, st, c):
        mm = re.match(r'^void boost::throw_exception<(.*)>\(', c.d)
        t = mm.group(1)
        ti = ti_name(t)
        src = c.args[0]
        st2 = st
        # copy payload
        size = ex.m.sizeof(('named', '%class.' + t)) if ('%class.' + t) in ex.m.types else 64
        q = ex.alloc(st, size, 'exception')
        try:
            ex.memcpy(st, q, src, size)
        except Unsupported:
            pass
        return ex.throw(st2, ti, q)
    ex.add_handler(r'^void boost::throw_exception<.*>\(.*\)$', bthrow, 'boost::throw_exception throws its argument')

    def srcloc(ex, st, c):
        return None
    ex.add_handler(r'^boost::source_location::source_location\(', srcloc)

    for nm, ti in (('out_of_range', '_ZTISt12out_of_range'), ('length_error', '_ZTISt12length_error'),
                   ('logic_error', '_ZTISt11logic_error'), ('bad_alloc', '_ZTISt9bad_alloc'),
                   ('bad_function_call', '_ZTISt17bad_function_call'), ('bad_array_new_length', '_ZTISt9bad_alloc'),
                   ('invalid_argument', '_ZTISt16invalid_argument'), ('out_of_range_fmt', '_ZTISt12out_of_range')):
        def thr(ex, st, c, ti=ti):
            return ex.throw(st, ti)
        ex.add_handler(r'^std::__throw_%s\(' % nm, thr)

    # static local guards
    def guard_acq(ex, st, c):
        g = c.args[0]
        v = ex.load(st, g, 1)
        v = S(v)
        if is_c(v):
            return 1 if v == 0 else 0
        raise Unsupported('guard')
    ex.add_handler(r'^__cxa_guard_acquire$', guard_acq)

    def guard_rel(ex, st, c):
        o = st.mem.get(c.args[0].o)
        ex.store_nc(st, c.args[0], 1, 1)
    ex.add_handler(r'^__cxa_guard_release$', guard_rel)
    ex.add_handler(r'^__cxa_guard_abort$', nop)
    ex.add_handler(r'^(__cxa_atexit|atexit)$', lambda ex, st, c: 0)

    H(ex, r'^std::(allocator|__new_allocator)<.*>::(~?(allocator|__new_allocator))\(', nop)
    ex.add_handler(r'^(std::is_constant_evaluated\(\)|std::__is_constant_evaluated\(\))$', lambda ex, st, c: False)
    H(ex, r'^std::exception::~exception\(\)$', nop)

    # std::bitset<N>, N <= 64, stored as one word
    def bs_n(c):
        return int(re.search(r'std::bitset<(\d+)ul>', c.d).group(1))

    def bs_str(ex, st, c):
        n = bs_n(c)
        if n > 64:
            return NotImplemented
        w = Z(ex.load(st, c.args[1], 8), 64)
        arr = Const(48)
        for k in range(n):
            arr = Store(arr, k, z3.simplify(z3.If(z3.Extract(n - 1 - k, n - 1 - k, w) == 1, z3.BitVecVal(49, 8), z3.BitVecVal(48, 8))))
        ex.put_abs(st, c.args[0], mk('Str', 'char', n, arr))
    H(ex, r'^(Str<char> )?std::bitset<\d+ul>::to_string(\[abi:cxx11\]|<.*>)?\(\) const$', bs_str, 'std::bitset::to_string')

    def bs_ctor(ex, st, c):
        n = bs_n(c)
        if n > 64:
            return NotImplemented
        s, pos = lib.get(st, c.args[1]), c.args[2]
        outs = []
        ok = S(ule(pos, s.n))
        if ok is not True:
            s2 = st.fork()
            if ex.assume(s2, Not(ok)) is not False:
                outs.append(ex.throw(s2, '_ZTISt12out_of_range'))
            ex.assume(st, ok)
        ln = S(sub(s.n, pos))
        if not is_c(ln):
            ln = n if ex.prove(st, ule(n, ln), 10000)[0] == 'proved' else Ite(B(ult(ln, n)), ln, n, 64)
        ln = min(ln, n) if is_c(ln) else ln
        good, word = [], z3.BitVecVal(0, 64)
        for k in range(n):
            c1 = s.arr.sel(S(add(pos, k)))
            good.append(Or(Not(ult(k, ln)), eq(c1, 48, 8), eq(c1, 49, 8)))
            c2 = s.arr.sel(S(sub(add(pos, ln), k + 1)))
            word = word | z3.If(B(And(ult(k, ln), eq(c2, 49, 8))), z3.BitVecVal(1 << k, 64), z3.BitVecVal(0, 64)) if not is_c(c2) or not is_c(ln) else \
                word | (1 << k if k < ln and c2 == 49 else 0)
        good = And(good)
        if good is not True:
            s3 = st.fork()
            ex.assume(s3, Not(good))
            outs.append(ex.throw(s3, '_ZTISt16invalid_argument'))
            ex.assume(st, good)
        ex.store(st, c.args[0], 8, S(word))
        outs.append(Outcome(st, 'ret', None))
        return outs
    H(ex, r'^std::bitset<\d+ul>::bitset<char.*>\(Str<char> const&, unsigned long\)$', bs_ctor, 'std::bitset(std::string)')

    def diag(ex, st, c):
        n = fresh_bv('diag.n', 64)
        ex.assume(st, ule(n, 1 << 20))
        ex.put_abs(st, c.args[0], mk('Str', 'char', n, Base('diag')))
        return None
    H(ex, r'^Str<char> boost::diagnostic_information<.*>\(|^boost::diagnostic_information\(|^Str<char> boost::exception_detail::diagnostic_information', diag,
      'boost::diagnostic_information (contract: returns some string)')

    # maidsafe errors: the value carries (enumeration, code)
    def make_error(ex, st, c):
        mm = re.match(r'^maidsafe::MakeError\(maidsafe::(\w+)\)$', c.d)
        ex.put_abs(st, c.args[0], ErrVal(mm.group(1), c.args[1]))
        return None
    if not ex.opts.get('real_errors'):
        ex.add_handler(r'^maidsafe::MakeError\(maidsafe::\w+\)$', make_error, 'maidsafe::MakeError (contract: carries the given enumerator)')
        ex.add_handler(r'^maidsafe::\w*_error::~\w*_error\(\)$', nop)
        ex.add_handler(r'^std::system_error::~system_error\(\)$', nop)

        def err_copy(ex, st, c):
            mm = re.match(r'^maidsafe::(\w+)_error::\1_error\(maidsafe::\1_error ?(const&|&&)\)$', c.d)
            v = ex.get_abs(st, c.args[1], ErrVal)
            if v is None:
                raise Unsupported('copy of error')
            ex.put_abs(st, c.args[0], v)
        ex.add_handler(r'^maidsafe::(\w+)_error::\1_error\(maidsafe::\1_error ?(const&|&&)\)$', err_copy)
        ex.add_handler(r'^std::system_error::system_error\(std::system_error ?(const&|&&)\)$', err_copy)


class ErrVal(AbsVal):
    size = 32

    def __init__(self, cat, code):
        self.cat = cat
        self.code = code

    def vptr(self, ex, st):
        n = self.cat[:-1].lower() if not self.cat.endswith('Errors') else re.sub(r'(?<!^)([A-Z])', r'_\1', self.cat[:-6]).lower() + '_error'
        return ex.global_ptr(st, '_ZTVN8maidsafe%d%sE' % (len(n), n)).plus(16)

    def same(self, o):
        return isinstance(o, ErrVal) and o.cat == self.cat and same_val(self.code, o.code)

    def __repr__(self):
        return 'Err(%s,%s)' % (self.cat, self.code)


def ti_name(t):
    parts = t.split('::')
    if t == 'std::exception':
        return '_ZTISt9exception'
    if parts[0] == 'std' and len(parts) == 2:
        return '_ZTISt%d%s' % (len(parts[1]), parts[1])
    return '_ZTIN' + ''.join('%d%s' % (len(p), p) for p in parts) + 'E'
