"""P22 serialisation: what is written to and read from a stream of bytes"""
from vp.contract import *
from vp.exec import PathEnd, Exc
from vp.lib_std import ptr_view

TITLE = 'serialisation'
REPLAY = {'driver': 'p22.cc', 'sources': ['src/maidsafe/common/error.cc', 'src/maidsafe/common/error_categories.cc'],
          'libs': ['-lboost_system', '-lboost_filesystem', '-lpthread'], 'seconds': 10}
EXC = '_ZTIN6cereal9ExceptionE'
SC = {'bool': 1, 'c': 1, 'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'f': 4, 'd': 8}
LIM = 1 << 40


class Streams:
    """vector streams and string streams as sequences of bytes. Writing may stop short when `faulty`; reading gives what there is."""

    def __init__(self, f, faulty=False):
        self.f, self.ex, self.faulty = f, f.ex, faulty
        ex = f.ex
        ex.opts = dict(ex.opts)
        A = ex.add_handler
        T = 'boost::interprocess vector streams and std::stringstream: sequences of bytes; sputn appends, sgetn reads on'
        nop = lambda ex, st, c: None
        O = r'^boost::interprocess::basic_ovectorstream<.*>::'
        I = r'^boost::interprocess::basic_ivectorstream<.*>::'
        A(O + r'basic_ovectorstream\(.*\)$', lambda ex, st, c: self.create(st, c.args[0]), T)
        A(O + r'~basic_ovectorstream\(\)$', nop)
        A(O + r'rdbuf\(\) const$', lambda ex, st, c: self.handle(st, c.args[0]), T)
        A(O + r'vector\(\) const$', lambda ex, st, c: self.handle(st, c.args[0]), T)
        A(I + r'basic_ivectorstream(<.*>)?\(.*const&, .*\)$', lambda ex, st, c: self.open(st, c.args[0], c.args[1]), T)
        A(I + r'~basic_ivectorstream\(\)$', nop)
        A(I + r'rdbuf\(\) const$', lambda ex, st, c: self.handle(st, c.args[0]), T)
        A(r'^std::basic_streambuf<(unsigned )?char, .*>::sputn\((unsigned )?char const\*, long\)$', self.sputn, T)
        A(r'^std::basic_streambuf<(unsigned )?char, .*>::sgetn\((unsigned )?char\*, long\)$', self.sgetn, T)
        A(r'^boost::interprocess::basic_vectorbuf<.*>::xs(put|get)n\(', self.unsup)
        SS = r'^std::__cxx11::basic_stringstream<char, .*>::'
        A(SS + r'basic_stringstream\(\)$', lambda ex, st, c: self.sstream(st, c.args[0], None), T)
        A(SS + r'basic_stringstream\(.*string.*const&, .*\)$', lambda ex, st, c: self.sstream(st, c.args[0], c.args[1]), T)
        A(SS + r'~basic_stringstream\(\)$', nop)
        A(SS + r'str\(\) const( &)?$', self.str_, T)
        A(r'^std::basic_ios<char, .*>::rdbuf\(\) const$', lambda ex, st, c: self.handle(st, c.args[0]), T)
        A(r'^(?:.* )?std::unordered_map<.*>::(~?unordered_map)\(', nop, 'the tables of an archive (shared pointers, class versions) are not consulted')
        A(r'^(?:.* )?std::unordered_set<.*>::(~?unordered_set)\(', nop)
        A(r'^(std::__cxx11::)?to_string\((unsigned long|long)\)$|^std::__cxx11::to_string\(', self.text, 'std::to_string: some text')
        A(r'^std::runtime_error::runtime_error\((std::.*string.*|Str.*) const&\)$|^std::runtime_error::runtime_error\(char const\*\)$', nop)
        f.st.ghost['streams'] = {}
        f.st.ghost['short'] = False

    def unsup(self, ex, st, c):
        raise Unsupported(c.d[:120])

    def text(self, ex, st, c):
        ex.put_abs(st, c.args[0], lib_std.mk('Str', 'char', bounded_bv('digits', 20), Base(fresh_name('digits'))))

    def handle(self, st, p):
        h = st.ghost['streams'].get(p.o)
        if h is None:
            raise Unsupported('unknown stream')
        return h[0]

    def reg(self, st, p, h, size=None):
        st.ghost['streams'] = dict(st.ghost['streams'])
        st.ghost['streams'][p.o] = st.ghost['streams'][h.o] = (h, size)

    def create(self, st, p, n=0, arr=None):
        """an output stream holding the n bytes of arr"""
        h = self.ex.alloc(st, 24, 'stream contents')
        self.ex.put_abs(st, h, lib_std.mk('Vec', 'unsigned char', n, arr or Const(0)))
        self.reg(st, p, h)

    def open(self, st, p, v):
        sv = self.ex.get_abs(st, v)
        self.source(st, p, sv.n, sv.arr)

    def source(self, st, p, n, arr, pos=0):
        h = self.ex.alloc(st, n, 'stream to read')
        st.wobj(h.o).ranges = [(0, n, arr)]
        self.reg(st, p, h, n)
        st.ghost['pos'] = pos

    def sstream(self, st, p, src):
        t = self.ex.alloc(st, 64, 'stream vtable')
        for i in range(8):
            self.ex.store(st, t.plus(8 * i), 8, 0)
        self.ex.store(st, p, 8, t.plus(48))
        self.ex.store(st, p.plus(16), 8, t.plus(48))
        if src is None:
            self.create(st, p)
        else:
            sv = self.ex.get_abs(st, src)
            self.source(st, p, sv.n, sv.arr)

    def str_(self, ex, st, c):
        sv = ex.get_abs(st, self.handle(st, c.args[1]))
        ex.put_abs(st, c.args[0], lib_std.mk('Str', 'char', sv.n, sv.arr))

    def append(self, st, h, src, n):
        ex = self.ex
        ex.bounds(st, src, n, 'read')
        sv = ex.get_abs(st, h)
        if is_c(n) and n <= 16:
            arr = sv.arr
            for i in range(n):
                arr = Store(arr, S(add(sv.n, i)), ex.load_nc(st, src.plus(i), 1))
        else:
            b = ptr_view(ex, st, src, 8)
            arr = Lam(lambda k, a=sv.arr, n0=sv.n, b=b: Ite(ult(k, n0), a.sel(k), b.sel(S(sub(k, n0))), 8), 8)
        ex.put_abs(st, h, sv.upd(n=S(add(sv.n, n)), arr=arr))

    def sputn(self, ex, st, c):
        h, src, n = c.args
        n = S(n)
        h = self.handle(st, h)
        ex.oblige(st, ex.site('the size written is below 2^48'), ule(n, 1 << 48))
        out = []
        if self.faulty:
            s = st.fork()
            k = fresh_bv('written', 64)
            ex.assume(s, ult(k, n))
            if ex.feasible(s, True):
                s.ghost['short'] = True
                out.append(Outcome(s, 'ret', k))
        self.append(st, h, src, n)
        out.append(Outcome(st, 'ret', n))
        return out

    def sgetn(self, ex, st, c):
        h, dst, n = c.args
        n = S(n)
        h, size = st.ghost['streams'][h.o]
        ex.oblige(st, ex.site('the size read is below 2^48'), ule(n, 1 << 48))
        pos = st.ghost['pos']
        rest = S(sub(size, pos))
        full, part = st, st.fork()
        out = []
        ex.assume(full, ule(n, rest))
        ex.assume(part, ult(rest, n))
        if ex.feasible(part, True):
            ex.bounds(part, dst, n, 'write')
            part.ghost['pos'] = size
            part.ghost['short'] = True
            ex.memcpy(part, dst, h.plus(pos), rest)
            out.append(Outcome(part, 'ret', rest))
        if ex.feasible(full, True):
            ex.bounds(full, dst, n, 'write')
            self.copy(full, dst, h.plus(pos), n)
            full.ghost['pos'] = S(add(pos, n))
            out.append(Outcome(full, 'ret', n))
        return out

    def copy(self, st, dst, src, n):
        if is_c(n) and n <= 16:
            for i in range(n):
                self.ex.store_nc(st, dst.plus(i), 1, self.ex.load_nc(st, src.plus(i), 1))
        else:
            self.ex.memcpy(st, dst, src, n)


def self_(f, r):
    return r[0], f.ex.get_abs(f.st, r[0])


def le(v, w):
    """bytes of an integer, low byte first"""
    return [S(z3.simplify(z3.Extract(8 * i + 7, 8 * i, Z(v, 8 * w)))) for i in range(w)]


def contracts(chk):
    m = chk.ir(['h_ser.cc'])

    def num(fn):
        ex = Exec(m)
        lib_std.install(ex)
        return S(ex.call(State(), fn, [])[0].val)

    def stream(f, faulty):
        """an output stream with any earlier contents"""
        g = Streams(f, faulty)
        p = f.out('stream', 512)
        n0 = bounded_bv('before', LIM)
        f.requires(ule(n0, LIM))
        a0 = Base('before', 8)
        g.create(f.st, p, n0, a0)
        return g, p, (n0, a0.sel)

    def written(f, g, o, before, parts, sv=None):
        if o.kind == 'throw':
            f.ensures(o, 'throws only if the stream takes less than it is given', o.st.ghost['short'])
            f.ensures(o, 'throws cereal::Exception', o.st.exc.ti == EXC)
            return
        f.ensures(o, 'throws if the stream takes less than it is given', not o.st.ghost['short'])
        if sv is None:
            sv = f.ex.get_abs(o.st, g)
        n = 0
        for i, q in enumerate([before] * bool(before) + parts):
            l = len(q) if isinstance(q, list) else q[0]
            what = 'piece %d of the stream' % i
            if isinstance(q, list):
                f.ensures(o, what, And([eq(sv.arr.sel(S(add(n, j))), q[j], 8) for j in range(l)]))
            else:
                f.forall(o, what, l, lambda j, n=n, q=q: eq(sv.arr.sel(S(add(n, j))), q[1](j), 8))
            n = S(add(n, l))
        f.ensures(o, 'the length of the stream', eq(sv.n, n))

    def values(f, *kinds):
        args, parts = [], []
        for i, k in enumerate(kinds):
            nm = 'v%d' % i
            if k in SC:
                w = SC[k]
                if k == 'bool':
                    b = f.bool(nm)
                    v = z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
                    args.append(b)
                else:
                    v = f.bv(nm, 8 * w)
                    args.append(v)
                parts.append(le(v, w))
            else:
                p, sv = self_(f, f.string(nm) if k == 's' else f.vec(nm))
                args.append(p)
                parts += [le(sv.n, 8), (sv.n, sv.arr.sel)]
        return args, parts

    def conv(*kinds):
        """to_X(stream, values): appends to the stream"""
        def body(f):
            g, p, before = stream(f, True)
            args, parts = values(f, *kinds)
            h = g.handle(f.st, p)
            for o in f.run(p, *args):
                written(f, h, o, before, parts)
            f.reachable('returns', f.rets())
            f.reachable('throws', f.throws())
        return body

    def ser(with_stream, *kinds):
        def body(f):
            if with_stream:
                g, p, before = stream(f, False)
            else:
                g, before = Streams(f), None
            out = f.out_vec('result')
            args, parts = values(f, *kinds)
            for o in f.run(out, *([p] if with_stream else []), *args):
                written(f, None, o, before, parts, f.abs(o, out) if o.kind == 'ret' else None)
            f.reachable('returns', f.rets())
        return body

    def data(f, src):
        g = Streams(f)
        if src == 'stream':
            n, arr = bounded_bv('size', LIM), Base('in.data', 8)
            f.requires(ule(n, LIM))
            pos = fresh_bv('pos', 64)
            f.requires(ule(pos, n))
            f.inputs['data'] = ('seq', n, arr, 8)
            p = f.out('stream', 512)
            g.source(f.st, p, n, arr, pos)
            return g, p, n, arr, pos
        if src == 'string':
            p, sv = self_(f, f.string('data'))
        else:
            p, sv = self_(f, f.vec('data'))
        return g, p, sv.n, sv.arr, 0

    def dests(f, *kinds):
        args = []
        for i, k in enumerate(kinds):
            nm = 'd%d' % i
            if k in SC:
                args.append(f.out(nm, SC[k]))
            elif k == 's':
                args.append(f.string(nm)[0])
            else:
                args.append(f.vec(nm)[0])
        return args

    def rd(arr, pos, w):
        return z3.Concat(*[Z(arr.sel(S(add(pos, i))), 8) for i in reversed(range(w))]) if w > 1 else Z(arr.sel(pos), 8)

    def parse(src, fresh, *kinds):
        def body(f):
            g, p, n, arr, pos = data(f, src)
            args = [f.out('d', {'s': 32, 'v': 24}.get(kinds[0], 0) or SC[kinds[0]])] if fresh else dests(f, *kinds)
            # sizes in the data that no memory could hold are left out
            at, enough = pos, True
            for k in kinds:
                w = SC.get(k, 8)
                if k not in SC:
                    l = rd(arr, at, 8)
                    f.requires(Implies(And(enough, ule(add(at, 8), n)), ule(l, LIM)))
                    enough = And(enough, ule(add(at, 8), n), ule(l, sub(n, add(at, 8))))
                    at = S(add(add(at, 8), l))
                else:
                    enough = And(enough, ule(add(at, w), n))
                    at = S(add(at, w))
            ks = tuple(kinds)
            if ks == ('bool',):
                f.requires(ule(arr.sel(pos), 1, 8))
            for o in f.run(p, *args):
                if o.kind == 'throw':
                    f.ensures(o, 'throws only if the data is cut short', Not(enough))
                    f.ensures(o, 'throws cereal::Exception', o.st.exc.ti == EXC)
                    continue
                f.ensures(o, 'throws if the data is cut short', enough)
                f.ensures(o, 'reads exactly the encoding', eq(o.st.ghost['pos'], at))
                q = pos
                for i, k in enumerate(kinds):
                    if k in SC:
                        f.ensures(o, 'value %d is the one encoded' % i, eq(f.ex.load(o.st, args[i], SC[k]), rd(arr, q, SC[k]), 8 * SC[k]))
                        q = S(add(q, SC[k]))
                    else:
                        l = rd(arr, q, 8)
                        f.seq_eq(o, 'value %d is the one encoded' % i, f.abs(o, args[i]), l, lambda j, q=q: arr.sel(S(add(add(q, 8), j))))
                        q = S(add(add(q, 8), l))
            f.reachable('returns', f.rets())
            f.reachable('throws', f.throws())
        return body
    for k in list(SC) + ['s', 'v']:
        t = {'s': 'std::string', 'v': 'vector<byte>', 'c': 'char', 'f': 'float', 'd': 'double', 'bool': 'bool'}.get(k, k)
        chk.fn('ConvertToVectorStream(stream, %s)' % t, m, 'to_' + k, conv(k))
        chk.fn('Serialise(%s)' % t, m, 'ser_' + k, ser(False, k))
        chk.fn('Parse<%s>(data)' % t, m, 'par_' + k, parse('vector', True, k))
        chk.fn('Parse(data, %s)' % t, m, 'parto_' + k, parse('vector', False, k))
        chk.fn('Parse<%s>(stream)' % t, m, 'from_' + k, parse('stream', True, k))
    mix = ('u32', 's', 'u8', 'v')
    chk.fn('ConvertToVectorStream(stream, several)', m, 'to_mix', conv(*mix))
    chk.fn('Serialise(several)', m, 'ser_mix', ser(False, *mix))
    chk.fn('Serialise(stream, several)', m, 'sers_mix', ser(True, *mix))
    for nm, ks in (('mix', ('u32', 's', 'u8')), ('two', ('s', 'v'))):
        chk.fn('Parse(stream, several: %s)' % nm, m, 'from_' + nm, parse('stream', False, *ks))
        chk.fn('Parse(data, several: %s)' % nm, m, 'par_' + nm, parse('vector', False, *ks))
    smix = ('u32', 's', 'u8')

    def to_string(f):
        g = Streams(f)
        out = f.out_string('result')
        args, parts = values(f, *smix)
        for o in f.run(out, *args):
            written(f, None, o, None, parts, f.abs(o, out) if o.kind == 'ret' else None)
        f.reachable('returns', f.rets())
    chk.fn('ConvertToString(several)', m, 'str_mix', to_string)
    chk.fn('ConvertFromString(text, several)', m, 'unstr_mix', parse('string', False, *smix))
    chk.fn('ConvertFromString<std::string>(text)', m, 'unstr_one', parse('string', True, 's'))
    chk.fn('ConvertFromString(text, std::string)', m, 'unstr_ref', parse('string', False, 's'))
    chk.fn('save a boost::filesystem::path', m, 'to_p', conv('s'))
    chk.fn('load a boost::filesystem::path', m, 'from_p', parse('stream', False, 's'))
    addresses(chk, m, num, stream, written, data)


def addresses(chk, m, num, stream, written, data):
    def make(f, lib, kind):
        p = f.out('address', num(lib + '_size'))
        if kind == 4:
            v = f.bv('ip', 32)
            o, = f.ex.call(f.st, lib + '_v4', [p, v])
            f.st = o.st
            return p, list(reversed(le(v, 4)))
        b, arr = f.bytes('ip6', 16)
        o, = f.ex.call(f.st, lib + '_v6', [p, b])
        f.st = o.st
        return p, [arr.sel(i) for i in range(16)]

    def save(lib, kind):
        def body(f):
            g, s, before = stream(f, True)
            h = g.handle(f.st, s)
            p, bs = make(f, lib, kind)
            for o in f.run(s, p):
                written(f, h, o, before, [[len(bs)], bs])
            f.reachable('returns', f.rets())
        return body

    def load(lib):
        def body(f):
            g, s, n, arr, pos = data(f, 'stream')
            p = f.out('address', num(lib + '_size'))
            o, = f.ex.call(f.st, lib + '_new', [p])
            f.st = o.st
            size = arr.sel(pos)
            known = Or(eq(size, 4, 8), eq(size, 16, 8))
            some = ult(pos, n)
            enough = And(some, ule(add(add(pos, 1), zext(size, 8, 64)), n))
            seen = set()
            for o in f.run(s, p):
                if o.kind == 'throw':
                    if o.st.exc.ti == EXC:
                        f.ensures(o, 'throws cereal::Exception only if the data is cut short', Or(Not(some), And(known, Not(enough))))
                        seen.add('short')
                    else:
                        f.throws_error(o, 'throws parsing_error for another length', 'CommonErrors', enum_code('CommonErrors', 'parsing_error'))
                        f.ensures(o, 'throws parsing_error only for another length', And(some, Not(known)))
                        seen.add('other')
                    continue
                f.ensures(o, 'accepts only a whole address', And(known, enough))
                f.ensures(o, 'reads exactly the encoding', eq(o.st.ghost['pos'], add(add(pos, 1), zext(size, 8, 64))))
                v4, v6 = f.ex.alloc(o.st, 4, 'v4'), f.ex.alloc(o.st, 16, 'v6')
                for r in f.ex.call(o.st.fork(), lib + '_get', [p, v4, v6]):
                    if r.kind != 'ret':
                        f.ensures(r, 'the address can be read', False)
                        continue
                    if S(r.val) == 4:
                        f.ensures(r, 'the IPv4 address encoded', And([eq(size, 4, 8)] + [eq(x, arr.sel(S(add(pos, 1 + i))), 8) for i, x in enumerate(reversed(le(f.ex.load(r.st, v4, 4), 4)))]))
                        seen.add(4)
                    else:
                        f.ensures(r, 'the IPv6 address encoded', And([eq(size, 16, 8)] + [eq(f.ex.load(r.st, v6.plus(i), 1), arr.sel(S(add(pos, 1 + i))), 8) for i in range(16)]))
                        seen.add(6)
            f.ensures(f.st, 'each kind of outcome occurs', seen == {'short', 'other', 4, 6})
        return body
    for lib, nm in (('a', 'asio'), ('b', 'boost::asio')):
        chk.fn('save an IPv4 %s::ip::address' % nm, m, 'to_' + lib, save(lib, 4))
        chk.fn('save an IPv6 %s::ip::address' % nm, m, 'to_' + lib, save(lib, 6))
        chk.fn('load an %s::ip::address' % nm, m, 'from_' + lib, load(lib))
