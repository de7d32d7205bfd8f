"""P04 Identity: XOR closeness, common leading bits, encodings"""
from vp.contract import *
from contracts import p01_hex as hx, p02_base64 as b64

TITLE = 'identities'
REPLAY = {'driver': 'p04.cc', 'sources': ['src/maidsafe/common/identity.cc', 'src/maidsafe/common/encode.cc', 'src/maidsafe/common/error.cc', 'src/maidsafe/common/utils.cc', 'src/maidsafe/common/error_categories.cc', 'src/maidsafe/common/data_types/data.cc'],
          'libs': ['-lcryptopp', '-lboost_filesystem', '-lboost_program_options', '-lboost_locale', '-lboost_system', '-lboost_thread', '-lpthread'], 'seconds': 15}


class Id:
    def __init__(self, f, name, lay, raw=False, init=None):
        self.f, self.name = f, name
        self.off_s, self.off_v, size = lay
        self.p = f.ex.alloc(f.st, size, name)
        if raw:
            return
        # init: None any state; True initialised; False not
        self.n, self.a = f.seq(name, 8, n={None: None, True: 64, False: 0}[init])
        self.v = f.bv(name + '.valid', 8)
        if init is not None:
            f.requires(eq(self.v, 1 if init else 0, 8))
        f.requires(ule(self.v, 1, 8))
        f.ex.put_abs(f.st, self.p.plus(self.off_s), lib_std.mk('Vec', 'unsigned char', self.n, self.a))
        f.ex.store(f.st, self.p.plus(self.off_v), 1, self.v)
        # the invariant of BoundedString<64, 64> (property P05)
        f.requires(Ite(self.valid(), eq(self.n, 64), eq(self.n, 0), 1))

    def valid(self):
        return eq(self.v, 1, 8)


def contracts(chk):
    m = chk.ir(['h_identity.cc', 'src/maidsafe/common/identity.cc', 'src/maidsafe/common/encode.cc'])
    INV = enum_code('CommonErrors', 'invalid_identity')
    UNI = enum_code('CommonErrors', 'uninitialised')

    def num(fn):
        ex = Exec(m)
        lib_std.install(ex)
        st = State()
        return S(ex.call(st, fn, [] if fn.endswith('_size') else [ex.alloc(st, 64, 'probe')])[0].val)
    lay = (num('id_off_string'), num('id_off_valid'), num('id_size'))

    def x8(a, b):
        return Z(a, 8) ^ Z(b, 8)

    def closer(f):
        a, b, t = Id(f, 'id1', lay), Id(f, 'id2', lay), Id(f, 'target', lay)
        ok = And(a.valid(), b.valid(), t.valid())
        for o in f.run(a.p, b.p, t.p):
            if o.kind != 'ret':
                f.throws_error(o, 'throws invalid_identity', 'CommonErrors', INV)
                f.ensures(o, 'throws only for an uninitialised identity', Not(ok))
                continue
            f.ensures(o, 'an uninitialised identity throws', ok)
            # p: the first byte where id1 and id2 differ (so where the distances differ), 64 when they are equal
            p = fresh_bv('p', 64)
            st = o.st.fork()
            st.foralls.append(Forall(p, lambda j: [eq(a.a.sel(j), b.a.sel(j), 8)], 'common prefix'))
            s1 = st.fork()
            f.ex.assume(s1, And(ult(p, 64), Not(eq(a.a.sel(p), b.a.sel(p), 8))))
            f.ex.oblige(s1, 'different identities compare by xor distance', eq(o.val, z3.ULT(x8(a.a.sel(p), t.a.sel(p)), x8(b.a.sel(p), t.a.sel(p))), 1), extra_terms=[p])
            s2 = st.fork()
            f.ex.assume(s2, eq(p, 64))
            f.ex.oblige(s2, 'an identity is not closer than itself', Not(eq(o.val, True, 1)), extra_terms=[p])
        f.reachable('returns', f.rets())
        f.reachable('throws', f.throws())
    chk.fn('CloserToTarget', m, 'closer', closer)

    def clz8(x):
        r = z3.BitVecVal(8, 64)
        for k in range(8):
            r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(7 - k, 64), r)
        return r

    def table(chk):
        g = [n for n in m.globals if 'kCommonBits' in n]
        if not g:
            return
        ex, st = Exec(m), State()
        lib_std.install(ex)
        p = ex.global_ptr(st, g[0])
        data = [t for (o, n, t) in st.mem[p.o].ranges if o == 0 and isinstance(t, Table)]
        vals = data[0].vals if data else []
        bad = [i for i in range(65536) if i * 4 + 4 > len(vals) or int.from_bytes(bytes(vals[4 * i:4 * i + 4]), 'little') != 8 - ((i >> 8) ^ (i & 255)).bit_length()]
        chk.finite('kCommonBits', 'every entry is the number of leading bits its row and column share (65536 entries)', not bad and len(vals) == 262144,
                   'kCommonBits[%d][%d]' % (bad[0] >> 8, bad[0] & 255) if bad else None)
        chk.finite('kCommonBits', 'the closed form agrees', all(z3.simplify(clz8(z3.BitVecVal(x, 8))).as_long() == 8 - x.bit_length() for x in range(256)))
    chk.job('kCommonBits', table)

    def common(f):
        # the table, as a closed form; the finite obligations below show that it is the table
        f.ex.closed_tables['kCommonBits'] = lambda i: z3.If(z3.Extract(1, 0, Z(i, 64)) == 0, z3.Extract(7, 0, clz8(z3.Extract(17, 10, Z(i, 64)) ^ z3.Extract(9, 2, Z(i, 64)))), z3.BitVecVal(0, 8))
        a, b = Id(f, 'id1', lay), Id(f, 'id2', lay)
        ok = And(a.valid(), b.valid())
        for o in f.run(a.p, b.p):
            if o.kind != 'ret':
                f.throws_error(o, 'throws invalid_identity', 'CommonErrors', INV)
                f.ensures(o, 'throws only for an uninitialised identity', Not(ok))
                continue
            f.ensures(o, 'an uninitialised identity throws', ok)
            p = fresh_bv('p', 64)
            st = o.st.fork()
            st.foralls.append(Forall(p, lambda j: [eq(a.a.sel(j), b.a.sel(j), 8)], 'common prefix'))
            s1 = st.fork()
            f.ex.assume(s1, And(ult(p, 64), Not(eq(a.a.sel(p), b.a.sel(p), 8))))
            want = Z(mul(p, 8), 64) + clz8(x8(a.a.sel(p), b.a.sel(p)))
            f.ex.oblige(s1, 'different identities: bits before the first difference', eq(o.val, trunc(want, 64, 32), 32), extra_terms=[p])
            s2 = st.fork()
            f.ex.assume(s2, eq(p, 64))
            f.ex.oblige(s2, 'equal identities: 512', eq(o.val, 512, 32), extra_terms=[p])
        f.reachable('returns', f.rets())
        f.reachable('throws', f.throws())
    chk.fn('CommonLeadingBits', m, 'common', common)

    def enc(f, kind):
        a = Id(f, 'id', lay)
        q = f.out_string('out')
        for o in f.run(q, a.p):
            if o.kind != 'ret':
                f.throws_error(o, 'throws', 'CommonErrors', INV if kind == 'bin' else UNI)
                f.ensures(o, 'throws only for an uninitialised identity', Not(a.valid()))
                continue
            f.ensures(o, 'an uninitialised identity throws', a.valid())
            sv = f.abs(o, q)
            if kind == 'bin':
                f.ensures(o, '512 characters', eq(sv.n, 512))
                for i in range(64):
                    c = Z(a.a.sel(i), 8)
                    f.ensures(o, 'bits of byte i, most significant first',
                              And([eq(sv.arr.sel(8 * i + k), z3.If(z3.Extract(7 - k, 7 - k, c) == 1, z3.BitVecVal(49, 8), z3.BitVecVal(48, 8)), 8) for k in range(8)]))
        f.reachable('returns', f.rets())
        f.reachable('throws', f.throws())
    chk.fn('binary::Encode', m, 'enc_bin', lambda f: enc(f, 'bin'))

    def enc_text(f, spec, ln, init):
        a = Id(f, 'id', lay, init=init)
        q = f.out_string('out')
        for o in f.run(q, a.p):
            if o.kind != 'ret':
                f.throws_error(o, 'throws', 'CommonErrors', UNI)
                f.ensures(o, 'throws only for an uninitialised identity', not init)
                continue
            f.ensures(o, 'an uninitialised identity throws', init)
            sv = f.abs(o, q)
            f.ensures(o, '%d characters' % ln, eq(sv.n, ln))
            f.forall_mod(o, 'the encoding of the 64 bytes', ln, 4, lambda k: eq(sv.arr.sel(k), spec(a.a, k), 8))
        if init:
            f.reachable('returns', f.rets())
        else:
            f.reachable('throws', f.throws())
    for init in (True, False):
        w = 'initialised' if init else 'uninitialised'
        chk.fn('hex::Encode(%s)' % w, m, 'enc_hex', lambda f, init=init: enc_text(f, hx.enc, 128, init))
        chk.fn('base64::Encode(%s)' % w, m, 'enc_b64', lambda f, init=init: enc_text(f, lambda a, k: b64.enc(a, 64, k), 88, init))

    def mktext(f, kind, r, c):
        x = Id(f, 'result', lay, True)
        g = f.idx('group', 1 << 40)     # every length is c*group + r
        f.requires(ule(g, 1 << 40))
        p, n, a = f.string('s', n=add(mul(g, c), r))
        for o in f.run(x.p, p):
            if kind == 'hex':
                size, okat, at = eq(n, 128), lambda k: hx.valid(a.sel(k)), lambda k: hx.dec(a, k)
            else:
                size, okat, at = And(r == 0, eq(b64.declen(a, n), 64)), lambda k: b64.wf_at(a, n, k), lambda k: b64.dec(a, k)
            if o.kind == 'ret':
                f.ensures(o, 'a string of another size is rejected', size)
                if r:
                    continue
                f.forall_mod(o, 'a malformed string is rejected', n, c, okat)
                sv = f.ex.get_abs(o.st, x.p.plus(x.off_s))
                f.ensures(o, 'the identity is initialised', eq(f.ex.load(o.st, x.p.plus(x.off_v), 1), 1, 8))
                f.ensures(o, 'of 64 bytes', eq(sv.n, 64))
                f.forall_mod(o, 'the bytes are the decoded string', 64, 3, lambda k: eq(sv.arr.sel(k), at(k), 8))
            else:
                f.throws_error(o, 'throws invalid_identity', 'CommonErrors', INV)
                f.ensures(o, 'throws only for malformed strings', Or([Not(size)] + [And(ult(t, n), Not(okat(t))) for t in f.index_terms(o.st, a)]))
        if r == 0:
            f.reachable('returns', f.rets())
        f.reachable('throws', f.throws())
    for r in range(2):
        chk.fn('MakeIdentity(hex), size = 2q+%d' % r, m, 'mk_hex', lambda f, r=r: mktext(f, 'hex', r, 2))
    for r in range(4):
        chk.fn('MakeIdentity(base64), size = 4q+%d' % r, m, 'mk_b64', lambda f, r=r: mktext(f, 'b64', r, 4))

    def mkbin(f):
        x = Id(f, 'result', lay, True)
        p, n, a = f.string('s')
        is01 = lambda i: Or(eq(a.sel(i), 48, 8), eq(a.sel(i), 49, 8))
        for o in f.run(x.p, p):
            if o.kind == 'ret':
                f.ensures(o, 'a string of another size is rejected', eq(n, 512))
                f.ensures(o, 'other characters are rejected', And([is01(i) for i in range(512)]))
                sv = f.ex.get_abs(o.st, x.p.plus(x.off_s))
                f.ensures(o, 'the identity is initialised', eq(f.ex.load(o.st, x.p.plus(x.off_v), 1), 1, 8))
                f.ensures(o, 'of 64 bytes', eq(sv.n, 64))
                for i in range(64):
                    bits = [z3.Extract(0, 0, Z(a.sel(8 * i + k), 8)) for k in range(8)]
                    f.ensures(o, 'byte i is its eight bits', eq(sv.arr.sel(i), z3.Concat(*bits), 8))
            else:
                f.throws_error(o, 'throws invalid_identity', 'CommonErrors', INV)
                f.ensures(o, 'throws only for malformed strings', Or(Not(eq(n, 512)), Not(And([is01(i) for i in range(512)]))))
        f.reachable('returns', f.rets())
        f.reachable('throws', f.throws())
    chk.fn('MakeIdentity(binary)', m, 'mk_bin', mkbin)
