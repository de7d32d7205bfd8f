"""P07 SipHash-2-4.

Specification: for a message M (an arbitrary byte array) the fold V_j(i), j = 0..3, is the SipHash state after the
first i whole 8-byte words, V(i+1) = word(V(i), M[8i..8i+7]).  An object 'has absorbed the first m bytes of M under
the key' when v_j = V_j(m div 8), the remainder buffer holds M[8(m div 8)..m) and the byte counter is m mod 256.
The constructor establishes it for m = 0, Update moves it from m to m + len, Finalize returns the specified tag."""
from vp.contract import *

TITLE = 'SipHash'
REPLAY = {'driver': 'p07.cc', 'sources': ['src/maidsafe/common/hash/algorithms/siphash.cc'], 'libs': [], 'seconds': 15}
EVIDENCE = {'specification': 'SipHash-2-4 as published (Aumasson, Bernstein), written in contracts/p07_siphash.py'}


def rotl(x, k):
    return z3.RotateLeft(x, k)


def sipround(v):
    v0, v1, v2, v3 = v
    v0 = v0 + v1
    v2 = v2 + v3
    v1 = rotl(v1, 13) ^ v0
    v3 = rotl(v3, 16) ^ v2
    v0 = rotl(v0, 32)
    v2 = v2 + v1
    v0 = v0 + v3
    v1 = rotl(v1, 17) ^ v2
    v3 = rotl(v3, 21) ^ v0
    v2 = rotl(v2, 32)
    return [v0, v1, v2, v3]


def absorb(v, m):
    v = [v[0], v[1], v[2], v[3] ^ m]
    v = sipround(sipround(v))
    return [v[0] ^ m, v[1], v[2], v[3]]


def le(bytes_):
    return z3.Concat(*[Z(b, 8) for b in reversed(bytes_)])


V = [z3.Function('V%d' % j, z3.BitVecSort(64), z3.BitVecSort(64)) for j in range(4)]


class Fold:
    w = 64

    def __init__(self, M, bases):
        self.M, self.bases = M, bases

    def candidates(self):
        return [(lambda i, j=j: V[j](Z(i, 64)), b) for b in self.bases for j in range(4)]

    def axiom(self, i):
        word = le([self.M.sel(add(mul(i, 8), k)) for k in range(8)])
        nxt = absorb([V[j](Z(i, 64)) for j in range(4)], word)
        return And([V[j](z3.simplify(Z(i, 64) + 1)) == nxt[j] for j in range(4)])


def contracts(chk):
    m = chk.ir(['h_sip.cc', 'src/maidsafe/common/hash/algorithms/siphash.cc'])
    def num(fn):
        ex = Exec(m)
        lib_std.install(ex)
        st = State()
        return S(ex.call(st, fn, [] if fn == 'sip_size' else [ex.alloc(st, 64, 'probe')])[0].val)
    size = num('sip_size')
    off = {k: num('off_' + k) for k in ('v0', 'v1', 'v2', 'v3', 'rl', 'rem', 'b')}

    def word8(f, o, p, k, n):
        return f.ex.load(o.st, p.plus(off[k]), n)

    def ctor(f):
        p = f.out('this', size)
        key, K = f.bytes('key', 16)
        for o in f.run(p, key):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            k0, k1 = le([K.sel(i) for i in range(8)]), le([K.sel(8 + i) for i in range(8)])
            want = [k0 ^ z3.BitVecVal(0x736f6d6570736575, 64), k1 ^ z3.BitVecVal(0x646f72616e646f6d, 64),
                    k0 ^ z3.BitVecVal(0x6c7967656e657261, 64), k1 ^ z3.BitVecVal(0x7465646279746573, 64)]
            for j in range(4):
                f.ensures(o, 'state word %d is the specified initial state' % j, eq(word8(f, o, p, 'v%d' % j, 8), want[j]))
            f.ensures(o, 'nothing absorbed yet: no remainder', eq(word8(f, o, p, 'rl', 4), 0, 32))
            f.ensures(o, 'nothing absorbed yet: byte counter', eq(word8(f, o, p, 'b', 1), 0, 8))
        f.reachable('returns', f.rets())
    chk.fn('SipHash(seed)', m, 'sip_ctor', ctor)

    def absorbed(f, r, base='q'):
        """an object that has absorbed 8q + r bytes of M"""
        q = bounded_bv('q', 1 << 40)
        f.requires(ule(q, 1 << 40))
        M = Base('in.M', 8)
        p = f.out('this', size)
        for j in range(4):
            f.ex.store(f.st, p.plus(off['v%d' % j]), 8, V[j](q))
        f.ex.store(f.st, p.plus(off['rl']), 4, r)
        for k in range(8):
            f.ex.store(f.st, p.plus(off['rem'] + k), 1, M.sel(add(mul(q, 8), k)) if k < r else f.bv('junk%d' % k, 8))
        total = add(mul(q, 8), r)
        f.ex.store(f.st, p.plus(off['b']), 1, trunc(total, 64, 8))
        return p, q, M, total

    def update(f, r, c, tail):
        """len = c when tail is None, else len = 8g + c for every g"""
        p, q, M, total = absorbed(f, r)
        if tail:
            g = bounded_bv('g', 1 << 40)
            f.requires(ule(g, 1 << 40))
            f.inputs['g'] = ('bv', g)
            n = add(mul(g, 8), c)
        else:
            g, n = 0, c
        src = f.ex.alloc(f.st, n, 'in')
        f.st.wobj(src.o).ranges = [(0, n, Shift(M, total))] if not is_c(n) or n else []
        f.inputs['data'] = ('seq', n, Shift(M, total), 8)
        fold = Fold(M, [q, add(q, 1)])
        f.ex.streams.append(fold)
        f.requires(fold.axiom(q))
        for o in f.run(p, src, n):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            qn, rn = add(g, (c + r) // 8), (c + r) % 8
            for j in range(4):
                f.ensures(o, 'state word %d is the fold over all whole words' % j,
                          eq(word8(f, o, p, 'v%d' % j, 8), V[j](Z(add(q, qn), 64))))
            f.ensures(o, 'remainder length', eq(word8(f, o, p, 'rl', 4), rn, 32))
            f.ensures(o, 'byte counter', eq(word8(f, o, p, 'b', 1), trunc(add(total, n), 64, 8), 8))
            for k in range(rn):
                f.ensures(o, 'remainder byte %d' % k, eq(f.ex.load(o.st, p.plus(off['rem'] + k), 1),
                                                         M.sel(add(mul(add(q, qn), 8), k)), 8))
        f.reachable('returns', f.rets())
    # every length: each of 0 .. 8 - r, else 8g + c with 8 - r < c <= 16 - r
    for r in range(8):
        for c in range(17 - r):
            if c <= 8 - r:
                chk.fn('SipHash::Update, %d bytes held over, %d bytes added' % (r, c), m, 'sip_update', lambda f, r=r, c=c: update(f, r, c, False))
            else:
                chk.fn('SipHash::Update, %d bytes held over, 8g+%d bytes added' % (r, c), m, 'sip_update', lambda f, r=r, c=c: update(f, r, c, True))

    def final(f, r):
        p, q, M, total = absorbed(f, r)
        before = {k: word8(f, f, p, k, n) for k, n in (('v0', 8), ('v1', 8), ('v2', 8), ('v3', 8), ('rl', 4), ('b', 1))}
        for o in f.run(p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            last = le([M.sel(add(mul(q, 8), k)) if k < r else 0 for k in range(7)] + [trunc(total, 64, 8)])
            v = absorb([V[j](q) for j in range(4)], last)
            v = [v[0], v[1], v[2] ^ 0xff, v[3]]
            for _ in range(4):
                v = sipround(v)
            f.ensures(o, 'is the SipHash-2-4 tag', eq(o.val, v[0] ^ v[1] ^ v[2] ^ v[3]))
            for k, n in (('v0', 8), ('v1', 8), ('v2', 8), ('v3', 8), ('rl', 4), ('b', 1)):
                f.ensures(o, 'the object is unchanged: ' + k, eq(word8(f, o, p, k, n), before[k], 8 * n))
        f.reachable('returns', f.rets())
    for r in range(8):
        chk.fn('SipHash::Finalize, %d bytes held over' % r, m, 'sip_final', lambda f, r=r: final(f, r))
