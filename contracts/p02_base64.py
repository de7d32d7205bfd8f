"""P02 base64 codec"""
from vp.contract import *

TITLE = 'base64'
REPLAY = {'driver': 'p02.cc', 'sources': ['src/maidsafe/common/encode.cc', 'src/maidsafe/common/error.cc', 'src/maidsafe/common/error_categories.cc'],
          'libs': ['-lpthread'], 'seconds': 20}
PAD = 61


# ---- specification functions (RFC 4648 base64, padded)
def sym(v):                        # 6-bit value (8 bit) -> character
    return Ite(ult(v, 26, 8), add(v, 65, 8), Ite(ult(v, 52, 8), add(v, 71, 8), Ite(ult(v, 62, 8), sub(v, 4, 8),
               Ite(eq(v, 62, 8), 43, 47, 8), 8), 8), 8)


def rng(c, a, b):
    return And(ule(a, c, 8), ule(c, b, 8))


def valid(c):
    return Or(rng(c, 65, 90), rng(c, 97, 122), rng(c, 48, 57), eq(c, 43, 8), eq(c, 47, 8))


def val(c):
    return Ite(rng(c, 65, 90), sub(c, 65, 8), Ite(rng(c, 97, 122), sub(c, 71, 8), Ite(rng(c, 48, 57), add(c, 4, 8),
               Ite(eq(c, 43, 8), 62, 63, 8), 8), 8), 8)


def shl8(a, k):
    return mul(a, 1 << k, 8)


def lshr8(a, k):
    return udiv(a, 1 << k, 8)


def enclen(n):
    return mul(udiv(add(n, 2), 3), 4)


def enc(arr, n, k):
    g, p = udiv(k, 4), urem(k, 4)
    i0 = mul(g, 3)

    def byte(j):
        return Ite(ult(add(i0, j), n), arr.sel(add(i0, j)), 0, 8)
    b0, b1, b2 = byte(0), byte(1), byte(2)
    v0 = lshr8(b0, 2)
    v1 = add(shl8(urem(b0, 4, 8), 4), lshr8(b1, 4), 8)
    v2 = add(shl8(urem(b1, 16, 8), 2), lshr8(b2, 6), 8)
    v3 = urem(b2, 64, 8)
    return Ite(eq(p, 0), sym(v0), Ite(eq(p, 1), sym(v1),
               Ite(eq(p, 2), Ite(ult(add(i0, 1), n), sym(v2), PAD, 8), Ite(ult(add(i0, 2), n), sym(v3), PAD, 8), 8), 8), 8)


def pads(arr, n):
    return Ite(eq(n, 0), 0, add(Ite(eq(arr.sel(sub(n, 1)), PAD, 8), 1, 0, 64), Ite(eq(arr.sel(sub(n, 2)), PAD, 8), 1, 0, 64)), 64)


def declen(arr, n):
    return sub(mul(udiv(n, 4), 3), pads(arr, n))


def dec(arr, k):
    g, p = udiv(k, 3), urem(k, 3)
    c = [val(arr.sel(add(mul(g, 4), j))) for j in range(4)]
    return Ite(eq(p, 0), add(shl8(c[0], 2), lshr8(c[1], 4), 8),
               Ite(eq(p, 1), add(shl8(c[1], 4), lshr8(c[2], 2), 8), add(shl8(c[2], 6), c[3], 8), 8), 8)


def wf_at(arr, n, k):              # character k of an n-character input is acceptable there
    c = arr.sel(k)
    return Or(valid(c), And(eq(c, PAD, 8), Or(eq(k, sub(n, 1)), And(eq(k, sub(n, 2)), eq(arr.sel(sub(n, 1)), PAD, 8)))))


def contracts(chk):
    m = chk.ir(['h_b64.cc', 'src/maidsafe/common/encode.cc'])
    err = enum_code('CommonErrors', 'invalid_conversion')

    def encode(kind, elem, r):
        def b(f):
            g = f.idx('third', 1 << 40)     # every length is 3*third + r, r in 0..2
            f.requires(ule(g, 1 << 40))
            p, n, a = f.string('in', kind, elem, n=add(mul(g, 3), r))
            q = f.out_string('out')
            for o in f.run(p, q):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                if o.kind == 'ret':
                    v = f.abs(o, q)
                    f.ensures(o, 'result has the base64 length', eq(v.n, enclen(n)))
                    f.forall_mod(o, 'result is the base64 encoding', enclen(n), 4, lambda k: eq(v.arr.sel(k), enc(a, n, k), 8))
            f.reachable('returns', f.rets())
        return b
    for r in range(3):
        chk.fn('base64::Encode<std::string>, size = 3q+%d' % r, m, 'vp_b64_encode', encode('Str', 'char', r))
        chk.fn('base64::Encode<std::vector<byte>>, size = 3q+%d' % r, m, 'vp_b64_encode_v', encode('Vec', 'unsigned char', r))

    def decode(kind, elem, r):
        def b(f):
            g = f.idx('quad', 1 << 40)      # every length is 4*quad + r, r in 0..3
            f.requires(ule(g, 1 << 40))
            p, n, a = f.string('in', n=add(mul(g, 4), r))
            q = f.out_string('out', kind, elem)
            for o in f.run(p, q):
                if o.kind == 'ret':
                    f.ensures(o, 'accepted length is a multiple of four', r == 0)
                    if r:
                        continue
                    f.forall_mod(o, 'accepted input is well formed', n, 4, lambda k: wf_at(a, n, k))
                    v = f.abs(o, q)
                    f.ensures(o, 'result has the decoded length', eq(v.n, declen(a, n)))
                    f.forall_mod(o, 'result is the base64 decoding', declen(a, n), 3, lambda k: eq(v.arr.sel(k), dec(a, k), 8))
                else:
                    f.throws_error(o, 'throws invalid_conversion', 'CommonErrors', err)
                    f.ensures(o, 'throws only on malformed input', Or(
                        [r != 0] + [And(ult(t, n), Not(wf_at(a, n, t))) for t in f.index_terms(o.st, a)]))
            if r == 0:
                f.reachable('returns', f.rets())
            f.reachable('throws', f.throws())
        return b
    for r in range(4):
        chk.fn('base64::DecodeToString, size = 4q+%d' % r, m, 'vp_b64_dec', decode('Str', 'char', r))
        chk.fn('base64::DecodeToBytes, size = 4q+%d' % r, m, 'vp_b64_dec_v', decode('Vec', 'unsigned char', r))

    a = Base('x')
    n = fresh_bv('n', 64)
    k = fresh_bv('k', 64)
    e = Lam(lambda j: enc(a, n, j))
    big = ult(n, 1 << 40)
    N = enclen(n)
    chk.lemma('every encoding is well formed', Implies(And(big, ult(k, N)), wf_at(e, N, k)))
    chk.lemma('declen(enc(x)) == |x|', Implies(big, eq(declen(e, N), n)))
    for r in range(3):
        chk.lemma('decode(encode(x)) == x (k mod 3 = %d)' % r, Implies(And(big, ult(k, n), eq(urem(k, 3), r)), eq(dec(e, k), a.sel(k), 8)))
