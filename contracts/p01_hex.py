"""P01 hex codec"""
from vp.contract import *

TITLE = 'hex'
REPLAY = {'driver': 'p01.cc', 'sources': ['src/maidsafe/common/encode.cc', 'src/maidsafe/common/error.cc', 'src/maidsafe/common/error_categories.cc'],
          'libs': ['-lpthread'], 'seconds': 20}
CAT, CODE = 'maidsafe::CommonErrors', None


# ---- specification functions (from RFC 4648 base16, lower case)
def digit(v):                      # nibble (8 bit) -> character
    return Ite(ult(v, 10, 8), add(v, 48, 8), add(v, 87, 8), 8)


def enc(arr, k):                   # k-th character of the encoding
    b = arr.sel(udiv(k, 2))
    hi, lo = udiv(b, 16, 8), urem(b, 16, 8)
    return Ite(eq(urem(k, 2), 0), digit(hi), digit(lo), 8)


def isd(c):
    return And(ule(48, c, 8), ule(c, 57, 8))


def valid(c):
    return Or(isd(c), And(ule(97, c, 8), ule(c, 102, 8)))


def nib(c):
    return Ite(isd(c), sub(c, 48, 8), sub(c, 87, 8), 8)


def dec(arr, k):
    return add(mul(nib(arr.sel(mul(k, 2))), 16, 8), nib(arr.sel(add(mul(k, 2), 1))), 8)


def contracts(chk):
    m = chk.ir(['h_hex.cc', 'src/maidsafe/common/encode.cc'])
    err = enum_code('CommonErrors', 'invalid_conversion')

    def encode(kind, elem):
        def b(f):
            p, n, a = f.string('in', kind, elem)
            q = f.out_string('out')
            for o in f.run(p, q):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                if o.kind == 'ret':
                    f.seq_eq(o, 'result is the base16 encoding', f.abs(o, q), mul(n, 2), lambda k: enc(a, k))
            f.reachable('returns', f.rets())
        return b
    chk.fn('hex::Encode<std::string>', m, 'vp_hex_encode', encode('Str', 'char'))
    chk.fn('hex::Encode<std::vector<byte>>', m, 'vp_hex_encode_v', encode('Vec', 'unsigned char'))

    def decode(kind, elem):
        def b(f):
            p, n, a = f.string('in')
            q = f.out_string('out', kind, elem)
            for o in f.run(p, q):
                if o.kind == 'ret':
                    f.ensures(o, 'accepted input has even length', eq(urem(n, 2), 0))
                    f.forall(o, 'accepted input has only hex digits', n, lambda k: valid(a.sel(k)), )
                    f.seq_eq(o, 'result is the base16 decoding', f.abs(o, q), udiv(n, 2), lambda k: dec(a, k))
                else:
                    f.throws_error(o, 'throws invalid_conversion', 'CommonErrors', err)
                    f.ensures(o, 'throws only on malformed input', Or(
                        [eq(urem(n, 2), 1)] + [And(ult(t, n), Not(valid(a.sel(t)))) for t in f.index_terms(o.st, a)]))
            f.reachable('returns', f.rets())
            f.reachable('throws', f.throws())
        return b
    chk.fn('hex::DecodeToString', m, 'vp_hex_dec', decode('Str', 'char'))
    chk.fn('hex::DecodeToBytes', m, 'vp_hex_dec_v', decode('Vec', 'unsigned char'))

    # lemmas: decoding inverts encoding, on every input
    a = Base('x')
    k = fresh_bv('k', 64)
    e = Lam(lambda j: enc(a, j))
    chk.lemma('every character the encoder emits is a hex digit', valid(enc(a, k)))
    chk.lemma('decode(encode(x)) == x', Implies(ult(k, 1 << 61), eq(dec(e, k), a.sel(k), 8)))
    c = Base('c')
    d = Lam(lambda j: dec(c, j))
    chk.lemma('encode(decode(c)) == c', Implies(And(ult(k, 1 << 61), valid(c.sel(k)), valid(c.sel(mul(udiv(k, 2), 2))),
                                                valid(c.sel(add(mul(udiv(k, 2), 2), 1)))), eq(enc(d, k), c.sel(k), 8)))
