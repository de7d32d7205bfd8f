"""P03 abbreviations"""
from vp.contract import *
from contracts import p01_hex as hx, p02_base64 as b64

TITLE = 'substr'
REPLAY = {'driver': 'p03.cc', 'sources': ['src/maidsafe/common/encode.cc', 'src/maidsafe/common/error.cc', 'src/maidsafe/common/error_categories.cc'],
          'libs': ['-lpthread'], 'seconds': 10}


def contracts(chk):
    m = chk.ir(['h_misc.cc', 'src/maidsafe/common/encode.cc', 'src/maidsafe/common/clock.cc'])

    def spec(e, N, k):
        """character k of the abbreviation of the text e of length N > 14"""
        return Ite(ult(k, 6), e(k), Ite(ult(k, 8), 46, e(add(sub(N, 14), k)), 8), 8)

    def check(f, o, q, e, N):
        sv = f.abs(o, q)
        f.ensures(o, 'length is min(n, 14)', eq(sv.n, Ite(ult(14, N), 14, N, 64)))
        for k in range(14):
            f.ensures(o, 'character %d' % k, Implies(ult(k, sv.n), eq(sv.arr.sel(k), Ite(ult(14, N), spec(e, N, k), e(k), 8), 8)))

    def get(f):
        q = f.out_string('out')
        p, n, a = f.string('in')
        for o in f.run(q, p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            if o.kind == 'ret':
                check(f, o, q, a.sel, n)
        f.reachable('returns', f.rets())
    chk.fn('detail::GetSubstr', m, 'substr_get', get)

    def enc(kind, elem, which, r):
        def b(f):
            q = f.out_string('out')
            c = 3 if which == 'b64' else 1
            g = f.idx('group', 1 << 40)
            f.requires(ule(g, 1 << 40))
            p, n, a = f.string('in', kind, elem, n=add(mul(g, c), r))
            N = b64.enclen(n) if which == 'b64' else mul(n, 2)
            e = (lambda k: b64.enc(a, n, k)) if which == 'b64' else (lambda k: hx.enc(a, k))
            for o in f.run(q, p):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                if o.kind == 'ret':
                    check(f, o, q, e, N)
            f.reachable('returns', f.rets())
        return b
    for sfx, kind, elem in (('', 'Str', 'char'), ('_v', 'Vec', 'unsigned char')):
        chk.fn('hex::Substr<%s>' % kind, m, 'substr_hex' + sfx, enc(kind, elem, 'hex', 0))
        for r in range(3):
            chk.fn('base64::Substr<%s>, size = 3q+%d' % (kind, r), m, 'substr_b64' + sfx, enc(kind, elem, 'b64', r))
