"""P14 conversions between asio and boost::asio, and between strings and byte vectors"""
from vp.contract import *

TITLE = 'conversions'
REPLAY = {'driver': 'p14.cc', 'sources': [], 'libs': ['-lboost_system', '-lpthread'], 'seconds': 8}


def contracts(chk):
    m = chk.ir(['h_conv.cc'])

    def prep(f, size):
        p, n, a = f.string('in', 'Str', 'char', n=size) if False else (None, None, None)
        src, dst = f.ex.alloc(f.st, size, 'in'), f.ex.alloc(f.st, size, 'out')
        b = [f.bv('byte%d' % i, 8) for i in range(size)]
        for i in range(size):
            f.ex.store(f.st, src.plus(i), 1, b[i])
        return src, dst, b

    def same(f, o, dst, b):
        for i in range(len(b)):
            f.ensures(o, 'address byte %d is kept' % i, eq(f.ex.load(o.st, dst.plus(i), 1), b[i], 8))
    for d, w in (('tb', 'ToBoost'), ('ta', 'ToAsio')):
        def v4(f):
            src, dst, b = prep(f, 4)
            for o in f.run(src, dst):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                same(f, o, dst, b)
            f.reachable('returns', f.rets())
        chk.fn('%s(address_v4)' % w, m, 'v4_' + d, v4)

        def v6(f):
            src, dst, b = prep(f, 16)
            sc = f.bv('scope')
            f.requires(ult(sc, 1 << 32))        # a scope id has 32 bits (sin6_scope_id)
            for o in f.run(src, sc, dst):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                same(f, o, dst, b)
                f.ensures(o, 'the scope id is kept', eq(o.val, sc))
            f.reachable('returns', f.rets())
        chk.fn('%s(address_v6)' % w, m, 'v6_' + d, v6)

        def ad4(f):
            src, dst, b = prep(f, 4)
            for o in f.run(src, dst):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                same(f, o, dst, b)
                f.ensures(o, 'stays a v4 address', eq(o.val, 1, 32))
            f.reachable('returns', f.rets())
        chk.fn('%s(address), v4' % w, m, 'ad4_' + d, ad4)

        def ad6(f):
            src, dst, b = prep(f, 16)
            sc = f.bv('scope')
            f.requires(ult(sc, 1 << 32))
            os_ = f.ex.alloc(f.st, 8, 'oscope')
            for o in f.run(src, sc, dst, os_):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                same(f, o, dst, b)
                f.ensures(o, 'the scope id is kept', eq(f.ex.load(o.st, os_, 8), sc))
                f.ensures(o, 'stays a v6 address', eq(o.val, 1, 32))
            f.reachable('returns', f.rets())
        chk.fn('%s(address), v6' % w, m, 'ad6_' + d, ad6)

        def ep4(f):
            src, dst, b = prep(f, 4)
            port = f.bv('port', 16)
            for o in f.run(src, port, dst):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                same(f, o, dst, b)
                f.ensures(o, 'stays v4, the port is kept', eq(o.val, zext(port, 16, 32), 32))
            f.reachable('returns', f.rets())
        chk.fn('%s(udp::endpoint), v4' % w, m, 'ep4_' + d, ep4)

        def ep6(f):
            src, dst, b = prep(f, 16)
            sc = f.bv('scope')
            port = f.bv('port', 16)
            f.requires(ult(sc, 1 << 32))
            os_ = f.ex.alloc(f.st, 8, 'oscope')
            for o in f.run(src, sc, port, dst, os_):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                same(f, o, dst, b)
                f.ensures(o, 'the scope id is kept', eq(f.ex.load(o.st, os_, 8), sc))
                f.ensures(o, 'stays v6, the port is kept', eq(o.val, zext(port, 16, 32), 32))
            f.reachable('returns', f.rets())
        chk.fn('%s(udp::endpoint), v6' % w, m, 'ep6_' + d, ep6)

    def seq(out, inn):
        def b(f):
            q = f.out_string('out', *out)
            p, n, a = f.string('in', *inn)
            for o in f.run(q, p):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                f.seq_eq(o, 'the same bytes', f.abs(o, q), n, lambda k: a.sel(k))
            f.reachable('returns', f.rets())
        return b
    S_, V_ = ('Str', 'char'), ('Vec', 'unsigned char')
    chk.fn('ToByteVector', m, 'cv_bytes', seq(V_, S_))
    chk.fn('ToString', m, 'cv_string', seq(S_, V_))

    def std(f):
        v = f.bv('value', 32)
        f.ex.add_handler(r'^std::(_V2::)?generic_category\(\)$', lambda ex, st, c: fptr('generic_category'), 'std::generic_category')
        f.ex.add_handler(r'^std::(_V2::)?system_category\(\)$', lambda ex, st, c: fptr('system_category'), 'std::system_category')
        pc = f.ex.alloc(f.st, 8, 'category')
        for o in f.run(v, pc):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            f.ensures(o, 'the value is kept', eq(o.val, v, 32))
            c = f.ex.load(o.st, pc, 8)
            f.ensures(o, 'in the generic category', isinstance(c, Ptr) and c.o == fptr('generic_category').o)
        f.reachable('returns', f.rets())
    chk.fn('ToStd(error_code)', m, 'cv_std', std)
