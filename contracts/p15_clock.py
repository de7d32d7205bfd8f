"""P15 clock conversions"""
from vp.contract import *

TITLE = 'clock'
REPLAY = {'driver': 'p15.cc', 'sources': ['src/maidsafe/common/clock.cc'], 'libs': [], 'seconds': 8}
NS = 1000000000
MAXS = (1 << 63) // NS


def contracts(chk):
    m = chk.ir(['h_misc.cc', 'src/maidsafe/common/encode.cc', 'src/maidsafe/common/clock.cc'])

    def tot(f):
        p = f.bv('p')
        for o in f.run(p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            r = Z(o.val, 64)
            # whole seconds towards zero: |p - r*10^9| < 10^9, with the sign of p
            f.ensures(o, 'whole seconds, towards zero', r == Z(p, 64) / z3.BitVecVal(NS, 64))
        f.reachable('returns', f.rets())
    chk.fn('Clock::to_time_t', m, 'clk_to', tot)

    def frt(f):
        t = f.bv('t')
        f.requires(And(Z(t, 64) <= MAXS, Z(t, 64) >= -MAXS))
        for o in f.run(t):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            f.ensures(o, 'the instant t seconds after the epoch', eq(o.val, mul(t, NS)))
        f.reachable('returns', f.rets())
    chk.fn('Clock::from_time_t', m, 'clk_from', frt)

    def now(f):
        s = f.bv('system')

        def sysnow(ex, st, c):
            st.ghost['reads'] = st.ghost.get('reads', 0) + 1
            return s
        f.ex.add_handler(r'^std::chrono::_V2::system_clock::now\(\)$', sysnow, 'std::chrono::system_clock::now (any value)')
        for o in f.run():
            f.ensures(o, 'does not throw', o.kind == 'ret')
            f.ensures(o, 'the system clock, read once', o.st.ghost.get('reads') == 1)
            f.ensures(o, 'nanoseconds since 1970-01-01T00:00:00Z', eq(o.val, s))
        f.reachable('returns', f.rets())
    chk.fn('Clock::now', m, 'clk_now', now)
    t, r = z3.Ints('t r')
    chk.int_lemma('to_time_t(from_time_t(t)) == t for every t in range',
                  z3.Implies(z3.And(t <= MAXS, t >= -MAXS, t * NS - r * NS < NS, t * NS - r * NS > -NS), r == t))
    chk.int_lemma('t * 10^9 fits in 64 bits for every t in range', z3.Implies(z3.And(t <= MAXS, t >= -MAXS), z3.And(t * NS < 2 ** 63, t * NS >= -2 ** 63)))
