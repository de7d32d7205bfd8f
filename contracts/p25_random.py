"""P25 random data: sizes, ranges, alphabets, and one generator used under its mutex; small_prng; Spinlock"""
from vp.contract import *
from vp.exec import PathEnd

TITLE = 'random data'
D = 'src/maidsafe/common/'
REPLAY = {'driver': 'p25.cc', 'sources': [D + x for x in ('utils.cc', 'identity.cc', 'encode.cc', 'error.cc', 'error_categories.cc', 'data_types/data.cc')],
          'libs': ['-lcryptopp', '-lboost_filesystem', '-lboost_program_options', '-lboost_locale', '-lboost_system', '-lboost_thread', '-lpthread'], 'seconds': 12,
          'also': {'san': 'thread', 'flags': ['-DRP_THREADS']}}
ALNUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
ACQ, REL, AR, SC, RLX = 2, 3, 4, 5, 0


class Gen:
    """the generator, its mutex and the distributions"""

    def __init__(self, f, kind=None):
        self.f, self.ex, self.kind = f, f.ex, kind
        ex, st = f.ex, f.st
        A = ex.add_handler
        T = 'std::mt19937 and std::uniform_int_distribution: a draw is any number within the bounds of the distribution'
        A(r'^(?:\w+ )*std::uniform_int_distribution<[^<>]*>::operator\(\)<std::mersenne_twister_engine<.*>\(std::mersenne_twister_engine<.*>&\)$', self.draw, T)
        A(r'^std::mersenne_twister_engine<.*>::mersenne_twister_engine\(unsigned (?:long|int)\)$', self.made, T)
        A(r'^std::mersenne_twister_engine<.*>::seed\(unsigned (?:long|int)\)$', self.seed, T)
        M = 'std::mutex: mutual exclusion'
        A(r'^std::mutex::lock\(\)$', self.lock, M)
        A(r'^std::mutex::unlock\(\)$', self.unlock, M)
        A(r'^std::chrono::(?:_V2::)?(?:system|steady)_clock::now\(\)$', lambda ex, st, c: fresh_bv('now', 64), 'the clock: any time')
        A(r'^std::thread::hardware_concurrency\(\)$', lambda ex, st, c: self.conc, 'std::thread::hardware_concurrency: any number')
        st.ghost.update({'held': None, 'draws': z3.BitVecVal(0, 64), 'numbers': 0, 'number': None, 'gen': None, 'seeded': None, 'locks': 0})
        self.D = Base('in.draw', 32)
        if kind:
            hi = 255 if kind == 'bytes' else 61
            st.foralls.append(Forall(None, lambda j: [ule(self.D.sel(j), hi, 32)], 'draws'))

    def lock(self, ex, st, c):
        ex.oblige(st, ex.site('the mutex is not held already'), st.ghost['held'] is None)
        st.ghost['held'] = c.args[0].o
        st.ghost['locks'] += 1
        # as many draws as there are may have been made by other threads; they do not count

    def unlock(self, ex, st, c):
        ex.oblige(st, ex.site('the mutex is held'), st.ghost['held'] == c.args[0].o)
        st.ghost['held'] = None

    def under(self, st, gen):
        ex, g = self.ex, st.ghost
        m = self.mutex(st)
        ex.oblige(st, ex.site('the generator is used under its mutex'), g['held'] is not None and g['held'] == m)
        ex.oblige(st, ex.site('the one generator is used'), gen.o == self.gen(st))

    def static(self, st, fn):
        r = self.ex.call(st.fork(), fn, [])
        return r[0].val.o

    def mutex(self, st):
        if not hasattr(self, '_m'):
            self._m = self.static(st, '_ZN8maidsafe6detail29random_number_generator_mutexEv')
        return self._m

    def gen(self, st):
        if not hasattr(self, '_g'):
            self.ex.muted, was = True, self.ex.muted
            self._g = self.static(st, '_ZN8maidsafe6detail23random_number_generatorEv')
            self.ex.muted = was
        return self._g

    def made(self, ex, st, c):
        if 'made' in st.ghost:
            st.ghost['made'] = c.args[1]

    def seed(self, ex, st, c):
        self.under(st, c.args[0])
        st.ghost['seeded'] = c.args[1]

    def draw(self, ex, st, c):
        p, gen = c.args[0], c.args[1]
        self.under(st, gen)
        w = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64}[re.search(r'uniform_int_distribution<([^<>]*)>', c.d).group(1)]
        signed = 'unsigned' not in re.search(r'uniform_int_distribution<([^<>]*)>', c.d).group(1)
        a, b = S(ex.load(st, p, w // 8)), S(ex.load(st, p.plus(w // 8), w // 8))
        if not (is_c(a) and is_c(b)):
            raise Unsupported('a distribution with bounds that are not constant')
        full = (1 << (w - 1), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        g = st.ghost
        if (a, b) == full and w == 32:
            v = fresh_bv('number', 32)
            g['numbers'] += 1
            g['number'] = v
            return v
        want = {'bytes': (0, 255), 'alnum': (0, 61)}.get(self.kind)
        ex.oblige(st, ex.site('draws are from %s' % (want,)), w == 32 and (a, b) == want)
        if w != 32 or (a, b) != want:
            raise PathEnd('another distribution')
        v = self.D.sel(g['draws'])
        g['draws'] = Z(add(g['draws'], 1), 64)
        return v


class Atomic:
    def __init__(self, f):
        self.f, self.ex = f, f.ex
        A = f.ex.add_handler
        T = 'std::atomic<bool>: other threads may change it between any two accesses; compare_exchange_weak may fail spuriously'
        N_ = r'^std::(?:atomic<bool>|__atomic_base<bool>)::'
        A(N_ + r'compare_exchange_(?:weak|strong)\(bool&, bool, std::memory_order(?:, std::memory_order)?\)$', self.cas, T)
        A(N_ + r'exchange\(bool, std::memory_order\)$', self.xchg, T)
        A(N_ + r'store\(bool, std::memory_order\)$', self.store, T)
        A(N_ + r'load\(std::memory_order\) const$', lambda ex, st, c: self.any(st), T)
        A(N_ + r'operator bool\(\) const$', lambda ex, st, c: self.any(st), T)
        A(N_ + r'operator=\(bool\)$', self.store)
        A(r'^std::this_thread::yield\(\)$', lambda ex, st, c: None)
        A(r'^sched_yield$', lambda ex, st, c: 0, 'sched_yield')
        f.st.ghost.update({'got': z3.BitVecVal(0, 32), 'stores': 0})

    def any(self, st):
        b = fresh_bv('flag', 8)
        self.ex.assume(st, ule(b, 1, 8))
        return z3.simplify(Z(b, 8) == 1)

    def order(self, st, o, ok):
        o = S(o)
        self.ex.oblige(st, self.ex.site('the memory order'), is_c(o) and o in ok)

    def took(self, st, c):
        st.ghost['got'] = Z(Ite(c, add(st.ghost['got'], 1, 32), st.ghost['got'], 32), 32)

    def bit(self, v):
        return eq(v, 1, 8) if not isinstance(v, bool) and not (z3.is_expr(v) and z3.is_bool(v)) else v

    def cas(self, ex, st, c):
        p, exp, new, o = c.args[:4]
        e = ex.load(st, exp, 1)
        self.order(st, o, (ACQ, AR, SC))
        # it is set to true only where it was false; nothing else is ever stored by lock
        ex.oblige(st, ex.site('it takes the lock only from those who do not hold it'), eq(e, 0, 8))
        ex.oblige(st, ex.site('it is set'), z_ne(new))
        outs = []
        for ok in (True, False):
            s = st.fork()
            if ok:
                self.took(s, True)
            else:
                b = self.any(s)
                ex.store(s, exp, 1, Ite(b, 1, 0, 8))
            outs.append(Outcome(s, 'ret', ok))
        return outs

    def xchg(self, ex, st, c):
        self.order(st, c.args[2], (ACQ, AR, SC))
        ex.oblige(st, ex.site('it is set'), z_ne(c.args[1]))
        b = self.any(st)
        self.took(st, Not(b))
        return b

    def store(self, ex, st, c):
        if len(c.args) > 2:
            self.order(st, c.args[2], (REL, AR, SC))
        st.ghost['stores'] += 1
        ex.oblige(st, ex.site('it is cleared'), Not(z_ne(c.args[1])))
        return c.args[1]


def z_ne(v):
    if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
        return v
    return Not(eq(v, 0, v.size() if z3.is_expr(v) else 8))


def contracts(chk):
    m = chk.ir(['h_rand.cc', D + 'utils.cc', D + 'error.cc'])

    def data(kind, ranged):
        def body(f):
            G = Gen(f, kind)
            out = f.out('result', 32)
            if ranged:
                a, b = f.bv('min', 32), f.bv('max', 32)
                f.requires(ule(a, b, 32))
                args = [a, b]
            else:
                n = f.bv('size')
                f.requires(ule(n, 1 << 40))
                args = [n]
            outs = f.run(out, *args)
            for o in outs:
                g = o.st.ghost
                f.ensures(o, 'does not throw', o.kind == 'ret')
                if o.kind != 'ret':
                    continue
                v = f.abs(o, out)
                f.ensures(o, 'the mutex is released', g['held'] is None)
                if ranged:
                    f.ensures(o, 'the size is within the bounds', And(ule(zext(a, 32, 64), v.n), ule(v.n, zext(b, 32, 64))))
                    f.ensures(o, 'the size is drawn once', g['numbers'] == 1)
                    if g['number'] is not None:
                        # every size can come out: it is min + (number mod (max - min + 1))
                        w = S(add(sub(zext(b, 32, 64), zext(a, 32, 64)), 1))
                        f.ensures(o, 'the size is the smallest one plus the number drawn, reduced to the range', eq(v.n, add(zext(a, 32, 64), urem(zext(g['number'], 32, 64), w))))
                else:
                    f.ensures(o, 'the size', eq(v.n, n))
                    f.ensures(o, 'no number is drawn for it', g['numbers'] == 0)
                f.ensures(o, 'one draw for each byte', eq(g['draws'], v.n))
                if kind == 'bytes':
                    f.forall(o, 'each byte is its own draw', v.n, lambda k: eq(v.arr.sel(k), trunc(G.D.sel(k), 32, 8), 8))
                else:
                    def alnum(k):
                        x = v.arr.sel(k)
                        return eq(x, table(G.D.sel(k)), 8)
                    f.forall(o, 'each byte is the letter or digit of its own draw', v.n, alnum)
            f.reachable('returns', outs)
        return body

    def table(d):
        x = z3.BitVecVal(0, 8)
        d = Z(d, 32)
        # the ranges of the alphabet
        d8 = z3.Extract(7, 0, d)
        return z3.If(z3.ULT(d, 10), d8 + 48, z3.If(z3.ULT(d, 36), d8 + 55, d8 + 61))
    chk.finite('alphabet', 'the three ranges are 0-9, A-Z, a-z', [chr(k + 48 if k < 10 else k + 55 if k < 36 else k + 61) for k in range(62)] == list(ALNUM))

    def number(f):
        G = Gen(f)
        outs = f.run()
        for o in outs:
            g = o.st.ghost
            f.ensures(o, 'does not throw', o.kind == 'ret')
            f.ensures(o, 'the mutex is released', g['held'] is None)
            f.ensures(o, 'one draw over the whole range', g['numbers'] == 1)
            if g['number'] is not None and o.kind == 'ret':
                f.ensures(o, 'the number drawn', eq(o.val, g['number'], 32))
        f.reachable('returns', outs)

    def seed(f):
        G = Gen(f)
        s = f.bv('seed', 32)
        for o in f.run(s):
            g = o.st.ghost
            f.ensures(o, 'does not throw', o.kind == 'ret')
            f.ensures(o, 'the mutex is released', g['held'] is None)
            v = g['seeded']
            f.ensures(o, 'the generator is seeded with it', v is not None and eq(v, s if not z3.is_expr(v) or v.size() == 32 else zext(s, 32, 64), 32 if z3.is_expr(v) and v.size() == 32 else 64))
            for r in f.ex.call(o.st, 'r_seed_get', []):
                f.ensures(r, 'it is the seed reported', r.kind == 'ret' and eq(r.val, s, 32))

    def first(f):
        """the generator begins with the seed reported"""
        G = Gen(f)
        f.st.ghost['made'] = None
        for o in f.run():
            for r in f.ex.call(o.st, 'r_seed_get', []):
                v = o.st.ghost['made']
                if v is not None:
                    f.ensures(r, 'the generator begins with the seed reported', eq(zext(r.val, 32, 64), v) if not z3.is_expr(v) or v.size() == 64 else eq(r.val, v, 32))
                else:
                    f.ensures(r, 'the generator is made', False)

    def conc(f):
        G = Gen(f)
        G.conc = f.bv('hardware', 32)
        for o in f.run():
            f.ensures(o, 'the number of hardware threads, at least 2', o.kind == 'ret' and eq(o.val, Ite(ult(G.conc, 2, 32), 2, G.conc, 32), 32))

    def rot(x, k):
        return z3.RotateLeft(x, k)

    def ref(s):
        a, b, c, d = s
        e = a - rot(b, 27)
        a = b ^ rot(c, 17)
        b = c + d
        c = d + e
        d = e + a
        return [a, b, c, d]

    def prng(f):
        p = f.ex.alloc(f.st, 16, 'context')
        s = [f.bv(x, 32) for x in 'abcd']
        for i in range(4):
            f.ex.store(f.st, p.plus(4 * i), 4, s[i])
        w = ref(s)
        for o in f.run(p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            f.ensures(o, 'the value', eq(o.val, w[3], 32))
            for i in range(4):
                f.ensures(o, 'the state', eq(f.ex.load(o.st, p.plus(4 * i), 4), w[i], 32))

    def prng_init(f):
        p = f.ex.alloc(f.st, 16, 'context')
        seed = f.bv('seed', 32)
        w = [z3.BitVecVal(0xf1ea5eed, 32), seed, seed, seed]
        for i in range(20):
            w = [z3.simplify(x) for x in ref(w)]
        for o in f.run(p, seed):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            for i in range(4):
                f.ensures(o, 'the state', eq(f.ex.load(o.st, p.plus(4 * i), 4), w[i], 32))

    def spin(fn):
        def body(f):
            A = Atomic(f)
            p = f.ex.alloc(f.st, 8, 'spinlock')
            f.ex.store(f.st, p, 1, fresh_bv('flag', 8))
            if fn == 'lock':
                f.ex.loop_invs.append(lambda st: eq(st.ghost['got'], 0, 32))
            for o in f.run(p):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                f.ensures(o, 'lock returns holding the lock, taken once' if fn == 'lock' else 'unlock takes nothing', eq(o.st.ghost['got'], 1 if fn == 'lock' else 0, 32))
                f.ensures(o, 'lock releases nothing' if fn == 'lock' else 'unlock clears it once', o.st.ghost['stores'] == (0 if fn == 'lock' else 1))
        return body

    def spin_new(f):
        p = f.ex.alloc(f.st, 8, 'spinlock')
        for o in f.run(p):
            f.ensures(o, 'begins unlocked', eq(f.ex.load(o.st, p, 1), 0, 8))

    for kind, s, fn in (('bytes', 'RandomString', 'str'), ('bytes', 'RandomBytes', 'vec'), ('alnum', 'RandomAlphaNumericString', 'astr'), ('alnum', 'RandomAlphaNumericBytes', 'avec')):
        chk.fn(s + '(size)', m, 'r_' + fn, data(kind, False))
        chk.fn(s + '(min, max)', m, 'r_%s2' % fn, data(kind, True))
    chk.fn('RandomInt32', m, 'r_int', number)
    chk.fn('RandomUint32', m, 'r_uint', number)
    chk.fn('set_random_number_generator_seed', m, 'r_seed', seed)
    chk.fn('random_number_generator', m, 'r_uint', first)
    chk.fn('Concurrency', m, 'r_conc', conc)
    chk.fn('small_prng::RandomValue', m, 'r_prng', prng)
    chk.fn('small_prng::Initialise', m, 'r_prng_init', prng_init)
    chk.fn('Spinlock::Spinlock', m, 'r_spin_new', spin_new)
    chk.fn('Spinlock::lock', m, 'r_spin_lock', spin('lock'), loop_mode='summary')
    chk.fn('Spinlock::unlock', m, 'r_spin_unlock', spin('unlock'))
