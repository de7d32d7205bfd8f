"""P18 locked pages and the allocators that wipe what they free"""
from vp.contract import *
from vp.exec import PathEnd, Forall
from vp import conc

TITLE = 'locked pages and wiping allocators'
D = 'src/maidsafe/common/'
REPLAY = {'driver': 'p18.cc', 'sources': [], 'libs': ['-lpthread'], 'seconds': 8}
TOP = 1 << 47                      # user space addresses


class Pages:
    """std::map<size_t, int> keyed by multiples of the page size 2^s, the pages the system was asked to lock, and the mutex.

    Page number j has the count in memory at counts + 16 j (an iterator is a pointer there); has(j) tells whether it is a key."""

    def __init__(self, f, s):
        self.f, self.ex, self.s = f, f.ex, s
        ex = f.ex
        A = ex.add_handler
        M = r'^(?:.* )?std::map<unsigned long, int, .*>::'
        T = 'std::map<size_t, int>'
        A(M + r'map\(\)$', self.ctor, T)
        A(M + r'find\(unsigned long const&\)( const)?$', self.find, T)
        A(M + r'count\(unsigned long const&\) const$', self.count, T)
        A(M + r'(end|cend)\(\)( const)?$', lambda ex, st, c: self.end(st), T)
        A(M + r'(size|empty)\(\) const$', self.size, T)
        A(M + r'insert<.*>\(.*&&\)$', self.insert, T)
        A(M + r'insert\(std::pair<.*(&&|const&)\)$', self.insert, T)
        A(M + r'emplace<std::pair<.*>\(.*\)$', self.insert, T)
        A(M + r'emplace<unsigned long.*>\(.*\)$', self.emplace, T)
        A(M + r'operator\[\]\(unsigned long( const&|&&)\)$', self.index, T)
        A(M + r'at\(unsigned long const&\)( const)?$', self.at, T)
        A(M + r'erase(\[abi:\w+\])?\((std::_Rb_tree_(const_)?iterator<.*>)\)$', self.erase, T)
        A(M + r'erase\(unsigned long const&\)$', self.erase_key, T)
        A(M + r'(clear|swap|begin|operator=|emplace_hint<|insert_or_assign<|try_emplace<|lower_bound|upper_bound|merge|extract)\b.*$', self.unsup)
        A(r'^std::_Rb_tree_(const_)?iterator<std::pair<unsigned long const, int> ?>::operator(\*|->)\(\) const$', lambda ex, st, c: ex.load_typed(st, c.args[0], ('ptr',)), T)
        A(r'^Os::Lock\(', self.os_lock, 'Os::Lock, Os::Unlock: the requests to the system are recorded')
        A(r'^Os::Unlock\(', self.os_unlock)
        self.map = None
        self.mon = conc.Monitor('mutex', None, [])
        self.c = conc.Conc(ex, [self.mon], shared=False)
        self.c.start(f.st)
        self.c.at_acquire = self.acquired
        ex.loop_invs.remove(self.c.sizes)
        g = f.st.ghost
        g['sections'] = 0
        g['has'] = StrVal(0, Const(0, 8), 8)
        g['sys'] = StrVal(0, Const(0, 8), 8)
        g['size'] = z3.BitVecVal(0, 64)
        g['done'] = z3.BitVecVal(0, 64)

    def acquired(self, st, m):
        st.ghost['sections'] += 1

    def fresh(self, st):
        g = st.ghost
        g['sections'] = 0
        g['has'] = StrVal(0, Base('has0', 8), 8)
        g['sys'] = StrVal(0, Base('sys0', 8), 8)
        g['size'] = fresh_bv('size0', 64)
        o = self.ex.alloc(st, 32, 'map entries')
        self.c0 = Base('counts0', 32)
        st.wobj(o.o).cells[0] = (32, StrVal(1 << 60, self.c0, 32, 'vector', 32, False))
        self.counts = Ptr(('S', o.o, 0), 0)
        st.foralls.append(Forall(None, lambda j, g=dict(g): [self.good(g, self.cnt0, j)]))
        self.end_ = self.ex.alloc(st, 0, 'past the entries of the map')
        self.g0 = dict(g)
        self.ex.assume(st, ule(g['size'], 1 << 30))

    def cnt0(self, j):
        return self.c0.sel(self.at_(j))

    def at_(self, j):
        return S(add(mul(j, 4), 2))

    def cnt(self, st):
        a = self.ex.strval(st, self.counts.o).arr
        return lambda j: a.sel(self.at_(j))

    def good(self, g, cnt, j):
        """what holds of every page: held in the map iff its count is positive iff the system was last asked to lock it"""
        h, l = eq(g['has'].arr.sel(j), 1, 8), eq(g['sys'].arr.sel(j), 1, 8)
        return Implies(ult(j, 1 << (64 - self.s)), And([B(h) == B(l), Implies(h, And(sle(1, cnt(j), 32), sle(cnt(j), (1 << 31) - 2, 32))), Implies(h, Not(eq(g['size'], 0)))]))

    # ---- helpers
    def unsup(self, ex, st, c):
        raise Unsupported(c.d[:120])

    def locked(self, st):
        self.ex.oblige(st, self.ex.site('the map is used under the mutex'), self.mon.held(st))

    def end(self, st):
        self.locked(st)
        return self.end_

    def page(self, st, key):
        self.ex.oblige(st, self.ex.site('a page address is a multiple of the page size'), eq(Z(key, 64) & ((1 << self.s) - 1), 0))
        j = S(z3.LShR(Z(key, 64), self.s))
        self.ex.hints.append(j)
        return j

    def split(self, st, j):
        a, b = st.fork(), st
        h = eq(st.ghost['has'].arr.sel(j), 1, 8)
        self.ex.assume(a, h)
        self.ex.assume(b, Not(h))
        r = []
        for s, v in ((a, True), (b, False)):
            if self.ex.prove(s, False, 10000, extra_terms=[j])[0] != 'proved':
                r.append((s, v))
        return r

    def ptr(self, j):
        return self.counts.plus(mul(j, 16))

    def key(self, st, c, i=1):
        return self.ex.load(st, c.args[i], 8)

    def ctor(self, ex, st, c):
        self.map = c.args[0]

    def find(self, ex, st, c):
        self.locked(st)
        j = self.page(st, self.key(st, c))
        st.ghost['done'] = S(mul(add(j, 1), 1 << self.s))
        return [Outcome(s, 'ret', self.ptr(j) if h else self.end(s)) for s, h in self.split(st, j)]

    def count(self, ex, st, c):
        self.locked(st)
        j = self.page(st, self.key(st, c))
        st.ghost['done'] = S(mul(add(j, 1), 1 << self.s))
        return [Outcome(s, 'ret', int(h)) for s, h in self.split(st, j)]

    def size(self, ex, st, c):
        self.locked(st)
        n = st.ghost['size']
        return eq(n, 0) if c.mm.group(1) == 'empty' else n

    def put(self, st, j, v):
        g = st.ghost
        g['has'] = StrVal(0, Store(g['has'].arr, j, 1), 8)
        g['size'] = S(add(g['size'], 1))
        self.ex.store(st, self.ptr(j).plus(8), 4, v)

    def add_entry(self, st, key, v, wrap):
        self.locked(st)
        j = self.page(st, key)
        st.ghost['done'] = S(mul(add(j, 1), 1 << self.s))
        out = []
        for s, h in self.split(st, j):
            if not h:
                self.put(s, j, v)
            out.append(Outcome(s, 'ret', wrap(self.ptr(j), 0 if h else 1)))
        return out

    def insert(self, ex, st, c):
        return self.add_entry(st, self.key(st, c), ex.load(st, c.args[1].plus(8), 4), lambda p, new: [p, new])

    def emplace(self, ex, st, c):
        v = ex.load(st, c.args[2], 4) if isinstance(c.args[2], Ptr) else c.args[2]
        return self.add_entry(st, self.key(st, c), v, lambda p, new: [p, new])

    def index(self, ex, st, c):
        return self.add_entry(st, self.key(st, c), 0, lambda p, new: p.plus(8))

    def at(self, ex, st, c):
        self.locked(st)
        j = self.page(st, self.key(st, c))
        st.ghost['done'] = S(mul(add(j, 1), 1 << self.s))
        return [Outcome(s, 'ret', self.ptr(j).plus(8)) if h else ex.throw(s, '_ZTISt12out_of_range') for s, h in self.split(st, j)]

    def remove(self, st, j):
        g = st.ghost
        self.ex.oblige(st, self.ex.site('the erased entry is in the map'), eq(g['has'].arr.sel(j), 1, 8), extra_terms=[j])
        g['has'] = StrVal(0, Store(g['has'].arr, j, 0), 8)
        g['size'] = S(sub(g['size'], 1))
        h, n = g['has'].arr, g['size']
        st.foralls.append(Forall(None, lambda m: [Implies(eq(h.sel(m), 1, 8), Not(eq(n, 0)))]))

    def erase(self, ex, st, c):
        self.locked(st)
        p = c.args[1]
        if p.o != self.counts.o:
            ex.oblige(st, ex.site('erases an entry of the map'), False)
            raise PathEnd('end')
        self.remove(st, S(z3.LShR(Z(p.off, 64), 4)))
        return Poison('iterator after the erased entry')

    def erase_key(self, ex, st, c):
        self.locked(st)
        j = self.page(st, self.key(st, c))
        out = []
        for s, h in self.split(st, j):
            if h:
                self.remove(s, j)
            out.append(Outcome(s, 'ret', int(h)))
        return out

    def request(self, st, c, lock):
        ex, g = self.ex, st.ghost
        p, n = c.args[1], c.args[2]
        if p.o != 0:
            raise Unsupported('lock request for an object')
        self.locked(st)
        ex.oblige(st, ex.site('the request is for one whole page'), And(eq(n, 1 << self.s), eq(Z(p.off, 64) & ((1 << self.s) - 1), 0)))
        j = S(z3.LShR(Z(p.off, 64), self.s))
        ex.oblige(st, ex.site('only a page that is not locked is locked' if lock else 'only a locked page is unlocked'), (Not if lock else B)(eq(g['sys'].arr.sel(j), 1, 8)), extra_terms=[j])
        g['sys'] = StrVal(0, Store(g['sys'].arr, j, int(lock)), 8)
        return fresh_bv('granted', 1)

    def os_lock(self, ex, st, c):
        return self.request(st, c, True)

    def os_unlock(self, ex, st, c):
        return self.request(st, c, False)


def contracts(chk):
    m = chk.ir(['h_auth_mem.cc'])

    def num(fn):
        ex = Exec(m)
        lib_std.install(ex)
        return S(ex.call(State(), fn, [])[0].val)
    size = num('pm_size')

    def setup(f, s):
        g = Pages(f, s)
        p = f.ex.alloc(f.st, size, 'manager')
        o, = f.ex.call(f.st, 'pm_new', [p, 1 << s])
        f.st = o.st
        f.ensures(f.st, 'a new manager holds no page', eq(f.st.ghost['size'], 0))
        g.fresh(f.st)
        return g, p

    def finish(f, g, o):
        if o.kind != 'ret':
            f.ensures(o, 'does not throw', False)
            return None
        f.ensures(o, 'one critical section, which is left', o.st.ghost['sections'] == 1 and not g.mon.held(o.st))
        cnt = g.cnt(o.st)
        j = fresh_bv('any', 64)
        f.ensures(o, 'held iff counted iff locked by the system', g.good(o.st.ghost, cnt, j), extra=[j])
        return cnt

    def changed(f, g, gh, cnt, j, lo, hi, d):
        """page j as it was, or d more often counted if lo <= j < hi"""
        hit = And(ule(lo, j), ult(j, hi))
        h0, h = eq(g.g0['has'].arr.sel(j), 1, 8), eq(gh['has'].arr.sel(j), 1, 8)
        before = Z(Ite(h0, g.cnt0(j), 0, 32), 32)
        now = Z(Ite(h, cnt(j), 0, 32), 32)
        return Implies(ult(j, 1 << (64 - g.s)), eq(now, Z(before + z3.If(B(hit), z3.BitVecVal(d & 0xffffffff, 32), z3.BitVecVal(0, 32)), 32), 32))

    class Steps:
        """candidate closed form for the address up to which pages are done"""
        w = 64

        def __init__(self, start, s):
            self.start, self.s = start, s

        def candidates(self):
            return [(lambda i: Z(add(self.start, mul(i, 1 << self.s)), 64), 0)]

        def axiom(self, i):
            return True

    def range_(s, lock):
        def body(f):
            g, p = setup(f, s)
            a, n = f.bv('address'), f.bv('size')
            f.requires(And(ule(a, TOP), ule(n, TOP)))
            lo = S(z3.LShR(Z(a, 64), s))
            hi = S(z3.If(B(eq(n, 0)), lo, z3.LShR(Z(a, 64) + Z(n, 64) - 1, s) + 1))
            st = f.st
            start = S(Z(a, 64) & ~((1 << s) - 1))
            st.ghost['done'] = start
            f.ex.streams.append(Steps(start, s))
            done = lambda gh: S(z3.LShR(Z(gh['done'], 64), s))
            in_ = lambda j: And(ule(lo, j), ult(j, hi))
            if lock:
                st.foralls.append(Forall(None, lambda j: [ule(g.cnt0(j), (1 << 31) - 3, 32)]))
            else:
                st.foralls.append(Forall(None, lambda j: [Implies(in_(j), eq(g.g0['has'].arr.sel(j), 1, 8))]))
            inv = f.ex.loop_invs
            inv.append(lambda s_: And([ule(lo, done(s_.ghost)), ule(done(s_.ghost), hi), ule(s_.ghost['size'], add(g.g0['size'], sub(done(s_.ghost), lo)))]))
            inv.append(lambda s_: (lambda c, gh: Forall(None, lambda j: [g.good(gh, c, j)]))(g.cnt(s_), dict(s_.ghost)))
            inv.append(lambda s_: (lambda c, gh: Forall(None, lambda j: [changed(f, g, gh, c, j, lo, done(gh), 1 if lock else -1)]))(g.cnt(s_), dict(s_.ghost)))
            outs = f.run(p, a, n)
            f.reachable('returns', f.rets())
            for o in outs:
                cnt = finish(f, g, o)
                if cnt is None:
                    continue
                j = fresh_bv('page', 64)
                f.ensures(o, 'exactly the pages of the range are counted once %s' % ('more' if lock else 'less'), changed(f, g, o.st.ghost, cnt, j, lo, hi, 1 if lock else -1), extra=[j])
        return body

    def count(s):
        def body(f):
            g, p = setup(f, s)
            for o in f.run(p):
                cnt = finish(f, g, o)
                if cnt is not None:
                    f.ensures(o, 'the number of locked pages', eq(o.val, Z(z3.Extract(31, 0, Z(g.g0['size'], 64)), 32), 32))
                    f.ensures(o, 'nothing changes', o.st.ghost['has'].arr is g.g0['has'].arr and o.st.ghost['sys'].arr is g.g0['sys'].arr)
            f.reachable('returns', f.rets())
        return body
    for s in (12, 14, 16, 21):
        chk.fn('LockRange, pages of 2^%d bytes' % s, m, 'pm_lock', range_(s, True), loop_mode='summary', rounds=2)
        chk.fn('UnlockRange, pages of 2^%d bytes' % s, m, 'pm_unlock', range_(s, False), loop_mode='summary', rounds=2)
        chk.fn('GetLockedPageCount, pages of 2^%d bytes' % s, m, 'pm_count', count(s))
    allocators(chk)


def allocators(chk):
    m = chk.ir(['h_auth_mem.cc'])
    LIMIT = 1 << 40

    def zeros(f, st, p, n):
        if p.o == 0:
            return []
        i = fresh_bv('byte', 64)
        s = st.fork()
        f.ex.assume(s, ult(i, n))
        return [(s, eq(f.ex.load_nc(s, p.plus(i), 1), 0, 8), i)]

    def install(f, p, n):
        g = f.st.ghost
        g['calls'] = 0
        ex = f.ex

        def lock(ex, st, c):
            st.ghost['calls'] += 1
            st.ghost['locked'] = (c.args[1], c.args[2])

        def unlock(ex, st, c):
            st.ghost['calls'] += 1
            f.ensures(st, 'the pages of the whole block are unlocked', And(c.args[1].o == p.o and c.args[1].h == p.h, eq(c.args[1].off, p.off), eq(c.args[2], n)))
            for s, ok, i in zeros(f, st, p, n):
                f.ensures(s, 'wiped before its pages are unlocked', ok, extra=[i])

        def opdel(ex, st, c):
            f.ensures(st, 'the block is handed back once', And(c.args[0].o == p.o, eq(c.args[0].off, p.off)))
            for s, ok, i in zeros(f, st, p, n):
                f.ensures(s, 'wiped before it is handed back', ok, extra=[i])
            st.ghost['freed'] = st.ghost.get('freed', 0) + 1
        B_ = r'^maidsafe::authentication::detail::LockedPageManagerBase<maidsafe::authentication::detail::MemoryPageLocker>::'
        ex.add_handler(B_ + r'LockRange\(', lock)
        ex.add_handler(B_ + r'UnlockRange\(', unlock)
        if p is not None:
            ex.add_handler(r'^(_ZdlPv|_ZdaPv|_ZdlPvm|_ZdaPvm|_ZdlPvSt11align_val_t|_ZdlPvmSt11align_val_t)$', opdel)
            ex.add_handler(r'^operator delete(\[\])?\(void\*', opdel)

    def allocate(size):
        def body(f):
            n = f.bv('count')
            install(f, None, 0)
            f.requires(ule(n, LIMIT))
            outs = f.run(n)
            f.reachable('returns', f.rets())
            for o in outs:
                if o.kind != 'ret':
                    f.ensures(o, 'does not throw', False)
                    continue
                f.ensures(o, 'locks once', o.st.ghost['calls'] == 1)
                l = o.st.ghost.get('locked')
                f.ensures(o, 'locks the pages of the whole block', And(l is not None and l[0].o == o.val.o and l[0].o != 0, eq(l[0].off, o.val.off), eq(o.val.off, 0), eq(l[1], mul(n, size))) if l else False)
                f.ensures(o, 'the block is as large as asked', ule(mul(n, size), o.st.mem[o.val.o].size))
        return body

    def free(size, locking, null=False):
        def body(f):
            if null:
                n = f.bv('count')
                p = Ptr(0, 0)
            else:
                n = f.bv('count')
                f.requires(ule(n, LIMIT))
                p, _ = f.bytes('block', S(mul(n, size)))
            install(f, p, S(mul(n, size)))
            outs = f.run(p, n)
            f.reachable('returns', f.rets())
            for o in outs:
                f.ensures(o, 'does not throw', o.kind == 'ret')
                f.ensures(o, 'the block is handed back', o.st.ghost.get('freed', 0) == (1 if not null else o.st.ghost.get('freed', 0)))
                f.ensures(o, 'its pages are unlocked once' if locking and not null else 'no page is unlocked', o.st.ghost['calls'] == (1 if locking and not null else 0))
        return body
    for t, s in (('c', 1), ('w', 16)):
        w = 'elements of %d byte%s' % (s, 's' * (s > 1))
        chk.fn('safe_allocator::allocate, ' + w, m, 'sa_alloc_' + t, allocate(s))
        chk.fn('safe_allocator::deallocate, ' + w, m, 'sa_free_' + t, free(s, True), loop_mode='summary', rounds=2)
        chk.fn('safe_allocator::deallocate of a null pointer, ' + w, m, 'sa_free_' + t, free(s, True, True), loop_mode='summary')
        chk.fn('zero_after_free_allocator::deallocate, ' + w, m, 'za_free_' + t, free(s, False), loop_mode='summary', rounds=2)

    def os(lock):
        def body(f):
            l = f.out('locker', 8)
            a, n = f.bv('address'), f.bv('length')
            st = f.st
            st.ghost['seen'] = []

            def call(ex, st, c):
                st.ghost['seen'] = st.ghost['seen'] + [(c.d, c.args[0], c.args[1])]
                return fresh_bv('mlock', 32)
            r = []

            def m_(nm):
                def h(ex, st, c):
                    v = fresh_bv(nm, 32)
                    st.ghost['seen'] = st.ghost['seen'] + [(nm, c.args[0], c.args[1], v)]
                    return v
                return h
            for nm in ('mlock', 'munlock'):
                f.ex.add_handler('^%s$' % nm, m_(nm), 'mlock and munlock of the system')
            for o in f.run(l, Ptr(0, a), n):
                if o.kind != 'ret':
                    f.ensures(o, 'does not throw', False)
                    continue
                sn = o.st.ghost['seen']
                ok = len(sn) == 1 and sn[0][0] == ('mlock' if lock else 'munlock')
                f.ensures(o, 'asks the system once, for the same range', And(eq(sn[0][1].off, a), eq(sn[0][2], n)) if ok else False)
                f.ensures(o, 'true iff the system agreed', B(eq(Z(o.val, 1), 1, 1)) == B(eq(sn[0][3], 0, 32)) if ok else False)
            f.reachable('returns', f.rets())
        return body
    chk.fn('MemoryPageLocker::Lock', m, 'os_lock', os(True))
    chk.fn('MemoryPageLocker::Unlock', m, 'os_unlock', os(False))
