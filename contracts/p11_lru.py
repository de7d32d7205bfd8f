"""P11 LruCache: a fixed-size, time-limited cache that evicts the least recently used entry"""
from vp.contract import *
from vp.exec import PathEnd, Forall

TITLE = 'LruCache'
D = 'src/maidsafe/common/'
REPLAY = {'driver': 'p11.cc', 'sources': [D + 'error.cc', D + 'error_categories.cc'], 'libs': ['-lboost_system'], 'seconds': 10}
MAXU = (1 << 64) - 1
BIG = 1 << 60
ARR = {'has': 8, 'time': 64, 'val': 64, 'in': 8, 'rank': 64}


def slt(a, b):
    return Not(sle(b, a))


class Lru:
    """models of std::list<long> and std::map<long, tuple<iterator, time_point[, long]>>.

    The map is has/time/val over keys; the list is in/rank over its nodes, a smaller rank being nearer to the front.
    In a valid cache the nodes of the list and the entries of the map correspond one to one, so a node is named by its
    key: that no key is ever given a second node, and that an entry holds an iterator to the node of its own key, are
    obligations. A node or an entry the code can reach is given memory of its own (cells, nodes), which is written
    back before the next operation; equal keys share their memory (the path is split where that is open)."""

    def __init__(self, f, value):
        self.f, self.ex, self.value = f, f.ex, value
        self.list = self.map = None
        self.more = []
        A = self.ex.add_handler
        L = r'^(?:.* )?std::(?:__cxx11::)?list<long, std::allocator<long> ?>::'
        T = 'std::list<long>'
        A(L + r'list\(\)$', self.l_ctor, T)
        A(L + r'(begin|cbegin)\(\)( const)?$', self.l_begin, T)
        A(L + r'(front|back)\(\)( const)?$', self.l_front, T)
        A(L + r'(pop_front|pop_back)\(\)$', self.l_pop, T)
        A(L + r'(insert|emplace<.*>)\(std::_List_const_iterator<long>, long( const&|&&)?\)$', self.l_insert, T)
        A(L + r'(push_back|push_front|emplace_back<.*>|emplace_front<.*>)\(long( const&|&&|&)?\)$', self.l_push, T)
        A(L + r'erase\(std::_List_const_iterator<long>\)$', self.l_erase, T)
        A(L + r'splice\(std::_List_const_iterator<long>, std::(?:__cxx11::)?list<long, std::allocator<long> ?>&&?, std::_List_const_iterator<long>\)$', self.l_splice, T)
        A(L + r'empty\(\) const$', lambda ex, st, c: eq(st.ghost['lsize'], 0), T)
        A(L + r'size\(\) const$', lambda ex, st, c: st.ghost['lsize'], T)
        A(L + r'(clear|remove|reverse|sort|swap|merge|unique|assign|resize)\b.*$', self.unsup)
        M = r'^(?:.* )?std::map<long, std::tuple<.*>::'
        T = 'std::map<long, tuple>'
        A(M + r'map\(\)$', self.m_ctor, T)
        A(M + r'find\(long const&\)( const)?$', self.m_find, T)
        A(M + r'count\(long const&\) const$', lambda ex, st, c: Z(Ite(self.hask(st, self.keyarg(st, c)), 1, 0, 64), 64), T)
        A(M + r'at\(long const&\)( const)?$', self.m_at, T)
        A(M + r'(size|empty)\(\) const$', self.m_size, T)
        A(M + r'erase(\[abi:\w+\])?\((std::_Rb_tree_(const_)?iterator<.*>)\)$', self.m_erase, T)
        A(M + r'erase\(long const&\)$', self.m_erase_key, T)
        A(M + r'insert<.*>\(.*&&\)$', self.m_insert, T)
        A(M + r'insert\(std::pair<.*(&&|const&)\)$', self.m_insert, T)
        A(M + r'emplace<(std::pair<.*)>\(.*\)$', self.m_insert, T)
        A(M + r'emplace<long.*>\(.*\)$', self.m_emplace, T)
        A(M + r'(clear|swap|begin|operator=|operator\[\]|emplace_hint<|insert_or_assign<|try_emplace<|lower_bound|upper_bound|merge|extract)\b.*$', self.unsup)
        A(r'^std::chrono::_V2::steady_clock::now\(\)$', self.now, 'std::chrono::steady_clock::now (never goes back)')

    def unsup(self, ex, st, c):
        raise Unsupported(c.d[:120])

    # ---- the abstract state
    def fresh(self, st):
        """an arbitrary state of the two containers in which the invariant holds"""
        g = st.ghost
        for k, w in ARR.items():
            g[k] = StrVal(0, Base('c0.' + k, w), w)
        for k in ('msize', 'lsize', 'lo', 'hi', 'now'):
            g[k] = fresh_bv('c0.' + k, 64)
        ex = self.ex
        for a in self.facts(g, True):
            st.foralls.append(a)
        ex.assume(st, And(ule(g['msize'], self.cap), eq(g['msize'], g['lsize']), ule(g['msize'], 1 << 40)))
        ex.assume(st, And(slt(-(1 << 40), g['lo']), slt(g['lo'], g['hi']), slt(g['hi'], 1 << 40)))
        ex.assume(st, And(sle(0, g['now']), sle(g['now'], BIG)))
        g['cells'] = g['nodes'] = ()
        g['min'] = None
        g['cut'] = g['lo']
        self.e = dict(g)

    def facts(self, g, lib):
        """the invariant of the two containers; lib: with what is true of every list and map"""
        h, tm, i, rk = (g[x].arr for x in ('has', 'time', 'in', 'rank'))
        ms, ls, lo, hi, now = (g[x] for x in ('msize', 'lsize', 'lo', 'hi', 'now'))
        out = [Forall(None, lambda k: [Implies(eq(h.sel(k), 1, 8), And(eq(i.sel(k), 1, 8), sle(-BIG, tm.sel(k)), sle(tm.sel(k), now)))], 'entries have a place in the order and a past time'),
               Forall(None, lambda k: [Implies(eq(i.sel(k), 1, 8), eq(h.sel(k), 1, 8))], 'places in the order have an entry')]
        if lib:
            out.append(Forall(None, lambda k: [Implies(eq(i.sel(k), 1, 8), And([Not(eq(ls, 0)), slt(lo, rk.sel(k)), slt(rk.sel(k), hi)])), Implies(eq(h.sel(k), 1, 8), Not(eq(ms, 0)))], 'containers'))
        return out

    def empty(self, st):
        g = st.ghost
        for k, w in ARR.items():
            g[k] = StrVal(0, Const(0, w), w)
        for k in ('msize', 'lsize', 'lo', 'hi', 'now'):
            g[k] = z3.BitVecVal(0, 64)
        g['cells'] = g['nodes'] = ()
        g['min'] = None

    def l_ctor(self, ex, st, c):
        self.list = c.args[0]

    def m_ctor(self, ex, st, c):
        self.map = c.args[0]

    def sel(self, st, a, k):
        return st.ghost[a].arr.sel(k)

    def put(self, st, a, k, v):
        g = st.ghost
        if same_val(S(Z(self.sel(st, a, k), ARR[a])), S(Z(v, ARR[a]))):
            return
        g[a] = StrVal(0, Store(g[a].arr, k, v), ARR[a])

    def hask(self, st, k):
        return eq(self.sel(st, 'has', k), 1, 8)

    def same(self, st, a, b):
        """True, False or None (open)"""
        e = N(z3.simplify(B(eq(a, b))))
        if isinstance(e, bool):
            return e
        if self.proves(st, e, [a, b]):
            return True
        if self.proves(st, Not(e), [a, b]):
            return False

    def terms(self, st, extra=()):
        """where the universal facts are needed: the keys at hand"""
        g = st.ghost
        return [n for n, _ in g['nodes'] + g['cells']] + ([g['min']] if g['min'] is not None else []) + list(extra) + self.more

    def proves(self, st, goal, extra=()):
        """within what the terms at hand show"""
        r, self.ex.opts['rounds'] = self.ex.opts.get('rounds', 3), 2
        try:
            return self.ex.prove(st, goal, 10000, extra_terms=self.terms(st, extra))[0] == 'proved'
        finally:
            self.ex.opts['rounds'] = r

    def shows(self, st, name, goal, extra=()):
        return self.ex.oblige(st, name, goal, extra_terms=self.terms(st, extra))

    def lookup(self, st, what, t):
        """[(state, pointer or None)] of the live memory for the node / entry t"""
        out, cur = [], [st]
        for t2, p in st.ghost[what]:
            nxt = []
            for s in cur:
                r = self.same(s, t, t2)
                if r is True:
                    out.append((s, p))
                elif r is False:
                    nxt.append(s)
                else:
                    a, b = s.fork(), s
                    self.ex.assume(a, eq(t, t2))
                    self.ex.assume(b, Not(eq(t, t2)))
                    out.append((a, p))
                    nxt.append(b)
            cur = nxt
        return out + [(s, None) for s in cur]

    def node_mem(self, st, n):
        out = []
        for s, p in self.lookup(st, 'nodes', n):
            if p is None:
                p = self.ex.alloc(s, 24, 'list node')
                self.ex.store(s, p.plus(16), 8, n)
                s.ghost['nodes'] += ((n, p),)
            out.append((s, p))
        return out

    def cell_mem(self, st, k):
        out = []
        for s, p in self.lookup(st, 'cells', k):
            if p is not None:
                out.append((s, p))
                continue
            for s2, np in self.node_mem(s, k):
                p = self.ex.alloc(s2, 56 + 8 * self.value, 'map entry')
                o = 40
                if self.value:
                    self.ex.store(s2, p.plus(o), 8, self.sel(s2, 'val', k))
                    o += 8
                self.ex.store(s2, p.plus(o), 8, self.sel(s2, 'time', k))
                self.ex.store(s2, p.plus(o + 8), 8, np)
                self.ex.store(s2, p.plus(32), 8, k)
                s2.ghost['cells'] += ((k, p),)
                out.append((s2, p))
        return out

    def node_id(self, st, p):
        """the node a list iterator points to; None: the end"""
        if p.o == self.list.o:
            return None
        for n, q in st.ghost['nodes']:
            if q.o == p.o:
                return n
        self.ex.oblige(st, self.ex.site('the list iterator is valid'), False)
        raise PathEnd('invalid iterator')

    def cell_key(self, st, p):
        for k, q in st.ghost['cells']:
            if q.o == p.o:
                return k
        self.ex.oblige(st, self.ex.site('the map iterator is valid'), False)
        raise PathEnd('invalid iterator')

    def flush(self, st):
        ex = self.ex
        for n, p in st.ghost['nodes']:
            k = ex.load(st, p.plus(16), 8)
            if not same_val(k, n) and self.same(st, k, n) is not True:
                raise Unsupported('the key of a list node is changed')
        for k, p in st.ghost['cells']:
            self.put_entry(st, k, p.plus(40))

    def entry(self, st, p):
        """(node, time, value) of the tuple at p"""
        ex = self.ex
        o = 8 * self.value
        v = ex.load(st, p, 8) if self.value else 0
        it = ex.load_typed(st, p.plus(o + 8), ('ptr',))
        n = self.node_id(st, it)
        if n is None:
            raise Unsupported('entry without a place in the order')
        return n, ex.load(st, p.plus(o), 8), v

    def put_entry(self, st, k, p):
        n, t, v = self.entry(st, p)
        if not same_val(n, k) and self.same(st, n, k) is not True:
            self.ex.oblige(st, self.ex.site('an entry refers to the place of its own key'), eq(n, k))
            raise PathEnd('foreign place')
        self.put(st, 'time', k, t)
        if self.value:
            self.put(st, 'val', k, v)

    def done(self, outs):
        return [Outcome(s, 'ret', v) for s, v in outs]

    # ---- std::list
    def min_node(self, st, back=False):
        g = st.ghost
        i, rk = g['in'].arr, g['rank'].arr
        if not back and g['min'] is not None:
            return g['min']
        n = fresh_bv('last' if back else 'first', 64)
        self.ex.assume(st, eq(i.sel(n), 1, 8))
        st.foralls.append(Forall(None, lambda m: [Implies(And(eq(i.sel(m), 1, 8), Not(eq(m, n))), slt(rk.sel(m), rk.sel(n)) if back else slt(rk.sel(n), rk.sel(m)))]))
        if not back:
            g['min'] = n
        return n

    def nonempty(self, st):
        e = Not(eq(st.ghost['lsize'], 0))
        if not self.shows(st, self.ex.site('the list is not empty'), e):
            self.ex.assume(st, e)

    def l_begin(self, ex, st, c):
        self.flush(st)
        e = st.fork()
        ex.assume(e, eq(e.ghost['lsize'], 0))
        ex.assume(st, Not(eq(st.ghost['lsize'], 0)))
        out = []
        if not self.proves(e, False):
            out.append((e, self.list))
        return self.done(out + self.node_mem(st, self.min_node(st)))

    def l_front(self, ex, st, c):
        self.flush(st)
        self.nonempty(st)
        return self.done([(s, p.plus(16)) for s, p in self.node_mem(st, self.min_node(st, c.mm.group(1) == 'back'))])

    def remove(self, st, n):
        g = st.ghost
        g['cut'] = Z(self.sel(st, 'rank', n), 64)
        self.put(st, 'in', n, 0)
        g['lsize'] = S(sub(g['lsize'], 1))
        i, ls = g['in'].arr, g['lsize']
        st.foralls.append(Forall(None, lambda m: [Implies(eq(i.sel(m), 1, 8), Not(eq(ls, 0)))]))
        g['min'] = None
        for n2, p in g['nodes']:
            if self.same(st, n, n2) is True:
                del st.mem[p.o]
                g['nodes'] = tuple(x for x in g['nodes'] if x[1] is not p)

    def l_pop(self, ex, st, c):
        self.flush(st)
        self.nonempty(st)
        n = self.min_node(st, c.mm.group(1) == 'pop_back')
        out = []
        for s, p in self.lookup(st, 'nodes', n):
            self.remove(s, n)
            out.append((s, None))
        return self.done(out)

    def l_erase(self, ex, st, c):
        self.flush(st)
        n = self.node_id(st, c.args[1])
        if n is None:
            ex.oblige(st, ex.site('erases an element of the list'), False)
            raise PathEnd('end')
        self.remove(st, n)
        return Poison('iterator after the erased element')

    def place(self, st, n, pos):
        """give node n the place before pos"""
        g = st.ghost
        pn = self.node_id(st, pos)
        if pn is None:
            r = g['hi']
            g['hi'] = S(add(g['hi'], 1))
        else:
            first = g['min'] is not None and self.same(st, pn, g['min'])
            if not first:
                raise Unsupported('a place in the middle of the list')
            if self.same(st, n, pn) is True:
                return
            r = g['lo']
            g['lo'] = S(sub(g['lo'], 1))
        r = Z(r, 64)
        self.put(st, 'rank', n, r)
        g['min'] = None

    def new_node(self, st, key, pos):
        g = st.ghost
        n = key
        one = Not(eq(self.sel(st, 'in', n), 1, 8))
        if not self.shows(st, self.ex.site('a key has one place in the order'), one, [n]):
            raise PathEnd('second place')
        self.place(st, n, pos)
        self.put(st, 'in', n, 1)
        g['lsize'] = S(add(g['lsize'], 1))
        g['min'] = None
        p = self.ex.alloc(st, 24, 'list node')
        self.ex.store(st, p.plus(16), 8, key)
        g['nodes'] += ((n, p),)
        return p

    def l_insert(self, ex, st, c):
        self.flush(st)
        return self.new_node(st, ex.load(st, c.args[2], 8) if isinstance(c.args[2], Ptr) else c.args[2], c.args[1])

    def l_push(self, ex, st, c):
        self.flush(st)
        k = ex.load(st, c.args[1], 8) if isinstance(c.args[1], Ptr) else c.args[1]
        if 'front' in c.mm.group(1):
            raise Unsupported('push_front')
        return self.new_node(st, k, self.list).plus(16)

    def l_splice(self, ex, st, c):
        self.flush(st)
        if c.args[2].o != self.list.o:
            raise Unsupported('splice from another list')
        n = self.node_id(st, c.args[3])
        if n is None:
            ex.oblige(st, ex.site('moves an element of the list'), False)
            raise PathEnd('end')
        self.place(st, n, c.args[1])

    # ---- std::map
    def keyarg(self, st, c, i=1):
        return self.ex.load(st, c.args[i], 8)

    def split(self, st, k):
        """(states with the key, states without)"""
        h = self.hask(st, k)
        if self.proves(st, h, [k]):
            return st, None
        if self.proves(st, Not(h), [k]):
            return None, st
        a, b = st.fork(), st
        self.ex.assume(a, h)
        self.ex.assume(b, Not(h))
        return a, b

    def end(self):
        return self.map.plus(8)

    def m_find(self, ex, st, c):
        self.flush(st)
        k = self.keyarg(st, c)
        a, b = self.split(st, k)
        out = []
        if a is not None:
            out += self.cell_mem(a, k)
        if b is not None:
            out.append((b, self.end()))
        return self.done(out)

    def m_at(self, ex, st, c):
        self.flush(st)
        k = self.keyarg(st, c)
        a, b = self.split(st, k)
        out = []
        if a is not None:
            out += self.done([(s, p.plus(40)) for s, p in self.cell_mem(a, k)])
        if b is not None:
            out.append(ex.throw(b, '_ZTISt12out_of_range'))
        return out

    def m_size(self, ex, st, c):
        n = st.ghost['msize']
        return eq(n, 0) if c.mm.group(1) == 'empty' else n

    def drop(self, st, k):
        g = st.ghost
        self.put(st, 'has', k, 0)
        g['msize'] = S(sub(g['msize'], 1))
        h, ms = g['has'].arr, g['msize']
        st.foralls.append(Forall(None, lambda m: [Implies(eq(h.sel(m), 1, 8), Not(eq(ms, 0)))]))
        for k2, p in g['cells']:
            if self.same(st, k, k2) is True:
                del st.mem[p.o]
                g['cells'] = tuple(x for x in g['cells'] if x[1] is not p)

    def m_erase(self, ex, st, c):
        self.flush(st)
        self.drop(st, self.cell_key(st, c.args[1]))
        return Poison('iterator after the erased entry')

    def m_erase_key(self, ex, st, c):
        self.flush(st)
        k = self.keyarg(st, c)
        a, b = self.split(st, k)
        out = []
        if a is not None:
            for s, p in self.lookup(a, 'cells', k):
                self.drop(s, k)
                out.append((s, 1))
        if b is not None:
            out.append((b, 0))
        return self.done(out)

    def insert(self, st, k, tup):
        ex = self.ex
        a, b = self.split(st, k)
        out = []
        if a is not None:
            out += [(s, [p, 0]) for s, p in self.cell_mem(a, k)]
        if b is not None:
            self.put_entry(b, k, tup)
            self.put(b, 'has', k, 1)
            b.ghost['msize'] = S(add(b.ghost['msize'], 1))
            out += [(s, [p, 1]) for s, p in self.cell_mem(b, k)]
        return self.done(out)

    def m_insert(self, ex, st, c):
        self.flush(st)
        return self.insert(st, ex.load(st, c.args[1], 8), c.args[1].plus(8))

    def m_emplace(self, ex, st, c):
        self.flush(st)
        if 'piecewise' in c.d or len(c.args) != 3:
            raise Unsupported('emplace')
        return self.insert(st, ex.load(st, c.args[1], 8), c.args[2])

    def now(self, ex, st, c):
        n = fresh_bv('now', 64)
        ex.assume(st, And(sle(st.ghost['now'], n), sle(n, BIG)))
        st.ghost['now'] = n
        return n


def contracts(chk):
    m = chk.ir(['h_lru.cc', D + 'error.cc', D + 'error_categories.cc'])
    chk.assume('the lifetime of a cache and the clock readings stay below 2^60 ns, a time to live is not negative')

    def setup(f, kind, ctor):
        """a cache made by the given constructor, in an arbitrary state its history can have led to"""
        ex, st = f.ex, f.st
        f.l = l = Lru(f, kind == 'lc')
        p = ex.alloc(st, 96, 'cache')
        cap, ttl = f.bv('capacity'), f.bv('time_to_live')
        args = {'cap': [cap], 'ttl': [ttl], 'both': [cap, ttl]}[ctor]
        l.cap = MAXU if ctor == 'ttl' else cap
        l.ttl = 0 if ctor == 'cap' else ttl
        ex.assume(st, And(sle(0, l.ttl), sle(l.ttl, BIG)))
        l.empty(st)
        outs = ex.call(st, '%s_new_%s' % (kind, ctor), [p] + args)
        assert len(outs) == 1 and outs[0].kind == 'ret' and outs[0].st is st
        l.fresh(st)
        f.p = p
        return l

    def finish(f, o):
        """the state afterwards; the invariant holds again"""
        l, st = f.l, o.st
        if o.kind != 'ret':
            f.l.shows(o.st, 'does not throw', False)
            return None
        l.flush(st)
        g = st.ghost
        for fa in l.facts(g, False):
            k = fresh_bv('any', 64)
            f.l.shows(o.st, 'afterwards ' + fa.name, fa.inst(k), extra=[k])
        f.l.shows(o.st, 'as many entries as places in the order', eq(g['msize'], g['lsize']))
        f.l.shows(o.st, 'never holds more than capacity entries', ule(g['msize'], l.cap))
        return g

    def R(g, k):
        return g['rank'].arr.sel(k)

    def H(g, k):
        return eq(g['has'].arr.sel(k), 1, 8)

    def kept(f, o, name, g, x, moved=()):
        """entry x is as before"""
        e = f.l.e
        return And([H(g, x), eq(g['time'].arr.sel(x), e['time'].arr.sel(x)), eq(g['val'].arr.sel(x), e['val'].arr.sel(x))])

    def unchanged(f, o, why, g, ord=True):
        e = f.l.e
        x, y = fresh_bv('x', 64), fresh_bv('y', 64)
        f.l.shows(o.st, why + ': the same keys', B(H(g, x)) == B(H(e, x)), extra=[x])
        f.l.shows(o.st, why + ': the same values and times', Implies(H(e, x), kept(f, o, '', g, x)), extra=[x])
        f.l.shows(o.st, why + ': the same size', eq(g['msize'], e['msize']))
        if ord:
            f.l.shows(o.st, why + ': the same order', Implies(And(H(e, x), H(e, y)), B(slt(R(g, x), R(g, y))) == B(slt(R(e, x), R(e, y)))), extra=[x, y])

    def check(kind, ctor):
        def body(f):
            l = setup(f, kind, ctor)
            k = f.bv('key')
            outs = f.run(f.p, k)
            for o in outs:
                g = finish(f, o)
                if g is None:
                    continue
                f.l.shows(o.st, 'true exactly when the key is held', B(eq(o.val, 1, 1)) == B(H(l.e, k)))
                unchanged(f, o, 'Check', g)
            f.reachable('held', [o for o in outs])
        return body

    def size(kind, ctor):
        def body(f):
            l = setup(f, kind, ctor)
            for o in f.run(f.p):
                g = finish(f, o)
                if g is not None:
                    f.l.shows(o.st, 'the number of entries', eq(o.val, l.e['msize']))
                    unchanged(f, o, 'size', g)
        return body

    def get(ctor):
        def body(f):
            l = setup(f, 'lc', ctor)
            k = f.bv('key')
            v = f.out('value', 8)
            er = f.out('error', 64)
            hit = []
            for o in f.run(f.p, k, v, er):
                g = finish(f, o)
                if g is None:
                    continue
                e = l.e
                f.l.shows(o.st, 'finds exactly the keys that are held', B(eq(o.val, 1, 1)) == B(H(e, k)))
                if l.proves(o.st, H(e, k), [k]):
                    hit.append(o)
                    f.l.shows(o.st, 'returns the value of the key', eq(f.ex.load(o.st, v, 8), e['val'].arr.sel(k)))
                    unchanged(f, o, 'Get', g, False)
                    x, y = fresh_bv('x', 64), fresh_bv('y', 64)
                    f.l.shows(o.st, 'the key becomes the most recently used', Implies(And(H(e, x), Not(eq(x, k))), slt(R(g, x), R(g, k))), extra=[x])
                    f.l.shows(o.st, 'the other keys keep their order', Implies(And([H(e, x), H(e, y), Not(eq(x, k)), Not(eq(y, k))]),
                              B(slt(R(g, x), R(g, y))) == B(slt(R(e, x), R(e, y)))), extra=[x, y])
                else:
                    unchanged(f, o, 'a miss', g)
                    ev = f.ex.get_abs(o.st, er)
                    ok = isinstance(ev, lib_std.ErrVal) and ev.cat == 'CommonErrors'
                    f.l.shows(o.st, 'a miss is no_such_element', eq(ev.code, CODE, 32) if ok else False)
            f.reachable('hit', hit)
        return body

    def delete(ctor):
        def body(f):
            l = setup(f, 'lc', ctor)
            k = f.bv('key')
            for o in f.run(f.p, k):
                g = finish(f, o)
                if g is None:
                    continue
                e = l.e
                x, y = fresh_bv('x', 64), fresh_bv('y', 64)
                f.l.shows(o.st, 'removes the key and nothing else', B(H(g, x)) == B(And(H(e, x), Not(eq(x, k)))), extra=[x])
                f.l.shows(o.st, 'the others keep values and times', Implies(And(H(e, x), Not(eq(x, k))), kept(f, o, '', g, x)), extra=[x])
                f.l.shows(o.st, 'the size counts it', eq(g['msize'], Ite(H(e, k), sub(e['msize'], 1), e['msize'], 64)))
                f.l.shows(o.st, 'the others keep their order', Implies(And([H(e, x), H(e, y), Not(eq(x, k)), Not(eq(y, k))]),
                          B(slt(R(g, x), R(g, y))) == B(slt(R(e, x), R(e, y)))), extra=[x, y])
        return body

    def add_(kind, ctor):
        def body(f):
            l = setup(f, kind, ctor)
            k, v = f.bv('key'), f.bv('value')
            e = l.e
            ttl, cap = l.ttl, l.cap
            V = {}

            def expired(t, now):
                return And(Not(eq(ttl, 0)), slt(add(t, ttl), now))
            # what holds whenever entries are being evicted
            inv = f.ex.loop_invs

            for i in range(2):
                inv.append(lambda s, i=i: l.facts(s.ghost, False)[i])
            inv.append(lambda s: And([eq(s.ghost['msize'], s.ghost['lsize']), ule(s.ghost['msize'], e['msize']), sle(e['now'], s.ghost['now']), sle(s.ghost['now'], BIG),
                                      sle(e['lo'], s.ghost['cut']), slt(s.ghost['cut'], e['hi'])]))
            inv.append(lambda s: Forall(None, lambda n: [B(eq(s.ghost['in'].arr.sel(n), 1, 8)) == B(And(eq(e['in'].arr.sel(n), 1, 8), slt(s.ghost['cut'], e['rank'].arr.sel(n))))]))
            inv.append(lambda s: Forall(None, lambda n: [B(H(s.ghost, n)) == B(And(H(e, n), slt(s.ghost['cut'], R(e, n))))]))
            inv.append(lambda s: Forall(None, lambda n: [Implies(eq(s.ghost['in'].arr.sel(n), 1, 8), Not(eq(s.ghost['lsize'], 0))), Implies(H(s.ghost, n), Not(eq(s.ghost['msize'], 0)))]))
            # an evicted entry had expired, or was the least recently used one of a full cache
            full = eq(e['msize'], cap)
            a0, r0 = e['in'].arr, e['rank'].arr
            w = fresh_bv('oldest', 64)
            l.more = [w]
            f.st.foralls.append(Forall(None, lambda n: [Implies(And(eq(a0.sel(n), 1, 8), Not(eq(n, w))), slt(r0.sel(w), r0.sel(n)))]))
            f.requires(Implies(Not(eq(e['lsize'], 0)), eq(a0.sel(w), 1, 8)))
            gone = lambda s, n: Implies(And(H(e, n), Not(H(s, n))), Or(And(full, eq(n, w)), expired(e['time'].arr.sel(n), s['now'])))
            inv.append(lambda s: Forall(None, lambda n: [gone(s.ghost, n)]))
            inv.append(lambda s: Implies(And(full, Not(eq(e['msize'], 0))), sle(r0.sel(w), s.ghost['cut'])))
            inv.append(lambda s: ult(s.ghost['msize'], cap))
            new = []
            for o in f.run(*([f.p, k, v] if kind == 'lc' else [f.p, k])):
                g = finish(f, o)
                if g is None:
                    continue
                if l.proves(o.st, H(e, k), [k]):
                    unchanged(f, o, 'a key that is held', g)
                    continue
                if f.ex.prove(o.st, eq(cap, 0))[0] == 'proved':
                    unchanged(f, o, 'no room at all', g)
                    continue
                new.append(o)
                x, y = fresh_bv('x', 64), fresh_bv('y', 64)
                oldx, oldy = And(H(e, x), Not(eq(x, k))), And(H(e, y), Not(eq(y, k)))
                f.l.shows(o.st, 'the key is held', H(g, k))
                if kind == 'lc':
                    f.l.shows(o.st, 'with the value', eq(g['val'].arr.sel(k), v))
                f.l.shows(o.st, 'stamped with the current time', And(sle(e['now'], g['time'].arr.sel(k)), sle(g['time'].arr.sel(k), g['now'])))
                f.l.shows(o.st, 'nothing else is added', Implies(And(H(g, x), Not(eq(x, k))), H(e, x)), extra=[x])
                f.l.shows(o.st, 'the key is the most recently used', Implies(And(H(g, x), Not(eq(x, k))), slt(R(g, x), R(g, k))), extra=[x])
                f.l.shows(o.st, 'what stays keeps its value and time', Implies(And(oldx, H(g, x)), kept(f, o, '', g, x)), extra=[x])
                f.l.shows(o.st, 'what stays keeps its order', Implies(And([oldx, oldy, H(g, x), H(g, y)]), B(slt(R(g, x), R(g, y))) == B(slt(R(e, x), R(e, y)))), extra=[x, y])
                f.l.shows(o.st, 'the least recently used go first', Implies(And([oldx, oldy, Not(H(g, x)), H(g, y)]), slt(R(e, x), R(e, y))), extra=[x, y])
                f.l.shows(o.st, 'evicted only when expired or the cache was full', gone(g, x), extra=[x])
                f.l.shows(o.st, 'a full cache evicts its least recently used entry', Implies(And([full, H(e, x), eq(x, w)]), Not(H(g, x))), extra=[x, w])
                f.l.shows(o.st, 'expired entries do not stay behind as the least recently used', Implies(And([Not(eq(ttl, 0)), oldx, H(g, x), expired(e['time'].arr.sel(x), e['now'])]),
                          older(f, o, g, e, k, x)), extra=[x])
            f.reachable('adds', new)

        def older(f, o, g, e, k, x):
            # some entry which had not expired is less recently used than x
            return Or([And([H(g, n), Not(eq(n, k)), slt(R(g, n), R(g, x)), sle(e['now'], add(e['time'].arr.sel(n), f.l.ttl))])
                       for n in [n for n in [o.st.ghost['min']] + [t for t, _ in o.st.ghost['nodes']] if n is not None]])
        return body
    CODE = enum_code('CommonErrors', 'no_such_element')
    for ctor in ('both', 'cap', 'ttl'):
        for kind in ('lc', 'lf'):
            K = {'lc': 'LruCache<long, long>', 'lf': 'LruCache<long, void>'}[kind] + ' made with ' + {'cap': 'capacity', 'ttl': 'time to live', 'both': 'both'}[ctor]
            chk.fn('%s: Check' % K, m, kind + '_check', check(kind, ctor))
            chk.fn('%s: size' % K, m, kind + '_size', size(kind, ctor))
            chk.fn('%s: Add' % K, m, kind + '_add', add_(kind, ctor), rounds=3, loop_mode='summary')
            if kind == 'lc':
                chk.fn('%s: Get' % K, m, 'lc_get', get(ctor), rounds=3)
                chk.fn('%s: Delete' % K, m, 'lc_delete', delete(ctor), rounds=3)
