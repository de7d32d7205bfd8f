"""P12 SafeQueue: a linearisable FIFO queue"""
from vp.contract import *
from vp import conc

TITLE = 'SafeQueue'
REPLAY = {'driver': 'p12.cc', 'sources': [], 'libs': ['-lpthread', '-ldl'], 'san': 'thread', 'seconds': 8, 'also': {'san': False, 'flags': ['-DRP_FAULTS']}}


def contracts(chk):
    m = chk.ir(['h_queue.cc'])

    def num(fn):
        ex = Exec(m)
        lib_std.install(ex)
        return S(ex.call(State(), fn, [])[0].val)

    for x in (('l', True, 'long', '<long>'), ('e', False, 'Elem', '<move-only T>')):
        one(chk, m, num, *x)


def one(chk, m, num, t, scalar, elem, who):
    size = num(t + '_sizeof')

    class Q:
        def __init__(self, f):
            self.f = f
            conc.install_deque(f.ex, elem, scalar)
            if not scalar:
                conc.install_token(f.ex, 'Elem', 8)
            self.mon = conc.Monitor('mutex', None, [])
            self.c = conc.Conc(f.ex, [self.mon], shared=False)
            self.p = f.ex.alloc(f.st, size, 'queue')
            o, = f.ex.call(f.st, t + '_ctor', [self.p])
            f.st = o.st
            seqs = [off for off, c in f.st.mem[self.p.o].cells.items() if isinstance(c[1], StrVal) and c[1].kind == 'Deque']
            if len(seqs) != 1:
                raise Unsupported('the queue holds one std::deque')
            self.q = self.p.plus(seqs[0])
            f.requires(eq(f.ex.get_abs(f.st, self.q).n, 0))
            self.mon.fields = [(self.q, 'seq')]
            n = fresh_bv('n0', 64)
            f.ex.assume(f.st, ule(n, 1 << 40))
            f.ex.put_abs(f.st, self.q, conc.seqval(n, Base('queue0', 64)))
            self.c.start(f.st)
            self.c.shared = True
            self.start(f.st)
            self.c.at_release = self.release
            self.c.at_wait = self.wait
            self.c.at_notify = self.notify

        def start(self, st):
            st.ghost['changes'] = 0       # critical sections that changed the queue
            st.ghost['wakes'] = 0         # a waiting consumer was notified of an element
            z = conc.seqval(0, Const(0, 64))
            st.ghost['before'], st.ghost['after'] = z, z

        def changed(self, st, a, b):
            """did the section change the queue?"""
            if a.same(b):
                return False
            return True

        def release(self, st, mon, acq, now):
            a, b = acq[0], now[0]
            st.ghost['seen'] = a
            if self.changed(st, a, b):
                st.ghost['changes'] += 1
                st.ghost['before'], st.ghost['after'] = a, b

        def wait(self, st, mon, acq, now):
            f = self.f
            f.ex.oblige(st, f.ex.site('waits only while the queue is empty'), eq(now[0].n, 0))
            f.ex.oblige(st, f.ex.site('nothing is changed before waiting'), acq[0].same(now[0]))

        def notify(self, st, p):
            if self.mon.held(st):
                a, b = self.mon.before(self.f.ex, st)[0], self.mon.values(self.f.ex, st)[0]
            else:
                a, b = st.ghost['before'], st.ghost['after']
            if self.f.ex.prove(st, ult(a.n, b.n))[0] == 'proved':
                st.ghost['wakes'] = 1

        def unlocked(self, o):
            self.f.ensures(o, 'the mutex is released', not self.mon.held(o.st))

        def elem(self, name):
            f = self.f
            p = f.ex.alloc(f.st, 8, name)
            v = f.bv(name)
            if scalar:
                f.ex.store(f.st, p, 8, v)
            else:
                f.ex.put_abs(f.st, p, conc.TokVal(v, 8))
            return p, v

        def read(self, o, p):
            return self.f.ex.load(o.st, p, 8) if scalar else self.f.ex.get_abs(o.st, p, conc.TokVal).tok

        def unchanged(self, o):
            self.f.ensures(o, 'the queue is not changed', o.st.ghost['changes'] == 0)

        def popped(self, o, v):
            f = self.f
            f.ensures(o, 'one atomic change', o.st.ghost['changes'] == 1)
            a, b = o.st.ghost['before'], o.st.ghost['after']
            f.ensures(o, 'there was an element', ult(0, a.n))
            f.ensures(o, 'gives the oldest element', eq(v, a.arr.sel(0)))
            f.ensures(o, 'one element less', eq(b.n, sub(a.n, 1)))
            f.forall(o, 'the others move up in order', b.n, lambda k: eq(b.arr.sel(k), a.arr.sel(add(k, 1))))

    def empty(f):
        q = Q(f)
        for o in f.run(q.p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            q.unlocked(o)
            q.unchanged(o)
            f.ensures(o, 'tells whether the queue is empty', B(o.val) == B(eq(o.st.ghost['seen'].n, 0)))
        f.reachable('returns', f.rets())
    chk.fn('SafeQueue%s::Empty' % who, m, t + '_empty', empty)

    def sz(f):
        q = Q(f)
        for o in f.run(q.p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            q.unlocked(o)
            q.unchanged(o)
            f.ensures(o, 'gives the number of elements', eq(o.val, o.st.ghost['seen'].n))
        f.reachable('returns', f.rets())
    chk.fn('SafeQueue%s::Size' % who, m, t + '_size', sz)

    def push(f):
        q = Q(f)
        p, v = q.elem('element')
        for o in f.run(q.p, p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            q.unlocked(o)
            f.ensures(o, 'one atomic change', o.st.ghost['changes'] == 1)
            a, b = o.st.ghost['before'], o.st.ghost['after']
            f.ensures(o, 'one element more', eq(b.n, add(a.n, 1)))
            f.ensures(o, 'the element is last', eq(b.arr.sel(a.n), v))
            f.forall(o, 'the others stay in order', a.n, lambda k: eq(b.arr.sel(k), a.arr.sel(k)))
            f.ensures(o, 'a waiting consumer is notified of the element', o.st.ghost['wakes'] == 1)
        f.reachable('returns', f.rets())
    chk.fn('SafeQueue%s::Push' % who, m, t + '_push', push)

    def trypop(f):
        q = Q(f)
        p, v = q.elem('element')
        got, not_ = [], []
        for o in f.run(q.p, p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            q.unlocked(o)
            r = o.val if isinstance(o.val, bool) else S(B(o.val))
            for want in (True, False):
                st = o.st.fork()
                f.ex.assume(st, r if want else Not(r))
                if not f.ex.feasible(st):
                    continue
                o2 = Outcome(st, 'ret', None)
                if want:
                    got.append(o2)
                    q.popped(o2, q.read(o2, p))
                else:
                    not_.append(o2)
                    q.unchanged(o2)
                    f.ensures(o2, 'fails only when the queue is empty', eq(st.ghost['seen'].n, 0))
                    f.ensures(o2, 'the argument is not changed', eq(q.read(o2, p), v))
        f.reachable('pops', got)
        f.reachable('finds the queue empty', not_)
    chk.fn('SafeQueue%s::TryPop' % who, m, t + '_trypop', trypop)

    def waitpop(f):
        q = Q(f)
        p, v = q.elem('element')
        for o in f.run(q.p, p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            q.unlocked(o)
            q.popped(o, q.read(o, p))
        f.reachable('returns', f.rets())
    chk.fn('SafeQueue%s::WaitAndPop' % who, m, t + '_waitpop', waitpop)

    def ctor(f):
        q = Q(f)
        for o in f.run(f.ex.alloc(f.st, size, 'queue')):
            f.ensures(o, 'does not throw', o.kind == 'ret')
    chk.fn('SafeQueue%s()' % who, m, t + '_ctor', ctor)
