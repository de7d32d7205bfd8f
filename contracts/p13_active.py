"""P13 Active: tasks run one at a time, in order, and all of them before the destructor returns"""
from vp.contract import *
from vp import conc
from vp.exec import PathEnd

TITLE = 'Active'
D = 'src/maidsafe/common/'
REPLAY = {'driver': 'p13.cc', 'sources': [D + 'active.cc'], 'libs': ['-lboost_thread', '-lboost_system', '-lpthread', '-ldl'], 'san': 'thread', 'seconds': 8, 'also': {'san': False, 'flags': ['-DRP_FAULTS']}}


def contracts(chk):
    m = chk.ir(['h_active.cc', D + 'active.cc'])
    chk.assume('functors given to Active::Send do not throw (an exception would end the process)')

    def num(fn, p=None):
        ex = Exec(m)
        lib_std.install(ex)
        st = State()
        v = ex.call(st, fn, [ex.alloc(st, 4096, 'probe')] if p else [])[0].val
        return v.off if p else S(v)
    size = num('a_sizeof')
    off = {k: num('a_off_' + k, 1) for k in ('flags', 'mutex', 'queue', 'running')}

    class A:
        def __init__(self, f, built=True, running=None):
            self.f = f
            ex = f.ex
            conc.install_deque(ex, r'std::function<void ?\(\)>', False, 32)
            conc.install_function(ex, self.call)
            self.p = ex.alloc(f.st, size, 'active')
            self.q, self.r = self.p.plus(off['queue']), self.p.plus(off['running'])
            self.flags = conc.Monitor('flags_mutex_', self.p.plus(off['flags']), [(self.r, 1)], rank=0,
                                      rely=lambda i, old, new: And(ule(new, 1, 8), eq(new, 1, 8) if running else Implies(eq(old, 0, 8), eq(new, 0, 8))))
            self.mtx = conc.Monitor('mutex_', self.p.plus(off['mutex']), [(self.q, 'seq')], rank=1)
            self.c = conc.Conc(ex, [self.flags, self.mtx], shared=built)
            for T in ('boost::thread', 'std::thread'):
                ex.add_handler(r'^%s::thread<' % T, self.thread, 'boost::thread: runs the given callable in a thread of its own; join() waits until it has returned')
                ex.add_handler(r'^%s::join\(\)$' % T, self.join)
                ex.add_handler(r'^%s::~thread\(\)$' % T, self.thread_dtor)
            st = f.st
            self.c.busy += 1
            n = fresh_bv('n0', 64)
            ex.assume(st, ule(n, 1 << 40))
            ex.put_abs(st, self.q, conc.seqval(n, Base('queue0', 64)))
            r = fresh_bv('running0', 8)
            ex.assume(st, eq(r, 1, 8) if running else ule(r, 1, 8))
            ex.store(st, self.r, 1, r)
            self.c.start(st)
            self.c.busy -= 1
            if not built:
                st.wobj(self.p.o).cells.clear()
            g = st.ghost
            g['changes'] = g['wakes'] = g['joined'] = g['threads'] = g['has'] = g['calls'] = 0
            g['tok'] = z3.BitVecVal(0, 64)
            z = conc.seqval(0, Const(0, 64))
            g['before'], g['after'] = z, z
            self.consumer = False
            self.c.at_release, self.c.at_wait, self.c.at_notify = self.release, self.wait, self.notify

        def release(self, st, mon, acq, now):
            f, g = self.f, st.ghost
            if mon is self.flags:
                if not same_val(acq[0], now[0]):
                    f.ex.oblige(st, f.ex.site('running_ is never set again'), Implies(eq(acq[0], 0, 8), eq(now[0], 0, 8)))
                return
            a, b = acq[0], now[0]
            if a.same(b):
                return
            if self.consumer:
                # the only change the consumer makes: the oldest functor is taken out
                f.ex.oblige(st, f.ex.site('takes one functor at a time'), And(eq(b.n, sub(a.n, 1)), ult(0, a.n)))
                f.forall(st, f.ex.site('the others stay in order'), b.n, lambda k: eq(b.arr.sel(k), a.arr.sel(add(k, 1))))
                f.ex.oblige(st, f.ex.site('the functor taken before was called'), g['has'] == 0)
                g['has'], g['tok'] = 1, Z(a.arr.sel(0), 64)
            else:
                g['changes'] += 1
                g['before'], g['after'] = a, b

        def wait(self, st, mon, acq, now):
            f = self.f
            f.ex.oblige(st, f.ex.site('waits only for functors'), mon is self.mtx)
            if mon is self.mtx:
                f.ex.oblige(st, f.ex.site('waits only while there is none'), eq(now[0].n, 0))
                f.ex.oblige(st, f.ex.site('nothing is changed before waiting'), acq[0].same(now[0]))
            f.ex.oblige(st, f.ex.site('no functor is left uncalled while waiting'), st.ghost['has'] == 0)

        def notify(self, st, p):
            a, b = (self.mtx.before(self.f.ex, st)[0], self.mtx.values(self.f.ex, st)[0]) if self.mtx.held(st) else (st.ghost['before'], st.ghost['after'])
            if self.f.ex.prove(st, ult(a.n, b.n))[0] == 'proved':
                st.ghost['wakes'] = 1

        def call(self, ex, st, tok):
            g = st.ghost
            ex.oblige(st, ex.site('no lock is held while a functor runs'), not self.flags.held(st) and not self.mtx.held(st))
            ex.oblige(st, ex.site('a functor is called once, after it was taken out'), g['has'] == 1)
            ex.oblige(st, ex.site('calls the functor that was taken out'), eq(tok, g['tok']))
            g['has'] = 0

        def thread(self, ex, st, c):
            st.ghost['threads'] += 1
            mm = re.match(r'^\w+::thread::thread<(.*)>\(', c.d)
            body = lambda_of(c.d)
            src = c.args[1]
            q = ex.alloc(st, st.mem[src.o].size, 'thread closure')
            ex.memcpy(st, q, src, st.mem[src.o].size)
            st.ghost['thread'] = (body, q)
            self.at_start(st)

        def at_start(self, st):
            f = self.f
            r = st.mem[self.r.o].cells.get(self.r.off)
            f.ex.oblige(st, 'running_ is set before the thread starts', r is not None and eq(r[1], 1, 8))
            v = f.ex.get_abs(st, self.q, StrVal)
            f.ex.oblige(st, 'the queue exists before the thread starts', v is not None and eq(v.n, 0))

        def join(self, ex, st, c):
            f = self.f
            f.ex.oblige(st, f.ex.site('no lock is held while joining'), not self.flags.held(st) and not self.mtx.held(st))
            f.ex.oblige(st, f.ex.site('joins after the stop functor was queued'), st.ghost['changes'] == 1)
            st.ghost['joined'] += 1
            st.ghost['alone'] = 1

        def thread_dtor(self, ex, st, c):
            ex.oblige(st, ex.site('the thread was joined'), st.ghost['joined'] == 1)

        def unlocked(self, o):
            self.f.ensures(o, 'the locks are released', not self.flags.held(o.st) and not self.mtx.held(o.st))

        def queued(self, o, tok):
            f = self.f
            f.ensures(o, 'one atomic change', o.st.ghost['changes'] == 1)
            a, b = o.st.ghost['before'], o.st.ghost['after']
            f.ensures(o, 'one functor more', eq(b.n, add(a.n, 1)))
            f.ensures(o, 'the functor is last', eq(b.arr.sel(a.n), tok))
            f.forall(o, 'the others stay in order', a.n, lambda k: eq(b.arr.sel(k), a.arr.sel(k)))
            # there is one worker, and it waits only while the queue is empty
            f.ensures(o, 'a waiting worker is notified', True if o.st.ghost['wakes'] else Not(eq(a.n, 0)))

    def lambda_of(d):
        mm = re.search(r"thread<(.*?)>\(", d)
        t = mm.group(1)
        i = t.find('$_')
        j = i + 2
        while j < len(t) and t[j].isdigit():
            j += 1
        return t[:j] if i >= 0 else t

    def closure_fn(typ):
        c = [n for n, d in m.demangled.items() if d.startswith(typ + '::operator()') and m.func(n) is not None]
        if len(c) != 1:
            raise Unsupported('call operator of %s' % typ)
        return c[0]

    def send(f, entry):
        a = A(f)
        p = f.ex.alloc(f.st, 32, 'functor')
        t = f.bv('functor')
        f.requires(Not(eq(t, 0)))
        f.ex.put_abs(f.st, p, conc.TokVal(t, 32))
        yes, no = [], []
        for o in f.run(a.p, p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            a.unlocked(o)
            r = o.st.ghost['last.flags_mutex_.0']
            if o.st.ghost['changes']:
                yes.append(o)
                f.ensures(o, 'queued only while running', eq(r, 1, 8))
                a.queued(o, t)
            else:
                no.append(o)
                f.ensures(o, 'dropped only after the worker was stopped', eq(r, 0, 8))
        f.reachable('queued', yes)
        f.reachable('dropped', no)
    chk.fn('Active::Send', m, 'a_send', lambda f: send(f, 0))
    chk.fn('Active::Send (copy)', m, 'a_send_copy', lambda f: send(f, 1))

    def run(f):
        a = A(f)
        a.consumer = True
        for o in f.run(a.p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            a.unlocked(o)
            f.ensures(o, 'every functor taken out was called', o.st.ghost['has'] == 0)
            f.ensures(o, 'returns only after running_ was reset', eq(o.st.ghost['last.flags_mutex_.0'], 0, 8))
        f.reachable('returns', f.rets())
        called = [x for x in f.ex.obs if 'calls the functor that was taken out' in x.name]
        f.ensures(f.st, 'functors are called', bool(called))
    chk.fn('Active::Run', m, 'a_run', run)

    def ctor(f):
        a = A(f, built=False)
        for o in f.run(a.p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            f.ensures(o, 'one worker is started', o.st.ghost['threads'] == 1)
            # the worker runs Run() on this object
            runs = []

            def rec(ex, st, c):
                runs.append(c.args[0])
            f.ex.add_handler(r'^maidsafe::Active::Run\(\)$', rec)
            typ, q = o.st.ghost['thread']
            for o2 in f.ex.call(o.st.fork(), closure_fn(typ), [q]):
                f.ensures(o2, 'the worker returns', o2.kind == 'ret')
            f.ensures(o, 'the worker runs Run() once on this object', len(runs) == 1 and runs[0].o == a.p.o and eq(runs[0].off, 0) is True)
        f.reachable('returns', f.rets())
    chk.fn('Active()', m, 'a_ctor', ctor)

    def dtor(f):
        a = A(f, running=True)
        for o in f.run(a.p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            cl = o.st.ghost.get('closures', ())
            f.ensures(o, 'one stop functor', len(cl) == 1)
            a.queued(o, cl[0][0])
            f.ensures(o, 'waits for the worker', o.st.ghost['joined'] == 1)
        f.reachable('returns', f.rets())
    chk.fn('~Active', m, 'a_dtor', dtor)

    def stop(f):
        a = A(f, running=True)
        grab = []

        def join(ex, st, c):
            grab.append(st.fork())
            raise PathEnd('join')
        for T in ('boost::thread', 'std::thread'):
            f.ex.add_handler(r'^%s::join\(\)$' % T, join)
        f.ex.muted += 1
        f.run(a.p)
        f.ex.muted -= 1
        f.ensures(f.st, 'the destructor reaches join()', len(grab) > 0)
        for st in grab:
            for n in ('changes', 'wakes', 'has'):
                st.ghost[n] = 0
            tok, typ, q = st.ghost['closures'][0]
            i = typ.find('$_')
            j = i + 2
            while j < len(typ) and typ[j].isdigit():
                j += 1
            outs = f.ex.call(st, closure_fn(typ[:j]), [q])
            for o in outs:
                f.ensures(o, 'does not throw', o.kind == 'ret')
                a.unlocked(o)
                f.ensures(o, 'the stop functor resets running_', eq(o.st.ghost['last.flags_mutex_.0'], 0, 8))
                f.ensures(o, 'the stop functor leaves the queue alone', o.st.ghost['changes'] == 0)
            f.reachable('the stop functor returns', outs)
    chk.fn('~Active, stop functor', m, 'a_dtor', stop)
