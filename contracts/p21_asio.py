"""P21 AsioService: exactly the threads asked for, all joined exactly once when it is stopped"""
from vp.contract import *
from vp import conc
from vp.exec import PathEnd

TITLE = 'AsioService'
D = 'src/maidsafe/common/'
REPLAY = {'driver': 'p21.cc', 'sources': [D + x for x in ('error.cc', 'error_categories.cc')], 'libs': ['-lboost_thread', '-lboost_system', '-lboost_filesystem', '-lpthread', '-ldl'],
          'san': False, 'seconds': 10, 'also': {'san': 'thread', 'flags': ['-DRP_TSAN']}}


def vec(n, arr):
    return StrVal(n, arr, 64, 'ThreadVec', 24, False)


def contracts(chk):
    m = chk.ir(['h_asio.cc', D + 'error.cc', D + 'error_categories.cc'])
    ARG = enum_code('CommonErrors', 'invalid_argument')
    OWN = enum_code('CommonErrors', 'cannot_invoke_from_this_thread')

    def num(fn, p=None):
        ex = Exec(m)
        lib_std.install(ex)
        st = State()
        v = ex.call(st, fn, [ex.alloc(st, 4096, 'probe')] if p else [])[0].val
        return v.off if p else S(v)
    size = num('s_sizeof')
    off = {k: num('s_off_' + k, 1) for k in ('service', 'work', 'threads', 'mutex', 'count')}

    class T:
        def __init__(self, f, built):
            self.f, ex, st = f, f.ex, f.st
            self.ex = ex
            self.p = ex.alloc(st, size, 'service')
            self.svc, self.work, self.thr, self.mtx, self.cnt = (self.p.plus(off[k]) for k in ('service', 'work', 'threads', 'mutex', 'count'))
            A = ex.add_handler
            IO = 'io_service: run() returns when there is no more work and no work object, or throws what a handler throws'
            A(r'^Svc::Svc\(\)$', lambda ex, st, c: self.set(st, 'svc', 1), IO)
            A(r'^Svc::~Svc\(\)$', self.svc_dtor)
            A(r'^Svc::work::work\(Svc&\)$', self.work_ctor, IO)
            A(r'^Svc::work::~work\(\)$', self.work_dtor)
            TH = 'std::thread: runs the callable in a thread of its own, or throws system_error; join() waits until it has returned'
            A(r'^(?:.* )?std::vector<std::thread, .*>::emplace_back<(.*)>\(', self.emplace, TH)
            A(r'^(?:.* )?std::vector<std::thread, .*>::push_back\(std::thread&&\)$', self.push)
            A(r'^(?:.* )?std::vector<std::thread, .*>::vector\(\)$', lambda ex, st, c: self.put(st, c.args[0], 0, Const(0, 64)))
            A(r'^(?:.* )?std::vector<std::thread, .*>::reserve\(unsigned long\)$', lambda ex, st, c: self.get(st, c.args[0]) and None)
            A(r'^(?:.* )?std::vector<std::thread, .*>::~vector\(\)$', self.vec_dtor)
            A(r'^(?:.* )?std::vector<std::thread, .*>::clear\(\)$', self.clear)
            A(r'^(?:.* )?std::vector<std::thread, .*>::vector\(std::vector<std::thread, .*>&&\)$', self.take)
            A(r'^(?:.* )?std::vector<std::thread, .*>::operator=\(std::vector<std::thread, .*>&&\)$', self.assign)
            A(r'^(?:.* )?(?:std::vector<std::thread, .*>::swap\(std::vector<std::thread, .*>&\)|std::swap<std::thread, .*>\(std::vector<.*)$', self.swap)
            A(r'^(?:.* )?std::vector<std::thread, .*>::pop_back\(\)$', self.pop)
            A(r'^(?:.* )?std::vector<std::thread, .*>::back\(\)( const)?$', lambda ex, st, c: self.at(st, c.args[0], mul(sub(self.get(st, c.args[0]).n, 1), 8)))
            A(r'^(?:.* )?std::vector<std::thread, .*>::front\(\)( const)?$', lambda ex, st, c: self.at(st, c.args[0], 0))
            A(r'^(?:.* )?std::vector<std::thread, .*>::c?begin\(\)( const)?$', lambda ex, st, c: self.at(st, c.args[0], 0))
            A(r'^(?:.* )?std::vector<std::thread, .*>::c?end\(\)( const)?$', lambda ex, st, c: self.at(st, c.args[0], mul(self.get(st, c.args[0]).n, 8)))
            A(r'^(?:.* )?std::vector<std::thread, .*>::size\(\) const$', lambda ex, st, c: self.get(st, c.args[0]).n)
            A(r'^(?:.* )?std::vector<std::thread, .*>::empty\(\) const$', lambda ex, st, c: eq(self.get(st, c.args[0]).n, 0))
            A(r'^(?:.* )?std::vector<std::thread, .*>::operator\[\]\(unsigned long\)( const)?$', self.index)
            A(r'^std::thread::thread<.*>\(', self.thread, TH)
            A(r'^std::thread::~thread\(\)$', self.gone)
            A(r'^std::thread::join\(\)$', self.join, TH)
            A(r'^std::thread::detach\(\)$', self.detach)
            A(r'^pthread_self$', lambda ex, st, c: self.me, 'std::this_thread::get_id')
            A(r'^std::mutex::lock\(\)$', self.lock, 'std::mutex: mutual exclusion')
            A(r'^std::mutex::unlock\(\)$', self.unlock)
            A(r'^boost::current_exception_diagnostic_information(\[abi:.*\])?\(bool\)$', self.text, 'the text of log messages')
            A(r'^maidsafe::log::Logging::(Instance|Flush)\(\)$', lambda ex, st, c: self.p)
            self.me = f.bv('this thread')
            ex.assume(st, Not(eq(self.me, 0)))
            self.built = built
            self.old = None
            ex.loop_invs += [self.forward, self.backward] if built else [self.ids, self.forward, self.backward]
            z = z3.BitVecVal(0, 64)
            st.ghost.update({'svc': 1 if built else 0, 'work': 0, 'workp': None, 'started': z, 'joined': z, 'held': 0, 'ids': None, 'case': None, 'fault': 0, 'runs': 0, 'detached': 0})

        def ids(self, st):
            """the threads started so far have an id, and none is this thread"""
            v = self.ex.get_abs(st, self.thr, StrVal)
            if v is None:
                return True
            return Forall(None, lambda j: [Implies(ult(j, v.n), And(Not(eq(v.arr.sel(j), 0)), Not(eq(v.arr.sel(j), self.me))))], 'started threads')

        def ended_are(self, which):
            def inv(st):
                v = self.ex.get_abs(st, self.thr, StrVal)
                if v is None or st.ghost['ids'] is None:
                    return True
                n, arr = st.ghost['ids'].n, st.ghost['ids'].arr
                return Forall(None, lambda j: [Implies(ult(j, v.n), eq(v.arr.sel(j), Ite(which(j, n, st.ghost['joined']), 0, arr.sel(j), 64)))], 'threads joined')
            return inv

        @property
        def forward(self):
            """the first ones were joined"""
            return self.ended_are(lambda j, n, i: ult(j, i))

        @property
        def backward(self):
            """the last ones were joined"""
            return self.ended_are(lambda j, n, i: ule(sub(n, i), j))

        def text(self, ex, st, c):
            n = fresh_bv('text', 64)
            ex.assume(st, ule(n, 1 << 30))
            ex.put_abs(st, c.args[0], StrVal(n, Base('text%d' % id(n), 8)))

        def set(self, st, k, v):
            st.ghost[k] = v

        def site(self, t):
            return self.ex.site(t)

        def ob(self, st, t, c):
            return self.ex.oblige(st, self.site(t), c)

        def here(self, p, q):
            return p.o == q.o and eq(p.off, q.off) is True

        def svc_dtor(self, ex, st, c):
            self.ob(st, 'the service lives until its threads have ended', st.ghost['svc'] == 1 and eq(st.ghost['started'], st.ghost['joined']))
            self.ob(st, 'the work object is gone before the service', st.ghost['work'] == 0)
            st.ghost['svc'] = 0

        def work_ctor(self, ex, st, c):
            self.ob(st, 'the work object belongs to the service', st.ghost['svc'] == 1 and self.here(c.args[1], self.svc))
            self.ob(st, 'one work object', st.ghost['work'] == 0)
            st.ghost['work'] = 1
            st.ghost['workp'] = c.args[0].o
            ex.store(st, c.args[0], 8, 0)

        def work_dtor(self, ex, st, c):
            self.ob(st, 'the work object is destroyed once', st.ghost['work'] == 1)
            st.ghost['work'] = 0

        # ---- the vector
        def get(self, st, p):
            if self.built and self.here(p, self.thr):
                self.ob(st, 'the threads are used only under the mutex', st.ghost['held'] == 1 or st.ghost['case'] == 'dtor')
            v = self.ex.get_abs(st, p, StrVal)
            if v is None:
                self.ob(st, 'the vector is alive', False)
                raise PathEnd('dead vector')
            return v

        def put(self, st, p, n, arr):
            self.ex.put_abs(st, p, vec(n, arr))

        def at(self, st, p, o):
            self.get(st, p)
            return Ptr(('S', p.o, p.off), S(o))

        def index(self, ex, st, c):
            v = self.get(st, c.args[0])
            self.ob(st, 'the thread exists', ult(c.args[1], v.n))
            return Ptr(('S', c.args[0].o, c.args[0].off), S(mul(c.args[1], 8)))

        def take(self, ex, st, c):
            v = self.get(st, c.args[1])
            self.put(st, c.args[0], v.n, v.arr)
            self.put(st, c.args[1], 0, Const(0, 64))

        def assign(self, ex, st, c):
            self.none(st, self.get(st, c.args[0]))
            self.take(ex, st, c)
            return c.args[0]

        def swap(self, ex, st, c):
            a, b = self.get(st, c.args[0]), self.get(st, c.args[1])
            self.put(st, c.args[0], b.n, b.arr)
            self.put(st, c.args[1], a.n, a.arr)

        def pop(self, ex, st, c):
            v = self.get(st, c.args[0])
            self.ob(st, 'the thread exists', Not(eq(v.n, 0)))
            self.ob(st, 'a thread destroyed was joined', eq(v.arr.sel(sub(v.n, 1)), 0))
            ex.put_abs(st, c.args[0], v.upd(n=S(sub(v.n, 1))))

        def start(self, st, d, src):
            """the callable of a new thread: runs the service once; returns the outcomes"""
            ex = self.ex
            i = d.find('(')
            mm = re.search(r"(?:emplace_back|thread::thread)<(maidsafe::IoService<Svc>::.*?(?:\{lambda\(.*?\)#\d+\}|'lambda\d*'\(.*?\)))", d)
            if not mm:
                raise Unsupported('callable of a thread: ' + d[60:300])
            fn = [n for n, x in m.demangled.items() if x.startswith(mm.group(1) + '::operator()') and m.func(n) is not None]
            if len(fn) != 1:
                raise Unsupported('call operator of ' + mm.group(1))
            self.ob(st, 'a thread is started only while there is work, or it would end at once', st.ghost['work'] == 1)
            self.ob(st, 'a thread is started only when the service exists', st.ghost['svc'] == 1)
            s = st.fork()
            s.ghost['runs'] = 0
            q = ex.alloc(s, s.mem[src.o].size, 'closure')
            ex.memcpy(s, q, src, s.mem[src.o].size)

            def run(ex, st, c):
                self.ob(st, 'the thread runs this service, once', self.here(c.args[0], self.svc) and st.ghost['runs'] == 0)
                st.ghost['runs'] = 1
                t = st.fork()
                t.ghost['fault'] = 2
                return [Outcome(st, 'ret', fresh_bv('handlers', 64)), ex.throw(t, '_ZTISt13runtime_error', ex.alloc(t, 16, 'exception'))]
            ex.add_handler(r'^Svc::run\(\)$', run)
            seen = set()
            for o in ex.call(s, fn[0], [q]):
                seen.add(o.kind)
                self.f.ensures(o, 'the thread runs the service', o.st.ghost['runs'] == 1)
                self.f.ensures(o, 'what a handler throws is not swallowed', (o.kind == 'throw') == (o.st.ghost['fault'] == 2))
            self.f.ensures(s, 'the thread ends when run() returns', 'ret' in seen)
            bad = st.fork()
            bad.ghost['fault'] = 1
            t = fresh_bv('tid', 64)
            ex.assume(st, And(Not(eq(t, 0)), Not(eq(t, self.me))))
            st.ghost['started'] = S(add(st.ghost['started'], 1))
            return t, ex.throw(bad, '_ZTISt12system_error', ex.alloc(bad, 32, 'exception'))

        def emplace(self, ex, st, c):
            v = self.get(st, c.args[0])
            t, bad = self.start(st, c.d, c.args[1])
            ex.put_abs(st, c.args[0], v.upd(n=S(add(v.n, 1)), arr=Store(v.arr, v.n, t)))
            return [Outcome(st, 'ret', Ptr(('S', c.args[0].o, c.args[0].off), S(mul(v.n, 8)))), bad]

        def thread(self, ex, st, c):
            t, bad = self.start(st, c.d, c.args[1])
            ex.store(st, c.args[0], 8, t)
            return [Outcome(st, 'ret', None), bad]

        def push(self, ex, st, c):
            v = self.get(st, c.args[0])
            t = ex.load(st, c.args[1], 8)
            ex.store(st, c.args[1], 8, 0)
            ex.put_abs(st, c.args[0], v.upd(n=S(add(v.n, 1)), arr=Store(v.arr, v.n, t)))

        def none(self, st, v):
            """every thread in the vector was joined"""
            if eq(v.n, 0) is True:
                return
            self.f.forall(st, self.site('every thread destroyed was joined'), v.n, lambda k: eq(v.arr.sel(k), 0))

        def vec_dtor(self, ex, st, c):
            st.ghost['case'] = st.ghost['case'] or 'dtor'
            s = st.ghost['held']
            st.ghost['held'] = 1
            self.none(st, self.get(st, c.args[0]))
            st.ghost['held'] = s
            ex.del_abs(st, c.args[0])

        def clear(self, ex, st, c):
            self.none(st, self.get(st, c.args[0]))
            self.put(st, c.args[0], 0, Const(0, 64))

        def gone(self, ex, st, c):
            self.ob(st, 'a thread destroyed was joined', eq(ex.load(st, c.args[0], 8), 0))

        def ended(self, st, p):
            ex = self.ex
            t = ex.load(st, p, 8)
            self.ob(st, 'the thread was not joined before', Not(eq(t, 0)))
            self.ob(st, 'a thread does not join itself', Not(eq(t, self.me)))
            self.ob(st, 'joins after the work object is gone, or it would wait for ever', st.ghost['work'] == 0)
            ex.store(st, p, 8, 0)

        def join(self, ex, st, c):
            bad = st.fork()
            bad.ghost['fault'] = 1
            self.ended(st, c.args[0])
            st.ghost['joined'] = S(add(st.ghost['joined'], 1))
            return None

        def detach(self, ex, st, c):
            self.ob(st, 'no thread is detached', False)
            raise PathEnd('detach')

        # ---- the mutex
        def lock(self, ex, st, c):
            self.ob(st, 'the mutex is that of the service, not held already', self.here(c.args[0], self.mtx) and st.ghost['held'] == 0)
            st.ghost['held'] = 1
            if not self.built or st.ghost['case']:
                st.ghost['ids'] = self.ex.get_abs(st, self.thr, StrVal)
                return None
            # whatever other threads did: it is running, or it was stopped
            a = st.fork()
            self.running(st)
            a.ghost['case'] = 'stopped'
            ex.store(a, self.work, 8, 0)
            self.put(a, self.thr, 0, Const(0, 64))
            return [Outcome(st, 'ret', None), Outcome(a, 'ret', None)]

        def running(self, st):
            ex = self.ex
            n = self.f.bv('threads', 64) if self.old is None else self.old[0]
            arr = Base('tid', 64) if self.old is None else self.old[1]
            self.old = (n, arr)
            st.ghost['case'] = 'running'
            w = ex.alloc(st, 8, 'work', kind='heap')
            ex.store(st, w, 8, 0)
            ex.store(st, self.work, 8, w)
            st.ghost['work'] = 1
            st.ghost['workp'] = w.o
            ex.assume(st, And(ule(1, n), ule(n, 1 << 40)))
            self.put(st, self.thr, n, arr)
            st.ghost['ids'] = vec(n, arr)
            st.foralls.append(Forall(None, lambda j: [Implies(ult(j, n), Not(eq(arr.sel(j), 0)))], 'running threads have an id'))
            st.ghost['started'] = n

        def unlock(self, ex, st, c):
            self.ob(st, 'the mutex is held', self.here(c.args[0], self.mtx) and st.ghost['held'] == 1)
            st.ghost['held'] = 0
            # what the mutex protects: stopped <=> no work object and no threads
            wp = ex.load(st, self.work, 8)
            v = ex.get_abs(st, self.thr, StrVal)
            stopped = st.ghost['work'] == 0
            null = (isinstance(wp, Ptr) and wp.o == 0 and eq(wp.off, 0) is True) or (not isinstance(wp, Ptr) and eq(wp, 0) is True)
            self.ob(st, 'stopped means: no work object', null if stopped else isinstance(wp, Ptr) and wp.o == st.ghost['workp'])
            self.ob(st, 'stopped means: no threads left', v is not None and (Implies(stopped, eq(v.n, 0)) if stopped else True))

    def ctor(f):
        t = T(f, False)
        n = f.bv('thread_count')
        f.requires(ule(n, 1 << 40))
        ok, zero, failed = [], [], []
        for o in f.run(t.p, n):
            g = o.st.ghost
            f.ensures(o, 'the mutex is released', g['held'] == 0)
            if o.kind == 'ret':
                ok.append(o)
                f.ensures(o, 'there is at least one thread', Not(eq(n, 0)))
                f.ensures(o, 'as many threads as asked for', eq(g['started'], n))
                f.ensures(o, 'none of them is told to end', g['work'] == 1 and g['svc'] == 1)
                f.ensures(o, 'none is joined', eq(g['joined'], 0))
                v = f.ex.get_abs(o.st, t.thr, StrVal)
                f.ensures(o, 'all are kept', v is not None and eq(v.n, n))
                for r in f.ex.call(o.st.fork(), 's_count', [t.p]):
                    f.ensures(r, 'ThreadCount', r.kind == 'ret' and eq(r.val, n))
                for r in f.ex.call(o.st.fork(), 's_service', [t.p]):
                    f.ensures(r, 'service()', r.kind == 'ret' and t.here(r.val, t.svc))
            else:
                f.ensures(o, 'nothing is left behind', And(eq(g['started'], g['joined']), g['work'] == 0, g['svc'] == 0))
                if g['fault'] == 1:
                    failed.append(o)
                else:
                    zero.append(o)
                    f.ensures(o, 'throws only if no thread is asked for', eq(n, 0))
                    f.ensures(o, 'no thread was started', eq(g['started'], 0))
                    f.throws_error(o, 'throws invalid_argument', 'CommonErrors', ARG)
        f.reachable('returns', ok)
        f.reachable('throws', zero)
        f.reachable('a thread cannot be started', failed)
    chk.fn('IoService(thread_count)', m, 's_ctor', ctor, loop_mode='summary', index_divs=(8, 32, 4))

    def stop(f):
        t = T(f, True)
        seen = {}
        for o in f.run(t.p):
            g = o.st.ghost
            seen.setdefault((g['case'], o.kind), []).append(o)
            f.ensures(o, 'the mutex is released', g['held'] == 0)
            v = f.ex.get_abs(o.st, t.thr, StrVal)
            if o.kind == 'ret':
                for r in f.ex.call(o.st.fork(), 's_count', [t.p]):
                    f.ensures(r, 'ThreadCount is 0 once stopped', r.kind == 'ret' and eq(r.val, 0))
            if g['case'] == 'stopped':
                f.ensures(o, 'stopping again does nothing', o.kind == 'ret' and eq(g['joined'], 0))
            elif o.kind == 'ret':
                n, arr = t.old
                f.ensures(o, 'the work object is gone', g['work'] == 0)
                f.ensures(o, 'every thread was joined', eq(g['joined'], n))
                f.ensures(o, 'no thread is left', v is not None and eq(v.n, 0))
            else:
                n, arr = t.old
                f.throws_error(o, 'throws cannot_invoke_from_this_thread', 'CommonErrors', OWN)
                f.exists_lt(o, 'throws only in one of its own threads', n, lambda k: eq(arr.sel(k), t.me), arr)
                f.ensures(o, 'the service keeps running', g['work'] == 1 and eq(g['joined'], 0))
                f.ensures(o, 'the threads stay', v is not None and eq(v.n, n))
        for k in (('running', 'ret'), ('running', 'throw'), ('stopped', 'ret')):
            f.reachable('%s, %s' % k, seen.get(k, []))
    chk.fn('IoService::Stop', m, 's_stop', stop, loop_mode='summary', index_divs=(8, 32, 4))

    def dtor(f):
        t = T(f, True)
        n = f.bv('threads', 64)
        arr = Base('tid', 64)
        t.old = (n, arr)
        # destroyed by none of its own threads
        f.st.foralls.append(Forall(None, lambda j: [Implies(ult(j, n), Not(eq(arr.sel(j), t.me)))], 'not one of its own threads'))
        for o in f.run(t.p):
            g = o.st.ghost
            f.ensures(o, 'does not throw', o.kind == 'ret')
            f.ensures(o, 'every thread was joined', eq(g['started'], g['joined']))
            f.ensures(o, 'the service and the work object are gone', g['work'] == 0 and g['svc'] == 0)
        f.reachable('returns', f.rets())
    chk.fn('~IoService', m, 's_dtor', dtor, loop_mode='summary', index_divs=(8, 32, 4))
