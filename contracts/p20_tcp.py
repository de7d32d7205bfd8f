"""P20 tcp Connection / Listener: framing, ordering, size limit, strand discipline, closing"""
from vp.contract import *
from vp.exec import PathEnd

TITLE = 'tcp'
D = 'src/maidsafe/common/'
MAX = 1024 * 1024
REPLAY = {'driver': 'p20.cc', 'sources': [D + x for x in ('tcp/connection.cc', 'tcp/listener.cc', 'error.cc', 'error_categories.cc', 'config.cc')], 'libs': ['-lboost_filesystem', '-lboost_thread', '-lboost_system', '-lpthread', '-ldl'], 'seconds': 12, 'also': {'san': 'thread', 'flags': ['-DRP_THREADS']}}
READ, WRITE, POST, DISPATCH, ACCEPT = range(5)
CONSTRUCT, DESTROY, OPEN, CLOSE, SHUTDOWN, REMOTE, OPTION, LISTEN, CANCEL = range(9)
CONNECT, BIND = range(2)
EAFNOSUPPORT = 97
AF_INET, AF_INET6 = 2, 10


class Op:
    def __init__(self, kind, sock, h, strand, bufs):
        self.kind, self.sock, self.h, self.strand, self.bufs = kind, sock, h, strand, bufs

    def __repr__(self):
        return 'Op(%s,%r,%r)' % (self.kind, self.sock, self.bufs)


class Queue(AbsVal):
    """a container of messages: the elements which exist as objects (oldest first), then `mid` more, then those appended"""
    size = 8

    def __init__(self, heads, mid, tails, size=80):
        self.heads, self.mid, self.tails, self.size = tuple(heads), mid, tuple(tails), size

    def same(self, o):
        return isinstance(o, Queue) and same_val(self.heads, o.heads) and same_val(self.tails, o.tails) and eq(self.mid, o.mid) is True


def key(p):
    return (p.o, p.off)


class Tcp:
    def __init__(self, f, module):
        self.f, self.ex = f, f.ex
        ex, st = f.ex, f.st
        A = ex.add_handler
        T = 'asio sockets and acceptors: each call does the system call and reports its error; asynchronous operations invoke their handler once, later, through the executor bound to it; a strand runs one handler at a time, posted ones in the order posted'
        A(r'^vp_op$', self.vp_op, T)
        A(r'^vp_buf$', self.vp_buf)
        A(r'^vp_sock$', self.vp_sock, T)
        A(r'^vp_endpoint$', self.vp_endpoint, T)
        A(r'^vp_is_open$', self.vp_is_open)
        A(r'^vp_in_strand$', lambda ex, st, c: z3.BoolVal(st.ghost['in'] is not None))
        A(r'^vp_local_port$', self.vp_local_port)
        A(r'^vp_message$', self.vp_message)
        A(r'^vp_closed$', self.vp_closed)
        A(r'^vp_new_connection$', self.vp_new_connection)
        A(r'^pthread_once$', self.once, 'std::call_once: the function runs once per flag, and every call returns after it has run')
        A(r'^std::_Sp_counted_base<.*>::_M_add_ref_lock(?:_nothrow)?\(\)$', self.lock, 'std::weak_ptr::lock: atomically takes a reference unless there is none left')
        A(r'^std::(_V2::)?system_category\(\)$', lambda ex, st, c: fptr('system_category'), 'std::system_category')
        A(r'^std::(_V2::)?generic_category\(\)$', lambda ex, st, c: fptr('generic_category'), 'std::generic_category')
        A(r'^asio::.*category::message(\[abi:cxx11\])?\(int\) const$', self.text, 'error_category::message of asio')
        A(r'^std::(runtime_error|system_error)::~?runtime_error\(.*\)$', lambda ex, st, c: None, 'std::runtime_error')
        A(r'boost::diagnostic_information', self.text, 'boost::diagnostic_information')
        A(r'^llvm\.threadlocal\.address', lambda ex, st, c: c.args[0])
        A(r'^asio::io_context::stopped\(\) const$', self.stopped, 'asio::io_context::stopped')
        self.install_queue()
        st.ghost.update({'ops': (), 'bufs': (), 'ev': (), 'msgs': (), 'closed': 0, 'in': None, 'open': {}, 'making': True, 'new': (), 'queue': None, 'tries': 0})
        self.ctx = ex.alloc(st, 64, 'io_context')
        self.strand = ex.alloc(st, 64, 'strand')
        self.call1('t_strand', [self.strand, self.ctx])
        self.errs = True
        self.inline_dispatch = None
        self.queue0 = None

    # ---- helpers
    def call(self, st, fn, *args):
        return self.ex.call(st, fn, list(args))

    def call1(self, fn, args):
        outs = self.ex.call(self.f.st, fn, args)
        assert len(outs) == 1 and outs[0].kind == 'ret', (fn, outs)
        self.f.st = outs[0].st
        return outs[0].val

    def rets(self, outs, what):
        for o in outs:
            if o.kind != 'ret':
                self.f.ensures(o, what + ' does not throw', False)
        return [o.st for o in outs if o.kind == 'ret']

    def flag(self, st, name):
        b = fresh_bv(name, 8)
        self.ex.assume(st, ule(b, 1, 8))
        return z3.simplify(Z(b, 8) == 1)

    def ev(self, st, *e):
        st.ghost['ev'] = st.ghost['ev'] + (e,)

    only = None         # the only step of setting up an acceptor which fails

    def step_errno(self, st, step, arg=0):
        if self.only is None or step == self.only:
            e = self.errno(st, 'errno')
            if self.only == OPEN:
                self.ex.assume(st, Not(eq(e, EAFNOSUPPORT, 32)))
            return e
        if step == OPEN and self.only == 'open4':
            return EAFNOSUPPORT if eq(arg, AF_INET6, 32) is True else self.errno(st, 'errno')
        return 0

    def errno(self, st, name):
        e = fresh_bv(name, 32)
        self.ex.assume(st, ule(e, 4095, 32))
        return e

    # ---- asio
    def vp_buf(self, ex, st, c):
        p, n = c.args
        st.ghost['bufs'] = st.ghost['bufs'] + ((p, S(n)),)

    def vp_op(self, ex, st, c):
        kind, sock, h, strand = c.args
        kind = S(kind)
        g = st.ghost
        bufs, g['bufs'] = g['bufs'], ()
        strand = None if strand.o == 0 else strand
        op = Op(kind, sock, h, strand, bufs)
        ex.oblige(st, ex.site('the handler runs in the strand'), strand is not None and strand.o == self.strand.o)
        if kind in (READ, WRITE):
            self.in_strand(st, 'uses the socket')
            ex.oblige(st, ex.site('one operation of a kind at a time'), not any(x.kind == kind for x in g['ops']))
        if kind == DISPATCH and g['in'] is not None:
            return ex.call(st, 't_fire', [h, 0, 0])
        g['ops'] = g['ops'] + (op,)

    def in_strand(self, st, what):
        self.ex.oblige(st, self.ex.site('%s in the strand' % what), bool(st.ghost['making'] or st.ghost['in'] is not None))

    def opened(self, st, sock, v):
        d = dict(st.ghost['open'])
        d[key(sock)] = v
        st.ghost['open'] = d

    def vp_sock(self, ex, st, c):
        op, sock, arg = S(c.args[0]), c.args[1], S(c.args[2])
        if op == CONSTRUCT:
            self.opened(st, sock, False)
            return 0
        if op == DESTROY:
            return 0
        self.in_strand(st, 'uses the socket')
        e = self.step_errno(st, op, arg)
        if op != OPEN:
            self.ev(st, op, key(sock), arg, e)
        if op == OPEN:
            if self.acceptor is None:
                self.acceptor = key(sock)
            self.attempt(st, arg)
            was = st.ghost['open'][key(sock)]
            ex.assume(st, Implies(was, Not(eq(e, 0, 32))))
            self.ev(st, op, key(sock), arg, e)
            self.opened(st, sock, eq(e, 0, 32))
        elif op == CLOSE:
            self.opened(st, sock, False)
        return e

    acceptor = None

    def attempt(self, st, family):
        """the acceptor is opened for IPv6: one more port is tried"""
        f, ex, g = self.f, self.ex, st.ghost
        if eq(family, AF_INET6, 32) is not True:
            return
        ex.oblige(st, ex.site('the acceptor is closed before another port is tried'), Not(g['open'][self.acceptor]))
        ex.oblige(st, ex.site('nothing is outstanding'), g['ops'] == ())
        if g['tries']:
            ex.oblige(st, ex.site('another port is tried only after a failure'), failed(g['ev']))
        g['tries'] += 1
        g['ev'] = ()

    def vp_endpoint(self, ex, st, c):
        op, sock, v6, lb, port = [S(a) if not isinstance(a, Ptr) else a for a in c.args]
        e = self.step_errno(st, 'connect' if op == CONNECT else 'bind')
        self.ev(st, 'connect' if op == CONNECT else 'bind', key(sock), (v6, lb, port), e)
        return e

    def vp_is_open(self, ex, st, c):
        v = st.ghost['open'][key(c.args[0])]
        return v if is_c(v) or z3.is_expr(v) else z3.BoolVal(bool(v))

    def vp_local_port(self, ex, st, c):
        v = fresh_bv('port', 32)
        ex.assume(st, ule(v, 65535, 32))
        for e in reversed(st.ghost['ev']):
            if e[0] == 'bind':
                ex.assume(st, Implies(Not(eq(e[2][2], 0, 32)), eq(v, e[2][2], 32)))
                break
        return v

    def once(self, ex, st, c):
        v = ex.load(st, c.args[0], 4)
        fn = ex.load(st, ex.global_ptr(st, '_ZSt11__once_call'), 8)
        outs = []
        first = eq(v, 0, 32)
        if first is not False:
            s = st.fork() if first is not True else st
            if first is not True:
                ex.assume(s, first)
            if first is True or ex.feasible(s):
                name = fn.o[1]
                for o in ex.call(s, name, []):
                    if o.kind == 'ret':
                        ex.store(o.st, c.args[0], 4, 2)
                        o.val = 0
                    outs.append(o)
        if first is not True:
            ex.assume(st, Not(first))
            if ex.feasible(st):
                outs.append(Outcome(st, 'ret', 0))
        return outs

    def stopped(self, ex, st, c):
        st.ghost['stopped'] = self.flag(st, 'stopped')
        return st.ghost['stopped']

    def text(self, ex, st, c):
        n = fresh_bv('text', 64)
        ex.assume(st, ule(n, 4096))
        ex.put_abs(st, c.args[0], lib_std.mk('Str', 'char', n, Base('text%d' % ex.next_obj, 8)))

    def lock(self, ex, st, c):
        p = c.args[0].plus(8)
        n = S(ex.load(st, p, 4))
        if not is_c(n):
            raise Unsupported('symbolic use count')
        if n:
            ex.store(st, p, 4, n + 1)
        elif not c.d.endswith('nothrow()'):
            return ex.throw(st, 'std::bad_weak_ptr')
        return n != 0

    # ---- the user's callbacks
    def snap(self, st, p, n):
        if is_c(n) and n == 0 or p.o == 0:
            return Const(0)
        if isinstance(p.o, tuple) and p.o[0] == 'S':
            return Shift(self.ex.strval(st, p.o).arr, p.off)
        vals = [self.ex.load(st, p.plus(k), 1) for k in range(n)]
        return FromList(vals)

    def vp_message(self, ex, st, c):
        p, n = c.args
        self.in_strand(st, 'delivers the message')
        st.ghost['msgs'] = st.ghost['msgs'] + ((S(n), self.snap(st, p, S(n))),)

    def vp_closed(self, ex, st, c):
        self.in_strand(st, 'reports the closing')
        st.ghost['closed'] += 1

    def vp_new_connection(self, ex, st, c):
        self.in_strand(st, 'reports the connection')
        st.ghost['new'] = st.ghost['new'] + (key(c.args[0]),)

    # ---- the queue of messages to be sent
    def install_queue(self):
        ex = self.ex
        A = ex.add_handler
        L = r'^(?:.* )?std::(?:__cxx11::)?(?:deque|list)<maidsafe::tcp::Connection::\w+, .*>::'
        T = 'std::deque / std::list: elements keep their addresses; a sequence of objects'

        def get(st, p):
            q = ex.get_abs(st, p, Queue)
            if q is None:
                ex.oblige(st, ex.site('the queue exists'), False)
                raise PathEnd('dead queue')
            return q

        def touch(st):
            self.in_strand(st, 'uses the queue')

        def ctor(ex, st, c):
            ex.put_abs(st, c.args[0], Queue((), 0, (), 80 if 'deque' in c.d else 24))
            st.ghost['queue'] = c.args[0]

        def dtor(ex, st, c):
            ex.del_abs(st, c.args[0])

        def empty(ex, st, c):
            touch(st)
            q = get(st, c.args[0])
            return False if q.heads or q.tails else eq(q.mid, 0)

        def count(ex, st, c):
            touch(st)
            q = get(st, c.args[0])
            return S(add(q.mid, len(q.heads) + len(q.tails)))

        def settle(st, p, front):
            """make sure the element exists as an object; forks on whether there are others"""
            q = get(st, p)
            if q.heads if front else q.tails:
                return [(st, q)]
            out = []
            some = Not(eq(q.mid, 0))
            for has in (True, False):
                c = some if has else Not(some)
                if c is False:
                    continue
                s = st.fork()
                ex.assume(s, c)
                if c is not True and not ex.feasible(s):
                    continue
                if has:
                    e, n, arr = self.message(s)
                    mid = S(sub(q.mid, 1))
                    q2 = Queue((e,), mid, q.tails, q.size) if front else Queue(q.heads, mid, (e,), q.size)
                else:
                    rest = q.heads + q.tails
                    if not rest:
                        ex.oblige(s, ex.site('the queue is not empty'), False)
                        continue
                    q2 = Queue(rest, 0, (), q.size) if front else Queue((), 0, rest, q.size)
                ex.put_abs(s, p, q2)
                out.append((s, q2))
            return out

        def end(front):
            def h(ex, st, c):
                touch(st)
                return [Outcome(s, 'ret', q.heads[0] if front else q.tails[-1]) for s, q in settle(st, c.args[0], front)]
            return h

        def pop(front):
            def h(ex, st, c):
                touch(st)
                outs = []
                for s, q in settle(st, c.args[0], front):
                    if front:
                        e, q2 = q.heads[0], Queue(q.heads[1:], q.mid, q.tails, q.size)
                    else:
                        e, q2 = q.tails[-1], Queue(q.heads, q.mid, q.tails[:-1], q.size)
                    ex.put_abs(s, c.args[0], q2)
                    s.mem.pop(e.o)
                    outs.append(Outcome(s, 'ret', None))
                return outs
            return h

        def push(front):
            def h(ex, st, c):
                touch(st)
                q = get(st, c.args[0])
                src = c.args[1]
                move = re.search(r'&&\)$', c.d) and not re.search(r'const ?&&\)$', c.d)
                e = self.copy_message(st, src, move)
                ex.put_abs(st, c.args[0], Queue((e,) + q.heads, q.mid, q.tails, q.size) if front else Queue(q.heads, q.mid, q.tails + (e,), q.size))
                return e
            return h
        A(L + r'(?:deque|list)\(\)$', ctor, T)
        A(L + r'~(?:deque|list)\(\)$', dtor, T)
        A(L + r'empty\(\) const$', empty, T)
        A(L + r'size\(\) const$', count, T)
        A(L + r'front\(\)(?: const)?$', end(True), T)
        A(L + r'back\(\)(?: const)?$', end(False), T)
        A(L + r'pop_front\(\)$', pop(True), T)
        A(L + r'pop_back\(\)$', pop(False), T)
        A(L + r'(?:push|emplace)_back(?:<[^()]*>)?\(maidsafe::tcp::Connection::\w+ ?(?:const ?)?&&?\)$', push(False), T)
        A(L + r'(?:push|emplace)_front(?:<[^()]*>)?\(maidsafe::tcp::Connection::\w+ ?(?:const ?)?&&?\)$', push(True), T)

    def message(self, st, name='queued'):
        """an arbitrary message of the queue: what Send's contract puts there"""
        n = fresh_bv(name + '.len', 64)
        arr = Base('in.%s.%d' % (name, self.ex.next_obj), 8)
        self.ex.assume(st, And(ult(0, n), ule(n, MAX)))
        off = self.layout
        e = self.ex.alloc(st, off['size'], name)
        for i in range(4):
            self.ex.store(st, e.plus(off['size_buffer'] + i), 1, be_byte(n, i))
        self.ex.put_abs(st, e.plus(off['data']), lib_std.mk('Vec', 'unsigned char', n, arr))
        st.ghost['known'] = dict(st.ghost.get('known', {}), **{str(e.o): (n, arr)})
        return e, n, arr

    layout = None       # where the elements keep the size and the body, found in the first message sent

    def find_layout(self, st, src):
        cells = {off - src.off: (sz, v) for off, (sz, v) in st.mem[src.o].cells.items() if src.off <= off < src.off + 32}
        data = [off for off, (sz, v) in cells.items() if isinstance(v, StrVal)]
        rest = [off for off, (sz, v) in cells.items() if not isinstance(v, StrVal)]
        if len(data) != 1 or not rest:
            raise Unsupported('the layout of a queued message')
        self.layout = {'size': max([32] + [off + sz for off, (sz, v) in cells.items()]), 'size_buffer': min(rest), 'data': data[0]}

    def copy_message(self, st, src, move):
        ex = self.ex
        ex.check_live(st, src, 'read')
        if self.layout is None:
            self.find_layout(st, src)
        e = ex.alloc(st, self.layout['size'], 'queued')
        so, do = st.mem[src.o], st.wobj(e.o)
        for off in sorted(so.cells):
            sz, v = so.cells[off]
            if src.off <= off and off + sz <= src.off + self.layout['size']:
                do.cells[off - src.off] = (sz, v)
        if move:
            w = st.wobj(src.o)
            for off, (sz, v) in list(w.cells.items()):
                if src.off <= off < src.off + self.layout['size'] and isinstance(v, StrVal):
                    w.cells[off] = (sz, v.upd(n=0))
        return e

    # ---- running
    def make(self, fn='t_make', *args):
        f = self.f
        self.slot = self.ex.alloc(f.st, 16, 'connection pointer')
        f.st.ghost['making'] = True
        outs = self.call(f.st, fn, self.slot, self.strand, *args)
        for o in outs:
            o.st.ghost['making'] = False
        return outs

    def connection(self):
        """a new connection in f.st"""
        outs = self.make()
        assert len(outs) == 1 and outs[0].kind == 'ret'
        self.f.st = outs[0].st

    def take(self, st, kind):
        ops = [o for o in st.ghost['ops'] if o.kind == kind]
        if len(ops) != 1:
            return None
        st.ghost['ops'] = tuple(o for o in st.ghost['ops'] if o is not ops[0])
        return ops[0]

    def fire(self, st, op, e=0, n=0):
        """the handler is invoked by the executor bound to it"""
        st.ghost['in'] = op.strand
        outs = self.call(st, 't_fire', op.h, e, n)
        for o in outs:
            o.st.ghost['in'] = None
        return outs

    def total(self, op):
        t = 0
        for p, n in op.bufs:
            t = add(t, n)
        return S(t)

    def fill(self, st, op, name):
        """the bytes read arrive in the buffer; returns them"""
        (p, n), = op.bufs
        ex = self.ex
        if is_c(n) and n == 0:
            return Const(0)
        arr = Base('in.' + name, 8)
        self.f.inputs[name] = ('seq', n, arr, 8)
        if isinstance(p.o, tuple) and p.o[0] == 'S':
            sv = ex.strval(st, p.o)
            ex.oblige(st, 'the receive buffer is still there', And(eq(p.off, 0), eq(sv.n, n)))
            ex.set_str(st, p.o, sv.upd(arr=arr))
        elif p.o == 0:
            ex.oblige(st, 'no buffer is needed', eq(n, 0))
        else:
            for k in range(n):
                ex.store(st, p.plus(k), 1, arr.sel(k))
        return arr

    # ---- what is to be sent
    def set_queue(self, st, n=None):
        """arbitrarily many messages are queued (and the first of them is being written)"""
        p = st.ghost['queue']
        if n is None:
            n = fresh_bv('queued', 64)
            self.ex.assume(st, ule(n, 1 << 30))
        self.ex.put_abs(st, p, Queue((), n, (), self.ex.get_abs(st, p, Queue).size))

    def queue(self, st):
        return self.ex.get_abs(st, st.ghost['queue'], Queue)

    def check_message(self, f, st, e, n, arr, name):
        """the queued object holds the message's size, most significant byte first, and its bytes"""
        off = self.layout
        for i in range(4):
            f.ensures(st, '%s: size byte %d' % (name, i), eq(self.ex.load(st, e.plus(off['size_buffer'] + i), 1), be_byte(n, i), 8))
        sv = self.ex.get_abs(st, e.plus(off['data']), StrVal)
        if f.ensures(st, name + ': has a body', sv is not None):
            f.ensures(st, name + ': length', eq(sv.n, n))
            f.forall(st, name + ': bytes', n, lambda i: eq(sv.arr.sel(i), arr.sel(i), 8))

    def check_write(self, f, st, op, n, arr, name):
        """the write operation sends the size, most significant byte first, then the bytes"""
        f.ensures(st, name + ': total', eq(self.total(op), add(n, 4)))
        for i in range(4):
            f.ensures(st, '%s: size byte %d' % (name, i), eq(self.stream(st, op, i), be_byte(n, i), 8))
        f.forall(st, name + ': the bytes', n, lambda i: eq(self.stream(st, op, S(add(i, 4))), arr.sel(i), 8))

    def stream(self, st, op, k):
        """the k-th byte the write operation sends"""
        def at(bufs, k):
            p, n = bufs[0]
            if len(bufs) == 1:
                return self.byte(st, p, n, k)
            lt = ult(k, n)
            if lt is True:
                return self.byte(st, p, n, k)
            if lt is False:
                return at(bufs[1:], S(sub(k, n)))
            return Ite(lt, self.byte(st, p, n, k), at(bufs[1:], S(sub(k, n))), 8)
        return at(list(op.bufs), k)

    def byte(self, st, p, n, k):
        if isinstance(p.o, tuple) and p.o[0] == 'S':
            return self.ex.strval(st, p.o).arr.sel(S(add(p.off, k)))
        if is_c(k):
            return self.ex.load(st, p.plus(k), 1)
        v = 0
        for i in range(n):
            v = Ite(eq(k, i), self.ex.load(st, p.plus(i), 1), v, 8)
        return v




def failed(ev):
    """one of the steps of setting up the acceptor has failed (other than IPv6 not being supported)"""
    return Or([And(Not(eq(e[3], 0, 32)), True if e[0] != OPEN or eq(e[2], AF_INET6, 32) is not True else Not(eq(e[3], EAFNOSUPPORT, 32))) for e in ev if e[0] in (OPEN, OPTION, 'bind', LISTEN)])


def be_byte(n, i):
    return (n >> 8 * (3 - i)) & 255 if is_c(n) else S(z3.Extract(8 * (3 - i) + 7, 8 * (3 - i), Z(n, 64)))


def be(arr):
    v = 0
    for k in range(4):
        v = Z(v, 32) << 8 | z3.ZeroExt(24, Z(arr.sel(k), 8))
    return S(v)


def contracts(chk):
    m = chk.ir(['h_tcp.cc'])
    RANGE = '_ZN8maidsafe3tcp25kMaxRangeAboveDefaultPortE'
    ex = Exec(chk.ir([D + 'config.cc']))
    st = State()
    ports = ex.load(st, ex.global_ptr(st, RANGE), 4)     # how many more ports are tried, defined in config.cc


    def start(f):
        t = Tcp(f, m)
        f.st.wobj(f.ex.global_ptr(f.st, RANGE).o).cells[0] = (4, ports)
        return t

    def quiet(f, o, what=''):
        f.ensures(o, 'nothing is outstanding' + what, len(o.st.ghost['ops']) == 0)

    def make(f):
        t = start(f)
        outs = t.make()
        f.reachable('made', outs)
        for s in t.rets(outs, 'MakeShared'):
            quiet(f, Outcome(s, 'ret'))
            f.ensures(s, 'no system call is made', s.ghost['ev'] == ())
            for s2 in t.rets(t.call(s, 't_drop', t.slot), 'destroying'):
                f.ensures(s2, 'the callbacks are not called', s2.ghost['closed'] == 0 and s2.ghost['msgs'] == ())
    chk.fn('Connection::MakeShared(strand)', m, 't_make', make)

    def started(f, t):
        """states after Start and the dispatched function"""
        outs = t.call(f.st, 't_start', t.slot)
        res = []
        for s in t.rets(outs, 'Start'):
            op = t.take(s, DISPATCH)
            f.ensures(s, 'one function is dispatched', op is not None and s.ghost['ops'] == ())
            if op is not None:
                res += t.rets(t.fire(s, op), 'the dispatched function')
        return res

    def starts(f):
        t = start(f)
        t.connection()
        for s in started(f, t):
            for s2 in t.rets(t.call(s.fork(), 't_drop', t.slot), 'dropping'):
                pass
            op = t.take(s, READ)
            f.ensures(s, 'the size of the first message is read', op is not None and len(op.bufs) == 1)
            f.ensures(s, 'four bytes', eq(t.total(op), 4))
            f.ensures(s, 'nothing else', s.ghost['ops'] == () and s.ghost['ev'] == ())
            # a second Start does nothing
            for s3 in t.rets(t.call(s, 't_start', t.slot), 'Start'):
                f.ensures(s3, 'a second Start does nothing', s3.ghost['ops'] == ())
    chk.fn('Connection::Start', m, 't_start', starts)

    def closes(f, s, before=0):
        """the state after a handler which has to close the connection"""
        f.ensures(s, 'the connection is closed', any(e[0] == CLOSE for e in s.ghost['ev']))
        f.ensures(s, 'the closing is reported once', s.ghost['closed'] == 1)
        f.ensures(s, 'nothing more is read or sent', s.ghost['ops'] == ())

    def aborts(f, t, s, op, what):
        """op is reported as failed: the connection is closed; whatever comes later does not report it again"""
        s = s.fork()
        t.take(s, op.kind)
        e = t.errno(s, 'error')
        f.ex.assume(s, Not(eq(e, 0, 32)))
        for s2 in t.rets(t.fire(s, op, e, fresh_bv('transferred', 64)), what):
            closes(f, s2)
            f.ensures(s2, 'no message is delivered', s2.ghost['msgs'] == s.ghost['msgs'])
            for s3 in t.rets(t.call(s2, 't_close', t.slot), 'Close'):
                p = t.take(s3, POST)
                f.ensures(s3, 'Close is posted', p is not None)
                for s4 in t.rets(t.fire(s3, p), 'the posted function'):
                    f.ensures(s4, 'the closing is not reported again', s4.ghost['closed'] == 1 and s4.ghost['ops'] == ())
                    for s5 in t.rets(t.call(s4, 't_drop', t.slot), 'destroying'):
                        f.ensures(s5, 'nor by the destructor', s5.ghost['closed'] == 1)

    def read_size(f, t, s, name):
        """the four bytes of a size arrive: states in which that many bytes are being read"""
        op = t.take(s, READ)
        f.ensures(s, name + ': one read is outstanding, of four bytes', op is not None and s.ghost['ops'] == () and eq(t.total(op), 4) is True)
        if op is None:
            return []
        s.ghost['ops'] = (op,)
        aborts(f, t, s, op, 'the size handler')
        t.take(s, READ)
        n = be(t.fill(s, op, name + '.size'))
        res = []
        for s2 in t.rets(t.fire(s, op, 0, 4), 'the size handler'):
            big = ult(MAX, n, 32)
            rd = [o for o in s2.ghost['ops'] if o.kind == READ]
            if not rd:
                f.ensures(s2, name + ': gives up only for a size above the maximum', big)
                closes(f, s2)
                continue
            f.ensures(s2, name + ': a size above the maximum is not read', Not(big))
            f.ensures(s2, name + ': exactly the announced bytes are read', And(eq(t.total(rd[0]), zext(n, 32, 64)), len(s2.ghost['ops']) == 1))
            f.ensures(s2, name + ': nothing is closed', s2.ghost['ev'] == () and s2.ghost['closed'] == 0)
            res.append((s2, S(zext(n, 32, 64))))
        return res

    def read_data(f, t, s, n, name):
        """the bytes of a message arrive; the message is delivered"""
        op = t.take(s, READ)
        s.ghost['ops'] = (op,)
        aborts(f, t, s, op, 'the data handler')
        t.take(s, READ)
        arr = t.fill(s, op, name + '.data')
        k = len(s.ghost['msgs'])
        for s2 in t.rets(t.fire(s, op, 0, n), 'the data handler'):
            p = t.take(s2, POST)
            f.ensures(s2, name + ': one delivery is posted', p is not None and len(s2.ghost['msgs']) == k)
            f.ensures(s2, name + ': the size of the next message is being read', [o.kind for o in s2.ghost['ops']] == [READ])

            def deliver(s3):
                out = []
                for s4 in t.rets(t.fire(s3, p), 'the delivery'):
                    msgs = s4.ghost['msgs']
                    if f.ensures(s4, name + ': delivered once', len(msgs) == k + 1):
                        f.ensures(s4, name + ': length', eq(msgs[k][0], n))
                        f.forall(s4, name + ': the bytes received', n, lambda i: eq(msgs[k][1].sel(i), arr.sel(i), 8))
                    out.append(s4)
                return out
            yield from deliver(s2)       # the strand runs it before any handler of the next read

    def size(f):
        t = start(f)
        t.connection()
        for s in started(f, t):
            out = read_size(f, t, s, 'first')
            f.reachable('a message is read', [Outcome(x, 'ret') for x, n in out])
    chk.fn('Connection: a size arrives', m, 't_start', size)

    def data(f):
        t = start(f)
        t.connection()
        for s in started(f, t):
            for s2, n in read_size(f, t, s, 'first'):
                outs = list(read_data(f, t, s2, n, 'first'))
                f.reachable('delivered', [Outcome(x, 'ret') for x in outs])
                # and again, with what the previous message left in the buffers
                for s3 in outs:
                    for s4, n2 in read_size(f, t, s3, 'second'):
                        outs2 = list(read_data(f, t, s4, n2, 'second'))
                        f.reachable('delivered again', [Outcome(x, 'ret') for x in outs2])
    chk.fn('Connection: messages arrive one after the other', m, 't_start', data)

    def dropped(f):
        """the user's reference goes away while an operation is outstanding: the handlers keep the connection"""
        t = start(f)
        t.connection()
        for s in started(f, t):
            for s in t.rets(t.call(s, 't_drop', t.slot), 'dropping'):
                for s2, n in read_size_only(f, t, s):
                    op = t.take(s2, READ)
                    t.fill(s2, op, 'data')
                    for s3 in t.rets(t.fire(s2, op, 0, n), 'the data handler'):
                        p = t.take(s3, POST)
                        op = t.take(s3, READ)
                        f.ensures(s3, 'goes on', p is not None and op is not None)
                        for s4 in t.rets(t.fire(s3, p), 'the delivery'):
                            f.ensures(s4, 'delivered', len(s4.ghost['msgs']) == 1)
                            for s5 in t.rets(t.fire(s4, op, 125, 0), 'the size handler'):
                                f.ensures(s5, 'closed', s5.ghost['closed'] == 1 and s5.ghost['ops'] == ())

    def read_size_only(f, t, s):
        op = t.take(s, READ)
        n = be(t.fill(s, op, 'size'))
        f.ex.assume(s, ule(n, MAX, 32))
        return [(s2, S(zext(n, 32, 64))) for s2 in t.rets(t.fire(s, op, 0, 4), 'the size handler')]
    chk.fn('Connection: outlives its owner while reading', m, 't_start', dropped)

    # ---- sending
    def send(f):
        t = start(f)
        t.connection()
        p, n, arr = f.vec('message', 1 << 40)
        t.set_queue(f.st)
        q0 = t.queue(f.st)
        outs = t.call(f.st, 't_send', t.slot, p)
        f.reachable('sent', [o for o in outs if o.kind == 'ret'])
        for o in outs:
            if o.kind == 'throw':
                f.outs = [o]
                f.ensures(o, 'refuses only an empty or too large message', Or(eq(n, 0), ult(MAX, n)))
                e = f.err(o)
                if e is None:
                    f.ensures(o, 'throws a maidsafe_error', False)
                elif f.ex.feasible(o.st, eq(n, 0)):
                    s = o.st.fork()
                    f.ex.assume(s, eq(n, 0))
                    f.throws_error(Outcome(s, 'throw'), 'an empty message', 'CommonErrors', enum_code('CommonErrors', 'outside_of_bounds'))
                if e is not None and f.ex.feasible(o.st, ult(MAX, n)):
                    s = o.st.fork()
                    f.ex.assume(s, ult(MAX, n))
                    f.throws_error(Outcome(s, 'throw'), 'a message which is too large', 'VaultManagerErrors', enum_code('VaultManagerErrors', 'ipc_message_too_large'))
                f.ensures(o, 'nothing is posted', o.st.ghost['ops'] == () and t.queue(o.st).same(q0))
                continue
            s = o.st
            f.ensures(o, 'accepts only what fits', And(ult(0, n), ule(n, MAX)))
            op = t.take(s, POST)
            f.ensures(o, 'one function is posted', op is not None and s.ghost['ops'] == () and t.queue(s).same(q0))
            if op is None:
                continue
            f.ex.del_abs(s, p)           # the caller's vector may be gone by then
            # with no write outstanding, the posted function is all that keeps the connection
            idle = s.fork()
            f.ex.assume(idle, eq(q0.mid, 0))
            f.ex.assume(s, Not(eq(q0.mid, 0)))
            busy = q0.mid
            for s in t.rets(t.call(idle, 't_drop', t.slot), 'dropping') + [s]:
                for s2 in t.rets(t.fire(s, op), 'the posted function'):
                    q = t.queue(s2)
                    if q is None:
                        f.ensures(s2, 'the queue is there', False)
                        continue
                    cells = (q.heads + q.tails)
                    f.ensures(s2, 'one message more, at the end', And(len(q.heads + q.tails) >= 1, eq(S(add(q.mid, len(cells))), add(q0.mid, 1))))
                    f.ensures(s2, 'the new message is the last', q.mid is q0.mid or eq(q.mid, q0.mid) is True or (len(q.tails) >= 1) or eq(q.mid, 0) is True)
                    w = [x for x in s2.ghost['ops'] if x.kind == WRITE]
                    f.ensures(s2, 'a write is begun iff none is outstanding', eq(busy, 0) if w else Not(eq(busy, 0)))
                    last = cells[-1]
                    t.check_message(f, s2, last, n, arr, 'queued')
                    if w:
                        t.check_write(f, s2, w[0], n, arr, 'written')
    chk.fn('Connection::Send', m, 't_send', send)

    def sent(e):
        def body(f):
            """a write of the oldest queued message has ended"""
            t = start(f)
            t.connection()
            for s in started(f, t):
                t.take(s, READ)
                t.set_queue(s, 0)
                p, n, arr = f.vec('message', MAX)
                f.ex.assume(s, ult(0, n))
                f.ex.assume(s, ule(n, MAX))
                s.mem[p.o] = f.st.mem[p.o]
                for s in t.rets(t.call(s, 't_send', t.slot, p), 'Send'):
                    op = t.take(s, POST)
                    for s in t.rets(t.fire(s, op), 'the posted function'):
                        w = t.take(s, WRITE)
                        f.ensures(s, 'a write is outstanding', w is not None)
                        if w is None:
                            continue
                        # meanwhile others are queued
                        more = fresh_bv('more', 64)
                        f.ex.assume(s, ule(more, 1 << 30))
                        q = t.queue(s)
                        f.ex.put_abs(s, s.ghost['queue'], Queue(q.heads + q.tails, more, (), q.size))
                        t.check_write(f, s, w, n, arr, 'written')
                        if e:
                            s.ghost['ops'] = (w,)
                            aborts(f, t, s, w, 'the write handler')
                            continue
                        outs = t.rets(t.fire(s, w, 0, S(add(n, 4))), 'the write handler')
                        f.reachable('written', [Outcome(x, 'ret') for x in outs])
                        for s2 in outs:
                            q2 = t.queue(s2)
                            ops = s2.ghost['ops']
                            f.ensures(s2, 'one message less', eq(S(add(q2.mid, len(q2.heads + q2.tails))), more))
                            f.ensures(s2, 'the next is written iff there is one', eq(more, 0) if not ops else Not(eq(more, 0)))
                            f.ensures(s2, 'at most one write', len(ops) <= 1 and all(o.kind == WRITE for o in ops))
                            f.ensures(s2, 'nothing is closed', s2.ghost['closed'] == 0 and s2.ghost['ev'] == ())
                            if ops and q2.heads:
                                n2, arr2 = s2.ghost['known'][str(q2.heads[0].o)]
                                t.check_write(f, s2, ops[0], n2, arr2, 'the oldest message is written')
        return body
    chk.fn('Connection: a write is completed', m, 't_send', sent(False))
    chk.fn('Connection: a write fails', m, 't_send', sent(True))

    def close(with_start):
        def body(f):
            t = start(f)
            t.connection()
            for s in (started(f, t) if with_start else [f.st]):
                t.take(s, READ)
                for s in t.rets(t.call(s, 't_close', t.slot), 'Close'):
                    for s in t.rets(t.call(s, 't_close', t.slot), 'Close'):
                        f.ensures(s, 'Close does nothing itself', s.ghost['ev'] == () and s.ghost['closed'] == 0)
                        ops, s.ghost['ops'] = s.ghost['ops'], ()
                        f.ensures(s, 'posted', [o.kind for o in ops] == [POST, POST])
                        for s in t.rets(t.call(s, 't_drop', t.slot), 'dropping'):
                            for s1 in t.rets(t.fire(s, ops[0]), 'the posted function'):
                                sock = set(e[1] for e in s1.ghost['ev'])
                                f.ensures(s1, 'the socket is closed', [e[0] for e in s1.ghost['ev'] if e[0] != SHUTDOWN] == [CLOSE] and len(sock) == 1)
                                f.ensures(s1, 'the peer is told before', s1.ghost['ev'][0][0] == SHUTDOWN and s1.ghost['ev'][0][2] in (1, 2))
                                f.ensures(s1, 'reported once', s1.ghost['closed'] == int(with_start))
                                for s2 in t.rets(t.fire(s1, ops[1]), 'the posted function'):
                                    f.ensures(s2, 'closing again does nothing', s2.ghost['closed'] == int(with_start) and s2.ghost['ev'] == s1.ghost['ev'])
        return body
    chk.fn('Connection::Close', m, 't_close', close(True))
    chk.fn('Connection::Close before Start', m, 't_close', close(False))

    def remote(f):
        t = start(f)
        port = f.bv('port', 16)
        outs = t.make('t_make_remote', port)
        f.reachable('connected', [o for o in outs if o.kind == 'ret'])
        f.reachable('not connected', [o for o in outs if o.kind == 'throw'])
        v4 = []
        for o in outs:
            ev = o.st.ghost['ev']
            con = [e for e in ev if e[0] == 'connect']
            rem = [e for e in ev if e[0] == REMOTE]
            if not f.ensures(o, 'one or two attempts, then the remote endpoint is asked for', len(con) in (1, 2) and len(rem) == 1):
                continue
            for i, c in enumerate(con):
                v6, lb, p = c[2]
                f.ensures(o, 'IPv6 first, then IPv4', Not(eq(v6, 0, 32)) if i == 0 else eq(v6, 0, 32))
                f.ensures(o, 'on the loopback address', Not(eq(lb, 0, 32)))
                f.ensures(o, 'the port asked for', eq(p, zext(port, 16, 32), 32))
            nov6 = eq(con[0][3], EAFNOSUPPORT, 32)
            f.ensures(o, 'IPv4 is tried iff IPv6 is not supported', nov6 if len(con) == 2 else Not(nov6))
            ok = And(eq(con[-1][3], 0, 32), eq(rem[0][3], 0, 32))
            if o.kind == 'ret':
                f.ensures(o, 'succeeds only if connected', ok)
                quiet(f, o)
                v4.append(len(con))
            else:
                f.ensures(o, 'fails only if not connected', Not(ok))
                f.throws_error(o, 'failed to connect', 'VaultManagerErrors', enum_code('VaultManagerErrors', 'failed_to_connect'))
        f.ensures(f.st, 'the IPv4 path exists', 2 in v4)
    chk.fn('Connection::MakeShared(strand, port)', m, 't_make_remote', remote)

    def maximum(f):
        outs = f.run()
        for o in outs:
            f.ensures(o, 'one MiB', eq(o.val, MAX))
    chk.fn('Connection::MaxMessageSize', m, 't_max', maximum)

    # ---- the listener
    def setup_ok(f, o, ev, port):
        """the acceptor listens on the loopback address at the port"""
        op, bind, listen = [[e for e in ev if e[0] == k] for k in (OPEN, 'bind', LISTEN)]
        if not f.ensures(o, 'opened, bound, listening', len(bind) == 1 and len(listen) == 1 and len(op) in (1, 2) and [e[0] for e in ev if e[0] in (OPEN, 'bind', LISTEN)][-2:] == ['bind', LISTEN]):
            return
        f.ensures(o, 'every step succeeded', And(eq(op[-1][3], 0, 32), eq(bind[0][3], 0, 32), eq(listen[0][3], 0, 32)))
        f.ensures(o, 'IPv4 iff IPv6 is not supported', eq(op[0][3], EAFNOSUPPORT, 32) if len(op) == 2 else eq(op[0][2], AF_INET6, 32))
        if len(op) == 2:
            f.ensures(o, 'then IPv4', eq(op[1][2], AF_INET, 32))
        v6, lb, p = bind[0][2]
        f.ensures(o, 'bound to the family opened', Not(eq(v6, 0, 32)) if len(op) == 1 else eq(v6, 0, 32))
        f.ensures(o, 'on the loopback address only', Not(eq(lb, 0, 32)))
        f.ensures(o, 'at the port tried', eq(p, port, 32))
        f.ensures(o, 'the port may be reused', any(e[0] == OPTION for e in ev))

    def listening(f, t, port):
        """outcomes of Listener::MakeShared"""
        t.lslot = f.ex.alloc(f.st, 16, 'listener pointer')
        outs = t.call(f.st, 't_listen', t.lslot, t.strand, port)
        for o in outs:
            o.st.ghost['making'] = False
        return outs

    def listen(last, only=None):
        def body(f):
            t = start(f)
            t.only = only
            port = 65535 if last else f.bv('port', 16)
            outs = listening(f, t, port)
            f.reachable('listening', [o for o in outs if o.kind == 'ret'])
            f.reachable('not listening', [o for o in outs if o.kind == 'throw'])
            p = port if last else zext(port, 16, 32)
            for o in outs:
                g = o.st.ghost
                tries = g['tries']
                here = S(add(p, tries - 1, 32))
                f.ensures(o, 'at most eleven ports are tried', 1 <= tries <= 11)
                f.ensures(o, 'all of them exist', ule(here, 65535, 32))
                if o.kind == 'ret':
                    setup_ok(f, o, g['ev'], here)
                    f.ensures(o, 'the acceptor is open', g['open'][t.acceptor])
                    acc = [x for x in g['ops'] if x.kind == ACCEPT]
                    f.ensures(o, 'one accept is outstanding', len(acc) == 1 and len(g['ops']) == 1 and key(acc[0].sock) != t.acceptor and g['open'].get(key(acc[0].sock)) is False)
                else:
                    f.ensures(o, 'gives up only after a failure', failed(g['ev']))
                    f.ensures(o, 'gives up only after the last port', Or(tries == 11, eq(here, 65535, 32)))
                    f.throws_error(o, 'failed to listen', 'VaultManagerErrors', enum_code('VaultManagerErrors', 'failed_to_listen'))
                    f.ensures(o, 'nothing is outstanding', g['ops'] == ())
        return body
    chk.fn('Listener::MakeShared(65535)', m, 't_listen', listen(True))
    for name, only in (('open', OPEN), ('open for IPv4', 'open4'), ('set_option', OPTION), ('bind', 'bind'), ('listen', LISTEN)):
        chk.fn('Listener::MakeShared where %s may fail' % name, m, 't_listen', listen(False, only), paths=30000)

    def accepting(f, t):
        """a listener, with any one of its accepts outstanding"""
        t.make_open = True
        res = []
        for o in listening(f, t, 65535):
            if o.kind == 'ret' and len([e for e in o.st.ghost['ev'] if e[0] == OPEN]) == 1:
                res.append(o.st)
        return res

    def accept(kind):
        def body(f):
            t = start(f)
            ss = accepting(f, t)
            f.reachable('listening', [Outcome(s, 'ret') for s in ss])
            for s in ss:
                for s in t.rets(t.call(s, 't_drop_listener', t.lslot), 'dropping'):
                    for rnd in range(2):
                        op = t.take(s, ACCEPT)
                        f.ensures(s, 'an accept is outstanding', op is not None)
                        if op is None:
                            break
                        e = 0
                        if kind == 'error':
                            e = t.errno(s, 'error')
                            f.ex.assume(s, Not(eq(e, 0, 32)))
                        elif kind == 'closed':
                            t.opened(s, Ptr(*t.acceptor), False)
                            e = t.errno(s, 'error')
                        else:
                            t.opened(s, op.sock, True)
                        before = s.ghost['new']
                        outs = t.rets(t.fire(s, op, e, 0), 'the accept handler')
                        nxt = []
                        for s2 in outs:
                            g = s2.ghost
                            stopped = g.get('stopped')
                            if kind == 'closed' or any(k for k in [stopped] if k is True):
                                f.ensures(s2, 'nothing happens after the acceptor was closed', g['new'] == before and g['ops'] == ())
                                continue
                            acc = [x for x in g['ops'] if x.kind == ACCEPT]
                            if not acc:
                                f.ensures(s2, 'gives up only if the io_service is stopped', stopped if stopped is not None else False)
                                continue
                            f.ensures(s2, 'one accept is outstanding', len(g['ops']) == 1)
                            f.ensures(s2, 'into a connection of its own', key(acc[0].sock) != key(op.sock) and g['open'].get(key(acc[0].sock)) is False)
                            f.ensures(s2, 'the connection is reported' if kind == 'ok' else 'nothing is reported', g['new'] == (before + (key(op.sock),) if kind == 'ok' else before))
                            f.ensures(s2, 'the acceptor stays open', g['open'][t.acceptor])
                            nxt.append(s2)
                        if kind != 'closed':
                            f.reachable('accepts again', [Outcome(x, 'ret') for x in nxt])
                        if not nxt:
                            break
                        s = nxt[0]
        return body
    chk.fn('Listener: a connection is accepted', m, 't_listen', accept('ok'))
    chk.fn('Listener: accepting fails', m, 't_listen', accept('error'))
    chk.fn('Listener: accepting ends after closing', m, 't_listen', accept('closed'))

    def stop(f):
        t = start(f)
        for s in accepting(f, t):
            s.ghost['ev'] = ()
            for s in t.rets(t.call(s, 't_stop', t.lslot), 'StopListening'):
                for s in t.rets(t.call(s, 't_stop', t.lslot), 'StopListening'):
                    p = [x for x in s.ghost['ops'] if x.kind == POST]
                    f.ensures(s, 'posted', len(p) == 2 and s.ghost['ev'] == ())
                    if len(p) != 2:
                        continue
                    acc = t.take(s, ACCEPT)
                    s.ghost['ops'] = ()
                    for s in t.rets(t.call(s, 't_drop_listener', t.lslot), 'dropping'):
                        for s2 in t.rets(t.fire(s, p[0]), 'the posted function'):
                            f.ensures(s2, 'the acceptor is closed', [e[0] for e in s2.ghost['ev']] == [CLOSE] and s2.ghost['ev'][0][1] == t.acceptor)
                            for s3 in t.rets(t.fire(s2, acc, 125, 0), 'the accept handler'):
                                f.ensures(s3, 'accepting ends', s3.ghost['ops'] == () and s3.ghost['new'] == ())
                                for s4 in t.rets(t.fire(s3, p[1]), 'the posted function'):
                                    f.ensures(s4, 'closed once', s4.ghost['ev'] == s2.ghost['ev'] and s4.ghost['ops'] == ())
    chk.fn('Listener::StopListening', m, 't_stop', stop)

    def port(f):
        t = start(f)
        for s in accepting(f, t):
            bound = [e[2][2] for e in s.ghost['ev'] if e[0] == 'bind']
            for o in t.call(s, 't_port', t.lslot):
                f.ensures(o, 'the port it is bound to', o.kind == 'ret' and eq(o.val, trunc(bound[0], 32, 16), 16))
    chk.fn('Listener::ListeningPort', m, 't_port', port)
