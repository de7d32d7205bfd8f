"""Monitors: mutexes, condition variables and the state they protect, for contracts on concurrent code.

A mutex owns the objects it protects: they may be touched only while it is held, another thread may have changed
them arbitrarily (within the rely relation) whenever it is acquired, and what a critical section does to them
between acquiring and releasing is the atomic effect of the operation."""
import re
import z3
from .terms import *
from .ir import Unsupported
from .mem import *
from .exec import Outcome, PathEnd
from . import lib_std


class TokVal(AbsVal):
    """an object of an opaque movable type: only its identity matters; 0 = empty / moved from"""

    def __init__(self, tok, size, info=None):
        self.tok, self.size, self.info = tok, size, info

    def same(self, o):
        return isinstance(o, TokVal) and o.size == self.size and same_val(self.tok, o.tok)

    def generic(self, name):
        return TokVal(fresh_bv(name + '.tok', 64), self.size)

    def __repr__(self):
        return 'Tok(%s)' % (self.tok,)


def seqval(n, arr):
    """std::deque of tokens / 64-bit integers"""
    return StrVal(n, arr, 64, 'Deque', 80, False)


def get_tok(ex, st, p):
    """the token of the object at p (possibly an element of a deque)"""
    if isinstance(p.o, tuple) and p.o[0] == 'S':
        sv = ex.strval(st, p.o)
        i = ex.elem_index(p.off, 8)
        if i is None:
            raise Unsupported('element address')
        ok = ult(i, sv.n)
        if ok is not True:
            ex.oblige(st, ex.site('element exists'), ok)
            ex.assume(st, ok)
        return sv.arr.sel(i)
    v = ex.get_abs(st, p, TokVal)
    if v is None:
        ex.oblige(st, ex.site('the object is alive'), False)
        raise PathEnd('dead object')
    return v.tok


def set_tok(ex, st, p, tok, size, info=None):
    if isinstance(p.o, tuple) and p.o[0] == 'S':
        if ex.on_access:
            ex.on_access(ex, st, p, 'write')
        sv = ex.strval(st, p.o)
        ex.set_str(st, p.o, sv.upd(arr=Store(sv.arr, ex.elem_index(p.off, 8), tok)))
        return
    if ex.on_access:
        ex.on_access(ex, st, p, 'write')
    ex.put_abs(st, p, TokVal(tok, size, info))


def install_deque(ex, elem_rx, scalar, size=8):
    """std::deque<T>; elements are 64-bit integers (scalar) or opaque objects"""
    D = r'std::deque<%s, std::allocator<%s ?> ?>' % (elem_rx, elem_rx)

    def get(st, p):
        sv = ex.get_abs(st, p, StrVal)
        if sv is None:
            ex.oblige(st, ex.site('the deque is alive'), False)
            raise PathEnd('dead deque')
        return sv

    def val(st, p, move):
        if scalar:
            return ex.load(st, p, 8)
        t = get_tok(ex, st, p)
        if move:
            set_tok(ex, st, p, 0, size)
        return t

    def put(st, p, sv):
        if ex.on_access:
            ex.on_access(ex, st, p, 'write')
        ex.put_abs(st, p, sv)

    def ctor(ex, st, c):
        put(st, c.args[0], seqval(0, Const(0, 64)))

    def ctor2(ex, st, c):
        sv = get(st, c.args[1])
        put(st, c.args[0], sv)
        if '&&' in c.d.split('(', 1)[1]:
            put(st, c.args[1], seqval(0, Const(0, 64)))

    def assign(ex, st, c):
        if not (c.args[0].o == c.args[1].o and eq(c.args[0].off, c.args[1].off) is True):
            ctor2(ex, st, c)
        return c.args[0]

    def dtor(ex, st, c):
        ex.del_abs(st, c.args[0])

    def push(front):
        def f(ex, st, c):
            move = '&&' in c.d.rsplit('(', 1)[1]
            v = val(st, c.args[1], move)
            sv = get(st, c.args[0])
            n = S(add(sv.n, 1))
            arr = Store(sv.arr, sv.n, v) if not front else Lam(lambda k, a=sv.arr, v=v: Ite(eq(k, 0), v, a.sel(S(sub(k, 1))), 64), 64)
            put(st, c.args[0], sv.upd(n=n, arr=arr))
            return Ptr(('S', c.args[0].o, c.args[0].off), 0 if front else S(mul(sv.n, 8)))
        return f

    def nonempty(st, sv):
        if not ex.oblige(st, ex.site('the deque is not empty'), Not(eq(sv.n, 0))):
            ex.assume(st, Not(eq(sv.n, 0)))

    def pop(front):
        def f(ex, st, c):
            sv = get(st, c.args[0])
            nonempty(st, sv)
            put(st, c.args[0], sv.upd(n=S(sub(sv.n, 1)), arr=Shift(sv.arr, 1) if front else sv.arr))
        return f

    def end(front):
        def f(ex, st, c):
            sv = get(st, c.args[0])
            nonempty(st, sv)
            return Ptr(('S', c.args[0].o, c.args[0].off), 0 if front else S(mul(sub(sv.n, 1), 8)))
        return f
    T = 'std::deque of 64-bit values' if scalar else 'std::deque of movable objects'
    pre = r'^(?:.* )?' + D + '::'
    A = ex.add_handler
    A(pre + r'deque\(\)$', ctor, T)
    A(pre + r'deque\(' + D + r' ?(const&|&&)\)$', ctor2, T)
    A(pre + r'operator=\(' + D + r' ?(const&|&&)\)$', assign, T)
    A(pre + r'~deque\(\)$', dtor, T)
    A(pre + r'(push_back\(.*\)|emplace_back<.*>\(.*\))$', push(False), T)
    A(pre + r'(push_front\(.*\)|emplace_front<.*>\(.*\))$', push(True), T)
    A(pre + r'pop_front\(\)$', pop(True), T)
    A(pre + r'pop_back\(\)$', pop(False), T)
    A(pre + r'front\(\)( const)?$', end(True), T)
    A(pre + r'back\(\)( const)?$', end(False), T)
    A(pre + r'empty\(\) const$', lambda ex, st, c: eq(get(st, c.args[0]).n, 0), T)
    A(pre + r'size\(\) const$', lambda ex, st, c: get(st, c.args[0]).n, T)

    def clear(ex, st, c):
        get(st, c.args[0])
        put(st, c.args[0], seqval(0, Const(0, 64)))
    A(pre + r'clear\(\)$', clear, T)

    def swap(ex, st, c):
        a, b = get(st, c.args[0]), get(st, c.args[1])
        put(st, c.args[0], b)
        put(st, c.args[1], a)
    A(pre + r'swap\(.*\)$', swap, T)


def install_function(ex, on_call=None):
    """std::function<void()> as an opaque movable value; made from a closure it gets a token of its own"""
    T = 'std::function<void()> (opaque: which callable it holds)'
    F = r'std::function<void ?\(\)>'
    pre = r'^(?:.* )?' + F + '::'
    A = ex.add_handler

    def ctor(ex, st, c):
        set_tok(ex, st, c.args[0], 0, 32)

    def copy(ex, st, c):
        t = get_tok(ex, st, c.args[1])
        inf = info(st, c.args[1])
        if '&&' in c.d.rsplit('(', 1)[1]:
            set_tok(ex, st, c.args[1], 0, 32)
        set_tok(ex, st, c.args[0], t, 32, inf)

    def info(st, p):
        if isinstance(p.o, tuple):
            return None
        v = ex.get_abs(st, p, TokVal)
        return v.info if v is not None else None

    def assign(ex, st, c):
        same = c.args[0].o == c.args[1].o and eq(c.args[0].off, c.args[1].off) is True
        if not same:
            copy(ex, st, c)
        return c.args[0]

    def closure(ex, st, c):
        n = len(st.ghost.get('closures', ()))
        mm = re.match(r'^' + F + r'::function<(.*), void>\(', c.d) or re.match(r'^' + F + r'::function<(.*)>\(', c.d)
        tok = fresh_bv('closure', 64)
        ex.assume(st, Not(eq(tok, 0)))
        src = c.args[1]
        q = ex.alloc(st, st.mem[src.o].size, 'closure')
        ex.memcpy(st, q, src, st.mem[src.o].size)
        st.ghost['closures'] = st.ghost.get('closures', ()) + ((tok, mm.group(1) if mm else c.d, q),)
        set_tok(ex, st, c.args[0], tok, 32, mm.group(1) if mm else None)

    def dtor(ex, st, c):
        ex.del_abs(st, c.args[0])

    def boolean(ex, st, c):
        return Not(eq(get_tok(ex, st, c.args[0]), 0))

    def swap(ex, st, c):
        a, b = get_tok(ex, st, c.args[0]), get_tok(ex, st, c.args[1])
        set_tok(ex, st, c.args[0], b, 32)
        set_tok(ex, st, c.args[1], a, 32)

    def null(ex, st, c):
        set_tok(ex, st, c.args[0], 0, 32)
        return c.args[0]

    def call(ex, st, c):
        t = get_tok(ex, st, c.args[0])
        if on_call is None:
            raise Unsupported('call of a std::function')
        return on_call(ex, st, t)
    A(pre + r'function<.*\(.*\)$', closure, T)
    A(pre + r'function\(\)$', ctor, T)
    A(pre + r'function\((decltype\(nullptr\)|std::nullptr_t)\)$', ctor, T)
    A(pre + r'function\(' + F + r' ?(const&|&&)\)$', copy, T)
    A(pre + r'operator=\(' + F + r' ?(const&|&&)\)$', assign, T)
    A(pre + r'operator=\((decltype\(nullptr\)|std::nullptr_t)\)$', null, T)
    A(pre + r'~function\(\)$', dtor, T)
    A(pre + r'operator bool\(\) const$', boolean, T)
    A(pre + r'swap\(.*\)$', swap, T)
    A(pre + r'operator\(\)\(\) const$', call, T)


class Monitor:
    """a mutex at p, protecting fields: list of (Ptr, width in bytes or 'seq')"""

    def __init__(self, name, p, fields, rely=None, rank=0):
        self.name, self.p, self.fields, self.rely, self.rank = name, p, fields, rely, rank

    def save(self, ex, st, what):
        for i, v in enumerate(self.values(ex, st)):
            st.ghost['%s.%s.%d' % (what, self.name, i)] = v if isinstance(v, AbsVal) or z3.is_expr(v) else Z(v, 8 * self.fields[i][1])

    def saved(self, st, what):
        return [st.ghost['%s.%s.%d' % (what, self.name, i)] for i in range(len(self.fields))]

    def before(self, ex, st):
        """the values when the mutex was acquired"""
        if st.ghost['dirty.' + self.name]:
            return self.saved(st, 'acq')
        return self.values(ex, st)

    def held(self, st):
        return st.ghost.get('held.' + self.name, 0) == 1

    def values(self, ex, st):
        return [self.value(ex, st, p, w) for p, w in self.fields]

    def value(self, ex, st, p, w):
        o = st.mem[p.o]
        if w == 'seq':
            return o.cells[p.off][1]
        return ex.load_nc(st, p, w)

    def havoc(self, ex, st):
        old = self.saved(st, 'last')
        for i, (p, w) in enumerate(self.fields):
            if w == 'seq':
                n = fresh_bv(self.name + '.len', 64)
                ex.assume(st, ule(n, 1 << 40))
                ex.put_abs(st, p, seqval(n, Base(fresh_name(self.name + '.seq'), 64)))
            else:
                v = fresh_bv(self.name + '.v', 8 * w)
                ex.store_nc(st, p, w, v)
                if self.rely:
                    ex.assume(st, self.rely(i, old[i], v))


class Conc:
    """the thread under verification"""

    def __init__(self, ex, monitors, shared=True):
        self.ex, self.monitors, self.on = ex, monitors, True
        self.shared = shared         # other threads are running (false: during construction)
        A = ex.add_handler
        T = 'std::mutex, std::condition_variable (mutual exclusion, spurious wake-ups)'
        A(r'^(std::mutex|boost::mutex)::lock\(\)$', self.lock, T)
        A(r'^(std::mutex|boost::mutex)::unlock\(\)$', self.unlock, T)
        A(r'^(std::mutex|boost::mutex)::(try_lock|native_handle)\(\)$', self.unsup, T)
        A(r'^(std::mutex|boost::mutex)::~?mutex\(\)$', lambda ex, st, c: None, T)
        A(r'^std::condition_variable::wait\(std::unique_lock<std::mutex>&\)$', self.wait, T)
        A(r'^std::condition_variable::notify_(one|all)\(\)$', self.notify, T)
        A(r'^std::condition_variable::~?condition_variable\(\)$', lambda ex, st, c: None, T)
        ex.on_access = self.access
        ex.loop_invs.append(self.sizes)
        self.at_acquire = None
        self.at_release = None
        self.at_wait = None
        self.at_notify = None
        self.busy = 0

    def sizes(self, st):
        return And([ule(v.n, 1 << 40) for m in self.monitors if m.p is not None for v in m.values(self.ex, st) if isinstance(v, StrVal)])

    def unsup(self, ex, st, c):
        raise Unsupported(c.d)

    def start(self, st):
        for m in self.monitors:
            st.ghost['held.' + m.name] = 0
            m.save(self.ex, st, 'last')
            m.save(self.ex, st, 'acq')
            st.ghost['dirty.' + m.name] = 0

    def find(self, st, p):
        for m in self.monitors:
            if m.p is None:
                m.p = p
            if m.p.o == p.o and eq(m.p.off, p.off) is True:
                return m
        raise Unsupported('unknown mutex at %r' % (p,))

    def acquire(self, ex, st, m):
        ex.oblige(st, ex.site('%s is not held already' % m.name), not m.held(st))
        for k in self.monitors:
            if k is not m and k.held(st):
                ex.oblige(st, ex.site('locks are taken in one order: %s before %s' % (k.name, m.name)), k.rank < m.rank)
        st.ghost['held.' + m.name] = 1
        self.refresh(ex, st, m)

    def refresh(self, ex, st, m):
        self.busy += 1
        if self.shared:
            m.havoc(ex, st)
        self.busy -= 1
        st.ghost['dirty.' + m.name] = 0
        if self.at_acquire:
            self.at_acquire(st, m)

    def release(self, ex, st, m, waiting=False):
        ex.oblige(st, ex.site('%s is held' % m.name), m.held(st))
        m.save(ex, st, 'last')
        if not waiting:
            st.ghost['held.' + m.name] = 0
            if self.at_release:
                self.at_release(st, m, m.before(ex, st), m.saved(st, 'last'))
            st.ghost['dirty.' + m.name] = 0

    def lock(self, ex, st, c):
        self.acquire(ex, st, self.find(st, c.args[0]))

    def unlock(self, ex, st, c):
        self.release(ex, st, self.find(st, c.args[0]))

    def wait(self, ex, st, c):
        lk = c.args[1]
        mp = ex.load(st, lk, 8)
        owns = ex.load(st, lk.plus(8), 1)
        ex.oblige(st, ex.site('the lock passed to wait() is held'), Not(eq(owns, 0, 8)))
        m = self.find(st, mp)
        for k in self.monitors:
            if k is not m:
                ex.oblige(st, ex.site('no other lock is held while waiting'), not k.held(st))
        if self.at_wait:
            self.at_wait(st, m, m.before(ex, st), m.values(ex, st))
        self.release(ex, st, m, waiting=True)
        self.refresh(ex, st, m)

    def notify(self, ex, st, c):
        if self.at_notify:
            self.at_notify(st, c.args[0])

    def access(self, ex, st, p, what):
        if not self.shared or st.ghost.get('alone') or not isinstance(p.o, (int, tuple)) or self.busy:
            return
        oid, off = (p.o[1], p.o[2]) if isinstance(p.o, tuple) and p.o[0] == 'S' else (p.o, p.off)
        for m in self.monitors:
            for (q, w) in m.fields:
                if q.o == oid and is_c(off) and q.off <= off < q.off + (80 if w == 'seq' else w):
                    if not m.held(st):
                        ex.oblige(st, ex.site('%s of what %s protects, without holding it' % (what, m.name)), False)
                    elif what == 'write' and not st.ghost['dirty.' + m.name]:
                        m.save(ex, st, 'acq')
                        st.ghost['dirty.' + m.name] = 1


def install_token(ex, cls, size):
    """an opaque movable class declared by the harness"""
    pre = r'^%s::' % cls

    def move(ex, st, c):
        t = get_tok(ex, st, c.args[1])
        set_tok(ex, st, c.args[1], 0, size)
        set_tok(ex, st, c.args[0], t, size)
        return c.args[0]
    ex.add_handler(pre + r'%s\(\)$' % cls, lambda ex, st, c: set_tok(ex, st, c.args[0], 0, size))
    ex.add_handler(pre + r'%s\(%s&&\)$' % (cls, cls), move)
    ex.add_handler(pre + r'operator=\(%s&&\)$' % cls, move)
    ex.add_handler(pre + r'~%s\(\)$' % cls, lambda ex, st, c: ex.del_abs(st, c.args[0]))
