"""P05 BoundedString"""
from vp.contract import *

TITLE = 'bounded string'
REPLAY = {'driver': 'p05.cc', 'sources': ['src/maidsafe/common/encode.cc', 'src/maidsafe/common/error.cc', 'src/maidsafe/common/error_categories.cc'],
          'libs': ['-lpthread'], 'seconds': 15}
MAX = (1 << 64) - 1
TYPES = {'ne': (1, MAX, 'Vec', 'unsigned char'), 'id': (64, 64, 'Vec', 'unsigned char'),
         'ss': (2, 5, 'Str', 'char'), 'zs': (0, 3, 'Str', 'char')}


class Obj:
    """a BoundedString in memory: a string-like value and the 'valid' flag"""

    def __init__(self, f, t, name, raw=False, lay=None):
        self.f, self.t, self.name = f, t, name
        self.lo, self.hi, self.kind, self.elem = TYPES[t]
        self.off_s, self.off_v, self.size = lay[t]
        self.p = f.ex.alloc(f.st, self.size, name)
        if raw:
            return
        self.n, self.a = f.seq(name, 8)
        self.v = f.bv(name + '.valid', 8)
        f.requires(ule(self.v, 1, 8))
        f.ex.put_abs(f.st, self.p.plus(self.off_s), lib_std.mk(self.kind, self.elem, self.n, self.a))
        f.ex.store(f.st, self.p.plus(self.off_v), 1, self.v)
        f.requires(self.inv_of(self.n, self.v))
        f.requires(Implies(Not(self.valid()), self.n == 0))   # an uninitialised object holds the empty string

    def valid(self):
        return eq(self.v, 1, 8)

    def inv_of(self, n, v):
        return Implies(Not(eq(v, 0, 8)), And(ule(self.lo, n), ule(n, self.hi)))

    def get(self, o):
        sv = self.f.ex.get_abs(o.st, self.p.plus(self.off_s))
        v = self.f.ex.load(o.st, self.p.plus(self.off_v), 1)
        return sv, v

    def inv(self, o, what=''):
        sv, v = self.get(o)
        self.f.ensures(o, 'invariant of %s%s: initialised implies min <= size <= max' % (self.name, what), self.inv_of(sv.n, v))
        return sv, v


def same_seq(f, o, name, sv, n, a):
    f.ensures(o, name + ': length', eq(sv.n, n))
    f.forall(o, name + ': contents', n, lambda k: eq(sv.arr.sel(k), a.sel(k), 8))


def lex_lt(f, o, n1, a1, n2, a2, res, name):
    """res <=> (n1,a1) < (n2,a2) lexicographically (unsigned bytes); for trichotomy, by first difference"""


def contracts(chk):
    m = chk.ir(['h_bounded.cc', 'src/maidsafe/common/encode.cc'])
    OOB = enum_code('CommonErrors', 'outside_of_bounds')
    UNI = enum_code('CommonErrors', 'uninitialised')
    PARSE = enum_code('CommonErrors', 'parsing_error')

    def num(fn):
        ex = Exec(m)
        lib_std.install(ex)
        st = State()
        o = ex.call(st, fn, [] if fn.endswith('_size') else [ex.alloc(st, 64, 'probe')])
        return S(o[0].val)
    lay = {}
    for t in list(TYPES) + ['fs']:
        lay[t] = (num(t + '_off_string'), num(t + '_off_valid'), num(t + '_size'))
    TYPES['fs'] = (5, 5, 'Str', 'char')

    for t in ('ne', 'id', 'ss', 'zs'):
        lo, hi, kind, elem = TYPES[t]

        def mk(f, name, raw=False, t=t):
            return Obj(f, t, name, raw, lay)

        def ctor(f, t=t, kind=kind, elem=elem, lo=lo, hi=hi, mk=mk):
            x = mk(f, 'this', True)
            p, n, a = f.string('s', kind, elem)
            ok = And(ule(lo, n), ule(n, hi))
            for o in f.run(x.p, p):
                if o.kind == 'ret':
                    f.ensures(o, 'a string outside the bounds is rejected', ok)
                    sv, v = x.inv(o)
                    f.ensures(o, 'the object is initialised', eq(v, 1, 8))
                    same_seq(f, o, 'holds the given string', sv, n, a)
                else:
                    f.throws_error(o, 'throws outside_of_bounds', 'CommonErrors', OOB)
                    f.ensures(o, 'throws only outside the bounds', Not(ok))
            f.reachable('returns', f.rets())
        chk.fn('BoundedString<%s>(String)' % t, m, t + '_ctor', ctor)
        if t in ('ne', 'id'):
            def ctor2(f, t=t, lo=lo, hi=hi, mk=mk):
                x = mk(f, 'this', True)
                p, n, a = f.string('s')
                ok = And(ule(lo, n), ule(n, hi))
                for o in f.run(x.p, p):
                    if o.kind == 'ret':
                        f.ensures(o, 'a string outside the bounds is rejected', ok)
                        sv, v = x.inv(o)
                        f.ensures(o, 'the object is initialised', eq(v, 1, 8))
                        same_seq(f, o, 'holds the given string', sv, n, a)
                    else:
                        f.throws_error(o, 'throws outside_of_bounds', 'CommonErrors', OOB)
                        f.ensures(o, 'throws only outside the bounds', Not(ok))
                f.reachable('returns', f.rets())
            chk.fn('BoundedString<%s>(const std::string&)' % t, m, t + '_ctor_str', ctor2)

        def default(f, lo=lo, mk=mk):
            x = mk(f, 'this', True)
            for o in f.run(x.p):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                sv, v = x.inv(o)
                f.ensures(o, 'initialised exactly when the empty string is within the bounds', eq(v, 1 if lo == 0 else 0, 8))
                f.ensures(o, 'holds the empty string', eq(sv.n, 0))
        chk.fn('BoundedString<%s>()' % t, m, t + '_default', default)

        def copymove(f, move, assign, t=t, mk=mk):
            src = mk(f, 'source')
            dst = mk(f, 'this', not assign)
            for o in f.run(dst.p, src.p):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                sv, v = dst.inv(o)
                f.ensures(o, 'initialised like the source', eq(v, src.v, 8))
                same_seq(f, o, 'holds the source string', sv, src.n, src.a)
                s2, v2 = src.inv(o, ' (moved from)' if move else '')
                if not move:
                    f.ensures(o, 'source unchanged: flag', eq(v2, src.v, 8))
                    same_seq(f, o, 'source unchanged', s2, src.n, src.a)
        chk.fn('BoundedString<%s>(const BoundedString&)' % t, m, t + '_copy', lambda f, g=copymove: g(f, False, False))
        chk.fn('BoundedString<%s>(BoundedString&&)' % t, m, t + '_move', lambda f, g=copymove: g(f, True, False))
        chk.fn('BoundedString<%s>::operator=(const&)' % t, m, t + '_assign', lambda f, g=copymove: g(f, False, True))
        chk.fn('BoundedString<%s>::operator=(&&)' % t, m, t + '_massign', lambda f, g=copymove: g(f, True, True))

        def selfassign(f, move, mk=mk):
            x = mk(f, 'this')
            for o in f.run(x.p, x.p):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                sv, v = x.inv(o)
                if not move:
                    f.ensures(o, 'unchanged: flag', eq(v, x.v, 8))
                    same_seq(f, o, 'unchanged', sv, x.n, x.a)
        chk.fn('BoundedString<%s> self assignment' % t, m, t + '_assign', lambda f, g=selfassign: g(f, False))
        chk.fn('BoundedString<%s> self move' % t, m, t + '_massign', lambda f, g=selfassign: g(f, True))

        def access(f, which, t=t, mk=mk, kind=kind):
            x = mk(f, 'this')
            args = [x.p]
            if which in ('get', 'set'):
                i = f.bv('i')
                f.requires(Implies(x.valid(), ult(i, x.n)))
                args.append(i)
            if which == 'set':
                c = f.bv('c', 8)
                args.append(c)
            for o in f.run(*args):
                sv, v = x.inv(o)
                f.ensures(o, 'flag unchanged', eq(v, x.v, 8))
                if which != 'set' or o.kind != 'ret':
                    same_seq(f, o, 'string unchanged', sv, x.n, x.a)
                if which == 'init':
                    f.ensures(o, 'IsInitialised() is the flag', And(o.kind == 'ret', eq(o.val, x.valid(), 1)))
                    continue
                if o.kind != 'ret':
                    f.throws_error(o, 'throws uninitialised', 'CommonErrors', UNI)
                    f.ensures(o, 'throws only when uninitialised', Not(x.valid()))
                    continue
                f.ensures(o, 'an uninitialised object throws', x.valid())
                if which == 'sz':
                    f.ensures(o, 'is the string size', eq(o.val, x.n))
                elif which == 'string':
                    f.ensures(o, 'is the held string', isinstance(o.val, Ptr) and o.val.o == x.p.o and S(sub(o.val.off, x.p.off)) == x.off_s)
                elif which == 'get':
                    f.ensures(o, 'is the i-th element', eq(o.val, x.a.sel(i), 8))
                elif which == 'set':
                    f.ensures(o, 'size unchanged', eq(sv.n, x.n))
                    f.forall(o, 'only element i changes', x.n, lambda k: eq(sv.arr.sel(k), Ite(eq(k, i), c, x.a.sel(k), 8), 8))
                elif which == 'data':
                    k = fresh_bv('k', 64)
                    st = o.st.fork()
                    f.ex.assume(st, ult(k, x.n))
                    b = f.ex.load(st, o.val.plus(k), 1)
                    f.ex.oblige(st, 'points to the held characters', eq(b, x.a.sel(k), 8))
            f.reachable('returns', f.rets())
            if t != 'zs' and which != 'init':
                f.reachable('throws', f.throws())
        for w in ('sz', 'init', 'string', 'get', 'set', 'data'):
            chk.fn('BoundedString<%s>::%s' % (t, w), m, '%s_%s' % (t, w), lambda f, w=w, g=access: g(f, w))

        def compare(f, op, t=t, mk=mk):
            x, y = mk(f, 'lhs'), mk(f, 'rhs')
            for o in f.run(x.p, y.p):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                r = o.val
                both = And(x.valid(), y.valid())
                pos = op in ('eq', 'le', 'ge')
                f.ensures(o, 'two uninitialised objects are equal', Implies(And(Not(x.valid()), Not(y.valid())), eq(r, pos, 1)))
                f.ensures(o, 'uninitialised sorts before initialised', Implies(And(Not(x.valid()), y.valid()), eq(r, op in ('lt', 'le', 'ne'), 1)))
                f.ensures(o, 'initialised sorts after uninitialised', Implies(And(x.valid(), Not(y.valid())), eq(r, op in ('gt', 'ge', 'ne'), 1)))
                # the strings: p is the first position where they differ (if any)
                p = fresh_bv('p', 64)
                mn = Ite(ult(x.n, y.n), x.n, y.n, 64)
                st = o.st.fork()
                f.ex.assume(st, both)
                st.foralls.append(Forall(p, lambda j: [eq(x.a.sel(j), y.a.sel(j), 8)], 'common prefix'))
                s1 = st.fork()
                f.ex.assume(s1, And(ult(p, mn), Not(eq(x.a.sel(p), y.a.sel(p), 8))))
                less = ult(x.a.sel(p), y.a.sel(p), 8)
                want = {'eq': False, 'ne': True, 'lt': less, 'le': less, 'gt': Not(less), 'ge': Not(less)}[op]
                f.ex.oblige(s1, 'strings with a first difference compare by it', eq(r, want, 1), extra_terms=[p])
                s2 = st.fork()
                f.ex.assume(s2, eq(p, mn))
                want = {'eq': eq(x.n, y.n), 'ne': Not(eq(x.n, y.n)), 'lt': ult(x.n, y.n), 'le': ule(x.n, y.n),
                        'gt': ult(y.n, x.n), 'ge': ule(y.n, x.n)}[op]
                f.ex.oblige(s2, 'strings without a difference compare by length', eq(r, want, 1), extra_terms=[p])
        for w in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
            chk.fn('BoundedString<%s> operator %s' % (t, w), m, '%s_%s' % (t, w), lambda f, w=w, g=compare: g(f, w))

        def load(f, t=t, mk=mk, kind=kind, elem=elem, lo=lo, hi=hi):
            x = mk(f, 'this')
            p, n, a = f.string('s', kind, elem)
            fail = f.bv('fail', 8)
            f.requires(ule(fail, 1, 8))
            ok = And(ule(lo, n), ule(n, hi), eq(fail, 0, 8))
            for o in f.run(x.p, p, eq(fail, 1, 8)):
                sv, v = x.inv(o)
                if o.kind == 'ret':
                    f.ensures(o, 'input outside the bounds is rejected', ok)
                    f.ensures(o, 'the object is initialised', eq(v, 1, 8))
                    same_seq(f, o, 'holds the archived string', sv, n, a)
                else:
                    f.throws_error(o, 'throws parsing_error', 'CommonErrors', PARSE)
                    f.ensures(o, 'throws only on bad input', Not(ok))
                    f.ensures(o, 'unchanged on failure: flag', eq(v, x.v, 8))
                    same_seq(f, o, 'unchanged on failure', sv, x.n, x.a)
            f.reachable('returns', f.rets())
            f.reachable('throws', f.throws())
        chk.fn('BoundedString<%s>::load' % t, m, t + '_load', load)

        def save(f, t=t, mk=mk, kind=kind, elem=elem):
            x = mk(f, 'this')
            q = f.out_string('out', kind, elem)
            for o in f.run(x.p, q):
                if o.kind == 'ret':
                    f.ensures(o, 'an uninitialised object throws', x.valid())
                    same_seq(f, o, 'archives the held string', f.abs(o, q), x.n, x.a)
                else:
                    f.throws_error(o, 'throws uninitialised', 'CommonErrors', UNI)
                    f.ensures(o, 'throws only when uninitialised', Not(x.valid()))
            f.reachable('returns', f.rets())
        chk.fn('BoundedString<%s>::save' % t, m, t + '_save', save)

    def conv(f, frm, to, assign):
        src = Obj(f, frm, 'source', False, lay)
        dst = Obj(f, to, 'this', not assign, lay)
        for o in f.run(dst.p, src.p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            sv, v = dst.inv(o)
            f.ensures(o, 'initialised like the source', eq(v, src.v, 8))
            same_seq(f, o, 'holds the source string', sv, src.n, src.a)
            s2, v2 = src.inv(o)
            same_seq(f, o, 'source unchanged', s2, src.n, src.a)
    chk.fn('BoundedString conversion ss -> ne', m, 'conv_ss_ne', lambda f: conv(f, 'ss', 'ne', False))
    chk.fn('BoundedString conversion id -> ne', m, 'conv_id_ne', lambda f: conv(f, 'id', 'ne', False))
    chk.fn('BoundedString converting assignment id -> ne', m, 'cassign_id_ne', lambda f: conv(f, 'id', 'ne', True))

    def xor(f, t):
        x, y = Obj(f, t, 'lhs', False, lay), Obj(f, t, 'rhs', False, lay)
        r = Obj(f, t, 'result', True, lay)
        both = And(x.valid(), y.valid())
        for o in f.run(r.p, x.p, y.p):
            if o.kind == 'ret':
                f.ensures(o, 'uninitialised operands throw', both)
                sv, v = r.inv(o)
                f.ensures(o, 'the result is initialised', eq(v, 1, 8))
                f.ensures(o, 'size of the result', eq(sv.n, x.lo))
                f.forall(o, 'bytewise xor', x.lo, lambda k: eq(sv.arr.sel(k), Z(x.a.sel(k), 8) ^ Z(y.a.sel(k), 8), 8))
            else:
                f.throws_error(o, 'throws uninitialised', 'CommonErrors', UNI)
                f.ensures(o, 'throws only for uninitialised operands', Not(both))
        f.reachable('returns', f.rets())
        f.reachable('throws', f.throws())
    chk.fn('operator^(BoundedString<5,5,std::string>)', m, 'fs_xor', lambda f: xor(f, 'fs'))
    chk.fn('operator^(Identity)', m, 'id_xor', lambda f: xor(f, 'id'))
