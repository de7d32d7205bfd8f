"""P06 TaggedValue: a strong typedef over its value"""
from vp.contract import *

TITLE = 'tagged values'
REPLAY = {'driver': 'p06.cc', 'sources': [], 'libs': [], 'seconds': 8}


class TI:
    """an integer value type of w bits"""
    def __init__(self, w, signed):
        self.w, self.signed = w, signed

    def make(self, f, name):
        p = f.ex.alloc(f.st, self.w // 8, name)
        v = f.bv(name, self.w)
        f.ex.store(f.st, p, self.w // 8, v)
        return p, v

    def raw(self, f, name):
        return f.ex.alloc(f.st, self.w // 8, name)

    def get(self, f, o, p):
        return f.ex.load(o.st, p, self.w // 8)

    def same(self, f, o, name, x, y):
        f.ensures(o, name, eq(x, y, self.w))

    def zero(self, f, o, name, x):
        pass               # a defaulted constructor leaves integers indeterminate

    def rel(self, f, o, op, r, x, y):
        a, b = Z(x, self.w), Z(y, self.w)
        lt = (a < b) if self.signed else z3.ULT(a, b)
        gt = (b < a) if self.signed else z3.ULT(b, a)
        w = {'eq': a == b, 'ne': a != b, 'lt': lt, 'gt': gt, 'le': z3.Not(gt), 'ge': z3.Not(lt)}[op]
        f.ensures(o, 'operator %s is that of the values' % op, eq(r, w, 1))


class TS:
    def __init__(self, kind, elem):
        self.kind, self.elem = kind, elem

    def make(self, f, name):
        p, n, a = f.string(name, self.kind, self.elem)
        return p, (n, a)

    def raw(self, f, name):
        return f.ex.alloc(f.st, 32 if self.kind == 'Str' else 24, name)

    def get(self, f, o, p):
        v = f.abs(o, p)
        return (v.n, v.arr)

    def same(self, f, o, name, x, y):
        f.ensures(o, name + ' (size)', eq(x[0], y[0]))
        f.forall(o, name + ' (contents)', y[0], lambda k: eq(x[1].sel(k), y[1].sel(k), 8))

    def zero(self, f, o, name, x):
        f.ensures(o, name, eq(x[0], 0))

    def rel(self, f, o, op, r, x, y):
        # p: the first position where the two differ
        p = fresh_bv('p', 64)
        st = o.st.fork()
        f.ex.assume(st, And(ule(p, x[0]), ule(p, y[0])))
        st.foralls.append(Forall(p, lambda j: [eq(x[1].sel(j), y[1].sel(j), 8)], 'common prefix'))
        f.ex.assume(st, Or(eq(p, x[0]), eq(p, y[0]), Not(eq(x[1].sel(p), y[1].sel(p), 8))))
        inx, iny = ult(p, x[0]), ult(p, y[0])
        same = And(Not(inx), Not(iny))
        lt = Or(And(Not(inx), iny), And(inx, iny, ult(x[1].sel(p), y[1].sel(p), 8)))
        gt = And(Not(same), Not(lt))
        w = {'eq': same, 'ne': Not(same), 'lt': lt, 'gt': gt, 'le': Not(gt), 'ge': Not(lt)}[op]
        f.ex.oblige(st, 'operator %s is that of the values' % op, eq(r, w, 1), extra_terms=[p])


def contracts(chk):
    m = chk.ir(['h_misc.cc', 'src/maidsafe/common/encode.cc', 'src/maidsafe/common/clock.cc'])
    for pre, nm, T in (('tu', 'uint32_t', TI(32, False)), ('ti', 'long', TI(64, True)), ('ts', 'std::string', TS('Str', 'char')), ('tv', 'std::vector<byte>', TS('Vec', 'unsigned char'))):
        def construct(kind, T=T):
            def b(f):
                q = T.raw(f, 'object')
                p, v = T.make(f, 'value')
                for o in f.run(*([q] if kind == 'default' else [q, p])):
                    f.ensures(o, 'does not throw', o.kind == 'ret')
                    if kind == 'default':
                        if isinstance(T, TS):
                            T.zero(f, o, 'holds the default value', T.get(f, o, q))
                        continue
                    T.same(f, o, 'holds the given value', T.get(f, o, q), v)
                    if kind != 'move':
                        T.same(f, o, 'source unchanged', T.get(f, o, p), v)
                f.reachable('returns', f.rets())
            return b
        for kind in ('default', 'ctor', 'copy', 'move', 'conv'):
            chk.fn('TaggedValue<%s> %s' % (nm, kind), m, '%s_%s' % (pre, kind), construct(kind))

        def assign(kind, same, T=T):
            def b(f):
                p, v = T.make(f, 'lhs')
                q, w = (p, v) if same else T.make(f, 'rhs')
                for o in f.run(p, q):
                    f.ensures(o, 'does not throw', o.kind == 'ret')
                    T.same(f, o, 'holds the assigned value', T.get(f, o, p), w)
                    if kind != 'massign':
                        T.same(f, o, 'source unchanged', T.get(f, o, q), w)
                f.reachable('returns', f.rets())
            return b
        for kind in ('assign', 'massign'):
            chk.fn('TaggedValue<%s> %s' % (nm, kind), m, '%s_%s' % (pre, kind), assign(kind, False))
        chk.fn('TaggedValue<%s> self-assignment' % nm, m, pre + '_assign', assign('assign', True))
        if isinstance(T, TI):
            chk.fn('TaggedValue<%s> self-move-assignment' % nm, m, pre + '_massign', assign('massign', True))

        def arrow(f, T=T):
            p, v = T.make(f, 'object')
            for o in f.run(p):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                f.ensures(o, 'points at the value', isinstance(o.val, Ptr) and o.val.o == p.o and is_c(o.val.off) and o.val.off == 0)
                T.same(f, o, 'which is unchanged', T.get(f, o, p), v)
        chk.fn('TaggedValue<%s> operator-> const' % nm, m, pre + '_arrow', arrow)
        chk.fn('TaggedValue<%s> operator->' % nm, m, pre + '_marrow', arrow)
        for op in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
            def rel(f, op=op, T=T):
                p, x = T.make(f, 'a')
                q, y = T.make(f, 'b')
                for o in f.run(p, q):
                    f.ensures(o, 'does not throw', o.kind == 'ret')
                    T.rel(f, o, op, o.val, x, y)
                f.reachable('returns', f.rets())
            chk.fn('TaggedValue<%s> operator %s' % (nm, op), m, '%s_%s' % (pre, op), rel)

    def ser(f):
        p, n, a = f.string('object')
        q, k, b = f.string('archive')
        for o in f.run(p, q):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            x, y = f.abs(o, p), f.abs(o, q)
            f.seq_eq(o, 'loads what the archive held', x, k, lambda i: b.sel(i))
            f.seq_eq(o, 'saves the value', y, n, lambda i: a.sel(i))
        f.reachable('returns', f.rets())
    chk.fn('TaggedValue<std::string> serialize', m, 'ts_ser', ser)
