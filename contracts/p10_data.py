"""P10 data types: NameAndTypeId, ImmutableData, MutableData"""
from vp.contract import *

TITLE = 'data types'
D = 'src/maidsafe/common/'
REPLAY = {'driver': 'p10.cc', 'sources': [D + 'data_types/data.cc', D + 'data_types/immutable_data.cc', D + 'data_types/mutable_data.cc', D + 'encode.cc', D + 'error.cc', D + 'error_categories.cc'],
          'libs': ['-lcryptopp', '-lboost_system', '-lboost_thread', '-lpthread'], 'seconds': 12}
SRC = ['h_data.cc', D + 'data_types/data.cc', D + 'data_types/immutable_data.cc', D + 'data_types/mutable_data.cc']
V, E = 'Vec', 'unsigned char'


class Part:
    """a BoundedString inside an object: (string, initialised flag), with the invariant of property P05"""

    def __init__(self, f, p, off_s, off_v, lo, hi, name, init=None):
        self.f, self.p, self.off_s, self.off_v, self.lo, self.hi, self.name = f, p, off_s, off_v, lo, hi, name
        n = None
        if lo == hi and init is not None:
            n = lo if init else 0
        self.n, self.a = f.seq(name, 8, n=n)
        self.v = f.bv(name + '.valid', 8)
        f.requires(ule(self.v, 1, 8))
        f.requires(Ite(self.valid(), And(ule(lo, self.n), ule(self.n, hi)), eq(self.n, 0), 1))
        self.put(f.st)

    def put(self, st):
        self.f.ex.put_abs(st, self.p.plus(self.off_s), lib_std.mk(V, E, self.n, self.a))
        self.f.ex.store(st, self.p.plus(self.off_v), 1, self.v)

    def valid(self):
        return eq(self.v, 1, 8)


def get(f, o, p, off_s, off_v):
    return f.ex.get_abs(o.st, p.plus(off_s)), f.ex.load(o.st, p.plus(off_v), 1)


def sha(chk_lay):
    """contract of crypto::Hash<SHA512>(vector): a 64-byte digest that depends on the bytes only"""
    def h(ex, st, c):
        sret, src = c.args
        sv = ex.get_abs(st, src)
        calls = st.ghost.get('sha', ())
        d = None
        for n, a, dg in calls:
            if a is sv.arr and eq(n, sv.n) is True:
                d = dg
        if d is None:
            d = Base('sha512.%d' % len(calls), 8)
            st.ghost['sha'] = calls + ((sv.n, sv.arr, d),)
        ex.put_abs(st, sret.plus(chk_lay['id'][0]), lib_std.mk(V, E, 64, d))
        ex.store(st, sret.plus(chk_lay['id'][1]), 1, 1)
    return h


def same_seq(f, o, name, sv, n, a):
    f.ensures(o, name + ': length', eq(sv.n, n))
    f.forall(o, name + ': contents', n, lambda k: eq(sv.arr.sel(k), a.sel(k), 8))


def contracts(chk):
    m = chk.ir(SRC)
    UNI = enum_code('CommonErrors', 'uninitialised')
    PARSE = enum_code('CommonErrors', 'parsing_error')

    def num(fn):
        ex = Exec(m)
        lib_std.install(ex)
        st = State()
        return S(ex.call(st, fn, [] if fn.endswith('_size') else [ex.alloc(st, 256, 'probe')])[0].val)
    lay = {'id': (num('id_off_string'), num('id_off_valid'), num('id_size')),
           'nt': (num('nt_off_name'), num('nt_off_type'), num('nt_size'))}
    for t in ('im', 'mu'):
        lay[t] = tuple(num('%s_%s' % (t, x)) for x in ('off_name_s', 'off_name_v', 'off_value_s', 'off_value_v', 'size'))

    def setup(f):
        f.ex.add_handler(r'^cereal::base_class_detail::RegisterPolymorphicBaseClass<.*>::bind\(\)$', lambda ex, st, c: None, "cereal's registration of polymorphic casts (no effect on the objects)")
        f.ex.add_handler(r'^maidsafe::detail::BoundedString<CryptoPP::SHA512::DIGESTSIZE, .*> maidsafe::crypto::Hash<CryptoPP::SHA512, std::vector<.*>>\(std::vector<.*> const&\)$', sha(lay),
                         'crypto::Hash<SHA512> of a byte vector: a 64-byte digest that depends on the bytes only (property P26)')

    class Obj:
        def __init__(self, f, t, name, raw=False):
            self.f, self.lay = f, lay[t]
            self.p = f.ex.alloc(f.st, self.lay[4], name)
            if raw:
                return
            o, = f.ex.call(f.st, t + '_default', [self.p])
            f.st = o.st
            self.nm = Part(f, self.p, self.lay[0], self.lay[1], 64, 64, name + '.name')
            self.vl = Part(f, self.p, self.lay[2], self.lay[3], 1, MAXU, name + '.value')
            # the invariant that every constructor, assignment and load establishes
            f.requires(Iff(self.nm.valid(), self.vl.valid()))

        def get(self, o):
            return get(self.f, o, self.p, self.lay[0], self.lay[1]) + get(self.f, o, self.p, self.lay[2], self.lay[3])

        def holds(self, o, what, nm, vl):
            n, nv, v, vv = self.get(o)
            self.f.ensures(o, what + ': name flag', eq(nv, nm.v, 8))
            same_seq(self.f, o, what + ': name', n, nm.n, nm.a)
            self.f.ensures(o, what + ': value flag', eq(vv, vl.v, 8))
            same_seq(self.f, o, what + ': value', v, vl.n, vl.a)

        def inv(self, o, what):
            n, nv, v, vv = self.get(o)
            self.f.ensures(o, what + ': name and value are initialised together', Iff(eq(nv, 1, 8), eq(vv, 1, 8)))
            self.f.ensures(o, what + ': an initialised name has 64 bytes', Implies(eq(nv, 1, 8), eq(n.n, 64)))
            self.f.ensures(o, what + ': an initialised value is not empty', Implies(eq(vv, 1, 8), ule(1, v.n)))

    def hashed(f, o, name, sv, nm):
        """nm == SHA512(sv), by the recorded call"""
        for n, a, dg in o.st.ghost.get('sha', ()):
            if f.ex.prove(o.st, eq(n, sv.n))[0] == 'proved' and (a is sv.arr or same(f, o, sv, n, a)):
                same_seq(f, o, name, nm, 64, dg)
                return
        f.ensures(o, name + ': the value was hashed', False)

    def same(f, o, sv, n, a):
        st = o.st.fork()
        k = fresh_bv('k', 64)
        f.ex.assume(st, ult(k, n))
        return f.ex.prove(st, eq(sv.arr.sel(k), a.sel(k), 8), extra_terms=[k])[0] == 'proved'

    # ---------------------------------------------------------------- ImmutableData, MutableData
    def im_ctor(f):
        setup(f)
        x = Obj(f, 'im', 'this', True)
        p = f.ex.alloc(f.st, lay['id'][2], 'v')
        v = Part(f, p, lay['id'][0], lay['id'][1], 1, MAXU, 'value')
        for o in f.run(x.p, p):
            if o.kind == 'ret':
                f.ensures(o, 'an uninitialised value is rejected', v.valid())
                x.inv(o, 'object')
                n, nv, vv, vf = x.get(o)
                f.ensures(o, 'is initialised', And(eq(nv, 1, 8), eq(vf, 1, 8)))
                same_seq(f, o, 'holds the given value', vv, v.n, v.a)
                hashed(f, o, 'the name is the SHA-512 of the value', vv, n)
            else:
                f.throws_error(o, 'throws uninitialised', 'CommonErrors', UNI)
                f.ensures(o, 'throws only for an uninitialised value', Not(v.valid()))
        f.reachable('returns', f.rets())
        f.reachable('throws', f.throws())
    chk.fn('ImmutableData(NonEmptyString)', m, 'im_ctor', im_ctor)

    def mu_ctor(f):
        setup(f)
        x = Obj(f, 'mu', 'this', True)
        p, q = f.ex.alloc(f.st, lay['id'][2], 'n'), f.ex.alloc(f.st, lay['id'][2], 'v')
        n = Part(f, p, lay['id'][0], lay['id'][1], 64, 64, 'name')
        v = Part(f, q, lay['id'][0], lay['id'][1], 1, MAXU, 'value')
        ok = And(n.valid(), v.valid())
        for o in f.run(x.p, p, q):
            if o.kind == 'ret':
                f.ensures(o, 'an uninitialised name or value is rejected', ok)
                x.inv(o, 'object')
                x.holds(o, 'holds the given name and value', n, v)
            else:
                f.throws_error(o, 'throws uninitialised', 'CommonErrors', UNI)
                f.ensures(o, 'throws only for an uninitialised name or value', Not(ok))
        f.reachable('returns', f.rets())
        f.reachable('throws', f.throws())
    chk.fn('MutableData(Identity, NonEmptyString)', m, 'mu_ctor', mu_ctor)

    for t, nm, tid in (('im', 'ImmutableData', 0), ('mu', 'MutableData', 1)):
        def default(f, t=t):
            x = Obj(f, t, 'this', True)
            for o in f.run(x.p):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                n, nv, v, vv = x.get(o)
                f.ensures(o, 'is not initialised', And(eq(nv, 0, 8), eq(vv, 0, 8), eq(n.n, 0), eq(v.n, 0)))
        chk.fn(nm + '()', m, t + '_default', default)

        def cm(f, kind, t=t):
            src = Obj(f, t, 'source')
            dst = Obj(f, t, 'this', kind in ('copy', 'move'))
            for o in f.run(dst.p, src.p):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                dst.inv(o, 'object')
                dst.holds(o, 'holds the name and value of the source', src.nm, src.vl)
                if kind in ('copy', 'assign'):
                    src.holds(o, 'source unchanged', src.nm, src.vl)
                else:
                    src.inv(o, 'moved-from source')
            f.reachable('returns', f.rets())
        for k, w in (('copy', '%s(const %s&)'), ('move', '%s(%s&&)'), ('assign', '%s::operator=(const %s&)'), ('massign', '%s::operator=(%s&&)')):
            chk.fn(w % (nm, nm), m, '%s_%s' % (t, k), lambda f, k=k, g=cm: g(f, k))

        def selfa(f, t=t):
            x = Obj(f, t, 'this')
            for o in f.run(x.p, x.p):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                x.holds(o, 'unchanged', x.nm, x.vl)
        chk.fn(nm + ' self assignment', m, t + '_assign', selfa)

        def acc(f, which, t=t, tid=tid):
            x = Obj(f, t, 'this')
            args = [x.p]
            if which == 'nt':
                q = f.ex.alloc(f.st, lay['nt'][2], 'result')
                args = [q, x.p]
            for o in f.run(*args):
                x.holds(o, 'unchanged', x.nm, x.vl)
                if which == 'init':
                    f.ensures(o, 'does not throw', o.kind == 'ret')
                    f.ensures(o, 'tells whether there is a name', eq(o.val, x.nm.valid(), 1))
                    continue
                if o.kind != 'ret':
                    f.throws_error(o, 'throws uninitialised', 'CommonErrors', UNI)
                    f.ensures(o, 'throws only when uninitialised', Not(x.nm.valid()))
                    continue
                f.ensures(o, 'throws when uninitialised', x.nm.valid())
                if which in ('value', 'name'):
                    off = x.lay[0 if which == 'name' else 2] - lay['id'][0]
                    f.ensures(o, 'is the held ' + which, isinstance(o.val, Ptr) and o.val.o == x.p.o and is_c(S(sub(o.val.off, x.p.off))) and S(sub(o.val.off, x.p.off)) == off)
                elif which == 'typeid':
                    f.ensures(o, 'is the type id of the class', eq(o.val, tid, 32))
                else:
                    n, nv = get(f, o, q, lay['nt'][0] + lay['id'][0], lay['nt'][0] + lay['id'][1])
                    f.ensures(o, 'has a name', eq(nv, 1, 8))
                    same_seq(f, o, 'the held name', n, 64, x.nm.a)
                    f.ensures(o, 'the type id of the class', eq(f.ex.load(o.st, q.plus(lay['nt'][1]), 4), tid, 32))
            f.reachable('returns', f.rets())
            if which != 'init':
                f.reachable('throws', f.throws())
        for w in ('init', 'value', 'name', 'typeid', 'nt'):
            chk.fn('%s::%s' % (nm, {'init': 'IsInitialised', 'value': 'Value', 'name': 'Name', 'typeid': 'TypeId', 'nt': 'NameAndType'}[w]), m, '%s_%s' % (t, w), lambda f, w=w, g=acc: g(f, w))

        def save(f, t=t):
            setup(f)
            x = Obj(f, t, 'this')
            qn, qv = f.out_vec('an'), f.out_vec('av')
            for o in f.run(x.p, qn, qv):
                x.holds(o, 'unchanged', x.nm, x.vl)
                if o.kind != 'ret':
                    f.throws_error(o, 'throws uninitialised', 'CommonErrors', UNI)
                    f.ensures(o, 'throws only when uninitialised', Not(x.nm.valid()))
                    continue
                f.ensures(o, 'throws when uninitialised', x.nm.valid())
                f.ensures(o, 'the name first, then the value', eq(o.val, 12, 32))
                same_seq(f, o, 'archives the name', f.abs(o, qn), x.nm.n, x.nm.a)
                same_seq(f, o, 'archives the value', f.abs(o, qv), x.vl.n, x.vl.a)
            f.reachable('returns', f.rets())
            f.reachable('throws', f.throws())
        chk.fn(nm + '::save', m, t + '_save', save)

        def load(f, t=t):
            setup(f)
            x = Obj(f, t, 'this')
            pn, nn, na = f.vec('archive.name')
            pv, vn, va = f.vec('archive.value')
            f1, f2 = f.bv('fail.name', 8), f.bv('fail.value', 8)
            f.requires(And(ule(f1, 1, 8), ule(f2, 1, 8)))
            good = And(eq(f1, 0, 8), eq(f2, 0, 8), eq(nn, 64), ule(1, vn))
            for o in f.run(x.p, pn, pv, eq(f1, 1, 8), eq(f2, 1, 8)):
                if o.kind == 'ret':
                    f.ensures(o, 'an archive that fails, or holds no 64-byte name or an empty value, is rejected', good)
                    x.inv(o, 'object')
                    n, nv, v, vv = x.get(o)
                    f.ensures(o, 'is initialised', And(eq(nv, 1, 8), eq(vv, 1, 8)))
                    same_seq(f, o, 'holds the archived name', n, 64, na)
                    same_seq(f, o, 'holds the archived value', v, vn, va)
                    if t == 'im':
                        hashed(f, o, 'the name is the SHA-512 of the value', v, n)
                else:
                    f.throws_error(o, 'throws parsing_error', 'CommonErrors', PARSE)
                    if t == 'mu':
                        f.ensures(o, 'throws only for a bad archive', Not(good))
                    else:
                        hs = [(n, a, dg) for n, a, dg in o.st.ghost.get('sha', ())]
                        k = fresh_bv('k', 64)
                        st = o.st.fork()
                        f.ex.assume(st, good)
                        if not hs:
                            f.ex.oblige(st, 'throws only for a bad archive or a name that is not the hash of the value', False)
                        for n, a, dg in hs:
                            # were the name the hash, there would be no reason to throw
                            s2 = st.fork()
                            for i in range(64):
                                f.ex.assume(s2, eq(na.sel(i), dg.sel(i), 8))
                            f.ex.oblige(s2, 'throws only for a bad archive or a name that is not the hash of the value', False)
            f.reachable('returns', f.rets())
            f.reachable('throws', f.throws())
        chk.fn(nm + '::load', m, t + '_load', load)

    # ---------------------------------------------------------------- NameAndTypeId
    class NT:
        def __init__(self, f, name, raw=False):
            self.f = f
            self.p = f.ex.alloc(f.st, lay['nt'][2], name)
            if raw:
                return
            self.nm = Part(f, self.p, lay['nt'][0] + lay['id'][0], lay['nt'][0] + lay['id'][1], 64, 64, name + '.name')
            self.t = f.bv(name + '.type', 32)
            f.ex.store(f.st, self.p.plus(lay['nt'][1]), 4, self.t)

        def get(self, o):
            return get(self.f, o, self.p, lay['nt'][0] + lay['id'][0], lay['nt'][0] + lay['id'][1]) + (self.f.ex.load(o.st, self.p.plus(lay['nt'][1]), 4),)

        def holds(self, o, what, nm, t):
            n, nv, ty = self.get(o)
            self.f.ensures(o, what + ': name flag', eq(nv, nm.v, 8))
            same_seq(self.f, o, what + ': name', n, nm.n, nm.a)
            self.f.ensures(o, what + ': type', eq(ty, t, 32))

    def nt_ctor(f):
        x = NT(f, 'this', True)
        p = f.ex.alloc(f.st, lay['id'][2], 'n')
        n = Part(f, p, lay['id'][0], lay['id'][1], 64, 64, 'name')
        t = f.bv('type', 32)
        for o in f.run(x.p, p, t):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            x.holds(o, 'holds the given name and type', n, t)
        f.reachable('returns', f.rets())
    chk.fn('NameAndTypeId(Identity, DataTypeId)', m, 'nt_ctor', nt_ctor)

    def nt_default(f):
        x = NT(f, 'this', True)
        for o in f.run(x.p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            n, nv, t = x.get(o)
            f.ensures(o, 'has no name and the largest type id', And(eq(nv, 0, 8), eq(n.n, 0), eq(t, mask(32), 32)))
    chk.fn('NameAndTypeId()', m, 'nt_default', nt_default)

    def nt_cm(f, kind):
        src = NT(f, 'source')
        dst = src if kind == 'self' else NT(f, 'this', kind in ('copy', 'move'))
        for o in f.run(dst.p, src.p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            dst.holds(o, 'holds the name and type of the source', src.nm, src.t)
            if kind in ('copy', 'assign'):
                src.holds(o, 'source unchanged', src.nm, src.t)
        f.reachable('returns', f.rets())
    for k in ('copy', 'move', 'assign', 'massign'):
        chk.fn('NameAndTypeId ' + k, m, 'nt_' + k, lambda f, k=k: nt_cm(f, k))
    chk.fn('NameAndTypeId self assignment', m, 'nt_assign', lambda f: nt_cm(f, 'self'))

    def nt_rel(f, op):
        x, y = NT(f, 'a'), NT(f, 'b')
        for o in f.run(x.p, y.p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            p = fresh_bv('p', 64)      # the first byte at which the names differ, 64 if none
            st = o.st.fork()
            st.foralls.append(Forall(p, lambda j: [eq(x.nm.a.sel(j), y.nm.a.sel(j), 8)], 'common prefix'))
            both, none = And(x.nm.valid(), y.nm.valid()), And(Not(x.nm.valid()), Not(y.nm.valid()))
            diff = And(both, ult(p, 64), Not(eq(x.nm.a.sel(p), y.nm.a.sel(p), 8)))
            eqn = Or(none, And(both, eq(p, 64)))
            f.ex.assume(st, Or(diff, eqn, Not(Iff(x.nm.valid(), y.nm.valid()))))
            nlt = Or(And(Not(x.nm.valid()), y.nm.valid()), And(diff, ult(x.nm.a.sel(p), y.nm.a.sel(p), 8)))
            lt = Or(nlt, And(eqn, ult(x.t, y.t, 32)))
            same = And(eqn, eq(x.t, y.t, 32))
            gt = And(Not(lt), Not(same))
            w = {'eq': same, 'ne': Not(same), 'lt': lt, 'gt': gt, 'le': Not(gt), 'ge': Not(lt)}[op]
            f.ex.oblige(st, 'compares the names, then the types', eq(o.val, w, 1), extra_terms=[p])
        f.reachable('returns', f.rets())
    for op in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
        chk.fn('NameAndTypeId operator ' + op, m, 'nt_' + op, lambda f, op=op: nt_rel(f, op))

    def nt_save(f):
        x = NT(f, 'this')
        q = f.out_vec('an')
        pt = f.ex.alloc(f.st, 4, 'type')
        for o in f.run(x.p, q, pt):
            if o.kind != 'ret':
                f.throws_error(o, 'throws uninitialised', 'CommonErrors', UNI)
                f.ensures(o, 'throws only without a name', Not(x.nm.valid()))
                continue
            f.ensures(o, 'throws without a name', x.nm.valid())
            f.ensures(o, 'the name first, then the type', eq(o.val, 13, 32))
            same_seq(f, o, 'archives the name', f.abs(o, q), 64, x.nm.a)
            f.ensures(o, 'archives the type', eq(f.ex.load(o.st, pt, 4), x.t, 32))
        f.reachable('returns', f.rets())
    chk.fn('NameAndTypeId::serialize (saving)', m, 'nt_save', nt_save)

    def nt_load(f):
        x = NT(f, 'this')
        pn, nn, na = f.vec('archive.name')
        fl, t = f.bv('fail', 8), f.bv('type', 32)
        f.requires(ule(fl, 1, 8))
        good = And(eq(fl, 0, 8), eq(nn, 64))
        for o in f.run(x.p, pn, eq(fl, 1, 8), t):
            if o.kind != 'ret':
                f.throws_error(o, 'throws parsing_error', 'CommonErrors', PARSE)
                f.ensures(o, 'throws only for a bad name', Not(good))
                continue
            f.ensures(o, 'a bad name is rejected', good)
            n, nv, ty = x.get(o)
            f.ensures(o, 'is initialised', eq(nv, 1, 8))
            same_seq(f, o, 'holds the archived name', n, 64, na)
            f.ensures(o, 'holds the archived type', eq(ty, t, 32))
        f.reachable('returns', f.rets())
    chk.fn('NameAndTypeId::serialize (loading)', m, 'nt_load', nt_load)


MAXU = (1 << 64) - 1


def Iff(a, b):
    return And(Implies(a, b), Implies(b, a))
