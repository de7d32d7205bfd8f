"""Verification-condition generator: symbolic execution of the LLVM IR of /repo's functions.

* every path condition / obligation is a quantifier-free bit-vector formula (universal facts about
  earlier loop iterations are kept as instantiable lemmas);
* calls are replaced by contracts when one is registered, otherwise the callee's own IR is executed;
* loops whose trip count is not decided concretely are summarised by a closed-form invariant that is
  inferred, then *checked* (initiation and consecution are obligations), see loops.py;
* memory accesses, divisions, shifts and signed arithmetic carry safety obligations.
"""
import heapq
import os
import re
import sys
import random
import time
import z3
from .terms import *
from .ir import *
from .mem import *

sys.setrecursionlimit(20000)

CMP = {
    'eq': lambda a, b, w: eq(a, b, w),
    'ult': ult,
    'ule': ule,
    'ugt': lambda a, b, w: ult(b, a, w),
    'uge': lambda a, b, w: ule(b, a, w),
    'slt': lambda a, b, w: (sgn(a, w) < sgn(b, w)) if is_c(a) and is_c(b) else Z(a, w) < Z(b, w),
    'sle': lambda a, b, w: (sgn(a, w) <= sgn(b, w)) if is_c(a) and is_c(b) else Z(a, w) <= Z(b, w),
    'sgt': lambda a, b, w: (sgn(a, w) > sgn(b, w)) if is_c(a) and is_c(b) else Z(a, w) > Z(b, w),
    'sge': lambda a, b, w: (sgn(a, w) >= sgn(b, w)) if is_c(a) and is_c(b) else Z(a, w) >= Z(b, w),
}


class State:
    _ids = [0]

    def __init__(self):
        State._ids[0] += 1
        self.id = State._ids[0]
        self.pc = []
        self.mem = {}
        self.ghost = {}
        self.foralls = []
        self.exc = None
        self.caught = []
        self.decisions = 0

    def fork(self):
        s = State.__new__(State)
        State._ids[0] += 1
        s.id = State._ids[0]
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.ghost = dict(self.ghost)
        s.foralls = list(self.foralls)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.decisions = self.decisions
        # both states must now copy objects before writing
        State._ids[0] += 1
        self.id = State._ids[0]
        return s

    def wobj(self, oid):
        o = self.mem.get(oid)
        if o is None:
            raise Unsupported('access to unknown object %r' % (oid,))
        if o.owner != self.id:
            o = o.clone(self.id)
            self.mem[oid] = o
        return o


class Outcome:
    __slots__ = ('st', 'kind', 'val')

    def __init__(self, st, kind='ret', val=None):
        self.st = st
        self.kind = kind
        self.val = val


class ObligationFailed(Exception):
    pass


class Forall:
    """for all m < n: fn(m) (list of Bools)"""
    __slots__ = ('n', 'fn', 'name')

    def __init__(self, n, fn, name=''):
        self.n = n
        self.fn = fn
        self.name = name

    def inst(self, m):
        return And(self.fn(m)) if self.n is None else Implies(ult(m, self.n), And(self.fn(m)))


class Ob:
    __slots__ = ('name', 'status', 'time', 'model', 'where', 'backend', 'detail')


class Budget(Exception):
    pass


class Exec:
    def __init__(self, module, opts=None):
        self.m = module
        self.handlers = []       # (regex, fn)
        self.hcache = {}
        self.contracts = {}      # demangled-name regex -> fn
        self.obs = []            # obligations
        self.opts = opts or {}
        self.next_obj = 1
        self.globals = {}
        self.solver_time = 0.0
        self.queries = 0
        self.fn_stack = []
        self.functions = {}      # executed function -> count
        self.trusted = set()     # library contracts used
        self.loop_report = []
        self.timeout = self.opts.get('timeout', 40000)
        self.loop_invs = []      # property-supplied loop invariants: fn(state) -> formula, or None
        self.on_access = None    # called before every access to memory
        self.hints = []          # property-supplied index terms for instantiation
        self.streams = []        # property-supplied recurrences, for loops
        self.purify = Purify()
        self.prefer = []         # soft constraints for small counterexamples
        self.closed_tables = {}  # global name regex -> fn(i)
        self.path_budget = self.opts.get('paths', 6000)
        self.paths = 0
        self.deadline = None
        self.muted = 0
        self.repo_prefix = "/repo/"
        self.unroll_cap = self.opts.get('unroll', 130)
        self.live_cache = {}
        self.allow_uninit = True
        self.merge = True
        self.fcache = {}
        self.attempt = 0

    # ------------------------------------------------------------ solver
    def _solve(self, fs, timeout=None):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted')
        out = []
        axs = set()
        for f in fs:
            f = B(f)
            if not isinstance(f, bool):
                f, ax = self.purify.walk(f)
                axs |= ax
            out.append(f)
        seen = set()
        for a in sorted(axs, key=lambda x: x.get_id()):
            if a.get_id() not in seen:
                seen.add(a.get_id())
                out.append(a)
        timeout = timeout or self.timeout
        t = time.time()
        plan = [('uf', 0, 1500), ('bb', 0, 8000), ('bb', 1, 12000), ('bb', 2, 20000), ('uf', 0, 20000), ('bb', 3, 60000)]
        if self.attempt:        # another try at an undecided contract: other seeds, more time
            plan = [('uf', 0, 1500)] + [('bb', 10 * self.attempt + i, 15000) for i in range(4)] + [('uf', self.attempt, 20000)]
            timeout = 2 * timeout
            random.Random(self.attempt).shuffle(out)
        left = timeout
        for kind, seed, to in plan:
            if left <= 0:
                break
            to = min(to, left)
            left -= to
            if kind == 'bb' and self.opts.get('fp'):
                continue
            if kind == 'uf':
                s = z3.SolverFor('QF_UFBV') if not self.opts.get('fp') else z3.Solver()
            else:
                s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'ackermannize_bv', 'simplify', 'bit-blast',
                            z3.With('sat', random_seed=seed) if seed else 'sat').solver()
            s.set('timeout', to)
            if kind == 'uf' and seed:
                s.set('random_seed', seed)
            for f in out:
                s.add(f)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.unknown:
                break
        dt = time.time() - t
        self.solver_time += dt
        self.queries += 1
        if dt > 2 and os.environ.get('VP_SLOW'):
            import traceback
            fr = [x for x in traceback.extract_stack()[-9:-1]]
            print('SLOW %.1fs %s %s' % (dt, r, ' < '.join('%s:%d' % (x.name, x.lineno) for x in reversed(fr))), file=sys.stderr)
            if os.environ['VP_SLOW'] != '1':
                open('%s/q%d.smt2' % (os.environ['VP_SLOW'], self.queries), 'w').write(s.sexpr() + '(check-sat)\n')
        return r, s

    def feasible(self, st, *extra):
        ex = [N(z3.simplify(B(e))) for e in extra]
        if any(e is False for e in ex):
            return False
        ex = [e for e in ex if e is not True]
        key = (tuple(sorted(x.get_id() if not isinstance(x, bool) else int(x) - 2 for x in st.pc)),
               tuple(x.get_id() for x in ex))
        c = self.fcache.get(key)
        if c is not None:
            return c[0]
        r, _ = self._solve(list(st.pc) + ex, 15000)
        res = r != z3.unsat
        self.fcache[key] = (res, list(st.pc), ex)
        return res

    def assume(self, st, c):
        c = N(c) if not isinstance(c, bool) else c
        if c is True:
            return
        st.pc.append(B(c))

    # index terms at which universal facts are instantiated
    def inst_terms(self, fs, extra=()):
        acc = {}
        seen = set()
        for f in fs:
            apps_of(f, lambda x: x.num_args() == 1 and x.arg(0).sort() == z3.BitVecSort(64), seen, acc)
        terms = {}
        for x in acc.values():
            a = z3.simplify(x.arg(0))
            terms[a.get_id()] = a
        for e in extra:
            e = z3.simplify(Z(e, 64))
            terms[e.get_id()] = e
        base = list(terms.values())
        out = dict(terms)
        for a in base:
            for d in self.opts.get('index_divs', (2, 3, 4, 8)):
                b = z3.simplify(z3.UDiv(a, z3.BitVecVal(d, 64)))
                out[b.get_id()] = b
        return list(out.values())

    def prove(self, st, goal, timeout=None, extra_terms=()):
        """returns (status, model): 'proved' | 'failed' | 'unknown'"""
        g0 = B(goal)
        goal = N(z3.simplify(g0))
        if goal is True or same_words(g0):
            return 'proved', None
        status, model, fs = self.prove1(st, goal, timeout, extra_terms)
        if status == 'failed' and self.prefer and not self.muted:
            r, s = self._solve(fs + [B(c) for c in self.prefer], 5000)
            if r == z3.sat:
                model = s.model()
        return status, model

    def prove1(self, st, goal, timeout, extra_terms):
        pc = list(st.pc)
        ng = z3.Not(B(goal))
        if not st.foralls:
            r, s = self._solve(pc + [ng], timeout)
            if r == z3.unsat:
                return 'proved', None, None
            if r == z3.sat:
                return 'failed', s.model(), pc + [ng]
            return 'unknown', None, None
        full = timeout or self.timeout
        model = None
        r, s = self._solve(pc + [ng], min(full, 3000))
        if r == z3.unsat:
            return 'proved', None, None
        if r == z3.sat:
            model = s.model()
        # instantiate universal facts: first at the given terms only, then at every index term
        insts = []
        done = set()
        given = {}
        for e in list(self.hints) + list(extra_terms):
            e = z3.simplify(Z(e, 64))
            given[e.get_id()] = e
        last = 0
        for rnd in range(self.opts.get("rounds", 3)):
            if rnd == 0:
                terms = list(given.values())
                if not terms:
                    continue
            else:
                terms = self.inst_terms([ng] + (pc if rnd > 1 else []) + insts, list(given.values()))
            new = []
            for fa in st.foralls:
                for t in terms:
                    k = (id(fa), t.get_id())
                    if k in done:
                        continue
                    done.add(k)
                    i = fa.inst(t)
                    if i is not True:
                        new.append(B(i))
            if not new and rnd > 1 and r == z3.sat:
                break
            if rnd > 1 and len(insts) + len(new) > 4000:
                break
            insts += new
            r, s = self._solve(pc + insts + [ng], min(full, 15000) if rnd == 0 else full)
            if r == z3.unsat:
                return 'proved', None, None
            if r == z3.sat:
                model = s.model()
        if r == z3.sat:
            return 'failed', model, pc + insts + [ng]
        return 'unknown', None, None

    def oblige(self, st, name, goal, detail=None, extra_terms=()):
        if self.muted:
            return True
        t = time.time()
        try:
            status, model = self.prove(st, goal, extra_terms=extra_terms)
        except z3.Z3Exception as e:
            status, model = 'unknown', None
        if status == 'unknown':
            r = self.second_backend(st, goal)
            if r:
                status = r
        o = Ob()
        o.name = name
        o.status = status
        o.time = time.time() - t
        o.model = model
        o.where = '/'.join(self.fn_stack[-3:])
        o.backend = 'z3'
        o.detail = detail
        if os.environ.get('VP_TRACE') and status != 'proved':
            print('OB', status, name, file=sys.stderr)
        if model is not None:
            o.detail = self.describe_model(st, model)
        self.obs.append(o)
        return status == 'proved'

    def second_backend(self, st, goal):
        return None

    def describe_model(self, st, model):
        try:
            out = {}
            for d in model.decls():
                n = d.name()
                if d.arity() == 0:
                    out[n] = str(model[d])
                elif d.arity() == 1:
                    out[n] = str(model[d])[:400]
            for k, f in st.ghost.get('inputs', {}).items():
                try:
                    out['input:' + k] = f(model)
                except Exception:
                    pass
            return out
        except Exception:
            return {}

    # ------------------------------------------------------------ objects
    def alloc(self, st, size, name='', ty=None, kind='heap'):
        oid = self.next_obj
        self.next_obj += 1
        o = MObj(size, name, ty=ty, kind=kind)
        o.owner = st.id
        if not is_c(size):
            o.ranges = [(0, size, Base('u.' + (name or 'heap')))]
        st.mem[oid] = o
        return Ptr(oid, 0)

    def global_ptr(self, st, name):
        if name in self.m.func_text or name in self.m.decls:
            return fptr(name)
        gi = self.m.global_info(name)
        if gi is None:
            raise Unsupported('unknown global ' + name)
        ty, init, const = gi
        if ty == 'alias':
            return self.const(st, init)
        oid = ('G', name)
        if oid not in st.mem:
            o = MObj(self.m.sizeof(ty) if self._sized(ty) else 8, name, ro=const, ty=ty, kind='global')
            o.owner = st.id
            st.mem[oid] = o
            if init is not None:
                self.init_global(st, o, 0, ty, init)
        return Ptr(oid, 0)

    def _sized(self, ty):
        try:
            self.m.sizeof(ty)
            return True
        except Unsupported:
            return False

    def init_global(self, st, o, off, ty, v):
        t = self.m.resolve(ty)
        k = v[0]
        if k == 'zero' or (k == 'undef'):
            sz = self.m.sizeof(ty)
            if t[0] in ('int',):
                o.cells[off] = (sz, 0)
            elif t[0] == 'ptr':
                o.cells[off] = (8, NULL)
            elif t[0] == 'struct':
                for i, f in enumerate(t[1]):
                    self.init_global(st, o, off + self.m.field_offset(t, i), f, ('zero', f))
            elif t[0] == 'arr':
                et = self.m.resolve(t[2])
                if et[0] == 'int':
                    o.ranges.append((off, sz, Const(0)))
                else:
                    es = self.m.sizeof(t[2])
                    for i in range(t[1]):
                        self.init_global(st, o, off + i * es, t[2], ('zero', t[2]))
            elif t[0] in ('float', 'double'):
                o.cells[off] = (sz, 0)
            return
        if k == 'bytes':
            tab = Table(list(v[1]))
            for rx, fn in self.closed_tables.items():
                if re.search(rx, o.name):
                    tab.closed = fn
            o.ranges.append((off, len(v[1]), tab))
            return
        if k == 'agg':
            if off == 0 and t[0] == 'struct' and self.m.sizeof(ty) >= 512:
                # clang splits a large table into a packed struct when parts of it are zero
                flat = self._flat(ty, v)
                if flat is not None:
                    tab = Table(flat)
                    for rx, fn in self.closed_tables.items():
                        if re.search(rx, o.name):
                            tab.closed = fn
                    o.ranges.append((0, len(flat), tab))
                    return
            if t[0] == 'struct':
                for i, (ft, fv) in enumerate(v[1]):
                    self.init_global(st, o, off + self.m.field_offset(t, i), ft, fv)
            else:
                es = self.m.sizeof(t[2])
                rt = self.m.resolve(t[2])
                if rt[0] == 'int':
                    bs = []
                    for (ft, fv) in v[1]:
                        x = fv[1] if fv[0] == 'int' else 0
                        bs += list((x & mask(es * 8)).to_bytes(es, 'little'))
                    tab = Table(bs)
                    o.ranges.append((off, len(bs), tab))
                    return
                # array of byte arrays: flatten
                flat = self._flat(t, v)
                if flat is not None:
                    tab = Table(flat)
                    for rx, fn in self.closed_tables.items():
                        if re.search(rx, o.name):
                            tab.closed = fn
                    o.ranges.append((off, len(flat), tab))
                    return
                for i, (ft, fv) in enumerate(v[1]):
                    self.init_global(st, o, off + i * es, ft, fv)
            return
        val = self.const(st, v)
        sz = self.m.sizeof(ty)
        if z3.is_bool(val) or isinstance(val, bool):
            val = zext(val, 1, 8)
        o.cells[off] = (sz, val)

    def _flat(self, t, v):
        rt = self.m.resolve(t)
        if rt[0] == 'arr':
            n = self.m.sizeof(t)
            if v[0] == 'zero':
                et = rt
                while et[0] == 'arr':
                    et = self.m.resolve(et[2])
                return [0] * n if et[0] == 'int' else None
            if v[0] == 'bytes':
                return list(v[1])
            if v[0] == 'agg':
                out = []
                for ft, fv in v[1]:
                    r = self._flat(ft, fv)
                    if r is None:
                        return None
                    out += r
                return out
            return None
        if rt[0] == 'struct':
            n = self.m.sizeof(t)
            out = [0] * n
            if v[0] == 'zero':
                v = ('agg', [(ft, ('zero', ft)) for ft in rt[1]])
            if v[0] != 'agg':
                return None
            for i, (ft, fv) in enumerate(v[1]):
                r = self._flat(ft, fv)
                if r is None:
                    return None
                o = self.m.field_offset(rt, i)
                out[o:o + len(r)] = r
            return out
        if rt[0] == 'int':
            if v[0] not in ('int', 'zero'):
                return None
            es = self.m.sizeof(t)
            x = v[1] if v[0] == 'int' else 0
            return list((x & mask(es * 8)).to_bytes(es, 'little'))
        return None

    # ------------------------------------------------------------ loads / stores
    def check_live(self, st, p, what):
        if not isinstance(p, Ptr):
            raise Unsupported('%s through a non-pointer %r' % (what, p))
        if self.on_access:
            self.on_access(self, st, p, what)
        if p.o == 0:
            self.oblige(st, '%s: pointer is not null' % self.site(what), False)
            raise PathEnd('null dereference')
        if isinstance(p.o, tuple) and p.o[0] == 'F':
            raise Unsupported('%s through function pointer' % what)

    def site(self, what):
        return '%s %s' % (self.cur_loc(), what)

    def cur_loc(self):
        fn = self.fn_stack[-1] if self.fn_stack else '?'
        dbg = getattr(self, 'cur_dbg', None)
        return '%s%s' % (short(self.m.demangled.get(fn, fn)), (':%d' % dbg[0]) if dbg else '')

    def strval(self, st, o):
        """the StrVal behind a ('S', objid, off) region"""
        _, oid, off = o
        ob = st.mem.get(oid)
        if ob is None:
            raise Unsupported('string object is gone')
        c = ob.cells.get(off)
        if c is None or not isinstance(c[1], StrVal):
            self.oblige(st, self.site('use of a destroyed or moved string buffer'), False)
            raise PathEnd('dangling string buffer')
        return c[1]

    def bounds(self, st, p, n, what):
        """obligation: [p, p+n) inside its object"""
        if isinstance(p.o, tuple) and p.o[0] == 'S':
            sv = self.strval(st, p.o)
            es = sv.w // 8
            size = mul(sv.n, es)
            if sv.nul and what == 'read':
                size = add(size, es)
        else:
            ob = st.mem.get(p.o)
            if ob is None:
                self.oblige(st, self.site(what + ' of a dead object'), False)
                raise PathEnd('use after free')
            size = ob.size
        if is_c(p.off) and is_c(size) and is_c(n):
            ok = p.off + n <= size
        else:
            o = p.off
            ok = And(ule(o, size), ule(n, sub(size, o)))
        if ok is True:
            return True
        r = self.oblige(st, self.site('%s in bounds' % what), ok)
        if ok is False:
            raise PathEnd('out of bounds')
        if not r:
            self.assume(st, ok)
        return True

    def split(self, v, n):
        """value -> list of n bytes (little endian)"""
        if is_c(v):
            return list((v & mask(8 * n)).to_bytes(n, 'little'))
        if isinstance(v, bool):
            return self.split(int(v), n)
        if z3.is_bool(v):
            v = zext(v, 1, 8 * n)
        if not z3.is_expr(v):
            raise Unsupported('bytes of %r' % (v,))
        if v.size() < 8 * n:
            v = z3.ZeroExt(8 * n - v.size(), v)
        if n == 1:
            return [v]
        return [N(z3.simplify(z3.Extract(8 * i + 7, 8 * i, v))) for i in range(n)]

    def join(self, bs):
        if all(is_c(b) for b in bs):
            return int.from_bytes(bytes(bs), 'little')
        if len(bs) == 1:
            return bs[0]
        r = z3.Concat(*[Z(b, 8) for b in reversed(bs)])
        return N(z3.simplify(r))

    def range_of(self, ob, off, n):
        for (s, l, a) in ob.ranges:
            if not is_c(l):
                return (s, l, a)
            if is_c(off) and s <= off and off + n <= s + l:
                return (s, l, a)
        return None

    def arrayify(self, st, p, ob):
        """turn (part of) a cell object into a byte array so that it can be indexed symbolically"""
        start, ln = 0, ob.size
        if ob.ty is not None and p.h is not None:
            r = self._arr_range(ob.ty, 0, p.h)
            if r:
                start, ln = r
        elif ob.ty is None:
            # heap object without a type: whole object if plain bytes
            pass
        o = st.wobj(p.o)
        base = Base('u.' + (o.name or 'mem'))
        arr = base
        # existing ranges inside
        keep = []
        for (s, l, a) in o.ranges:
            if s >= start and is_c(l) and s + l <= start + ln:
                arr = CopyR(arr, s - start, a, 0, l)
            else:
                keep.append((s, l, a))
        for off in sorted(list(o.cells)):
            sz, v = o.cells[off]
            if off + sz <= start or off >= start + ln:
                continue
            if off < start or off + sz > start + ln:
                raise Unsupported('arrayify: partial cell')
            if isinstance(v, Poison):
                del o.cells[off]
                continue
            if not (is_c(v) or z3.is_expr(v)):
                raise Unsupported('symbolic index into object holding %r' % (v,))
            for i, b in enumerate(self.split(v, sz)):
                arr = Store(arr, off - start + i, b)
            del o.cells[off]
        o.ranges = keep + [(start, ln, arr)]
        return o

    def _arr_range(self, ty, base, off):
        t = self.m.resolve(ty)
        if t[0] == 'arr':
            es = self.m.sizeof(t[2])
            et = self.m.resolve(t[2])
            if et[0] == 'int':
                return base, es * t[1]
            if et[0] == 'struct' and off - base < es * t[1]:
                i = (off - base) // es
                r = self._arr_range(t[2], base + i * es, off)
                return r or (base, es * t[1])
            if et[0] == 'arr':
                return base, es * t[1]
            return base, es * t[1]
        if t[0] == 'struct':
            for i, f in enumerate(t[1]):
                fo = base + self.m.field_offset(t, i)
                if fo <= off < fo + self.m.sizeof(f):
                    return self._arr_range(f, fo, off)
        return None

    def load_bytes_fn(self, st, p):
        """(FArr, start) giving the bytes of the object p points into"""
        if isinstance(p.o, tuple) and p.o[0] == 'S':
            sv = self.strval(st, p.o)
            if sv.w != 8:
                raise Unsupported('byte view of a non-byte vector')
            a = sv.arr
            if sv.nul:
                n = sv.n
                a = Lam(lambda k, a=a, n=n: self._nulsel(a, n, k))
            return a, 0
        ob = st.mem.get(p.o)
        if ob is None:
            raise Unsupported('dead object')
        r = self.range_of(ob, p.off, 0)
        if r is not None and (is_c(p.off) or True):
            # pick range containing concrete hint
            if is_c(p.off) or len(ob.ranges) == 1 and not ob.cells:
                return r[2], r[0]
        h = p.h
        if h is not None:
            for (s, l, a) in ob.ranges:
                if not is_c(l) or s <= h <= s + l:
                    return a, s
        ob = self.arrayify(st, p, ob)
        return ob.ranges[-1][2], ob.ranges[-1][0]

    def _nulsel(self, a, n, k):
        c = eq(k, n)
        c = S(c)
        if c is True:
            return 0
        if c is False:
            return a.sel(k)
        return Ite(c, 0, a.sel(k), 8)

    def load(self, st, p, n, ty=None):
        """load n bytes; result int/BV (or Ptr / AbsVal when such a cell is read)"""
        self.check_live(st, p, 'read')
        self.bounds(st, p, n, 'read')
        return self.load_nc(st, p, n, ty)

    def load_nc(self, st, p, n, ty=None):
        if isinstance(p.o, tuple) and p.o[0] == 'S':
            sv = self.strval(st, p.o)
            es = sv.w // 8
            if es == n:
                idx = self.elem_index_st(st, p.off, es)
                if idx is not None:
                    if sv.nul:
                        # reading the terminator
                        e = S(eq(idx, sv.n))
                        if e is True:
                            return 0
                        if e is False:
                            return N(sv.arr.sel(idx))
                        if sv.w == 8:
                            return self._maybe_nul(st, sv, idx)
                    return N(sv.arr.sel(idx))
            if es == 1:
                return self.join([self._maybe_nul(st, sv, S(add(p.off, i))) if sv.nul else N(sv.arr.sel(S(add(p.off, i)))) for i in range(n)])
            if es == n and not is_c(p.off) and not sv.nul:
                idx = self.elem_index_checked(st, p.off, es)
                if idx is not None:
                    return N(sv.arr.sel(idx))
            if is_c(n) and n < es or True:
                # general: via bytes
                bs = []
                for i in range(n):
                    o = S(add(p.off, i))
                    e = sv.arr.sel(S(udiv(o, es)))
                    r = S(urem(o, es))
                    if not is_c(r):
                        raise Unsupported('unaligned symbolic element access')
                    bs.append(N(z3.simplify(z3.Extract(8 * r + 7, 8 * r, Z(e, sv.w)))))
                return self.join(bs)
        ob = st.mem[p.o]
        if is_c(p.off):
            c = ob.cells.get(p.off)
            if c is not None and c[0] == n:
                v = c[1]
                if isinstance(v, Poison):
                    raise Unsupported('use of unmerged value: ' + v.why)
                return v
            if c is not None and n == 8 and hasattr(c[1], 'vptr'):
                return c[1].vptr(self, st)
            r = self.range_of(ob, p.off, n)
            if r is not None:
                s, l, a = r
                return self.join([N(a.sel(p.off - s + i)) for i in range(n)])
            # assemble from cells
            bs = []
            known = False
            for i in range(n):
                b = self.cell_byte(st, ob, p.off + i)
                if b is not None:
                    known = True
                bs.append(b)
            if not known:
                # uninitialised: arbitrary value, remembered
                v = fresh_bv('uninit.%s' % (ob.name or 'mem'), 8 * n)
                o = st.wobj(p.o)
                o.cells[p.off] = (n, v)
                return v
            o = None
            for i in range(n):
                if bs[i] is None:
                    v = fresh_bv('uninit.%s' % (ob.name or 'mem'), 8)
                    o = st.wobj(p.o)
                    o.cells[p.off + i] = (1, v)
                    bs[i] = v
            return self.join(bs)
        # symbolic offset
        a, s = self.load_bytes_fn(st, p)
        return self.join([N(a.sel(S(sub(add(p.off, i), s)))) for i in range(n)])

    def _maybe_nul(self, st, sv, idx):
        # in-bounds was already established; the terminator is only read when idx == n
        e = S(eq(idx, sv.n))
        if e is True:
            return 0
        if e is False:
            return N(sv.arr.sel(idx))
        if not self.feasible(st, e):
            return N(sv.arr.sel(idx))
        return Ite(e, 0, sv.arr.sel(idx), sv.w)

    def elem_index(self, off, es):
        if es == 1:
            return off
        if is_c(off):
            return off // es if off % es == 0 else None
        # off = es * x ?
        sh = es.bit_length() - 1
        if 1 << sh == es:
            low = z3.simplify(z3.Extract(sh - 1, 0, off))
            if z3.is_bv_value(low) and low.as_long() == 0:
                return N(z3.simplify(z3.LShR(off, sh)))
        return None

    def elem_index_st(self, st, off, es):
        """elem_index, without the truncation where the product cannot overflow"""
        r = self.elem_index(off, es)
        if es > 1 and not is_c(off) and not es & (es - 1) and z3.is_app(off) and off.decl().kind() == z3.Z3_OP_BMUL and off.num_args() == 2:
            for x, y in ((off.arg(0), off.arg(1)), (off.arg(1), off.arg(0))):
                if z3.is_bv_value(x) and x.as_long() == es and self.prove(st, eq(S(udiv(off, es)), y))[0] == 'proved':
                    return y
        return r

    def elem_index_checked(self, st, off, es):
        """the element at a symbolic offset, which has to be aligned"""
        if is_c(off) or es & (es - 1):
            return None
        ok = eq(urem(off, es), 0)
        if self.prove(st, ok)[0] != 'proved':
            self.oblige(st, self.site('the element is accessed at its beginning'), ok)
            self.assume(st, ok)
        return S(udiv(off, es))

    def cell_byte(self, st, ob, off):
        for o2 in range(off, off - 64, -1):
            c = ob.cells.get(o2)
            if c is not None:
                sz, v = c
                if o2 + sz > off:
                    if isinstance(v, PInt) or isinstance(v, Ptr) or isinstance(v, AbsVal):
                        raise Unsupported('byte access into %r' % (v,))
                    if isinstance(v, Poison):
                        raise Unsupported('use of unmerged value: ' + v.why)
                    return self.split(v, sz)[off - o2]
                return None
        r = self.range_of(ob, off, 1)
        if r is not None:
            return N(r[2].sel(off - r[0]))
        return None

    def store(self, st, p, n, v):
        self.check_live(st, p, 'write')
        if not (isinstance(p.o, tuple) and p.o[0] == 'S'):
            ob = st.mem.get(p.o)
            if ob is not None and ob.ro:
                self.oblige(st, self.site('write to constant'), False)
                raise PathEnd('write to constant')
        self.bounds(st, p, n, 'write')
        self.store_nc(st, p, n, v)

    def store_nc(self, st, p, n, v):
        if isinstance(p.o, tuple) and p.o[0] == 'S':
            sv = self.strval(st, p.o)
            es = sv.w // 8
            arr = sv.arr
            if es == n:
                idx = self.elem_index_st(st, p.off, es)
                if idx is None:
                    idx = self.elem_index_checked(st, p.off, es)
                if idx is None:
                    raise Unsupported('unaligned element write')
                arr = Store(arr, idx, v)
            elif es == 1:
                for i, b in enumerate(self.split(v, n)):
                    arr = Store(arr, S(add(p.off, i)), b)
            else:
                raise Unsupported('partial element write')
            self.set_str(st, p.o, sv.upd(arr=arr))
            return
        o = st.wobj(p.o)
        if is_c(p.off):
            off = p.off
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                o.cells[off] = (n, v)
                return
            r = self.range_of(o, off, n)
            if r is not None:
                if isinstance(v, (Ptr, AbsVal, PInt)):
                    # break the range into bytes if it is small and constant
                    if is_c(r[1]) and r[1] <= 256:
                        o.ranges.remove(r)
                        for i in range(r[1]):
                            o.cells[r[0] + i] = (1, N(r[2].sel(i)))
                        self.carve(st, o, off, n)
                        o.cells[off] = (n, v)
                        return
                    raise Unsupported('pointer stored into byte array')
                s, l, a = r
                i = o.ranges.index(r)
                for k, b in enumerate(self.split(v, n)):
                    a = Store(a, off - s + k, b)
                o.ranges[i] = (s, l, a)
                return
            self.carve(st, o, off, n)
            o.cells[off] = (n, v)
            return
        if isinstance(v, (Ptr, AbsVal, PInt)):
            raise Unsupported('pointer stored at symbolic offset')
        a, s = self.load_bytes_fn(st, p)
        o = st.wobj(p.o)
        for i, (rs, rl, ra) in enumerate(o.ranges):
            if rs == s and ra is a:
                for k, b in enumerate(self.split(v, n)):
                    a = Store(a, S(sub(add(p.off, k), s)), b)
                o.ranges[i] = (rs, rl, a)
                return
        raise Unsupported('symbolic store')

    def carve(self, st, o, off, n):
        """remove / split cells overlapping [off, off+n)"""
        for o2 in [x for x in o.cells if x < off + n and x + o.cells[x][0] > off]:
            sz, v = o.cells.pop(o2)
            if o2 >= off and o2 + sz <= off + n:
                continue
            if isinstance(v, (Ptr, AbsVal, PInt, Poison)):
                if isinstance(v, AbsVal):
                    raise Unsupported('partial overwrite of %r' % (v,))
                continue
            for i, b in enumerate(self.split(v, sz)):
                if not (off <= o2 + i < off + n):
                    o.cells[o2 + i] = (1, b)

    def set_str(self, st, region, sv):
        _, oid, off = region
        o = st.wobj(oid)
        o.cells[off] = (sv.size, sv)

    def get_abs(self, st, p, cls=AbsVal):
        if not isinstance(p, Ptr):
            raise Unsupported('abstract object via %r' % (p,))
        self.check_live(st, p, 'use')
        ob = st.mem.get(p.o)
        if ob is None:
            self.oblige(st, self.site('use of a dead object'), False)
            raise PathEnd('dead object')
        if not is_c(p.off):
            raise Unsupported('abstract object at symbolic offset')
        c = ob.cells.get(p.off)
        if c is None or not isinstance(c[1], cls):
            return None
        return c[1]

    def put_abs(self, st, p, v):
        if not is_c(p.off):
            raise Unsupported('abstract object at symbolic offset')
        o = st.wobj(p.o)
        if is_c(o.size) and p.off + v.size > o.size:
            raise Unsupported('abstract object does not fit: %r in %s(%r)' % (v, o.name, o.size))
        # drop what it covers
        for o2 in [x for x in o.cells if x < p.off + v.size and x + o.cells[x][0] > p.off]:
            del o.cells[o2]
        for r in [r for r in o.ranges if is_c(r[1]) and r[0] < p.off + v.size and r[0] + r[1] > p.off]:
            o.ranges.remove(r)
        o.cells[p.off] = (v.size, v)

    def del_abs(self, st, p):
        if isinstance(p, Ptr) and is_c(p.off) and p.o in st.mem:
            o = st.wobj(p.o)
            o.cells.pop(p.off, None)

    def wide(self, st, p, n):
        if not isinstance(p.o, tuple) or p.o[0] != 'S':
            return False
        v = self.strval(st, p.o)
        return v is not None and v.w == 8 * n

    def memcpy(self, st, d, s, n):
        """memmove semantics"""
        if is_c(n) and n == 0:
            return
        n = S(n)
        if is_c(n) and n == 0:
            return
        # a symbolic length may be zero, in which case the pointers are not accessed
        if not is_c(n) and (d.o == 0 or s.o == 0):
            self.oblige(st, self.site('memcpy with null pointer copies nothing'), eq(n, 0))
            return
        self.check_live(st, d, 'write')
        self.check_live(st, s, 'read')
        self.bounds(st, s, n, 'read')
        self.bounds(st, d, n, 'write')
        if is_c(n) and n in (2, 4, 8) and any(self.wide(st, q, n) for q in (d, s)):
            # one element of a vector of numbers
            self.store(st, d, n, self.load(st, s, n))
            return
        so = st.mem.get(s.o) if not isinstance(s.o, tuple) or s.o[0] != 'S' else None
        do = st.mem.get(d.o) if not isinstance(d.o, tuple) or d.o[0] != 'S' else None
        if is_c(n) and so is not None and do is not None and is_c(s.off) and is_c(d.off):
            # cell-wise copy
            moved = []
            covered = 0
            for off in sorted(so.cells):
                sz, v = so.cells[off]
                if off < s.off + n and off + sz > s.off:
                    if off >= s.off and off + sz <= s.off + n:
                        moved.append((off - s.off, sz, v))
                    else:
                        lo = max(off, s.off)
                        hi = min(off + sz, s.off + n)
                        bs = self.split(v, sz)
                        for k in range(lo, hi):
                            moved.append((k - s.off, 1, bs[k - off]))
            rmoved = []
            for (rs, rl, ra) in so.ranges:
                if not is_c(rl):
                    rmoved.append((0, n, Shift(ra, s.off - rs)))
                    continue
                lo = max(rs, s.off)
                hi = min(rs + rl, s.off + n)
                if lo < hi:
                    rmoved.append((lo - s.off, hi - lo, Shift(ra, lo - rs)))
            o = st.wobj(d.o)
            rr = self.range_of(o, d.off, n)
            if rr is not None:
                # destination is (part of) a byte array
                a = rr[2]
                i = o.ranges.index(rr)
                for (ro, rl, ra) in rmoved:
                    a = CopyR(a, d.off - rr[0] + ro, ra, 0, rl)
                ok = True
                for (off, sz, v) in moved:
                    if isinstance(v, (Ptr, AbsVal, PInt, Poison)):
                        ok = False
                        break
                    for k, b in enumerate(self.split(v, sz)):
                        a = Store(a, d.off - rr[0] + off + k, b)
                if not ok:
                    raise Unsupported('pointer copied into byte array')
                o.ranges[i] = (rr[0], rr[1], a)
                return
            self.carve(st, o, d.off, n)
            for r in [r for r in o.ranges if is_c(r[1]) and r[0] < d.off + n and r[0] + r[1] > d.off]:
                if r[0] >= d.off and r[0] + r[1] <= d.off + n:
                    o.ranges.remove(r)
                else:
                    if r[1] > 256:
                        raise Unsupported('memcpy partial range')
                    o.ranges.remove(r)
                    for i in range(r[1]):
                        if not (d.off <= r[0] + i < d.off + n):
                            o.cells[r[0] + i] = (1, N(r[2].sel(i)))
            for (off, sz, v) in moved:
                o.cells[d.off + off] = (sz, v)
            for (ro, rl, ra) in rmoved:
                if rl <= 16:
                    for k in range(rl):
                        o.cells[d.off + ro + k] = (1, N(ra.sel(k)))
                else:
                    o.ranges.append((d.off + ro, rl, ra))
            return
        # element copy between vectors of the same element width
        if isinstance(s.o, tuple) and s.o[0] == 'S' and isinstance(d.o, tuple) and d.o[0] == 'S':
            a = self.strval(st, s.o)
            b = self.strval(st, d.o)
            if a.w == b.w and a.w != 8:
                es = a.w // 8
                i1 = self.elem_index(s.off, es)
                i2 = self.elem_index(d.off, es)
                n2 = self.elem_index(n, es)
                if i1 is None or i2 is None or n2 is None:
                    raise Unsupported('memcpy of vector elements')
                self.set_str(st, d.o, b.upd(arr=CopyR(b.arr, i2, a.arr, i1, n2)))
                return
        sa, ss = self.load_bytes_fn(st, s)
        if isinstance(d.o, tuple) and d.o[0] == 'S':
            b = self.strval(st, d.o)
            if b.w != 8:
                raise Unsupported('memcpy into vector of w%d' % b.w)
            self.set_str(st, d.o, b.upd(arr=CopyR(b.arr, d.off, sa, S(sub(s.off, ss)), n)))
            return
        da, ds = self.load_bytes_fn(st, d)
        o = st.wobj(d.o)
        for i, (rs, rl, ra) in enumerate(o.ranges):
            if rs == ds and ra is da:
                o.ranges[i] = (rs, rl, CopyR(ra, S(sub(d.off, ds)), sa, S(sub(s.off, ss)), n))
                return
        raise Unsupported('memcpy')

    def memset(self, st, d, v, n):
        n = S(n)
        if is_c(n) and n == 0:
            return
        self.check_live(st, d, 'write')
        self.bounds(st, d, n, 'write')
        if isinstance(d.o, tuple) and d.o[0] == 'S':
            b = self.strval(st, d.o)
            if b.w != 8:
                if is_c(v) and v == 0:
                    es = b.w // 8
                    i2 = self.elem_index(d.off, es)
                    n2 = self.elem_index(n, es)
                    if i2 is None or n2 is None:
                        raise Unsupported('memset vector')
                    self.set_str(st, d.o, b.upd(arr=CopyR(b.arr, i2, Const(0, b.w), 0, n2)))
                    return
                raise Unsupported('memset vector')
            self.set_str(st, d.o, b.upd(arr=CopyR(b.arr, d.off, Const(v), 0, n)))
            return
        o = st.wobj(d.o)
        if is_c(d.off) and is_c(n) and self.range_of(o, d.off, n) is None:
            self.carve(st, o, d.off, n)
            for r in [r for r in o.ranges if is_c(r[1]) and r[0] >= d.off and r[0] + r[1] <= d.off + n]:
                o.ranges.remove(r)
            # plain zeroing of a struct: keep word cells so that typed reads hit them
            if is_c(v) and v == 0:
                i = 0
                while i < n:
                    k = 8 if (d.off + i) % 8 == 0 and n - i >= 8 else 1
                    if n > 512:
                        break
                    o.cells[d.off + i] = (k, 0)
                    i += k
                if n <= 512:
                    return
            o.ranges.append((d.off, n, Const(v)))
            return
        da, ds = self.load_bytes_fn(st, d)
        o = st.wobj(d.o)
        for i, (rs, rl, ra) in enumerate(o.ranges):
            if rs == ds and ra is da:
                o.ranges[i] = (rs, rl, CopyR(ra, S(sub(d.off, ds)), Const(v), 0, n))
                return
        raise Unsupported('memset')

    # ------------------------------------------------------------ operands
    def const(self, st, v):
        k = v[0]
        if k == 'int':
            if v[2] == 1:
                return bool(v[1] & 1)
            return v[1] & mask(v[2])
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(st, v[1])
        if k == 'undef':
            t = self.m.resolve(v[1])
            if t[0] == 'int':
                return 0 if t[1] != 1 else False
            if t[0] == 'ptr':
                return NULL
            if t[0] == 'struct':
                return tuple(self.const(st, ('undef', f)) for f in t[1])
            return 0
        if k == 'zero':
            t = self.m.resolve(v[1])
            if t[0] == 'struct':
                return tuple(self.const(st, ('zero', f)) for f in t[1])
            if t[0] == 'ptr':
                return NULL
            return 0
        if k == 'fp':
            return self.fpconst(v[1], v[2])
        if k == 'cgep':
            return self.gep(st, v[1], [(t, self.const(st, x)) for t, x in v[2]])
        if k == 'ccast':
            _, op, ft, x, tt = v
            x = self.const(st, x)
            if op == 'ptrtoint':
                return PInt(x)
            if op == 'inttoptr':
                if isinstance(x, PInt):
                    return x.p
                if is_c(x):
                    return Ptr(0, x)
            return x
        if k == 'agg':
            return tuple(self.const(st, x) for _, x in v[1])
        raise Unsupported('const %r' % (k,))

    def fpconst(self, t, ty):
        import struct
        if t.startswith('0x'):
            if t[2] in 'KLMH':
                raise Unsupported('fp const ' + t)
            bits = int(t, 16)
            if ty[0] == 'double':
                return bits
            d = struct.unpack('<d', bits.to_bytes(8, 'little'))[0]
            return int.from_bytes(struct.pack('<f', d), 'little')
        d = float(t)
        if ty[0] == 'double':
            return int.from_bytes(struct.pack('<d', d), 'little')
        return int.from_bytes(struct.pack('<f', d), 'little')

    def val(self, st, env, v):
        if v[0] == 'l':
            x = env.get(v[1])
            if x is None:
                raise Unsupported('undefined local %' + v[1])
            if isinstance(x, Poison):
                raise Unsupported('use of unmerged value: ' + x.why)
            return x
        return self.const(st, v)

    def gep(self, st, bt, ops):
        p = ops[0][1]
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        ty = bt
        first = True
        for (it, ix) in ops[1:]:
            w = it[1] if it[0] == 'int' else 64
            if first:
                sz = self.m.sizeof(ty)
                first = False
                ix = sext(ix, w, 64) if not isinstance(ix, PInt) else ix
                if isinstance(ix, PInt):
                    raise Unsupported('gep by pointer int')
                p = p.plus(mul(ix, sz))
                continue
            t = self.m.resolve(ty)
            if t[0] == 'struct':
                p = p.plus(self.m.field_offset(t, ix))
                ty = t[1][ix]
            elif t[0] in ('arr', 'vec'):
                sz = self.m.sizeof(t[2])
                p = p.plus(mul(sext(ix, w, 64), sz))
                ty = t[2]
            else:
                raise Unsupported('gep into %r' % (t,))
        return p

    # ------------------------------------------------------------ calls
    def add_handler(self, rx, fn, trusted=None):
        self.handlers.insert(0, (re.compile(rx), fn, trusted))
        self.hcache.clear()

    def find_handler(self, name):
        if name in self.hcache:
            return self.hcache[name]
        d = self.m.demangled.get(name, name)
        r = None
        for rx, fn, tr in self.handlers:
            mm = rx.match(d) or rx.match(name)
            if mm:
                r = (fn, d, mm, tr)
                break
        self.hcache[name] = r
        return r

    def call(self, st, name, args, ins=None):
        """args: list of values (with ins giving types).  Returns list of Outcomes."""
        h = self.find_handler(name)
        if h is not None:
            fn, d, mm, tr = h
            if tr:
                self.trusted.add(tr)
            r = fn(self, st, Call(self, name, d, mm, args, ins))
            if r is NotImplemented:
                pass
            elif isinstance(r, list):
                return r
            elif isinstance(r, Outcome):
                return [r]
            else:
                return [Outcome(st, 'ret', r)]
        f = self.m.func(name)
        if f is None:
            raise Unsupported('call to %s: no contract and no body' % self.m.demangled.get(name, name))
        return self.run_func(st, f, args, ins)

    def run_func(self, st, f, args, ins=None):
        depth = len(self.fn_stack)
        if depth > 150:
            raise Unsupported('call depth')
        if self.fn_stack.count(f.name) > self.opts.get('recursion', 12):
            raise Unsupported('recursion in ' + f.name)
        self.functions[f.name] = self.functions.get(f.name, 0) + 1
        self.fn_stack.append(f.name)
        saved = getattr(self, 'cur_dbg', None)
        try:
            env = {}
            if len(args) < len(f.params):
                raise Unsupported('arg count for ' + f.name)
            tmp_copies = []
            for i, (ty, nm, at) in enumerate(f.params):
                v = args[i]
                if 'byval' in at:
                    # callee gets a private copy
                    bt = at['byval']
                    q = self.alloc(st, self.m.sizeof(bt), 'byval', bt, kind='stack')
                    self.memcpy(st, q, v, self.m.sizeof(bt))
                    tmp_copies.append(q.o)
                    v = q
                env[nm] = v
            from .loops import run_body
            outs = run_body(self, st, f, env, tmp_copies)
            return outs
        finally:
            self.fn_stack.pop()
            self.cur_dbg = saved

    def throw(self, st, ti, payload=NULL):
        st.exc = Exc(ti, payload)
        return Outcome(st, 'throw')

    # ------------------------------------------------------------ instructions
    def step(self, st, env, ins, f):
        """non-terminator; returns None (continue in same state) or list of (state, env) / special"""
        op = ins.op
        res = ins.res
        if ins.dbg:
            l = self.m.line_of(ins.dbg)
            if l:
                self.cur_dbg = l
        if op == 'load':
            (pv,) = ins.a
            p = self.val(st, env, pv)
            alts = self.pointer_cells(st, p, ins.ty)
            if alts is not None:
                out = []
                for cond, off in alts:
                    s2, e2 = st.fork(), dict(env)
                    self.assume(s2, cond)
                    e2[res] = self.load_typed(s2, Ptr(p.o, off), ins.ty)
                    out.append((s2, e2))
                return out
            env[res] = self.load_typed(st, p, ins.ty)
            return None
        if op == 'store':
            vv, pv = ins.a
            v = self.val(st, env, vv)
            p = self.val(st, env, pv)
            self.store_typed(st, p, ins.ty, v)
            return None
        if op == 'getelementptr':
            bt, ops = ins.a
            env[res] = self.gep(st, bt, [(t, self.val(st, env, v)) for t, v in ops])
            return None
        if op == 'alloca':
            n = self.m.sizeof(ins.ty)
            if ins.a[0] is not None:
                k = self.val(st, env, ins.a[0])
                n = mul(k, n)
            p = self.alloc(st, n, res if not res.isdigit() else 'local' + res, ins.ty, kind='stack')
            env.setdefault('__allocas__', [])
            env['__allocas__'] = env['__allocas__'] + [p.o]
            env[res] = p
            return None
        if op in BIN:
            env[res] = self.binop(st, env, ins)
            return None
        if op == 'icmp':
            return self.icmp(st, env, ins)
        if op in ('zext', 'sext', 'trunc'):
            ft, x = ins.a
            v = self.val(st, env, x)
            fw, tw = ft[1], ins.ty[1]
            if isinstance(v, PInt):
                if op == 'trunc':
                    raise Unsupported('truncated pointer')
                env[res] = v
            else:
                env[res] = {'zext': zext, 'sext': sext, 'trunc': trunc}[op](v, fw, tw)
            return None
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            env[res] = self.val(st, env, ins.a[-1])
            return None
        if op == 'ptrtoint':
            p = self.val(st, env, ins.a[1])
            env[res] = self.ptrtoint(st, p)
            return None
        if op == 'inttoptr':
            v = self.val(st, env, ins.a[1])
            env[res] = self.inttoptr(st, v)
            return None
        if op == 'select':
            return self.select(st, env, ins)
        if op == 'extractvalue':
            v, idx = ins.a
            x = self.val(st, env, v)
            for i in idx:
                x = x[i]
            env[res] = x
            return None
        if op == 'insertvalue':
            v, e, idx = ins.a
            x = self.val(st, env, v)
            env[res] = self._insert(x, self.val(st, env, e), idx)
            return None
        if op == 'landingpad':
            return self.landingpad(st, env, ins)
        if op == 'fcmp':
            env[res] = self.fcmp(st, env, ins)
            return None
        if op in FPOPS:
            env[res] = self.fpop(st, env, ins)
            return None
        if op == 'fence':
            return None
        if op == 'atomicrmw':
            rop, pv, vv = ins.a
            p = self.val(st, env, pv)
            v = self.val(st, env, vv)
            n = self.m.sizeof(ins.ty)
            old = self.load_typed(st, p, ins.ty)
            w = ins.ty[1]
            if rop == 'add':
                new = add(old, v, w)
            elif rop == 'sub':
                new = sub(old, v, w)
            elif rop == 'xchg':
                new = v
            else:
                raise Unsupported('atomicrmw ' + rop)
            self.store_typed(st, p, ins.ty, new)
            env[res] = old
            return None
        if op == 'cmpxchg':
            pv, cv, nv = ins.a
            p = self.val(st, env, pv)
            old = self.load_typed(st, p, ins.ty)
            w = ins.ty[1] if ins.ty[0] == 'i' else 64
            ok = eq(old, self.val(st, env, cv), w) if not isinstance(old, Ptr) else None
            if ok is not True and ok is not False:
                raise Unsupported('undecided comparison in ' + ins.text)
            if ok:
                self.store_typed(st, p, ins.ty, self.val(st, env, nv))
            env[res] = (old, ok)
            return None
        raise Unsupported('instruction ' + ins.text)

    def ptrtoint(self, st, p):
        if p.o == 0:
            return p.off          # an address made from an integer
        return PInt(p)

    def inttoptr(self, st, v):
        if isinstance(v, PInt):
            return v.p
        return Ptr(0, v)

    def _insert(self, x, e, idx):
        x = list(x) if isinstance(x, (tuple, list)) else [None] * (idx[0] + 1)
        if len(idx) == 1:
            x[idx[0]] = e
        else:
            x[idx[0]] = self._insert(x[idx[0]], e, idx[1:])
        return tuple(x)

    def load_typed(self, st, p, ty):
        t = self.m.resolve(ty)
        n = self.m.sizeof(ty)
        if t[0] == 'int':
            v = self.load(st, p, n)
            if isinstance(v, AbsVal):
                raise Unsupported('integer read of %r' % (v,))
            if isinstance(v, Ptr):
                v = self.ptrtoint(st, v)
            if t[1] == 1:
                return trunc(v, 8 * n, 1)
            if t[1] < 8 * n and not isinstance(v, PInt):
                return trunc(v, 8 * n, t[1])
            return v
        if t[0] == 'ptr':
            v = self.load(st, p, 8)
            return self.as_ptr(st, v)
        if t[0] in ('float', 'double'):
            return self.load(st, p, n)
        if t[0] == 'struct':
            return tuple(self.load_typed(st, p.plus(self.m.field_offset(t, i)), f)
                         for i, f in enumerate(t[1]))
        if t[0] == 'arr':
            es = self.m.sizeof(t[2])
            return tuple(self.load_typed(st, p.plus(i * es), t[2]) for i in range(t[1]))
        raise Unsupported('load %r' % (t,))

    def as_ptr(self, st, v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, PInt):
            return v.p
        if is_c(v):
            return Ptr(0, v)
        if isinstance(v, AbsVal):
            raise Unsupported('pointer read of %r' % (v,))
        s = S(v)
        if is_c(s):
            return Ptr(0, s)
        raise Unsupported('pointer from symbolic bytes %s' % str(v)[:60])

    def store_typed(self, st, p, ty, v):
        t = self.m.resolve(ty)
        n = self.m.sizeof(ty)
        if t[0] == 'int':
            if t[1] == 1 or z3.is_bool(v) or isinstance(v, bool):
                v = zext(v, 1, 8 * n)
            elif t[1] < 8 * n and not isinstance(v, PInt):
                v = zext(v, t[1], 8 * n)
            self.store(st, p, n, v)
        elif t[0] == 'ptr' or t[0] in ('float', 'double'):
            self.store(st, p, n, v)
        elif t[0] == 'struct':
            for i, f in enumerate(t[1]):
                self.store_typed(st, p.plus(self.m.field_offset(t, i)), f, v[i])
        elif t[0] == 'arr':
            es = self.m.sizeof(t[2])
            if isinstance(v, int) and v == 0:
                v = [0] * t[1]
            for i in range(t[1]):
                self.store_typed(st, p.plus(i * es), t[2], v[i])
        else:
            raise Unsupported('store %r' % (t,))

    def in_repo(self):
        d = getattr(self, 'cur_dbg', None)
        return bool(d and d[1] and (self.repo_prefix in d[1]))

    def binop(self, st, env, ins):
        op = ins.op
        t = ins.ty
        if t[0] != 'int':
            return self.fpop(st, env, ins)
        w = t[1]
        a = self.val(st, env, ins.a[0])
        b = self.val(st, env, ins.a[1])
        flags = ins.a[2]
        if isinstance(a, PInt) or isinstance(b, PInt):
            return self.pint_op(st, op, a, b)
        if w == 1:
            if op == 'and':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(b, bool):
                    return Not(a) if b else a
                if isinstance(a, bool):
                    return Not(b) if a else b
                return z3.Xor(B(a), B(b))
            raise Unsupported('i1 ' + op)
        if 'nsw' in flags and op in ('add', 'sub', 'mul') and self.in_repo():
            self.nsw(st, op, a, b, w)
        if op == 'add':
            return add(a, b, w)
        if op == 'sub':
            return sub(a, b, w)
        if op == 'mul':
            return mul(a, b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if is_c(b):
                if b == 0:
                    self.oblige(st, self.site('divisor is not zero'), False)
                    raise PathEnd('division by zero')
            else:
                c = z3.simplify(Z(b, w) != 0)
                if not z3.is_true(c):
                    if not self.oblige(st, self.site('divisor is not zero'), c):
                        self.assume(st, c)
            if op in ('udiv', 'urem'):
                r = (udiv if op == 'udiv' else urem)(a, b, w)
                return r
            if self.in_repo():
                ov = And(eq(a, 1 << (w - 1), w), eq(b, mask(w), w))
                if ov is not False:
                    self.oblige(st, self.site('signed division does not overflow'), Not(ov))
            if is_c(a) and is_c(b):
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == 'sdiv' else x - q * y) & mask(w)
            return (Z(a, w) / Z(b, w)) if op == 'sdiv' else z3.SRem(Z(a, w), Z(b, w))
        if op in ('shl', 'lshr', 'ashr'):
            if is_c(b):
                if b >= w:
                    self.oblige(st, self.site('shift amount in range'), False)
                    return 0
            else:
                c = z3.simplify(z3.ULT(Z(b, w), w))
                if not z3.is_true(c):
                    if not self.oblige(st, self.site('shift amount in range'), c):
                        self.assume(st, c)
            if is_c(a) and is_c(b):
                if op == 'shl':
                    return (a << b) & mask(w)
                if op == 'lshr':
                    return a >> b
                return (sgn(a, w) >> b) & mask(w)
            if is_c(b) and b == 0:
                return a
            if op == 'shl':
                return Z(a, w) << Z(b, w)
            if op == 'lshr':
                if w == 64 and is_c(b):
                    r = lin_divrem(a, 1 << b)
                    if r:
                        return r[0]
                return z3.LShR(Z(a, w), Z(b, w))
            return Z(a, w) >> Z(b, w)
        if op == 'and':
            if is_c(a) and is_c(b):
                return a & b
            if (is_c(a) and a == 0) or (is_c(b) and b == 0):
                return 0
            if is_c(b) and b == mask(w):
                return a
            if w == 64 and is_c(b) and b & (b + 1) == 0:
                r = lin_divrem(a, b + 1)
                if r:
                    return r[1]
            return Z(a, w) & Z(b, w)
        if op == 'or':
            if is_c(a) and is_c(b):
                return a | b
            if is_c(b) and b == 0:
                return a
            if is_c(a) and a == 0:
                return b
            m = or_merge(a, b, w)
            return m if m is not None else Z(a, w) | Z(b, w)
        if op == 'xor':
            if is_c(a) and is_c(b):
                return a ^ b
            if is_c(b) and b == 0:
                return a
            return Z(a, w) ^ Z(b, w)
        raise Unsupported(op)

    def nsw(self, st, op, a, b, w):
        if is_c(a) and is_c(b):
            x, y = sgn(a, w), sgn(b, w)
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            if -(1 << (w - 1)) <= r < (1 << (w - 1)):
                return
            c = False
        else:
            za, zb = Z(a, w), Z(b, w)
            if op == 'add':
                c = z3.And(z3.BVAddNoOverflow(za, zb, True), z3.BVAddNoUnderflow(za, zb))
            elif op == 'sub':
                c = z3.And(z3.BVSubNoOverflow(za, zb), z3.BVSubNoUnderflow(za, zb, True))
            else:
                c = z3.And(z3.BVMulNoOverflow(za, zb, True), z3.BVMulNoUnderflow(za, zb))
            c = N(z3.simplify(c))
        if c is True:
            return
        if not self.oblige(st, self.site('signed %s does not overflow' % op), c):
            self.assume(st, c)

    def pint_op(self, st, op, a, b):
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
            if a.p.o == b.p.o:
                return S(sub(a.p.off, b.p.off))
            raise Unsupported('difference of pointers into different objects')
        if op == 'sub' and isinstance(a, PInt) and not isinstance(b, PInt):
            return PInt(a.p.plus(sub(0, b)))
        if op == 'add' and isinstance(a, PInt) and not isinstance(b, PInt):
            return PInt(a.p.plus(b))
        if op == 'add' and isinstance(b, PInt) and not isinstance(a, PInt):
            return PInt(b.p.plus(a))
        if op == 'sub' and not isinstance(a, PInt) and isinstance(b, PInt) and is_c(a) and a == 0:
            raise Unsupported('negated pointer')
        h = self.opts.get('pint_op')
        if h:
            return h(self, st, op, a, b)
        raise Unsupported('%s on pointer bits' % op)

    def ptr_cmp(self, st, pred, p, q):
        if p.o == q.o:
            return CMP[pred](p.off, q.off, 64)
        if pred == 'eq':
            # distinct live objects have distinct addresses (one-past-the-end aliasing is excluded)
            return False
        raise Unsupported('ordering of pointers into different objects')

    def pointer_cells(self, st, p, ty):
        """a read at a symbolic index of a small array of pointers: one case per element it may be"""
        if not isinstance(p, Ptr) or is_c(p.off) or isinstance(p.o, tuple) or ty[0] != 'ptr':
            return None
        ob = st.mem.get(p.o)
        if ob is None or not is_c(ob.size) or ob.size > 512 or not any(isinstance(v, Ptr) for _, v in ob.cells.values()):
            return None
        self.check_live(st, p, 'read')
        self.bounds(st, p, 8, 'read')
        if self.feasible(st, And(*[Not(eq(p.off, off)) for off in ob.cells if ob.cells[off][0] == 8])):
            return None
        return [(c, off) for off in sorted(ob.cells) for c in [eq(p.off, off)] if ob.cells[off][0] == 8 and self.feasible(st, c)]

    def icmp(self, st, env, ins):
        pred, x, y = ins.a
        a = self.val(st, env, x)
        b = self.val(st, env, y)
        t = self.m.resolve(ins.ty)
        neg = pred == 'ne'
        if neg:
            pred = 'eq'
        if t[0] == 'ptr' or isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt):
                a = a.p
            elif not isinstance(a, Ptr):
                a = self.inttoptr(st, a)
            if isinstance(b, PInt):
                b = b.p
            elif not isinstance(b, Ptr):
                b = self.inttoptr(st, b)
            r = self.ptr_cmp(st, pred, a, b)
        else:
            w = t[1]
            if w == 1:
                if pred != 'eq':
                    a, b, w = zext(a, 1, 8), zext(b, 1, 8), 8
                    if pred[0] == 's':
                        raise Unsupported('signed i1 compare')
                    r = CMP[pred](a, b, w)
                else:
                    r = eq(a, b, 1)
            else:
                r = CMP[pred](a, b, w)
        r = N(r) if not isinstance(r, bool) else r
        env[ins.res] = Not(r) if neg else r
        return None

    def select(self, st, env, ins):
        c, x, y = ins.a
        c = self.val(st, env, c)
        a = self.val(st, env, x)
        b = self.val(st, env, y)
        c = S(c) if not isinstance(c, bool) else c
        if isinstance(c, bool):
            env[ins.res] = a if c else b
            return None
        t = self.m.resolve(ins.ty)
        if t[0] == 'int' and not isinstance(a, PInt) and not isinstance(b, PInt):
            env[ins.res] = Ite(c, a, b, t[1])
            return None
        if t[0] in ('float', 'double'):
            env[ins.res] = Ite(c, a, b, 32 if t[0] == 'float' else 64)
            return None
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
            env[ins.res] = Ptr(a.o, Ite(c, a.off, b.off, 64), a.h)
            return None
        # fork
        out = []
        for cond, v in ((c, a), (Not(c), b)):
            if self.feasible(st, cond):
                s2 = st.fork()
                self.assume(s2, cond)
                e2 = dict(env)
                e2[ins.res] = v
                out.append((s2, e2))
        return out

    def fcmp(self, st, env, ins):
        pred, x, y = ins.a
        if ins.ty[0] not in ('float', 'double'):
            raise Unsupported('fp type %r' % (ins.ty,))
        w, mant = (32, 23) if ins.ty[0] == 'float' else (64, 52)     # IEEE 754 comparison on the bit patterns
        a, b = (Z(self.val(st, env, v), w) for v in (x, y))
        mag = z3.BitVecVal((1 << (w - 1)) - 1, w)
        inf = z3.BitVecVal(((1 << (w - 1)) - 1) & ~((1 << mant) - 1), w)
        ma, mb = a & mag, b & mag
        uno = z3.Or(z3.UGT(ma, inf), z3.UGT(mb, inf))
        zeros = z3.And(ma == 0, mb == 0)
        same = z3.Or(a == b, zeros)

        def less(p, q, mp, mq):
            return z3.And(z3.Not(zeros), z3.If(p < 0, z3.If(q < 0, z3.UGT(mp, mq), True), z3.If(q < 0, False, z3.ULT(mp, mq))))
        lt, gt = less(a, b, ma, mb), less(b, a, mb, ma)
        rel = {'eq': same, 'ne': z3.Not(same), 'lt': lt, 'gt': gt, 'le': z3.Or(lt, same), 'ge': z3.Or(gt, same), 'no': z3.BoolVal(True), 'rd': z3.BoolVal(True)}
        if pred in ('uno', 'ord'):
            return S(uno if pred == 'uno' else z3.Not(uno))
        r = rel[pred[1:]]
        return S(z3.And(z3.Not(uno), r) if pred[0] == 'o' else z3.Or(uno, r))

    def fp(self, v, ty):
        s = z3.Float32() if ty[0] == 'float' else z3.Float64() if ty[0] == 'double' else None
        if s is None:
            raise Unsupported('fp type %r' % (ty,))
        return z3.fpBVToFP(Z(v, 32 if ty[0] == 'float' else 64), s)

    def fpop(self, st, env, ins):
        op = ins.op
        rm = z3.RNE()
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a = self.fp(self.val(st, env, ins.a[0]), ins.ty)
            b = self.fp(self.val(st, env, ins.a[1]), ins.ty)
            r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, a, b)
            return S(z3.fpToIEEEBV(r))
        if op == 'fneg':
            a = self.val(st, env, ins.a[0])
            w = 32 if ins.ty[0] == 'float' else 64
            return S(Z(a, w) ^ z3.BitVecVal(1 << (w - 1), w))
        if op in ('sitofp', 'uitofp'):
            ft, x = ins.a
            v = Z(self.val(st, env, x), ft[1])
            srt = z3.Float32() if ins.ty[0] == 'float' else z3.Float64()
            r = z3.fpSignedToFP(rm, v, srt) if op == 'sitofp' else z3.fpUnsignedToFP(rm, v, srt)
            return S(z3.fpToIEEEBV(r))
        if op in ('fptosi', 'fptoui'):
            ft, x = ins.a
            v = self.fp(self.val(st, env, x), ft)
            r = z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(ins.ty[1])) if op == 'fptosi' else \
                z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(ins.ty[1]))
            return S(r)
        if op in ('fpext', 'fptrunc'):
            ft, x = ins.a
            v = self.fp(self.val(st, env, x), ft)
            srt = z3.Float32() if ins.ty[0] == 'float' else z3.Float64()
            return S(z3.fpToIEEEBV(z3.fpFPToFP(rm, v, srt)))
        raise Unsupported(op)

    # ------------------------------------------------------------ exceptions
    def landingpad(self, st, env, ins):
        cleanup, clauses = ins.a
        e = st.exc
        if e is None:
            raise Unsupported('landingpad without exception')
        for kind, v in clauses:
            if kind == 'filter':
                raise Unsupported('filter clause')
            if v[0] == 'null':
                env[ins.res] = (Ptr(('E', 0), 0), 1)
                return None
            ti = v[1]
            if self.exc_matches(e.ti, ti):
                env[ins.res] = (Ptr(('E', 0), 0), self.ti_id(ti))
                return None
        if cleanup:
            env[ins.res] = (Ptr(('E', 0), 0), 0)
            return None
        return 'unwind'

    def ti_id(self, ti):
        d = self.__dict__.setdefault('_ti', {})
        if ti not in d:
            d[ti] = 2 + len(d)
        return d[ti]

    STD_BASES = {
        '_ZTISt9exception': [],
        '_ZTISt13runtime_error': ['_ZTISt9exception'],
        '_ZTISt11logic_error': ['_ZTISt9exception'],
        '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
        '_ZTISt12length_error': ['_ZTISt11logic_error'],
        '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
        '_ZTISt12domain_error': ['_ZTISt11logic_error'],
        '_ZTISt11range_error': ['_ZTISt13runtime_error'],
        '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
        '_ZTISt12system_error': ['_ZTISt13runtime_error'],
        '_ZTISt9bad_alloc': ['_ZTISt9exception'],
        '_ZTISt8bad_cast': ['_ZTISt9exception'],
        '_ZTISt17bad_function_call': ['_ZTISt9exception'],
        '_ZTIN8maidsafe14maidsafe_errorE': ['_ZTISt12system_error'],
        '_ZTIN6cereal9ExceptionE': ['_ZTISt13runtime_error'],
        '_ZTIN5boost6system12system_errorE': ['_ZTISt13runtime_error'],
        '_ZTIN5boost10filesystem16filesystem_errorE': ['_ZTIN5boost6system12system_errorE'],
    }

    def ti_bases(self, ti):
        gi = None
        try:
            gi = self.m.global_info(ti)
        except Unsupported:
            pass
        if gi is None or gi[1] is None:
            if ti in self.STD_BASES:
                return self.STD_BASES[ti]
            mm = re.match(r'_ZTIN8maidsafe(\d+)(\w+_error)E$', ti)
            if mm:
                return ['_ZTIN8maidsafe14maidsafe_errorE']
            if ti.startswith('abs:'):
                return []
            raise Unsupported('unknown exception hierarchy of ' + ti)
        out = []
        v = gi[1]
        if v[0] == 'agg':
            for _, x in v[1]:
                if x[0] == 'g' and x[1].startswith('_ZTI'):
                    out.append(x[1])
        return out

    def exc_matches(self, ti, want):
        if ti == want:
            return True
        return any(self.exc_matches(b, want) for b in self.ti_bases(ti))


class PathEnd(Exception):
    pass


class Call:
    """what a handler sees"""
    __slots__ = ('ex', 'name', 'd', 'mm', 'args', 'ins')

    def __init__(self, ex, name, d, mm, args, ins):
        self.ex = ex
        self.name = name
        self.d = d
        self.mm = mm
        self.args = args
        self.ins = ins


BIN = {'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'}
FPOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
         'fpext', 'fptrunc'}


def short(d):
    """shorten a demangled name for reports"""
    d = re.sub(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string', d)
    d = re.sub(r', std::allocator<[^<>]*>', '', d)
    i = d.find('(')
    if 0 < i:
        # keep "(anonymous namespace)"
        d2 = d.replace('(anonymous namespace)', '{anon}')
        i = d2.find('(')
        d = d2[:i] if i > 0 else d2
    return d[:120]
