"""Control flow: path exploration with join-point merging, loop unrolling and loop summaries."""
import heapq
import os
import sys
import z3
from .terms import *
from .terms import _fresh
from .ir import *
from .mem import *
from .exec import State, Outcome, Forall, PathEnd, Exec

TERMS = {'br', 'switch', 'ret', 'invoke', 'resume', 'unreachable'}


class Item:
    __slots__ = ('st', 'env', 'block', 'prev')

    def __init__(self, st, env, block, prev):
        self.st = st
        self.env = env
        self.block = block
        self.prev = prev


def operands(ins):
    """local names used by an instruction (non-phi)"""
    out = []

    def rec(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'l' and isinstance(x[1], str):
            out.append(x[1])
        elif isinstance(x, (tuple, list)):
            for y in x:
                rec(y)
        elif isinstance(x, dict):
            for y in x.values():
                rec(y)
    rec(ins.a)
    return out


def liveness(f):
    if hasattr(f, 'live'):
        return f.live
    use = {}
    deff = {}
    phiuse = {b: set() for b in f.blocks}
    phidef = {b: set() for b in f.blocks}
    for b, inss in f.blocks.items():
        u, d = set(), set()
        for i in inss:
            if i.op == 'phi':
                d.add(i.res)
                phidef[b].add(i.res)
                for v, p in i.a:
                    if v[0] == 'l':
                        phiuse.setdefault(p, set()).add(v[1])
                continue
            for o in operands(i):
                if o not in d:
                    u.add(o)
            if i.res:
                d.add(i.res)
        use[b] = u
        deff[b] = d
    live = {b: set(use[b]) for b in f.blocks}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.order):
            o = set(phiuse.get(b, ()))
            for s in f.succs[b]:
                o |= (live.get(s, set()) - phidef.get(s, set()))
            n = use[b] | (o - deff[b])
            # phi results that are used in the block are live at its (post-phi) start
            if n - live[b]:
                live[b] |= n
                ch = True
    # at post-phi start: live plus phi defs used later
    post = {}
    for b in f.blocks:
        o = set(phiuse.get(b, ()))
        for s in f.succs[b]:
            o |= (live.get(s, set()) - phidef.get(s, set()))
        nonphi = set()
        d = set()
        for i in f.blocks[b]:
            if i.op == 'phi':
                continue
            for x in operands(i):
                if x not in d:
                    nonphi.add(x)
            if i.res:
                d.add(i.res)
        post[b] = nonphi | (o - d)
    f.live = post
    # reverse post order index
    seen = set()
    order = []
    stack = [(f.entry, iter(f.succs[f.entry]))]
    seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(f.succs[s])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    f.rpo = {b: i for i, b in enumerate(order)}
    # make loop exits come after loop bodies: index by (outermost order)
    return f.live


def enter(ex, f, item):
    """evaluate the phis of item.block for its predecessor"""
    inss = f.blocks[item.block]
    if inss and inss[0].op == 'phi':
        new = {}
        for i in inss:
            if i.op != 'phi':
                break
            for v, b in i.a:
                if b == item.prev:
                    if v[0] == 'l':
                        x = item.env.get(v[1])
                        if x is None:
                            raise Unsupported('phi operand undefined')
                    else:
                        x = ex.const(item.st, v)
                    new[i.res] = x
                    break
            else:
                raise Unsupported('phi without incoming value')
        env = dict(item.env)
        env.update(new)
        item.env = env


def common_pc(a, b):
    n = 0
    for x, y in zip(a, b):
        if x is y or x.eq(y):
            n += 1
        else:
            break
    return n


def merge_val(c, a, b):
    """Ite(c,a,b) for arbitrary values; raises Unsupported if impossible"""
    if same_val(a, b):
        return a
    if isinstance(a, Poison) or isinstance(b, Poison):
        return a if isinstance(a, Poison) else b
    if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)) or \
            (z3.is_expr(b) and z3.is_bool(b)):
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return Ite(c, a, b, 1)
        raise Unsupported('merge')
    if (is_c(a) or z3.is_expr(a)) and (is_c(b) or z3.is_expr(b)):
        w = a.size() if z3.is_expr(a) else b.size() if z3.is_expr(b) else 64
        if z3.is_expr(a) and z3.is_expr(b) and a.size() != b.size():
            raise Unsupported('merge width')
        return Ite(c, a, b, w)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and a.o != 0:
        return Ptr(a.o, Ite(c, a.off, b.off, 64), a.h)
    if isinstance(a, StrVal) and isinstance(b, StrVal) and a.kind == b.kind and a.w == b.w:
        n = a.n if same_val(a.n, b.n) else Ite(c, a.n, b.n, 64)
        arr = a.arr if a.arr is b.arr else IteArr(c, a.arr, b.arr)
        return StrVal(n, arr, a.w, a.kind, a.size, a.nul)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if hasattr(a, 'merge'):
        return a.merge(c, b)
    raise Unsupported('merge')


def merge_int(c, a, b, width):
    if is_c(a) and is_c(b) and a != b:
        return z3.If(c, z3.BitVecVal(a, width), z3.BitVecVal(b, width))
    return merge_val(c, a, b)


def merge_states(ex, s1, s2):
    """returns (state, cond) with cond true iff s1 was taken; or None"""
    if s1.exc is not s2.exc or len(s1.caught) != len(s2.caught) or \
            any(x is not y for x, y in zip(s1.caught, s2.caught)):
        return None
    k = common_pc(s1.pc, s2.pc)
    r1 = And([x for x in s1.pc[k:]])
    r2 = And([x for x in s2.pc[k:]])
    # condition selecting s1: the first differing conjunct is usually c / not c
    c = r1
    if isinstance(c, bool):
        return None
    if len(s1.pc) > k and len(s2.pc) > k:
        a, b = s1.pc[k], s2.pc[k]
        na = z3.simplify(z3.Not(a))
        if na.eq(z3.simplify(b)):
            c = a
    if set(s1.ghost) != set(s2.ghost):
        return None
    gm = {}
    for key in s1.ghost:
        a, b = s1.ghost[key], s2.ghost[key]
        if a is b or same_val(a, b):
            gm[key] = a
        elif z3.is_expr(a) or z3.is_expr(b) or (isinstance(a, StrVal) and isinstance(b, StrVal)):
            try:
                gm[key] = merge_val(c, a, b)
            except Unsupported:
                return None
        else:
            return None
    mem = {}
    cost = 0
    for oid in set(s1.mem) | set(s2.mem):
        a = s1.mem.get(oid)
        b = s2.mem.get(oid)
        if a is b or b is None:
            mem[oid] = a
            continue
        if a is None:
            mem[oid] = b
            continue
        o = a.clone(None)
        if not same_val(a.size, b.size):
            return None
        try:
            cells = {}
            for off in set(a.cells) | set(b.cells):
                x = a.cells.get(off)
                y = b.cells.get(off)
                if x is None or y is None:
                    z = x or y
                    # dead temporary on one side
                    cells[off] = (z[0], Poison('defined on one path only'))
                    # overlapping cells of other sizes make this unmergeable
                    continue
                if x[0] != y[0]:
                    return None
                if same_val(x[1], y[1]):
                    cells[off] = x
                else:
                    cost += 1
                    try:
                        cells[off] = (x[0], merge_int(c, x[1], y[1], 8 * x[0]))
                    except Unsupported:
                        return None
            # overlap check
            ks = sorted(cells)
            for p, q in zip(ks, ks[1:]):
                if p + cells[p][0] > q:
                    return None
            o.cells = cells
            if len(a.ranges) != len(b.ranges):
                return None
            rs = []
            for (x, y) in zip(a.ranges, b.ranges):
                if x[0] != y[0] or not same_val(x[1], y[1]):
                    return None
                rs.append(x if x[2] is y[2] else (x[0], x[1], IteArr(c, x[2], y[2])))
            o.ranges = rs
        except Unsupported:
            return None
        if cost > 60:
            return None
        mem[oid] = o
    s = s1.fork()
    s.mem = mem
    s.ghost = gm
    s.pc = s1.pc[:k]
    d = Or(r1, r2)
    d = S(d)
    if d is not True:
        s.pc.append(B(d))
    # universal facts
    fa = []
    n = 0
    for x, y in zip(s1.foralls, s2.foralls):
        if x is y:
            fa.append(x)
            n += 1
        else:
            break
    for x in s1.foralls[n:]:
        fa.append(Forall(x.n, lambda m, x=x, g=r1: [Implies(g, And(x.fn(m)))], x.name))
    for x in s2.foralls[n:]:
        fa.append(Forall(x.n, lambda m, x=x, g=r2: [Implies(g, And(x.fn(m)))], x.name))
    s.foralls = fa
    return s, c


def merge_items(ex, f, items):
    """merge items waiting at the same block"""
    if not ex.merge or len(items) < 2:
        return items
    live = liveness(f)[items[0].block]
    out = [items[0]]
    for it in items[1:]:
        done = False
        for i, o in enumerate(out):
            m = try_merge(ex, f, live, o, it)
            if m is not None:
                out[i] = m
                done = True
                break
        if not done:
            out.append(it)
    return out


def try_merge(ex, f, live, a, b):
    # pointers etc. that are live must agree
    for k in live:
        x = a.env.get(k)
        y = b.env.get(k)
        if x is None or y is None:
            return None
        if not same_val(x, y):
            if isinstance(x, (AbsVal, PInt)) or isinstance(y, (AbsVal, PInt)):
                return None
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                if not (isinstance(x, Ptr) and isinstance(y, Ptr) and x.o == y.o and x.o != 0):
                    return None
    r = merge_states(ex, a.st, b.st)
    if r is None:
        return None
    s, c = r
    env = {'__allocas__': a.env.get('__allocas__', [])}
    for k in live:
        x, y = a.env[k], b.env[k]
        if same_val(x, y):
            env[k] = x
        else:
            try:
                if is_c(x) and is_c(y) and not isinstance(x, bool):
                    env[k] = merge_int(c, x, y, width_of(f, k, ex))
                else:
                    env[k] = merge_val(c, x, y)
            except Unsupported:
                return None
    al = set(a.env.get('__allocas__', [])) | set(b.env.get('__allocas__', []))
    env['__allocas__'] = list(al)
    return Item(s, env, a.block, a.prev)


def width_of(f, name, ex):
    if not hasattr(f, 'widths'):
        f.widths = {}
        for ty, nm, at in f.params:
            if ty[0] == 'int':
                f.widths[nm] = ty[1]
        for b, inss in f.blocks.items():
            for i in inss:
                if i.res and i.ty is not None:
                    if i.op in ('icmp', 'fcmp'):
                        f.widths[i.res] = 1
                    elif i.ty[0] == 'int':
                        f.widths[i.res] = i.ty[1]
                    elif i.ty[0] == 'float':
                        f.widths[i.res] = 32
                    elif i.ty[0] == 'double':
                        f.widths[i.res] = 64
                    if i.op == 'extractvalue':
                        t = f.m.resolve(i.ty)
                        for ix in i.a[1]:
                            t = f.m.resolve(t[1][ix] if t[0] == 'struct' else t[2])
                        if t[0] == 'int':
                            f.widths[i.res] = t[1]
    w = f.widths.get(name)
    if w is None:
        raise Unsupported('width of %' + name)
    return w


def merge_outcomes(ex, outs, retw):
    if not ex.merge or len(outs) < 2:
        return outs
    res = []
    for o in outs:
        if o.kind != 'ret':
            res.append(o)
            continue
        done = False
        for i, p in enumerate(res):
            if p.kind != 'ret':
                continue
            a, b = p.val, o.val
            if not same_val(a, b):
                if isinstance(a, (Ptr, AbsVal, PInt, tuple)) or isinstance(b, (Ptr, AbsVal, PInt, tuple)):
                    if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and a.o != 0) and \
                            not (isinstance(a, tuple) and isinstance(b, tuple)):
                        continue
            r = merge_states(ex, p.st, o.st)
            if r is None:
                continue
            s, c = r
            try:
                v = a if same_val(a, b) else (merge_int(c, a, b, retw) if is_c(a) and is_c(b) and not isinstance(a, bool) else merge_val(c, a, b))
            except Unsupported:
                continue
            res[i] = Outcome(s, 'ret', v)
            done = True
            break
        if not done:
            res.append(o)
    return res


def run_body(ex, st, f, env, tmp):
    liveness(f)
    outs, exits, backs = explore(ex, f, [Item(st, env, f.entry, None)], None, None)
    res = []
    for o, e in outs:
        # locals die
        dead = set(e.get('__allocas__', [])) | set(tmp)
        if dead:
            for d in dead:
                o.st.mem.pop(d, None)
        if isinstance(o.val, Poison):
            raise Unsupported('returns unmerged value')
        res.append(o)
    t = f.ret
    w = t[1] if t and t[0] == 'int' else 32 if t and t[0] == 'float' else 64
    return merge_outcomes(ex, res, w)


def explore(ex, f, items, region, header, info=None):
    """run items until they return, leave `region` or come back to `header`"""
    outs, exits, backs = [], [], []
    heap = []
    waiting = {}
    rpo = f.rpo

    def push(it):
        if region is not None and it.block not in region:
            exits.append(it)
            return
        if it.block == header:
            backs.append(it)
            return
        enter(ex, f, it)
        w = waiting.setdefault(it.block, [])
        if not w:
            heapq.heappush(heap, (rpo.get(it.block, 0), it.block))
        w.append(it)

    first = True
    # initial items have their phis already evaluated when they are at a loop header
    for it in items:
        w = waiting.setdefault(it.block, [])
        if not w:
            heapq.heappush(heap, (rpo.get(it.block, 0), it.block))
        w.append(it)
    start_block = items[0].block if items else None
    while heap:
        _, b = heapq.heappop(heap)
        its = waiting.pop(b, [])
        if not its:
            continue
        its = merge_items(ex, f, its)
        if b in f.loops and not (first and b == header):
            for it in its:
                o2, e2 = handle_loop(ex, f, it, b)
                outs += o2
                for e in e2:
                    push(e)
            continue
        first = False
        for it in its:
            ex.paths += 1
            if ex.paths > ex.path_budget:
                raise Unsupported('path budget exhausted')
            try:
                run_block(ex, f, it, outs, push, info, region)
            except PathEnd:
                pass
    return outs, exits, backs


def run_block(ex, f, it, outs, push, info, region):
    work = [(it.st, dict(it.env), 0)]
    b = it.block
    inss = f.blocks[b]
    while work:
        st, env, i = work.pop()
        try:
            while True:
                ins = inss[i]
                op = ins.op
                if op == 'phi':
                    i += 1
                    continue
                if op in ('call', 'invoke'):
                    res = do_call(ex, f, st, env, ins)
                    nexts = []
                    for o in res:
                        if o.kind == 'ret':
                            nexts.append((o.st, o.val))
                        elif o.kind == 'throw':
                            if op == 'invoke':
                                push(Item(o.st, dict(env), ins.a['unwind'], b))
                            else:
                                outs.append((o, env))
                        else:
                            outs.append((o, env))
                    if not nexts:
                        break
                    if op == 'invoke':
                        for s2, v in nexts:
                            e2 = dict(env)
                            if ins.res is not None:
                                e2[ins.res] = v
                            push(Item(s2, e2, ins.a['normal'], b))
                        break
                    for s2, v in nexts[1:]:
                        e2 = dict(env)
                        if ins.res is not None:
                            e2[ins.res] = v
                        work.append((s2, e2, i + 1))
                    st, v = nexts[0]
                    if ins.res is not None:
                        env[ins.res] = v
                    i += 1
                    continue
                if op == 'br':
                    if ins.a[0] is None:
                        push(Item(st, env, ins.a[1], b))
                        break
                    c = ex.val(st, env, ins.a[0])
                    c = S(c) if not isinstance(c, bool) else c
                    if not isinstance(c, bool) and z3.is_bv(c):
                        c = S(c == 1)
                    t1, t2 = ins.a[1], ins.a[2]
                    if isinstance(c, bool):
                        if info is not None and region is not None and \
                                ((t1 in region) != (t2 in region)):
                            info['concrete_exit'] = True
                        push(Item(st, env, t1 if c else t2, b))
                        break
                    f1 = ex.feasible(st, c)
                    f2 = ex.feasible(st, Not(c)) if f1 else True
                    if info is not None and region is not None and (t1 in region) != (t2 in region):
                        if f1 != f2:
                            info['decided_exit'] = True
                        else:
                            info['symbolic_exit'] = True
                    if f1 and f2:
                        s2 = st.fork()
                        ex.assume(st, c)
                        ex.assume(s2, Not(c))
                        push(Item(st, env, t1, b))
                        push(Item(s2, dict(env), t2, b))
                    elif f1:
                        ex.assume(st, c)
                        push(Item(st, env, t1, b))
                    else:
                        ex.assume(st, Not(c))
                        push(Item(st, env, t2, b))
                    break
                if op == 'switch':
                    v = ex.val(st, env, ins.a[0])
                    w = ins.ty[1]
                    v = S(v) if not is_c(v) else v
                    if is_c(v):
                        for cv, cb in ins.a[2]:
                            if (cv & mask(w)) == v:
                                push(Item(st, env, cb, b))
                                break
                        else:
                            push(Item(st, env, ins.a[1], b))
                        break
                    tg = {}
                    for cv, cb in ins.a[2]:
                        tg.setdefault(cb, []).append(cv & mask(w))
                    neg = []
                    for cb, cvs in tg.items():
                        c = Or([eq(v, x, w) for x in cvs])
                        neg += [Not(eq(v, x, w)) for x in cvs]
                        if ex.feasible(st, c):
                            s2 = st.fork()
                            ex.assume(s2, c)
                            push(Item(s2, dict(env), cb, b))
                    c = And(neg)
                    if ex.feasible(st, c):
                        ex.assume(st, c)
                        push(Item(st, env, ins.a[1], b))
                    break
                if op == 'ret':
                    v = None if ins.a is None else ex.val(st, env, ins.a)
                    outs.append((Outcome(st, 'ret', v), env))
                    break
                if op == 'resume':
                    outs.append((Outcome(st, 'throw'), env))
                    break
                if op == 'unreachable':
                    # only reachable after a noreturn call
                    ex.oblige(st, ex.site('unreachable code is not reached'), False)
                    break
                r = ex.step(st, env, ins, f)
                if r is None:
                    i += 1
                    continue
                if r == 'unwind':
                    outs.append((Outcome(st, 'throw'), env))
                    break
                for (s2, e2) in r:
                    work.append((s2, e2, i + 1))
                break
        except PathEnd:
            continue


def do_call(ex, f, st, env, ins):
    if ins.dbg:
        l = ex.m.line_of(ins.dbg)
        if l:
            ex.cur_dbg = l
    cal = ins.a['callee']
    if cal[0] == 'asm':
        raise Unsupported('inline asm')
    if cal[0] == 'g':
        name = cal[1]
        gi = ex.m.globals.get(name)
        if gi is not None:
            p = ex.global_ptr(st, name)
            name = p.o[1]
    else:
        p = ex.val(st, env, cal)
        if isinstance(p, Ptr) and isinstance(p.o, tuple) and p.o[0] == 'F':
            name = p.o[1]
        else:
            if isinstance(p, Ptr) and p.o == 0:
                ex.oblige(st, ex.site('called function pointer is not null'), False)
                raise PathEnd('null call')
            raise Unsupported('indirect call through %r' % (p,))
    args = []
    for (t, v, at) in ins.a['args']:
        args.append(None if v is None else ex.val(st, env, v))
    dbg = getattr(ex, 'cur_dbg', None)
    r = ex.call(st, name, args, ins)
    ex.cur_dbg = dbg
    return r


# ------------------------------------------------------------------------- loops
def handle_loop(ex, f, item, header):
    region = f.loops[header]
    mode = ex.opts.get('loop_mode', 'auto')
    st0 = item.st
    if mode in ('auto', 'summary'):
        # probe one iteration
        probe = Item(st0.fork(), dict(item.env), header, item.prev)
        info = {}
        ex.muted += 1
        savep = ex.paths
        try:
            outs, exits, backs = explore(ex, f, [probe], region, header, info)
        finally:
            ex.muted -= 1
            ex.paths = savep
        if backs and (mode == 'summary' or not info.get('concrete_exit')):
            try:
                return summarise(ex, f, item, header, region)
            except Unsupported as e:
                if os.environ.get('VP_TRACE'):
                    print('summary failed in', f.name, header, ':', e, file=sys.stderr)
                ex.loop_report.append((ex.fn_stack[-1], 'summary failed: %s' % e))
    return unroll(ex, f, item, header, region)


def unroll(ex, f, item, header, region):
    outs, exits = [], []
    cur = [item]
    cap = ex.unroll_cap
    n = 0
    while cur:
        n += 1
        info = {}
        o, e, b = explore(ex, f, cur, region, header, info)
        outs += o
        exits += e
        for x in b:
            enter(ex, f, x)
        if len(b) > 1:
            b = merge_items(ex, f, b)
        cur = b
        lim = cap if not info.get('concrete_exit') else max(cap, 5000)
        if n > lim:
            raise Unsupported('loop in %s not bounded within %d iterations' % (ex.m.demangled.get(f.name, f.name)[:80], lim))
    ex.loop_report.append((ex.fn_stack[-1], 'unrolled completely, %d iterations' % n))
    return outs, exits


class Loc:
    """a location changed by a loop"""

    def __init__(self, kind, key, init):
        self.kind = kind      # 'phi' | 'cell' | 'range' | 'ghost'
        self.key = key
        self.init = init
        self.gen = None       # generic value
        self.w = None
        self.closed = None    # fn(n) -> value
        self.arr_closed = None
        self.len_closed = None


def get_loc(ex, it, loc):
    if loc.kind == 'phi':
        return it.env.get(loc.key)
    if loc.kind == 'ghost':
        return it.st.ghost.get(loc.key)
    oid, off = loc.key[:2]
    o = it.st.mem.get(oid)
    if o is None:
        return None
    if loc.kind == 'cell':
        c = o.cells.get(off)
        return None if c is None else c
    for r in o.ranges:
        if r[0] == off:
            return r
    return None


def diff_mem(S0, it, known):
    """locations whose value differs between state S0 and item it"""
    out = []
    for oid, a in S0.mem.items():
        b = it.st.mem.get(oid)
        if b is None:
            raise Unsupported('object freed in loop')
        if a is b:
            continue
        for off in set(a.cells) | set(b.cells):
            if ('cell', (oid, off)) in known:
                continue
            x, y = a.cells.get(off), b.cells.get(off)
            if x is None and y is None:
                continue
            if x is not None and y is not None and x[0] == y[0] and same_val(x[1], y[1]):
                continue
            out.append(('cell', (oid, off), x))
        rb = {r[0]: r for r in b.ranges}
        for r in a.ranges:
            if ('range', (oid, r[0])) in known:
                continue
            q = rb.get(r[0])
            if q is None:
                raise Unsupported('byte range vanished in loop')
            if q[2] is not r[2]:
                out.append(('range', (oid, r[0]), r))
        for r in b.ranges:
            if r[0] not in [x[0] for x in a.ranges] and ('newrange', (oid, r[0])) not in known:
                raise Unsupported('arrayify in loop')
    for k, v in it.st.ghost.items():
        if ('ghost', k) in known:
            continue
        if not same_val(S0.ghost.get(k), v):
            out.append(('ghost', k, S0.ghost.get(k)))
    return out


def generic(v, name):
    """(generic value, width)"""
    if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
        return fresh_bool(name)
    if isinstance(v, Ptr):
        if v.o == 0 or (isinstance(v.o, tuple) and v.o[0] in 'FE'):
            return Poison('pointer changes in loop')
        return Ptr(v.o, fresh_bv(name + '.off', 64), v.h)
    if isinstance(v, PInt):
        return Poison('pointer bits change in loop')
    if isinstance(v, StrVal):
        return StrVal(fresh_bv(name + '.len', 64), Base(name + '.data', v.w), v.w, v.kind, v.size, v.nul)
    if isinstance(v, AbsVal):
        if hasattr(v, 'generic'):
            return v.generic(name)
        return Poison('abstract value changes in loop')
    return None


def inv_assume(ex, s, inv):
    g = inv(s)
    if isinstance(g, Forall):
        s.foralls.append(g)
    else:
        s.pc.append(B(g))


def inv_holds(ex, s, inv):
    """a property-supplied invariant: a formula, or Forall(None, fn) for all 64-bit values"""
    g = inv(s)
    if g is None:
        return False
    extra = []
    if isinstance(g, Forall):
        k = fresh_bv('inv', 64)
        g, extra = g.inst(k), [k]
    return ex.prove(s, B(g), 20000, extra_terms=extra)[0] == 'proved'


def summarise(ex, f, item, header, region):
    m = ex.m
    st0, env0 = item.st, item.env
    phis = [i for i in f.blocks[header] if i.op == 'phi']
    start_idx = _fresh[0]
    fname = short_fn(ex, f)
    locs = {}
    for p in phis:
        v = env0[p.res]
        l = Loc('phi', p.res, v)
        t = m.resolve(p.ty)
        l.w = t[1] if t[0] == 'int' else 32 if t[0] == 'float' else 64
        locs[('phi', p.res)] = l

    axioms = []
    invs = []
    n = fresh_bv('iter', 64)
    names_ok_after = {n.decl().name()}

    def build(use_closed, K, at_n=n):
        """state at the loop head in iteration n"""
        s = st0.fork()
        e = dict(env0)
        for key, l in locs.items():
            v = value_at(l, at_n) if use_closed else l.gen
            if l.kind == 'phi':
                e[l.key] = v
            elif l.kind == 'ghost':
                s.ghost[l.key] = v
            elif l.kind == 'cell':
                o = s.wobj(l.key[0])
                if v is None:
                    o.cells.pop(l.key[1], None)
                else:
                    o.cells[l.key[1]] = (l.size, v)
            else:
                o = s.wobj(l.key[0])
                for i, r in enumerate(o.ranges):
                    if r[0] == l.key[1]:
                        o.ranges[i] = (r[0], r[1], v)
        for k in K:
            s.pc.append(k)
        for stream, base in axioms:
            s.pc.append(B(stream.axiom(add(base, at_n))))
        for inv in invs:
            inv_assume(ex, s, inv)
        return Item(s, e, header, item.prev)

    def value_at(l, k):
        if l.closed is not None:
            return l.closed(k)
        g = l.gen
        if isinstance(g, StrVal):
            nn = l.len_closed(k) if l.len_closed else g.n
            aa = l.arr_closed(k) if l.arr_closed else g.arr
            return g.upd(n=nn, arr=aa)
        if l.kind == 'range' and l.arr_closed:
            return l.arr_closed(k)
        return g

    def mkgen(l):
        v = l.init
        nm = 'lp.%s' % (l.key if isinstance(l.key, str) else '%s_%s' % l.key[:2])
        nm = nm.replace('!', '_')
        if l.kind == 'phi' or l.kind == 'ghost':
            g = generic(v, nm)
            if g is None:
                g = fresh_bv(nm, l.w or v.size())
            l.gen = g
        elif l.kind == 'cell':
            if v is None:
                l.gen = None
                l.size = 0
                return
            sz, val = v
            l.size = sz
            l.w = 8 * sz
            g = generic(val, nm)
            if g is None:
                g = fresh_bv(nm, 8 * sz)
            l.gen = g
        else:
            l.gen = Base(nm, 8)

    for l in locs.values():
        mkgen(l)
    ex.muted += 1
    savep = ex.paths
    try:
        # ---- A: which locations change
        for rnd in range(8):
            it = build(False, [])
            S0 = it.st.fork()
            outs, exits, backs = explore(ex, f, [it], region, header)
            if not backs:
                raise Unsupported('loop never repeats')
            new = []
            for b in backs:
                for (kind, key, init) in diff_mem(S0, b, locs):
                    if (kind, key) not in locs:
                        if kind == 'cell' and isinstance(init, tuple) and isinstance(init[1], Ptr):
                            # must stay within the same object
                            pass
                        if kind == 'cell':
                            o0 = st0.mem.get(key[0])
                            init = o0.cells.get(key[1]) if o0 else None
                        elif kind == 'ghost':
                            init = st0.ghost.get(key)
                        else:
                            init = [r for r in st0.mem[key[0]].ranges if r[0] == key[1]][0]
                        l = Loc(kind, key, init)
                        if kind == 'ghost' and z3.is_expr(init):
                            l.w = init.size() if z3.is_bv(init) else 1
                        mkgen(l)
                        locs[(kind, key)] = l
                        new.append(l)
            if not new:
                break
        else:
            raise Unsupported('loop effects do not stabilise')
        # phis whose back value has another object
        for b in backs:
            enter(ex, f, b)
        # ---- B: closed forms for integers
        for key, l in list(locs.items()):
            infer_int(ex, l, [get_loc(ex, b, l) for b in backs])
        # property supplied recurrences (fold functions): a location whose value at entry is F_j(base) is
        # conjectured to be F_j(base + n); conjectures that are not inductive are dropped
        cand = []
        for stream in ex.streams:
            hit = False
            for l in locs.values():
                if l.closed is not None or l.gen is None or not z3.is_bv(l.gen) or l.gen.size() != stream.w:
                    continue
                init = l.init[1] if l.kind == 'cell' else l.init
                for fn, base in stream.candidates():
                    s1 = st0.fork()
                    s1.pc.append(B(stream.axiom(base)))
                    if ex.prove(s1, eq(init, fn(base), stream.w), 3000)[0] == 'proved':
                        l.closed = lambda k, fn=fn, base=base: Z(fn(add(base, k)), stream.w)
                        cand.append((l, stream, base))
                        hit = True
                        if (stream, base) not in axioms:
                            axioms.append((stream, base))
                        break
        while cand:
            it = build(True, [])
            outs, exits, backs = explore(ex, f, [it], region, header)
            dropped = False
            for b in backs:
                enter(ex, f, b)
                for c in list(cand):
                    l = c[0]
                    v1 = get_loc(ex, b, l)
                    v1 = v1[1] if l.kind == 'cell' else v1
                    if ex.prove(b.st, eq(v1, l.closed(n + 1), c[1].w), 20000)[0] != 'proved':
                        l.closed = None
                        cand.remove(c)
                        dropped = True
            if not dropped:
                break
        # property supplied invariants of the state at the loop head; the ones that are not inductive are dropped
        for inv in ex.loop_invs:
            if inv_holds(ex, st0, inv):
                invs.append(inv)
        while invs:
            it = build(True, [])
            outs, exits, backs = explore(ex, f, [it], region, header)
            bad = [inv for inv in invs if any(not inv_holds(ex, b.st, inv) for b in backs)]
            if not bad:
                break
            invs[:] = [i for i in invs if i not in bad]
        # ---- C: bounds on the iteration count
        K = bound_candidates(ex, f, n, build, region, header, st0, locs, phis)
        # ---- D: closed forms for arrays
        it = build(True, K)
        base_len = len(it.st.pc)
        outs, exits, backs = explore(ex, f, [it], region, header)
        for b in backs:
            enter(ex, f, b)
        for key, l in list(locs.items()):
            infer_arr(ex, f, l, [get_loc(ex, b, l) for b in backs], n, K, start_idx, st0, backs)
        # ---- E: what held in earlier iterations
        allowed = lambda nm: nm == n.decl().name() or not_fresh(nm, start_idx)
        conds = []
        # re-run with array closed forms, so conditions mention no havocked array
        it = build(True, K)
        base_len = len(it.st.pc)
        outs, exits, backs = explore(ex, f, [it], region, header)
        for b in backs:
            ks = []
            for c in b.st.pc[base_len:]:
                c2 = purge(ex, c, allowed)
                if c2 is not None:
                    ks.append(c2)
            conds.append(z3.And(*ks) if len(ks) > 1 else ks[0] if ks else z3.BoolVal(True))
        C = z3.simplify(z3.Or(*conds)) if len(conds) > 1 else conds[0]
        if not all(allowed(x) for x in consts_of(C)):
            C = z3.BoolVal(True)
    finally:
        ex.muted -= 1
        ex.paths = savep

    # ---- final run, with obligations
    it = build(True, K)
    fa = None
    if not z3.is_true(C):
        fa = Forall(n, lambda mm, C=C: [N(z3.substitute(C, (n, Z(mm, 64))))], 'earlier iterations of ' + fname)
        it.st.foralls.append(fa)
        it.st.pc.append(z3.Or(n == 0, z3.substitute(C, (n, n - 1))))
    outs, exits, backs = explore(ex, f, [it], region, header)
    for b in backs:
        enter(ex, f, b)
    # ---- consecution: every back edge re-establishes the invariant at n+1
    nm = 'loop invariant of %s is inductive' % fname
    for b in backs:
        goals = []
        for key, l in locs.items():
            if isinstance(l.gen, Poison) or l.gen is None:
                continue
            v1 = get_loc(ex, b, l)
            if v1 is None:
                raise Unsupported('loop location vanished')
            if l.kind == 'cell':
                v1 = v1[1]
            elif l.kind == 'range':
                v1 = v1[2]
            goals += same_goals(l, v1, value_at(l, n + 1), n)
        for k in K:
            goals.append(z3.substitute(k, (n, n + 1)))
        if any(not inv_holds(ex, b.st, inv) for inv in invs):
            raise Unsupported('supplied loop invariant not inductive')
        for g in goals:
            st, _ = ex.prove(b.st, g)
            if st != 'proved':
                raise Unsupported('inferred loop invariant not inductive')
        if not ex.muted:
            from .exec import Ob
            o = Ob()
            o.name = nm
            o.status = 'proved'
            o.time = 0
            o.model = None
            o.where = '/'.join(ex.fn_stack[-3:])
            o.backend = 'z3'
            o.detail = '%d clauses' % len(goals)
            ex.obs.append(o)
    if not ex.muted:
        ex.loop_report.append((ex.fn_stack[-1], 'invariant: %s; bounds %s' % (
            ', '.join('%s%s' % (l.key if isinstance(l.key, str) else l.key[1],
                                '' if (l.closed or l.arr_closed or l.len_closed) else '(havoc)')
                      for l in locs.values()), [str(k)[:80] for k in K] + ['%d supplied' % len(invs)] * bool(invs))))
    return outs, exits


def short_fn(ex, f):
    from .exec import short
    return short(ex.m.demangled.get(f.name, f.name))


def not_fresh(nm, start):
    i = nm.rfind('!')
    if i < 0:
        return True
    try:
        return int(nm[i + 1:]) <= start
    except ValueError:
        return True


def purge(ex, c, allowed):
    """weaken c to something over allowed names, or None"""
    if all(allowed(x) for x in consts_of(c)):
        return c
    if z3.is_and(c):
        ks = [purge(ex, x, allowed) for x in c.children()]
        ks = [k for k in ks if k is not None]
        return z3.And(*ks) if ks else None
    return None


def same_goals(l, v1, v2, n):
    if isinstance(v2, StrVal):
        k = fresh_bv('k', 64)
        g = [B(eq(v1.n, v2.n))]
        ag = array_goals(l, v1.arr, n) if l.arr_closed else None
        if ag is not None:
            g += ag
        elif l.arr_closed:
            g.append(z3.Implies(B(ult(k, v2.n)), B(eq(v1.arr.sel(k), v2.arr.sel(k), v2.w))))
        elif not l.arr_closed and l.len_closed is None:
            return []
        if not l.len_closed:
            g = g[1:]
        return g
    if isinstance(v2, FArr):
        if not l.arr_closed:
            return []
        ag = array_goals(l, v1, n)
        if ag is not None:
            return ag
        k = fresh_bv('k', 64)
        return [B(eq(v1.sel(k), v2.sel(k), v2.w))]
    if l.closed is None:
        if isinstance(v2, Ptr):
            if not (isinstance(v1, Ptr) and v1.o == v2.o):
                raise Unsupported('loop pointer moves to another object')
        return []
    if isinstance(v2, Ptr):
        if not (isinstance(v1, Ptr) and v1.o == v2.o):
            raise Unsupported('loop pointer moves to another object')
        return [B(eq(v1.off, v2.off))]
    if isinstance(v2, bool) or z3.is_bool(v2):
        return [B(eq(v1, v2, 1))]
    return [B(eq(v1, v2, l.w))]


def lin(x0, d, k, w):
    """x0 + d*k in width w"""
    kk = Z(k, 64)
    if w < 64:
        kk = z3.Extract(w - 1, 0, kk)
    elif w > 64:
        kk = z3.ZeroExt(w - 64, kk)
    if d == 1:
        t = kk
    else:
        t = kk * z3.BitVecVal(d, w)
    if is_c(x0) and x0 == 0:
        return N(z3.simplify(t)) if is_c(k) else t
    return N(z3.simplify(Z(x0, w) + t)) if is_c(k) else Z(x0, w) + t


def const_delta(g, backs, w):
    d = None
    for v in backs:
        if v is None or isinstance(v, (Ptr, Poison, AbsVal, PInt)):
            return None
        x = diff(v, g, w)
        if x is None:
            return None
        if d is None:
            d = x
        elif d != x:
            return None
    return d


def infer_int(ex, l, vals):
    g = l.gen
    if g is None or isinstance(g, Poison):
        return
    if l.kind == 'cell':
        vals = [None if v is None else v[1] for v in vals]
    if l.kind == 'range':
        return
    init = l.init[1] if l.kind == 'cell' else l.init
    if isinstance(g, Ptr):
        offs = []
        for v in vals:
            if not isinstance(v, Ptr) or v.o != g.o:
                raise Unsupported('loop pointer moves to another object')
            offs.append(v.off)
        d = const_delta(g.off, offs, 64)
        if d is not None:
            l.closed = lambda k, d=d, p=init: Ptr(p.o, lin(p.off, d, k, 64), p.h)
        return
    if isinstance(g, StrVal):
        ns = []
        for v in vals:
            if not isinstance(v, StrVal):
                raise Unsupported('loop string vanishes')
            ns.append(v.n)
        d = const_delta(g.n, ns, 64)
        if d is not None:
            l.len_closed = lambda k, d=d, x=init.n: lin(x, d, k, 64)
        return
    if isinstance(g, AbsVal):
        return
    if z3.is_bool(g):
        return
    d = const_delta(g, vals, l.w)
    if d is not None:
        l.closed = lambda k, d=d, x=init, w=l.w: lin(x, d, k, w)


def atoms(t, acc):
    if z3.is_and(t) or z3.is_or(t) or z3.is_not(t):
        for c in t.children():
            atoms(c, acc)
    elif z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGT,
                                              z3.Z3_OP_UGEQ, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT,
                                              z3.Z3_OP_SGT, z3.Z3_OP_SGEQ, z3.Z3_OP_DISTINCT):
        if z3.is_bv(t.arg(0)):
            acc.append(t)
    elif z3.is_app(t):
        for c in t.children():
            if z3.is_bool(c):
                atoms(c, acc)


def bound_candidates(ex, f, n, build, region, header, st0, locs, phis):
    it = build(True, [])
    base = len(it.st.pc)
    outs, exits, backs = explore(ex, f, [it], region, header)
    ats = []
    for s in [e.st for e in exits] + [b.st for b in backs] + [o.st for o, _ in outs]:
        for c in s.pc[base:]:
            atoms(c, ats)
    nname = n.decl().name()
    cands = []
    seen = set()

    def addc(c):
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c) or c.get_id() in seen:
            return
        if nname not in consts_of(c):
            return
        seen.add(c.get_id())
        cands.append(c)
    gens = set()
    for l in locs.values():
        if l.closed is None and l.gen is not None and not isinstance(l.gen, (Poison, FArr)):
            pass
    # every simple counter does not wrap while n is small; bounds come from comparisons
    for a in ats:
        x, y = a.arg(0), a.arg(1)
        for p, q in ((x, y), (y, x)):
            cp, cq = consts_of(p), consts_of(q)
            if nname not in cp or nname in cq:
                continue
            if not all(not_fresh(z, int(nname.split('!')[-1]) - 1) for z in cq):
                continue
            if not all(z == nname or not_fresh(z, int(nname.split('!')[-1]) - 1) for z in cp):
                continue
            w = p.size()
            d = z3.simplify(z3.substitute(p, (n, n + 1)) - p)
            p0 = z3.simplify(z3.substitute(p, (n, z3.BitVecVal(0, 64))))
            addc(z3.ULE(p, q))
            addc(z3.UGE(p, q))
            addc(p <= q)
            if z3.is_bv_value(d):
                dv = d.as_long()
                neg = dv >> (w - 1) & 1
                c = ((1 << w) - dv) if neg else dv
                if c:
                    cnt = z3.UDiv((p0 - q) if neg else (q - p0), z3.BitVecVal(c, w))
                    cn = z3.ZeroExt(64 - w, cnt) if w < 64 else cnt if w == 64 else z3.Extract(63, 0, cnt)
                    addc(z3.ULE(n, cn))
                    addc(z3.ULE(n, cn + 1))
    if os.environ.get('VP_LOOP'):
        print('ATOMS', ats, file=sys.stderr)
        print('CANDS', cands, file=sys.stderr)
    K = list(cands)
    # initiation
    K = [k for k in K if ex.prove(st0, z3.substitute(k, (n, z3.BitVecVal(0, 64))))[0] == 'proved']
    for rnd in range(12):
        it = build(True, K)
        outs, exits, backs = explore(ex, f, [it], region, header)
        bad = []
        for k in K:
            k1 = z3.substitute(k, (n, n + 1))
            for b in backs:
                if ex.prove(b.st, k1)[0] != 'proved':
                    bad.append(k)
                    break
        if not bad:
            break
        ids = {b.get_id() for b in bad}
        K = [k for k in K if k.get_id() not in ids]
    else:
        K = []
    # drop redundant ones? keep: they are cheap
    return K


def chain_indices(arr, g, out):
    """all indices written between generic base g and arr; None if not of that shape"""
    if arr is g:
        return True
    if isinstance(arr, Store):
        out.append(arr.i)
        return chain_indices(arr.p, g, out)
    if isinstance(arr, IteArr):
        return chain_indices(arr.a, g, out) and chain_indices(arr.b, g, out)
    if isinstance(arr, CopyR) and is_c(arr.n) and arr.n <= 64:
        for i in range(arr.n):
            out.append(S(add(arr.dst, i)))
        return chain_indices(arr.p, g, out)
    return False


def infer_arr(ex, f, l, vals, n, K, start_idx, st0, backs):
    g = l.gen
    if l.kind == 'range':
        ga = g
        init = l.init[2]
        vals = [v[2] for v in vals if v is not None]
        w = 8
    elif isinstance(g, StrVal):
        ga = g.arr
        init = (l.init[1] if l.kind == 'cell' else l.init).arr
        vs = [v[1] if l.kind == 'cell' else v for v in vals]
        vals = [v.arr for v in vs]
        w = g.w
    else:
        return
    if all(v is ga for v in vals):
        l.arr_closed = lambda k, a=init: a
        return
    if len(vals) != 1:
        return
    arr = vals[0]
    idx = []
    if not chain_indices(arr, ga, idx):
        return
    nname = n.decl().name()
    ok = lambda nm: nm == nname or not_fresh(nm, start_idx)
    # affine indices with a common stride
    aff = []
    stride = None
    for i in idx:
        zi = Z(i, 64)
        if not all(ok(x) for x in consts_of(zi)):
            return
        d = z3.simplify(z3.substitute(zi, (n, n + 1)) - zi)
        if not z3.is_bv_value(d):
            return
        d = d.as_long()
        if stride is None:
            stride = d
        elif stride != d:
            return
        a0 = z3.simplify(z3.substitute(zi, (n, z3.BitVecVal(0, 64))))
        aff.append((a0, zi))
    if not stride:
        return
    back = stride >> 63
    if back:
        stride = (1 << 64) - stride
    # offsets relative to the first
    a_ref = aff[0][0]
    rel = {}
    for a0, zi in aff:
        d = z3.simplify(a0 - a_ref)
        if not z3.is_bv_value(d):
            return
        d = d.as_long()
        d = d - (1 << 64) if d >> 63 else d
        rel[d] = zi
    lo = min(rel)
    hi = max(rel)
    if hi - lo >= stride:
        return
    amin = z3.simplify(a_ref + z3.BitVecVal(lo & mask(64), 64))
    ents = []
    gname = ga.name
    for d in sorted(rel):
        zi = rel[d]
        v = arr.sel(S(zi))
        v = Z(v, w)
        # reads of the array itself at an index of this window see the initial contents
        apps = apps_of(v, lambda x: x.decl().name() == gname)
        subs = []
        for x in apps.values():
            r = z3.simplify(x.arg(0) - (a_ref + 0))
            hit = None
            for d2, z2 in rel.items():
                q = z3.simplify(x.arg(0) - z2)
                if z3.is_bv_value(q) and q.as_long() == 0:
                    hit = z2
            if hit is None:
                return
            subs.append((x, Z(init.sel(S(hit)), w)))
        if subs:
            v = z3.substitute(v, *subs)
        v = z3.simplify(v)
        # remove dependence on havocked values if it is only apparent
        for nm in [x for x in consts_of(v) if not ok(x)]:
            for x in list(apps_of(v, lambda y: y.decl().name() == nm).values()):
                if not z3.is_bv(x) or x.num_args():
                    return
                v0 = z3.substitute(v, (x, z3.BitVecVal(0, x.size())))
                if ex.prove(backs[0].st, v == v0)[0] != 'proved':
                    return
                v = z3.simplify(v0)
        ents.append((d - lo, v))

    def closed(k, init=init, amin=amin, stride=stride, ents=ents, n=n, w=w, back=back):
        kk = Z(k, 64)

        def sel(j):
            jj = Z(j, 64)
            if back:
                # window of iteration m starts at amin - stride*m
                top = amin + z3.BitVecVal(stride - 1, 64)
                dd = top - jj
                mm = S(udiv(S(dd), stride))
                rr = S(sub(stride - 1, urem(S(dd), stride)))
                inside = And(ule(jj, top), ult(mm, kk))
            else:
                dd = S(jj - amin)
                mm = S(udiv(dd, stride))
                rr = S(urem(dd, stride))
                inside = And(ule(amin, jj), ult(mm, kk))
            inside = S(inside) if not isinstance(inside, bool) else inside
            if inside is False:
                return init.sel(j)
            r = init.sel(j)
            for (e, v) in ents:
                vm = N(z3.simplify(z3.substitute(v, (n, Z(mm, 64)))))
                c = And(inside, eq(rr, e))
                r = Ite(S(c), vm, r, w)
            return r
        lam = Lam(sel, w)
        lam.tag = (id(l), kk.get_id() if not is_c(k) else k)
        return lam

    def window(j):
        """(in the window of some iteration, which iteration, which entry)"""
        jj = Z(j, 64)
        if back:
            top = amin + z3.BitVecVal(stride - 1, 64)
            dd = S(top - jj)
            return ule(jj, top), udiv(dd, stride), sub(stride - 1, urem(dd, stride))
        dd = S(jj - amin)
        return ule(amin, jj), udiv(dd, stride), urem(dd, stride)
    l.arr_closed = closed
    l.arr_meta = (window, [(zi, d - lo, dict(ents)[d - lo]) for d, zi in sorted(rel.items())], w)


def array_goals(l, arr1, n, limit=None):
    """goals that together imply arr1 == closed(n+1), when arr1 is a chain of writes over closed(n)"""
    meta = getattr(l, 'arr_meta', None)
    if meta is None:
        return None
    window, wr, w = meta

    def base(a, idx):
        if isinstance(a, Store):
            idx.append(a.i)
            return base(a.p, idx)
        if isinstance(a, IteArr):
            return base(a.a, idx) and base(a.b, idx)
        if isinstance(a, CopyR) and is_c(a.n) and a.n <= 64:
            for i in range(a.n):
                idx.append(S(add(a.dst, i)))
            return base(a.p, idx)
        return getattr(a, 'tag', None) == (id(l), Z(n, 64).get_id())
    idx = []
    if not base(arr1, idx):
        return None
    known = [z3.simplify(zi) for zi, _, _ in wr]
    for i in idx:
        if not any(N(z3.simplify(Z(i, 64) - k)) == 0 for k in known):
            return None
    goals = []
    for zi, e, v in wr:
        ins, mm, rr = window(S(zi))
        goals.append(B(And(ins, eq(mm, n), eq(rr, e))))
        goals.append(B(eq(arr1.sel(S(zi)), v, w)))
    j = fresh_bv('k', 64)
    ins, mm, rr = window(j)
    other = And([Not(eq(j, zi)) for zi, _, _ in wr])
    for zi, e, v in wr:
        a = And(ins, ult(mm, n), eq(rr, e))
        b = And(ins, ult(mm, n + 1), eq(rr, e))
        goals.append(B(Implies(other, eq(B(a), B(b), 1))))
    return goals
