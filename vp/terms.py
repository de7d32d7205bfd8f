"""Values: Python ints (concrete, unsigned) or z3 bit-vectors; Python bools or z3 Bools for i1."""
import z3

_fresh = [0]


def fresh_name(p):
    _fresh[0] += 1
    return '%s!%d' % (p, _fresh[0])


def fresh_bv(p, w):
    return z3.BitVec(fresh_name(p), w)


def fresh_bool(p):
    return z3.Bool(fresh_name(p))


def reset_fresh():
    _fresh[0] = 0


def is_c(v):
    return isinstance(v, int)


def Z(v, w):
    """to z3 bit-vector"""
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def N(t):
    """normalise: fold constants"""
    if isinstance(t, (int, bool)):
        return t
    if z3.is_bv_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def S(t):
    if isinstance(t, (int, bool)):
        return t
    return N(z3.simplify(t))


def add(a, b, w=64):
    if is_c(a) and is_c(b):
        return (a + b) & mask(w)
    if is_c(a) and a == 0:
        return b
    if is_c(b) and b == 0:
        return a
    return Z(a, w) + Z(b, w)


def sub(a, b, w=64):
    if is_c(a) and is_c(b):
        return (a - b) & mask(w)
    if is_c(b) and b == 0:
        return a
    if not is_c(a) and not is_c(b) and a.eq(b):
        return 0
    return Z(a, w) - Z(b, w)


def mul(a, b, w=64):
    if is_c(a) and is_c(b):
        return (a * b) & mask(w)
    for x, y in ((a, b), (b, a)):
        if is_c(x):
            if x == 0:
                return 0
            if x == 1:
                return y
    return Z(a, w) * Z(b, w)


def diff(a, b, w=64):
    """constant difference a-b if syntactically known, else None"""
    if is_c(a) and is_c(b):
        return (a - b) & mask(w)
    d = z3.simplify(Z(a, w) - Z(b, w))
    if z3.is_bv_value(d):
        return d.as_long()
    return None


def B(v):
    """to z3 Bool"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(bool(v))
    if z3.is_bv(v):
        return v != 0
    return v


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            out += list(x)
        else:
            out.append(x)
    r = []
    for x in out:
        x = N(x) if not isinstance(x, bool) else x
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    return z3.And(*r)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            out += list(x)
        else:
            out.append(x)
    r = []
    for x in out:
        x = N(x) if not isinstance(x, bool) else x
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    return z3.Or(*r)


def Not(x):
    if isinstance(x, bool):
        return not x
    x = N(x)
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b, w):
    """w == 1 means i1 (Bool)"""
    if isinstance(c, bool):
        return a if c else b
    if w == 1:
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return c if a else Not(c)
        return z3.If(c, B(a), B(b))
    if is_c(a) and is_c(b) and a == b:
        return a
    if not is_c(a) and not is_c(b) and a.eq(b):
        return a
    return z3.If(c, Z(a, w), Z(b, w))


def eq(a, b, w=64):
    if isinstance(a, bool) or isinstance(b, bool) or (not is_c(a) and z3.is_bool(a)):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return N(z3.simplify(B(a) == B(b)))
    if is_c(a) and is_c(b):
        return a == b
    if not is_c(a) and not is_c(b) and a.eq(b):
        return True
    return N(Z(a, w) == Z(b, w))


def ult(a, b, w=64):
    if is_c(a) and is_c(b):
        return a < b
    if is_c(b) and b == 0:
        return False
    return z3.ULT(Z(a, w), Z(b, w))


def sle(a, b, w=64):
    if is_c(a) and is_c(b):
        return sgn(a, w) <= sgn(b, w)
    return Z(a, w) <= Z(b, w)


def ule(a, b, w=64):
    if is_c(a) and is_c(b):
        return a <= b
    if is_c(a) and a == 0:
        return True
    if not is_c(a) and not is_c(b) and a.eq(b):
        return True
    return z3.ULE(Z(a, w), Z(b, w))


BOUNDED = {}     # name of a 64-bit constant -> its maximum (the bound is assumed in every state that mentions it)


def bounded_bv(p, mx):
    v = fresh_bv(p, 64)
    BOUNDED[v.decl().name()] = mx
    return v


def linear(t):
    """t = k + sum(coeff * bounded constant) without wrap-around, else None"""
    k = 0
    cs = {}
    work = [(t, 1)]
    while work:
        x, m = work.pop()
        if z3.is_bv_value(x):
            k += m * x.as_long()
            continue
        kd = x.decl().kind()
        if kd == z3.Z3_OP_BADD:
            work += [(c, m) for c in x.children()]
        elif kd == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(0)):
            work.append((x.arg(1), m * x.arg(0).as_long()))
        elif kd == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0 and x.decl().name() in BOUNDED:
            c = cs.setdefault(x.get_id(), [x, 0])
            c[1] += m
        else:
            return None
    top = k
    for x, m in cs.values():
        top += m * BOUNDED[x.decl().name()]
    if k < 0 or top >= 1 << 64:
        return None
    return k, list(cs.values())


def lin_divrem(a, c):
    """(quotient, remainder) of a by the constant c when a is linear over bounded constants and the remainder is constant"""
    if not BOUNDED or is_c(a) or a.size() != 64:
        return None
    l = linear(z3.simplify(a))
    if l is None:
        return None
    k, cs = l
    if any(m % c for _, m in cs):
        return None
    q = k // c
    for x, m in cs:
        q = add(q, mul(x, m // c))
    return q, k % c


def udiv(a, b, w=64):
    if is_c(a) and is_c(b) and b:
        return a // b
    if is_c(b) and b == 1:
        return a
    if w == 64 and is_c(b) and b:
        r = lin_divrem(a, b)
        if r:
            return r[0]
    return z3.UDiv(Z(a, w), Z(b, w))


def urem(a, b, w=64):
    if is_c(a) and is_c(b) and b:
        return a % b
    if is_c(b) and b == 1:
        return 0
    if w == 64 and is_c(b) and b:
        r = lin_divrem(a, b)
        if r:
            return r[1]
    return z3.URem(Z(a, w), Z(b, w))


def zext(a, fw, tw):
    if fw == tw:
        return a
    if fw == 1:
        if isinstance(a, bool):
            return int(a)
        return z3.If(a, z3.BitVecVal(1, tw), z3.BitVecVal(0, tw))
    if is_c(a):
        return a
    return z3.ZeroExt(tw - fw, a)


def sext(a, fw, tw):
    if fw == tw:
        return a
    if fw == 1:
        if isinstance(a, bool):
            return mask(tw) if a else 0
        return z3.If(a, z3.BitVecVal(-1, tw), z3.BitVecVal(0, tw))
    if is_c(a):
        return sgn(a, fw) & mask(tw)
    return z3.SignExt(tw - fw, a)


def trunc(a, fw, tw):
    if fw == tw:
        return a
    if tw == 1:
        if is_c(a):
            return bool(a & 1)
        return N(z3.simplify(z3.Extract(0, 0, a) == 1))
    if is_c(a):
        return a & mask(tw)
    return z3.Extract(tw - 1, 0, a)


def consts_of(t, acc=None, seen=None):
    """uninterpreted constants / functions occurring in a term: set of decl names"""
    if acc is None:
        acc = set()
        seen = set()
    if isinstance(t, (int, bool)):
        return acc
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            stack.extend(x.children())
    return acc


def apps_of(t, pred, seen=None, acc=None):
    if acc is None:
        acc = {}
        seen = set()
    if isinstance(t, (int, bool)):
        return acc
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and pred(x):
                acc[i] = x
            stack.extend(x.children())
    return acc


# ------------------------------------------------------------------ functional arrays
class FArr:
    """Functional array: index bv64 -> element of width w.  Reads build closed terms, so no
    quantifier and no array theory is needed."""
    w = 8

    def sel(self, i):
        raise NotImplementedError


class Base(FArr):
    def __init__(self, name, w=8):
        self.w = w
        self.name = fresh_name(name)
        self.f = z3.Function(self.name, z3.BitVecSort(64), z3.BitVecSort(w))

    def sel(self, i):
        return self.f(Z(i, 64))


class Const(FArr):
    def __init__(self, v, w=8):
        self.w = w
        self.v = v

    def sel(self, i):
        return self.v


class Table(FArr):
    def __init__(self, vals, w=8, default=0, closed=None):
        self.vals = vals
        self.w = w
        self.closed = closed

    def sel(self, i):
        if is_c(i):
            return self.vals[i] if i < len(self.vals) else 0
        i = z3.simplify(i)
        if z3.is_bv_value(i):
            i = i.as_long()
            return self.vals[i] if i < len(self.vals) else 0
        if self.closed is not None:
            return self.closed(i)
        if len(self.vals) > 4096:
            from .ir import Unsupported
            raise Unsupported('symbolic index into a table of %d entries' % len(self.vals))
        # group runs of (value - index) constant
        from collections import Counter
        d = Counter(self.vals).most_common(1)[0][0]
        # runs where value = index + const
        n = len(self.vals)
        runs = []
        j = 0
        while j < n:
            if self.vals[j] == d:
                j += 1
                continue
            k = j
            while k + 1 < n and self.vals[k + 1] != d and \
                    (self.vals[k + 1] - self.vals[k]) == 1:
                k += 1
            if k > j:
                runs.append((j, k, 'lin', (self.vals[j] - j)))
            else:
                while k + 1 < n and self.vals[k + 1] == self.vals[j]:
                    k += 1
                runs.append((j, k, 'const', self.vals[j]))
            j = k + 1
        r = z3.BitVecVal(d, self.w)
        low = z3.Extract(self.w - 1, 0, i) if self.w < 64 else i
        for (j, k, kind, c) in reversed(runs):
            if j == k:
                cond = i == j
            elif j == 0:
                cond = z3.ULE(i, k)
            else:
                cond = z3.And(z3.UGE(i, j), z3.ULE(i, k))
            v = z3.BitVecVal(c, self.w)
            if kind == 'lin':
                v = low + v
            r = z3.If(cond, v, r)
        return r


class Store(FArr):
    def __init__(self, p, i, v):
        self.p = p
        self.i = i
        self.v = v
        self.w = p.w

    def sel(self, k):
        # iterative walk
        chain = []
        a = self
        r = None
        while isinstance(a, Store):
            d = diff(k, a.i)
            if d == 0:
                r = a.v
                break
            if d is None:
                chain.append((a.i, a.v))
            a = a.p
        if r is None:
            r = a.sel(k)
        for (i, v) in reversed(chain):
            r = Ite(eq(k, i), v, r, self.w)
        return r


class CopyR(FArr):
    """parent overwritten at [dst, dst+len) by src[srcoff...]"""

    def __init__(self, p, dst, src, so, n):
        self.p = p
        self.dst = dst
        self.src = src
        self.so = so
        self.n = n
        self.w = p.w

    def sel(self, k):
        d = sub(k, self.dst)
        c = ult(S(d), self.n)
        c = S(c)
        if c is True:
            return self.src.sel(S(add(d, self.so)))
        if c is False:
            return self.p.sel(k)
        return Ite(c, self.src.sel(S(add(d, self.so))), self.p.sel(k), self.w)


class Lam(FArr):
    def __init__(self, f, w=8):
        self.f = f
        self.w = w

    def sel(self, k):
        return self.f(k)


class IteArr(FArr):
    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b
        self.w = a.w

    def sel(self, k):
        return Ite(self.c, self.a.sel(k), self.b.sel(k), self.w)


class Shift(FArr):
    """src viewed from offset so"""

    def __init__(self, src, so):
        self.src = src
        self.so = so
        self.w = src.w

    def sel(self, k):
        return self.src.sel(S(add(k, self.so)))


class Purify:
    """replace division/remainder by a constant c (not a power of two) with fresh q, r and the axioms
    x == c*q + r, r < c, q <= max/c, which determine q and r uniquely"""

    def __init__(self):
        self.memo = {}
        self.keep = []
        self.pairs = {}

    def run(self, f):
        """returns (formula, axioms)"""
        r, ax = self.walk(f)
        return r, ax

    def pair(self, x, c, w):
        k = (x.get_id(), c, w)
        p = self.pairs.get(k)
        if p is None:
            q, r = fresh_bv('q', w), fresh_bv('r', w)
            ax = z3.And(x == z3.BitVecVal(c, w) * q + r, z3.ULT(r, z3.BitVecVal(c, w)),
                        z3.ULE(q, z3.BitVecVal(((1 << w) - 1) // c, w)), z3.ULE(z3.BitVecVal(c, w) * q, x))
            p = (q, r, ax, x)
            self.pairs[k] = p
        return p

    def walk(self, root):
        memo = self.memo
        stack = [root]
        while stack:
            t = stack[-1]
            i = t.get_id()
            if i in memo:
                stack.pop()
                continue
            ch = t.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            axs = frozenset()
            changed = False
            nch = []
            for c in ch:
                n, a = memo[c.get_id()]
                if a:
                    axs = axs | a
                if n is not c:
                    changed = True
                nch.append(n)
            r = t
            if ch:
                k = t.decl().kind()
                if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(nch[1]) \
                        and nch[1].as_long() > 2 and (nch[1].as_long() & (nch[1].as_long() - 1)):
                    q, rr, ax, _ = self.pair(nch[0], nch[1].as_long(), nch[1].size())
                    r = q if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else rr
                    axs = axs | frozenset([ax])
                elif changed:
                    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_CONCAT, z3.Z3_OP_BAND,
                             z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_DISTINCT):
                        r = {z3.Z3_OP_AND: lambda a: z3.And(a), z3.Z3_OP_OR: lambda a: z3.Or(a),
                             z3.Z3_OP_CONCAT: lambda a: z3.Concat(a), z3.Z3_OP_DISTINCT: lambda a: z3.Distinct(a)}.get(
                            k, None)
                        if r is not None:
                            r = r(nch)
                        else:
                            op = {z3.Z3_OP_BADD: lambda a, b: a + b, z3.Z3_OP_BMUL: lambda a, b: a * b,
                                  z3.Z3_OP_BAND: lambda a, b: a & b, z3.Z3_OP_BOR: lambda a, b: a | b,
                                  z3.Z3_OP_BXOR: lambda a, b: a ^ b}[k]
                            r = nch[0]
                            for c in nch[1:]:
                                r = op(r, c)
                    else:
                        r = t.decl()(*nch)
            memo[i] = (r, axs)
            self.keep.append(t)
        return memo[root.get_id()]


# ---- bitwise or of disjoint fields: canonical concatenations (byte assembly, rotations)
def _cut(seg, lo, hi):
    """bits [lo, hi) of a segment (term or 0, width)"""
    t, w = seg
    if t is None:
        return (None, hi - lo)
    if lo == 0 and hi == w:
        return seg
    return (z3.simplify(z3.Extract(hi - 1, lo, t)), hi - lo)


def segments(t, w):
    """fields of t, low first; (None, n) is n zero bits"""
    if is_c(t):
        out, i = [], 0
        while i < w:
            b = (t >> i) & 1
            j = i
            while j < w and ((t >> j) & 1) == b:
                j += 1
            out.append((None, j - i) if not b else (z3.BitVecVal((1 << (j - i)) - 1, j - i), j - i))
            i = j
        return out
    k = t.decl().kind()
    if z3.is_bv_value(t):
        return segments(t.as_long(), w)
    if k == z3.Z3_OP_CONCAT:
        out = []
        for c in reversed(t.children()):
            out += segments(c, c.size())
        return out
    if k == z3.Z3_OP_ZERO_EXT:
        x = t.arg(0)
        return segments(x, x.size()) + [(None, w - x.size())]
    if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and z3.is_bv_value(t.arg(1)):
        n = t.arg(1).as_long()
        if n >= w:
            return [(None, w)]
        xs = segments(t.arg(0), w)
        if n == 0:
            return xs
        out, at = [], 0
        lo, hi = (0, w - n) if k == z3.Z3_OP_BSHL else (n, w)
        for sg in xs:
            a, b = max(lo, at), min(hi, at + sg[1])
            if a < b:
                out.append(_cut(sg, a - at, b - at))
            at += sg[1]
        return [(None, n)] + out if k == z3.Z3_OP_BSHL else out + [(None, n)]
    return [(t, w)]


def or_merge(a, b, w):
    """a | b as a concatenation when no bit is set by both, else None"""
    r = as_rot(a, b, w)
    if r is not None:
        return r
    xs, ys = segments(a, w), segments(b, w)
    if all(s[0] is not None for s in xs) or all(s[0] is not None for s in ys):
        return None
    out = []
    i = j = ai = bj = 0
    while i < len(xs) and j < len(ys):
        n = min(xs[i][1] - ai, ys[j][1] - bj)
        if n > 0:
            x, y = _cut(xs[i], ai, ai + n), _cut(ys[j], bj, bj + n)
            if x[0] is not None and y[0] is not None:
                return None
            out.append(x if x[0] is not None else y)
        ai += n
        bj += n
        if ai == xs[i][1]:
            i, ai = i + 1, 0
        if bj == ys[j][1]:
            j, bj = j + 1, 0
    ts = [t if t is not None else z3.BitVecVal(0, n) for t, n in reversed(out)]
    return z3.simplify(z3.Concat(*ts)) if len(ts) > 1 else ts[0]


def as_rot(a, b, w):
    """(x << k) | (x >> (w - k)) as a rotation"""
    if is_c(a) or is_c(b):
        return None
    if a.decl().kind() == z3.Z3_OP_BLSHR:
        a, b = b, a
    if a.decl().kind() == z3.Z3_OP_BSHL and b.decl().kind() == z3.Z3_OP_BLSHR and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(b.arg(1)):
        k = a.arg(1).as_long()
        if k and k + b.arg(1).as_long() == w and a.arg(0).eq(b.arg(0)):
            return z3.RotateLeft(a.arg(0), k)
    return None


_leaf = {}


def leafish(t):
    """no xor or rotation inside (arguments of functions apart)"""
    r = _leaf.get(t.get_id())
    if r is None:
        k = t.decl().kind()
        if k in (z3.Z3_OP_BXOR, z3.Z3_OP_ROTATE_LEFT, z3.Z3_OP_ROTATE_RIGHT, z3.Z3_OP_EXT_ROTATE_LEFT, z3.Z3_OP_EXT_ROTATE_RIGHT):
            r = False
        elif k == z3.Z3_OP_UNINTERPRETED:
            r = True
        else:
            r = all(leafish(c) for c in t.children())
        _leaf[t.get_id()] = r
        _keys.setdefault(('hold', t.get_id()), t)
    return r


_canon = {}
_keys = {}
_keep = []


def canon(t):
    """a key that is equal for words built by the same additions, xors, rotations and field concatenations up to
    associativity and commutativity (equal keys imply equal values)"""
    h = _canon.get(t.get_id())
    if h is not None:
        return h
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x.get_id() in _canon:
            continue
        if not done:
            stack.append((x, True))
            for c in x.children():
                if c.get_id() not in _canon:
                    stack.append((c, False))
            continue
        k = x.decl().kind()
        ch = [_canon[c.get_id()] for c in x.children()]
        w = x.size() if z3.is_bv(x) else 0
        if z3.is_bv_value(x):
            key = ('c', x.as_long(), w)
        elif k == z3.Z3_OP_BADD:
            acc, cst = [], 0
            for c in ch:
                kk = _keep[c]
                if kk[0] == 'c':
                    cst += kk[1]
                elif kk[0] == '+':
                    acc += kk[1]
                    cst += kk[2]
                else:
                    acc.append(c)
            cst &= mask(w)
            key = ('+', tuple(sorted(acc)), cst, w)
            if len(acc) == 1 and cst == 0:
                key = _keep[acc[0]]
        elif k == z3.Z3_OP_BXOR:
            acc, cst = {}, 0
            for c in ch:
                kk = _keep[c]
                if kk[0] == 'c':
                    cst ^= kk[1]
                elif kk[0] == '^':
                    cst ^= kk[2]
                    for y in kk[1]:
                        acc[y] = acc.get(y, 0) ^ 1
                else:
                    acc[c] = acc.get(c, 0) ^ 1
            ys = tuple(sorted(y for y in acc if acc[y]))
            key = ('^', ys, cst, w)
            if len(ys) == 1 and cst == 0:
                key = _keep[ys[0]]
            elif not ys:
                key = ('c', cst, w)
        elif k in (z3.Z3_OP_ROTATE_LEFT, z3.Z3_OP_ROTATE_RIGHT) or (
                k in (z3.Z3_OP_EXT_ROTATE_LEFT, z3.Z3_OP_EXT_ROTATE_RIGHT) and z3.is_bv_value(x.arg(1))):
            r = (x.params()[0] if k in (z3.Z3_OP_ROTATE_LEFT, z3.Z3_OP_ROTATE_RIGHT) else x.arg(1).as_long()) % w
            if k in (z3.Z3_OP_ROTATE_RIGHT, z3.Z3_OP_EXT_ROTATE_RIGHT):
                r = (w - r) % w
            key = ('rot', r, ch[0], w)
        elif x.num_args() and k != z3.Z3_OP_UNINTERPRETED and leafish(x):
            y = z3.simplify(x)
            _keys.setdefault(('hold', y.get_id()), y)
            key = ('c', y.as_long(), w) if z3.is_bv_value(y) else ('t', y.get_id(), w)
        elif k == z3.Z3_OP_UNINTERPRETED:
            args = tuple(z3.simplify(c).get_id() for c in x.children())
            for c in x.children():
                y = z3.simplify(c)
                _keys.setdefault(('hold', y.get_id()), y)
            key = ('f', x.decl().name(), args, w)
        else:
            key = ('o', k, str(x.decl()), tuple(x.params()) if k in (z3.Z3_OP_EXTRACT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT) else (), tuple(ch), w)
        i = _keys.get(key)
        if i is None:
            i = len(_keep)
            _keys[key] = i
            _keep.append(key)
        _canon[x.get_id()] = i
        _keys.setdefault(('hold', x.get_id()), x)
    return _canon[t.get_id()]


def same_words(goal):
    """goal is a conjunction of equalities between words with equal keys"""
    if isinstance(goal, bool):
        return goal
    if z3.is_and(goal):
        return all(same_words(c) for c in goal.children())
    if z3.is_eq(goal) and z3.is_bv(goal.arg(0)):
        return canon(goal.arg(0)) == canon(goal.arg(1))
    return False
