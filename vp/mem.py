"""Object-based memory for the symbolic executor."""
import z3
from .terms import *
from .ir import Unsupported


class Ptr:
    __slots__ = ('o', 'off', 'h')

    def __init__(self, o, off=0, h=None):
        self.o = o
        self.off = off
        self.h = off if isinstance(off, int) else h

    def __repr__(self):
        return 'Ptr(%r,%r)' % (self.o, self.off)

    def plus(self, d):
        if is_c(self.off) and is_c(d):
            return Ptr(self.o, (self.off + d) & mask(64))
        n = add(self.off, d)
        n = S(n) if not is_c(n) else n
        return Ptr(self.o, n, self.h)


NULL = Ptr(0, 0)


def fptr(name):
    return Ptr(('F', name), 0)


class PInt:
    """integer made from a pointer"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'PInt(%r)' % self.p


class Poison:
    """value that must not be used"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why


class AbsVal:
    """abstract model value stored at an address (e.g. a std::string)"""
    size = 8

    def same(self, o):
        return self is o


class StrVal(AbsVal):
    """contiguous sequence: std::string / std::vector<integer>"""

    def __init__(self, n, arr, w=8, kind='string', size=32, nul=True):
        self.n = n
        self.arr = arr
        self.w = w
        self.kind = kind
        self.size = size
        self.nul = nul

    def upd(self, n=None, arr=None):
        return StrVal(self.n if n is None else n, self.arr if arr is None else arr, self.w,
                      self.kind, self.size, self.nul)

    def same(self, o):
        if self is o:
            return True
        if not isinstance(o, StrVal) or o.kind != self.kind:
            return False
        return self.arr is o.arr and (self.n is o.n or eq(self.n, o.n) is True)

    def __repr__(self):
        return '%s(n=%s)' % (self.kind, self.n)


class MObj:
    __slots__ = ('size', 'cells', 'ranges', 'name', 'ro', 'ty', 'owner', 'kind', 'align')

    def __init__(self, size, name='', ro=False, ty=None, kind='heap'):
        self.size = size
        self.cells = {}
        self.ranges = []  # [(start, len, FArr)]
        self.name = name
        self.ro = ro
        self.ty = ty
        self.owner = None
        self.kind = kind

    def clone(self, owner):
        o = MObj.__new__(MObj)
        o.size = self.size
        o.cells = dict(self.cells)
        o.ranges = list(self.ranges)
        o.name = self.name
        o.ro = self.ro
        o.ty = self.ty
        o.kind = self.kind
        o.owner = owner
        return o


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr):
        return isinstance(b, Ptr) and a.o == b.o and (a.off is b.off or eq(a.off, b.off) is True)
    if isinstance(a, PInt):
        return isinstance(b, PInt) and same_val(a.p, b.p)
    if isinstance(a, AbsVal):
        return isinstance(b, AbsVal) and a.same(b)
    if isinstance(a, (int, bool)):
        return isinstance(b, (int, bool)) and a == b
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and \
            all(same_val(x, y) for x, y in zip(a, b))
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return False


class Exc:
    """an exception in flight: type name (demangled class) + payload pointer"""
    __slots__ = ('ti', 'p')

    def __init__(self, ti, p):
        self.ti = ti
        self.p = p

    def __repr__(self):
        return 'Exc(%s)' % self.ti
