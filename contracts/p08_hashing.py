"""P08 what is fed to a hash algorithm.

Rec is an algorithm whose Update appends to a string.  For every hashable type the contract gives the encoding enc(x)
as a list of pieces of the value, and states  stream' == stream ++ enc(x)  for all values, lengths and earlier streams."""
from vp.contract import *

TITLE = 'hashing protocol'
D = 'src/maidsafe/common/'
REPLAY = {'driver': 'p08.cc', 'sources': [D + 'crypto.cc', D + 'encode.cc', D + 'error.cc', D + 'error_categories.cc'],
          'libs': ['-lcryptopp', '-lboost_system', '-lboost_thread', '-lpthread'], 'seconds': 10}
EVIDENCE = {'specification': 'encodings as documented in hash/*.h, written out in contracts/p08_hashing.py'}


def raw(off, n):
    return ('raw', off, n)


def flt(off, n):
    return ('flt', off, n)


E8 = [raw(0, 8)]
# (size of the value, its pieces)
FIXED = {
    'h_bool': (1, [('bool', 0, 1)]), 'h_char': (1, [raw(0, 1)]), 'h_i8': (1, [raw(0, 1)]), 'h_u8': (1, [raw(0, 1)]),
    'h_i16': (2, [raw(0, 2)]), 'h_u16': (2, [raw(0, 2)]), 'h_i32': (4, [raw(0, 4)]), 'h_u32': (4, [raw(0, 4)]),
    'h_i64': (8, E8), 'h_u64': (8, E8), 'h_wchar': (4, [raw(0, 4)]), 'h_float': (4, [flt(0, 4)]), 'h_double': (8, [flt(0, 8)]),
    'h_pair_cont': (8, E8), 'h_pair_pad': (16, [raw(0, 1), raw(8, 8)]), 'h_pair_pad2': (16, [raw(0, 8), raw(8, 1)]),
    'h_pair_dbl': (16, [flt(0, 8), raw(8, 4)]), 'h_pair_elem': (16, [raw(0, 8), raw(8, 2)]),
    'h_pair_nest': (8, [raw(0, 1), raw(2, 2), raw(4, 4)]),
    # libstdc++ stores the components of a tuple last to first
    'h_tuple3': (16, [raw(12, 1), raw(8, 4), raw(0, 8)]), 'h_tuple0': (1, []), 'h_tuple2': (16, [flt(8, 8), raw(0, 1)]),
    'h_elem': (8, E8), 'h_member': (8, [raw(4, 4), raw(0, 4)]),
    'h_sav': (8, [raw(0, 1), raw(4, 4)]), 'h_vsav': (4, [raw(0, 4), ('const', 7, 4)]),
    'h_nsav': (8, [raw(0, 4), raw(4, 1)]), 'h_nvsav': (4, [raw(0, 4), ('const', 0, 4)]),
    'h_ser': (12, [raw(0, 1), raw(4, 4), raw(8, 2)]), 'h_seramp': (8, [raw(0, 1), raw(4, 4)]),
    'h_vser': (4, [raw(0, 4), ('const', 0, 4)]), 'h_nser': (8, [raw(0, 4), raw(4, 1)]),
    'h_nvser': (4, [raw(0, 4), ('const', 9, 4)]),
}
# (number of elements, their stride, the pieces of one): fixed-length ranges, stored in place
ARRAYS = {
    'h_arr_u8': (16, 1, [raw(0, 1)]), 'h_arr_u16': (3, 2, [raw(0, 2)]), 'h_arr_double': (2, 8, [flt(0, 8)]),
    'h_carr': (3, 4, [raw(0, 4)]), 'h_carr_elem': (2, 8, E8),
}
# (representation, stride, pieces): ranges of any length
RANGES = {
    'h_string': ('string', 1, [raw(0, 1)]), 'h_vec_u8': ('vec', 1, [raw(0, 1)]), 'h_string_ref': ('ptrlen', 1, [raw(0, 1)]),
    'h_vec_u16': ('cont', 2, [raw(0, 2)]), 'h_vec_u64': ('cont', 8, E8), 'h_vec_double': ('cont', 8, [flt(0, 8)]),
    'h_vec_elem': ('cont', 8, E8), 'h_vec_pair': ('cont', 16, [raw(0, 1), raw(8, 8)]), 'h_vec_cpair': ('cont', 4, [raw(0, 4)]),
    'h_list': ('cont', 8, E8), 'h_flist': ('cont', 8, E8), 'h_set': ('cont', 8, E8),
    'h_list_u16': ('cont', 2, [raw(0, 2)]), 'h_set_u16': ('cont', 2, [raw(0, 2)]),
    'h_map': ('cont', 16, [raw(0, 8), raw(8, 8)]), 'h_map_u8': ('cont', 16, [raw(0, 1), raw(8, 8)]),
    'h_range_ptr': ('ptrs', 2, [raw(0, 2)]), 'h_range_elem': ('ptrs', 8, E8), 'h_range_fwd': ('ptrs', 8, E8),
    'h_init': ('ptrlen', 2, [raw(0, 2)]), 'h_init_elem': ('ptrlen', 8, E8),
}


def piece_bytes(arr, base, piece):
    """the bytes which 'piece' of the value at arr[base..] contributes"""
    k, off, n = piece
    if k == 'const':
        return [(off >> (8 * j)) & 255 for j in range(n)]
    b = [arr.sel(add(base, off + j)) for j in range(n)]
    if k == 'flt':
        w = z3.Concat(*[Z(x, 8) for x in reversed(b)])
        zero = z3.Extract(8 * n - 2, 0, w) == 0
        return [z3.If(zero, z3.BitVecVal(0, 8), Z(x, 8)) for x in b]
    return b


def cat_bytes(arr, base, pieces):
    out = []
    for p in pieces:
        out += piece_bytes(arr, base, p)
    return out


def le8(n):
    return [z3.Extract(8 * j + 7, 8 * j, Z(n, 64)) for j in range(8)]


STDCONT = r'(const )?std::(__cxx11::)?(vector|list|forward_list|set|map|_Rb_tree)<.*> ?>::'


def containers(ex, boxes):
    """std containers: the elements are an array in memory, an iterator is a pointer to an element (assumed contract)"""
    def get(what):
        def h(ex, st, c):
            b = boxes.get(c.args[0].o)
            if b is None:
                return NotImplemented
            d, n, stride = b
            return {'begin': d, 'data': d, 'end': d.plus(mul(n, stride)), 'size': n, 'empty': z3.If(B(eq(n, 0)), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))}[what]
        return h
    for w in ('begin', 'end', 'data', 'size', 'empty'):
        ex.add_handler(STDCONT + r'c?%s\(\) const$' % w, get(w), 'iteration over std containers visits the elements in order')
    strides = {b[0].o: b[2] for b in boxes.values()}

    def inc(ex, st, c):
        p = ex.load(st, c.args[0], 8)
        ex.store(st, c.args[0], 8, p.plus(strides[p.o]))
        return c.args[0]

    def deref(ex, st, c):
        return ex.load(st, c.args[0], 8)
    IT = r'std::(_List|_Fwd_list|_Rb_tree)_const_iterator<.*>::operator'
    ex.add_handler(IT + r'\+\+\(\)$', inc)
    ex.add_handler(IT + r'(\*|->)\(\) const$', deref)


def contracts(chk):
    m = chk.ir(['h_hash.cc'])

    def grown(f, o, out, n0, a0, n):
        """the stream is 'before' plus n more bytes"""
        sv = f.abs(o, out)
        f.ensures(o, 'length of what is fed', eq(sv.n, add(n0, n)))
        f.forall(o, 'what was fed before is untouched', n0, lambda k: eq(sv.arr.sel(k), a0.sel(k), 8))
        return sv

    def outcome(f):
        f.reachable('returns', f.rets())
        for o in f.throws():
            f.ensures(o, 'does not throw', False)
        return f.rets()

    def fixed(f, size, pieces):
        out, n0, a0 = f.string('before')
        x, arr = f.bytes('x', size)
        for p in pieces:
            if p[0] == 'bool':
                f.requires(ule(arr.sel(p[1]), 1, 8))
        f.run(out, x)
        for o in outcome(f):
            want = cat_bytes(arr, 0, pieces)
            sv = grown(f, o, out, n0, a0, len(want))
            for j, b in enumerate(want):
                f.ensures(o, 'byte %d of the encoding' % j, eq(sv.arr.sel(add(n0, j)), b, 8))
            for j in range(size):
                f.ensures(o, 'the value is not changed', eq(f.ex.load(o.st, x.plus(j), 1), arr.sel(j), 8))
    for name, (size, pieces) in FIXED.items():
        chk.fn(name, m, name, lambda f, size=size, pieces=pieces: fixed(f, size, pieces))

    def ranged(f, out, n0, a0, arr, n, stride, pieces):
        esz = sum(p[2] for p in pieces)
        for o in outcome(f):
            sv = grown(f, o, out, n0, a0, add(mul(n, esz), 8))
            for j in range(esz):
                f.forall(o, 'byte %d of the encoding of element k' % j, n,
                         lambda k: eq(sv.arr.sel(add(add(n0, mul(k, esz)), j)), cat_bytes(arr, mul(k, stride), pieces)[j], 8))
            for j, b in enumerate(le8(n)):
                f.ensures(o, 'byte %d of the number of elements' % j, eq(sv.arr.sel(add(add(n0, mul(n, esz)), j)), b, 8))

    def array(f, n, stride, pieces):
        out, n0, a0 = f.string('before')
        x, arr = f.bytes('x', n * stride)
        f.run(out, x)
        ranged(f, out, n0, a0, arr, n, stride, pieces)
    for name, (n, stride, pieces) in ARRAYS.items():
        chk.fn(name, m, name, lambda f, n=n, stride=stride, pieces=pieces: array(f, n, stride, pieces))

    def rng(f, rep, stride, pieces):
        out, n0, a0 = f.string('before')
        if rep in ('string', 'vec'):
            x, n, arr = f.string('x') if rep == 'string' else f.vec('x')
        else:
            n = f.bv('n', 64)
            f.requires(ule(n, 1 << 40))
            d, arr = f.bytes('elements', mul(n, stride))
            x = f.ex.alloc(f.st, 64, 'x')
            if rep == 'ptrlen':
                f.ex.store(f.st, x, 8, d)
                f.ex.store(f.st, x.plus(8), 8, n)
            elif rep == 'ptrs':
                f.ex.store(f.st, x, 8, d)
                f.ex.store(f.st, x.plus(8), 8, d.plus(mul(n, stride)))
            else:
                containers(f.ex, {x.o: (d, n, stride)})
        f.run(out, x)
        ranged(f, out, n0, a0, arr, n, stride, pieces)
    for name, (rep, stride, pieces) in RANGES.items():
        chk.fn(name, m, name, lambda f, rep=rep, stride=stride, pieces=pieces: rng(f, rep, stride, pieces))

    def multi(f, amp):
        out, n0, a0 = f.string('before')
        vs = [f.bytes('abc'[i], s) for i, s in enumerate((1, 4, 8))]
        f.run(out, *[v[0] for v in vs])
        for o in outcome(f):
            want = [v[1].sel(j) for v, s in zip(vs, (1, 4, 8)) for j in range(s)]
            sv = grown(f, o, out, n0, a0, 13)
            for j, b in enumerate(want):
                f.ensures(o, 'byte %d: the arguments in order' % j, eq(sv.arr.sel(add(n0, j)), b, 8))
            if amp:
                f.ensures(o, 'returns the algorithm', eq(o.val, 1, 1))
    chk.fn('hash(a, b, c)', m, 'h_multi', lambda f: multi(f, False))
    chk.fn('hash & a & b & c', m, 'h_amp', lambda f: multi(f, True))

    # SeededHash<KeyedRec>: the digest is seed ++ enc(values), so it depends on nothing but the seed and the values
    def seeded(f, args):
        h, seed = f.bytes('seed', 16)
        out = f.ex.alloc(f.st, 32, 'digest')
        call = []
        for a in args:
            if a == 'string':
                p, n, arr = f.string('x')
            else:
                p, _ = f.bytes('x%d' % len(call), a)
            call.append(p)
        f.run(out, h, *call)
        for o in outcome(f):
            sv = f.abs(o, out)
            if args == ['string']:
                f.ensures(o, 'length of the digest', eq(sv.n, add(n, 24)))
                f.forall(o, 'the value follows the seed', n, lambda k: eq(sv.arr.sel(add(k, 16)), arr.sel(k), 8))
                tail = [(add(n, 16 + j), b) for j, b in enumerate(le8(n))]
            else:
                vals = [f.ex.load(o.st, p.plus(j), 1) for p, a in zip(call, args) for j in range(a)]
                tail = [(16 + j, b) for j, b in enumerate(vals)]
                f.ensures(o, 'length of the digest', eq(sv.n, 16 + len(vals)))
            for j in range(16):
                f.ensures(o, 'byte %d of the seed' % j, eq(sv.arr.sel(j), seed.sel(j), 8))
                f.ensures(o, 'the seed stays', eq(f.ex.load(o.st, h.plus(j), 1), seed.sel(j), 8))
            for k, b in tail:
                f.ensures(o, 'the values follow the seed', eq(sv.arr.sel(k), b, 8))
    chk.fn('SeededHash(string)', m, 's_one', lambda f: seeded(f, ['string']))
    chk.fn('SeededHash(u32, Elem)', m, 's_two', lambda f: seeded(f, [4, 8]))

    def copy(f):
        h, seed = f.bytes('seed', 16)
        x = f.ex.alloc(f.st, 16, 'copy')
        f.run(x, h)
        for o in outcome(f):
            for j in range(16):
                f.ensures(o, 'a copy has the same seed', eq(f.ex.load(o.st, x.plus(j), 1), seed.sel(j), 8))
    chk.fn('SeededHash: copy', m, 's_copy', copy)
