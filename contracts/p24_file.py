"""P24 ReadFile / WriteFile: the whole contents or a reported failure"""
from vp.contract import *
from vp.exec import PathEnd

TITLE = 'files'
D = 'src/maidsafe/common/'
REPLAY = {'driver': 'p24.cc', 'sources': [D + x for x in ('utils.cc', 'identity.cc', 'encode.cc', 'error.cc', 'error_categories.cc', 'data_types/data.cc')],
          'libs': ['-lcryptopp', '-lboost_filesystem', '-lboost_program_options', '-lboost_locale', '-lboost_system', '-lboost_thread', '-lpthread', '-ldl'], 'seconds': 12}
APP, ATE, BIN, IN, OUT, TRUNC, NOREPLACE = 1, 2, 4, 8, 16, 32, 64
VB = 256        # where the virtual base of a stream is put


class File:
    """one file: std::ifstream and std::ofstream on it, any operation of which may fail"""

    def __init__(self, f, name, content):
        self.f, self.ex = f, f.ex
        self.name, self.content = name, content
        ex, st = f.ex, f.st
        A = ex.add_handler
        T = 'std::ifstream / std::ofstream: opening, reading, writing and closing may each fail and then set the fail bit, after which nothing is transferred; otherwise they transfer exactly the bytes asked for'
        FS = r'^std::basic_(?:i|o)?fstream<char, .*>::'
        A(FS + r'basic_(?:i|o)?fstream\((char const\*|Str<char> const&), std::_Ios_Openmode\)$', self.ctor, T)
        A(FS + r'basic_(?:i|o)?fstream\(\)$', self.default)
        A(FS + r'open\((char const\*|Str<char> const&), std::_Ios_Openmode\)$', self.open)
        A(FS + r'~basic_(?:i|o)?fstream\(\)$', self.dtor)
        A(FS + r'close\(\)$', self.close)
        A(FS + r'is_open\(\)( const)?$', lambda ex, st, c: self.get(st, c)['open'])
        A(r'^std::(?:basic_istream<char, .*>|istream)::read\(char\*, long\)$', self.read)
        A(r'^std::(?:basic_istream<char, .*>|istream)::gcount\(\) const$', lambda ex, st, c: self.get(st, c)['count'])
        A(r'^std::(?:basic_ostream<char, .*>|ostream)::write\(char const\*, long\)$', self.write)
        A(r'^std::(?:basic_ostream<char, .*>|ostream)::flush\(\)$', self.flush)
        A(r'^std::basic_ios<char, .*>::(good\(\) const|operator bool\(\) const)$', lambda ex, st, c: Not(self.failed(st, c)))
        A(r'^std::basic_ios<char, .*>::(fail\(\) const|bad\(\) const|operator!\(\) const)$', lambda ex, st, c: self.failed(st, c) if 'bad' not in c.d else self.get(st, c)['bad'])
        A(r'^std::basic_ios<char, .*>::eof\(\) const$', lambda ex, st, c: self.get(st, c)['eof'])
        A(r'^std::operator\|\(std::_Ios_Openmode, std::_Ios_Openmode\)$', lambda ex, st, c: S(N(Z(c.args[0], 32) | Z(c.args[1], 32))) if not (is_c(c.args[0]) and is_c(c.args[1])) else c.args[0] | c.args[1])
        A(r'^boost::filesystem::file_size\(boost::filesystem::path const&\)$', self.file_size, 'boost::filesystem::file_size: the size of the file, or an exception')
        A(r'^boost::filesystem::detail::file_size\(', self.file_size_ec)
        A(r'^boost::filesystem::detail::path_algorithms::(has_filename_v\d\(boost::filesystem::path const&\)|find_filename.*)$|^boost::filesystem::path::has_filename\(\) const$', self.has_filename, 'boost::filesystem::path::has_filename: any answer')
        A(r'^std::(runtime_error|exception|logic_error|ios_base::failure)::what\(\) const$', lambda ex, st, c: self.text, 'std::exception::what')
        self.text = ex.alloc(st, 8, 'what')
        ex.store(st, self.text, 1, 0)
        # the vtable: the virtual base is VB bytes after the object
        self.vt = ex.alloc(st, 64, 'vtable of a stream').plus(32)
        ex.store(st, self.vt.plus(-24), 8, VB)
        st.ghost.update({'streams': {}, 'opened': 0, 'transfers': 0, 'written': (), 'sized': None, 'hasname': None, 'fault': False, 'closed': None})
        self.layout = None

    def fault(self, st):
        st.ghost['fault'] = True

    def put(self, st, c, d, **kw):
        s = dict(st.ghost['streams'])
        s[c.args[0].o] = dict(d, **kw)
        st.ghost['streams'] = s

    def get(self, st, c):
        d = st.ghost['streams'].get(c.args[0].o)
        if d is None:
            self.ex.oblige(st, self.ex.site('the stream exists'), False)
            raise PathEnd('no stream')
        return d

    def failed(self, st, c):
        return self.get(st, c)['fail']

    def is_path(self, st, p, by_ref=False):
        ex = self.ex
        n, arr = self.name
        if by_ref:
            sv = ex.get_abs(st, p)
        else:
            sv = ex.strval(st, p.o) if isinstance(p.o, tuple) and p.o[0] == 'S' else None
            ex.oblige(st, ex.site('the name is that of the file'), sv is not None and eq(p.off, 0) is True)
        if sv is None:
            return
        ex.oblige(st, ex.site('the name is that of the file'), eq(sv.n, n))
        k = fresh_bv('k', 64)
        s = st.fork()
        ex.assume(s, ult(k, n))
        ex.oblige(s, ex.site('the name is that of the file'), eq(sv.arr.sel(k), arr.sel(k), 8), extra_terms=[k])

    def default(self, ex, st, c):
        ex.store(st, c.args[0], 8, self.vt)
        self.put(st, c, {'open': False, 'fail': False, 'bad': False, 'eof': False, 'count': 0, 'pos': 0, 'in': 'ifstream' in c.d.split('(')[0], 'pending': False})

    def ctor(self, ex, st, c):
        self.default(ex, st, c)
        return self.open(ex, st, c)

    def open(self, ex, st, c):
        d = self.get(st, c)
        self.is_path(st, c.args[1], 'Str<char>' in c.d)
        mode = S(c.args[2])
        if not is_c(mode):
            raise Unsupported('open mode')
        if d['in']:
            ex.oblige(st, ex.site('the file is opened at its beginning, unchanged'), mode & (APP | ATE | TRUNC | OUT) == 0)
        else:
            ex.oblige(st, ex.site('the file is opened to be overwritten'), mode & (APP | ATE | IN | NOREPLACE) == 0)
        st.ghost['opened'] += 1
        outs = []
        for ok in (True, False):
            s = st.fork()
            self.put(s, c, d, open=ok, fail=not ok)
            if not ok:
                self.fault(s)
            outs.append(Outcome(s, 'ret', None))
        return outs

    def dtor(self, ex, st, c):
        d = dict(st.ghost['streams'])
        d.pop(c.args[0].o, None)
        st.ghost['streams'] = d

    def close(self, ex, st, c):
        d = self.get(st, c)
        if not d['open']:
            self.put(st, c, d, fail=True)
            return None
        outs = []
        for ok in (True, False) if not d['in'] else (True,):
            s = st.fork()
            self.put(s, c, d, open=False, fail=True if not ok else d['fail'], pending=False)
            s.ghost['closed'] = ok
            if not ok:
                self.fault(s)
            outs.append(Outcome(s, 'ret', None))
        return outs

    def flush(self, ex, st, c):
        d = self.get(st, c)
        outs = []
        for ok in (True, False):
            s = st.fork()
            self.put(s, c, d, fail=True if not ok else d['fail'], pending=False)
            if not ok:
                self.fault(s)
            outs.append(Outcome(s, 'ret', c.args[0]))
        return outs

    def read(self, ex, st, c):
        p, n = c.args[1], S(c.args[2])
        d = self.get(st, c)
        if d['fail'] is True or not d['open']:
            self.put(st, c, d, fail=True, count=0)
            return c.args[0]
        # the file may have shrunk or grown since its size was asked for
        left = fresh_bv('left', 64)
        ex.assume(st, ule(left, 1 << 41))
        outs = []
        for whole in (True, False):
            s = st.fork()
            ex.assume(s, Not(ult(left, n)) if whole else ult(left, n))
            k = n if whole else left
            if not ex.feasible(s):
                continue
            src = ex.alloc(s, S(add(left, 1)), 'file')
            pos = d['pos']
            arr = self.content[1]
            s.wobj(src.o).ranges = [(0, S(add(left, 1)), arr if is_c(pos) and pos == 0 else Shift(arr, pos))]
            s2 = s.fork()
            ex.assume(s2, ult(0, k))
            if ex.feasible(s2):
                ex.bounds(s2, p, k, 'read from the file')
            ex.memcpy(s, p, src, k)
            s.ghost['transfers'] += 1
            if not whole:
                self.fault(s)
            self.put(s, c, d, fail=not whole, eof=not whole, count=k, pos=S(add(pos, k)))
            outs.append(Outcome(s, 'ret', c.args[0]))
        return outs

    def write(self, ex, st, c):
        p, n = c.args[1], S(c.args[2])
        d = self.get(st, c)
        if d['fail'] is True or not d['open']:
            self.put(st, c, d, fail=True)
            return c.args[0]
        s2 = st.fork()
        ex.assume(s2, ult(0, n))
        if ex.feasible(s2):
            ex.bounds(s2, p, n, 'written to the file')
            a, base = ex.load_bytes_fn(s2, p)
            seg = (n, a, S(sub(p.off, base)))
        else:
            seg = (0, None, 0)
        st.ghost['written'] = st.ghost['written'] + (seg,)
        outs = []
        for ok in (True, False):
            s = st.fork()
            self.put(s, c, d, fail=not ok, bad=not ok, pending=True)
            if not ok:
                self.fault(s)
            outs.append(Outcome(s, 'ret', c.args[0]))
        return outs

    def file_size(self, ex, st, c):
        self.is_path(st, c.args[0], True)
        ok, bad = st.fork(), st.fork()
        ok.ghost['sized'] = True
        self.fault(bad)
        bad.ghost['sized'] = False
        return [Outcome(ok, 'ret', self.content[0]), ex.throw(bad, '_ZTIN5boost10filesystem16filesystem_errorE', self.exc(bad))]

    def file_size_ec(self, ex, st, c):
        self.is_path(st, c.args[0], True)
        if len(c.args) > 1 and isinstance(c.args[1], Ptr) and c.args[1].o != 0:
            raise Unsupported('file_size with an error code')
        return self.file_size(ex, st, c)

    def exc(self, st):
        """an exception object whose what() can be called"""
        ex = self.ex
        e = ex.alloc(st, 64, 'filesystem_error')
        ex.store(st, e, 8, ex.global_ptr(st, '_ZTVN8maidsafe12common_errorE').plus(16))
        return e

    def has_filename(self, ex, st, c):
        self.is_path(st, c.args[0], True)
        outs = []
        for v in (True, False):
            s = st.fork()
            s.ghost['hasname'] = v
            outs.append(Outcome(s, 'ret', v))
        return outs


def contracts(chk):
    m = chk.ir(['h_file.cc', D + 'utils.cc', D + 'error.cc'])
    IO, LARGE = enum_code('CommonErrors', 'filesystem_io_error'), enum_code('CommonErrors', 'file_too_large')

    def read(f):
        name, n, arr = f.string('path')
        k, content = f.seq('content')
        F = File(f, (n, arr), (k, content))
        v, e = f.out('result', 32), f.out('error', 64)
        outs = f.run(v, e, name)
        for o in outs:
            g = o.st.ghost
            f.ensures(o, 'does not throw', o.kind == 'ret')
            if o.kind != 'ret':
                continue
            if S(o.val) is True or (is_c(o.val) and o.val == 1):
                f.ensures(o, 'returns contents only if the file could be sized, opened and read', not g['fault'])
                f.ensures(o, 'the size of the file was taken', g['sized'] is True)
                f.seq_eq(o, 'the contents', f.abs(o, v), k, lambda i: content.sel(i))
            else:
                f.ensures(o, 'reports an error only if something failed', g['fault'])
                er = f.abs(o, e)
                f.ensures(o, 'filesystem_io_error', isinstance(er, lib_std.ErrVal) and er.cat == 'CommonErrors' and eq(er.code, IO, 32))
            f.ensures(o, 'no stream is left', g['streams'] == {})
        f.reachable('reads', [o for o in outs if o.kind == 'ret' and not o.st.ghost['fault']])
        f.reachable('fails', [o for o in outs if o.st.ghost['fault']])

    def write(f):
        name, n, arr = f.string('path')
        F = File(f, (n, arr), (0, Const(0)))
        v, k, content = f.vec('content')
        outs = f.run(name, v)
        for o in outs:
            g = o.st.ghost
            f.ensures(o, 'does not throw', o.kind == 'ret')
            if o.kind != 'ret':
                continue
            bad = g['fault'] or g['hasname'] is False
            if S(o.val) is True or (is_c(o.val) and o.val == 1):
                f.ensures(o, 'returns true only if the file was opened, written and closed', not bad)
                f.ensures(o, 'the file is opened once', g['opened'] == 1)
                f.ensures(o, 'the file is closed, or flushed, before the result is known', g['closed'] is True)
                total = 0
                for (w, a, off) in g['written']:
                    if a is not None:
                        f.forall(o, 'the contents', w, lambda i, a=a, off=off, t=total: eq(a.sel(S(add(off, i))), content.sel(S(add(t, i))), 8))
                    total = S(add(total, w))
                f.ensures(o, 'all of the contents', eq(total, k))
            else:
                f.ensures(o, 'returns false only if something failed', bad)
                f.ensures(o, 'a path without a file name is not opened', g['hasname'] is not False or g['opened'] == 0)
            f.ensures(o, 'no stream is left', g['streams'] == {})
        f.reachable('writes', [o for o in outs if not o.st.ghost['fault']])
        f.reachable('fails', [o for o in outs if o.st.ghost['fault']])

    chk.fn('ReadFile', m, 'f_read', read)
    chk.fn('WriteFile', m, 'f_write', write)
