"""P23 the SQLite wrapper: what each call asks of sqlite3, in which order, and what it makes of the answers"""
from vp.contract import *
from vp.exec import PathEnd

TITLE = 'sqlite wrapper'
D = 'src/maidsafe/common/'
REPLAY = {'driver': 'p23.cc', 'sources': [D + x for x in ('sqlite3_wrapper.cc', 'error.cc', 'error_categories.cc')], 'libs': ['-lboost_filesystem', '-lboost_thread', '-lboost_system', '-lpthread'], 'seconds': 12}
OK, BUSY, NOTADB, ROW, DONE = 0, 5, 26, 100, 101
ATTEMPTS = 200


def slt(a, b, w=64):
    a, b = Z(a, w), Z(b, w)
    return z3.simplify(a < b)


def cstr(ex, st, p, limit=200):
    """a C string whose bytes are known, its words in upper case"""
    out = ''
    for i in range(limit):
        if isinstance(p.o, tuple) and p.o[0] == 'S':
            sv = ex.strval(st, p.o)
            if not is_c(sv.n) or not is_c(p.off):
                raise Unsupported('an SQL text of unknown length')
            b = 0 if p.off + i >= sv.n else S(sv.arr.sel(p.off + i))
        else:
            b = S(ex.load_nc(st, p.plus(i), 1))
        if not is_c(b):
            raise Unsupported('an unknown SQL text')
        if b == 0:
            return ' '.join(out.upper().replace('=', ' = ').replace(';', ' ').split())
        out += chr(b)
    raise Unsupported('an SQL text')


class Sq:
    def __init__(self, f):
        self.f, self.ex = f, f.ex
        ex, st = f.ex, f.st
        T = 'sqlite3: every function returns any result code; an error message is passed out or not; a handle is passed out or not when opening fails'
        A = ex.add_handler
        A(r'^sqlite3_open_v2$', self.open, T)
        A(r'^sqlite3_close(_v2)?$', self.close)
        A(r'^sqlite3_errmsg$', lambda ex, st, c: self.text)
        A(r'^sqlite3_errstr$', lambda ex, st, c: self.text)
        A(r'^sqlite3_exec$', self.exec)
        A(r'^sqlite3_free$', self.free)
        A(r'^sqlite3_busy_timeout$', self.timeout)
        A(r'^sqlite3_limit$', self.limit)
        A(r'^sqlite3_threadsafe$', lambda ex, st, c: 1)
        A(r'^sqlite3_wal_checkpoint$', self.checkpoint)
        A(r'^sqlite3_prepare_v2$', self.prepare)
        A(r'^sqlite3_finalize$', self.finalize)
        A(r'^sqlite3_bind_(text|blob)$', self.bind)
        A(r'^sqlite3_bind_zeroblob$', self.zeroblob)
        A(r'^sqlite3_step$', self.step)
        A(r'^sqlite3_reset$', self.reset)
        A(r'^sqlite3_column_(text|blob)$', self.column)
        A(r'^sqlite3_column_bytes$', self.column_bytes)
        A(r'^maidsafe::RandomUint32\(\)$', lambda ex, st, c: fresh_bv('random', 32), 'maidsafe::RandomUint32: any number')
        A(r'^void std::this_thread::sleep_for<long, std::ratio<1l, 1000l> ?>\(', self.sleep_ms, 'std::this_thread::sleep_for: sleeps at least as long as it is told')
        A(r'^nanosleep$', self.sleep, 'nanosleep: sleeps at least as long as it is told, unless it is interrupted')
        A(r'^std::(runtime_error|exception)::what\(\) const$', lambda ex, st, c: self.text, 'std::exception::what')
        A(r'^__errno_location$', self.errno)
        A(r'^std::system_error::code\(\) const$', self.code, 'std::system_error::code: the code the error was made with')
        self.text = ex.alloc(st, 64, 'message of the handle')
        self.msg = ex.alloc(st, 64, 'error message')
        for i in range(8):
            ex.store(st, self.msg.plus(i), 1, 0)
            ex.store(st, self.text.plus(i), 1, 0)
        self.h = ex.alloc(st, 8, 'sqlite3')
        self.s = ex.alloc(st, 8, 'sqlite3_stmt')
        self.errno_p = ex.alloc(st, 4, 'errno')
        self.col = ex.alloc(st, 8, 'column')
        st.ghost.update({'msg': False, 'handle': 'none', 'calls': (), 'stmt': 'none', 'n': 0, 'rc': 0, 'paused': True, 'after': False})
        self.want = None
        self.last_error = None

    def errno(self, ex, st, c):
        ex.store(st, self.errno_p, 4, 22)       # not EINTR: an interrupted sleep is continued by std::this_thread::sleep_for
        return self.errno_p

    def code(self, ex, st, c):
        e = ex.get_abs(st, c.args[0], lib_std.ErrVal)
        if e is None:
            raise Unsupported('code of an unknown error')
        o = ex.call(st, self.mk[e.cat], [e.code])
        assert len(o) == 1
        v = o[0].val
        p = ex.alloc(st, 16, 'code')
        ex.store(st, p, 4, v[0])
        ex.store(st, p.plus(8), 8, v[1])
        return p

    def has(self, st, p, h, what):
        self.ex.oblige(st, self.ex.site(what), p.o == h.o and eq(p.off, h.off) is True)

    def rc(self, st):
        v = fresh_bv('rc', 32)
        return v

    def note(self, st, *e):
        st.ghost['calls'] = st.ghost['calls'] + (e,)

    def live(self, st, p):
        self.has(st, p, self.h, 'uses the handle of the database')
        self.ex.oblige(st, self.ex.site('the database is open'), st.ghost['handle'] == 'open')

    # ---- database
    def open(self, ex, st, c):
        name, out, flags, vfs = c.args
        ex.oblige(st, ex.site('opens once'), st.ghost['handle'] == 'none')
        ex.oblige(st, ex.site('the flags of the mode'), eq(S(flags), self.flags, 32))
        ex.oblige(st, ex.site('the default vfs'), vfs.o == 0)
        n, arr = self.name
        sv = ex.strval(st, name.o) if isinstance(name.o, tuple) and name.o[0] == 'S' else None
        ex.oblige(st, ex.site('the name is that of the file'), sv is not None and And(eq(name.off, 0), eq(sv.n, n)))
        if sv is not None:
            k = fresh_bv('k', 64)
            s = st.fork()
            ex.assume(s, ult(k, n))
            ex.oblige(s, ex.site('the name is that of the file: contents'), eq(sv.arr.sel(k), arr.sel(k), 8), extra_terms=[k])
        outs = []
        for ok, handle in ((True, True), (False, True), (False, False)):
            s = st.fork()
            v = 0 if ok else self.rc(s)
            if not ok:
                ex.assume(s, Not(eq(v, 0, 32)))
            ex.store(s, out, 8, self.h if handle else NULL)
            s.ghost['handle'] = 'open' if handle else 'null'
            s.ghost['opened'] = ok
            outs.append(Outcome(s, 'ret', v))
        return outs

    def close(self, ex, st, c):
        if c.args[0].o == 0:
            return 0
        self.has(st, c.args[0], self.h, 'closes the handle of the database')
        ex.oblige(st, ex.site('closes it once'), st.ghost['handle'] == 'open')
        st.ghost['handle'] = 'closed'
        return self.rc(st)

    def timeout(self, ex, st, c):
        self.live(st, c.args[0])
        self.note(st, 'timeout', S(c.args[1]))
        return self.rc(st)

    def limit(self, ex, st, c):
        self.live(st, c.args[0])
        ex.oblige(st, ex.site('only asks for the limit of the number of variables'), And(eq(c.args[1], 9, 32), slt(c.args[2], 0, 32)))
        v = fresh_bv('limit', 32)
        self.note(st, 'limit', v)
        return v

    def checkpoint(self, ex, st, c):
        self.live(st, c.args[0])
        ex.oblige(st, ex.site('all databases of the handle'), c.args[1].o == 0)
        self.note(st, 'checkpoint')
        return self.rc(st)

    def exec(self, ex, st, c):
        db, sql, cb, arg, err = c.args
        self.live(st, db)
        ex.oblige(st, ex.site('no callback'), cb.o == 0)
        ex.oblige(st, ex.site('no earlier error message is lost'), Not(st.ghost['msg']))
        q = cstr(ex, st, sql)
        if self.want is None:
            self.note(st, 'exec', q)
        else:
            # one more attempt
            ex.oblige(st, ex.site('executes ' + self.want), q in (self.want, self.want.replace(' TRANSACTION', '')))
            g = st.ghost
            ex.oblige(st, ex.site('tries again only after a failure which may go away'), Implies(Not(eq(g['n'], 0, 32)), self.again(g['rc'])))
            ex.oblige(st, ex.site('pauses before trying again'), Or(eq(g['n'], 0, 32), g['paused']))
            ex.oblige(st, ex.site('at most %d attempts' % ATTEMPTS), ult(g['n'], ATTEMPTS, 32))
            g['n'] = Z(add(g['n'], 1, 32), 32)
        outs = []
        for r in self.results:
            for m in (False, True) if r != 'ok' and err.o != 0 else (False,):
                s = st.fork()
                v = OK if r == 'ok' else BUSY if r == 'busy' else NOTADB if r == 'notadb' else self.rc(s)
                if r == 'other':
                    for x in (OK, BUSY, NOTADB, ROW):
                        ex.assume(s, Not(eq(v, x, 32)))
                if err.o != 0:
                    ex.store(s, err, 8, self.msg if m else NULL)
                s.ghost['msg'] = m
                s.ghost['rc'] = Z(v, 32)
                if self.want is not None:
                    s.ghost['paused'] = False
                outs.append(Outcome(s, 'ret', v))
        return outs

    results = ('ok', 'busy', 'notadb', 'other')

    def inv(self, st):
        g = st.ghost
        if self.want is None:
            return None
        return And(ule(g['n'], ATTEMPTS, 32), Or(eq(g['n'], 0, 32), And(self.again(g['rc']), g['paused'])))

    def again(self, rc):
        return Not(eq(rc, OK, 32)) if self.want.startswith('COMMIT') else And(Not(eq(rc, OK, 32)), Not(eq(rc, NOTADB, 32)))

    def free(self, ex, st, c):
        if c.args[0].o == 0:
            return
        self.has(st, c.args[0], self.msg, 'frees the error message')
        ex.oblige(st, ex.site('frees it once'), st.ghost['msg'])
        st.ghost['msg'] = False

    def sleep(self, ex, st, c):
        t = c.args[0]
        s, ns = ex.load(st, t, 8), ex.load(st, t.plus(8), 8)
        if ex.prove(st, Or(slt(0, s, 64), Not(slt(ns, 10000000, 64))))[0] == 'proved':
            st.ghost['paused'] = True
        return 0

    def sleep_ms(self, ex, st, c):
        if ex.prove(st, Not(slt(ex.load(st, c.args[0], 8), 10)))[0] == 'proved':
            st.ghost['paused'] = True

    # ---- statements
    def prepare(self, ex, st, c):
        db, sql, nbytes, out, tail = c.args
        self.live(st, db)
        ex.oblige(st, ex.site('prepares once'), st.ghost['stmt'] == 'none')
        n, arr = self.query
        self.exact(st, sql, n, arr, 'the query')
        nb = sext(S(nbytes), 32, 64)
        ex.oblige(st, ex.site('the length of the query'), Or(slt(nb, 0, 64), eq(nb, n), eq(nb, add(n, 1))))
        outs = []
        for ok, stmt in ((True, True), (True, False), (False, False)):
            s = st.fork()
            v = 0 if ok else self.rc(s)
            if not ok:
                ex.assume(s, Not(eq(v, 0, 32)))
            ex.store(s, out, 8, self.s if stmt else NULL)
            s.ghost['stmt'] = 'live' if stmt else 'null'
            s.ghost['rc'] = v
            outs.append(Outcome(s, 'ret', v))
        return outs

    def exact(self, st, p, n, arr, what):
        """p points to the n elements arr"""
        ex = self.ex
        k = fresh_bv('k', 64)
        s = st.fork()
        ex.assume(s, ult(k, n))
        if not ex.feasible(s):
            return
        if p.o == 0:
            ex.oblige(s, ex.site(what), False)
            return
        got, base = ex.load_bytes_fn(s, p)
        ex.oblige(s, ex.site(what), eq(got.sel(S(sub(add(p.off, k), base))), arr.sel(k), 8), extra_terms=[k])
        s2 = st.fork()
        ex.assume(s2, ult(0, n))
        ex.bounds(s2, p, n, what)

    def on(self, st, p):
        if self.stmt_null(st):
            self.ex.oblige(st, self.ex.site('uses the statement'), p.o == 0)
        else:
            self.has(st, p, self.s, 'uses the statement')
        self.ex.oblige(st, self.ex.site('the statement is not finalised'), st.ghost['stmt'] in ('live', 'null'))

    def stmt_null(self, st):
        return st.ghost['stmt'] == 'null'

    def finalize(self, ex, st, c):
        self.on(st, c.args[0])
        st.ghost['stmt'] = 'finalised'
        return self.rc(st)

    def bind(self, ex, st, c):
        stmt, i, p, n, dtor = c.args
        self.on(st, stmt)
        kind = c.d.split('_')[-1]
        self.note(st, kind)
        ex.oblige(st, ex.site('binds as ' + self.kind), kind == self.kind)
        ex.oblige(st, ex.site('the index'), eq(i, self.index, 32))
        dn, arr = self.data
        ex.oblige(st, ex.site('the length'), eq(sext(S(n), 32, 64), dn))
        self.exact(st, p, dn, arr, 'the bytes')
        if p.o == 0:
            ex.oblige(st, ex.site('binds a value, not NULL'), False)
        v = ex.ptrtoint(st, dtor) if isinstance(dtor, Ptr) else S(dtor)
        ex.oblige(st, ex.site('sqlite3 is to copy the value'), eq(v, (1 << 64) - 1, 64))
        return self.fails(st)

    def zeroblob(self, ex, st, c):
        stmt, i, n = c.args
        self.on(st, stmt)
        self.note(st, 'blob')
        ex.oblige(st, ex.site('binds as ' + self.kind), self.kind == 'blob')
        ex.oblige(st, ex.site('the index'), eq(i, self.index, 32))
        ex.oblige(st, ex.site('the length'), And(eq(self.data[0], 0), eq(n, 0, 32)))
        return self.fails(st)

    def fails(self, st):
        v = self.rc(st)
        st.ghost['rc'] = v
        return v

    def step(self, ex, st, c):
        self.on(st, c.args[0])
        self.note(st, 'step')
        return self.fails(st)

    def reset(self, ex, st, c):
        self.on(st, c.args[0])
        self.note(st, 'reset')
        return self.fails(st)

    def column(self, ex, st, c):
        self.on(st, c.args[0])
        kind = c.d.split('_')[-1]
        ex.oblige(st, ex.site('reads as ' + self.kind), kind == self.kind)
        ex.oblige(st, ex.site('the column'), eq(c.args[1], self.index, 32))
        st.ghost['column'] = True
        n, arr = self.data
        outs = []
        for null in (False, True):
            s = st.fork()
            if null:
                ex.assume(s, eq(n, 0))
            elif kind == 'blob':
                ex.assume(s, ult(0, n))
            if ex.feasible(s):
                outs.append(Outcome(s, 'ret', NULL if null else self.col))
        return outs

    def column_bytes(self, ex, st, c):
        self.on(st, c.args[0])
        ex.oblige(st, ex.site('the column'), eq(c.args[1], self.index, 32))
        ex.oblige(st, ex.site('the size is that of the value already converted'), bool(st.ghost.get('column')))
        return trunc(self.data[0], 64, 32)

    # ---- set-up
    def database(self, limit=False):
        """an open database in f.st"""
        f = self.f
        p = self.ex.alloc(f.st, self.size[0], 'database')
        name, n, arr = f.string('name')
        self.name, self.flags = (n, arr), f.bv('mode', 32)
        self.results = ('ok',)
        outs = [o for o in self.ex.call(f.st, 'q_db', [p, name, self.flags]) if o.kind == 'ret']
        self.results = Sq.results
        assert len(outs) == 1, outs
        f.st = outs[0].st
        f.st.ghost['calls'] = ()
        f.st.ghost['msg'] = False
        return p

    def attempts(self, st, want):
        self.want = want
        if self.inv not in self.ex.loop_invs:
            self.ex.loop_invs.append(self.inv)
        st.ghost.update({'n': z3.BitVecVal(0, 32), 'rc': z3.BitVecVal(0, 32), 'paused': True, 'msg': False})

    def statement(self):
        f = self.f
        d = self.database()
        q, n, arr = f.string('query', maxlen=(1 << 31) - 3)
        self.query = (n, arr)
        p = self.ex.alloc(f.st, self.size[2], 'statement')
        outs = [o for o in self.ex.call(f.st, 'q_st', [p, d, q]) if o.kind == 'ret' and o.st.ghost['stmt'] == 'live']
        assert len(outs) == 1, outs
        f.st = outs[0].st
        return p


def contracts(chk):
    m = chk.ir(['h_sqlite.cc', D + 'sqlite3_wrapper.cc', D + 'error.cc', D + 'error_categories.cc'])
    BUSY_E, ABSENT, ERROR, UNABLE = (enum_code('CommonErrors', x) for x in ('db_busy', 'db_not_present', 'db_error', 'unable_to_handle_request'))

    def num(fn, i):
        ex = Exec(m)
        lib_std.install(ex)
        return S(ex.call(State(), fn, [i])[0].val)
    Sq.size = [num('q_size', i) for i in range(3)]
    Sq.mk = {'CommonErrors': '_ZN8maidsafe15make_error_codeENS_12CommonErrorsE'}
    want = [num('q_mode', 0), num('q_mode', 1), num('q_mode', 2), num('q_result', 0), num('q_result', 1)]
    chk.finite('constants', 'the modes are SQLITE_OPEN_READONLY, READWRITE, READWRITE|CREATE and the results SQLITE_ROW, SQLITE_DONE', want == [1, 2, 6, ROW, DONE], str(want))

    def db_open(f):
        q = Sq(f)
        p = f.ex.alloc(f.st, q.size[0], 'database')
        name, n, arr = f.string('name')
        q.name, q.flags = (n, arr), f.bv('mode', 32)
        outs = f.run(p, name, q.flags)
        seen = set()
        for o in outs:
            g = o.st.ghost
            ok = g.get('opened') is True
            seen.add(ok)
            f.ensures(o, 'every error message is freed', Not(g['msg']))
            if o.kind != 'ret':
                f.ensures(o, 'throws only if the database could not be opened', not ok)
                f.throws_error(o, 'throws db_not_present', 'CommonErrors', ABSENT)
                f.ensures(o, 'the handle of a failed open is closed', g['handle'] in ('null', 'closed'))
                continue
            f.ensures(o, 'returns only if the database was opened', ok)
            f.ensures(o, 'the database is open', g['handle'] == 'open')
            calls = g['calls']
            ex = sorted(e[1] for e in calls if e[0] == 'exec')
            f.ensures(o, 'synchronous off, write-ahead log, no automatic checkpoint', ex == sorted(['PRAGMA SYNCHRONOUS = OFF', 'PRAGMA JOURNAL_MODE = WAL', 'PRAGMA WAL_AUTOCHECKPOINT = 0']), detail_of(ex))
            t = [e[1] for e in calls if e[0] == 'timeout']
            f.ensures(o, 'waits 250 ms when busy', len(t) == 1 and eq(t[0], 250, 32))
            lim = [e[1] for e in calls if e[0] == 'limit']
            for r in f.ex.call(o.st.fork(), 'q_limit', [p]):
                f.ensures(r, 'InsertLimit is the limit of the database', r.kind == 'ret' and len(lim) >= 1 and eq(r.val, lim[-1], 32))
        f.reachable('opens', outs)
        f.chk.finite(f.name, 'both succeeds and fails', seen == {True, False})

    def db_end(f):
        q = Sq(f)
        p = q.database()
        for o in f.run(p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            f.ensures(o, 'the handle is closed', o.st.ghost['handle'] == 'closed')
            f.ensures(o, 'nothing else is done', o.st.ghost['calls'] == ())

    def checkpoint(f):
        q = Sq(f)
        p = q.database()
        for o in f.run(p):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            f.ensures(o, 'one checkpoint of the whole log', o.st.ghost['calls'] == (('checkpoint',),))

    def finish(f, q, o, what):
        """a run of attempts has ended"""
        g = o.st.ghost
        f.ensures(o, 'every error message is freed', Not(g['msg']))
        last = And(ult(0, g['n'], 32), eq(g['rc'], OK, 32))
        if o.kind == 'ret':
            f.ensures(o, 'returns only when %s has succeeded' % what, last)
            return
        f.ensures(o, 'throws only if the last attempt failed', Not(last))
        e = f.err(o)
        if e is None or e.cat != 'CommonErrors':
            f.throws_error(o, 'throws a maidsafe_error', 'CommonErrors', UNABLE)
            return
        notadb = And(eq(g['rc'], NOTADB, 32), not what.startswith('COMMIT'))
        f.ensures(o, 'throws unable_to_handle_request, after %d attempts%s' % (ATTEMPTS, '' if what.startswith('COMMIT') else ', or db_not_present at once'),
                  Or(And(notadb, eq(e.code, ABSENT, 32)), And(Not(notadb), eq(e.code, UNABLE, 32), eq(g['n'], ATTEMPTS, 32))))

    def tr(f):
        q = Sq(f)
        d = q.database()
        p = f.ex.alloc(f.st, q.size[1], 'transaction')
        q.attempts(f.st, 'BEGIN IMMEDIATE TRANSACTION')
        outs = f.run(p, d)
        for o in outs:
            finish(f, q, o, 'BEGIN IMMEDIATE TRANSACTION')
        f.reachable('begins', f.rets())
        f.reachable('gives up', f.throws())

    def begun(f, q):
        d = q.database()
        p = f.ex.alloc(f.st, q.size[1], 'transaction')
        q.attempts(f.st, 'BEGIN IMMEDIATE TRANSACTION')
        q.results = ('ok',)
        outs = [o for o in f.ex.call(f.st, 'q_tr', [p, d]) if o.kind == 'ret']
        q.results = Sq.results
        f.st = outs[0].st
        assert len(outs) == 1
        q.attempts(f.st, 'COMMIT TRANSACTION')
        return p

    def commit(f):
        q = Sq(f)
        p = begun(f, q)
        outs = f.run(p)
        for o in outs:
            finish(f, q, o, 'COMMIT TRANSACTION')
        f.reachable('commits', f.rets())
        f.reachable('gives up', f.throws())

    def ending(how):
        def body(f):
            q = Sq(f)
            p = begun(f, q)
            if how:
                q.results = ('ok',) if how == 'commit' else ('busy', 'notadb', 'other')
                outs = [o for o in f.ex.call(f.st, 'q_commit', [p]) if (o.kind == 'ret') == (how == 'commit')]
                q.results = Sq.results
            else:
                outs = [Outcome(f.st, 'ret')]
            f.chk.finite(f.name, 'the transaction gets so far', len(outs) > 0)
            q.want = None
            for o1 in outs:
                s = o1.st
                s.exc = None
                s.ghost.update({'calls': (), 'msg': False})
                for o in f.ex.call(s, 'q_tr_end', [p]):
                    f.ensures(o, 'the destructor does not throw', o.kind == 'ret')
                    f.ensures(o, 'every error message is freed', Not(o.st.ghost['msg']))
                    did = [e[1].replace(' TRANSACTION', '') for e in o.st.ghost['calls']]
                    f.ensures(o, 'nothing is done after a commit' if how == 'commit' else 'one roll-back unless it was committed', did == ([] if how == 'commit' else ['ROLLBACK']))
        return body

    def st(f):
        q = Sq(f)
        d = q.database()
        s, n, arr = f.string('query', maxlen=(1 << 31) - 3)
        q.query = (n, arr)
        p = f.ex.alloc(f.st, q.size[2], 'statement')
        outs = f.run(p, d, s)
        for o in outs:
            g = o.st.ghost
            if o.kind == 'ret':
                f.ensures(o, 'returns only if the statement was prepared', eq(g['rc'], OK, 32))
                if g['stmt'] in ('live', 'null'):
                    for e in f.ex.call(o.st, 'q_st_end', [p]):
                        f.ensures(e, 'the destructor does not throw', e.kind == 'ret')
                        f.ensures(e, 'the statement is finalised', e.st.ghost['stmt'] == 'finalised')
                continue
            f.ensures(o, 'throws only if it was not', Not(eq(g['rc'], OK, 32)))
            e = f.err(o)
            if e is None or e.cat != 'CommonErrors':
                f.throws_error(o, 'throws a maidsafe_error', 'CommonErrors', ERROR)
                continue
            f.ensures(o, 'throws db_not_present for a file which is no database, db_error otherwise', eq(e.code, Ite(eq(g['rc'], NOTADB, 32), ABSENT, ERROR, 32), 32))
        f.reachable('prepares', f.rets())
        f.reachable('fails', f.throws())

    def bind(kind):
        def body(f):
            q = Sq(f)
            p = q.statement()
            q.kind, q.index = kind, f.bv('index', 32)
            v, n, arr = (f.string if kind == 'text' else f.vec)('value', maxlen=(1 << 31) - 1)
            q.data = (n, arr)
            f.st.ghost['calls'] = ()
            for o in f.run(p, q.index, v):
                g = o.st.ghost
                f.ensures(o, 'binds once', g['calls'] == ((kind,),))
                if o.kind == 'ret':
                    f.ensures(o, 'returns only if it was bound', eq(g['rc'], OK, 32))
                else:
                    f.throws_error(o, 'throws db_error', 'CommonErrors', ERROR)
                    f.ensures(o, 'throws only if it was not bound', Not(eq(g['rc'], OK, 32)))
            f.reachable('binds', f.rets())
            f.reachable('fails', f.throws())
        return body

    def act(what, good):
        def body(f):
            q = Sq(f)
            p = q.statement()
            f.st.ghost['calls'] = ()
            for o in f.run(p):
                g = o.st.ghost
                rc = g['rc']
                f.ensures(o, 'one ' + what, g['calls'] == ((what,),))
                ok = Or([eq(rc, x, 32) for x in good])
                if o.kind == 'ret':
                    f.ensures(o, 'returns only if it succeeded', ok)
                    if what == 'step':
                        f.ensures(o, 'the result', eq(o.val, rc, 32))
                else:
                    f.throws_error(o, 'throws db_error', 'CommonErrors', ERROR)
                    f.ensures(o, 'throws only if it failed', Not(ok))
            f.reachable('succeeds', f.rets())
            f.reachable('fails', f.throws())
        return body

    def column(kind):
        def body(f):
            q = Sq(f)
            p = q.statement()
            q.kind, q.index = kind, f.bv('index', 32)
            n, arr = f.seq('value', maxlen=(1 << 31) - 2)
            q.data = (n, arr)
            q.col = f.ex.alloc(f.st, S(add(n, 1)), 'value of the column')
            o = f.st.wobj(q.col.o)
            o.ranges = [(0, n, arr)]
            out = f.out('result')
            outs = f.run(out, p, q.index)
            for o in outs:
                f.ensures(o, 'does not throw', o.kind == 'ret')
                if o.kind == 'ret':
                    f.seq_eq(o, 'the value of the column', f.abs(o, out), n, lambda k: arr.sel(k))
            f.reachable('returns', outs)
        return body

    chk.fn('Database::Database', m, 'q_db', db_open)
    chk.fn('Database::~Database', m, 'q_db_end', db_end)
    chk.fn('Database::CheckPoint', m, 'q_checkpoint', checkpoint)
    chk.fn('Transaction::Transaction', m, 'q_tr', tr, loop_mode='summary')
    chk.fn('Transaction::Commit', m, 'q_commit', commit, loop_mode='summary')
    chk.fn('Transaction::~Transaction, not committed', m, 'q_tr_end', ending(None), loop_mode='summary')
    chk.fn('Transaction::~Transaction, committed', m, 'q_tr_end', ending('commit'), loop_mode='summary')
    chk.fn('Transaction::~Transaction, commit failed', m, 'q_tr_end', ending('fail'), loop_mode='summary')
    chk.fn('Statement::Statement, ~Statement', m, 'q_st', st)
    chk.fn('Statement::BindText', m, 'q_text', bind('text'))
    chk.fn('Statement::BindBlob', m, 'q_blob', bind('blob'))
    chk.fn('Statement::Step', m, 'q_step', act('step', (ROW, DONE)))
    chk.fn('Statement::Reset', m, 'q_reset', act('reset', (OK,)))
    chk.fn('Statement::ColumnText', m, 'q_ctext', column('text'))
    chk.fn('Statement::ColumnBlob', m, 'q_cblob', column('blob'))
    chk.assume('sqlite3_exec never returns SQLITE_ROW; sqlite3 itself does what it is asked')


def detail_of(x):
    return ()
