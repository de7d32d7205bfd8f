"""P17 Menu: every choice leads to the item shown under that number and runs it once"""
from vp.contract import *
from vp.exec import PathEnd

TITLE = 'Menu'
D = 'src/maidsafe/common/'
REPLAY = {'driver': 'p17.cc', 'sources': [D + x for x in ('menu.cc', 'menu_item.cc', 'cli.cc', 'crypto.cc', 'encode.cc', 'error.cc', 'error_categories.cc')],
          'libs': ['-lcryptopp', '-lboost_system', '-lboost_thread', '-lpthread'], 'seconds': 8}


def contracts(chk):
    m = chk.ir(['h_menu.cc', D + 'cli.cc', D + 'menu.cc', D + 'menu_item.cc', D + 'error.cc', D + 'error_categories.cc'])
    ARG, ELEM, UNK = (enum_code('CommonErrors', x) for x in ('invalid_argument', 'no_such_element', 'unknown'))

    def num(fn, p=None):
        ex = Exec(m)
        lib_std.install(ex)
        st = State()
        return S(ex.call(st, fn, [ex.alloc(st, 4096, 'probe')] if p else [])[0].val)
    MI, M, CH = num('mi_size'), num('m_size'), num('mi_off_children', 1)

    class World:
        def __init__(self, f, tries=3):
            self.f, self.ex, self.st, self.tries = f, f.ex, f.st, tries
            self.more = []
            def A(rx, fn, trusted=None):
                f.ex.handlers.insert(0, (lib_std.NormRx(rx), fn, trusted))
                f.ex.hcache.clear()
            A(r'^op_ext$', self.op)
            T = 'CLI::Get<int>: the number entered, or an exception when what was entered is no number or the input has ended'
            A(r'^(?:int )?maidsafe::CLI::Get<int>\(Str<char>, bool\) const$', self.get, T)
            A(r'^maidsafe::CLI::CLI\(Str<char>\)$', lambda ex, st, c: ex.put_abs(st, c.args[0], lib_std.mk('Str', 'char', 0, Const(0))))
            A(r'^maidsafe::CLI::Clear\(\) const$', lambda ex, st, c: self.note(st, ('clear',)))
            A(r'^maidsafe::log::TestLogMessage::TestLogMessage\(maidsafe::log::Colour\)$', lambda ex, st, c: None, 'TLOG: what is streamed is shown')
            A(r'^maidsafe::log::TestLogMessage::~TestLogMessage\(\)$', lambda ex, st, c: None)
            A(r'^.*operator_SHL.*\((?:std::basic_ostream<char, .*>|std::ostream)&, (char|char const\*|Str<char> const&)\)$', self.stream)
            IOS = 'std::cin: fails once the input has ended'
            B = r'^std::basic_ios<char, .*>::'
            A(B + r'(operator!\(\) const|fail\(\) const|eof\(\) const)$', lambda ex, st, c: st.ghost['ended'], IOS)
            A(B + r'(good\(\) const|operator bool\(\) const)$', lambda ex, st, c: Not(st.ghost['ended']))
            A(r'^std::exception::what\(\) const$', lambda ex, st, c: self.text)
            A(r'^(?:int )?maidsafe::ErrorToInt\(maidsafe::maidsafe_error(?: const&)?\)$', self.code, 'ErrorToInt: a number of its own, never 0, for every error (P09)')
            A(r'^.*boost::diagnostic_information<.*$', self.diag, 'boost::diagnostic_information')
            self.text = f.ex.alloc(f.st, 8, 'what')
            f.ex.store(f.st, self.text, 1, 0)
            if '_ZSt3cin' in m.globals:     # its virtual base
                vt = f.ex.alloc(f.st, 64, 'vtable of std::cin').plus(32)
                f.ex.store(f.st, vt.plus(-24), 8, 16)
                f.ex.store(f.st, f.ex.global_ptr(f.st, '_ZSt3cin'), 8, vt)
            f.st.ghost.update({'log': (), 'ended': False, 'shown': ()})

        def note(self, st, e):
            st.ghost['log'] = st.ghost['log'] + (e,)

        def diag(self, ex, st, c):
            ex.put_abs(st, c.args[0], lib_std.mk('Str', 'char', 0, Base(fresh_name('diag'), 8)))

        def code(self, ex, st, c):
            e = ex.get_abs(st, c.args[0])
            ex.oblige(st, ex.site('an error of the common category'), e.cat == 'CommonErrors')
            return add(e.code, 7000, 32)

        def stream(self, ex, st, c):
            v = c.args[1]
            if isinstance(v, Ptr):
                if 'Str<' in lib_std.norm(c.d):
                    sv = ex.get_abs(st, v)
                    n, sel = sv.n, sv.arr.sel
                    if not is_c(n):     # the text of an error
                        return c.args[0]
                else:
                    n, sel = S(lib_std.cstr_len(ex, st, v)), lambda i: ex.load(st, v.plus(i), 1)
                t = ''.join(chr(S(sel(i))) for i in range(n))
            else:
                t = chr(S(v))
            self.note(st, ('text', t))
            return c.args[0]

        def op(self, ex, st, c):
            outs = []
            for how in (0, 1, 2):
                s = st.fork()
                self.note(s, ('op', c.args[0], how))
                outs.append(Outcome(s, 'ret', how))
            return outs

        def get(self, ex, st, c):
            ex.oblige(st, ex.site('the input has not ended'), not st.ghost['ended'])
            n = sum(1 for e in st.ghost['log'] if e[0] == 'in')
            if n >= self.tries:
                self.more.append(Outcome(st.fork(), 'more'))
                raise PathEnd('enough input')
            outs = []
            for kind in ('number', 'bad', 'end'):
                s = st.fork()
                if kind == 'number':
                    v = fresh_bv('choice', 32)
                    self.note(s, ('in', v))
                    outs.append(Outcome(s, 'ret', v))
                else:
                    self.note(s, ('in', kind))
                    if kind == 'end':
                        s.ghost['ended'] = True
                    outs += ex.call(s, 'in_' + kind, [])
            return outs

        def lit(self, text):
            b = text.encode()
            p = self.ex.alloc(self.st, 32, 'str')

            arr = Const(0)
            for k, x in enumerate(b):
                arr = Store(arr, k, x)
            self.ex.put_abs(self.st, p, lib_std.mk('Str', 'char', len(b), arr))
            return p

        def do(self, fn, *args):
            outs = self.ex.call(self.st, fn, list(args))
            assert len(outs) == 1 and outs[0].kind == 'ret', (fn, outs)
            self.st = self.f.st = outs[0].st
            return outs[0].val

    # ---- one item ----
    def name_of(w, st, item):
        return w.ex.get_abs(st, w.ex.call(st, 'mi_name', [item])[0].val)

    def kids(w, st, item):
        b, e = (w.ex.load(st, item.plus(CH + k), 8) for k in (0, 8))
        if b is None or (isinstance(b, Ptr) and b.o == 0) or is_c(b):
            return []
        return [w.ex.load(st, b.plus(8 * k), 8) for k in range(S(diff(e.off, b.off)) // 8)]

    def same(p, q):
        return isinstance(p, Ptr) and isinstance(q, Ptr) and p.o == q.o and is_c(p.off) and p.off == q.off

    def null(p):
        return is_c(p) and p == 0 or isinstance(p, Ptr) and p.o == 0

    def ctor(f):
        w = World(f)
        q, n, a = f.string('name')
        p = f.ex.alloc(f.st, MI, 'item')
        for o in f.run(p, q):
            if o.kind == 'throw':
                f.throws_error(o, 'the error is invalid_argument', 'CommonErrors', ARG)
                f.ensures(o, 'only an empty name is refused', eq(n, 0))
                continue
            f.ensures(o, 'an empty name is refused', Not(eq(n, 0)))
            f.seq_eq(o, 'the name', name_of(w, o.st, p), n, lambda i: a.sel(i))
            f.ensures(o, 'no parent', null(f.ex.call(o.st, 'mi_parent', [p])[0].val))
            f.ensures(o, 'no children', len(kids(w, o.st, p)) == 0)
        f.reachable('made', f.rets())
        f.reachable('refused', f.throws())
    chk.fn('MenuItem: constructor', m, 'mi_ctor', ctor)

    def add_child(j, how, none=False):
        def b(f):
            w = World(f)
            p = f.ex.alloc(f.st, MI, 'item')
            w.do('mi_ctor', p, w.lit('top'))
            st0, names, have = f.st, [], []
            sts = [(f.st, [])]
            for i in range(j):
                n, a = f.seq('child%d' % i, 8, 64)
                names.append((n, a))
                nxt = []
                for st, cs in sts:
                    q = f.ex.alloc(st, 32, 'name')
                    f.ex.put_abs(st, q, lib_std.mk('Str', 'char', n, a))
                    f.ex.assume(st, ule(n, 64))
                    for o in f.ex.call(st, 'mi_add', [p, q, i]):
                        if o.kind == 'ret':
                            nxt.append((o.st, cs + [o.val]))
                sts = nxt
            outs = []
            if how == 'dup':
                n, a = names[-1] if j else (0, Const(0))
            else:
                n, a = f.seq('name', 8, 64)
            kk = f.bv('op', 32)
            for st, cs in sts:
                q = f.ex.alloc(st, 32, 'name')
                f.ex.put_abs(st, q, lib_std.mk('Str', 'char', n, a))
                f.ex.assume(st, ule(n, 64))
                if how == 'len':
                    f.ex.assume(st, And(Not(eq(n, 0)), *[Not(eq(n, x)) for x, _ in names]))
                if how == 'byte':
                    f.ex.assume(st, Not(eq(n, 0)))
                    for i, (x, y) in enumerate(names):
                        k = f.idx('k%d' % i, 64)
                        f.ex.assume(st, And(eq(n, x), ult(k, n), Not(eq(a.sel(k), y.sel(k), 8))))
                if not f.ex.feasible(st):
                    continue
                for o in f.ex.call(st, 'mi_add_none' if none else 'mi_add', [p, q] + ([] if none else [kk])):
                    outs.append(o)
                    now = kids(w, o.st, p)
                    f.ensures(o, 'the children there were are still the first, in order', len(now) >= len(cs) and all(same(x, y) for x, y in zip(now, cs)))
                    if o.kind == 'throw':
                        f.throws_error(o, 'the error is invalid_argument', 'CommonErrors', ARG)
                        f.ensures(o, 'nothing is added', len(now) == len(cs))
                        f.ensures(o, 'a new name is accepted', how not in ('len', 'byte'))
                        continue
                    f.ensures(o, 'a duplicate or empty name is refused', how != 'dup')
                    f.ensures(o, 'an empty name is refused', Not(eq(n, 0)))
                    f.ensures(o, 'one child is added, and returned', len(now) == len(cs) + 1 and same(now[-1], o.val))
                    if len(now) != len(cs) + 1:
                        continue
                    c = o.val
                    f.seq_eq(o, 'its name', name_of(w, o.st, c), n, lambda i: a.sel(i))
                    f.ensures(o, 'its parent', same(f.ex.call(o.st, 'mi_parent', [c])[0].val, p))
                    f.ensures(o, 'it has no children', len(kids(w, o.st, c)) == 0)
                    for i, (x, (nn, aa)) in enumerate(zip(cs, names)):
                        f.seq_eq(o, 'name of child %d' % i, name_of(w, o.st, x), nn, lambda i, aa=aa: aa.sel(i))
                    f.ensures(o, 'nothing is run', not o.st.ghost['log'])
                    ran = f.ex.call(o.st.fork(), 'mi_do', [c])
                    for r in ran:
                        lg = [e for e in r.st.ghost['log'] if e[0] == 'op']
                        f.ensures(r, 'it runs its operation once', len(lg) == (0 if none else 1))
                        if lg:
                            f.ensures(r, 'which operation it runs', eq(lg[0][1], kk, 32))
            f.outs = outs
            f.reachable('refused' if how == 'dup' else 'added', [o for o in outs if o.kind == ('throw' if how == 'dup' else 'ret')])
        chk.fn('MenuItem::AddChildItem: %d children, %s name%s' % (j, {'dup': 'a duplicate' if j else 'an empty', 'len': 'a', 'byte': 'another', 'any': 'any'}[how], ', no operation' if none else ''), m, 'mi_add', b)
    for j in (0, 1, 2):
        for how in ('dup', 'len', 'byte', 'any'):
            if j == 0 and how == 'byte':
                continue
            add_child(j, how)
    add_child(1, 'len', True)
    add_child(0, 'len', True)

    def child(f, k):
        w = World(f)
        p = f.ex.alloc(f.st, MI, 'item')
        w.do('mi_ctor', p, w.lit('top'))
        cs = [w.do('mi_add', p, w.lit('c%d' % i), i) for i in range(k)]
        i = f.bv('index', 32)
        for o in f.ex.call(f.st.fork(), 'mi_leaf', [p]):
            f.ensures(o, 'HasNoChildren', eq(o.val, 0 if k else 1, 8))
        for o in f.run(p, i):
            if o.kind == 'throw':
                f.ensures(o, 'only an index outside the children is refused', Not(ult(i, k, 32)))
                continue
            f.ensures(o, 'an index outside the children is refused', ult(i, k, 32))
            f.ensures(o, 'the child at that index', Or(*[And(eq(i, j, 32), same(o.val, c)) for j, c in enumerate(cs)]))
        if k:
            f.reachable('found', f.rets())
        f.reachable('refused', f.throws())
    for k in (0, 1, 4):
        chk.fn('MenuItem::Child: %d children' % k, m, 'mi_child', lambda f, k=k: child(f, k))

    # ---- the menu ----
    class Node:
        def __init__(self, name, op=None, kids=()):
            self.name, self.op, self.kids, self.parent = name, op, list(kids), None
            for k in self.kids:
                k.parent = self

        def all(self):
            return [self] + [y for k in self.kids for y in k.all()]

    def tree():
        return Node('Main menu', None, [Node('Alpha', 1), Node('Beta', 2, [Node('B1', 3), Node('B2', None, [Node('C', 4), Node('C bis')])]), Node('Gamma')])

    def build(w, t, prompt=False):
        w.menu = w.ex.alloc(w.st, M, 'menu')
        if prompt:
            w.do('m_ctor2', w.menu, w.lit(t.name), w.lit('> '))
        else:
            w.do('m_ctor', w.menu, w.lit(t.name))
        t.p = w.do('m_top', w.menu)

        def fill(n):
            for k in n.kids:
                a = [w.lit(k.name)] + ([k.op] if k.op else [])
                if n.parent is None:
                    k.p = w.do('m_add' if k.op else 'm_add_none', w.menu, *a)
                else:
                    k.p = w.do('mi_add' if k.op else 'mi_add_none', n.p, *a)
                fill(k)
        fill(t)

    def shown(t):
        """the lines which offer the choices at an item"""
        return [('%d' % (i + 1), k.name) for i, k in enumerate(t.kids)] + ([('99', 'Back to: ' + t.parent.name)] if t.parent else [])

    def offered(text):
        out = []
        for l in text.split('\n'):
            h = l.split(' ', 1)
            if h[0].isdigit():
                out.append((h[0], h[1].strip() if len(h) > 1 else ''))
        return out

    CODES = {1: 7000 + ELEM, 2: 7000 + UNK}

    def follow(f, w, o, t, cur):
        """the history of one path against what the menu promises; a number entered may still be any of several"""
        todo = [(o.st, cur, list(o.st.ghost['log']), True)]
        while todo:
            st, cur, log, show = todo.pop()
            if not cur.kids and cur.parent and show:
                cur = cur.parent
            text = ''
            while log and log[0][0] in ('text', 'clear'):
                if log[0][0] == 'text':
                    text += log[0][1]
                log = log[1:]
            if show:
                f.ensures(st, 'the choices shown are those of the item', offered(text) == shown(cur))
                f.ensures(st, 'the item shown is named', text.startswith(cur.name + '\n'))
            if o.kind == 'more' and not log:        # as far as this run is followed
                continue
            if not f.ensures(st, 'a number is asked for, and nothing is run before', bool(log) and log[0][0] == 'in'):
                continue
            v, log = log[0][1], log[1:]
            if isinstance(v, str) and v == 'end':
                f.ensures(st, 'when the input has ended nothing is run', not [e for e in log if e[0] == 'op'])
                f.ensures(st, 'and Run reports it', o.kind == 'ret' and not [e for e in log if e[0] == 'in'])
                if o.kind == 'ret':
                    f.ensures(st, 'with a code other than 0', Not(eq(o.val, 0, 32)))
                    at(f, st, w, cur)
                continue
            cases = []
            if isinstance(v, str):
                cases.append((True, 'stay', cur))
            else:
                cases.append((eq(v, 0, 32), 'quit', cur))
                rest = Not(eq(v, 0, 32))
                if cur.parent:
                    cases.append((And(rest, eq(v, 99, 32)), 'go', cur.parent))
                    rest = And(rest, Not(eq(v, 99, 32)))
                for i, k in enumerate(cur.kids):
                    cases.append((And(rest, eq(v, i + 1, 32)), 'go', k))
                cases.append((And(rest, Not(And(sle(1, v, 32), sle(v, len(cur.kids), 32)))), 'stay', cur))
            for c, what, to in cases:
                if c is not True and not f.ex.feasible(st, c):
                    continue
                s = st.fork()
                if c is not True:
                    f.ex.assume(s, c)
                l = list(log)
                if what == 'quit':
                    f.ensures(s, '0 ends Run, with 0', o.kind == 'ret' and not [e for e in l if e[0] != 'text'])
                    if o.kind == 'ret':
                        f.ensures(s, 'the code', eq(o.val, 0, 32))
                        at(f, s, w, cur)
                    continue
                if what == 'stay':
                    f.ensures(s, 'an invalid choice runs nothing', not l or l[0][0] != 'op')
                    todo.append((s, cur, l, False))
                    continue
                if to.op:
                    if not f.ensures(s, 'the operation of the item chosen is run', bool(l) and l[0][0] == 'op'):
                        continue
                    f.ensures(s, 'which operation', eq(l[0][1], to.op, 32))
                    how = l[0][2]
                    l = l[1:]
                    if how:
                        f.ensures(s, 'an operation which fails ends Run', o.kind == 'ret' and not [e for e in l if e[0] != 'text'])
                        if o.kind == 'ret':
                            f.ensures(s, 'with the code of the error', eq(o.val, CODES[how], 32))
                            at(f, s, w, to)
                        continue
                else:
                    f.ensures(s, 'an item without an operation runs nothing', not l or l[0][0] != 'op')
                todo.append((s, to, l, True))

    def at(f, st, w, cur):
        """Run continues where it left off when it is called again"""
        p = f.ex.call(st.fork(), 'm_at', [w.menu])[0].val
        up = cur.parent if not cur.kids and cur.parent else cur
        f.ensures(st, 'where the menu is', same(p, cur.p) or same(p, up.p))

    def run(name, t, start=0, tries=3 if chk.tier == 'thorough' else 2):
        def b(f):
            w = World(f, tries)
            build(w, t)
            cur = t.all()[start]
            w.do('m_go', w.menu, cur.p)
            w.st.ghost['log'] = ()
            outs = f.run(w.menu)
            for o in outs + w.more:
                if o.kind == 'throw':
                    f.ensures(o, 'Run does not throw', False)
                    continue
                follow(f, w, o, t, cur)
            f.reachable('returns', f.rets())
        chk.fn('Menu::Run: ' + name, m, 'm_run', b, paths=20000)
    T = tree()
    for i, n in enumerate(T.all()):
        run('from item "%s"' % n.name, tree(), i)
    run('an empty menu', Node('Main menu'))
    run('a menu of one item', Node('Main menu', None, [Node('Alpha', 1)]), 1)

    def made(prompt):
        def b(f):
            w = World(f)
            t = tree()
            build(w, t, prompt)
            f.outs = [Outcome(w.st, 'ret', 0)]
            for n in t.all():
                ks = kids(w, w.st, n.p)
                f.ensures(w.st, 'the items are where they were added', len(ks) == len(n.kids) and all(same(x, k.p) for x, k in zip(ks, n.kids)))
            f.ensures(w.st, 'Run starts at the main menu', same(w.do('m_at', w.menu), t.p))
            f.ensures(w.st, 'nothing is run', not w.st.ghost['log'])
            for o in f.ex.call(w.st, 'm_dtor', [w.menu]):
                f.ensures(o, 'it is destroyed', o.kind == 'ret')
                for n in t.all()[1:]:
                    f.ensures(o, 'with its items', freed(o.st, n.p))
        chk.fn('Menu: construction%s, AddItem, destruction' % (', prompt' if prompt else ''), m, 'm_ctor2' if prompt else 'm_ctor', b)

    def freed(st, p):
        o = st.mem.get(p.o)
        return o is None
    made(False)
    made(True)

    # ---- passwords ----
    SO, SV = num('sha_off_s', 1), num('sha_off_v', 1)

    def password(f, same_text, tries=4):
        w = World(f)
        ex = f.ex

        def A(rx, fn, trusted=None):
            ex.handlers.insert(0, (lib_std.NormRx(rx), fn, trusted))
            ex.hcache.clear()

        def get(ex, st, c):
            asked = st.ghost['asked']
            ex.oblige(st, ex.site('what is entered is not echoed'), eq(c.args[3], 0, 8) if not isinstance(c.args[3], bool) and not z3.is_bool(c.args[3]) else Not(c.args[3]))
            if len(asked) >= tries:
                w.more.append(Outcome(st.fork(), 'more'))
                raise PathEnd('enough input')
            outs = []
            s = st.fork()
            s.ghost['failed'] = True
            outs += ex.call(s, 'in_end', [])
            if same_text and asked:
                n, a = asked[-1]
            else:
                n, a = fresh_bv('entered.len', 64), Base(fresh_name('entered'), 8)
                ex.assume(st, ule(n, 1 << 40))
            st.ghost['asked'] = asked + ((n, a),)
            ex.put_abs(st, c.args[0], lib_std.mk('Str', 'char', n, a))
            return outs + [Outcome(st, 'ret', None)]

        def digest(ex, st, c):
            sv = ex.get_abs(st, c.args[1])
            d = Base(fresh_name('digest'), 8)
            st.ghost['hashed'] = st.ghost['hashed'] + ((sv.n, sv.arr, d),)
            ex.put_abs(st, c.args[0].plus(SO), lib_std.mk('Str', 'char', 64, d))
            ex.store(st, c.args[0].plus(SV), 1, 1)
        A(r'^.*maidsafe::CLI::Get<Str<char> ?>\(Str<char>, bool\) const$', get, 'CLI::Get<std::string>: the text entered, or an exception')
        A(r'^.*maidsafe::crypto::Hash<CryptoPP::SHA512, .*>\(Str<char> const&\)$', digest, 'crypto::Hash (P26)')
        f.st.ghost.update({'asked': (), 'hashed': (), 'failed': False})
        p = ex.alloc(f.st, 64, 'cli')
        w.do('cli_ctor', p, w.lit('> '))
        r = f.out_string('result')
        rep = f.bool('repeat')
        outs = f.run(r, p, rep)
        for o in outs:
            asked = o.st.ghost['asked']
            if o.kind == 'throw':
                f.ensures(o, 'only failing input throws', o.st.ghost['failed'])
                continue
            f.ensures(o, 'failing input is reported', not o.st.ghost['failed'])
            h = o.st.ghost['hashed']
            if not f.ensures(o, 'one text is hashed', len(h) == 1 and len(asked) >= 1):
                continue
            n, a, d = h[0]
            f.seq_eq(o, 'the result is its hash', f.abs(o, r), 64, lambda i: d.sel(i))
            f.ensures(o, 'asked twice if and only if told to', Implies(Not(rep), len(asked) == 1))
            f.ensures(o, 'asked again', Implies(rep, len(asked) % 2 == 0))
            sv = lib_std.mk('Str', 'char', n, a)
            f.seq_eq(o, 'the text hashed is what was entered last', sv, asked[-1][0], lambda i: asked[-1][1].sel(i))
            if len(asked) > 1:
                f.seq_eq(o, 'and it was entered twice', sv, asked[-2][0], lambda i: asked[-2][1].sel(i))
            if same_text:
                f.ensures(o, 'two equal texts suffice', len(asked) <= 2)
        for o in w.more:
            f.ensures(o, 'it asks again only if told to repeat', rep)
            f.ensures(o, 'and not after two equal texts', not same_text)
        f.reachable('returns', f.rets())
        f.reachable('throws', f.throws())
    for same_text in (False, True):
        chk.fn('CLI::GetPassword, %s texts entered' % ('equal' if same_text else 'any'), m, 'cli_password', lambda f, s=same_text: password(f, s), loop_mode='unroll', unroll=8)
