"""P19 credentials: masked texts, the password derived from credentials, obfuscation with them"""
import importlib
from vp.contract import *
from vp.lib_std import ptr_view
Lib = importlib.import_module('contracts.p26_crypto').Lib

TITLE = 'credentials'
D = 'src/maidsafe/common/'
AU = D + 'authentication/'
REPLAY = {'driver': 'p19.cc', 'sources': [AU + 'user_credential_utils.cc', AU + 'detail/secure_string.cc', D + 'crypto.cc', D + 'encode.cc', D + 'error.cc', D + 'error_categories.cc'],
          'libs': ['-lcryptopp', '-lboost_system', '-lboost_thread', '-lboost_regex', '-lpthread'], 'seconds': 20}
MAXU = (1 << 64) - 1


class Masks(Lib):
    """and of the password based encryption of the masked texts: what DefaultEncryptor and HexEncoder make of a
    text, HexDecoder and DefaultDecryptor turn back into it, given the same pass phrase"""

    def __init__(self, f):
        Lib.__init__(self, f)
        self.f = f
        A = self.ex.add_handler
        T = 'CryptoPP '

        def rec(kind, **kw):
            def h(ex, st, c):
                self.put(st, c.args[0], (kind, dict((k, v(c)) for k, v in kw.items())))
            return h

        def cipher(kind):
            def h(ex, st, c):
                self.put(st, c.args[0], (kind, dict(phrase=c.args[1], next=c.args[2], n=0, a=Const(0, 8), done=False)))
            return h
        A(r'^CryptoPP::DataEncryptor<CryptoPP::Rijndael, .*::DataEncryptor\(char const\*, CryptoPP::BufferedTransformation\*\)$', cipher('denc'), T + 'DefaultEncryptor: password based encryption')
        A(r'^CryptoPP::DataDecryptor<CryptoPP::Rijndael, .*::DataDecryptor\(char const\*, CryptoPP::BufferedTransformation\*, bool\)$', cipher('ddec'), T + 'DefaultDecryptor: its inverse under the same pass phrase')
        A(r'^CryptoPP::HexEncoder::HexEncoder\(', rec('hexenc', next=lambda c: c.args[1]), T + 'HexEncoder: invertible text form')
        A(r'^CryptoPP::HexDecoder::HexDecoder\(CryptoPP::BufferedTransformation\*\)', rec('hexdec', next=lambda c: c.args[1]), T + 'HexDecoder: its inverse')
        A(r'^CryptoPP::(HexDecoder::~HexDecoder|DataEncryptor<.*>::~DataEncryptor|DataDecryptor<.*>::~DataDecryptor)\(\)$', lambda ex, st, c: None)
        A(r'^std::default_delete<CryptoPP::DataEncryptor<.*> ?>::operator\(\)\(', lambda ex, st, c: None)
        A(r'^CryptoPP::BufferedTransformation::Put\(unsigned char const\*, unsigned long, bool\)$', self.put_many)
        A(r'^CryptoPP::BufferedTransformation::Put\(unsigned char, bool\)$', self.put_one)
        A(r'^CryptoPP::BufferedTransformation::MessageEnd\(int, bool\)$', self.end)
        A(r'^.*maidsafe::GetRandomString<.*>\(unsigned long\)$', self.random, 'GetRandomString gives some string of the size asked for (property P14 is about its clients)')
        A(r'^maidsafe::authentication::detail::LockedPageManager::(Lock|Unlock)Range\(', lambda ex, st, c: None, 'LockedPageManager (property P18)')
        A(r'^maidsafe::authentication::detail::LockedPageManager(Base)?(<.*>)?::.*(Lock|Unlock)Range\(', lambda ex, st, c: None)
        A(r'^std::(__cxx11::)?stoul\(', self.stoul, 'std::stoul gives the number a text stands for, or throws')

    def random(self, ex, st, c):
        n = c.args[1]
        ex.put_abs(st, c.args[0], lib_std.mk('Str', 'char', n, Base(fresh_name('phrase'), 8)))

    def kind(self, st, p):
        for k, v in st.ghost.get('cpp', ()):
            if k == (p.o, p.off):
                return v
        raise Unsupported('CryptoPP object at %r' % (p,))

    def put_many(self, ex, st, c):
        k, d = self.kind(st, c.args[0])
        if k == 'sink':
            return self.sink_put(ex, st, c)
        return self.feed(st, c.args[0], k, d, self.bytes(st, c.args[1], c.args[2]), c.args[2])

    def put_one(self, ex, st, c):
        k, d = self.kind(st, c.args[0])
        return self.feed(st, c.args[0], k, d, Const(c.args[1], 8), 1)

    def feed(self, st, p, k, d, arr, n):
        if k not in ('denc', 'hexdec'):
            raise Unsupported('bytes put into a %s' % k)
        self.ex.oblige(st, self.ex.site('bytes are put in before the end'), not d.get('done'))
        n0, a0 = d.get('n', 0), d.get('a')
        a = arr if n0 == 0 else Lam(lambda i: Ite(ult(i, n0), a0.sel(i), arr.sel(S(sub(i, n0))), 8), 8)
        self.put(st, p, (k, dict(d, n=S(add(n0, n)), a=a)))
        return 0

    def phrase(self, st, p):
        return ptr_view(self.ex, st, p, 8)

    def end(self, ex, st, c):
        k, d = self.kind(st, c.args[0])
        ex.oblige(st, ex.site('the end comes once'), not d.get('done'))
        self.put(st, c.args[0], (k, dict(d, done=True)))
        if k == 'denc':
            _, h = self.get(st, d['next'], 'hexenc')
            _, sink = self.get(st, h['next'], 'sink')
            out, m = Base(fresh_name('masked'), 8), fresh_bv('masked.n', 64)
            ex.assume(st, And(ule(1, m), ule(m, 1 << 41)))
            sv = ex.get_abs(st, sink['to'])
            ex.oblige(st, ex.site('the masked text starts empty'), eq(sv.n, 0))
            ex.put_abs(st, sink['to'], sv.upd(n=m, arr=out))
            st.ghost['masks'] = st.ghost.get('masks', ()) + (dict(out=(m, out), phrase=self.phrase(st, d['phrase']), text=(d['n'], d['a'])),)
            return True
        if k != 'hexdec':
            raise Unsupported('end of a %s' % k)
        _, q = self.get(st, d['next'], 'ddec')
        _, sink = self.get(st, q['next'], 'sink')
        n, a = d.get('n', 0), d.get('a')
        i = fresh_bv('i', 64)
        ph = self.phrase(st, q['phrase'])
        for mk in reversed(st.ghost.get('masks', ())):
            m, out = mk['out']
            if eq(n, m) is True and (eq(a.sel(i), out.sel(i), 8) is True or ex.prove(st, Implies(ult(i, m), eq(a.sel(i), out.sel(i), 8)))[0] == 'proved'):
                break
        else:
            ex.oblige(st, ex.site('what is unmasked is a whole masked text'), False)
            raise PathEnd('unmasking something else')
        ex.oblige(st, ex.site('unmasked with the pass phrase it was masked with'), Implies(ult(i, 64), eq(ph.sel(i), mk['phrase'].sel(i), 8)))
        tn, ta = mk['text']
        sv = ex.get_abs(st, sink['to'])
        ex.put_abs(st, sink['to'], sv.upd(n=tn, arr=ta) if eq(sv.n, 0) is True else sv.upd(n=S(add(sv.n, tn)), arr=Lam(lambda k, s=sv: Ite(ult(k, s.n), s.arr.sel(k), ta.sel(S(sub(k, s.n))), 8), 8)))
        return True

    def stoul(self, ex, st, c):
        sv = ex.get_abs(st, c.args[0])
        ex.oblige(st, ex.site('decimal'), eq(c.args[2], 10, 32))
        bad = st.fork()
        v = fresh_bv('number', 64)
        st.ghost['numbers'] = st.ghost.get('numbers', ()) + ((v, sv.n, sv.arr),)
        bad.ghost['nan'] = (sv.n, sv.arr)
        e = ex.alloc(bad, 64, 'exception')
        return [Outcome(st, 'ret', v), ex.throw(bad, '_ZTISt16invalid_argument', e)]


def contracts(chk):
    m = chk.ir(['h_cred.cc', 'h_tree.cc', 'h_crypto.cc', AU + 'user_credential_utils.cc', AU + 'detail/secure_string.cc', D + 'crypto.cc'])
    UNI, SYM = enum_code('CommonErrors', 'uninitialised'), enum_code('CommonErrors', 'symmetric_encryption_error')

    def num(fn):
        ex = Exec(m)
        lib_std.install(ex)
        st = State()
        return S(ex.call(st, fn, [] if fn.endswith('_size') else [ex.alloc(st, 256, 'probe')])[0].val)
    NE = (num('ne_off_s'), num('ne_off_v'), num('ne_size'))
    SP = (num('sp_off'), num('sp_size'))
    PO = (num('ki_off_s'), num('ki_off_v'))
    SIZE = num('in_size')
    INITS = sorted((g for g, t in m.func_text.items() if '__cxx_global_var_init' in g and 'kMaidSafeVersionLabel' in str(t)), key=lambda g: (int((g.split('.') + ['0'])[1] or 0), g))
    LABEL = b'MaidSafe Version 1 Key Derivation'

    def lab(i):
        r = 0
        for k, b in enumerate(LABEL):
            r = Ite(eq(i, k), b, r, 8)
        return r

    def labels(f):
        """runs the initialisers of the namespace-scope strings the key derivation uses"""
        f.ex.add_handler(r'^__cxa_atexit$', lambda ex, st, c: 0)
        for g in INITS:
            outs = f.ex.call(f.st, g, [])
            if len(outs) != 1 or outs[0].kind != 'ret':
                raise Unsupported('initialiser ' + g)
            f.st = outs[0].st
    def cat(*parts):
        """concatenation of (n, a)"""
        n, a = parts[0]
        for n2, a2 in parts[1:]:
            a = Lam(lambda k, n=n, a=a, a2=a2: Ite(ult(k, n), a.sel(k), a2.sel(S(sub(k, n))), 8), 8)
            n = S(add(n, n2))
        return n, a

    def same(f, o, what, sv, want):
        f.ensures(o, what + ': length', eq(sv[0], want[0]))
        f.forall(o, what + ': contents', want[0], lambda k: eq(sv[1].sel(k), want[1].sel(k), 8))

    OUT = enum_code('CommonErrors', 'outside_of_bounds')

    def steps(f, o, *calls):
        """runs further functions of the harness after outcome o; each: (entry, arguments)"""
        outs = [o]
        for fn, args in calls:
            outs = [o2 for x in outs for o2 in (f.ex.call(x.st, fn, args) if x.kind == 'ret' else [x])]
        return outs

    # ---------------------------------------------------------------- masked texts
    def text(f):
        Masks(f)
        sp, n, a = f.string('text')
        p = f.ex.alloc(f.st, SIZE, 'input')
        for o in f.run(p, sp):
            if o.kind == 'throw':
                f.throws_error(o, 'an empty text is reported as outside_of_bounds', 'CommonErrors', OUT)
                f.ensures(o, 'only an empty text is rejected', eq(n, 0))
                continue
            f.ensures(o, 'an empty text is rejected', ule(1, n))
            for o2 in steps(f, o, ('in_fin', [p])):
                f.ensures(o2, 'it is finished', o2.kind == 'ret' and eq(o2.val, 1, 1))
            r = f.ex.alloc(o.st, 32, 'result')
            for o2 in steps(f, Outcome(o.st.fork(), 'ret'), ('in_string', [r, p])):
                f.ensures(o2, 'gives a text', o2.kind == 'ret')
                sv = f.ex.get_abs(o2.st, r)
                same(f, o2, 'the text given back', (sv.n, sv.arr), (n, a))
            some = False
            for o2 in steps(f, Outcome(o.st.fork(), 'ret'), ('in_value', [p])):
                if o2.kind == 'throw':
                    f.ensures(o2, 'throws only if the text is no number', 'nan' in o2.st.ghost)
                    continue
                some = True
                nums = o2.st.ghost.get('numbers', ())
                f.ensures(o2, 'one number is read', len(nums) == 1)
                same(f, o2, 'the text read as a number', nums[0][1:], (n, a))
                f.ensures(o2, 'the value is that number', eq(o2.val, nums[0][0]))
            f.ensures(o, 'a value is given', some)
            for o2 in steps(f, Outcome(o.st.fork(), 'ret'), ('in_clear', [p])):
                f.ensures(o2, 'Clear returns', o2.kind == 'ret')
                unfinished(f, o2, p)
        f.reachable('returns', f.rets())

    def unfinished(f, o, p):
        for o2 in steps(f, Outcome(o.st.fork(), 'ret'), ('in_any', [p])):
            f.ensures(o2, 'it is not finished', o2.kind == 'ret' and eq(o2.val, 0, 1))
        r = f.ex.alloc(o.st, 64, 'result')
        for what, call in (('the text', ('in_string', [r, p])), ('the value', ('in_value', [p])), ('the hash', ('in_hash', [r, p]))):
            for o2 in steps(f, Outcome(o.st.fork(), 'ret'), call):
                f.throws_error(o2, what + ' of an unfinished one is refused', 'CommonErrors', SYM)
    chk.fn('a finished text', m, 'in_text', text)

    def fresh(f):
        Masks(f)
        p = f.ex.alloc(f.st, SIZE, 'input')
        for o in f.run(p):
            f.ensures(o, 'returns', o.kind == 'ret')
            unfinished(f, o, p)
            for o2 in steps(f, o, ('in_finish', [p])):
                f.throws_error(o2, 'nothing entered cannot be finished', 'CommonErrors', OUT)
    chk.fn('an unfinished text', m, 'in_new', fresh)

    # ---------------------------------------------------------------- texts entered piece by piece; the number of steps is bounded
    INV = enum_code('CommonErrors', 'invalid_argument')

    def entered(start, ops, want):
        """ops: (name, arguments..., [error]); pieces are named by letters"""
        def body(f):
            Masks(f)
            sp, n, a = f.string('text')
            pieces = {x: f.string(x) for x in 'abc'}
            for x in pieces.values():
                f.requires(ule(1, x[1]))
            if start:
                f.requires(eq(n, start))
                n = start
                f.ex.put_abs(f.st, sp, lib_std.mk('Str', 'char', n, a))
            p = f.ex.alloc(f.st, SIZE, 'input')
            good = []
            for o in f.run(p, *([sp] if start else [])):
                f.ensures(o, 'begins', o.kind == 'ret')
                outs = [o]
                for op, *args in ops:
                    err = args.pop() if args and args[-1] in (INV, OUT) else None
                    new = []
                    for x in outs:
                        for y in f.ex.call(x.st, 'in_' + op, [p] + [pieces[q][0] if isinstance(q, str) else q for q in args]):
                            if err:
                                f.throws_error(y, '%s %s is refused' % (op, args), 'CommonErrors', err)
                                y = Outcome(y.st, 'ret')
                            else:
                                f.ensures(y, '%s %s is done' % (op, args), y.kind == 'ret')
                            if y.kind == 'ret':
                                new.append(y)
                    outs = new
                for x in outs:
                    good.append(x)
                    if want is None:
                        unfinished(f, x, p)
                        continue
                    r = f.ex.alloc(x.st, 32, 'result')
                    for y in steps(f, x, ('in_string', [r, p])):
                        f.ensures(y, 'gives a text', y.kind == 'ret')
                        sv = f.ex.get_abs(y.st, r)
                        same(f, y, 'the text entered', (sv.n, sv.arr), cat(*[(1, Const(a.sel(q), 8)) if isinstance(q, int) else tuple(pieces[q][1:]) for q in want]))
            f.reachable('goes through', good)
        return body
    F = ('finish',)
    for nm, start, ops, want in (
            ('at the end, and finished twice', 0, [('ins', 0, 'a'), ('ins', 1, 'b'), F, F], 'ab'),
            ('at the front', 0, [('ins', 0, 'a'), ('ins', 1, 'b'), ('ins', 0, 'c'), F], 'cab'),
            ('one removed', 0, [('ins', 0, 'a'), ('ins', 1, 'b'), ('ins', 1, 'c'), ('rem', 0, 1), F], 'cb'),
            ('two removed', 0, [('ins', 0, 'a'), ('ins', 1, 'b'), ('ins', 2, 'c'), ('rem', 0, 2), F], 'c'),
            ('a gap, filled later', 0, [('ins', 0, 'a'), ('ins', 2, 'b'), ('finish', INV), ('ins', 1, 'c'), F], 'acb'),
            ('a gap', 0, [('ins', 1, 'a'), ('finish', INV)], None),
            ('cleared', 0, [('ins', 0, 'a'), ('clear',), ('finish', OUT)], None),
            ('finished and cleared', 0, [('ins', 0, 'a'), F, ('clear',), ('finish', OUT)], None),
            ('nothing there to remove', 0, [('ins', 0, 'a'), ('rem', 1, 1, INV), ('rem', 0, 0, INV), F], 'a'),
            ('too much removed', 0, [('ins', 0, 'a'), ('rem', 0, 2, INV)], None),
            ('into a finished text', 2, [('ins', 1, 'a'), F], [0, 'a', 1]),
            ('removed from a finished text', 2, [('rem', 0, 1), F], [1]),
            ('a finished text, cleared', 2, [('clear',), ('finish', OUT)], None)):
        chk.fn('entered piece by piece (bounded): ' + nm, m, 'in_text' if start else 'in_new', entered(start, ops, want), unroll=40, loop_mode='unroll')

    def plain(f, entry, parts):
        Masks(f)
        (ap, *a), (bp, *b) = f.string('first'), f.string('second')
        c = f.bv('char', 8)
        r = f.ex.alloc(f.st, 32, 'result')
        for o in f.run(r, ap, bp, *([c] if parts == 'acb' else [])):
            f.ensures(o, 'returns', o.kind == 'ret')
            if o.kind == 'ret':
                sv = f.ex.get_abs(o.st, r)
                same(f, o, 'what was appended', (sv.n, sv.arr), cat(*[{'a': tuple(a), 'b': tuple(b), 'c': (1, Const(c, 8))}[x] for x in parts]))
    chk.fn('SecureString: appended', m, 'ss_text', lambda f: plain(f, 'ss_text', 'acb'))
    chk.fn('SecureString: cleared', m, 'ss_again', lambda f: plain(f, 'ss_again', 'b'))

    # ---------------------------------------------------------------- the password and the obfuscation
    def creds(entry, how, obf=False, moved=False):
        def body(f):
            Masks(f)
            labels(f)
            kp, *k = f.string('keyword')
            ip, *i = f.string('pin')
            pp, *p = f.string('password')
            for x in (k, i, p):
                f.requires(ule(1, x[0]))
            if obf:
                n, a = f.seq('data', 8)
                f.requires(ule(1, n))
                dp = f.ex.alloc(f.st, NE[2], 'data')
                f.ex.put_abs(f.st, dp.plus(NE[0]), lib_std.mk('Vec', 'unsigned char', n, a))
                f.ex.store(f.st, dp.plus(NE[1]), 1, 1)
                mod48 = periodic(f)
            r = f.out('result', NE[2] if obf else SP[1])
            args = [r] + ([] if moved else list(how)) + [kp, ip, pp] + ([dp] if obf else [])
            missing = 0 in (how if obf else how[1:])
            unfin = not missing and any(x != 2 for x in (how if obf else how[1:]))
            done = 0
            for o in f.run(*args):
                g = o.st.ghost
                if missing:
                    f.throws_error(o, 'a missing credential is reported as uninitialised', 'CommonErrors', UNI)
                    continue
                if unfin:
                    if not g.get('failed') and 'nan' not in g:
                        e = f.err(o) if o.kind == 'throw' else None
                        f.ensures(o, 'an unfinished credential is reported', e is not None and e.cat == 'CommonErrors' and Or(eq(e.code, SYM, 32), eq(e.code, UNI, 32)))
                    else:
                        f.ensures(o, 'throws', o.kind == 'throw')
                    continue
                if o.kind == 'throw':
                    f.ensures(o, 'throws only if hashing fails or the pin is no number', bool(g.get('failed')) or 'nan' in g)
                    continue
                done += 1
                cs = g.get('calls', ())
                f.ensures(o, 'two hashes and one key derivation', [c['kind'] for c in cs] == ['hashfilter', 'hashfilter', 'pbkdf'])
                if len(cs) != 3:
                    continue
                h1, h2, d = cs
                f.ensures(o, 'SHA-512 throughout', h1['hash'] == h2['hash'] == d['alg'] == 'SHA512')
                same(f, o, 'the first hash is of the pin', h1['inp'], tuple(i))
                dig = (64, h1['out'][1])
                parts = (tuple(p), dig) if obf else (dig, tuple(p))
                n1, n2 = parts[0][0], parts[1][0]
                f.ensures(o, 'the salt is made of the hash of the pin and the password: length', eq(h2['inp'][0], add(n1, n2)))
                f.forall(o, 'the salt is made of the hash of the pin and the password: first part', n1, lambda j: eq(h2['inp'][1].sel(j), parts[0][1].sel(j), 8))
                f.forall(o, 'the salt is made of the hash of the pin and the password: second part', n2, lambda j: eq(h2['inp'][1].sel(S(add(n1, j))), parts[1][1].sel(j), 8))
                same(f, o, 'the text the key is derived from is the ' + ('keyword' if obf else 'password'), d['pw'], tuple(k if obf else p))
                same(f, o, 'the salt is the second hash and the label', d['salt'], cat((64, h2['out'][1]), (len(LABEL), Lam(lab, 8))))
                nums = g.get('numbers', ())
                f.ensures(o, 'one number is read', len(nums) == 1)
                same(f, o, 'the pin is the number read', nums[0][1:], tuple(i))
                v = S(trunc(nums[0][0], 64, 32))
                v = S(add(v, v, 32)) if obf else v
                f.ensures(o, 'the number of iterations', eq(d['iters'], add(10000, urem(v, 10000, 32), 32), 32))
                f.ensures(o, '48 bytes are derived', eq(d['out'][0], 48))
                if not obf:
                    sv, ok = f.ex.get_abs(o.st, r.plus(SP[0] + PO[0])), f.ex.load(o.st, r.plus(SP[0] + PO[1]), 1)
                    f.ensures(o, 'the password is initialised', eq(ok, 1, 8))
                    same(f, o, 'the password is what was derived', (sv.n, sv.arr), (48, d['out'][1]))
                    continue
                sv, ok = f.ex.get_abs(o.st, r.plus(NE[0])), f.ex.load(o.st, r.plus(NE[1]), 1)
                f.ensures(o, 'the result is initialised', eq(ok, 1, 8))
                f.ensures(o, 'the result is as long as the data', eq(sv.n, n))
                f.forall(o, 'each byte is the byte of the data, exclusive or the byte of the key at its index modulo 48', n,
                         lambda j: eq(sv.arr.sel(j), Z(a.sel(j), 8) ^ Z(d['out'][1].sel(mod48(j)), 8), 8))
            f.ensures(f.st, 'gives a result', missing or unfin or done > 0)
        return body

    def periodic(f):
        """j mod 48, by its defining properties (proved as lemmas over the integers below), and the invariant of a
        loop that repeats the derived key"""
        R = Base(fresh_name('mod48'), 64)
        at = R.sel
        f.st.foralls.append(Forall(None, lambda j: [Implies(ult(j, 48), eq(at(j), j))]))
        f.ex.assume(f.st, eq(at(z3.BitVecVal(48, 64)), 0))
        target = []

        def vecs(st):
            return [(oid, off, c[1]) for oid, ob in st.mem.items() if ob is not None for off, c in ob.cells.items() if isinstance(c[1], StrVal) and c[1].w == 8]

        def copies(st):
            cs = [c for c in st.ghost.get('calls', ()) if c['kind'] == 'pbkdf']
            if not cs:
                return None, []
            K = cs[0]['out'][1]
            if not target:
                i = fresh_bv('i', 64)
                for oid, off, sv in vecs(st):
                    if f.ex.prove(st, And(eq(sv.n, 48), Implies(ult(i, 48), eq(sv.arr.sel(i), K.sel(i), 8))), 5000, extra_terms=[i])[0] == 'proved':
                        target.append((oid, off))
            return K, [sv for oid, off, sv in vecs(st) if (oid, off) in target]

        def whole(st):
            """each copy that grows holds the key a whole number of times"""
            K, svs = copies(st)
            fs = [True]
            for sv in svs:
                n = sv.n
                fs += [eq(at(n), 0), ule(48, n), ult(n, 1 << 62)]
                st.foralls.append(Forall(None, lambda j, n=n: [Implies(And(eq(at(n), 0), ule(n, j)), eq(at(S(sub(j, n))), at(j)))]))
                f.ex.hints.append(S(add(n, n)))
            return And(fs)

        def content(st):
            K, svs = copies(st)
            return Forall(None, lambda j: [Implies(ult(j, sv.n), eq(sv.arr.sel(j), K.sel(at(j)), 8)) for sv in svs])
        f.ex.loop_invs += [whole, content]
        return at
    j, n = z3.Ints('j n')
    chk.int_lemma('mod 48: j < 48 -> j mod 48 = j', z3.Implies(z3.And(j >= 0, j < 48), j % 48 == j))
    chk.int_lemma('mod 48: n mod 48 = 0 and n <= j -> (j - n) mod 48 = j mod 48', z3.Implies(z3.And(n >= 0, n % 48 == 0, n <= j), (j - n) % 48 == j % 48))
    for how in ((2, 2, 2), (0, 2, 2), (2, 0, 2), (2, 2, 0), (2, 1, 2), (2, 2, 1), (2, 3, 2), (2, 2, 3)):
        nm = ' (keyword, pin, password: %s)' % ', '.join(('missing', 'unfinished', 'given', 'cleared')[x] for x in how)
        chk.fn('CreateSecurePassword' + nm, m, 'cred_pw', creds('cred_pw', how))
        chk.fn('Obfuscate' + nm, m, 'cred_obf', creds('cred_obf', how, obf=True), index_divs=())
    chk.fn('Obfuscate (keyword unfinished)', m, 'cred_obf', creds('cred_obf', (1, 2, 2), obf=True), index_divs=())
    chk.fn('CreateSecurePassword of moved credentials', m, 'cred_moved', creds('cred_moved', (2, 2, 2), moved=True))
