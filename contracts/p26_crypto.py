"""P26 crypto: hashing, authenticated encryption, compression, key derivation, dispersal arguments"""
from vp.contract import *
from vp.lib_std import ptr_view

TITLE = 'crypto'
D = 'src/maidsafe/common/'
REPLAY = {'driver': 'p26.cc', 'sources': [D + 'crypto.cc', D + 'encode.cc', D + 'error.cc', D + 'error_categories.cc'],
          'libs': ['-lcryptopp', '-lboost_system', '-lboost_thread', '-lpthread'], 'seconds': 20}
DIG = {'SHA1': 20, 'SHA256': 32, 'SHA384': 48, 'SHA512': 64}
MAXU = (1 << 64) - 1
EXC = '_ZTIN8CryptoPP9ExceptionE'


class Lib:
    """contracts of the CryptoPP classes used: a source pumps its bytes through the filter chain into a sink"""

    def __init__(self, f):
        self.ex = ex = f.ex
        self.n = 0
        A = ex.add_handler
        T = 'CryptoPP '
        nop = lambda ex, st, c: None

        def rec(kind, **kw):
            def h(ex, st, c):
                self.put(st, c.args[0], (kind, dict((k, v(c)) for k, v in kw.items())))
            return h
        for a in DIG:
            A(r'^CryptoPP::%s::%s\(\)$' % (a, a), rec('hash', alg=lambda c, a=a: a), T + a)
            A(r'^CryptoPP::%s::~%s\(\)$' % (a, a), nop)
        A(r'^CryptoPP::StringSinkTemplate<.*>::StringSinkTemplate\(.*\)$', rec('sink', to=lambda c: c.args[1]), T + 'StringSink: appends to the string')
        A(r'^CryptoPP::StringSinkTemplate<.*>::~StringSinkTemplate\(\)$', nop)
        A(r'^CryptoPP::HashFilter::HashFilter\(', rec('hashfilter', hash=lambda c: c.args[1], next=lambda c: c.args[2], put=lambda c: c.args[3], trunc=lambda c: c.args[4]),
          T + 'HashFilter: appends the digest of what it is given')
        A(r'^CryptoPP::GCM_Final<CryptoPP::Rijndael, .*, (true|false)>::GCM_Final\(\)$', rec('gcm', enc=lambda c: c.mm.group(1) == 'true'), T + 'GCM<AES>: AES-GCM with a 16-byte tag')
        A(r'^CryptoPP::GCM_Final<.*>::~GCM_Final\(\)$', nop)
        A(r'^CryptoPP::SimpleKeyingInterface::SetKeyWithIV\(unsigned char const\*, unsigned long, unsigned char const\*, unsigned long\)$', self.setkey)
        A(r'^CryptoPP::AuthenticatedEncryptionFilter::AuthenticatedEncryptionFilter\(', rec('encfilter', gcm=lambda c: c.args[1], next=lambda c: c.args[2], put_aad=lambda c: c.args[3], trunc=lambda c: c.args[4]))
        A(r'^CryptoPP::AuthenticatedDecryptionFilter::AuthenticatedDecryptionFilter\(', rec('decfilter', gcm=lambda c: c.args[1], next=lambda c: c.args[2], flags=lambda c: c.args[3], trunc=lambda c: c.args[4]))
        A(r'^CryptoPP::Gzip::Gzip\(CryptoPP::BufferedTransformation\*, (unsigned )?int, (unsigned )?int, bool\)$', rec('gzip', next=lambda c: c.args[1], level=lambda c: c.args[2]), T + 'Gzip: a gzip stream of what it is given, at the given level')
        A(r'^CryptoPP::Gunzip::Gunzip\(CryptoPP::BufferedTransformation\*, bool, int\)$', rec('gunzip', next=lambda c: c.args[1], repeat=lambda c: c.args[2]), T + 'Gunzip: what the gzip stream holds, or an exception')
        A(r'^CryptoPP::StringSource::StringSource\(unsigned char const\*, unsigned long, bool, CryptoPP::BufferedTransformation\*\)$', self.source_ptr, T + 'StringSource/ArraySource: pumps all its bytes')
        A(r'^CryptoPP::StringSource::StringSource\(std::.*string.* const&, bool, CryptoPP::BufferedTransformation\*\)$', self.source_str)
        A(r'^CryptoPP::StringSource::~StringSource\(\)$', nop)
        A(r'^CryptoPP::BufferedTransformation::Put\(unsigned char const\*, unsigned long, bool\)$', self.sink_put)
        A(r'^CryptoPP::PKCS5_PBKDF2_HMAC<CryptoPP::(\w+)>::PKCS5_PBKDF2_HMAC\(\)$', rec('pbkdf', alg=lambda c: c.mm.group(1)), T + 'PKCS5_PBKDF2_HMAC: PBKDF2')
        A(r'^CryptoPP::PKCS5_PBKDF2_HMAC<.*>::~PKCS5_PBKDF2_HMAC\(\)$', nop)
        A(r'^CryptoPP::PKCS5_PBKDF2_HMAC<CryptoPP::(\w+)>::DeriveKey\(unsigned char\*, unsigned long, unsigned char, unsigned char const\*, unsigned long, unsigned char const\*, unsigned long, unsigned int, double\) const$', self.derive)
        A(r'^CryptoPP::AllocatorWithCleanup<unsigned char, false>::allocate\(', lambda ex, st, c: ex.alloc(st, c.args[1], 'secblock'))
        A(r'^CryptoPP::AllocatorWithCleanup<unsigned char, false>::deallocate\(', nop)
        A(r'^vp_what$', lambda ex, st, c: self.text(st))
        A(r'^boost::current_exception_diagnostic_information\[abi:cxx11\]\(bool\)$', lambda ex, st, c: ex.put_abs(st, c.args[0], lib_std.mk('Str', 'char', fresh_bv('diag.n', 64), Base('diag'))),
          'boost::current_exception_diagnostic_information returns some string')
        A(r'^(.* )?maidsafe::log::detail::.*NullStream.*::operator=<', nop)

    def text(self, st):
        p = self.ex.alloc(st, 1, 'text')
        self.ex.store(st, p, 1, 0)
        return p

    def put(self, st, p, v):
        st.ghost['cpp'] = dict(st.ghost.get('cpp', {}), **{(p.o, p.off if is_c(p.off) else None): v}) if False else \
            tuple(x for x in st.ghost.get('cpp', ()) if x[0] != (p.o, p.off)) + (((p.o, p.off), v),)

    def get(self, st, p, *kinds):
        for k, v in st.ghost.get('cpp', ()):
            if k == (p.o, p.off) and v[0] in kinds:
                return v
        raise Unsupported('CryptoPP object of kind %s at %r' % (kinds, p))

    def bytes(self, st, p, n):
        self.ex.bounds(st, p, n, 'read')
        return ptr_view(self.ex, st, p, 8)

    def setkey(self, ex, st, c):
        kind, d = self.get(st, c.args[0], 'gcm')
        self.put(st, c.args[0], ('gcm', dict(d, key=(c.args[2], self.bytes(st, c.args[1], c.args[2])), iv=(c.args[4], self.bytes(st, c.args[3], c.args[4])))))

    def source_ptr(self, ex, st, c):
        return self.pump(st, self.bytes(st, c.args[1], c.args[2]), c.args[2], c.args[3], c.args[4])

    def source_str(self, ex, st, c):
        sv = ex.get_abs(st, c.args[1])
        return self.pump(st, sv.arr, sv.n, c.args[2], c.args[3])

    def pump(self, st, arr, n, all_, att):
        ex = self.ex
        if all_ is not True and S(all_) != 1:
            raise Unsupported('a source that does not pump at once')
        kind, d = self.get(st, att, 'hashfilter', 'encfilter', 'decfilter', 'gzip', 'gunzip')
        _, sink = self.get(st, d['next'], 'sink')
        out = Base(fresh_name('cpp.out'), 8)
        m = fresh_bv('cpp.n', 64)
        call = dict(d, kind=kind, inp=(n, arr), out=(m, out))
        bad = None
        if kind == 'hashfilter':
            call['hash'] = self.get(st, d['hash'], 'hash')[1]['alg']
            ex.assume(st, eq(m, DIG[call['hash']]))
            ex.oblige(st, ex.site('the digest alone is written, untruncated'), And(eq(d['put'], 0, 1), eq(d['trunc'], mask(32), 32)))
        elif kind in ('encfilter', 'decfilter'):
            g = self.get(st, d['gcm'], 'gcm')[1]
            ex.oblige(st, ex.site('the cipher is set up for this direction'), g['enc'] == (kind == 'encfilter'))
            ex.oblige(st, ex.site('the cipher has its key'), 'key' in g)
            ex.oblige(st, ex.site('the tag has its full 16 bytes'), Or(eq(d['trunc'], mask(32), 32), eq(d['trunc'], 16, 32)))
            call.update(key=g.get('key'), iv=g.get('iv'))
            if kind == 'encfilter':
                ex.oblige(st, ex.site('nothing but the ciphertext is written'), eq(d['put_aad'], 0, 1))
                ex.assume(st, eq(m, add(n, 16)))
            else:
                ex.oblige(st, ex.site('a wrong tag is reported by an exception, and only the plaintext is written'), eq(d['flags'], 16, 32))
                ex.assume(st, And(ule(16, n), eq(m, sub(n, 16))))
        elif kind == 'gzip':
            ex.assume(st, And(ule(18, m), ule(m, 1 << 41)))
        else:
            ex.assume(st, ule(m, 1 << 41))
        bad = st.fork()
        sv = ex.get_abs(st, sink['to'])
        ex.put_abs(st, sink['to'], lib_std.mk('Str', 'char', m, out) if eq(sv.n, 0) is True else sv.upd(n=S(add(sv.n, m)), arr=Lam(lambda k, a=sv.arr, n0=sv.n, b=out: Ite(ult(k, n0), a.sel(k), b.sel(S(sub(k, n0))), 8), 8)))
        st.ghost['calls'] = st.ghost.get('calls', ()) + (call,)
        # or it throws
        bad.ghost['failed'] = bad.ghost.get('failed', ()) + (call,)
        vt = ex.alloc(bad, 64, 'vtable')
        for i in range(8):
            ex.store(bad, vt.plus(8 * i), 8, Ptr(('F', 'vp_what'), 0))
        e = ex.alloc(bad, 64, 'exception')
        ex.store(bad, e, 8, vt)
        outs = [Outcome(st, 'ret', None), ex.throw(bad, EXC, e)]
        return [o for o in outs if ex.feasible(o.st)]

    def sink_put(self, ex, st, c):
        _, sink = self.get(st, c.args[0], 'sink')
        n = c.args[2]
        arr = self.bytes(st, c.args[1], n)
        sv = ex.get_abs(st, sink['to'])
        ex.put_abs(st, sink['to'], sv.upd(n=S(add(sv.n, n)), arr=Lam(lambda k, a=sv.arr, n0=sv.n, b=arr: Ite(ult(k, n0), a.sel(k), b.sel(S(sub(k, n0))), 8), 8)))
        return 0

    def derive(self, ex, st, c):
        g = self.get(st, c.args[0], 'pbkdf')[1]
        _, dst, dl, purpose, pw, pl, salt, sl, it, t = c.args
        ex.bounds(st, dst, dl, 'write')
        out = Base(fresh_name('derived'), 8)
        st.ghost['calls'] = st.ghost.get('calls', ()) + (dict(kind='pbkdf', alg=c.mm.group(1), pw=(pl, self.bytes(st, pw, pl)), salt=(sl, self.bytes(st, salt, sl)), iters=it, out=(dl, out), time=t),)
        o = st.wobj(dst.o)
        ex.oblige(st, ex.site('the whole block is derived'), And(eq(dst.off, 0), eq(o.size, dl)))
        o.ranges = [(0, dl, out)]
        return it


class Shares(Lib):
    """contracts of secret sharing and information dispersal: (t, n) sharing of D sends share(D, t, n, c) to the route of channel c;
    recovery from k sources fed on their channels outputs one string, a function of the channels and of what they were fed"""

    def __init__(self, f, slots):
        super().__init__(f)
        self.f, self.slots = f, slots
        A = self.ex.add_handler
        T = 'CryptoPP '
        nop = lambda ex, st, c: None
        A(r'^maidsafe::crypto::random_number_generator\(\)$', self.rng)
        A(r'^CryptoPP::ChannelSwitch::ChannelSwitch\(\)$', lambda ex, st, c: self.put(st, c.args[0], ('switch', {'routes': ()})), T + 'ChannelSwitch: sends what arrives on a channel to its route')
        A(r'^CryptoPP::ChannelSwitch::ChannelSwitch\(CryptoPP::BufferedTransformation&, std::.* const&\)$', self.to_channel)
        A(r'^CryptoPP::ChannelSwitch::AddRoute\(std::.* const&, CryptoPP::BufferedTransformation&, std::.* const&\)$', self.route)
        A(r'^CryptoPP::SecretSharing::SecretSharing\(', self.sharing('secret', 1), T + 'SecretSharing, SecretRecovery: any t of the shares give the data')
        A(r'^CryptoPP::InformationDispersal::InformationDispersal\(', self.sharing('info', 0), T + 'InformationDispersal, InformationRecovery: any t of the parts give the data')
        A(r'^CryptoPP::SecretRecovery::SecretRecovery\(', self.recovery('secret'))
        A(r'^CryptoPP::InformationRecovery::InformationRecovery\(', self.recovery('info'))
        A(r'^CryptoPP::(SecretRecovery|InformationRecovery|ChannelSwitch|ArraySink|StringSource)::~(SecretRecovery|InformationRecovery|ChannelSwitch|ArraySink|StringSource)\(\)$', nop)
        A(r'^CryptoPP::member_ptr<.*>::~member_ptr\(\)$', nop)
        A(r'^CryptoPP::member_ptr<.*>::reset\(', lambda ex, st, c: ex.store(st, c.args[0], 8, c.args[1]))
        A(r'^CryptoPP::ArraySink::ArraySink\(unsigned char\*, unsigned long\)$', self.array_sink, T + 'ArraySink: writes to the array')
        A(r'^CryptoPP::ArraySink::TotalPutLength\(\)$', lambda ex, st, c: self.get(st, c.args[0], 'array')[1]['n'])
        A(r'^CryptoPP::BufferedTransformation::Put\(unsigned char const\*, unsigned long, bool\)$', self.array_put)
        A(r'^CryptoPP::Source::PumpAll\(\)$', self.pump_all)
        A(r'^CryptoPP::Source::Pump\(unsigned long\)$', self.pump_some)
        A(r'^vp_slot_(\d+)$', self.virtual)

    def rng(self, ex, st, c):
        p = ex.alloc(st, 8, 'rng')
        st.ghost['rng'] = p.o
        return p

    def vtable(self, st, p):
        vt = self.ex.alloc(st, 800, 'vtable')
        for nm, o in self.slots.items():
            self.ex.store(st, vt.plus(o), 8, Ptr(('F', 'vp_slot_%d' % o), 0))
        self.ex.store(st, p, 8, vt)

    def virtual(self, ex, st, c):
        o = int(c.mm.group(1))
        if o == self.slots['get']:
            return self.take(ex, st, c)
        return self.attach(ex, st, c)

    def name_of(self, st, p):
        """four bytes of a channel name"""
        sv = self.ex.get_abs(st, p)
        self.ex.oblige(st, self.ex.site('a channel name has four bytes'), eq(sv.n, 4))
        return tuple(S(sv.arr.sel(k)) for k in range(4))

    def to_channel(self, ex, st, c):
        self.put(st, c.args[0], ('feed', {'to': c.args[1], 'chan': self.name_of(st, c.args[2])}))

    def route(self, ex, st, c):
        kind, d = self.get(st, c.args[0], 'switch')
        out = c.args[3]
        if not (isinstance(out.o, tuple) or ex.get_abs(st, out) is None):
            ex.oblige(st, ex.site('routed to the default channel of the sink'), eq(ex.get_abs(st, out).n, 0))
        self.put(st, c.args[0], (kind, {'routes': d['routes'] + ((self.name_of(st, c.args[1]), c.args[2]),)}))

    def sharing(self, alg, at):
        def h(ex, st, c):
            if alg == 'secret':
                ex.oblige(st, ex.site('the shares are made with the random number generator'), c.args[1].o == st.ghost.get('rng'))
            self.put(st, c.args[0], ('share', dict(alg=alg, t=c.args[1 + at], n=c.args[2 + at], next=c.args[3 + at], pad=c.args[4 + at])))
        return h

    def recovery(self, alg):
        def h(ex, st, c):
            self.put(st, c.args[0], ('recovery', dict(alg=alg, k=c.args[1], sink=c.args[2], pad=c.args[3], fed=())))
        return h

    def array_sink(self, ex, st, c):
        self.put(st, c.args[0], ('array', dict(p=c.args[1], cap=c.args[2], n=0)))

    def write(self, st, sink, n, arr):
        """append to an array sink"""
        ex = self.ex
        _, d = self.get(st, sink, 'array')
        ex.oblige(st, ex.site('the array holds all that is written to it'), And(ule(n, d['cap']), ule(d['n'], sub(d['cap'], n))))
        q = d['p'].plus(d['n'])
        tmp = ex.alloc(st, n, 'bytes')
        st.wobj(tmp.o).ranges = [(0, n, arr)]
        ex.memcpy(st, q, tmp, n)
        self.put(st, sink, ('array', dict(d, n=S(add(d['n'], n)))))

    def array_put(self, ex, st, c):
        n = c.args[2]
        self.write(st, c.args[0], n, self.bytes(st, c.args[1], n))
        return 0

    def source_ptr(self, ex, st, c):
        self.put(st, c.args[0], ('source', dict(n=c.args[2], arr=self.bytes(st, c.args[1], c.args[2]), pos=0, got=0, to=c.args[4])))
        self.vtable(st, c.args[0])
        if S(c.args[3]) != 0:
            return self.run_source(st, c.args[0])

    def pump_some(self, ex, st, c):
        kind, d = self.get(st, c.args[0], 'source')
        n = c.args[1]
        ex.oblige(st, ex.site('there is that much to pump, to the queue'), And(ule(add(d['pos'], n), d['n']), isinstance(d['to'], Ptr) and d['to'].o == 0))
        self.put(st, c.args[0], (kind, dict(d, pos=S(add(d['pos'], n)))))
        return n

    def take(self, ex, st, c):
        kind, d = self.get(st, c.args[0], 'source')
        n = c.args[2]
        ex.oblige(st, ex.site('there is that much in the queue'), ule(add(d['got'], n), d['pos']))
        tmp = ex.alloc(st, n, 'bytes')
        st.wobj(tmp.o).ranges = [(0, n, Lam(lambda k, a=d['arr'], g=d['got']: a.sel(S(add(k, g))), 8))]
        ex.memcpy(st, c.args[1], tmp, n)
        self.put(st, c.args[0], (kind, dict(d, got=S(add(d['got'], n)))))
        return n

    def attach(self, ex, st, c):
        kind, d = self.get(st, c.args[0], 'source')
        ex.oblige(st, ex.site('nothing is left in the queue'), eq(d['got'], d['pos']))
        self.put(st, c.args[0], (kind, dict(d, to=c.args[1])))

    def pump_all(self, ex, st, c):
        return self.run_source(st, c.args[0])

    def run_source(self, st, p):
        ex = self.ex
        kind, d = self.get(st, p, 'source')
        n, arr = S(sub(d['n'], d['pos'])), (Lam(lambda k, a=d['arr'], g=d['pos']: a.sel(S(add(k, g))), 8) if not eq(d['pos'], 0) is True else d['arr'])
        self.put(st, p, (kind, dict(d, pos=d['n'])))
        k2, t = self.get(st, d['to'], 'share', 'feed')
        if k2 == 'share':
            m = fresh_bv('share.n', 64)
            ex.assume(st, And(ule(4, m), ule(m, add(n, 4))))
            outs = ()
            ex.oblige(st, ex.site('shares are padded, so that the recovery can tell their length'), eq(t['pad'], 1, 1))
            for i, (ch, sink) in enumerate(self.get(st, t['next'], 'switch')[1]['routes']):
                b = Base(fresh_name('share'), 8)
                self.write(st, sink, m, b)
                outs += ((ch, m, b),)
            st.ghost['calls'] = st.ghost.get('calls', ()) + (dict(kind='share', alg=t['alg'], t=t['t'], n=t['n'], inp=(n, arr), outs=outs),)
            return None
        _, r = self.get(st, t['to'], 'recovery')
        r = dict(r, fed=r['fed'] + ((t['chan'], n, arr),))
        if is_c(r['k']) and len(r['fed']) == r['k']:
            m = fresh_bv('recovered.n', 64)
            b = Base(fresh_name('recovered'), 8)
            for (_, x, _) in r['fed']:
                ex.assume(st, ule(m, x) if r['alg'] == 'secret' else ule(m, mul(x, r['k'])))
            self.write(st, r['sink'], m, b)
            r['out'] = (m, b)
            st.ghost['calls'] = st.ghost.get('calls', ()) + (dict(r, kind='recovery'),)
        self.put(st, t['to'], ('recovery', r))


def contracts(chk):
    m = chk.ir(['h_crypto.cc', D + 'crypto.cc'])
    UNI, ARG = enum_code('CommonErrors', 'uninitialised'), enum_code('CommonErrors', 'invalid_argument')

    def num(fn):
        ex = Exec(m)
        lib_std.install(ex)
        st = State()
        return S(ex.call(st, fn, [] if fn.endswith('_size') else [ex.alloc(st, 256, 'probe')])[0].val)
    lay = {'ne': (num('ne_off_s'), num('ne_off_v'), num('ne_size')), 'ki': (num('ki_off_s'), num('ki_off_v'), num('ki_size'))}
    for t in ('ct', 'zt', 'sp'):
        lay[t] = (num(t + '_off'), num(t + '_size'))

    class Bs:
        """a BoundedString argument (invariant of property P05)"""

        def __init__(self, f, name, t='ne', p=None, lo=1, hi=MAXU, kind='Vec', elem='unsigned char'):
            self.f, self.name = f, name
            s, v, size = lay[t]
            self.p = f.ex.alloc(f.st, size, name) if p is None else p
            self.n, self.a = f.seq(name, 8)
            self.v = f.bv(name + '.valid', 8)
            f.requires(ule(self.v, 1, 8))
            f.requires(Ite(self.ok(), And(ule(lo, self.n), ule(self.n, hi)), eq(self.n, 0), 1))
            f.ex.put_abs(f.st, self.p.plus(s), lib_std.mk(kind, elem, self.n, self.a))
            f.ex.store(f.st, self.p.plus(v), 1, self.v)

        def ok(self):
            return eq(self.v, 1, 8)

    def key(f):
        return Bs(f, 'key_and_iv', 'ki', None, 48, 48, *KIND)
    ex0 = Exec(m)
    # the representation of AES256KeyAndIV
    KIND = ('Vec', 'unsigned char')

    def tagged(f, t, name):
        p = f.ex.alloc(f.st, lay[t][1], name)
        return p, Bs(f, name, 'ne', p.plus(lay[t][0]))

    def result(f, o, p, off=0, t='ne'):
        s, v, _ = lay[t]
        return f.ex.get_abs(o.st, p.plus(off + s)), f.ex.load(o.st, p.plus(off + v), 1)

    def is_seq(f, o, name, sv, n, a):
        f.ensures(o, name + ': length', eq(sv[0], n))
        f.forall(o, name + ': contents', n, lambda k: eq(sv[1].sel(k), a.sel(k), 8))

    def the_call(f, o, kind, what='calls'):
        cs = o.st.ghost.get(what, ())
        f.ensures(o, 'exactly one %s operation' % kind, len(cs) == 1 and cs[0]['kind'] == kind)
        return cs[0] if len(cs) == 1 and cs[0]['kind'] == kind else None

    def holds(f, o, what, p, off, n, a, t='ne'):
        sv, v = result(f, o, p, off, t)
        f.ensures(o, what + ' is initialised', eq(v, 1, 8))
        is_seq(f, o, what, (sv.n, sv.arr), n, a)

    def failure(f, o, code, kind, uninit, extra=()):
        """the exceptional outcomes: uninitialised arguments, and failure of CryptoPP"""
        if o.st.ghost.get('failed'):
            the_call(f, o, kind, 'failed')
            f.throws_error(o, 'failure is reported as %s' % code, 'CommonErrors', enum_code('CommonErrors', code))
        else:
            f.throws_error(o, 'throws uninitialised', 'CommonErrors', UNI)
            f.ensures(o, 'throws only for an uninitialised argument', uninit)

    # ---------------------------------------------------------------- Hash
    def hash_(nm, alg, kind, elem, bs=None):
        lh = tuple(num((bs or nm) + x) for x in ('_off_s', '_off_v', '_size'))

        def body(f):
            Lib(f)
            if bs:
                x = Bs(f, 'input')
                p, n, a, init = x.p, x.n, x.a, x.ok()
            else:
                p, n, a = f.string('input', kind, elem)
                init = True
            r = f.out('result', lh[2])
            for o in f.run(r, p):
                if o.kind == 'throw':
                    failure(f, o, 'hashing_error', 'hashfilter', Not(init))
                    continue
                f.ensures(o, 'an uninitialised string is rejected', init)
                c = the_call(f, o, 'hashfilter')
                if not c:
                    continue
                f.ensures(o, 'the algorithm is %s' % alg, c['hash'] == alg)
                is_seq(f, o, 'the whole input is hashed', c['inp'], n, a)
                sv, v = f.ex.get_abs(o.st, r.plus(lh[0])), f.ex.load(o.st, r.plus(lh[1]), 1)
                f.ensures(o, 'the result is initialised', eq(v, 1, 8))
                is_seq(f, o, 'the result is the digest', (sv.n, sv.arr), DIG[alg], c['out'][1])
            f.reachable('hashes', f.rets())
        chk.fn('Hash<%s>(%s)' % (alg, 'BoundedString' if bs else elem), m, nm, body)
    for alg in DIG:
        hash_(alg.lower() + '_s', alg, 'Str', 'char')
        hash_(alg.lower() + '_v', alg, 'Vec', 'unsigned char')
    hash_('sha512_b', 'SHA512', 'Vec', 'unsigned char', 'sha512_v')
    hash_('sha256_b', 'SHA256', 'Vec', 'unsigned char', 'sha256_v')

    # ---------------------------------------------------------------- SymmEncrypt, SymmDecrypt
    def keyed(f, o, c, k):
        is_seq(f, o, 'the key is the first 32 bytes', c['key'], 32, k.a)
        is_seq(f, o, 'the IV is the last 16 bytes', c['iv'], 16, Shift(k.a, 32))

    def enc(f):
        Lib(f)
        x, k = Bs(f, 'input'), key(f)
        r = f.out('result', lay['ct'][1])
        for o in f.run(r, x.p, k.p):
            if o.kind == 'throw':
                failure(f, o, 'symmetric_encryption_error', 'encfilter', Not(And(x.ok(), k.ok())))
                continue
            f.ensures(o, 'uninitialised arguments are rejected', And(x.ok(), k.ok()))
            c = the_call(f, o, 'encfilter')
            if c:
                keyed(f, o, c, k)
                is_seq(f, o, 'the whole input is encrypted', c['inp'], x.n, x.a)
                holds(f, o, 'the result', r, lay['ct'][0], c['out'][0], c['out'][1])
        f.reachable('encrypts', f.rets())
    chk.fn('SymmEncrypt', m, 'symm_encrypt', enc)

    def dec(f):
        Lib(f)
        (p, x), k = tagged(f, 'ct', 'input'), key(f)
        r = f.out('result', lay['ne'][2])
        for o in f.run(r, p, k.p):
            cs = o.st.ghost.get('calls', ())
            if o.kind == 'throw' and cs:
                c = the_call(f, o, 'decfilter')
                if c:
                    f.ensures(o, 'a decrypted text is given unless it is empty', eq(c['out'][0], 0))
                f.ensures(o, 'an empty text is reported as an error', f.err(o) is not None)
                continue
            if o.kind == 'throw':
                failure(f, o, 'symmetric_decryption_error', 'decfilter', Not(And(x.ok(), k.ok())))
                continue
            f.ensures(o, 'uninitialised arguments are rejected', And(x.ok(), k.ok()))
            c = the_call(f, o, 'decfilter')
            if c:
                keyed(f, o, c, k)
                is_seq(f, o, 'the whole input is decrypted', c['inp'], x.n, x.a)
                holds(f, o, 'the result', r, 0, c['out'][0], c['out'][1])
        f.reachable('decrypts', f.rets())
        f.reachable('reports a failed decryption', [o for o in f.throws() if o.st.ghost.get('failed')])
    chk.fn('SymmDecrypt', m, 'symm_decrypt', dec)

    # ---------------------------------------------------------------- Compress, Uncompress
    def comp(f):
        Lib(f)
        x = Bs(f, 'input')
        lv = f.bv('level', 16)
        r = f.out('result', lay['zt'][1])
        for o in f.run(r, x.p, lv):
            if o.kind == 'throw':
                if not o.st.ghost.get('failed') and f.err(o) is not None and f.ex.feasible(o.st, ult(9, lv, 16)):
                    f.ensures(o, 'invalid_argument for a level above 9, uninitialised otherwise',
                              Or(And(ult(9, lv, 16), eq(f.err(o).code, ARG, 32)), And(Not(x.ok()), eq(f.err(o).code, UNI, 32))))
                    continue
                failure(f, o, 'compression_error', 'gzip', Not(x.ok()))
                continue
            f.ensures(o, 'an uninitialised input and a level above 9 are rejected', And(x.ok(), ule(lv, 9, 16)))
            c = the_call(f, o, 'gzip')
            if c:
                f.ensures(o, 'the level is the given one', eq(c['level'], zext(lv, 16, 32), 32))
                is_seq(f, o, 'the whole input is compressed', c['inp'], x.n, x.a)
                holds(f, o, 'the result', r, lay['zt'][0], c['out'][0], c['out'][1])
        f.reachable('compresses', f.rets())
    chk.fn('Compress', m, 'compress', comp)

    def uncomp(f):
        Lib(f)
        p, x = tagged(f, 'zt', 'input')
        r = f.out('result', lay['ne'][2])
        for o in f.run(r, p):
            cs = o.st.ghost.get('calls', ())
            if o.kind == 'throw' and cs:
                c = the_call(f, o, 'gunzip')
                if c:
                    f.ensures(o, 'an uncompressed text is given unless it is empty', eq(c['out'][0], 0))
                f.ensures(o, 'an empty text is reported as an error', f.err(o) is not None)
                continue
            if o.kind == 'throw':
                failure(f, o, 'uncompression_error', 'gunzip', Not(x.ok()))
                continue
            f.ensures(o, 'an uninitialised input is rejected', x.ok())
            c = the_call(f, o, 'gunzip')
            if c:
                is_seq(f, o, 'the whole input is uncompressed', c['inp'], x.n, x.a)
                holds(f, o, 'the result', r, 0, c['out'][0], c['out'][1])
        f.reachable('uncompresses', f.rets())
        f.reachable('reports a malformed stream', [o for o in f.throws() if o.st.ghost.get('failed')])
    chk.fn('Uncompress', m, 'uncompress', uncomp)

    # ---------------------------------------------------------------- CreateSecurePassword
    def spw(f):
        Lib(f)
        pw, salt = Bs(f, 'password'), Bs(f, 'salt')
        pin = f.bv('pin', 32)
        lp, ln, la = f.string('label')
        r = f.out('result', lay['sp'][1])
        for o in f.run(r, pw.p, salt.p, pin, lp):
            if o.kind == 'throw':
                failure(f, o, 'hashing_error', 'pbkdf', Not(And(pw.ok(), salt.ok())))
                continue
            f.ensures(o, 'uninitialised arguments are rejected', And(pw.ok(), salt.ok()))
            c = the_call(f, o, 'pbkdf')
            if c:
                f.ensures(o, 'the hash is SHA-512', c['alg'] == 'SHA512')
                f.ensures(o, 'the number of iterations is 10000 + pin % 10000', eq(c['iters'], add(10000, urem(pin, 10000, 32), 32), 32))
                is_seq(f, o, 'the password', c['pw'], pw.n, pw.a)
                is_seq(f, o, 'the salt is salt + label', c['salt'], add(salt.n, ln), Lam(lambda k: Ite(ult(k, salt.n), salt.a.sel(k), la.sel(S(sub(k, salt.n))), 8), 8))
                f.ensures(o, '48 bytes are derived', eq(c['out'][0], 48))
                holds(f, o, 'the result', r, lay['sp'][0], 48, c['out'][1], 'ki')
        f.reachable('derives', f.rets())
    chk.fn('CreateSecurePassword', m, 'sec_pw', spw)

    # ---------------------------------------------------------------- arguments of InfoDisperse, SecretShareData
    def args(f):
        Lib(f)
        x = Bs(f, 'data')
        t, n = f.bv('threshold', 32), f.bv('shares', 32)
        valid = And(sle(2, t, 32), sle(t, n, 32), sle(3, n, 32))

        def begin(ex, st, c):
            st.ghost['begun'] = 1
            return []
        f.ex.add_handler(r'^CryptoPP::ChannelSwitch::ChannelSwitch\(\)$', begin)
        begun = []

        def cut(ex, st, c):
            begun.append(st)
            f.ensures(st, 'work starts only with valid arguments', valid)
            raise PathEnd('arguments accepted')
        f.ex.add_handler(r'^CryptoPP::ChannelSwitch::ChannelSwitch\(\)$', cut)
        for o in f.run(f.out('result', 24), t, n, x.p):
            f.ensures(o, 'throws before any work', o.kind == 'throw')
            f.throws_error(o, 'throws invalid_argument', 'CommonErrors', ARG)
            f.ensures(o, 'throws only for invalid arguments', Not(valid))
        f.ensures(f.st, 'valid arguments are accepted', len(begun) > 0)
    chk.fn('InfoDisperse (arguments)', m, 'disperse', args)
    chk.fn('SecretShareData (arguments)', m, 'share', args)

    def nothing(f):
        Lib(f)
        for o in f.run(f.out('result', lay['ne'][2])):
            f.ensures(o, 'throws', o.kind == 'throw')
            f.throws_error(o, 'throws invalid_argument', 'CommonErrors', ARG)
    chk.fn('InfoRetrieve (no parts)', m, 'retrieve_none', nothing)
    chk.fn('SecretRecoverData (no parts)', m, 'recover_none', nothing)

    # ---------------------------------------------------------------- sharing and recovery; the number of parts is bounded
    slots = {'get': num0(m, 'slot_get'), 'attach': num0(m, 'slot_attach')}

    def split(alg, n):
        def body(f):
            lib = Shares(f, slots)
            x = Bs(f, 'data')
            f.requires(eq(x.v, 1, 8))
            f.requires(ule(x.n, 1 << 40))
            t = f.bv('threshold', 32)
            f.requires(And(sle(2, t, 32), sle(t, n, 32)))
            r = f.out('result', 24)
            for o in f.run(r, t, n, x.p):
                f.ensures(o, 'returns', o.kind == 'ret')
                if o.kind != 'ret':
                    continue
                c = the_call(f, o, 'share')
                if c is None:
                    continue
                f.ensures(o, 'it is %s' % ('secret sharing' if alg == 'secret' else 'information dispersal'), c['alg'] == alg)
                f.ensures(o, 'threshold and number of shares', And(eq(c['t'], t, 32), eq(c['n'], n, 32)))
                is_seq(f, o, 'the data shared', c['inp'], x.n, x.a)
                f.ensures(o, 'one route for each part', len(c['outs']) == n)
                for q in f.ex.call(o.st, 'parts_n', [r]):
                    f.ensures(q, 'number of parts', eq(q.val, n))
                for i, (ch, k, b) in enumerate(c['outs'][:n]):
                    f.ensures(o, 'channel %d' % i, And(*[eq(ch[j], [0, 0, 0, i][j], 8) for j in range(4)]))
                    for q in f.ex.call(o.st, 'parts_at', [r, i]):
                        sv, v = result(f, q, q.val)
                        f.ensures(q, 'part %d is initialised' % i, eq(v, 1, 8))
                        f.ensures(q, 'size of part %d' % i, eq(sv.n, add(k, 4)))
                        f.ensures(q, 'part %d begins with its number' % i, And(*[eq(sv.arr.sel(j), [0, 0, 0, i][j], 8) for j in range(4)]))
                        f.forall(q, 'part %d goes on with its share' % i, k, lambda j, sv=sv, b=b: eq(sv.arr.sel(S(add(j, 4))), b.sel(j), 8))
            f.reachable('returns', f.rets())
        return body

    def join(alg, n):
        def body(f):
            lib = Shares(f, slots)
            xs = [Bs(f, 'part%d' % i, lo=4, hi=1 << 40) for i in range(n)]
            for x in xs:
                f.requires(eq(x.v, 1, 8))
                f.requires(eq(x.n, xs[0].n))
            r = f.out('result', lay['ne'][2])
            for o in f.run(r, *[x.p for x in xs]):
                c = the_call(f, o, 'recovery')
                if c is None:
                    continue
                f.ensures(o, 'it is %s' % ('secret recovery' if alg == 'secret' else 'information recovery'), c['alg'] == alg)
                f.ensures(o, 'padding is removed', eq(c['pad'], 1, 1))
                f.ensures(o, 'every part takes part', len(c['fed']) == n)
                for i, ((ch, k, a), x) in enumerate(zip(c['fed'], xs)):
                    f.ensures(o, 'part %d is fed on the channel it names' % i, And(*[eq(ch[j], x.a.sel(j), 8) for j in range(4)]))
                    is_seq(f, o, 'what part %d is fed' % i, (k, a), sub(x.n, 4), Lam(lambda j, x=x: x.a.sel(S(add(j, 4))), 8))
                if o.kind == 'ret':
                    holds(f, o, 'the result', r, 0, c['out'][0], c['out'][1])
                else:
                    f.ensures(o, 'throws only if nothing was recovered', eq(c['out'][0], 0))
            f.reachable('returns', f.rets())
        return body
    for n in (3, 4):
        chk.fn('InfoDisperse to %d parts (bounded)' % n, m, 'disperse', split('info', n), unroll=20)
        chk.fn('SecretShareData to %d parts (bounded)' % n, m, 'share', split('secret', n), unroll=20)
    for n in (1, 2, 3):
        chk.fn('InfoRetrieve from %d parts (bounded)' % n, m, 'retrieve%d' % n, join('info', n), unroll=20)
        chk.fn('SecretRecoverData from %d parts (bounded)' % n, m, 'recover%d' % n, join('secret', n), unroll=20)


def num0(m, fn):
    ex = Exec(m)
    lib_std.install(ex)
    return S(ex.call(State(), fn, [])[0].val)
