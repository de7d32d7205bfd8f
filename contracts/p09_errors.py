"""P09 error codes on the wire and their categories"""
from vp.contract import *

TITLE = 'errors'
REPLAY = {'driver': 'p09.cc', 'sources': ['src/maidsafe/common/error.cc', 'src/maidsafe/common/error_categories.cc'], 'libs': ['-lpthread'], 'seconds': 8}
CATS = 'Common Asymm Passport Encrypt Routing Nfs Drive Vault VaultManager Api'.split()
K = 100000
# default_error_condition: enumerator -> std::errc; every other value is its own condition
EINVAL, EFBIG, EPERM, EIO, ENOTDIR, ENOTSUP, ETIMEDOUT, EACCES, EEXIST, ENOTCONN, ECONNREFUSED, ECONNABORTED, EMSGSIZE = 22, 27, 1, 5, 20, 95, 110, 13, 17, 107, 111, 103, 90
COND = {
    'Common': dict(null_pointer=EINVAL, invalid_identity=EINVAL, invalid_key_size=EINVAL, outside_of_bounds=EINVAL, invalid_argument=EINVAL, file_too_large=EFBIG,
                   cannot_invoke_from_this_thread=EPERM, unable_to_handle_request=ENOTSUP, filesystem_io_error=EIO, not_a_directory=ENOTDIR),
    'Asymm': dict(data_empty=EINVAL, invalid_file=EINVAL, invalid_signature=EINVAL, signature_empty=EINVAL, signing_error=EINVAL),
    'Passport': {}, 'Encrypt': {}, 'Api': {},
    'Routing': dict(timed_out=ETIMEDOUT), 'Nfs': dict(timed_out=ETIMEDOUT),
    'Drive': dict(permission_denied=EACCES, file_exists=EEXIST),
    'Vault': dict(operation_not_supported=ENOTSUP, permission_denied=EACCES),
    'VaultManager': dict(connection_not_found=ENOTCONN, failed_to_connect=ECONNREFUSED, connection_aborted=ECONNABORTED, ipc_message_too_large=EMSGSIZE, timed_out=ETIMEDOUT),
}

# the enumerators in order and the value of the first: what is stored and sent must mean the same to every version
NAMED = {
    'Common': (0, 'success pending_result unknown null_pointer invalid_identity invalid_key_size outside_of_bounds invalid_argument invalid_conversion file_too_large uninitialised already_initialised hashing_error symmetric_encryption_error symmetric_decryption_error compression_error uncompression_error cannot_invoke_from_this_thread cannot_exceed_limit unable_to_handle_request filesystem_io_error no_such_element serialisation_error parsing_error not_a_directory db_busy db_not_present db_error defaulted'),
    'Asymm': (1, 'keys_generation_error keys_serialisation_error keys_parse_error invalid_private_key invalid_public_key data_empty invalid_file invalid_signature signature_empty encryption_error decryption_error signing_error'),
    'Passport': (1, 'id_already_exists'),
    'Encrypt': (1, 'bad_sequence no_data invalid_encryption_version failed_to_write failed_to_prepare_for_write failed_to_get_chunk failed_to_flush failed_to_decrypt failed_to_read encryptor_closed'),
    'Routing': (1, 'timed_out timer_cancelled not_in_range not_connected'),
    'Nfs': (1, 'failed_to_get_data timed_out'),
    'Drive': (1, 'no_drive_letter_available failed_to_mount permission_denied no_such_file file_exists driver_not_installed'),
    'Vault': (1, 'failed_to_join_network failed_to_handle_request operation_not_supported permission_denied no_such_account low_space not_enough_space unique_data_clash data_available_not_given account_already_exists data_already_exists too_few_entries_to_resolve'),
    'VaultManager': (1, 'connection_not_found failed_to_connect failed_to_listen connection_aborted ipc_message_too_large timed_out unvalidated_client vault_exited_with_error vault_terminated'),
    'Api': (1, 'kPasswordFailure'),
}


def contracts(chk):
    m = chk.ir(['h_error.cc', 'src/maidsafe/common/error.cc', 'src/maidsafe/common/error_categories.cc'])
    opts = {'real_errors': True}

    def setup(f):
        def nothing(ex, st, c):
            return None
        for rx in (r'^std::runtime_error::(runtime_error|operator=)\(.*\)$', r'^std::runtime_error::~runtime_error\(\)$', r'^std::system_error::~system_error\(\)$',
                   r'^std::(_V2::)?error_category::~error_category\(\)$'):
            f.ex.add_handler(rx, nothing, 'std::runtime_error (holds a message)')

        def generic(ex, st, c):
            return fptr('generic_category')
        f.ex.add_handler(r'^std::(_V2::)?generic_category\(\)$', generic, 'std::generic_category (one object, distinct from every other category)')
        f.ex.add_handler(r'^std::(_V2::)?system_category\(\)$', lambda ex, st, c: fptr('system_category'), 'std::system_category')

    def same(p, q):
        return isinstance(p, Ptr) and isinstance(q, Ptr) and p.o == q.o and is_c(p.off) and is_c(q.off) and p.off == q.off

    def cat(f, st, k):
        o = f.ex.call(st.fork(), k + '_cat', [])
        return o[0].val

    def outs(f):
        return f.ex.alloc(f.st, 4, 'value'), f.ex.alloc(f.st, 8, 'category')

    def thrown(f, o, name, code):
        """the in-flight exception is a common_error with this code"""
        e = o.st.exc
        f.ensures(o, name + ' (type)', 'common_error' in e.ti)
        v = f.ex.load(o.st, e.p.plus(16), 4)
        c = f.ex.load(o.st, e.p.plus(24), 8)
        f.ensures(o, name + ' (value)', eq(v, code, 32))
        f.ensures(o, name + ' (category)', same(c, cat(f, o.st, 'Common')))

    PARSE, SER = enum_code('CommonErrors', 'parsing_error'), enum_code('CommonErrors', 'serialisation_error')

    def from_int(f):
        setup(f)
        v = f.bv('v', 32)
        pe, pc = outs(f)
        neg = z3.SignExt(32, -0 - Z(v, 32)) if False else -z3.SignExt(32, Z(v, 32))
        for o in f.run(v, pe, pc):
            if o.kind == 'ret':
                ev, c = f.ex.load(o.st, pe, 4), f.ex.load(o.st, pc, 8)
                ks = [i for i, k in enumerate(CATS) if same(c, cat(f, o.st, k))]
                f.ensures(o, 'the category is one of the ten', len(ks) == 1)
                if len(ks) == 1:
                    x = z3.SignExt(32, Z(ev, 32))
                    f.ensures(o, 'v == -(100000 * category number) - value, 0 <= value < 100000', And(neg == K * (ks[0] + 1) + x, x >= 0, x < K))
            else:
                thrown(f, o, 'throws parsing_error', PARSE)
                f.ensures(o, 'throws only when no category has that number', Or(neg < K, neg >= 11 * K))
        f.reachable('returns', f.rets())
        f.reachable('throws', f.throws())
    chk.fn('IntToError', m, 'err_from_int', from_int, **opts)
    chk.fn('maidsafe_error::load', m, 'err_load', from_int, **opts)

    def foreign(f):
        setup(f)
        for o in f.run(f.bv('value', 32)):
            f.ensures(o, 'an error of another category has no number', o.kind == 'throw')
            if o.kind == 'throw':
                thrown(f, o, 'throws serialisation_error', SER)
    chk.fn('ErrorToInt, foreign category', m, 'err_foreign', foreign, **opts)

    for k, (first, names) in NAMED.items():
        have = enum_values(k + 'Errors')
        for i, n in enumerate(names.split()):
            chk.finite('%sErrors: the value of each enumerator' % k, '%s is %d' % (n, first + i), have.get(n) == first + i, 'it is %s' % have.get(n))

    for i, k in enumerate(CATS):
        def to_int(f, i=i):
            setup(f)
            v = f.bv('value', 32)
            f.requires(ult(v, K, 32))
            for o in f.run(v):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                if o.kind == 'ret':
                    f.ensures(o, '-(100000 * category number) - value', z3.SignExt(32, Z(o.val, 32)) == -(K * (i + 1)) - z3.ZeroExt(32, Z(v, 32)))
            f.reachable('returns', f.rets())
        chk.fn('ErrorToInt(%s)' % k, m, k + '_to_int', to_int, **opts)
        chk.fn('maidsafe_error::save(%s)' % k, m, k + '_save', to_int, **opts)

        def rt(f, k=k):
            setup(f)
            v = f.bv('value', 32)
            f.requires(ult(v, K, 32))
            pe, pc = outs(f)
            for o in f.run(v, pe, pc):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                if o.kind == 'ret':
                    f.ensures(o, 'the same value', eq(f.ex.load(o.st, pe, 4), v, 32))
                    f.ensures(o, 'the same category', same(f.ex.load(o.st, pc, 8), cat(f, o.st, k)))
            f.reachable('returns', f.rets())
        chk.fn('IntToError(ErrorToInt(%s))' % k, m, k + '_rt', rt, **opts)

        def make(f, k=k):
            setup(f)
            v = f.bv('code', 32)
            pe, pc = outs(f)
            for o in f.run(v, pe, pc):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                if o.kind == 'ret':
                    f.ensures(o, 'the value of the enumerator', eq(f.ex.load(o.st, pe, 4), v, 32))
                    f.ensures(o, 'the category of its enumeration', same(f.ex.load(o.st, pc, 8), cat(f, o.st, k)))
            f.reachable('returns', f.rets())
        for e, w in (('make', 'MakeError'), ('code', 'make_error_code'), ('cond', 'make_error_condition')):
            chk.fn('%s(%sErrors)' % (w, k), m, '%s_%s' % (k, e), make, **opts)

        def dcond(f, k=k):
            setup(f)
            v = f.bv('value', 32)
            pe, pc = outs(f)
            vals = enum_values(k + 'Errors')
            spec = {vals[n]: c for n, c in COND[k].items()}
            for o in f.run(v, pe, pc):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                if o.kind != 'ret':
                    continue
                ev, c = f.ex.load(o.st, pe, 4), f.ex.load(o.st, pc, 8)
                mapped = Or([eq(v, x, 32) for x in spec])
                if same(c, cat(f, o.st, k)):
                    f.ensures(o, 'its own condition only where no std::errc is specified', Not(mapped))
                    f.ensures(o, 'with the same value', eq(ev, v, 32))
                else:
                    f.ensures(o, 'otherwise a generic condition', same(c, fptr('generic_category')))
                    f.ensures(o, 'the std::errc specified for it', Or([And(eq(v, x, 32), eq(ev, y, 32)) for x, y in spec.items()]))
            f.reachable('returns', f.rets())
        chk.fn('%sCategory::default_error_condition' % k, m, k + '_dcond', dcond, **opts)

        def name(f, k=k):
            setup(f)
            q = f.out_string('s')
            for o in f.run(q):
                f.ensures(o, 'does not throw', o.kind == 'ret')
                sv = f.abs(o, q)
                f.ensures(o, 'is not empty', is_c(sv.n) and sv.n > 0)
        chk.fn('%sCategory::name' % k, m, k + '_name', name, **opts)

        def msg(f, k=k):
            setup(f)
            vals = sorted(set(enum_values(k + 'Errors').values()))
            texts = {}
            for v in vals + [-1, max(vals) + 1, 1 << 30]:
                q = f.ex.alloc(f.st.fork(), 32, 's')
                st = f.st.fork()
                q = f.ex.alloc(st, 32, 's')
                f.ex.put_abs(st, q, lib_std.mk('Str', 'char', 0, Const(0, 8)))
                for o in f.ex.call(st, k + '_msg', [q, v & mask(32)]):
                    f.outs.append(o)
                    f.ensures(o, 'message of %d does not throw' % v, o.kind == 'ret')
                    sv = f.abs(o, q)
                    f.ensures(o, 'message of %d is not empty' % v, is_c(sv.n) and sv.n > 0)
                    texts[v] = ''.join(chr(S(sv.arr.sel(i))) for i in range(sv.n))
            u = texts[max(vals) + 1]
            f.ensures(f.outs[0], 'a value outside the enumeration has one message', texts[-1] == u and texts[1 << 30] == u)
            unk = enum_values(k + 'Errors').get('unknown')
            for v in vals:
                f.ensures(f.outs[0], 'enumerator %d has a message of its own' % v, [t for t in texts.values()].count(texts[v]) == 1 or v == unk)
        chk.fn('%sCategory::message' % k, m, k + '_msg', msg, **opts)

    def distinct(f):
        setup(f)
        st = f.st
        ps = []
        for k in CATS:
            o = f.ex.call(st, k + '_cat', [])
            f.ensures(o[0], 'Get%sCategory returns one object' % k, len(o) == 1 and o[0].kind == 'ret' and isinstance(o[0].val, Ptr))
            st = o[0].st
            o2 = f.ex.call(st, k + '_cat', [])
            f.ensures(o2[0], 'Get%sCategory returns the same object again' % k, same(o[0].val, o2[0].val))
            ps.append(o[0].val)
            st = o2[0].st
        f.outs = [Outcome(st, 'ret')]
        f.ensures(f.outs[0], 'the ten categories are distinct objects', len({(str(p.o), p.off) for p in ps}) == 10)
    chk.fn('categories', m, 'Common_cat', distinct, **opts)
