"""P16 on_scope_exit"""
from vp.build import VERIF
from vp.contract import *

TITLE = 'scope guard'
REPLAY = {'driver': 'p16.cc', 'sources': [VERIF + '/replay/p16_gcc.cc'], 'libs': [], 'seconds': 5}


def contracts(chk):
    for src, pre, who in (('h_soe_clang.cc', 'c_', ''), ('h_soe_gcc.cc', 'g_', ' [gcc variant]')):
        one(chk, chk.ir([src]), pre, who)


def one(chk, m, pre, who):
    def setup(f):
        def act(ex, st, c):
            st.ghost['acts'] = st.ghost.get('acts', ()) + (c.args[0],)
        f.ex.add_handler(r'^act$', act)

        def mid(ex, st, c):
            st.ghost['acts'] = st.ghost.get('acts', ()) + ('scope',)
        f.ex.add_handler(r'^mid$', mid)

    def expect(f, o, what, want):
        got = o.st.ghost.get('acts', ())
        f.ensures(o, what + ': number of actions', len(got) == len(want))
        if len(got) == len(want):
            for i, (g, w) in enumerate(zip(got, want)):
                if isinstance(g, str) or isinstance(w, str):
                    f.ensures(o, what + ': event %d' % i, isinstance(g, str) and isinstance(w, str))
                else:
                    f.ensures(o, what + ': event %d' % i, eq(g, w, 32))

    def fixed(entry, want, what, nargs, kind='ret'):
        def b(f):
            setup(f)
            a = [f.bv(n, 32) for n in 'ab'[:nargs]]
            args = list(a)
            if entry == 'big':
                never = f.ex.alloc(f.st, 4, 'never')
                f.ex.store(f.st, never, 4, 0)
                args.append(never)
            for o in f.run(*args):
                f.ensures(o, 'does not throw', o.kind == kind)
                expect(f, o, what, ['scope' if w == 's' else a[w] for w in want])
            f.reachable('returns', f.rets())
        chk.fn('on_scope_exit: ' + what + who, m, pre + entry, b)
    fixed('plain', ['s', 0], 'the action runs once, at the end of the scope', 1)
    fixed('func', ['s', 0], 'an action given as std::function runs once', 1)
    fixed('big', ['s', 0], 'a large action runs once', 1)
    fixed('empty', ['s'], 'an empty action is not called', 0)
    fixed('release', ['s'], 'after Release nothing runs', 1)
    fixed('set', ['s', 1], 'SetAction replaces the action', 2)
    fixed('set_none', ['s'], 'SetAction() removes the action', 1)
    fixed('set_again', ['s', 1], 'SetAction after Release arms the guard again', 2)
    fixed('two', ['s', 1, 0], 'nested guards run inside out', 2)

    def release_if(f):
        setup(f)
        a = f.bv('a', 32)
        r = f.bv('r', 8)
        f.requires(ule(r, 1, 8))
        for o in f.run(a, eq(r, 1, 8)):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            n = len(o.st.ghost.get('acts', ()))
            f.ensures(o, 'the action runs unless released', eq(r, 1 if n == 1 else 0, 8))
            expect(f, o, 'events', ['scope'] + [a] * (n - 1))
            f.ensures(o, 'at most once', n <= 2)
    chk.fn('on_scope_exit: conditional Release' + who, m, pre + 'release_if', release_if)

    def throws(f):
        setup(f)
        a = f.bv('a', 32)
        t = f.bv('t', 8)
        f.requires(ule(t, 1, 8))
        for o in f.run(a, eq(t, 1, 8)):
            f.ensures(o, 'the exception propagates', eq(t, 0 if o.kind == 'ret' else 1, 8))
            expect(f, o, 'the action runs once when the scope is left by an exception', ['scope', a])
        f.reachable('returns', f.rets())
        f.reachable('throws', f.throws())
    chk.fn('on_scope_exit: exception in the scope' + who, m, pre + 'throws', throws)

    def ctor(f):
        setup(f)
        a = f.bv('a', 32)
        flag = f.ex.alloc(f.st, 4, 'flag')
        f.ex.store(f.st, flag, 4, 0)
        p = f.ex.alloc(f.st, S(f.ex.call(f.st, pre + 'guard_size', [])[0].val), 'guard')
        n = f.bv('fail', 32)        # this copy of the action fails (0: none)
        f.requires(ule(n, 3, 32))
        f.ex.store(f.st, flag, 4, n)
        for o in f.run(p, a, flag):
            got = o.st.ghost.get('acts', ())
            if o.kind == 'ret':
                f.ensures(o, 'construction runs nothing', not got)
            else:
                f.ensures(o, 'only a failing copy throws', Not(eq(n, 0, 32)))
                f.ensures(o, 'an action that cannot be stored runs once', len(got) == 1)
                for g in got:
                    f.ensures(o, 'which action runs', eq(g, a, 32))
        f.reachable('returns', f.rets())
        f.reachable('the action cannot be stored', f.throws())
    chk.fn('on_scope_exit: construction' + who, m, pre + 'ctor', ctor)

    def setvalue(f):
        setup(f)
        p = f.ex.alloc(f.st, 8, 'x')
        f.ex.store(f.st, p, 8, f.bv('old'))
        v = f.bv('v')
        for o in f.run(p, v):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            f.ensures(o, 'sets the value', eq(f.ex.load(o.st, p, 8), v))
    chk.fn('on_scope_exit::SetValue' + who, m, pre + 'setvalue', setvalue)

    def revert(entry, keep, kind):
        def b(f):
            setup(f)
            p = f.ex.alloc(f.st, 8, 'x')
            old, v = f.bv('old'), f.bv('v')
            f.ex.store(f.st, p, 8, old)
            for o in f.run(p, v):
                f.ensures(o, 'outcome', o.kind == kind)
                f.ensures(o, 'the variable has the value it had' if not keep else 'the new value stays', eq(f.ex.load(o.st, p, 8), v if keep else old))
            f.reachable('ends', f.outs)
        chk.fn('on_scope_exit::RevertValue, %s%s' % (entry, who), m, pre + entry, b)
    revert('revert', False, 'ret')
    revert('revert_throws', False, 'throw')
    revert('revert_release', True, 'ret')

    def revert_s(f):
        setup(f)
        p, n, a = f.string('x')
        q, k, b = f.string('v')
        for o in f.run(p, q):
            f.ensures(o, 'does not throw', o.kind == 'ret')
            f.seq_eq(o, 'the string it was', f.abs(o, p), n, lambda i: a.sel(i))
            f.seq_eq(o, 'source unchanged', f.abs(o, q), k, lambda i: b.sel(i))
        f.reachable('returns', f.rets())
    chk.fn('on_scope_exit::RevertValue<std::string>' + who, m, pre + 'revert_s', revert_s)
