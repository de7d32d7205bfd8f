"""Contract layer: a property's contracts are Python objects (requires / ensures over the real function's
pre- and post-state); every obligation generated from /repo's current source goes through here."""
import fcntl
import json
import os
import re
import subprocess
import sys
import tempfile
import time
import traceback
import shutil
import z3
from . import ir, build, lib_std
from .exec import Exec, State, Outcome, Budget, PathEnd, Forall, Ob
from .ir import Unsupported
from .mem import *
from .terms import *

VERIF = build.VERIF


class Res:
    """result of one obligation"""

    def __init__(self, contract, name, status, t=0.0, backend='z3', detail=None, where=''):
        self.contract, self.name, self.status = contract, name, status
        self.time, self.backend, self.detail, self.where = t, backend, detail, where

    def as_dict(self):
        return {'contract': self.contract, 'obligation': self.name, 'status': self.status, 'where': self.where,
                'backend': self.backend, 'detail': self.detail}


class Fn:
    """one function under contract"""

    def __init__(self, chk, name, module, entry, opts):
        self.chk, self.name, self.m, self.entry = chk, name, module, entry
        self.ex = Exec(module, opts)
        self.ex.repo_prefix = build.REPO.rstrip('/') + '/'
        self.ex.deadline = chk.deadline
        self.ex.attempt = chk.attempt
        lib_std.install(self.ex)
        self.st = State()
        self.st.ghost['inputs'] = {}
        self.inputs = {}
        self.outs = []

    # ---- symbolic inputs
    def bv(self, name, w=64):
        v = z3.BitVec('in.' + name, w)
        self.inputs[name] = ('bv', v)
        return v

    def bool(self, name):
        v = z3.Bool('in.' + name)
        return v

    def seq(self, name, w=8, maxlen=1 << 40, n=None):
        """symbolic sequence: (length, array)"""
        n = z3.BitVec('in.%s.len' % name, 64) if n is None else n
        arr = Base('in.' + name, w)
        self.inputs[name] = ('seq', n, arr, w)
        if not is_c(n):
            self.requires(ule(n, maxlen))
        return n, arr

    def string(self, name, kind='Str', elem='char', maxlen=1 << 40, n=None):
        w = {'char': 8, 'unsigned char': 8}.get(elem, 8)
        n, arr = self.seq(name, w, maxlen, n)
        p = self.ex.alloc(self.st, 32, name)
        self.ex.put_abs(self.st, p, lib_std.mk(kind, elem, n, arr))
        return p, n, arr

    def vec(self, name, maxlen=1 << 40, n=None):
        return self.string(name, 'Vec', 'unsigned char', maxlen, n)

    def bytes(self, name, size):
        """raw symbolic memory of concrete or symbolic size"""
        p = self.ex.alloc(self.st, size, name)
        arr = Base('in.' + name, 8)
        o = self.st.wobj(p.o)
        o.ranges = [(0, size, arr)]
        self.inputs[name] = ('seq', size, arr, 8)
        return p, arr

    def out(self, name, size=64):
        return self.ex.alloc(self.st, size, name)

    def out_string(self, name, kind='Str', elem='char'):
        p = self.ex.alloc(self.st, 32, name)
        self.ex.put_abs(self.st, p, lib_std.mk(kind, elem, 0, Const(0)))
        return p

    def out_vec(self, name):
        return self.out_string(name, 'Vec', 'unsigned char')

    def requires(self, c):
        self.ex.assume(self.st, c)

    def run(self, *args, entry=None):
        ent = entry or self.entry
        self.st.ghost['inputs'] = {k: self._reader(v) for k, v in self.inputs.items()}
        self.ex.prefer = [ule(v[1], 24) for v in self.inputs.values() if v[0] == 'seq' and not is_c(v[1])]
        if not self.ex.feasible(self.st):
            self.chk.record(Res(self.name, 'precondition is satisfiable', 'failed'))
        self.outs = self.ex.call(self.st, ent, list(args))
        return self.outs

    def _reader(self, v):
        def f(model):
            if v[0] == 'bv':
                return str(model.eval(v[1], model_completion=True))
            _, n, arr, w = v
            k = n if is_c(n) else model.eval(n, model_completion=True).as_long()
            if k > 1 << 16:
                return 'len=%d' % k
            return 'hex:' + ''.join('%0*x' % (w // 4, z3.simplify(z3.substitute(Z(arr.sel(i), w))).as_long() if False
                                     else ev(model, arr.sel(i), w)) for i in range(k))
        return f

    def rets(self):
        return [o for o in self.outs if o.kind == 'ret']

    def throws(self):
        return [o for o in self.outs if o.kind == 'throw']

    def ensures(self, o, name, goal, extra=()):
        st = o.st if isinstance(o, Outcome) else o
        return self.ex.oblige(st, name, goal, extra_terms=extra)

    def idx(self, name='g', mx=1 << 41):
        """a fresh index constant with a declared bound (assumed where it is used)"""
        return bounded_bv(name, mx)

    def forall_mod(self, o, name, n, c, fn, extra=()):
        """for all k < n: fn(k), by cases k = c*g + p"""
        for p in range(c):
            st = (o.st if isinstance(o, Outcome) else o).fork()
            g = bounded_bv('g', 1 << 41)
            self.ex.assume(st, ule(g, 1 << 41))
            k = add(mul(g, c), p)
            self.ex.assume(st, ult(k, n))
            self.ex.oblige(st, name + ' (k = %dg+%d)' % (c, p), fn(k), extra_terms=[g] + list(extra))

    def forall(self, o, name, n, fn, extra=(), w=64):
        """for all k < n: fn(k)"""
        st = (o.st if isinstance(o, Outcome) else o).fork()
        k = fresh_bv('k', 64)
        self.ex.assume(st, ult(k, n))
        return self.ex.oblige(st, name, fn(k), extra_terms=[k] + list(extra))

    def exists_lt(self, o, name, n, fn, base, extra=(), strict_terms=None):
        """exists k < n: fn(k); witnesses are the index terms occurring in the path condition"""
        st = o.st if isinstance(o, Outcome) else o
        cands = self.index_terms(st, base) + list(extra)
        goal = Or([And(ult(t, n), fn(t)) for t in cands])
        return self.ex.oblige(st, name, goal)

    def index_terms(self, st, arr):
        acc, seen = {}, set()
        base = arr.f.name()
        for f in st.pc:
            if not isinstance(f, bool):
                apps_of(f, lambda x: x.num_args() == 1 and x.decl().name() == base, seen, acc)
        out = {}
        for x in acc.values():
            a = z3.simplify(x.arg(0))
            out[a.get_id()] = a
        return list(out.values())

    def reachable(self, what, outs):
        """vacuity guard"""
        ok = False
        for o in outs:
            if self.ex.feasible(o.st):
                ok = True
                break
        self.chk.record(Res(self.name, 'reachable: ' + what, 'proved' if ok else 'failed', backend='z3 (sat)'))

    def seq_eq(self, o, name, sv, n, spec, extra=()):
        """the string/vector value sv equals the sequence (n, spec)"""
        a = self.ensures(o, name + ': length', eq(sv.n, n, 64), extra)
        b = self.forall(o, name + ': contents', n, lambda k: eq(sv.arr.sel(k), spec(k), sv.w), extra)
        return a and b

    def abs(self, o, p):
        return self.ex.get_abs(o.st, p)

    def err(self, o):
        """(category, code) of the MakeError-style exception of a throw outcome, or None"""
        e = o.st.exc
        try:
            v = self.ex.get_abs(o.st, e.p)
        except Exception:
            return None
        if isinstance(v, lib_std.ErrVal):
            return v
        return None

    def throws_error(self, o, name, cat, code):
        e = self.err(o)
        if e is None:
            self.chk.record(Res(self.name, name, 'failed', detail='throws %s, not a maidsafe_error' % (o.st.exc,)))
            return False
        ok = e.cat == cat
        if not ok:
            self.chk.record(Res(self.name, name, 'failed', detail='error category %s, expected %s' % (e.cat, cat)))
            return False
        return self.ensures(o, name, eq(e.code, code, 32))


def ev(model, t, w):
    if is_c(t):
        return t
    return model.eval(Z(t, w), model_completion=True).as_long()


class Check:
    def __init__(self, pid, tier='quick', seed=1, budget=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.results = []
        self.jobs = []
        self.fns = []
        self.functions = set()
        self.trusted = set()
        self.assumptions = []
        self.loops = []
        self.solver_time = 0.0
        self.queries = 0
        self.t0 = time.time()
        self.attempt = 0
        self.budget = budget or (330 if tier == 'quick' else 600)
        self.deadline = self.t0 + self.budget
        self.mods = {}
        self.build_time = 0.0
        self.models = []
        self.consts = set()
        self.notes = []

    def record(self, r):
        self.results.append(r)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def ir(self, sources, **kw):
        srcs = []
        for s in sources:
            if s.startswith('src/'):
                srcs.append(os.path.join(build.REPO, s))
            elif s.startswith('/'):
                srcs.append(s)
            else:
                srcs.append(os.path.join(VERIF, 'harness', s))
        key = (tuple(srcs), tuple(sorted(kw.items())))
        if key not in self.mods:
            t = time.time()
            self.mods[key] = ir.Module(build.build_ir(srcs, **kw))
            self.build_time += time.time() - t
        return self.mods[key]

    def fn(self, name, module, entry, body, **opts):
        """queue one contract; contracts are independent and are checked in parallel"""
        self.jobs.append((name, lambda c: c.fn_now(name, module, entry, body, **opts)))

    def job(self, name, f):
        self.jobs.append((name, f))

    def lemma(self, name, goal, timeout=60000, pc=()):
        self.jobs.append(('lemma', lambda c: c.lemma_now(name, goal, timeout, pc)))

    def run_jobs(self, workers=None):
        import pickle
        import select
        import signal
        workers = workers or int(os.environ.get('VP_JOBS', '8'))
        jobs, self.jobs = self.jobs, []
        if os.environ.get('VP_ONLY'):
            jobs = [j for j in jobs if re.search(os.environ['VP_ONLY'], j[0])]
        slots = [None] * len(jobs)
        live = {}
        hard = False
        todo = list(range(len(jobs)))
        tries = {}

        def child(i, w):
            c = Check(self.pid, self.tier, self.seed)
            c.t0, c.deadline, c.mods = self.t0, self.deadline, self.mods
            c.attempt = tries.get(i, 0)
            try:
                jobs[i][1](c)
            except Exception:
                c.record(Res(jobs[i][0], 'contract evaluates', 'undecided', detail=traceback.format_exc()[-2000:]))
            d = (c.results, c.functions, c.trusted, c.loops, c.solver_time, c.queries, c.models, c.assumptions, c.notes, c.consts)
            try:
                d = pickle.dumps(d)
            except Exception:
                for r in c.results:
                    r.detail = str(r.detail)
                d = pickle.dumps((c.results, c.functions, c.trusted, [str(x) for x in c.loops], c.solver_time, c.queries, [], c.assumptions, c.notes, c.consts))
            with os.fdopen(w, 'wb') as f:
                f.write(d)

        while todo or live:
            while todo and len(live) < workers:
                i = todo.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        child(i, w)
                        sys.stdout.flush()
                    finally:
                        os._exit(0)
                os.close(w)
                live[r] = (pid, i, [])
            rd, _, _ = select.select(list(live), [], [], 1.0)
            for r in rd:
                b = os.read(r, 1 << 20)
                pid, i, buf = live[r]
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                del live[r]
                os.waitpid(pid, 0)
                slots[i] = b''.join(buf)
                sts = set(x.status for x in pickle.loads(slots[i])[0]) if slots[i] else set()
                if 'undecided' in sts and 'failed' not in sts and not hard and tries.get(i, 0) < 2 and retryable(pickle.loads(slots[i])[0]):
                    tries[i] = tries.get(i, 0) + 1
                    todo.append(i)
                elif ('undecided' in sts or 'failed' in sts) and not hard:
                    # an obligation is already lost: give the rest a little longer, then look for a failing input
                    hard = True
                    self.deadline = min(self.deadline, time.time() + 45)
            if time.time() > self.deadline + 20:
                for r, (pid, i, buf) in live.items():
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                    slots[i] = b''
                for i in todo:
                    slots[i] = b''
                live, todo = {}, []
        for i, b in enumerate(slots):
            if not b:
                self.record(Res(jobs[i][0], 'contract of ' + jobs[i][0], 'undecided', detail='time or memory budget exhausted'))
                continue
            res, fns, tr, loops, stime, q, models, assum, notes, consts = pickle.loads(b)
            self.results += res
            self.functions |= fns
            self.trusted |= tr
            self.loops += loops
            self.solver_time += stime
            self.queries += q
            self.models += models
            self.consts |= consts
            self.notes += notes
            for x in assum:
                self.assume(x)

    def fn_now(self, name, module, entry, body, **opts):
        """run one contract; anything the verifier cannot do is an undischarged obligation"""
        n0 = len(self.results)
        f = None
        t = time.time()
        try:
            f = Fn(self, name, module, entry, opts)
            body(f)
            bad = None
        except Budget as e:
            bad = ('undecided', 'budget: %s' % e)
        except Unsupported as e:
            bad = ('undecided', 'outside the verifier: %s' % e)
        except PathEnd as e:
            bad = ('undecided', 'no path: %s' % e)
        except RecursionError as e:
            bad = ('undecided', 'recursion limit')
        except Exception as e:
            bad = ('undecided', 'verifier error: %s\n%s' % (e, traceback.format_exc()[-1500:]))
        if f is not None:
            for o in f.ex.obs:
                st = 'proved' if o.status == 'proved' else ('failed' if o.status == 'failed' else 'undecided')
                self.results.append(Res(name, o.name, st, o.time, o.backend, o.detail if st != 'proved' else None, o.where))
                if st == 'failed' and isinstance(o.detail, dict):
                    self.models.append(o.detail)
            for g in f.ex.functions:
                d = module.demangled.get(g, g)
                self.functions.add(d)
                if bad or any(o.status != 'proved' for o in f.ex.obs):
                    self.consts |= harvest(module, g)
            self.trusted |= f.ex.trusted
            self.loops += ['%s: %s' % (name, l) for l in f.ex.loop_report]
            self.solver_time += f.ex.solver_time
            self.queries += f.ex.queries
        if bad:
            self.results.append(Res(name, 'contract of ' + name, bad[0], detail=bad[1]))
        elif len(self.results) == n0:
            self.results.append(Res(name, 'contract of ' + name, 'failed', detail='no obligation was generated (vacuous)'))
        if os.environ.get('VP_VERBOSE'):
            for r in self.results[n0:]:
                if r.status != 'proved' or os.environ['VP_VERBOSE'] == '2':
                    print('  %-9s %s | %s | %s | %s' % (r.status, r.contract, r.name, r.where[-80:], r.detail if r.status != 'proved' else ''))
            print('  -- %s: %d obligations, %.1fs, paths %s' % (name, len(self.results) - n0, time.time() - t, f.ex.paths if f else '-'))
        return f

    def lemma_now(self, name, goal, timeout=60000, pc=()):
        """a lemma over the contracts' specification functions, no code involved"""
        s = z3.SolverFor('QF_UFBV')
        s.set('timeout', timeout)
        t = time.time()
        pur = Purify()
        for c in list(pc) + [z3.Not(B(goal))]:
            c = B(c)
            if not isinstance(c, bool):
                c, axs = pur.walk(c)
                for x in axs:
                    s.add(x)
            s.add(c)
        r = s.check()
        dt = time.time() - t
        self.solver_time += dt
        self.queries += 1
        self.record(Res('lemma', name, 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'undecided', dt,
                        detail=str(s.model())[:1000] if r == z3.sat else None))

    def int_lemma(self, name, goal, timeout=60000):
        """a lemma over mathematical integers"""
        s = z3.Solver()
        s.set('timeout', timeout)
        t = time.time()
        s.add(z3.Not(goal))
        r = s.check()
        dt = time.time() - t
        self.solver_time += dt
        self.queries += 1
        self.record(Res('lemma', name, 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'undecided', dt,
                        detail=str(s.model())[:1000] if r == z3.sat else None))

    def finite(self, contract, name, ok, detail=None):
        """an obligation over a finite domain discharged by complete evaluation"""
        self.record(Res(contract, name, 'proved' if ok else 'failed', backend='evaluation', detail=None if ok else detail))

    # ------------------------------------------------------------ outcome
    def bad(self):
        return [r for r in self.results if r.status != 'proved']


def retryable(res):
    """undecided only because the solver gave no answer"""
    return all(r.status != 'undecided' or not str(r.detail or '').startswith(('outside', 'no path', 'recursion', 'verifier error')) for r in res)


def harvest(module, g):
    """integer constants of a function, handed to the replay driver as sizes and values worth trying"""
    acc = set()

    def walk(v, d=0):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'int' and isinstance(v[1], int):
            if v[1] > 8:
                acc.add(v[1])
        elif isinstance(v, (tuple, list)) and d < 8:
            for x in v:
                walk(x, d + 1)
        elif isinstance(v, dict):
            for x in v.values():
                walk(x, d + 1)
    try:
        f = module.func(g)
        for b in f.blocks.values():
            for ins in (b.ins if hasattr(b, 'ins') else b):
                walk(ins.a)
    except Exception:
        pass
    return acc


def load_known():
    """KNOWN_FINDINGS: lines 'property=<id> key=<regex over the failing input text> <what>'"""
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            mm = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if mm:
                out.append(mm.groups())
    return out


def run_property(pid, title, body, replay=None, tier='quick', seed=1, level_note='', spec_files=(), evidence_extra=None):
    """drive one property; returns exit code"""
    chk = Check(pid, tier, seed)
    reset_fresh()
    try:
        body(chk)
        chk.run_jobs()
    except build.BuildError as e:
        chk.record(Res('build', 'the sources under contract compile to IR', 'undecided', detail=str(e)))
    except Unsupported as e:
        chk.record(Res('extraction', 'the IR is within the verifier', 'undecided', detail=str(e)))
    except Exception as e:
        chk.record(Res('driver', 'contracts evaluate', 'undecided', detail=traceback.format_exc()[-2500:]))
    if not chk.results:
        chk.record(Res('driver', 'obligations were generated', 'failed', detail='none'))
    bad = chk.bad()
    violations = []
    rc = 0
    if bad:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, pid + '.json')
        found = None
        rlog = 'no replay driver'
        if replay:
            try:
                found, rlog = do_replay(chk, replay)
            except Exception as e:
                rlog = 'replay driver could not run: %s' % e
        with open(path, 'w') as f:
            json.dump({'property': pid, 'failed_obligations': [r.as_dict() for r in bad], 'failing_input': found,
                       'replay_driver': replay, 'replay_log': rlog}, f, indent=1, default=str)
        for r in bad[:10]:
            print('%s obligation: %s: %s  [%s]' % ('FAILED' if r.status == 'failed' else 'UNDISCHARGED', r.contract, r.name, r.where))
            if r.detail:
                print('    ' + str(r.detail)[:600])
        if found:
            print('failing input on the real code: ' + found)
            print('VIOLATION property=%s replay=%s' % (pid, path))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        violations = [{'obligation': r.contract + ': ' + r.name, 'status': r.status} for r in bad]
        rc = 1
    write_evidence(chk, title, violations, evidence_extra)
    n = len(chk.results)
    print('%s: %d obligations, %d discharged, %d functions under contract, solver %.1fs, build %.1fs, wall %.1fs' % (
        pid, n, n - len(bad), len(chk.functions), chk.solver_time, chk.build_time, time.time() - chk.t0))
    return rc


def do_replay(chk, replay):
    what, log = do_replay1(chk, replay)
    if what is None and replay.get('also'):
        what, log = do_replay1(chk, dict(replay, **replay['also']))
    return what, log


def do_replay1(chk, replay):
    """build the real code natively (ASan/UBSan) with the property's independent oracle and look for a failing input,
    starting from the verifier's counterexamples"""
    d = tempfile.mkdtemp(prefix='vp_replay_')
    try:
        exe = d + '/drv'
        srcs = [os.path.join(VERIF, 'replay', replay['driver'])] + [os.path.join(build.REPO, s) for s in replay.get('sources', [])]
        build.build_native(srcs, exe, extra=['-I' + os.path.join(VERIF, 'replay')] + replay.get('flags', []),
                           libs=replay.get('libs', []), san=replay.get('san', True))
        with open(d + '/cands', 'w') as f:
            for k in sorted(chk.consts)[:2000]:
                f.write('const #%d\n' % (k & mask(64)))
            for m in chk.models:
                for k, v in m.items():
                    if k.startswith('input:') and isinstance(v, str):
                        if v.startswith('hex:') and len(v) < 20000:
                            f.write('%s %s\n' % (k[6:], v[4:]))
                        elif re.match(r'^\d+$', v):
                            f.write('%s #%s\n' % (k[6:], v))
        secs = replay.get('seconds', 20)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=43', UBSAN_OPTIONS='print_stacktrace=0', TSAN_OPTIONS='halt_on_error=1:exitcode=44')
        os.makedirs(d + '/w')
        try:
            p = subprocess.run([exe, str(chk.seed), str(secs), d + '/cands'], capture_output=True, timeout=secs + 60,
                               env=env, cwd=d + '/w', stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired as e:
            return None, 'replay timed out'
        out = p.stdout.decode('latin-1')
        err = p.stderr.decode('latin-1')
        log = (out[-1500:] + '\n' + err[-2500:]).replace(d, '<scratch>')
        if p.returncode == 0:
            return None, log
        if 'FATAL: ThreadSanitizer' in err and replay.get('san') == 'thread':
            return do_replay1(chk, dict(replay, san=False))      # cannot run here
        mm = re.search(r'^FAIL: (.*)$', out, re.M) or re.search(r'^FAIL: (.*)$', err, re.M)
        what = mm.group(1) if mm else 'exit status %d' % p.returncode
        m2 = re.search(r'runtime error: .*|ERROR: AddressSanitizer: .*|WARNING: ThreadSanitizer: .*', err)
        if m2:
            what += ' [' + m2.group(0)[:200] + ']'
        if not mm and not m2:
            return None, log
        return what, log
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write_evidence(chk, title, violations, extra):
    n = len(chk.results)
    ok = n - len(chk.bad())
    by = {}
    for r in chk.results:
        by[r.backend] = by.get(r.backend, 0) + 1
    repo_fns = sorted(set(f for f in chk.functions))
    ev = {
        'property': chk.pid, 'tier': chk.tier, 'seed': chk.seed, 'level': 'proof',
        'wall_s': round(time.time() - chk.t0, 2),
        'coverage': {
            'obligations': n, 'discharged': ok,
            'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (chk.pid, chk.tier),
            'trusted_base': sorted(chk.trusted) + [
                'clang 18 front end (C++ to LLVM IR) and the IR passes sroa, instsimplify, simplifycfg',
                'the verification-condition generator /verif/vp', 'z3 %s' % z3.get_version_string()],
            'functions_under_contract': repo_fns,
            'backends': by, 'solver_time_s': round(chk.solver_time, 2), 'solver_queries': chk.queries,
            'ir_build_s': round(chk.build_time, 2), 'loop_invariants': chk.loops,
            'obligation_names': sorted(set('%s: %s' % (r.contract, r.name) for r in chk.results))[:400],
        },
        'assumptions': chk.assumptions,
        'violations': violations,
    }
    if extra:
        ev['coverage'].update(extra)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', chk.pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(p + '.tmp', p)


def enum_values(cat, header='include/maidsafe/common/error.h'):
    """enumerators of an enum class, read from the current header"""
    t = open(os.path.join(build.REPO, header)).read()
    t = re.sub(r'//[^\n]*', '', t)
    t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
    mm = re.search(r'enum\s+class\s+%s\b[^{;]*\{(.*?)\}' % cat, t, re.S)
    if not mm:
        raise Unsupported('enum %s not found' % cat)
    v = -1
    out = {}
    for part in mm.group(1).split(','):
        part = part.strip()
        if not part:
            continue
        if '=' in part:
            nm, x = [y.strip() for y in part.split('=')]
            v = int(x, 0)
        else:
            nm, v = part, v + 1
        out[nm] = v
    return out


def enum_code(cat, name):
    e = enum_values(cat)
    if name not in e:
        raise Unsupported('enumerator %s::%s not found' % (cat, name))
    return e[name]
