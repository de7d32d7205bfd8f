"""Compile /repo's sources (plus harness units) to LLVM IR, on every run."""
import hashlib
import os
import shutil
import subprocess
import tempfile

CLANGXX = '/usr/bin/clang++-18'
LLVM = '/usr/lib/llvm-18/bin/'
REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEFS = '''APPLICATION_VERSION_MAJOR=0 APPLICATION_VERSION_MINOR=0 APPLICATION_VERSION_PATCH=0
TARGET_PLATFORM=Linux TARGET_ARCHITECTURE=x86_64 TESTING USE_LOGGING=0 ASIO_HAS_MOVE BOOST_ASIO_HAS_MOVE
ASIO_HAS_STD_ARRAY BOOST_ASIO_HAS_STD_ARRAY ASIO_HAS_STD_ATOMIC BOOST_ASIO_HAS_STD_ATOMIC
ASIO_HAS_STD_SHARED_PTR BOOST_ASIO_HAS_STD_SHARED_PTR ASIO_HAS_STD_CHRONO BOOST_ASIO_HAS_STD_CHRONO
ASIO_HAS_STD_SYSTEM_ERROR BOOST_ASIO_HAS_STD_SYSTEM_ERROR ASIO_HAS_VARIADIC_TEMPLATES
BOOST_ASIO_HAS_VARIADIC_TEMPLATES BOOST_FILESYSTEM_NO_DEPRECATED BOOST_FILESYSTEM_VERSION=3
BOOST_THREAD_VERSION=4 BOOST_RESULT_OF_USE_DECLTYPE _FILE_OFFSET_BITS=64 HAVE_PTHREAD MAIDSAFE_LINUX
COMPANY_NAME=MaidSafe APPLICATION_NAME=Test'''.split()


def flags(std='c++17', ndebug=True):
    f = ['-std=' + std, '-w', '-include', VERIF + '/shims/vp_prelude.h', '-I' + VERIF + '/shims',
         '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + VERIF + '/harness'] + ['-D' + d for d in DEFS]
    if ndebug:
        f.append('-DNDEBUG')
    return f


class BuildError(Exception):
    pass


def run(cmd, what):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError('%s failed:\n%s' % (what, p.stderr[-3000:]))
    return p


def build_ir(sources, std='c++17', ndebug=True, passes='function(sroa,instsimplify,simplifycfg)', extra=()):
    """sources: absolute paths; returns IR text of the linked module"""
    d = tempfile.mkdtemp(prefix='vp_ir_')
    try:
        procs = []
        outs = []
        for i, s in enumerate(sources):
            o = '%s/%d.bc' % (d, i)
            outs.append(o)
            cmd = [CLANGXX] + flags(std, ndebug) + list(extra) + (['-fno-access-control'] if s.startswith(VERIF) else []) + \
                ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-gline-tables-only',
                 '-emit-llvm', '-c', s, '-o', o]
            procs.append((s, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        for s, p in procs:
            _, err = p.communicate()
            if p.returncode:
                raise BuildError('compiling %s to IR failed:\n%s' % (s, err[-3000:]))
        linked = outs[0]
        if len(outs) > 1:
            linked = d + '/l.bc'
            run([LLVM + 'llvm-link'] + outs + ['-o', linked], 'llvm-link')
        run([LLVM + 'opt', '-S', '-passes=' + passes, linked, '-o', d + '/o.ll'], 'opt')
        with open(d + '/o.ll') as f:
            return f.read()
    finally:
        shutil.rmtree(d)


def build_native(sources, out, std='c++17', ndebug=True, san=True, extra=(), libs=()):
    cmd = [CLANGXX] + flags(std, ndebug) + list(extra) + ['-O1', '-g'] + (\
        ['-fsanitize=thread'] if san == 'thread' else (['-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=undefined'] if san else []))
    d = tempfile.mkdtemp(prefix='vp_nat_')
    try:
        procs = []
        objs = []
        for i, s in enumerate(sources):
            o = '%s/%d.o' % (d, i)
            objs.append(o)
            procs.append((s, subprocess.Popen(cmd + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        for s, p in procs:
            _, err = p.communicate()
            if p.returncode:
                raise BuildError('compiling %s failed:\n%s' % (s, err[-3000:]))
        run(cmd + objs + ['-o', out] + list(libs), 'link')
    finally:
        shutil.rmtree(d)
