#!/usr/bin/env python3
"""plant.py ID PROPERTY SPEC.py: make /verif/seeded/ID from SPEC.py, which defines
   EDITS = [(file, old, new)], DEMO = C++ text, SOURCES, LIBS, NEEDS, BREAKS.
Confirms in a scratch copy that the change applies, builds, passes the stable tests, and that the demo tells it apart."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, prop, spec = sys.argv[1:4]
ns = {}
exec(open(spec).read(), ns)
d = '%s/seeded/%s' % (V, pid)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
SRC = ns.get('SOURCES', [])
ALL = ['-lcryptopp', '-lboost_filesystem', '-lboost_program_options', '-lboost_locale', '-lboost_system', '-lboost_thread', '-lpthread']
libs = ns.get('LIBS', ALL)
open(d + '/demo.cc', 'w').write(ns['DEMO'])
shutil.copytree(V + '/shims', d + '/shims')
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# builds a small program from the sources in the current directory (/repo) and runs it
H="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
DEFS="-DNDEBUG -DTESTING -DUSE_LOGGING=0 -DTARGET_PLATFORM=Linux -DTARGET_ARCHITECTURE=x86_64 -DAPPLICATION_VERSION_MAJOR=0 -DAPPLICATION_VERSION_MINOR=0 -DAPPLICATION_VERSION_PATCH=0 -DCOMPANY_NAME=MaidSafe -DAPPLICATION_NAME=Test -DMAIDSAFE_LINUX -DBOOST_FILESYSTEM_NO_DEPRECATED -DBOOST_THREAD_VERSION=4 -DASIO_HAS_MOVE -DASIO_HAS_STD_ARRAY -DASIO_HAS_STD_ATOMIC -DASIO_HAS_STD_SHARED_PTR -DASIO_HAS_STD_CHRONO -DASIO_HAS_STD_SYSTEM_ERROR -DASIO_HAS_VARIADIC_TEMPLATES"
for s in "$H/demo.cc" %s; do
  g++ -std=c++17 -O1 -w -include "$H/shims/vp_prelude.h" -I"$H/shims" -Iinclude -Isrc $DEFS %s -c "$s" -o "$T/$(basename "$s").o" & P="$P $!"
done
for p in $P; do wait $p || exit 3; done
g++ %s "$T"/*.o -o "$T/demo" %s || exit 3
cd "$T" && timeout 120 ./demo
''' % (' '.join('src/maidsafe/common/' + s for s in SRC), ns.get('FLAGS', ''), ns.get('FLAGS', ''), ' '.join(libs)))
json.dump({'property': prop, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
W = '/tmp/plant_%s' % pid
shutil.rmtree(W, ignore_errors=True)
subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
def demo():
    return subprocess.run(['bash', d + '/demo.sh'], cwd=W, capture_output=True, text=True)
def fail(m):
    print('PLANT FAILED', pid, m)
    shutil.rmtree(W); shutil.rmtree(d); sys.exit(1)
r = demo()
if r.returncode != 0:
    fail('demo on unchanged tree: %d %s' % (r.returncode, (r.stdout + r.stderr)[-2000:]))
for f, old, new in ns['EDITS']:
    p = '%s/%s' % (W, f)
    s = open(p).read()
    if s.count(old) != 1:
        fail('%s: %d occurrences of %r' % (f, s.count(old), old))
    open(p, 'w').write(s.replace(old, new))
diff = subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout
open(d + '/patch.diff', 'w').write(diff)
r = demo()
if r.returncode in (0, 3):
    fail('demo with the change: %d %s' % (r.returncode, (r.stdout + r.stderr)[-2000:]))
print('demo with the change:', r.returncode, (r.stdout + r.stderr).strip()[-200:])
shutil.rmtree(W)
if '--fast' not in sys.argv:
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    try:
        b = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True, text=True)
        ok = b.returncode == 0
        if ok:
            subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/plant.json'], capture_output=True)
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            ok = set(base) <= set(json.load(open('/tmp/plant.json'))['passed'])
        c = subprocess.run(['python3-vt', 'check.py', prop], cwd=V, capture_output=True, text=True)
        out = [l for l in c.stdout.splitlines() if l.startswith(('VIOLATION', 'P'))]
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
        subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True)
    if not ok:
        fail('does not build or fails the stable tests ' + b.stdout[-1500:])
    print(pid, prop, 'CAUGHT' if c.returncode == 1 else 'MISSED rc=%d' % c.returncode, '|', ' | '.join(out)[-300:])
