#!/usr/bin/env python3
"""seed.py ID PROP FILE --needs T --breaks T --demo demo.c [--kind c|cpp] OLD NEW [OLD NEW..]: make and validate a planted bug
seed.py --validate ID...   re-validate; seed.py --catch [ID...]  run the property's check on each (scratch copy)"""
import sys, os, subprocess, json, shutil, tempfile, argparse
S = '/verif/seeded'
DEMO = '''#!/bin/bash
# compiles the demonstration against the sources in the current directory (cwd: the repository)
set -e
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf -- "$T"' EXIT
INC="-I_build -Iinclude -Imodules/collections/include -Imodules/utils/include"
SRC="src/cluster.c src/constraint.c src/distance.c src/hdbscan.c src/outlier_score.c src/undirected_graph.c modules/collections/src/*.c modules/utils/src/*.c"
for f in $SRC; do gcc -w -g -O1 @SAN@ $INC -c "$f" -o "$T/$(echo $f | tr '/' '_').o" & done; wait
gcc -w -g -O1 @SAN@ $INC -c "$H/demo.c" -o "$T/demo.o"
gcc @SAN@ "$T"/*.o -lm -o "$T/demo"
cd "$T"
export ASAN_OPTIONS=detect_leaks=@LEAK@:allocator_may_return_null=1 UBSAN_OPTIONS=halt_on_error=1 TSAN_OPTIONS=halt_on_error=1
timeout 120 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def validate(sid):
    d = os.path.join(S, sid)
    assert sh('git -C /repo status --porcelain').stdout == ''
    r = sh('bash /opt/vp/build.sh'); assert r.returncode == 0
    a = sh('bash %s/demo.sh' % d, cwd='/repo')
    try:
        x = sh('git -C /repo apply %s/patch.diff' % d); assert x.returncode == 0, x.stderr
        t = sh('bash /opt/vp/test.sh /tmp/seed.json')
        o = json.load(open('/tmp/seed.json')); b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        miss = b - set(o['passed'])
        p = sh('bash %s/demo.sh' % d, cwd='/repo')
    finally:
        sh('git -C /repo checkout -- .')
    ok = a.returncode == 0 and p.returncode != 0 and not miss
    print(sid, 'OK' if ok else 'BAD', 'clean', a.returncode, 'patched', p.returncode, 'tests missing', sorted(miss))
    if not ok:
        print(a.stdout[-800:], a.stderr[-1500:]); print('--patched'); print(p.stdout[-800:], p.stderr[-1500:])
    return ok


def catch(sid, pids=None):
    d = os.path.join(S, sid); m = json.load(open(d + '/meta.json'))
    t = tempfile.mkdtemp(prefix='seedc.')
    out = []
    try:
        shutil.copytree('/repo', t + '/r', ignore=shutil.ignore_patterns('_build'))
        x = sh('git apply %s/patch.diff' % d, cwd=t + '/r'); assert x.returncode == 0, x.stderr
        for p in pids or [m['property']]:
            r = subprocess.run([sys.executable, '/verif/checks/run.py', p], env=dict(os.environ, HDB_REPO=t + '/r', HDB_EVID=t + '/ev'), capture_output=True, text=True)
            out.append('%s:%d' % (p, r.returncode) + (' ' + r.stdout.split('\n')[0][:150] if r.returncode == 1 else ''))
    finally:
        shutil.rmtree(t)
    print(sid, m['property'], out)
    return out


if sys.argv[1] == '--validate':
    for i in sys.argv[2:] or sorted(os.listdir(S)):
        validate(i)
elif sys.argv[1] == '--catch':
    for i in sys.argv[2:] or sorted(os.listdir(S)):
        catch(i)
else:
    a = argparse.ArgumentParser()
    a.add_argument('id'); a.add_argument('prop'); a.add_argument('file'); a.add_argument('--needs'); a.add_argument('--breaks'); a.add_argument('--demo'); a.add_argument('--sh')
    a.add_argument('--san', default=''); a.add_argument('--leak', default='0'); a.add_argument('edits', nargs='+')
    o = a.parse_args()
    d = os.path.join(S, o.id); os.makedirs(d, exist_ok=True)
    assert sh('git -C /repo status --porcelain').stdout == ''
    try:
        f = o.file
        e = list(o.edits); pos = 0
        while e:
            if e[0].startswith('@'):
                f = e.pop(0)[1:]; continue
            old, new = e.pop(0).encode().decode('unicode_escape'), e.pop(0).encode().decode('unicode_escape')
            p = '/repo/' + f; s = open(p).read()
            assert s.count(old) >= 1, old
            if s.count(old) > 1: print('WARN multiple', s.count(old))
            open(p, 'w').write(s.replace(old, new, 1))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    finally:
        sh('git -C /repo checkout -- .')
    if o.demo:
        shutil.copy(o.demo, d + '/demo' + os.path.splitext(o.demo)[1])
    open(d + '/demo.sh', 'w').write(open(o.sh).read() if o.sh else DEMO.replace('@SAN@', o.san).replace('@LEAK@', o.leak))
    json.dump({'property': o.prop, 'needs': o.needs, 'what_it_breaks': o.breaks}, open(d + '/meta.json', 'w'), indent=1)
    if validate(o.id):
        catch(o.id)
