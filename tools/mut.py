#!/usr/bin/env python3
"""mut.py PID[,PID..] FILE OLD NEW [OLD NEW ...]  -- try an edit in a scratch copy of /repo and run checks on it.
Development aid only; registered checks always read /repo itself."""
import sys, os, shutil, subprocess, tempfile
pids, f = sys.argv[1].split(','), sys.argv[2]
d = tempfile.mkdtemp(prefix='mut.')
try:
    shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('.git'))
    p = d + '/r/' + f
    t = open(p).read()
    for o, n in zip(sys.argv[3::2], sys.argv[4::2]):
        o = o.encode().decode('unicode_escape'); n = n.encode().decode('unicode_escape')
        if o not in t:
            print('OLD NOT FOUND: ' + o); sys.exit(3)
        t = t.replace(o, n, 1)
    open(p, 'w').write(t)
    for pid in pids:
        r = subprocess.run([sys.executable, '/verif/checks/run.py', pid], env=dict(os.environ, HDB_REPO=d + '/r', HDB_EVID=d + '/ev'), capture_output=True, text=True)
        if os.environ.get("REP"): print(open(d + "/ev/%s.report.txt" % pid).read())
        print(pid, 'exit', r.returncode, '|', ' / '.join(r.stdout.strip().split('\n')[:4])[:600], r.stderr[-1500:])
finally:
    shutil.rmtree(d)
