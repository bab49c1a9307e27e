"""Front end: compile /repo's *current* sources to LLVM IR (never to an executable) and load the
typed program.  Every run regenerates config.h from config.h.in and recompiles every unit."""
import os, sys, json, re, subprocess, tempfile, shutil, glob, atexit, fcntl, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HDB_REPO', '/repo')
CLANG = '/usr/lib/llvm-18/bin/clang'
LLVM_LINK = '/usr/lib/llvm-18/bin/llvm-link'
LLVM_CONFIG = '/usr/bin/llvm-config-18'
JAVA_HOME = '/usr/lib/jvm/java-17-openjdk-amd64'
PASSES = 'function(sroa,simplifycfg<no-speculate-blocks;keep-loops>,tailcallelim,loop-simplify)'


class AnalysisBroken(Exception):
    """the machinery cannot give an answer (exit 2): unparsable source, vanished anchor, zero instances"""


_work = None


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='hdbsa.')
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work


def irdump_bin():
    src = os.path.join(VERIF, 'engine', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    bdir = os.path.join(VERIF, 'build')
    exe = os.path.join(bdir, 'irdump-' + h)
    if os.path.exists(exe):
        return exe
    try:
        os.makedirs(bdir, exist_ok=True)
        lock = open(os.path.join(bdir, '.lock'), 'w')
    except OSError:
        bdir = workdir()
        exe = os.path.join(bdir, 'irdump-' + h)
        lock = open(os.path.join(bdir, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    if not os.path.exists(exe):
        cpp = subprocess.check_output([LLVM_CONFIG, '--cppflags'], text=True).split()
        ld = subprocess.check_output([LLVM_CONFIG, '--ldflags', '--libs', '--link-shared'], text=True).split()
        tmp = exe + '.tmp%d' % os.getpid()
        subprocess.check_call(['/usr/bin/g++', '-O1', '-std=c++17'] + cpp + ['-fno-rtti', '-w', src, '-o', tmp] + ld)
        os.rename(tmp, exe)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exe


CONFIGS = [{'INDEX_TYPE': i, 'LABEL_TYPE': l, 'DISTANCE_TYPE': d}
           for d in ('double', 'float')
           for i in ('unsigned int', 'unsigned short', 'unsigned long')
           for l in ('unsigned int', 'unsigned short', 'unsigned long')]
DEFAULT = CONFIGS[0]


def cfg_name(c):
    return '-'.join(c[k].replace('unsigned ', 'u') for k in ('INDEX_TYPE', 'LABEL_TYPE', 'DISTANCE_TYPE')) + ('-debug' if c.get('DEBUG') else '')


def gen_config(cfg, out):
    t = open(os.path.join(REPO, 'config.h.in')).read()
    sub = {'HDBSCAN_MAJOR_VERSION': '5', 'HDBSCAN_MINOR_VERSION': '1', 'HDBSCAN_PATCH_VERSION': '2', 'HDBSCAN_VERSION': '5.1.2',
           'D_MAX': 'DBL_MAX' if cfg['DISTANCE_TYPE'] == 'double' else 'FLT_MAX',
           'D_MIN': 'DBL_MIN' if cfg['DISTANCE_TYPE'] == 'double' else 'FLT_MIN'}
    sub.update(cfg)
    t = re.sub(r'^#cmakedefine (\w+).*$', lambda m: '#define %s 1' % m.group(1) if cfg.get(m.group(1)) else '/* #undef %s */' % m.group(1), t, flags=re.M)
    t = re.sub(r'@(\w+)@', lambda m: sub.get(m.group(1), ''), t)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'config.h'), 'w').write(t)


OMP_SHIM = """#ifndef SHIM_OMP_H
#define SHIM_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_num_procs(void);
void omp_set_num_threads(int); double omp_get_wtime(void); int omp_in_parallel(void); void omp_set_nested(int); void omp_set_dynamic(int);
typedef struct omp_lock_t { void *l; } omp_lock_t;
void omp_init_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*);
#ifdef __cplusplus
}
#endif
#endif
"""

GROUPS = {
    'collections': ['modules/collections/src/*.c', 'modules/utils/src/*.c'],
    'utils': ['modules/utils/src/*.c'],
    'core': ['src/*.c', 'modules/collections/src/*.c', 'modules/utils/src/*.c'],
    'cpp': ['src/*.cpp'],
    'corecpp': ['src/*.c', 'src/*.cpp', 'modules/collections/src/*.c', 'modules/utils/src/*.c'],
    'jni': ['modules/java/src/*.cpp'],
    'python': ['modules/python/src/*.c'],
    'srcc': ['src/*.c'],
}


def sources(group):
    out = []
    for g in GROUPS[group]:
        out += sorted(glob.glob(os.path.join(REPO, g)))
    if not out:
        raise AnalysisBroken('no sources for group ' + group)
    return out


def py_includes():
    inc = sorted(glob.glob('/usr/include/python3.*'))
    inc = [i for i in inc if os.path.exists(i + '/Python.h')]
    np = [p for p in ('/usr/lib/python3/dist-packages/numpy/core/include', '/usr/lib/python3/dist-packages/numpy/_core/include') if os.path.isdir(p)]
    return inc[-1:] + np


def compile_flags(src, cfgdir, openmp, debug_pp=False):
    fl = ['-I' + cfgdir, '-I' + REPO + '/include', '-I' + REPO + '/modules/utils/include', '-I' + REPO + '/modules/collections/include']
    if '/modules/java/' in src:
        fl += ['-I' + JAVA_HOME + '/include', '-I' + JAVA_HOME + '/include/linux', '-std=c++11']
    elif src.endswith('.cpp'):
        fl += ['-std=gnu++11']
    else:
        fl += ['-std=gnu17']
    if '/modules/python/' in src:
        fl += ['-I' + i for i in py_includes()] + ['-DNDEBUG']
    if openmp:
        fl += ['-fopenmp']
    return fl


_cache = {}


def build(group, cfg=None, openmp=False, passes=PASSES, raw=False, optlevel='-O1'):
    """compile every unit of the group, link the modules, canonicalise, return Program"""
    cfg = cfg or DEFAULT
    key = (group, cfg_name(cfg), openmp, passes)
    if key in _cache:
        return _cache[key]
    exe = irdump_bin()
    wd = os.path.join(workdir(), hashlib.sha1(repr(key).encode()).hexdigest()[:10])
    os.makedirs(wd, exist_ok=True)
    cdir = os.path.join(wd, 'cfg')
    gen_config(cfg, cdir)
    open(os.path.join(cdir, 'omp.h'), 'w').write(OMP_SHIM)
    srcs = sources(group)
    bcs = []

    def one(i_s):
        i, s = i_s
        bc = os.path.join(wd, '%d_%s.bc' % (i, os.path.basename(s)))
        cmd = [CLANG, '-x', 'c++' if s.endswith('.cpp') else 'c', optlevel, '-Xclang', '-disable-llvm-passes', '-Xclang', '-disable-lifetime-markers', '-g', '-fno-discard-value-names',
               '-fPIC', '-w', '-emit-llvm', '-c'] + compile_flags(s, cdir, openmp) + [s, '-o', bc]
        r = subprocess.run(cmd, capture_output=True, text=True, env={'PATH': '/usr/bin:/bin', 'HOME': '/root', 'LC_ALL': 'C.UTF-8'})
        if r.returncode:
            raise AnalysisBroken('cannot parse %s (%s): %s' % (s, cfg_name(cfg), r.stderr[:2000]))
        return bc
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(one, enumerate(srcs)))
    linked = os.path.join(wd, 'all.bc')
    r = subprocess.run([LLVM_LINK] + bcs + ['-o', linked], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('link of %s failed: %s' % (group, r.stderr[:1000]))
    js = os.path.join(wd, 'all.json')
    r = subprocess.run([exe, linked, js, passes], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('irdump failed: ' + r.stderr[:1000])
    p = Program(json.load(open(js)), group, srcs)
    shutil.rmtree(wd, ignore_errors=True)
    _cache[key] = p
    return p


class Inst:
    __slots__ = ('id', 'op', 'ty', 'ops', 'line', 'file', 'n', 'd', 'bb', 'fn', 'idx', 'inl')

    def __init__(s, d, bb, fn, idx):
        s.id = d['id']; s.op = d['op']; s.ty = d['ty']; s.ops = d['ops']; s.line = d.get('line', 0); s.file = d.get('file', '')
        s.n = d.get('n', ''); s.d = d; s.bb = bb; s.fn = fn; s.idx = idx; s.inl = d.get('inl')

    def loc(s):
        f = s.file or s.fn.file
        return '%s:%d' % (relpath(f), s.line)

    def __repr__(s):
        return '<%s#%d %s %s>' % (s.fn.name, s.id, s.op, s.loc())


def relpath(f):
    if f.startswith(REPO + '/'):
        return f[len(REPO) + 1:]
    return f


class Block:
    __slots__ = ('id', 'name', 'insts', 'succ', 'pred', 'fn')


class Function:
    def __init__(s, d, prog):
        s.d = d; s.name = d['name']; s.dem = d['dem']; s.decl = d['decl']; s.file = d.get('file', ''); s.line = d.get('line', 0)
        s.args = d['args']; s.ret = d['ret']; s.prog = prog; s.noreturn = d['noreturn']; s.srcname = d.get('srcname', d['name'])
        s.cls = d.get('class'); s.internal = d['internal']
        s.ditypes = d.get('ditypes') or []; s.dicanon = d.get('dicanon') or []
        s.artificial = d.get('artificial', False)
        s.blocks = []; s.insts = {}
        for b in d['blocks']:
            B = Block(); B.id = b['id']; B.name = b['name']; B.succ = list(b['succ']); B.pred = []; B.fn = s
            B.insts = [Inst(i, B.id, s, k) for k, i in enumerate(b['insts'])]
            for i in B.insts:
                s.insts[i.id] = i
            s.blocks.append(B)
        for B in s.blocks:
            for t in B.succ:
                s.blocks[t].pred.append(B.id)
        s._loops = None; s._dom = None; s._rpo = None; s._users = None

    def loc(s):
        return '%s:%d' % (relpath(s.file), s.line)

    def all_insts(s):
        for b in s.blocks:
            for i in b.insts:
                yield i

    @property
    def users(s):
        if s._users is None:
            u = {}
            for i in s.all_insts():
                for k in inst_operands(i):
                    if k.get('k') == 'i':
                        u.setdefault(('i', k['i']), []).append(i)
                    elif k.get('k') == 'a':
                        u.setdefault(('a', k['i']), []).append(i)
            s._users = u
        return s._users

    @property
    def rpo(s):
        if s._rpo is None:
            seen = set(); order = []
            stack = [(0, iter(s.blocks[0].succ))] if s.blocks else []
            if s.blocks:
                seen.add(0)
            while stack:
                b, it = stack[-1]
                for t in it:
                    if t not in seen:
                        seen.add(t); stack.append((t, iter(s.blocks[t].succ))); break
                else:
                    order.append(b); stack.pop()
            s._rpo = order[::-1]
        return s._rpo

    @property
    def idom(s):
        if s._dom is None:
            rpo = s.rpo; num = {b: i for i, b in enumerate(rpo)}
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    ps = [p for p in s.blocks[b].pred if p in idom]
                    if not ps:
                        continue
                    n = ps[0]
                    for p in ps[1:]:
                        a, c = n, p
                        while a != c:
                            while num[a] > num[c]:
                                a = idom[a]
                            while num[c] > num[a]:
                                c = idom[c]
                        n = a
                    if idom.get(b) != n:
                        idom[b] = n; ch = True
            s._dom = idom
        return s._dom

    def dominates(s, a, b):
        d = s.idom
        if b not in d:
            return True
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = d[b]

    @property
    def loops(s):
        """header -> set of blocks (natural loops)"""
        if s._loops is None:
            L = {}
            for b in s.rpo:
                for t in s.blocks[b].succ:
                    if s.dominates(t, b):
                        body = L.setdefault(t, {t})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x); st += s.blocks[x].pred
            s._loops = L
        return s._loops


def inst_operands(i):
    out = []
    if i.op == 'phi':
        out += [o['v'] for o in i.ops]
    else:
        out += i.ops
    if 'vars' in i.d:
        out += [v['idx'] for v in i.d['vars']]
    if 'callee' in i.d:
        out.append(i.d['callee'])
    # constant expressions nest
    res = []
    st = list(out)
    while st:
        o = st.pop()
        res.append(o)
        if o.get('k') == 'gep':
            st.append(o['base'])
        if o.get('k') == 'ce':
            st += o['ops']
    return res


class Program:
    def __init__(s, d, group, srcs):
        s.d = d; s.group = group; s.srcs = srcs
        s.fns = {f['name']: Function(f, s) for f in d['functions']}
        s.globals = {g['name']: g for g in d['globals']}
        s.irstructs = d['irstructs']; s.ditypes = {}
        s.dilist = d['ditypes']
        for t in d['ditypes']:
            s.ditypes.setdefault(t['name'], t)
        s._callers = None

    def defined(s):
        return [f for f in s.fns.values() if not f.decl]

    def get(s, name):
        f = s.fns.get(name)
        if f is None or f.decl:
            raise AnalysisBroken('anchor function %s is not defined in the current tree' % name)
        return f

    def di(s, irname):
        n = irname
        for pre in ('struct.', 'class.', 'union.', '%struct.', '%class.'):
            if n.startswith(pre):
                n = n[len(pre):]
        n = re.sub(r'\.\d+$', '', n)
        return s.ditypes.get(n)

    def field_at(s, irname, off):
        t = s.di(irname)
        if not t:
            return None
        for f in t['fields']:
            if f.get('off') == off and f['kind'] == 'field':
                return f
        return None

    @property
    def calls(s):
        """fn name -> list of (inst, callee name or None)"""
        if s._callers is None:
            c = {}
            for f in s.defined():
                l = []
                for i in f.all_insts():
                    if i.op in ('call', 'invoke'):
                        k = i.d['callee']
                        l.append((i, k['n'] if k['k'] == 'fn' else None))
                c[f.name] = l
            s._callers = c
        return s._callers

    def reachable(s, roots):
        seen = set(); st = list(roots)
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            f = s.fns.get(n)
            if f is None or f.decl:
                continue
            for i in f.all_insts():
                for o in inst_operands(i):
                    if o.get('k') == 'fn' and o['n'] not in seen:
                        st.append(o['n'])
        return seen
