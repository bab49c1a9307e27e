"""Agreement of the C and the C++ view of the public headers: the current headers are compiled as C and as C++ (in every
configuration) to LLVM IR with complete type information; for every structure and enumeration both views must give the same
size, members, offsets, member types and constants, and for every function with C linkage the same symbol and the same
lowered parameter and result types."""
import os, re, subprocess, glob
from concurrent.futures import ThreadPoolExecutor
from front import CLANG, CONFIGS, REPO, AnalysisBroken, gen_config, compile_flags, workdir, cfg_name, build, DEFAULT

HDR = ['hdbscan/utils.h', 'hdbscan/logger.h', 'collections/primes.h', 'collections/list.h', 'collections/set.h', 'collections/linkedlist.h', 'collections/hashtable.h']


def headers():
    out = []
    for d in ('modules/utils/include', 'modules/collections/include', 'include'):
        out += [os.path.relpath(h, os.path.join(REPO, d)) for h in sorted(glob.glob(os.path.join(REPO, d, '*', '*.h')))]
    return [h for h in HDR if h in out] + [h for h in out if h not in HDR]


class View:
    """types and functions one language sees"""

    def __init__(s, ll):
        s.n = {}
        for m in re.finditer(r'^!(\d+) = (?:distinct )?!(\w+)?\((.*)\)$|^!(\d+) = (?:distinct )?!\{(.*)\}$', ll, re.M):
            if m.group(4):
                s.n[m.group(4)] = ('list', [x.strip().lstrip('!') for x in m.group(5).split(',')] if m.group(5) else [])
            else:
                d = {}
                for a in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|![0-9]+|!DIExpression\([^)]*\)|[^,]+)', m.group(3)):
                    d[a.group(1)] = a.group(2).strip('"')
                s.n[m.group(1)] = (m.group(2), d)
        s.decl = {}
        for m in re.finditer(r'^(?:declare|define)\s+(.*?)@([\w.$]+)\((.*?)\)(?: .*)?$', ll, re.M):
            ret = [w for w in m.group(1).split() if not w.startswith(('noundef', 'dso_local', 'linkonce', 'internal', 'nonnull', 'external', 'hidden', 'weak', 'range', 'local_unnamed'))]
            s.decl[m.group(2)] = (' '.join(ret), tuple(' '.join(w for w in a.split() if not w.startswith(('%', 'noundef', 'nonnull', 'nocapture', 'align', 'dereferenceable'))) for a in m.group(3).split(',') if a.strip()))
        s.types = {}
        s.consts = {}
        for k, (kind, d) in s.n.items():
            if kind == 'DICompositeType' and d.get('tag') in ('DW_TAG_structure_type', 'DW_TAG_class_type', 'DW_TAG_union_type', 'DW_TAG_enumeration_type') and 'flags' not in d or \
               kind == 'DICompositeType' and 'DIFlagFwdDecl' not in d.get('flags', '') and d.get('tag') != 'DW_TAG_array_type':
                if d.get('name') and s.local(d):
                    s.types.setdefault(d['name'], k)
            if kind == 'DIDerivedType' and d.get('tag') == 'DW_TAG_typedef' and s.local(d) and d.get('name'):
                s.types.setdefault('typedef ' + d['name'], k)

    def local(s, d):
        f = s.n.get(d.get('file', '').lstrip('!'))
        return bool(f) and f[1].get('filename', '').startswith(REPO + '/')

    def where(s, k):
        d = s.n[k][1]; f = s.n.get(d.get('file', '').lstrip('!'))
        p = f[1]['filename'] if f else '?'
        return '%s:%s' % (os.path.relpath(p, REPO), d.get('line', '?'))

    def shape(s, ref, depth=0):
        """canonical description of a type"""
        if ref in (None, 'null', ''):
            return 'void'
        kind, d = s.n[ref.lstrip('!')]
        if kind == 'DIBasicType':
            return (d.get('encoding', '').replace('DW_ATE_', ''), int(d.get('size', 0)))
        tag = d.get('tag')
        if kind == 'DIDerivedType':
            if tag in ('DW_TAG_pointer_type', 'DW_TAG_reference_type'):
                return 'pointer'
            return s.shape(d.get('baseType'), depth)
        if kind == 'DISubroutineType':
            return 'function'
        if tag == 'DW_TAG_array_type':
            return ('array', int(d.get('size', 0)), s.shape(d.get('baseType'), depth))
        if tag == 'DW_TAG_enumeration_type':
            return ('enum', int(d.get('size', 0)), tuple(sorted((s.n[e][1]['name'], s.n[e][1]['value']) for e in s.items(d))))
        return ('struct', int(d.get('size', 0)), tuple(s.members(d, depth + 1))) if depth < 12 else 'deep'

    def items(s, d):
        l = s.n.get(d.get('elements', '').lstrip('!'))
        return l[1] if l else []

    def members(s, d, depth=0):
        out = []
        for e in s.items(d):
            kind, m = s.n[e]
            if kind != 'DIDerivedType' or 'DIFlagStaticMember' in m.get('flags', '') or m.get('tag') not in ('DW_TAG_member', 'DW_TAG_inheritance'):
                continue
            out.append((m.get('name', '<base>'), int(m.get('offset', 0)), int(m.get('size', 0) or 0), s.shape(m.get('baseType'), depth)))
        return sorted(out, key=lambda m: m[1])


def compile_view(lang, cfg, tag, names=None):
    wd = os.path.join(workdir(), 'p20_' + tag); os.makedirs(wd, exist_ok=True)
    gen_config(cfg, wd)
    src = os.path.join(wd, 'v_%s.%s' % ('f' if names else 't', 'cpp' if lang == 'c++' else 'c'))
    with open(src, 'w') as f:
        for h in headers():
            f.write('#include "%s"\n' % h)
        if names:
            if lang == 'c++':
                f.write('using namespace clustering;\n')
            f.write('void* sink[%d];\n%svoid probe(void) {\n' % (len(names), 'extern "C" ' if lang == 'c++' else ''))
            for i, n in enumerate(names):
                f.write('sink[%d] = (void*)&%s;\n' % (i, n))
            f.write('}\n')
    out = src + '.ll'
    cmd = [CLANG, '-x', lang, '-O0', '-Xclang', '-disable-llvm-passes', '-g', '-fno-eliminate-unused-debug-types', '-fstandalone-debug', '-w', '-S', '-emit-llvm', '-fPIC'] + compile_flags(src, wd, False) + [src, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    t = open(out).read(); os.unlink(out)
    return t, ''


def fmt(sh):
    return sh if isinstance(sh, str) else '%s of %d bits' % (sh[0], sh[1])


def check(R, tier):
    cfgs = CONFIGS
    prog = build('corecpp', DEFAULT)
    hs = headers()
    fnames = sorted(f.name for f in prog.defined() if not f.name.startswith('_Z') and (f.file or '').endswith('.c') and not f.d.get('internal', False) and '/src/' in f.file)

    def one(cfg):
        tag = cfg_name(cfg)
        res = {}
        for lang in ('c', 'c++'):
            t, err = compile_view(lang, cfg, tag)
            if t is None:
                return cfg, lang, err
            res[lang] = View(t)
        # functions that the C view declares
        t, err = compile_view('c', cfg, tag, None)
        decl = [n for n in fnames if re.search(r'\b%s\s*\(' % re.escape(n), alltext)]
        fv = {}
        cands = list(decl)
        for lang in ('c', 'c++'):
            cur = list(cands)
            for _ in range(60):
                t, err = compile_view(lang, cfg, tag, cur)
                if t is not None:
                    break
                bad = set(re.findall(r"undeclared identifier '(\w+)'", err)) | set(re.findall(r"no member named '(\w+)'", err)) | set(re.findall(r"reference to '(\w+)' is ambiguous", err))
                bad &= set(cur)
                if not bad:
                    return cfg, lang, err
                cur = [n for n in cur if n not in bad]
            fv[lang] = (View(t), set(cur))
        return cfg, res, fv
    alltext = ''
    for d in ('modules/utils/include', 'modules/collections/include', 'include'):
        for h in glob.glob(os.path.join(REPO, d, '*', '*.h')):
            alltext += open(h, errors='replace').read()
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(one, cfgs))
    seen = set()
    for cfg, a, b in results:
        cn = cfg_name(cfg)
        if isinstance(a, str):
            raise AnalysisBroken('headers do not compile as %s (%s): %s' % (a, cn, b[:600]))
        C, X = a['c'], a['c++']
        R.add('configurations')
        for n, k in sorted(C.types.items()):
            if n.startswith('typedef '):
                if n in X.types:
                    R.add('typedefs')
                    ca, xa = C.shape(k), X.shape(X.types[n])
                    if ca != xa and not (isinstance(ca, tuple) and ca[0] == 'struct'):
                        R.violation('typedef', C.where(k), '%s is %s in C and %s in C++ (%s)' % (n[8:], fmt(ca), fmt(xa), cn), key='typedef|' + n)
                continue
            # find the same structure in the other view
            xk = X.types.get(n)
            if xk is None:
                for m, q in C.types.items():
                    if m.startswith('typedef ') and m in X.types and C.shape(q) == C.shape(k):
                        xk = X.types[m]; break
            if xk is None:
                R.undecided.append('%s has no counterpart in the C++ view' % n); continue
            R.add('types'); seen.add(n)
            ca, xa = C.shape(k), X.shape(xk)
            if ca == xa:
                R.add('members', len(C.members(C.n[k][1])))
                continue
            det = []
            if isinstance(ca, tuple) and isinstance(xa, tuple):
                if ca[1] != xa[1]:
                    det.append('size %d bits in C, %d bits in C++' % (ca[1], xa[1]))
                cm = {m[0]: m for m in ca[2]}; xm = {m[0]: m for m in xa[2]}
                for f in list(cm) + [f for f in xm if f not in cm]:
                    if cm.get(f) != xm.get(f):
                        if ca[0] == 'enum':
                            det.append('constant %s is %s in C, %s in C++' % (f, cm.get(f, ('', 'absent'))[1], xm.get(f, ('', 'absent'))[1]))
                        else:
                            p = lambda m: 'absent' if m is None else 'at bit %d, %s' % (m[1], fmt(m[3]))
                            det.append('member %s: %s in C, %s in C++' % (f, p(cm.get(f)), p(xm.get(f))))
            R.violation('layout', C.where(k), '%s differs between C and C++: %s (%s)' % (n, det[0] if det else 'kind', cn), key='layout|' + n, path=det[:8])
        (CF, cn_), (XF, xn_) = b['c'], b['c++']
        for n in sorted(cn_):
            R.add('functions')
            if n not in xn_:
                R.violation('hidden', n, 'function %s is declared for C but not for C++ (%s)' % (n, cn), key='hidden|' + n); continue
            cd, xd = CF.decl.get(n), XF.decl.get(n)
            if cd is None:
                R.undecided.append('%s is not referenced by its own name' % n); continue
            if xd is None:
                R.violation('linkage', n, 'function %s, compiled as C, is declared without C linkage for C++: no definition can be found (%s)' % (n, cn), key='linkage|' + n); continue
            if cd[1] == ('...',):
                cd = (cd[0], ())          # unprototyped in C
            if cd != xd:
                R.violation('signature', n, 'function %s takes %s in C and %s in C++ (%s)' % (n, cd, xd, cn), key='signature|' + n)
    # constants given by macros
    R.need('types', 12); R.need('functions', 60)
    R.samples += ['types: ' + ', '.join(sorted(seen)), '%d headers, each compiled as C and as C++ in %d configurations' % (len(hs), len(cfgs))]
    R.assumptions.append('x86-64 System V ABI as implemented by clang; C and C++ units of one build share one configuration')
