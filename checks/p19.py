"""Text output.  (1) every formatted output of the library and the C++ wrapper, in every configuration, with and without
debugging: conversions against the types of the values handed over (IR types for width and kind, the compiler's own format
check for signedness).  (2) buffers: the functions that build texts are interpreted with string lengths as symbols; every
write must stay inside its buffer and every text must fit whole, for the longest text its conversions can give.  (3) contents:
what the printing functions print are the values asked for, one for every position of the range, under their names."""
from front import *
from hierdom import *
from p30 import Ctx
import re, os, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

PRINTF = {'printf': (None, 0), 'fprintf': (None, 1), 'sprintf': (0, 1), 'snprintf': (0, 2), 'dprintf': (None, 1),
          '__printf_chk': (None, 1), '__fprintf_chk': (None, 2), '__sprintf_chk': (0, 3), '__snprintf_chk': (0, 4)}
CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t|L|q)?([diouxXcsfFeEgGaApn%])')
INTW = {'hh': 32, 'h': 32, None: 32, 'l': 64, 'll': 64, 'j': 64, 'z': 64, 't': 64, 'q': 64}
SIZES = {'unsigned int': 4, 'unsigned short': 2, 'unsigned long': 8}


def string(prog, o):
    """text of a constant operand"""
    if isinstance(o, dict) and o.get('k') == 'g':
        g = prog.globals.get(o['n'])
        if g and g.get('const') and 'str' in g:
            return g['str'].split('\x00')[0]
        if g and g.get('const') and (g.get('size') == 1 or (g.get('init') or {}).get('k') == 'zero'):
            return ''
    return None


def parse(fmt):
    """[(literal before, conversion)] and the literal after; conversion: (flags, width, precision, length, letter)"""
    out = []; pos = 0; lit = ''
    while True:
        k = fmt.find('%', pos)
        if k < 0:
            return out, lit + fmt[pos:]
        m = CONV.match(fmt, k)
        lit += fmt[pos:k]
        if not m:
            return None, None
        if m.group(5) == '%':
            lit += '%'
        else:
            out.append((lit, m.groups())); lit = ''
        pos = m.end()


# ------------------------------------------------------------------------------------------------- (1) types
def types(R, prog, cfg, tag):
    for fn in prog.defined():
        if fn.d.get('artificial') or not fn.file.startswith(REPOP):
            continue
        for i in fn.all_insts():
            if i.op not in ('call', 'invoke'):
                continue
            n = i.d['callee'].get('n') if i.d['callee'].get('k') == 'fn' else None
            if n not in PRINTF:
                continue
            R.add('formatted_outputs')
            fmt = string(prog, i.ops[PRINTF[n][1]])
            if fmt is None:
                R.undecided.append('%s: format not constant' % i.loc()); continue
            cs, _ = parse(fmt)
            if cs is None:
                R.undecided.append('%s: format not understood' % i.loc()); continue
            args = list(zip(i.ops, i.d['argtys']))[PRINTF[n][1] + 1:]
            want = []
            for lit, c in cs:
                if c[1] == '*':
                    want.append(('i', 32, '*', lit))
                if c[2] == '*':
                    want.append(('i', 32, '*', lit))
                want.append((('f', 64) if c[4] in 'fFeEgGaA' and c[3] != 'L' else ('p', 64) if c[4] in 'spn' else ('i', INTW.get(c[3], 32))) + ('%' + (c[3] or '') + c[4], lit))
            R.add('conversions', len(want))
            if len(want) > len(args):
                R.violation('type', i.loc(), 'the format in %s has %d conversions and %d values' % (fn.srcname, len(want), len(args)), key='type|%s|%s|count' % (fn.srcname, fmt)); continue
            if len(want) < len(args):
                R.violation('type', i.loc(), 'the format in %s does not print all its values' % fn.srcname, key='type|%s|%s|more' % (fn.srcname, fmt)); continue
            for (k, w, c, lit), (o, ty) in zip(want, args):
                tk = 'f' if ty in ('double', 'float', 'x86_fp80') else 'p' if ty == 'ptr' else 'i'
                tw = int(ty[1:]) if tk == 'i' and ty[1:].isdigit() else 64
                if tk != k or tw != w:
                    R.violation('type', i.loc(), '%s in %s is given a value of type %s' % (c, fn.srcname, {'f': 'double', 'p': 'pointer', 'i': '%d bit integer' % tw}[tk]),
                                key='type|%s|%s|%s' % (fn.srcname, fmt, c), path=[tag])
                elif k == 'i':
                    src = wider(fn, o)
                    if src:
                        R.violation('type', i.loc(), 'the %d bit integer printed with %s in %s is cut to %d bits' % (src, c, fn.srcname, w), key='type|%s|%s|%s|cut' % (fn.srcname, fmt, c), path=[tag])


def wider(fn, o, depth=0):
    """width of the integer a printed value was cut from"""
    if o.get('k') != 'i' or depth > 4:
        return None
    d = fn.insts[o['i']]
    if d.op == 'trunc':
        s = d.ops[0]
        w = width(fn.insts[s['i']].ty) if s.get('k') == 'i' else 64
        q = fn.insts[s['i']] if s.get('k') == 'i' else None
        if q is not None and q.op in ('zext', 'sext', 'and', 'lshr', 'urem', 'srem', 'call', 'fptosi', 'fptoui', 'sub', 'ashr'):
            return None
        return w
    if d.op in ('zext', 'sext'):
        return wider(fn, d.ops[0], depth + 1)
    return None


SIGN = re.compile(r'^(.*?):(\d+):\d+: warning: format .%[^a-zA-Z]*([a-zA-Z]+). expects (?:a matching .|argument of type .)([^\u2018\u2019\']*). .*?has type .([^\u2018\u2019\']*).(?: \{aka .([^\u2018\u2019\']*).\})?')


def signs(R, cfg):
    """signedness, by the compiler's type checker"""
    d = tempfile.mkdtemp()
    try:
        gen_config(cfg, d)
        open(os.path.join(d, 'omp.h'), 'w').write(OMP_SHIM)
        jobs = [(s, x) for s in sources('corecpp') for x in ((), ('-fopenmp',))[:1]]

        def one(j):
            s, x = j
            r = subprocess.run(['gcc' if s.endswith('.c') else 'g++', '-fsyntax-only', '-w', '-Wformat', '-Wformat-signedness', *x] + compile_flags(s, d, False) + [s],
                               capture_output=True, text=True, env={'PATH': '/usr/bin:/bin', 'HOME': '/root', 'LC_ALL': 'C'})
            return s, r.stderr
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, jobs))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for s, err in res:
        R.add('units')
        for l in err.splitlines():
            if 'warning: format' not in l:
                continue
            m = SIGN.match(l)
            if not m:
                continue
            f, line, conv, want, got, aka = m.groups()
            ty = aka or got
            if want == 'int' and ty == 'unsigned int' and not got.startswith('enum'):
                R.violation('sign', '%s:%s' % (relpath(f), line), '%%%s is given a value of type %s: large values come out negative' % (conv, got), key='sign|%s|%s' % (relpath(f), got), path=[cfg_name(cfg)])


# ------------------------------------------------------------------------------------------------- (2) buffers, (3) contents
class TextAI(HierAI):
    LOOPP = 32

    def __init__(s, prog):
        HierAI.__init__(s, prog)
        H = s.hooks
        for n in PRINTF:
            H[n] = TextAI.h_printf
        H['strlen'] = TextAI.h_strlen
        H['strcpy'] = H['stpcpy'] = TextAI.h_strcpy
        H['strcat'] = TextAI.h_strcat
        H['logger_write'] = TextAI.h_write
        H['distance_get'] = TextAI.h_dist
        H['hashtable_lookup'] = TextAI.h_lookup
        H['fputs'] = H['puts'] = H['fputc'] = H['putc'] = H['putchar'] = H['fclose'] = H['fflush'] = H['strftime'] = TextAI.h_other
        s.texts = []

    def h_lookup(s, st, i, a):
        out = HierAI.h_lookup(s, st, i, a)
        if st.res(a[0])[1][:1] == ('rec',):          # every key of the table has a record
            out = [(x, v) for x, v in out if not (v[0] == 'i' and v[1].const() == 0)] or out
        return out

    def make_header(s, *a):
        r = HierAI.make_header(s, *a)
        for k in [k for k in r[0].ghost if isinstance(k, tuple) and k[0] in ('slen', 'smax') and s.local_base(k[1])]:
            del r[0].ghost[k]
        return r

    def hook_val(s, i, st):
        return None if i.ty == 'void' else s.fresh(i.ty)

    def const_text(s, p):
        if p[0] == 'p' and isinstance(p[1], tuple) and p[1][0] == 'g' and p[2].const() is not None:
            t = string(s.prog, {'k': 'g', 'n': p[1][1]})
            if t is not None:
                return t[p[2].const():]
        return None

    def slen(s, st, p):
        """length of the string p points to"""
        p = st.res(p)
        t = s.const_text(p)
        if t is not None:
            return Poly.c(len(t.encode('utf-8', 'surrogateescape')))
        if p[0] != 'p' or p[1] == 'null':
            return None
        k = ('slen', p[1])
        if k not in st.ghost:
            st.ghost[k] = Poly.a(fresh_atom('length', 0, 2 ** 62, 64))
        return st.ghost[k] - p[2]

    def h_strlen(s, st, i, a):
        v = s.slen(st, a[0])
        return [(st, ('i', v) if v is not None else s.fresh(i.ty, 'length', True))]

    def longest(s, st, i, conv, v, ty):
        """greatest length of the text of one value (None: not known)"""
        fl, w, pr, ln, c = conv
        w = int(w) if w and w != '*' else 0
        if c in 'di' or c in 'uoxX':
            if v[0] == 'i' and v[1].const() is not None and c in 'diu':
                n = len(str(v[1].const()))
            elif c in 'di':
                n = 11 if INTW.get(ln, 32) == 32 else 20
            elif c == 'u':
                n = 10 if INTW.get(ln, 32) == 32 else 20
            else:
                n = 22 if c == 'o' else 18
            return Poly.c(max(n + ('+' in fl or ' ' in fl), w))
        if c in 'fF':
            pr = 6 if pr is None else int(pr) if pr.isdigit() else None
            if pr is None:
                return None
            big = 309
            t = v[1] if v[0] == 'f' else None
            if isinstance(t, tuple) and t[0] == 'fpext' or s.narrow:
                big = 39
            return Poly.c(max(big + 1 + (1 + pr if pr else 0), w))
        if c in 'eEgGaA':
            pr = 6 if pr is None else int(pr) if pr.isdigit() else None
            return None if pr is None else Poly.c(max(pr + 26, w))
        if c == 'c':
            return Poly.c(max(1, w))
        if c == 'p':
            return Poly.c(max(18, w))
        if c == 's':
            n = s.slen(st, v) if v[0] == 'p' else None
            if pr is not None and pr.isdigit():
                return Poly.c(int(pr))
            return n + w if n is not None else None
        return None

    narrow = False

    def text_at(s, st, p):
        """(offset in its buffer, size of the buffer)"""
        p = st.res(p)
        r = st.reg.get(p[1]) if p[0] == 'p' else None
        if r is None or r.size is None:
            return None
        return p[1], p[2], r.size

    def bound(s, st, i, p, M, n, what):
        """record the obligations of writing a text of at most M characters at p, at most n bytes (None: no limit)"""
        if s.quiet:
            pass
        q = s.text_at(st, p)
        if q is None:
            if not s.quiet:
                s.texts.append(('?', i, 'buffer not known'))
            return
        b, off, size = q
        if M is not None and not s.quiet:
            s.texts.append(('ok', i, ''))
        if n is not None and not st.ge(size - off - n):
            if not s.quiet:
                s.texts.append(('over', i, 'the limit given for the text reaches beyond the end of its buffer', st.copy()))
        own = st.ghost.get(('slen', b))
        if M is None or own is not None and st.ghost.get(('smax', b), 0) == 0 and s.local_base(b) and own.single() in off.atoms():
            if not s.quiet:
                s.texts.append(('?', i, 'length of the text not known'))
        else:
            room = (n if n is not None else size - off) - 1 - M
            if not st.ge(room) and not s.quiet:
                if n is None:
                    s.texts.append(('over', i, 'the text can be longer than its buffer', st.copy()))
                else:
                    s.texts.append(('cut', i, 'the text can be longer than the room it is given, and loses its end', st.copy()))
        s.bulk_write(st, ('p', b, ZERO))
        old = st.ghost.get(('slen', b)); top = st.ghost.get(('smax', b))
        lo = off if old is None or off != old or old.const() is not None else ZERO      # what came before no longer matters
        hi = None if M is None else off + M if old is None or off != old or old.const() is not None else top + M if top is not None else None
        if n is not None and hi is None and (n + off).const() is not None:
            hi = n + off - 1
        for f in [f for f in st.facts if old is not None and old.const() is None and old.single() in f.atoms()]:
            del st.facts[f]
        a = fresh_atom('length', 0, 2 ** 62, 64)
        L = Poly.a(a)
        st.add_ge(L - lo)
        if hi is not None:
            st.add_ge(hi - L)
        st.ghost[('slen', b)] = L
        st.ghost[('smax', b)] = hi

    def h_printf(s, st, i, a):
        n = i.d['callee']['n']; dst, fk = PRINTF[n]
        fv = st.res(a[fk]) if a[fk][0] == 'p' else a[fk]
        fmt = s.const_text(fv)
        vals = a[fk + 1:]
        items = None
        if fmt is not None:
            cs, end = parse(fmt)
            if cs is not None:
                vs = list(vals); items = []
                for lit, c in cs:
                    for z in (c[1], c[2]):
                        if z == '*' and vs:
                            vs.pop(0)
                    if vs:
                        v = vs.pop(0)
                        items.append((lit, c, st.res(v) if v[0] == 'p' else v))
        chan = st.res(a[dst])[1] if dst is not None and a[dst][0] == 'p' else ('file', st.res(a[0])[1]) if n.endswith('fprintf') and a[0][0] == 'p' else 'out'
        s.log(st, 'fmt', chan, fmt, tuple(items) if items is not None else None, dst is not None and st.res(a[dst])[0] == 'p' and st.res(a[dst])[2].const() == 0, i)
        if dst is not None:
            M = None
            if items is not None:
                M = Poly.c(sum(len(l.encode()) for l, _, _ in items) + len(end.encode()))
                for lit, c, v in items:
                    m = s.longest(st, i, c, v, None)
                    M = M + m if M is not None and m is not None else None
            lim = None
            if 'snprintf' in n:
                lim = a[1][1] if a[1][0] == 'i' else None
                if lim is None:
                    if not s.quiet:
                        s.texts.append(('?', i, 'limit not known'))
                    return [(st, s.hook_val(i, st))]
            s.bound(st, i, a[dst], M, lim, n)
        return [(st, s.hook_val(i, st))]

    def h_strcpy(s, st, i, a):
        M = s.slen(st, a[1])
        s.bound(st, i, a[0], M, None, 'strcpy')
        return [(st, st.res(a[0]) if i.ty == 'ptr' else None)]

    def h_strcat(s, st, i, a):
        d = st.res(a[0]); L = s.slen(st, d)
        M = s.slen(st, a[1])
        if L is None or d[0] != 'p':
            return [(st, d)]
        s.bound(st, i, ('p', d[1], d[2] + L), M, None, 'strcat')
        return [(st, d)]

    def h_write(s, st, i, a):
        p = st.res(a[1])
        t = s.const_text(p)
        s.log(st, 'write', p[1] if t is None else None, t, i)
        return [(st, s.hook_val(i, st))]

    def h_other(s, st, i, a):
        n = i.d['callee']['n']
        if n == 'strftime':
            p = st.res(a[0]); lim = a[1][1] if a[1][0] == 'i' else None
            q = s.text_at(st, p)
            if q is not None and lim is not None:
                if not s.quiet:
                    s.texts.append(('ok', i, ''))
                if not st.ge(q[2] - q[1] - lim) and not s.quiet:
                    s.texts.append(('over', i, 'the limit given for the text reaches beyond the end of its buffer', st.copy()))
                s.bulk_write(st, ('p', q[0], ZERO))
                st.ghost[('slen', q[0])] = Poly.a(fresh_atom('length', 0, 2 ** 62, 64))
        return [(st, s.hook_val(i, st))]

    def h_dist(s, st, i, a):
        v = s.fresh(i.ty, 'distance')
        s.log(st, 'dist', v[1], a[1], a[2], i, st.res(a[0]))
        return [(st, v)]

    def on_store(s, st, inst, ptr, val, size):
        p = st.res(ptr)
        if p[0] == 'p' and s.local_base(p[1]) and (size == 1 or ('slen', p[1]) in st.ghost):
            for k in ('slen', 'smax'):
                st.ghost.pop((k, p[1]), None)
            if size == 1 and p[2].const() == 0 and val[0] == 'i' and val[1].const() == 0:
                st.ghost[('slen', p[1])] = st.ghost[('smax', p[1])] = ZERO

    def call_hook(s, st, i, name, args):
        if name.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')) or name in ('memcpy', 'memmove', 'memset'):
            d = st.res(args[0]); n = aspoly(args[2])
            if d[0] == 'p' and s.local_base(d[1]):
                L = None
                if 'memset' in name and d[2].const() == 0 and args[1][0] == 'i' and args[1][1].const() == 0:
                    L = ZERO
                elif 'memset' not in name and n is not None:
                    src = s.slen(st, args[1])
                    if src is not None and st.eq0(n - src - 1):
                        L = d[2] + src
                for k in ('slen', 'smax'):
                    st.ghost.pop((k, d[1]), None)
                if L is not None:
                    st.ghost[('slen', d[1])] = st.ghost[('smax', d[1])] = L
        if name in s.hooks:
            r = s.hooks[name](s, st, i, args)
            if r is not None:
                return r
        return HierAI.call_hook(s, st, i, name, args)


def buffers(R, A, fn):
    seen = set()
    for t in A.texts:
        k, i, msg = t[:3]
        if k == 'ok':
            R.add('texts'); continue
        if k == '?':
            R.undecided.append('%s: %s' % (i.loc(), msg)); continue
        if (k, i.loc()) in seen:
            continue
        seen.add((k, i.loc()))
        st = t[3]
        R.violation(k, i.loc(), '%s: %s' % (i.fn.srcname, msg), key='%s|%s|%s' % (k, i.fn.srcname, i.loc().split(':')[0]), path=['%s branch %s' % (x[0], x[1]) for x in st.trace if x[0] != 'loop'])


REPOP = None


def strip(v):
    """value before widening conversions"""
    for _ in range(6):
        if v is not None and v[0] == 'i' and v[1].single() is not None and v[1] == Poly.a(v[1].single()) and ATOMS[v[1].single()].key[0] in ('zext', 'trunc', 'sext', 's2u', 'u2s') and isinstance(ATOMS[v[1].single()].key[1], Poly):
            v = ('i', ATOMS[v[1].single()].key[1])
        elif v is not None and v[0] == 'f' and isinstance(v[1], tuple) and v[1][0] in ('fpext', 'fptrunc'):
            v = ('f', v[1][1])
        else:
            return v
    return v


class Show:
    """contents of one printing function"""

    def __init__(s, c, st0):
        s.c = c; s.A = c.A; s.R = c.R; s.fn = c.fn; s.done = set()

    def items(s, ev):
        """[(name in the text, value, event)] of the events of a pass"""
        out = []
        for e in ev:
            if e[0] == 'fmt' and e[3]:
                for lit, cv, v in e[3]:
                    out.append((lit, strip(v), e))
        return out

    def org(s, v):
        return s.A.org(v) or s.A.loaded(v)

    def field(s, L, v, rec, dt):
        """name of the member of the record (base) a value is"""
        A = s.A
        g = s.org(v)
        for f in A.prog.ditypes[dt]['fields']:
            top = Poly.c(f['off'])
            if g is not None and g[0] == rec and g[1] == top:
                return f['name']
            q = L.heap.get(rec, {}).get(top)
            if q is not None and v is not None and v[0] != 'p' and q[0] == v:
                return f['name']
        return None

    def elem(s, L, v, data, step):
        """position of the element of an array a value is"""
        g = s.org(v)
        if g is None or g[0] != data:
            return None
        k = {m: x for m, x in g[1].t.items()}
        if any(x % step for x in k.values()):
            return None
        return Poly({m: x // step for m, x in k.items()})

    def datas(s, L, rec):
        """bases that are the data of the list at rec"""
        A = s.A
        q = L.heap.get(rec, {}).get(A.LO['data'])
        return q[0][1] if q is not None and q[0][0] == 'p' else None

    def isdata(s, L, base, rec):
        return base == s.datas(L, rec) or isinstance(base, tuple) and base[0] == 'ld' and base[1] == rec and base[2][1] == s.A.LO['data']


def within(r, q):
    """is loop q passed in a pass of loop r?"""
    n = len(r.H.trace); t = q.H.trace
    return r is not q and len(t) > n and t[:n] == r.H.trace and any(L.trace[:len(t)] == t and L.trace[len(t):len(t) + 1] and L.trace[len(t)][0] == 'loop' and L.trace[len(t)][2:4] == (q.header, q.fn.name) for L in r.latch)


def inner(A, lp, L):
    """loops directly inside a pass, entered on the way to L"""
    key = lambda q: (q.header, q.fn.name, q.H.trace)
    over = lambda q: {key(r) for r in A.loops if within(r, q)}
    mine = over(lp) | {key(lp)} if lp is not None else set()
    return [q for q in A.loops_of(L) if over(q) == mine]


def level(c, T, lp, L, ev, cx):
    A, R = c.A, c.R
    S = cx.get('S') or Show(c, None)
    for what, kind, arg in T:
        if kind == 'value':         # printed in this pass (or once)
            R.add('values')
            its = S.items(ev)
            ok = [t for t in its if arg(S, L, t[1], t[0], cx)]
            if ok:
                def lost(e):
                    if not (isinstance(e[1], tuple) and A.local_base(e[1])):
                        return None
                    for w in ev[[id(z) for z in ev].index(id(e)) + 1:]:
                        if w[0] == 'write' and w[1] == e[1]:
                            return None
                        if w[0] == 'fmt' and w[1] == e[1] and w[4]:
                            return 'overwritten before it is written'
                        if w[0] == 'fmt' and any(z[2][0] == 'p' and z[2][1] == e[1] for z in w[3] or ()):
                            return None
                    return 'never written'
                ls = [lost(e) for _, _, e in ok]
                if all(ls):
                    c.bad('shown', ok[0][2][-1].loc(), '%s: %s is formatted and %s' % (c.fn.srcname, what, ls[0]), L, lp)
                continue
            known = {a for p in cx.get('i', ()) for a in p.atoms()}
            if any(g is not None and isinstance(g[1], Poly) and set(g[1].atoms()) - known for g in (S.org(t[1]) for t in its)):
                c.und('%s: position of %s' % (c.fn.srcname, what)); continue
            if any(e[0] == 'fmt' and e[3] is None for e in ev):
                c.und('%s: format not constant' % c.fn.srcname); continue
            c.bad('shown', (lp.loc() if lp else c.fn.loc()), '%s: %s is not printed' % (c.fn.srcname, what), L, lp)
        elif kind == 'loop':
            size, sub, need = arg
            n = size(S, L, cx)
            if n is None:
                c.und('%s: size of %s' % (c.fn.srcname, what)); continue
            if isinstance(n, tuple) and n[0] == 'skip':
                continue
            lo = ZERO
            if isinstance(n, tuple) and n[0] == 'range':
                lo, n = n[1], n[2]
            n = n if isinstance(n, list) else [n]
            R.add('ranges')
            cand = [q for q in inner(A, lp, L) if any(any(need(S, Z, t[1], t[0], cx) for t in S.items(list(Z.log[len(q.H.log):]))) for Z in q.latch + q.exits)]
            if not cand and need is not None:
                # a pass may print through deeper loops
                cand = [q for q in inner(A, lp, L) if any(any(need(S, Z, t[1], t[0], cx) for t in S.items(list(Z.log[len(k.H.log):]))) for k in A.loops if within(q, k) for Z in k.latch)]
            if not cand:
                if any(L.ge(lo - z) for z in n):
                    continue
                c.bad('shown', (lp.loc() if lp else c.fn.loc()), '%s: %s is not printed' % (c.fn.srcname, what), L, lp); continue
            for q in cand:
                if ('q', id(q), what) in cx['done']:
                    continue
                cx['done'].add(('q', id(q), what))
                why = '?'; i = None
                for z in n:
                    i, w = A.steps_over(q, lo, z)
                    if i is not None:
                        break
                    why = w if w != '?' else why
                if i is None:
                    (c.bad('range', q.loc(), '%s: the loop printing %s %s' % (c.fn.srcname, what, why), None, q) if why != '?' else c.und('%s: loop printing %s' % (c.fn.srcname, what))); continue
                for Z in q.latch:
                    R.add('passes')
                    level(c, sub, q, Z, list(Z.log[len(q.H.log):]), dict(cx, i=cx.get('i', ()) + (i,), ev=cx.get('ev', ()) + (list(Z.log[len(q.H.log):]),)))


def gets(cx, table):
    return [e for e in cx['ev'][-1] if e[0] == 'get' and e[1] == table]


# ---- what is printed where
def key_at(data, sz):
    def f(S, L, v, text, cx):
        return S.elem(L, v, data, sz) == cx['i'][0]
    return f


def any_elem(data):
    def f(S, L, v, text, cx):
        g = S.org(v)
        return g is not None and g[0] == data
    return f


def from_field(rec, dt, name, names=False):
    def f(S, L, v, text, cx):
        r = rec(S, L, cx) if callable(rec) else rec
        if r is None or S.field(L, v, r, dt) != name:
            return False
        return not names or re.search(r'(?<![A-Za-z_])%s\s*[:=]\s*$' % re.escape(name), text) is not None
    return f


def found(S, L, cx):
    """what the last successful lookup of the pass handed back"""
    for ev in reversed(cx['ev']):
        g = [e for e in ev if e[0] == 'get' and e[3] is not None and e[3][0] == 'p']
        if g:
            return g[-1][3][1]
    return None


def found_elem(sz):
    def f(S, L, v, text, cx):
        r = found(S, L, cx); g = S.org(v)
        return r is not None and g is not None and S.isdata(L, g[0], r) and S.elem(L, v, g[0], sz) == cx['i'][-1]
    return f


def any_found(S, L, v, text, cx):
    g = S.org(v)
    return g is not None and isinstance(g[0], tuple) and 'found' in repr(g[0])


def found_size(S, L, cx):
    r = found(S, L, cx)
    if r is None:
        return ('skip',)
    q = L.heap.get(r, {}).get(S.A.LO['size'])
    return q[0][1] if q is not None and q[0][0] == 'i' else S.A.lsize(L, ('p', r, ZERO))


def const_size(n):
    return lambda S, L, cx: n


def check(R, tier):
    global REPOP
    import front
    REPOP = front.REPO
    dbg = lambda c: dict(c, DEBUG='1')
    for cfg in CONFIGS:
        for cf in (cfg, dbg(cfg)):
            prog = build('corecpp', cf)
            R.add('configurations')
            types(R, prog, cf, cfg_name(cf))
            front._cache.pop(('corecpp', cfg_name(cf), False, front.PASSES), None)
    for cfg in [DEFAULT, dbg(DEFAULT)] + ([] if tier == 'quick' else [x for c in CONFIGS[1:] for x in (c, dbg(c))]):
        signs(R, cfg)
    wide = {'INDEX_TYPE': 'unsigned long', 'LABEL_TYPE': 'unsigned short', 'DISTANCE_TYPE': 'double'}
    for cfg in [DEFAULT, wide, dbg(DEFAULT)] if tier == 'quick' else [x for c in CONFIGS for x in (c, dbg(c))]:
        prog = build('core', cfg)
        texts(R, prog, cfg)
    R.need('formatted_outputs', 1); R.need('texts', 1); R.need('results', 1)
    R.assumptions += ['strings handed in are shorter than 2^62', 'every label of a map has a list or record', 'the C locale (one byte decimal point)']


def texts(R, prog, cfg):
    done = set()
    for nm, f in CONTENT.items():
        fn = prog.fns.get(nm)
        if fn is None or fn.decl:
            R.undecided.append('%s not found' % nm); continue
        A = TextAI(prog)
        A.narrow = cfg['DISTANCE_TYPE'] == 'float'
        c = Ctx(R, A, fn, [], cfg)
        T, st, args = f(A, c, fn)
        c.outs = A.run(fn, st, args)
        A.frozen = True
        R.add('functions'); done.add(nm)
        buffers(R, A, fn)
        cx = {'done': set(), 'i': (), 'ev': ()}
        for x, v in c.outs:
            R.add('results')
            level(c, T, None, x, list(x.log), dict(cx, ev=(list(x.log),)))
    # everything else that builds texts
    for fn in prog.defined():
        if fn.name in done or not any(i.op == 'call' and i.d['callee'].get('n') in ('sprintf', 'snprintf', 'strcpy', 'strcat', 'strftime', 'vsprintf', 'stpcpy') for i in fn.all_insts()):
            continue
        A = TextAI(prog)
        A.narrow = cfg['DISTANCE_TYPE'] == 'float'
        A.run(fn, *A.entry_state(fn))
        R.add('functions')
        buffers(R, A, fn)


def table(A, st, tag):
    t = A.record(st, tag, 'HASHTABLE_')
    A.put(st, tag, 'HASHTABLE_', 'keys', A.list_of(st, 'keys'))
    return t, A.init['keys']['data'][1], A.init['keys']['size'][1]


def c_map(A, c, fn):
    st = State(); t, kd, n = table(A, st, 'map')
    T = [('every label', 'loop', (const_size(n), [
        ('the label', 'value', key_at(kd, c.lsz)),
        ('the points of a label', 'loop', (found_size, [('the point', 'value', found_elem(c.isz))], any_found))], any_elem(kd)))]
    return T, st, [t]


def c_sizes(A, c, fn):
    st = State(); t, kd, n = table(A, st, 'map')
    T = [('every label', 'loop', (const_size(n), [
        ('the label', 'value', key_at(kd, c.lsz)),
        ('the number of points', 'value', lambda S, L, v, text, cx: found(S, L, cx) is None or S.field(L, v, found(S, L, cx), 'ArrayList') == 'size')], any_elem(kd)))]
    return T, st, [t]


def c_dmap(A, c, fn):
    st = State(); t, kd, n = table(A, st, 'map')
    T = [('every label', 'loop', (const_size(n), [('the label', 'value', key_at(kd, c.lsz))] + [
        (f, 'value', (lambda f: lambda S, L, v, text, cx: found(S, L, cx) is None or from_field(found, 'distance_values', f, True)(S, L, v, text, cx))(f))
        for f in ('min_cr', 'max_cr', 'cr_confidence', 'min_dr', 'max_dr', 'dr_confidence')], any_elem(kd)))]
    return T, st, [t]


def c_hier(A, c, fn):
    st = State(); t, kd, n = table(A, st, 'hierarchy')
    w = 8 * c.isz
    np = Poly.a(atom(('init', 'numPoints', w), 'numPoints', 0, 2 ** w - 1, w))
    name = ('p', ('name',), ZERO)
    st.reg[('name',)] = Region('input', None, 'sym')
    he = A.prog.ditypes['_hierarchy_entry']
    lo = [Poly.c(f['off']) for f in he['fields'] if f['name'] == 'labels'][0]

    def label(S, L, v, text, cx):
        g = S.org(v); r = found(S, L, cx)
        if g is None or r is None or not (isinstance(g[0], tuple) and g[0][0] == 'ld' and g[0][1] == r and g[0][2][1] == lo):
            q = L.heap.get(r, {}).get(lo) if r is not None else None
            if g is None or q is None or q[0][0] != 'p' or q[0][1] != g[0]:
                return False
        return S.elem(L, v, g[0], c.lsz) == cx['i'][-1]
    T = [('every level', 'loop', (const_size(n), [
        ('the weight', 'value', lambda S, L, v, text, cx: found(S, L, cx) is None or S.field(L, v, found(S, L, cx), '_hierarchy_entry') == 'edgeWeight'),
        ('the labels of a level', 'loop', (lambda S, L, cx: np if found(S, L, cx) is not None else ('skip',), [('the label', 'value', label)], any_found))], any_found))]
    return T, st, [t, ('i', np), name]


def c_scores(A, c, fn):
    st = State()
    w = 8 * c.isz
    np = Poly.a(atom(('init', 'numPoints', w), 'numPoints', 0, 2 ** w - 1, w))
    b = ('scores',); st.reg[b] = Region('input', None, 'sym'); st.nul[b] = 'nonnull'
    d = A.prog.ditypes['OutlierScore']

    def f(name):
        off = [x['off'] for x in d['fields'] if x['name'] == name][0]

        def t(S, L, v, text, cx):
            g = S.org(v)
            return g is not None and g[0] == b and g[1] == cx['i'][-1] * d['size'] + off
        return t
    T = [('every point', 'loop', (const_size(np), [(n, 'value', f(n)) for n in ('id', 'coreDistance', 'score')], any_elem(b)))]
    return T, st, [('p', b, ZERO), ('i', np)]


WORDS = {'max': ('max',), 'mean': ('mean',), 'skewness': ('skew',), 'kurtosis': ('kurt',), 'variance': ('var',), 'standardDev': ('standard', 'std', 'deviation')}


def c_stats(A, c, fn):
    st = State(); p = A.record(st, 'stats', '_clustering_stats')
    top = {f['name']: f['off'] for f in A.prog.ditypes['_clustering_stats']['fields']}
    sub = {f['name']: f['off'] for f in A.prog.ditypes['stats_values']['fields']}

    def fld(g, n):
        off = Poly.c(top[g] + sub[n])

        def t(S, L, v, text, cx):
            o = S.org(v)
            if o is None or o[0] != ('rec', 'stats') or o[1] != off:
                return False
            x = text.lower()
            kinds = {k for k, ws in WORDS.items() if any(w in x for w in ws)}
            return (not kinds or n in kinds) and not ('core' in x and g != 'coreDistanceValues') and not ('intra' in x and g != 'intraDistanceValues')
        return t

    def count(S, L, v, text, cx):
        return v == A.init['stats']['count'] or S.field(L, v, ('rec', 'stats'), '_clustering_stats') == 'count'
    T = [('the number of clusters', 'value', count)] + [('%s of %s' % (n, 'core distances' if g[0] == 'c' else 'intra distances'), 'value', fld(g, n)) for g in ('coreDistanceValues', 'intraDistanceValues') for n in WORDS]
    return T, st, [p]


def c_dists(which):
    def f(A, c, fn):
        st = State()
        if which == 'sc':
            p = A.record(st, 'hdbscan', 'hdbscan'); n = A.init['hdbscan']['numPoints'][1]
        else:
            p = A.record(st, 'dis', 'Distance'); n = A.init['dis']['rows'][1]

        def val(S, L, v, text, cx):
            if v is None or v[0] != 'f':
                return False
            e = [x for x in cx['ev'][-1] if x[0] == 'dist' and (x[1] == v[1] or isinstance(v[1], tuple) and x[1] in v[1:])]
            return any(strip(x[2])[1] == cx['i'][-2] and strip(x[3])[1] == cx['i'][-1] or strip(x[2])[1] == cx['i'][-1] and strip(x[3])[1] == cx['i'][-2] for x in e) if len(cx['i']) > 1 else bool(e)

        def anyd(S, L, v, text, cx):
            return v is not None and v[0] == 'f'
        T = [('the distances of every point', 'loop', (const_size(n), [('every distance of a point', 'loop', ((lambda S, L, cx: n) if which == 'sc' else (lambda S, L, cx: ('range', cx['i'][-1] + 1, n)), [('the distance', 'value', val)], anyd))], anyd))]
        return T, st, [p]
    return f


def lists3(st, A, c, names, szs):
    T = []
    for nm, sz in zip(names, szs):
        d, n = A.init[nm]['data'][1], A.init[nm]['size'][1]
        T.append((nm, d, n, sz))
    return T


def c_comps(A, c, fn):
    st = State(); ps = [A.list_of(st, t) for t in ('neighbours', 'others', 'distances')]
    D = {t: A.init[t]['data'][1] for t in ('neighbours', 'others', 'distances')}
    n = A.init['neighbours']['size'][1]
    T = [('every edge', 'loop', (const_size(n), [(t, 'value', (lambda d, sz: lambda S, L, v, text, cx: S.elem(L, v, d, sz) == cx['i'][-1])(D[t], c.dsz if t == 'distances' else c.isz)) for t in D], any_elem(D['neighbours'])))]
    return T, st, ps


def c_graph(A, c, fn):
    st = State(); g = A.record(st, 'graph', G)
    T = []
    for tag, f, sz in (('va', 'verticesA', c.isz), ('vb', 'verticesB', c.isz), ('ew', 'edgeWeights', c.dsz)):
        A.put(st, 'graph', G, f, A.list_of(st, tag))
        d = A.init[tag]['data'][1]; n = A.init[tag]['size'][1]
        T.append((f, 'loop', (const_size(n), [(f, 'value', (lambda d, sz: lambda S, L, v, text, cx: S.elem(L, v, d, sz) == cx['i'][-1])(d, sz))], any_elem(d))))
    e = ('recp', 'graph', 'edges')
    st.nul[e] = 'nonnull'; st.reg[e] = Region('heap', None, 'sym')
    nv = A.init['graph']['numVertices'][1]

    def nb(S, L, v, text, cx):
        o = S.org(v)
        return o is not None and repr(e) in repr(o[0])

    def nb_at(S, L, v, text, cx):
        o = S.org(v)
        return nb(S, L, v, text, cx) and S.elem(L, v, o[0], c.isz) == cx['i'][-1]

    def nb_size(S, L, cx):
        out = []
        for b, cells in L.heap.items():
            if repr(e) in repr(b):
                q = cells.get(A.LO['size'])
                if q is not None and q[0][0] == 'i':
                    out.append(q[0][1])
        return out or None
    T.append(('the edges of every vertex', 'loop', (const_size(nv), [('the edges of a vertex', 'loop', (nb_size, [('the neighbour', 'value', nb_at)], nb))], nb)))
    return T, st, [g]


CONTENT = {'hdbscan_print_cluster_map': c_map, 'hdbscan_print_cluster_sizes': c_sizes, 'hdbscan_print_distance_map': c_dmap, 'hdbscan_print_hierarchies': c_hier,
           'hdbscan_print_outlier_scores': c_scores, 'hdbscan_print_stats': c_stats, 'print_distances': c_dists('sc'), 'distances_print': c_dists('dis'),
           'print_graph_components': c_comps, 'graph_print': c_graph}
