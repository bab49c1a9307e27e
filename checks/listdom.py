"""Shared: analysis of the ArrayList module (bounds invariant and sequence contents)."""
import re, os
from front import *
from absint import *


def header_decls(rel):
    """names declared in a public header (comments stripped)"""
    t = open(os.path.join(REPO, rel)).read()
    t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S); t = re.sub(r'//.*', ' ', t)
    return set(re.findall(r'\b([A-Za-z_]\w*)\s*\(', t))


def trace_path(f):
    return ['%s branch %s' % (t[0], t[1]) for t in f.trace][-25:]


class ListAI(Interp):
    """entry: every ArrayList argument satisfies size<=max_size, storage = max_size*step bytes"""

    def __init__(s, prog):
        Interp.__init__(s, prog)
        di = prog.ditypes.get('ArrayList')
        if not di:
            raise AnalysisBroken('record ArrayList not found')
        s.F = {f['name']: f['off'] for f in di['fields']}
        s.lsize = di['size']
        for k in ('data', 'size', 'max_size', 'step'):
            if k not in s.F:
                raise AnalysisBroken('ArrayList.%s not found' % k)
        s.models['qsort'] = s.m_qsort
        s.obl = 0; s.undec = set()

    def m_qsort(s, A, st, i, args):
        n, sz = aspoly(args[1]), aspoly(args[2])
        if n is not None and sz is not None:
            s.on_access(st, i, st.res(args[0]), n * sz, 'memwrite')
        st.log = st.log + (('qsort', args[0], n, sz, args[3]),)
        A.bulk_write(st, args[0], n * sz)
        return [(st, None)]

    def on_indirect(s, st, inst, fv, args):
        # comparison callback: pure, any sign; it reads one element through each operand
        for a in args[:2]:
            a = st.res(a)
            for (k, L, D, sz, mx, sp) in getattr(s, 'cur', None) or []:
                d = st.heap.get(L, {}).get(Poly.c(s.F['data']))
                if a[0] == 'p' and (a[1] == D or d is not None and a[1] == st.res(d[0])[1]):
                    s.on_access(st, inst, a, sp, 'comparison read')
                    n = s.cell(st, L, s.F['size'])
                    if n is not None and n[0] == 'i' and not st.ge(n[1] * sp - a[2] - sp):
                        s.report('stale-element', inst, 'comparison reads storage past the last element (offset %s, %s elements)' % (a[2], n[1]), st)
        return [(st, s.fresh(inst.ty, 'cmp'))]

    def is_list_arg(s, fn, k):
        return len(fn.dicanon) == len(fn.args) + 1 and fn.dicanon[k + 1] == 'struct ArrayList*'

    def setup(s, fn):
        st = State(); args = []; lists = []
        for k, a in enumerate(fn.args):
            v = s.arg_value(st, fn, k)
            if s.is_list_arg(fn, k):
                L = v[1]
                st.btype[L] = 'struct.ArrayList'
                st.reg[L] = Region('input', Poly.c(s.lsize))
                sz = Poly.a(atom(('L', L, 'size'), 'size', 0, None)); mx = Poly.a(atom(('L', L, 'max'), 'max_size', 1, None)); sp = Poly.a(atom(('L', L, 'step'), 'step', 1, None))
                D = ('ld', L, 'data', 'data')
                st.reg[D] = Region('input', mx * sp, 'sym', None, 'data'); st.nul[D] = 'nonnull'
                st.heap[L] = {Poly.c(s.F['data']): (('p', D, ZERO), 8, 'ptr'), Poly.c(s.F['size']): (('i', sz), 8, 'i64'), Poly.c(s.F['max_size']): (('i', mx), 8, 'i64'), Poly.c(s.F['step']): (('i', sp), 8, 'i64')}
                st.add_ge(mx - sz)
                lists.append((k, L, D, sz, mx, sp))
            args.append(v)
        if lists:
            for k, a in enumerate(fn.args):
                if a['ty'] == 'ptr' and not s.is_list_arg(fn, k) and args[k][0] == 'p' and len(fn.dicanon) > k + 1 and fn.dicanon[k + 1] == 'void*':
                    st.reg[args[k][1]] = Region('input', lists[0][5], 'sym', None, a['name']); st.nul[args[k][1]] = 'nonnull'
        s.cur = lists
        return st, args, lists

    def on_access(s, st, inst, ptr, n, kind):
        ptr = st.res(ptr)
        if ptr[0] != 'p' or ptr[1] == 'null':
            return
        r = st.reg.get(ptr[1])
        if r is None:
            return
        if r.freed:
            s.report('use-after-free', inst, '%s of storage that was already released (%s)' % (kind, s.vname(ptr)), st)
            return
        if r.size is None or n is None:
            return
        s.count('bounds_obligations', 2)
        if not st.ge(n):
            s.report('bounds', inst, '%s with a byte count that can wrap below zero: %s' % (kind, n), st)
            return
        if st.eq0(n):
            return
        if not st.ge(ptr[2]):
            s.report('bounds', inst, '%s starts before the storage: offset %s of %s' % (kind, ptr[2], s.bname(ptr[1])), st)
        if not st.ge(r.size - ptr[2] - n):
            s.report('bounds', inst, '%s of %s byte(s) at offset %s can pass the end of %s (%s bytes)' % (kind, n, ptr[2], s.bname(ptr[1]), r.size), st)

    def on_null_deref(s, st, inst, ptr, sure):
        if sure:
            s.report('null', inst, 'access through a null pointer (%s)' % s.vname(ptr), st)

    def on_free(s, st, inst, ptr, how):
        r = st.reg.get(ptr[1])
        if r is not None and r.freed:
            s.report('double-free', inst, '%s released twice' % s.vname(ptr), st)

    def on_memcpy(s, st, i, d, sr, n, kind):
        if d[0] == 'p' and sr[0] == 'p' and d[1] == sr[1] and kind == 'memcpy':
            x = d[2] - sr[2]
            if not (st.eq0(x) or st.ge(x - n) or st.ge(-x - n) or st.eq0(n)):
                s.report('overlap', i, 'memcpy between overlapping ranges of the same storage', st)
        st.log = st.log + (('copy', d, sr, n),)

    def on_store(s, st, inst, ptr, val, size):
        if ptr[0] == 'p':
            st.log = st.log + (('store', ptr, val, size),)

    def realloc_move(s, st, p, b, old, n):
        Interp.realloc_move(s, st, p, b, old, n)
        st.log = st.log + (('realloc', b, p[1], old.size if old is not None else None, n),)

    def make_header(s, fn, phis, S0, havoc, bulk, *a):
        H, f, c = Interp.make_header(s, fn, phis, S0, havoc, bulk, *a)
        for b in bulk:
            H.log = H.log + (('havoc', b),)
        for b in {x[0] for x in havoc}:
            H.log = H.log + (('havoc', b),)
        return H, f, c

    def ptr_scale(s, st, v):
        for k, L, D, sz, mx, sp in getattr(s, 'cur', None) or []:
            d = st.heap.get(L, {}).get(Poly.c(s.F['data']))
            if d is not None and v[1] in (D, st.res(d[0])[1]) and exact_div(v[2], sp) is not None:
                return sp
        return None

    def cell(s, st, base, off, size=8):
        c = st.heap.get(base, {}).get(Poly.c(off))
        return c[0] if c else None

    # where does element `off..off+step` of region base come from, before log position n
    def origin(s, st, base, off, step, n=None):
        log = st.log
        k = len(log) if n is None else n
        while k > 0:
            k -= 1
            e = log[k]
            if e[0] == 'copy':
                d, sr, ln = st.res(e[1]), st.res(e[2]), e[3]
                if d[0] != 'p' or d[1] != base:
                    continue
                if st.ge(off - d[2]) and st.ge(d[2] + ln - off - step):
                    if sr[0] != 'p':
                        return ('?',)
                    base, off = sr[1], sr[2] + off - d[2]
                    continue
                if st.ge(off - d[2] - ln) or st.ge(d[2] - off - step):
                    continue
                return ('?', 'partial copy', [off - d[2], d[2] + ln - off - step])
            elif e[0] == 'realloc':
                if e[1] == base:
                    if e[3] is not None and st.ge(e[3] - off - step) and st.ge(e[4] - off - step):
                        base = e[2]; continue
                    return ('lost',)
            elif e[0] == 'store':
                p = st.res(e[1])
                if p[1] == base:
                    if st.ge(off - p[2] - e[3]) or st.ge(p[2] - off - step):
                        continue
                    return ('?', 'store', [off - p[2] - e[3], p[2] - off - step])
            elif e[0] in ('havoc', 'lost'):
                if e[0] == 'lost' or e[1] == base:
                    return ('?', 'loop')
            elif e[0] == 'qsort':
                p = st.res(e[1])
                if p[1] == base:
                    return ('?', 'sorted')
        return ('at', base, off)


def public_list_functions(prog):
    decl = header_decls('modules/collections/include/collections/list.h') | header_decls('modules/collections/include/collections/set.h')
    out = []
    for f in prog.defined():
        if f.name in decl and f.dicanon and any(c == 'struct ArrayList*' for c in f.dicanon):
            out.append(f)
    return sorted(out, key=lambda f: f.name)
