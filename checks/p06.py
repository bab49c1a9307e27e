"""Every comparison function of the library is interpreted on two arbitrary values of its element type; at each
exit the result is resolved under each possible order of the two values and must be positive, zero or negative
accordingly, without relying on arithmetic that can wrap or be rounded. Nothing but the result may be written."""
import re
from absint import *
from front import build, DEFAULT, CONFIGS, AnalysisBroken
from poly import ATOMS

SCALAR = {'int': 'i32', 'short': 'i16', 'long': 'i64', 'char': 'i8', 'double': 'double', 'float': 'float'}
SZ = {'i32': 4, 'i16': 2, 'i64': 8, 'i8': 1, 'double': 8, 'float': 4, 'ptr': 8}


class CmpAI(Interp):
    def __init__(s, prog):
        Interp.__init__(s, prog)
        s.lossy = []
        s.stores = []
        s.indirect = []

    def on_null_deref(s, st, inst, ptr, sure):
        if sure:
            s.report('null', inst, 'reads through a NULL pointer', st)

    def addr(s, p):
        return Poly.a(atom(('addr', p[1]), 'address', 0, 2 ** 62)) + p[2]

    def icmp(s, st, pred, a, b, ty):
        if a[0] == 'p' and b[0] == 'p':
            a, b = st.res(a), st.res(b)
            if not is_null(a) and not is_null(b) and s.isptr:
                return s.cmp_poly(st, pred, s.addr(a), s.addr(b), 'i64')
        if a[0] == 'i' and b[0] == 'i':
            i, k = a[1].single(), b[1].const()
            if i is not None and ATOMS[i].key[0] == 'xor' and (pred, k) in (('slt', 0), ('sgt', -1), ('sge', 0)):
                x, y = ATOMS[i].key[1:3]            # the signs differ
                c = ('or', ('and', ('ge', -x - 1), ('ge', y)), ('and', ('ge', x), ('ge', -y - 1)))
                return c if pred == 'slt' else ('not', c)
        return Interp.icmp(s, st, pred, a, b, ty)

    def cast(s, st, i, v):
        if i.op == 'ptrtoint' and v[0] == 'p' and s.isptr and not is_null(st.res(v)):
            return ('i', s.addr(st.res(v)))
        if i.op == 'trunc' and v[0] == 'i' and i.ty != 'i1' and v[1].const() is None:
            w = width(i.ty)
            if not (st.ge(v[1] + 2 ** (w - 1)) and st.ge(2 ** (w - 1) - 1 - v[1])):
                s.lossy.append(i)
                return ('i', Poly.a(fresh_atom('truncated', -2 ** (w - 1), 2 ** (w - 1) - 1, w)))
        if i.op == 'fptosi' and v[0] == 'f':
            s.lossy.append(i)
        if i.op == 'fptrunc' and v[0] == 'f':
            r = Interp.cast(s, st, i, v)
            if r != v:
                s.lossy.append(i)
            return r
        return Interp.cast(s, st, i, v)

    def arith(s, fn, i, st):
        out = Interp.arith(s, fn, i, st)
        if i.op == 'ashr':
            for x in out:
                a, k = s.op(x, i.ops[0]), s.op(x, i.ops[1])
                if a[0] == 'i' and k[0] == 'i' and k[1].const() == width(i.ty) - 1:      # sign mask
                    x.env[i.id] = ('i', Poly.a(atom(('b2i', ('ge', -a[1] - 1), -1), 'b2i', -1, 0)))
        if i.op in ('add', 'sub', 'mul', 'shl') and i.ty != 'i1':
            for x in out:
                v = x.env.get(i.id)
                if v is not None and v[0] == 'i' and v[1].const() is None:
                    r = v[1]; w = width(i.ty)
                    if not (x.ge(r + 2 ** (w - 1)) and x.ge(2 ** (w - 1) - 1 - r)) and not (x.ge(r) and x.ge(2 ** w - 1 - r)):
                        s.lossy.append(i)
                        x.env[i.id] = ('i', Poly.a(fresh_atom('wrapped', -2 ** (w - 1), 2 ** (w - 1) - 1, w)))
        return out

    def on_store(s, st, inst, ptr, val, size):
        p = st.res(ptr)
        r = st.reg.get(p[1]) if p[0] == 'p' else None
        if r is None or r.kind != 'stack':
            s.stores.append(inst)

    def on_memcpy(s, st, i, d, sr, n, kind):
        s.on_store(st, i, d, None, None)

    def on_indirect(s, st, inst, fv, args):
        v = s.fresh(inst.ty, 'cmp')
        s.indirect.append((fv, args, v))
        st.log = st.log + (('cmp', fv, tuple(st.res(a) for a in args), v),)
        return [(st, v)]


def resolve(A, st, p, depth=0):
    """substitute booleans widened to integers that the state decides; split on those it does not"""
    for i in p.atoms():
        k = ATOMS[i].key
        if k[0] == 'b2i':
            one = k[2] if len(k) > 2 else 1
            d = A.decide(st, k[1])
            if d is not None:
                return resolve(A, st, p.subst({i: Poly.c(one if d else 0)}), depth)
            if depth < 6:
                out = []
                for t in (True, False):
                    for s2 in A.assume(st.copy(), k[1], t):
                        out += resolve(A, s2, p.subst({i: Poly.c(one if t else 0)}), depth + 1)
                return out
    return [(st, p)]


def feasible(A, st):
    return not st.ge(Poly.c(-1))


def judge(A, R, fn, outs, orders, what, lossy_ok=()):
    """orders: list of (name, [refinements in sequence], want) ; refinement = condition assumed true"""
    for st, v in outs:
        path = ['%s branch %s' % (t[0], t[1]) for t in st.trace]
        for name, conds, want in orders:
            sts = [st.copy()]
            for c in conds:
                sts = [y for x in sts for y in A.assume(x, c, True)]
            for x in sts:
                if not feasible(A, x):
                    continue
                R.add('order_obligations')
                if v is None or v[0] not in ('i', 'b'):
                    R.undecided.append('%s: result not followed' % fn.name); continue
                for y, p in resolve(A, x, A.toint(v)):
                    if not feasible(A, y):
                        continue
                    ok = y.ge(p - 1) if want > 0 else y.eq0(p) if want == 0 else y.ge(-p - 1)
                    if ok:
                        continue
                    k = p.const()
                    wrong = k is not None or (y.ge(p) and want < 0 or y.ge(-p) and want > 0 or y.ne0(p) and want == 0)
                    w = {1: 'a positive', 0: 'a zero', -1: 'a negative'}[want]
                    if wrong or A.lossy:
                        ls = sorted(set(i.loc() for i in A.lossy))
                        R.violation('order', fn.loc(), '%s does not give %s result when %s%s' % (fn.name, w, name, ' (the result relies on arithmetic that can wrap or be rounded at %s)' % ', '.join(ls) if A.lossy and not wrong else ': it returns %s' % p),
                                    key='order|%s|%s' % (fn.name, name), path=path)
                    else:
                        R.undecided.append('%s: result %s when %s' % (fn.name, p, name))


def purity(A, R, fn):
    for i in A.stores:
        R.violation('pure', i.loc(), '%s writes memory while comparing' % fn.name, key='pure|%s' % fn.name)


def two_cells(fn):
    st = State(); ptrs = []
    for k in (0, 1):
        b = ('arg', fn.name, 'side%d' % k)
        st.nul[b] = 'nonnull'; st.reg[b] = Region('input', None)
        ptrs.append(('p', b, ZERO))
    return st, ptrs


def scalar_value(ty, k, unsigned=False):
    if ty in ('double', 'float'):
        return ('f', ('sym', 'v%d' % k, ty))
    if ty == 'ptr':
        return ('p', ('val', k), ZERO)
    w = int(ty[1:])
    lo, hi = (0, 2 ** w - 1) if unsigned else (-2 ** (w - 1), 2 ** (w - 1) - 1)
    return ('i', Poly.a(atom(('cmpval', k, ty, unsigned), 'ab'[k], lo, hi, w)))


def orders_of(A, ty, a, b):
    if ty in ('double', 'float'):
        return [('the first is greater', ('fc', 'ogt', a[1], b[1]), 1), ('they are equal', ('fc', 'oeq', a[1], b[1]), 0), ('the first is smaller', ('fc', 'olt', a[1], b[1]), -1)]
    if ty == 'ptr':
        x, y = A.addr(a), A.addr(b)
    else:
        x, y = a[1], b[1]
    return [('the first is greater', ('ge', x - y - 1), 1), ('they are equal', ('eq', x - y), 0), ('the first is smaller', ('ge', y - x - 1), -1)]


def run_scalar(R, prog, name, ty, indirect):
    fn = prog.get(name)
    A = CmpAI(prog); A.isptr = ty == 'ptr'
    st, ptrs = two_cells(fn)
    vals = []
    for k, p in enumerate(ptrs):
        v = scalar_value(ty, k); vals.append(v)
        if indirect:
            q = ('p', ('pointee', k), ZERO)
            st.nul[q[1]] = 'nonnull'; st.reg[q[1]] = Region('input', Poly.c(SZ[ty]))
            st.heap.setdefault(p[1], {})[ZERO] = (q, 8, 'ptr')
            st.heap.setdefault(q[1], {})[ZERO] = (v, SZ[ty], ty)
        else:
            if ty == 'ptr':
                st.nul[v[1]] = 'nonnull'
            st.heap.setdefault(p[1], {})[ZERO] = (v, SZ[ty], ty)
    outs = A.run(fn, st, ptrs)
    finish(A, R, fn, outs)
    judge(A, R, fn, outs, [(n, [c], w) for n, c, w in orders_of(A, ty, *vals)], ty)
    purity(A, R, fn)
    R.add('comparators')


def finish(A, R, fn, outs):
    if not outs:
        raise AnalysisBroken('no exit of %s' % fn.name)
    R.add('abstract_exits', len(outs))


def fields_of(prog, rec):
    di = prog.ditypes.get(rec)
    if not di:
        raise AnalysisBroken('record %s not found' % rec)
    return {f['name']: f for f in di['fields']}, di['size']


def uns(f):
    return f['canon'].startswith(('unsigned', 'uint', 'size_t'))


def irty(f):
    c = f['canon']
    if 'double' in c:
        return 'double'
    if 'float' in c:
        return 'float'
    if '*' in c:
        return 'ptr'
    return 'i%d' % (8 * f['size'])


def run_cluster(R, prog):
    fn = prog.get('cluster_compare')
    F, size = fields_of(prog, 'Cluster')
    lt = irty(F['label'])
    for case in ('both', 'first NULL', 'second NULL', 'both NULL'):
        A = CmpAI(prog); A.isptr = False
        st, ptrs = two_cells(fn)
        vals = []
        for k, p in enumerate(ptrs):
            isnull = case == 'both NULL' or case == ('first NULL', 'second NULL')[k]
            if isnull:
                st.heap.setdefault(p[1], {})[ZERO] = (NULL, 8, 'ptr'); vals.append(None); continue
            q = ('p', ('cluster', k), ZERO); v = scalar_value(lt, k, uns(F['label'])); vals.append(v)
            st.nul[q[1]] = 'nonnull'; st.reg[q[1]] = Region('input', Poly.c(size)); st.btype[q[1]] = 'struct.Cluster'
            st.heap.setdefault(p[1], {})[ZERO] = (q, 8, 'ptr')
            st.heap.setdefault(q[1], {})[Poly.c(F['label']['off'])] = (v, F['label']['size'], lt)
        outs = A.run(fn, st, ptrs)
        finish(A, R, fn, outs)
        if case == 'both':
            judge(A, R, fn, outs, [(n.replace('the first', "the first cluster's label").replace('they', 'the labels'), [c], w) for n, c, w in orders_of(A, lt, *vals)], lt)
        else:
            w = {'first NULL': -1, 'second NULL': 1, 'both NULL': 0}[case]
            judge(A, R, fn, outs, [('%s cluster is missing' % case.split()[0], [], w)], lt)
        for f in A.findings.values():
            R.violation('null', fn.loc(), 'cluster_compare: %s (%s)' % (f.msg, case), key='null|cluster_compare|' + case)
        purity(A, R, fn)
    R.add('comparators')


def run_outlier(R, prog):
    fn = prog.get('outlier_score_compare')
    rec = 'OutlierScore'
    F, size = fields_of(prog, rec)
    A = CmpAI(prog); A.isptr = False
    st, ptrs = two_cells(fn)
    V = {}
    for k, p in enumerate(ptrs):
        st.reg[p[1]].size = Poly.c(size)
        for n, f in F.items():
            t = irty(f)
            v = ('f', ('sym', n, k)) if t in ('double', 'float') else scalar_value(t, k, uns(f))
            V[n, k] = v; st.heap.setdefault(p[1], {})[Poly.c(f['off'])] = (v, f['size'], t)
    outs = A.run(fn, st, ptrs)
    finish(A, R, fn, outs)
    sc, cd, di = [orders_of(A, irty(F[n]), V[n, 0], V[n, 1]) for n in ('score', 'coreDistance', 'id')]
    orders = [('scores: ' + n, [c], w) for n, c, w in sc if w]
    orders += [('scores equal, core distances: ' + n, [sc[1][1], c], w) for n, c, w in cd if w]
    orders += [('scores and core distances equal, ids: ' + n, [sc[1][1], cd[1][1], c], w) for n, c, w in di]
    judge(A, R, fn, outs, orders, 'outlier')
    purity(A, R, fn)
    R.add('comparators')


def run_entry(R, prog):
    """entries are ordered by their keys through the table's own key comparison, unchanged"""
    fn = prog.get('hashtable_entry_compare')
    F, size = fields_of(prog, 'HTBL_ENTRY')
    A = CmpAI(prog); A.isptr = False
    st, ptrs = two_cells(fn)
    keys = []
    for k, p in enumerate(ptrs):
        q = ('p', ('entry', k), ZERO)
        st.nul[q[1]] = 'nonnull'; st.reg[q[1]] = Region('input', Poly.c(size))
        st.heap.setdefault(p[1], {})[ZERO] = (q, 8, 'ptr')
        kv = ('p', ('key', k), ZERO); keys.append(kv); st.nul[kv[1]] = 'nonnull'
        st.heap.setdefault(q[1], {})[Poly.c(F['key']['off'])] = (kv, 8, 'ptr')
        st.heap[q[1]][Poly.c(F['key_compare']['off'])] = (('p', ('keycmp',), ZERO), 8, 'ptr')
    outs = A.run(fn, st, ptrs)
    finish(A, R, fn, outs)
    for x, v in outs:
        R.add('order_obligations')
        calls = [e for e in x.log if e[0] == 'cmp']
        good = calls and calls[-1][1] == ('p', ('keycmp',), ZERO) and v is not None and v[0] == 'i'
        if not calls:
            R.violation('order', fn.loc(), 'hashtable_entry_compare does not compare the keys', key='order|entry|nocall'); continue
        if not good:
            R.undecided.append('hashtable_entry_compare: result not followed'); continue
        a = [y[1] for y in calls[-1][2]]
        sign = 1 if a == [('key', 0), ('key', 1)] else -1 if a == [('key', 1), ('key', 0)] else 0
        if not sign:
            R.violation('order', fn.loc(), 'hashtable_entry_compare compares something other than the keys of the two entries', key='order|entry|keys'); continue
        c = calls[-1][3][1]
        for nm, cond, w in (('positive', ('ge', c - 1), 1), ('zero', ('eq', c), 0), ('negative', ('ge', -c - 1), -1)):
            for y in A.assume(x.copy(), cond, True):
                for z, p in resolve(A, y, v[1]):
                    want = w * sign
                    ok = z.ge(p - 1) if want > 0 else z.eq0(p) if want == 0 else z.ge(-p - 1)
                    if not ok and feasible(A, z):
                        R.violation('order', fn.loc(), 'hashtable_entry_compare returns %s when the key comparison is %s' % (p, nm), key='order|entry|' + nm)
    purity(A, R, fn)
    R.add('comparators')


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('core', cfg)
        for n in sorted(f.name for f in prog.defined()):
            m = re.match(r'^(int|short|long|char|double|float)(_ptr)?_compare$', n)
            if m:
                run_scalar(R, prog, n, SCALAR[m.group(1)], bool(m.group(2)))
        run_scalar(R, prog, 'ptr_compare', 'ptr', False)
        run_cluster(R, prog); run_outlier(R, prog); run_entry(R, prog)
    R.need('comparators', 16); R.need('order_obligations', 50)
    R.assumptions += ['no operand is a NaN', 'addresses are ordered as unsigned integers', 'entries compared belong to tables with the same key comparison']
