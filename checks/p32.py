"""Cluster statistics.  (1) moments: the computation is interpreted over two arbitrary arrays; every loop variable that ends up
in the result is summarised as a sum of g(x_i) or a maximum over a range, shown for every path of a pass, and every field of
the result, a term over these summaries, is compared with its definition (identity testing over the rationals).  (2) the
ratios handed to it and the confidences made from it, for every label of the map.  (3) the assessment: its value on every
combination of signs of the four measures."""
from hierdom import *
from p30 import Ctx
from fractions import Fraction as F
import itertools, re, math

SIZES = {'short': 2, 'int': 4, 'long': 8, 'unsigned short': 2, 'unsigned int': 4, 'unsigned long': 8}
SV, CS, DV = 'stats_values', '_clustering_stats', 'distance_values'
FIELDS = ('mean', 'max', 'variance', 'standardDev', 'skewness', 'kurtosis')


class StatAI(HierAI):
    LOOPP = 16

    def __init__(s, prog):
        HierAI.__init__(s, prog)
        s.hooks['hdbscan_calculate_stats_helper'] = StatAI.h_helper

    def h_helper(s, st, i, a):
        s.log(st, 'helper', st.res(a[0]), st.res(a[1]), st.res(a[2]), i)
        b = st.res(a[2])[1]
        cells = st.heap.setdefault(b, {})
        c0 = cells.get(ZERO)
        s.bulk_write(st, ('p', b, ZERO))
        if c0 is not None:
            st.heap.setdefault(b, {})[ZERO] = c0
        return [(st, None if i.ty == 'void' else s.fresh(i.ty))]

    def on_store(s, st, inst, ptr, val, size):
        p = st.res(ptr)
        if p[0] == 'p':
            st.log = st.log + (('store', p, val, size, inst),)


def fields(prog):
    """offset of every field of the two groups in the statistics"""
    top = {f['name']: f['off'] for f in prog.ditypes[CS]['fields']}
    sub = {f['name']: f['off'] for f in prog.ditypes[SV]['fields']}
    return {(g, n): Poly.c(top[g] + sub[n]) for g in ('coreDistanceValues', 'intraDistanceValues') for n in FIELDS}, Poly.c(top['count'])


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('core', cfg)
        for f, nm in ((moments, 'hdbscan_calculate_stats_helper'), (ratios, 'hdbscan_calculate_stats'), (assess, 'hdbscan_analyse_stats')):
            fn = prog.fns.get(nm)
            if fn is None:
                R.undecided.append('%s not found' % nm); continue
            R.add('functions')
            f(R, prog, fn, cfg)
    R.need('functions', 1)
    R.assumptions += ['at least two clusters (the variance of one is not defined)', 'sums over the reals: rounding is not judged', 'every label of the map has a record', 'fewer than 2^31 clusters (2^16 with 16 bit numbers)']


def stats_rec(A, st, prog, cfg):
    b = ('rec', 'stats'); d = prog.ditypes[CS]
    st.nul[b] = 'nonnull'; st.reg[b] = Region('input', Poly.c(d['size']))
    w = SIZES[cfg['INDEX_TYPE']]
    off, co = fields(prog)
    A.n = Poly.a(atom(('init', 'stats', 'count', 8 * w), 'count', 0, 2 ** (8 * w) - 1 if w < 8 else None, 8 * w))
    st.heap[b] = {co: (('i', A.n), w, 'i%d' % (8 * w))}
    fz = 8 if cfg['DISTANCE_TYPE'] == 'double' else 4
    for (g, n), o in off.items():
        st.heap[b][o] = (('f', ('init', g, n)), fz, cfg['DISTANCE_TYPE'])
    return ('p', b, ZERO)


def fslots(A, lp):
    """floating point loop variables: (slot, value before, symbol at the head)"""
    for i in lp.fn.blocks[lp.header].insts:
        if i.op != 'phi':
            break
        v0, v = lp.S0.env.get(i.id), lp.H.env.get(i.id)
        if v0 and v and v0[0] == 'f' and v[0] == 'f' and v0 != v:
            yield ('phi', i.id), v0[1], v[1]
    for b, cells in lp.H.heap.items():
        z = lp.S0.heap.get(b, {})
        for o, (v, sz, ty) in cells.items():
            i = z.get(o)
            if i is not None and i[0] != v and i[0][0] == 'f' and v[0] == 'f':
                yield ('cell', b, o), i[0][1], v[1]


def leavesof(t):
    if isinstance(t, tuple) and t:
        if t[0] == 'const':
            return
        if t[0] in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fpext', 'fptrunc', 'fabs'):
            for x in t[1:]:
                yield from leavesof(x)
            return
        if t[0] == 'call':
            for x in t[2:]:
                yield from leavesof(x)
            return
        if t[0] == 'i2f':
            return
        yield t


SQRT = re.compile(r'(sqrt[fl]?|llvm\.sqrt\..*)$')


def ev(t, leaf):
    """feval with exact square roots"""
    def lf(x):
        v = leaf(x)
        if v is not None:
            return v
        if isinstance(x, tuple) and x and x[0] == 'call' and len(x) == 3 and SQRT.match(x[1]):
            return root(ev(x[2], leaf))
        if isinstance(x, tuple) and x and x[0] in ('sqrt', 'fsqrt') and len(x) == 2:
            return root(ev(x[1], leaf))
        return None
    return feval(t, lf)


def root(a):
    if a < 0:
        raise NotPoly('root')
    p, q = math.isqrt(a.numerator), math.isqrt(a.denominator)
    if p * p != a.numerator or q * q != a.denominator:
        raise NotPoly('root')
    return F(p, q)


def xof(A, t, cfg):
    """(array, index polynomial) when t is an element of one of the arrays"""
    if isinstance(t, tuple) and t[0] == 'ld' and isinstance(t[1], tuple) and t[1][0] == 'arr':
        k = t[2][1]
        q = exact_div(k, Poly.c(A.fz)) if k.t else ZERO
        return (t[1][1], q) if q is not None else None
    return None


def moments(R, prog, fn, cfg):
    A = StatAI(prog)
    A.fz = 8 if cfg['DISTANCE_TYPE'] == 'double' else 4
    del A.hooks['hdbscan_calculate_stats_helper']
    st = State(); rec = stats_rec(A, st, prog, cfg)
    arr = []
    for k in ('cr', 'dr'):
        b = ('arr', k); st.nul[b] = 'nonnull'; st.reg[b] = Region('heap', None, 'sym'); arr.append(('p', b, ZERO))
    if len(fn.args) != 3:
        R.undecided.append('parameters of the computation'); return
    n = A.n
    off, co = fields(prog)
    zero = st.copy(); zero.add_ge(-n)
    for x, v in A.run(fn, zero, arr + [rec]):
        R.add('empty_results')
        for (g, f), o in off.items():
            c = x.heap.get(('rec', 'stats'), {}).get(o)
            v = c[0][1] if c is not None and c[0][0] == 'f' else None
            k = v[1] if isinstance(v, tuple) and v[0] == 'const' else None
            if k is None or k != k or abs(k) == float('inf'):
                # memset may leave no cell
                if c is not None and (v == ('init', g, f) or k is not None):
                    bad(R, 'empty', fn.loc(), '%s is not set when there is nothing to measure' % f)
    A.loops = []
    st.add_ge(n - 2)
    outs = A.run(fn, st, arr + [rec])
    sums = {}
    for lp in A.loops:
        summarise(R, A, lp, n, cfg, sums)
    for x, v in outs:
        R.add('results')
        for g, a in (('coreDistanceValues', 'cr'), ('intraDistanceValues', 'dr')):
            for f in FIELDS:
                c = x.heap.get(('rec', 'stats'), {}).get(off[(g, f)])
                t = c[0][1] if c is not None and c[0][0] == 'f' else None
                if t is None:
                    R.undecided.append('field ' + f); continue
                field(R, A, fn, f, a, t, n, sums, cfg)


def bad(R, rule, where, msg, L=None, k=0):
    R.violation(rule, where, msg, key='%s|%s' % (rule, msg[:110]), path=['%s branch %s' % (t[0], t[1]) for t in L.trace[k:] if t[0] != 'loop'] if L is not None else None)


def summarise(R, A, lp, n, cfg, sums):
    """kinds of the floating point variables of a loop: sums[symbol] = (('sum', array, power) | ('max', array), location)"""
    H = lp.H
    ctr = None
    early = []
    for k in A.counter(lp, [n, ZERO, ONE], early):
        if (k[2] == n or H.eq0(k[2] - n)) and k[1].const() in (0, 1):
            ctr = (k[0], k[1].const()); break
    kk = A.counter(lp, [n, ZERO, ONE], [])
    for slot, v0, sym in fslots(A, lp):
        R.add('loop_variables')
        if ctr is None:
            if kk and all(k[1].atoms() | k[2].atoms() <= n.atoms() for k in kk):
                sums[sym] = (('range', kk[0][1], kk[0][2]), lp)
            elif early:
                sums[sym] = (('early',), lp)
            continue
        i, lo = ctr
        kinds = set()
        for L in lp.latch:
            nv = A.slot_value(L, slot, True)
            kinds.add(step(A, lp, L, sym, nv[1] if nv is not None and nv[0] == 'f' else None, i, sums, cfg, n))
        if kinds == {None}:
            continue
        if ('keep',) in kinds:
            kinds.discard(('keep',))
            keeps = [L for L in lp.latch if A.slot_value(L, slot, True) is not None and A.slot_value(L, slot, True)[1] == sym and step(A, lp, L, sym, sym, i, sums, cfg, n) == ('keep',)]
            r = [skips(A, H, L, sym, i, sums, n, k, set(f[2] for f in fslots(A, lp))) for L in keeps for k in kinds if k is None or k[0] != 'keepmax']
            if None in kinds or None in r:
                continue
            if kinds and True in r:
                sums[sym] = (('leftout',), lp)
                continue
        ks = set(k[:3] for k in kinds if k)
        if None in kinds or len(ks) != 1:
            mx = set(k for k in kinds if k)
            if None not in kinds and all(k[0] in ('max', 'keepmax') for k in mx) and len(set(k[1] for k in mx)) == 1 and any(k[0] == 'max' for k in mx):
                a = list(mx)[0][1]
                wrong = [k for k in mx if k[-1] == 'bad']
                k = ('max', a) if not wrong else ('notmax', a)
            elif None not in kinds and len(ks) > 1:
                k = ('mixed',)
            else:
                continue
        else:
            k = list(ks)[0]
            if k[0] in ('max', 'keepmax'):
                w = [z for z in kinds if z and z[-1] == 'bad']
                k = ('max', k[1]) if k[0] == 'max' and not w else ('notmax', k[1])
        # the start
        sums[sym] = (start(A, lp, k, v0, lo, sums, cfg, n), lp)


def skips(A, H, L, sym, i, sums, n, k, heads):
    """can a pass leave a value out that counts?"""
    if k is None or k[0] not in ('sum', 'max'):
        return None
    new = [(q, r) for q, r in L.ford.items() if H.ford.get(q) != r]
    na = n.single()
    oth = sorted(set(t for (p, q), r in new for z in (p, q) for t in leavesof(z) if t != sym and t not in sums and t in heads), key=repr)
    if len(oth) > 3:
        return None
    for (x, s1), *ov in itertools.product(((F(9), F(2)), (F(2), F(9)), (F(3), F(-4)), (F(100), F(0)), (F(10) ** 400, F(2))), *[(F(-10 ** 6), F(10 ** 6))] * len(oth)):
        ov = dict(zip(oth, ov))
        if k[0] == 'max' and k[1:2] and x < 3:
            continue
        other = {'cr': F(31, 3), 'dr': F(29, 7)}

        def leaf(t):
            if t == sym:
                return F(1)
            if t in ov:
                return ov[t]
            e = xof(A, t, None)
            if e is not None:
                return x if e[0] == k[1] and e[1] == i else other[e[0]]
            if t in sums:
                return s1 if sums[t][0][:2] == ('sum', k[1]) else F(17)
            if isinstance(t, tuple) and t[0] == 'int':
                return F(4) if t[1] == na else None
            return None
        try:
            if all(('<' if ev(p, leaf) < ev(q, leaf) else '>' if ev(p, leaf) > ev(q, leaf) else '=') in r for (p, q), r in new):
                return True
        except NotPoly:
            return None
    return False


def start(A, lp, k, v0, lo, sums, cfg, n):
    c = v0[1] if isinstance(v0, tuple) and v0[0] == 'const' else None
    x0 = xof(A, v0, cfg)
    if isinstance(v0, tuple) and v0[0] == 'init' and k[0] in ('sum', 'max'):
        return ('start', k)
    if k[0] == 'sum':
        if lo == 0:
            if c == 0:
                return k
            return ('start', k) if c is not None or x0 is not None else ('?',)
        if x0 is not None and x0[1].const() == 0 and x0[0] == k[1] and k[2] == 1:
            return k
        return ('start', k) if c is not None or x0 is not None else ('?',)
    if k[0] == 'max':
        if x0 is not None:
            return k if x0[0] == k[1] and x0[1].const() in (0, lo) else ('start', k)
        if c is not None:
            return k if lo == 0 and c <= 0 else ('start', k)
        return ('?',)
    return k


def step(A, lp, L, sym, nv, i, sums, cfg, n):
    """('sum', array, power) | ('max', array, ..., ok|bad) | ('keep',) | None"""
    if nv is None:
        return None
    H = lp.H
    xs = [t for t in set(leavesof(nv)) if xof(A, t, cfg)]
    conds = [(k, r) for k, r in L.ford.items() if H.ford.get(k) != r]
    cx = set(t for (a, b), r in conds for t in list(leavesof(a)) + list(leavesof(b)) if (sym in (set(leavesof(a)) | set(leavesof(b)))))
    mine = any(sym in set(leavesof(a)) | set(leavesof(b)) for (a, b), r in conds)
    if nv == sym and not mine:
        return ('keep',)
    if mine or nv in xs:
        el = set(t for t in list(cx) + xs if xof(A, t, cfg) and xof(A, t, cfg)[1] == i)
        others = set(t for t in list(cx) + xs if t != sym and t not in el)
        arrs = set(xof(A, t, cfg)[0] for t in el)
        if others or len(arrs) != 1:
            if others and all(xof(A, t, cfg) for t in others):
                return ('max', '?', '', 'bad')
            return None if not el or others else ('max', '?', '', 'bad')
        a = list(arrs)[0]
        okay = True; seen = False
        for m, v in itertools.product((F(1), F(2), F(3)), repeat=2):
            def leaf(t):
                return m if t == sym else v if t in el else None
            try:
                if any(('<' if ev(p, leaf) < ev(q, leaf) else '>' if ev(p, leaf) > ev(q, leaf) else '=') not in r for (p, q), r in conds if sym in set(leavesof(p)) | set(leavesof(q))):
                    continue
                seen = True
                if ev(nv, leaf) != max(m, v):
                    okay = False
            except NotPoly:
                return None
        return ('max' if nv != sym else 'keepmax', a, '', 'ok' if okay else 'bad')
    el = [t for t in xs if xof(A, t, cfg)[1] == i]
    if len(el) != 1 or len(xs) != 1:
        return ('sum', '?', 0) if xs and all(t in xs or t == sym for t in leavesof(nv)) and len(xs) != len(el) else None
    a = xof(A, el[0], cfg)[0]
    rest = [t for t in set(leavesof(nv)) if t not in el and t != sym]
    mean = [t for t in rest if t in sums and sums[t][0] == ('sum', a, 1)]
    wrongmean = [t for t in rest if t not in mean]
    if wrongmean and not all(t in sums for t in wrongmean):
        return None
    na = n.single()
    res = set()
    for p in (1, 2, 3, 4):
        good = True
        for x, s1, N, acc in ((F(7), F(10), 4, F(0)), (F(2), F(9), 5, F(11)), (F(-3), F(1), 2, F(1, 2))):
            def leaf(t):
                if t == sym:
                    return acc
                if t in el:
                    return x
                if t in mean:
                    return s1
                if t in wrongmean:
                    return F(97, 13)
                if isinstance(t, tuple) and t[0] == 'int':
                    return F(N) if t[1] == na else None
                return None
            try:
                g = ev(nv, leaf) - acc
            except NotPoly:
                return None
            if g != (x if p == 1 else (x - s1 / N) ** p):
                good = False; break
        if good:
            return ('sum', a, p)
    return ('sum', '?', 0)


def field(R, A, fn, f, a, t, n, sums, cfg):
    """is the term the definition of field f over array a?"""
    R.add('fields')
    ls = set(leavesof(t))
    unk = [s for s in ls if s not in sums and xof(A, s, cfg) is None and s[0] != 'init']
    if unk:
        R.undecided.append('value of ' + f); return
    init = [s for s in ls if s[0] == 'init']
    if init or any(xof(A, s, cfg) for s in ls):
        bad(R, 'moment', fn.loc(), '%s of the %s is not computed from all values' % (f, NAME[a])); return
    for s in ls:
        k, lp = sums[s]
        if k[0] == '?':
            R.undecided.append('start of a sum'); return
        if k[0] == 'range':
            bad(R, 'moment', lp.loc(), 'values %s to %s only enter %s of the %s' % (k[1], k[2] - 1, f, NAME[a])); return
        if k[0] == 'early':
            bad(R, 'moment', lp.loc(), 'the loop for %s of the %s can stop before the last value' % (f, NAME[a])); return
        if k[0] in ('start', 'mixed', 'notmax', 'leftout') or k[:2] in (('sum', '?'), ('max', '?')):
            bad(R, 'moment', lp.loc(), '%s of the %s is not the definition: %s' % (f, NAME[a], {'leftout': 'values are left out', 'start': 'it does not start right', 'mixed': 'the passes do not agree', 'notmax': 'the maximum is not kept', 'sum': 'what is summed up is not a power of the difference to the mean', 'max': 'the maximum is taken of something else'}[k[0]])); return
    na = n.single()
    for N, s1, r, s3, s4, m in ((5, F(10), F(3), F(7), F(11), F(4)), (3, F(4), F(1, 2), F(-5), F(13), F(9)), (10, F(-7), F(2), F(3), F(1), F(2))):
        s2 = r * r * (N - 1)
        other = {'cr': F(1009, 7), 'dr': F(2003, 11)}

        def leaf(t):
            if t in sums:
                k = sums[t][0]
                if k[1] != a:
                    return other[k[1]] * (k[2] if k[0] == 'sum' else 5)
                return m if k[0] == 'max' else (s1, s2, s3, s4)[k[2] - 1]
            if isinstance(t, tuple) and t[0] == 'int':
                return F(N) if t[1] == na else None
            return None
        want = {'mean': s1 / N, 'max': m, 'variance': r * r, 'standardDev': r, 'skewness': s3 / (N * r ** 3), 'kurtosis': s4 / (N * r ** 4) - 3}[f]
        try:
            got = ev(t, leaf)
        except NotPoly as e:
            if str(e) == 'root' :
                bad(R, 'moment', fn.loc(), '%s of the %s is not the definition (root of something else)' % (f, NAME[a])); return
            R.undecided.append('value of ' + f); return
        if got != want:
            bad(R, 'moment', fn.loc(), '%s of the %s is not the definition (%s instead of %s for %d values)' % (f, NAME[a], got, want, N)); return


NAME = {'cr': 'core distance ratios', 'dr': 'distance ratios'}


# ---- ratios and confidences
def ratios(R, prog, fn, cfg):
    A = StatAI(prog)
    A.fz = 8 if cfg['DISTANCE_TYPE'] == 'double' else 4
    lsz = SIZES[cfg['LABEL_TYPE']]
    st = State(); rec = stats_rec(A, st, prog, cfg)
    t = A.record(st, 'map', 'HASHTABLE_')
    A.put(st, 'map', 'HASHTABLE_', 'keys', A.list_of(st, 'keys'))
    n = A.init['keys']['size'][1]
    A.put(st, 'map', 'HASHTABLE_', 'size', ('i', n)) if False else None
    A.hooks['hashtable_size'] = lambda A, st, i, a: [(st, A.load_q(st, None, ('p', A.init['map']['keys'][1], A.LO['size']), 'i64', 8))] if st.res(a[0]) == t else None
    old = A.hooks['hashtable_lookup']

    def lk(A, st, i, a):
        out = HierAI.h_lookup(A, st, i, a)
        return ([(x, v) for x, v in out if not (v[0] == 'i' and v[1].const() == 0)] or out) if st.res(a[0]) == t else out
    A.hooks['hashtable_lookup'] = lk
    st.add_ge(Poly.c(2 ** min(8 * SIZES[cfg['INDEX_TYPE']], 31) - 1) - n)
    outs = A.run(fn, st, [t, rec])
    A.frozen = True
    off, co = fields(prog)
    dv = {f['name']: f['off'] for f in prog.ditypes[DV]['fields']}
    keyb = A.init['keys']['data'][1]

    def recof(L, lp, b, i, what):
        """is b the record of label i?"""
        for e in L.log[len(lp.H.log):]:
            if e[0] == 'get' and e[3] is not None and e[3][0] == 'p' and e[3][1] == b:
                g = A.org(e[2]) if e[2] is not None else None
                if g is None:
                    return None
                return g[0] == keyb and (g[1] == i * lsz or L.eq0(g[1] - i * lsz))
        return None
    seen = set()
    for x, v in outs:
        R.add('results')
        hs = [e for e in x.log if e[0] == 'helper']
        if len(hs) != 1:
            (bad(R, 'ratios', fn.loc(), 'the statistics are computed %d times' % len(hs)) if not hs and not any(q.decl for q in ()) else R.undecided.append('computation')); continue
        h = hs[0]
        if h[3] != rec:
            bad(R, 'ratios', h[4].loc(), 'the statistics go somewhere else')
        c = x.heap.get(('rec', 'stats'), {}).get(co)
        cnt = c[0][1] if c is not None and c[0][0] == 'i' else None
        if cnt is None or not (cnt == n or x.eq0(cnt - n) or ('trunc' in repr(cnt) or 'tr' in repr(cnt)) and cnt != A.n):
            (bad(R, 'ratios', fn.loc(), 'the number of values is not that of the clusters') if cnt == A.n or cnt is not None and cnt.atoms() <= n.atoms() else R.undecided.append('number of values'))
        fill = {}
        for lp in A.loops_of(x):
            before = not any(e[0] == 'helper' for e in lp.H.log)
            i, why = A.steps_over(lp, ZERO, n)
            acts = [e for L in lp.latch for e in A.tail(lp, L) if e[0] == 'store' and (e[1][1] in (h[1][1], h[2][1]) or e[1][2].const() in (dv['cr_confidence'], dv['dr_confidence']) and isinstance(e[1][1], tuple) and e[1][1][0] == 'out')]
            if not acts:
                continue
            if i is None:
                (bad(R, 'ratios', lp.loc(), 'the loop over the clusters %s' % why) if why != '?' else R.undecided.append('loop over the clusters'))
                fill[('cr',)] = fill[('dr',)] = fill['cr_confidence'] = fill['dr_confidence'] = lp
                continue
            for L in lp.latch:
                R.add('passes')
                got = {}
                for e in A.tail(lp, L):
                    if e[0] != 'store':
                        continue
                    if e[1][1] in (h[1][1], h[2][1]):
                        got[('cr',) if e[1][1] == h[1][1] else ('dr',)] = e
                    elif isinstance(e[1][1], tuple) and e[1][1][0] == 'out' and e[1][2].const() in (dv['cr_confidence'], dv['dr_confidence']):
                        got['cr_confidence' if e[1][2].const() == dv['cr_confidence'] else 'dr_confidence'] = e
                for k, e in got.items():
                    fill[k] = lp
                    if isinstance(k, tuple):
                        if e[1][2] != i * A.fz and not L.eq0(e[1][2] - i * A.fz):
                            bad(R, 'ratios', e[4].loc(), 'a ratio goes to the place of another cluster', L, len(lp.H.trace)); continue
                        value(R, A, lp, L, e, k[0], dv, i, recof, h, off, False)
                    else:
                        r = recof(L, lp, e[1][1], i, k)
                        if r is False:
                            bad(R, 'confidence', e[4].loc(), 'a confidence goes to the record of another cluster', L, len(lp.H.trace)); continue
                        if r is None:
                            R.undecided.append('record of a cluster'); continue
                        value(R, A, lp, L, e, k[:2], dv, i, recof, h, off, True)
                first = set(z for z in (('cr',), ('dr',), 'cr_confidence', 'dr_confidence') if any(z == q for q in list(got)))
                for M in lp.latch:
                    pass
            for k in (('cr',), ('dr',), 'cr_confidence', 'dr_confidence'):
                has = [any(e[0] == 'store' and (isinstance(k, tuple) and e[1][1] == h[1 if k == ('cr',) else 2][1] or not isinstance(k, tuple) and isinstance(e[1][1], tuple) and e[1][1][0] == 'out' and e[1][2].const() == dv[k]) for e in A.tail(lp, L)) for L in lp.latch]
                if any(has) and not all(has):
                    bad(R, 'ratios', lp.loc(), '%s of a cluster is left out' % (k if not isinstance(k, tuple) else 'the ratio'))
        if x.ge(-n):
            continue
        for k in (('cr',), ('dr',), 'cr_confidence', 'dr_confidence'):
            if k not in fill and not any(A.loops_of(x)) is False:
                if h[1][1] == h[2][1]:
                    R.undecided.append('one array for both'); break
                bad(R, 'ratios', fn.loc(), 'the %s is never computed' % ('ratio' if isinstance(k, tuple) else 'confidence'))


def value(R, A, lp, L, e, kind, dv, i, recof, h, off, conf):
    t = e[2][1] if e[2] is not None and e[2][0] == 'f' else None
    if t is None:
        R.undecided.append('value'); return
    g = 'coreDistanceValues' if kind == 'cr' else 'intraDistanceValues'
    other = 'intraDistanceValues' if kind == 'cr' else 'coreDistanceValues'
    arrb = h[1][1] if kind == 'cr' else h[2][1]
    for samp in ((F(12), F(3), F(8)), (F(7), F(2), F(5)), (F(1), F(9), F(4))):
        mx, mn, M = samp
        flags = []

        def leaf(s):
            if not (isinstance(s, tuple) and s[0] == 'ld'):
                if s in (vf(L, off, (g, 'max')),) and s is not None:
                    return M
                return None
            b, o = s[1], s[2][1]
            if b == ('rec', 'stats'):
                if o == off[(g, 'max')]:
                    return M
                flags.append('another measure'); return F(31, 7)
            if b in (h[1][1], h[2][1]):
                if b != arrb:
                    flags.append('the other ratio'); return F(37, 11)
                if o == i * A.fz or L.eq0(o - i * A.fz):
                    return mx / mn
                flags.append('the ratio of another cluster'); return F(41, 13)
            c = o.const()
            r = recof(L, lp, b, i, kind)
            if r is not None and c is not None:
                if r is False:
                    flags.append('the record of another cluster'); return F(43, 17)
                if c == dv['max_' + kind]:
                    return mx
                if c == dv['min_' + kind]:
                    return mn
                flags.append('another value of the record'); return F(47, 19)
            return None
        want = (M - mx / mn) / M * 100 if conf else mx / mn
        try:
            got = ev(t, leaf)
        except NotPoly:
            R.undecided.append('confidence' if conf else 'ratio'); return
        if got != want:
            bad(R, 'confidence' if conf else 'ratios', e[4].loc(), 'the %s of a cluster is not the definition%s' % ('confidence' if conf else 'ratio', ': it uses ' + flags[0] if flags else ''), L, len(lp.H.trace)); return
    R.add('values')


def vf(L, off, k):
    c = L.heap.get(('rec', 'stats'), {}).get(off[k])
    return c[0][1] if c is not None and c[0][0] == 'f' else None


# ---- assessment
def assess(R, prog, fn, cfg):
    A = StatAI(prog)
    A.fz = 8 if cfg['DISTANCE_TYPE'] == 'double' else 4
    st = State(); rec = stats_rec(A, st, prog, cfg)
    names = [('init', g, f) for g in ('intraDistanceValues', 'coreDistanceValues') for f in ('skewness', 'kurtosis')]
    fc = ('const', 0.0)
    for combo in itertools.product((-1, 0, 1), repeat=4):
        val = dict(zip(names, map(F, combo)))
        z = st.copy()
        for q, c in zip(names, combo):
            x, y, sw = A.fkey(q, fc)
            z.ford[(x, y)] = frozenset('<=>'[c + 1] if not sw else '>=<'[c + 1])
        outs = A.run(fn, z, [rec])
        want = 0
        for s, k in ((combo[0], combo[1]), (combo[2], combo[3])):
            want += 2 if s > 0 and k > 0 else 1 if s < 0 and k > 0 else 0 if s > 0 and k < 0 else -1
        hit = False
        for x, v in outs:
            def leaf(t):
                return val.get(t)
            try:
                if any(('<' if ev(a, leaf) < ev(b, leaf) else '>' if ev(a, leaf) > ev(b, leaf) else '=') not in r for (a, b), r in x.ford.items()):
                    continue
            except NotPoly:
                fl = set(s for (a, b), r in x.ford.items() for z in (a, b) for s in leavesof(z))
                if fl <= set(('init', g, f) for g in ('intraDistanceValues', 'coreDistanceValues') for f in FIELDS) and not fl <= set(names):
                    bad(R, 'assess', fn.loc(), 'the assessment depends on another measure'); return
                R.undecided.append('condition'); return
            hit = True
            k = v[1].const() if v is not None and v[0] == 'i' else None
            if k is None:
                R.undecided.append('assessment'); return
            R.add('assessments')
            if k != want:
                bad(R, 'assess', fn.loc(), 'the assessment is %d instead of %d for distance skewness %s, kurtosis %s, core distance skewness %s, kurtosis %s' % ((k, want) + tuple('<=>'[c + 1] + '0' for c in combo)), x)
        if not hit:
            R.undecided.append('combination of signs')
