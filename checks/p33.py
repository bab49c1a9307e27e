"""Extreme distances of the clusters: the computation is interpreted for an arbitrary map from labels to lists of points, with
containers and distance lookups as events.  Every label of the map is treated, every point of its list enters the core
distance extremes and every pair of different points of the list the distance extremes; each pass is judged on all order
types of (recorded value, new value, zero) its path allows: the recorded value must become the smallest value other than
zero, or the greatest.  What is recorded first is the core distance of the first point and neutral distances."""
from hierdom import *
from p30 import Ctx
from fractions import Fraction as F
import itertools, os

DV = 'distance_values'
MIN = ('min_cr', 'min_dr'); MAX = ('max_cr', 'max_dr')


class MinMaxAI(HierAI):
    LOOPP = 32
    def __init__(s, prog):
        HierAI.__init__(s, prog)
        s.hooks['distance_get'] = MinMaxAI.h_dist
        s.hooks['hashtable_lookup'] = MinMaxAI.h_lookup

    def h_dist(s, st, i, a):
        v = s.fresh(i.ty, 'distance')
        s.log(st, 'dist', v[1], a[1], a[2], i, st.res(a[0]))
        return [(st, v)]

    def h_lookup(s, st, i, a):
        out = HierAI.h_lookup(s, st, i, a)
        if st.res(a[0]) == s.map:            # every label of the map has a list
            out = [(x, v) for x, v in out if not (v[0] == 'i' and v[1].const() == 0)] or out
        return out

    def on_store(s, st, inst, ptr, val, size):
        p = st.res(ptr)
        if p[0] == 'p':
            st.log = st.log + (('store', p, val, size, inst),)


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('core', cfg)
        fn = prog.fns.get('hdbscan_get_min_max_distances')
        if fn is None:
            R.undecided.append('function not found'); continue
        A = MinMaxAI(prog)
        st = State(); sc = A.record(st, 'hdbscan', 'hdbscan')
        t = A.record(st, 'map', 'HASHTABLE_')
        A.put(st, 'map', 'HASHTABLE_', 'keys', A.list_of(st, 'keys'))
        A.map = t; A.sc = sc
        outs = A.run(fn, st, [sc, t])
        A.frozen = True
        outs = [(x, v) for x, v in outs if not failed(x)]
        for lp in A.loops:                   # what happens once memory has run out is P14's concern
            lp.latch = [x for x in lp.latch if not failed(x)]; lp.exits = [x for x in lp.exits if not failed(x)]; lp.rets = [x for x in lp.rets if not failed(x)]
        A.loops = [lp for lp in A.loops if not failed(lp.H)]
        R.add('functions')
        judge(Ctx(R, A, fn, outs, cfg), prog)
    R.need('functions', 1); R.need('results', 1)
    R.assumptions += ['every label of the map has a list', 'distances are not NaN and not negative, and at most the greatest finite number', 'allocations succeed']


def failed(x):
    return any(e[0] in ('allocfail', 'nomem') for e in x.log)


def judge(c, prog):
    A, R, fn = c.A, c.R, c.fn
    core = core_off(prog)
    T = set()
    for x, v in c.outs:
        R.add('results')
        new = [e[1] for e in x.log if e[0] == 'newtable']
        if v is None or v[0] != 'p' or v not in new:
            if v is not None and v[0] == 'p' and x.nullness(v) == 'null':
                continue
            c.und('table returned'); continue
        T.add(v[1])
    by = {}
    for lp in A.loops:
        by.setdefault((lp.header, lp.fn.name), []).append(lp)
    n = A.init['keys']['size'][1]
    outer = {}
    for x, v in c.outs:
        for lp in A.loops_of(x):
            if any(e[0] == 'get' and e[1] == A.map for L in lp.latch for e in A.tail(lp, L)):
                outer[id(lp)] = lp
    if not outer and c.outs:
        (c.bad('labels', fn.loc(), 'no label of the map is treated') if not A.loops else c.und('loop over the labels')); return
    for lp in outer.values():
        i, why = A.steps_over(lp, ZERO, n)
        if i is None:
            (c.bad('labels', lp.loc(), 'the loop over the labels %s' % why) if why != '?' else c.und('loop over the labels')); continue
        for L in lp.latch:
            R.add('label_passes')
            ev = A.tail(lp, L)
            got = [e for e in ev if e[0] == 'get' and e[1] == A.map]
            for e in got:
                g = A.org(e[2]) if e[2] is not None else None
                if g is None:
                    c.und('label looked up'); continue
                if g[0] != A.init['keys']['data'][1] or g[1] != i * c.lsz:
                    c.bad('labels', e[-1].loc(), 'the list looked up is not that of the label treated', L, lp)
            lists = [e[3] for e in got if e[3] is not None]
            if not lists:
                continue
            inner = [q for q in A.loops if len(q.H.trace) > len(lp.H.trace) and q.H.trace[:len(lp.H.trace)] == lp.H.trace and L.trace[:len(q.H.trace)] == q.H.trace and L.log[:len(q.H.log)] == q.H.log and (L.trace[len(q.H.trace):len(q.H.trace) + 1] or [(0, 0, 0, 0)])[0][2:4] == (q.header, q.fn.name)]
            pts = [q for q in inner if depth(q) == depth(lp) + 1]
            if not pts:
                c.bad('points', lp.loc(), 'no point of a list is treated', L, lp); continue
            points(c, pts, lists[-1], T, core, got[-1][2], by)


def depth(lp):
    return sum(1 for t in lp.H.trace if t[0] == 'loop')


def core_off(prog):
    off = {f['name']: f['off'] for f in prog.ditypes['hdbscan']['fields']}
    dd = {f['name']: f['off'] for f in prog.ditypes['Distance']['fields']}
    return Poly.c(off['distanceFunction'] + dd['coreDistances'])


def coreval(A, L, v, core):
    """offset into the core distances a value was read at"""
    g = A.loaded(v)
    if g is None:
        return None
    b = g[0]
    q = L.heap.get(('rec', 'hdbscan'), {}).get(core)
    if q is not None and L.res(q[0])[0] == 'p' and L.res(q[0])[1] == b or isinstance(b, tuple) and b[0] == 'ld' and b[1] == ('rec', 'hdbscan') and b[2][1] == core:
        return g[1]
    return None


def points(c, pts, lst, T, core, key, by):
    A, R = c.A, c.R
    handled = False
    for q in pts:
        if any(e[0] == 'allocfail' for e in q.H.log):
            handled = True; continue
        size = None
        for L in q.latch + q.exits:
            s = L.heap.get(lst[1], {}).get(A.LO['size'])
            if s is not None and s[0][0] == 'i':
                size = s[0][1]
        if size is None:
            size = A.lsize(q.H, lst)
        acts = any(e[0] in ('store', 'put', 'dist') for L in q.latch for e in A.tail(q, L))
        if not acts:
            continue
        handled = True
        j, why = A.steps_over(q, ZERO, size)
        if j is None:
            (c.bad('points', q.loc(), 'the loop over the points %s' % why) if why != '?' else c.und('loop over the points')); continue
        for L in q.latch:
            R.add('point_passes')
            point(c, q, L, j, lst, T, core, key)
        pairs(c, q, j, lst, size, T)
    if not handled:
        c.und('loop over the points')


def isidx(A, L, v, lst, pos, w):
    """is v element pos of the list?  True / False / None"""
    g = A.org(v)
    if g is None:
        # a number of a place in the list, not of a point
        return False if v[0] == 'i' and v[1].atoms() <= pos.atoms() else None
    d = g[0]
    if not (isinstance(d, tuple) and d[0] == 'ld' and d[1] == lst[1] and d[2][1] == A.LO['data']):
        q = L.heap.get(lst[1], {}).get(A.LO['data'])
        if q is None or L.res(q[0])[1] != d:
            return None
    return g[1] == pos * w or L.eq0(g[1] - pos * w)


def cells(A, L, evs):
    """stores into records of extremes: field offset -> (record, value, instruction), last wins"""
    out = {}
    for e in evs:
        if e[0] == 'store' and e[1][2].const() is not None and isinstance(e[1][1], tuple) and e[1][1][0] not in ('alloca', 'rec') and e[2] is not None and e[2][0] == 'f':
            out.setdefault(e[1][2].const(), []).append((e[1], e[2], e[4]))
    return out


def point(c, q, L, j, lst, T, core, key):
    A, R = c.A, c.R
    off = {f: A.off(DV, f).const() for f in MIN + MAX}
    name = {v: k for k, v in off.items()}
    ev = A.tail(q, L)
    cut = next((n for n, e in enumerate(ev) if e[0] == 'loop'), len(ev))
    pre = ev
    put = [e for e in ev if e[0] == 'put']
    st = cells(A, L, [e for e in ev])
    if put:
        R.add('first_points')
        e = put[-1]
        if e[1][1] not in T:
            c.und('table the record is entered in')
        g, k = e[2], key
        if g != k and not (g[0] == 'i' and k is not None and k[0] == 'i' and (g[1] == k[1] or L.eq0(g[1] - k[1]))) and not (A.org(g) is not None and A.org(g) == A.org(k)):
            c.bad('record', e[-1].loc(), 'the record is entered under another label', L, q) if A.org(g) is not None or g[0] == 'i' and (g[1] - k[1]).const() is not None else c.und('label of the record')
        rec = e[3]
        if rec is not None and rec[0] == 'p' and rec[1] == 'null':
            return                # allocation failed
        if rec is None or rec[0] != 'p':
            c.und('record entered'); return
        ev0 = ev[:cut]
        for f, o in off.items():
            v = [z for z in st.get(o, []) if z[0][1] == rec[1]]
            if not v:
                c.und('first value of ' + f); continue
            v0 = v[0][1]
            if f in ('min_cr', 'max_cr'):
                vz = [z for z in v if (lambda k: k is not None)(coreval(A, L, z[1], core))] or v
                k = coreval(A, L, vz[-1][1], core)
                if k is None:
                    c.und('first value of ' + f); continue
                ix = exact_div(k, Poly.c(c.dsz))
                r = isidx(A, L, ('i', ix), lst, j, c.isz) if ix is not None else None
                if r is False:
                    c.bad('core', vz[-1][2].loc(), 'the core distance recorded first is that of another point', L, q)
                elif r is None:
                    c.und('first value of ' + f)
            else:
                k = fconst(v0[1])
                if k is None:
                    c.und('first value of ' + f); continue
                if f == 'min_dr' and k < (1e308 if c.dsz == 8 else 3e38):
                    c.bad('neutral', v[0][2].loc(), 'the smallest distance starts at %g: greater distances are never recorded' % k, L, q)
                if f == 'max_dr' and k > 1e-37:
                    c.bad('neutral', v[0][2].loc(), 'the greatest distance starts at %g: smaller distances are never recorded' % k, L, q)
        return
    # a later point: judged on order types
    for f in ('min_cr', 'max_cr'):
        judge_update(c, q, L, f, off, st, lambda v: coreidx(c, L, v, core, lst, j), 'core distance')


def coreidx(c, L, v, core, lst, j):
    k = coreval(c.A, L, ('f', v), core)
    if k is None:
        return None
    ix = exact_div(k, Poly.c(c.dsz))
    return isidx(c.A, L, ('i', ix), lst, j, c.isz) if ix is not None else None


def leaves(t):
    if isinstance(t, tuple) and t:
        if t[0] in ('ld', 'init', 'havoc', 'unk', 'fresh', 'distance'):
            yield t; return
        if t[0] == 'const':
            return
        if t[0] in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fpext', 'fptrunc', 'fabs', 'call'):
            for x in t[1:]:
                if isinstance(x, tuple):
                    yield from leaves(x)
            return
        yield t


def isfield(t, o):
    return isinstance(t, tuple) and t[0] == 'ld' and len(t) > 2 and t[2][1].const() == o and not (isinstance(t[1], tuple) and t[1][0] in ('rec', 'alloca'))


def samples(kind):
    """(smallest, greatest) recorded so far: order types"""
    if kind == 'cr':
        yield F(0), F(0)
    else:
        yield F(10) ** 300, F(1, 10 ** 200)
    for a in range(1, 4):
        for b in range(a, 4):
            yield F(a), F(b)


def judge_update(c, q, L, f, off, st, isnew, what):
    """the value of field f after the pass, on every order type of (recorded values, new value, zero) the path allows"""
    A, R = c.A, c.R
    H = q.H
    kind = f[4:]; o = off[f]
    vals = st.get(o, [])
    terms = set()
    conds = [(k, r) for k, r in L.ford.items() if H.ford.get(k) != r]
    for (a, b), r in conds:
        terms |= set(leaves(a)) | set(leaves(b))
    for z in vals:
        terms |= set(leaves(z[1][1]))
    new = set(t for t in terms if isnew(t))
    wrong = [t for t in terms if isnew(t) is False]
    if vals and coarse(vals[-1][1][1]):
        c.bad('value', vals[-1][2].loc(), 'the %s is recorded in a coarser type' % what, L, q); return
    for (a, b), r in conds:
        if (coarse(a) or coarse(b)) and new & (set(leaves(a)) | set(leaves(b))):
            c.bad('value', q.loc(), 'the %s is compared in a coarser type' % what, L, q); return
    head = {g: old_terms(A, q, L, off[g]) for g in ('min_' + kind, 'max_' + kind)}
    old = {g: set(t for t in terms if isfield(t, off[g]) or t in head[g]) - new for g in head}
    if wrong and vals and any(t in wrong for z in vals for t in leaves(z[1][1])):
        c.bad('value', vals[-1][2].loc(), 'the %s recorded is that of another point' % what, L, q); return
    n = 0
    small = f in MIN
    for mn, mx in samples(kind):
        for v in (F(0), F(1, 2), F(1), F(2), F(3), F(4)):
            m = mn if small else mx

            def leaf(t):
                if t in new:
                    return v
                if t in old['min_' + kind]:
                    return mn
                if t in old['max_' + kind]:
                    return mx
                return None
            ok = True; open_ = False
            for (a, b), r in conds:
                try:
                    x, y = feval(a, leaf), feval(b, leaf)
                except NotPoly:
                    if (set(leaves(a)) | set(leaves(b))) & (new | old['min_' + kind] | old['max_' + kind]):
                        open_ = True
                    continue
                if ('<' if x < y else '>' if x > y else '=') not in r:
                    ok = False; break
            if not ok or any(fconst(t) is not None and F(fconst(t)) != (mn if g[:3] == 'min' else mx) for g in head for t in head[g]):
                continue
            if open_:
                c.und('condition of ' + f); return
            n += 1
            try:
                got = feval(vals[-1][1][1], leaf) if vals else m
            except NotPoly:
                if all(A.loaded(('f', t)) is not None or t in new for t in leaves(vals[-1][1][1])):
                    c.bad('value', vals[-1][2].loc(), 'the %s %s recorded is computed from something else' % ('smallest' if small else 'greatest', what), L, q)
                else:
                    c.und('value of ' + f)
                return
            want = (v if v != 0 and (v < m or m == 0) else m) if small else max(v, m)
            if got != want:
                def s(z):
                    return 'zero' if z == 0 else '%g' % float(z)
                c.bad('value', vals[-1][2].loc() if vals else q.loc(), 'the %s %s becomes %s where %s is recorded and the next one is %s' % ('smallest' if small else 'greatest', what, s(got), s(m), s(v)), L, q)
                return
    if n:
        R.add('updates')


def coarse(t):
    return isinstance(t, tuple) and bool(t) and (t[0] == 'fptrunc' and any(True for _ in leaves(t[1])) or t[0] in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fpext', 'fabs') and any(coarse(x) for x in t[1:]))


def old_terms(A, q, L, o):
    """values the recorded field had at the head of the pass"""
    out = set()
    for b, cl in q.H.heap.items():
        z = cl.get(Poly.c(o))
        if z is not None and z[0][0] == 'f' and not (isinstance(b, tuple) and b[0] in ('alloca', 'rec')):
            out.add(z[0][1])
    return out


def pairs(c, q, j, lst, size, T):
    A, R = c.A, c.R
    off = {f: A.off(DV, f).const() for f in MIN + MAX}
    ks = [p for p in A.loops if depth(p) == depth(q) + 1 and p.H.trace[:len(q.H.trace)] == q.H.trace and p.H.log[:len(q.H.log)] == q.H.log and any(e[0] == 'dist' for L in p.latch for e in A.tail(p, L))]
    if not ks:
        if not any(e[0] == 'dist' for z in A.loops for L in z.latch for e in A.tail(z, L)):
            c.bad('pairs', q.loc(), 'no distance between points is looked at')
        else:
            c.und('pairs of points')
        return
    heads = set((p.header, p.fn.name) for p in ks)
    for L in q.latch:
        if not any(e[0] == 'loop' and e[1] in heads for e in A.tail(q, L)) and not any(e[0] == 'dist' for e in A.tail(q, L)) and not L.ge(j + 1 - size) and not L.ge(-j):
            c.bad('pairs', q.loc(), 'the pairs of a point can be left out', L, q)
    for p in ks:
        if any(e[0] == 'allocfail' for e in p.H.log):
            continue
        fit = None
        for lo, hi in ((j + 1, size), (ZERO, j), (ZERO, size), (j, size), (ZERO, j + 1)):
            k, why = A.steps_over(p, lo, hi)
            if k is not None:
                fit = k; break
        if fit is None:
            cand = A.counter(p, [size, j, j + 1, ZERO], [])
            if cand and all((cand[0][1] - lo).const() is not None or (cand[0][2] - hi).const() is not None for lo, hi in ((j + 1, size),)):
                c.bad('pairs', p.loc(), 'the points a point is paired with are numbers %s to %s of the list' % (cand[0][1], cand[0][2] - 1))
            else:
                early = []
                A.counter(p, [size], early)
                (c.bad('pairs', p.loc(), 'looking at the pairs can stop before the last one') if early else c.und('range of the pairs'))
            continue
        for L in p.latch:
            R.add('pair_passes')
            ev = A.tail(p, L)
            ds = [e for e in ev if e[0] == 'dist']
            if not ds:
                if L.eq0(fit - j):
                    continue
                c.bad('pairs', p.loc(), 'a pair of points is left out', L, p) if not any(t[0] == 'br' and False for t in L.trace) else None
                continue
            if len(ds) > 1 and len(set((repr(e[2]), repr(e[3])) for e in ds)) > 1:
                c.und('distances of a pair'); continue
            e = ds[-1]
            ids = [isidx(A, L, e[2], lst, z, c.isz) for z in (j, fit)] + [isidx(A, L, e[3], lst, z, c.isz) for z in (j, fit)]
            if not (ids[0] and ids[3] or ids[1] and ids[2]):
                raw = [v[1] for v in (e[2], e[3]) if v[0] == 'i']
                if any(z == w for z in raw for w in (j, fit)):
                    c.bad('pairs', e[4].loc(), 'the distance looked up is that of places in the list, not of the points', L, p)
                elif None in ids and not (ids[0] or ids[1] or ids[2] or ids[3]):
                    c.und('points of a pair')
                elif all(A.org(v) is not None for v in (e[2], e[3])):
                    c.bad('pairs', e[4].loc(), 'the distance looked up is not that of the pair', L, p)
                else:
                    c.und('points of a pair')
                continue
            t = set(z[1] for z in ds)
            st = cells(A, L, ev)
            for f in ('min_dr', 'max_dr'):
                judge_update(c, p, L, f, off, st, lambda v: True if v in t else None, 'distance')
            for f in ('min_cr', 'max_cr'):
                pass


def fconst(t):
    return t[1] if isinstance(t, tuple) and t[0] == 'const' and isinstance(t[1], float) else None
