"""Flat labels: the selection of prominent clusters is interpreted for arbitrary descendants, levels and points, with its
containers as events.  Every selected descendant of the root is put, once and under its own label, into the list of the
level at which it was born; for every level in that table and every point, the label the level gives to the point is
taken over exactly when it is in the list of that level; all other points keep label 0."""
from hierdom import *
from p30 import Ctx, writes

CL = 'Cluster'; HE = '_hierarchy_entry'


def run(prog, cfg):
    fn = prog.get('hdbscan_find_prominent_clusters')
    A = HierAI(prog)
    st = State(); sc = A.record(st, 'hdbscan', 'hdbscan')
    A.put(st, 'hdbscan', 'hdbscan', 'clusters', A.list_of(st, 'clusters'))
    root = A.record(st, 'root', CL)
    A.put(st, 'root', CL, 'propagatedDescendants', A.list_of(st, 'solution'))
    st.heap.setdefault(A.init['clusters']['data'][1], {})[Poly.c(8)] = (root, 8, 'ptr')
    A.nv = A.init['hdbscan']['numPoints'][1]
    st.add_ge(A.nv - 1)
    outs = A.run(fn, st, [sc] + [I(0)] * (len(fn.args) - 1))
    A.frozen = True
    return A, fn, outs


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('core', cfg)
        A, fn, outs = run(prog, cfg)
        c = Ctx(R, A, fn, outs, cfg)
        R.add('functions')
        judge(c)
    R.need('functions', 1); R.need('results', 1)
    R.assumptions += ['there is at least one point', 'allocations of containers succeed']


def shifted(A, v):
    """(base, offset, k) when v is memory read plus the constant k"""
    g = A.org(v)
    if g is not None:
        return g[0], g[1], 0
    if v is not None and v[0] == 'i':
        k = v[1].t.get((), 0)
        if k:
            g = A.org(('i', v[1] - k))
            if g is not None:
                return g[0], g[1], k
    return None


def isload(A, v, base, off, st=None):
    g = A.org(v)
    return g is not None and g[0] == base and (g[1] == off or st is not None and st.eq0(g[1] - off))


def judge(c):
    A, R, fn = c.A, c.R, c.fn
    sol = A.init['solution']
    T = set(); c.shift = set()
    loops = {}
    for x, v in c.outs:
        R.add('results')
        lv = A.get(x, 'hdbscan', 'hdbscan', 'clusterLabels')
        lps = A.loops_of(x)
        groups = [lp for lp in lps if any(e[0] == 'append' for L in lp.latch for e in A.tail(lp, L))]
        for lp in groups:
            loops[id(lp)] = lp
        if lv is None or lv[0] != 'p' or x.nullness(lv) == 'null':
            continue                # reported failure of the allocation (P14)
        b = lv[1]; r = x.reg.get(b)
        if lv == A.init['hdbscan']['clusterLabels']:
            if x.log:
                c.bad('storage', fn.loc(), 'no labels are stored'); continue
            c.und('result without labels'); continue
        if r is None or r.size is None:
            c.und('storage of the labels')
        else:
            if not x.ge(r.size - A.nv * c.lsz):
                c.bad('storage', fn.loc(), 'the storage of the labels does not have one label per point')
            S0 = [lp.S0 for lp in lps if any(w[0] == b for L in lp.latch for w in deepwrites(c, lp, L)) and b in lp.S0.reg]
            if (S0[0] if S0 else x).reg[b].default != 'zero' and not cleared(c, x, b, lps):
                c.bad('storage', fn.loc(), 'the labels of points in no selected cluster are not 0 (the storage is not cleared)')
        if not groups:
            c.bad('group', fn.loc(), 'the selected clusters are not collected'); continue
        assign = [lp for lp in lps if any(w[0] == b for L in lp.latch for w in deepwrites(c, lp, L))]
        if not assign:
            c.bad('assign', fn.loc(), 'no point gets a label'); continue
        for lp in assign:
            loops[id(lp)] = lp
            lp.target = b
    for lp in loops.values():
        if getattr(lp, 'target', None) is None:
            group(c, lp, T)
    for lp in loops.values():
        if getattr(lp, 'target', None) is not None:
            assign_(c, lp, T)
    if not any(getattr(lp, 'target', None) for lp in loops.values()) and not R.violations:
        c.und('assignment of labels')


def cleared(c, x, b, lps):
    """a loop writes 0 into every label"""
    for lp in lps:
        ctr, why = c.A.steps_over(lp, ZERO, c.A.nv)
        if ctr is None:
            continue
        if all(any(b2 == b and o == ctr * c.lsz and v[0][0] == 'i' and v[0][1].const() == 0 for b2, o, v in writes(c, lp, L)) for L in lp.latch):
            return True
    return False


def deepwrites(c, lp, L):
    yield from writes(c, lp, L)
    for q in inner(c, lp, L):
        for L2 in q.latch + q.exits:
            yield from writes(c, q, L2)


def inner(c, lp, L):
    """loops passed in the pass L of lp"""
    n = len(lp.H.trace)
    return [q for q in c.A.loops_of_tail(L, n)]


def group(c, lp, T):
    A, R = c.A, c.R
    sol = A.init['solution']; sd, sn = sol['data'][1], sol['size'][1]
    OFFS, LAB = A.off(CL, 'offset'), A.off(CL, 'label')
    cd = A.init['clusters']['data'][1]
    for L in lp.latch:
        for e in A.tail(lp, L):
            q = A.org(e[2]) if e[0] == 'append' else None
            q = q[0] if q else None
            while isinstance(q, tuple) and q[0] == 'ld':
                if q[1] == cd and q[2][1].const() not in (None, 8):
                    c.bad('group', lp.loc(), 'the clusters taken are not those selected below the root', L, lp); return
                q = q[1]
    ctr, why = A.steps_over(lp, ZERO, sn)
    if ctr is None:
        (c.bad('group', lp.loc(), 'collecting the selected clusters %s' % why) if why != '?' else c.und('range of the selected clusters')); return
    for L in lp.latch:
        R.add('passes')
        ev = A.tail(lp, L)
        app = [e for e in ev if e[0] == 'append']; get = [e for e in ev if e[0] == 'get']; put = [e for e in ev if e[0] == 'put']
        if L.ge(ctr - sn):
            continue
        el = ('ld', sd)
        if any(isinstance(q, tuple) and q[:2] == el and n == 'null' for q, n in L.nul.items()):
            continue            # there are no empty places among the selected clusters
        if len(app) != 1:
            c.bad('group', app[1][-1].loc() if app else lp.loc(), 'a selected cluster is %s' % ('added %d times' % len(app) if app else 'left out'), L, lp); continue
        X, val, inst = app[0][1:4]
        g = shifted(A, val)
        if g is None:
            c.und('what is collected'); continue
        cb = g[0]
        if g[2]:
            c.bad('group', inst.loc(), 'what is added is not the label of the selected cluster', L, lp); continue
        own = isinstance(cb, tuple) and cb[0] == 'ld' and cb[1] == sd
        if not own or cb[2][1] != ctr * 8:
            c.bad('group', inst.loc(), 'what is added is not the label of the selected cluster', L, lp); continue
        if g[1] != LAB:
            c.bad('group', inst.loc(), 'what is added is not the label of the selected cluster', L, lp); continue
        keys = [(e[1], e[2], e[-1]) for e in get + put]
        if not keys:
            c.und('table of levels'); continue
        wrong = False
        for t, k, i in keys:
            g = shifted(A, k)
            if t is not None:
                T.add(t[1])
            if g is None:
                c.und('key of a selected cluster'); wrong = True
            elif g[:2] == (cb, OFFS):
                c.shift.add(g[2])
            else:
                c.bad('group', i.loc(), 'the list a selected cluster is added to is not that of the level of its birth', L, lp); wrong = True
        if wrong:
            continue
        found = [e[3] for e in get if e[3] is not None]
        made = [e[3] for e in put]
        if found and any(q[1] != found[0][1] for q in made if q[0] == 'p'):
            c.bad('group', put[0][-1].loc(), 'the list of a level is replaced when another cluster of the level is added', L, lp)
        elif not found and not put:
            c.bad('group', inst.loc(), 'the list made for a level is not entered in the table', L, lp)
        elif X[1] not in [q[1] for q in found + made if q[0] == 'p']:
            c.bad('group', inst.loc(), 'the list added to is not the one of the table', L, lp)
        if found:
            R.add('found')


def assign_(c, lp, T):
    A, R = c.A, c.R
    b = lp.target
    # the outer loop is the one that has inner loops writing; a loop without them is judged with the pass around it
    KO = A.off('HASHTABLE_', 'keys')
    for L in lp.latch:
        ins = [q for q in inner(c, lp, L) if any(w[0] == b for L2 in q.latch + q.exits for w in writes(c, q, L2)) or any(e[0] == 'find' for L2 in q.latch for e in A.tail(q, L2))]
        if not ins:
            continue
        R.add('passes')
        key = lists = entry = None
        ev = A.tail(lp, L)
        gets = [e for e in ev if e[0] == 'get']
        hier = A.get(L, 'hdbscan', 'hdbscan', 'hierarchy')
        hk = [e for e in gets if hier is not None and e[1] == hier]
        tk = [e for e in gets if e[1] is not None and e[1][1] in T]
        if not hk or not tk:
            c.und('look-ups of a level'); continue
        kb = A.org(tk[-1][2])
        if kb is None:
            c.und('key of a level'); continue
        kval = keypoly(A, tk[-1][2])
        if kval is None:
            c.und('key of a level'); continue
        # every key once
        kbase = kb[0]
        okk = isinstance(kbase, tuple) and kbase[0] == 'ld'
        ctr = None
        nk = keyssize(A, L, kbase)
        if nk is not None:
            ctr, why = A.steps_over(lp, ZERO, nk)
            if ctr is None:
                (c.bad('assign', lp.loc(), 'going through the levels %s' % why) if why != '?' else c.und('range of the levels'))
                continue
            if kb[1] != ctr * 8:
                c.bad('assign', lp.loc(), 'the level looked at is not the one whose turn it is', L, lp); continue
        else:
            c.und('range of the levels')
        hv = keypoly(A, hk[-1][2])
        if hv is None:
            c.und('level looked up'); continue
        if len(c.shift) != 1:
            if len(c.shift) > 1:
                c.bad('group', lp.loc(), 'the lists of the levels are entered and looked up under different levels')
            continue
        d = (hv - kval).const()
        if d is not None:
            d += min(c.shift)
        if d is None:
            (c.bad('assign', hk[-1][-1].loc(), 'the level looked up is not the one after the birth of the clusters', L, lp) if hv.const() is not None else c.und('level looked up')); continue
        if d != 1:
            c.bad('assign', hk[-1][-1].loc(), 'the level looked up is %d, not 1, after the one at which the clusters were born' % d, L, lp); continue
        ent, lst = hk[-1][3], tk[-1][3]
        if lst is None:
            continue            # a key of the table is found in it (P06)
        if ent is None:
            c.und('labels without a level'); continue
        if len(ins) > 1:
            c.und('several loops over points'); continue
        points(c, ins[0], ent, lst, b)


def keyssize(A, L, kbase):
    """number of keys in the set whose data is kbase"""
    if not (isinstance(kbase, tuple) and kbase[0] == 'ld' and kbase[2][1] == A.LO['data']):
        return None
    return A.lsize(L, ('p', kbase[1], ZERO))


def keypoly(A, v):
    if v[0] == 'i':
        return v[1]
    if v[0] == 'at':
        return Poly.a(atom(('ldkey', v[1], v[2])))
    return None


def points(c, q, ent, lst, b):
    A, R = c.A, c.R
    j, why = A.steps_over(q, ZERO, A.nv)
    if j is None:
        (c.bad('assign', q.loc(), 'going through the points %s' % why) if why != '?' else c.und('range of the points')); return
    LO = A.off(HE, 'labels')
    for L in q.latch:
        R.add('points')
        ev = A.tail(q, L)
        w = [(o, v) for b2, o, v in writes(c, q, L) if b2 == b and A.org(v[0]) != (b, o)]
        f = [e for e in ev if e[0] == 'find']
        if not f:
            if L.nullness(lst) == 'null' if lst is not None else True:
                if w:
                    c.bad('assign', q.loc(), 'a point gets a label without a list to look it up in', L, q)
                continue
            if w:
                c.und('label taken over without looking'); continue
            c.und('no look at the list'); continue
        if len(f) > 1:
            c.und('several searches'); continue
        l, val, pos, srt, inst = f[0][1:]
        if lst is None or l[1] != lst[1]:
            c.bad('assign', inst.loc(), 'the list searched is not that of the level', L, q); continue
        if srt is not None and srt[0] == 'i' and srt[1].const() not in (0, None):
            c.bad('assign', inst.loc(), 'the labels of a level, which are in no order, are searched as if sorted', L, q); continue
        g = A.org(val)
        if g is None:
            c.und('label searched'); continue
        gl = g[0]
        if not (isinstance(gl, tuple) and gl[0] == 'ld' and gl[1] == ent[1] and gl[2][1] == LO):
            c.bad('assign', inst.loc(), 'what is searched is not a label of the level', L, q); continue
        if g[1] != j * c.lsz:
            c.bad('assign', inst.loc(), 'the label searched is that of another point', L, q); continue
        hit = True if L.ge(pos) else False if L.ge(-pos - 1) else None
        if hit is None:
            if w:
                c.bad('assign', inst.loc(), 'a point gets the label of a level whether or not the cluster is selected', L, q)
            elif not w:
                c.bad('assign', inst.loc(), 'a point of a selected cluster can stay without its label', L, q)
            continue
        if hit and not w:
            c.bad('assign', inst.loc(), 'a point of a selected cluster does not get its label', L, q); continue
        if not hit and w:
            c.bad('assign', inst.loc(), 'a point gets the label of a cluster that is not selected', L, q); continue
        if w:
            (o, (v, sz, ty)) = w[0]
            if len(w) > 1 or o != j * c.lsz:
                c.bad('assign', inst.loc(), 'the label is given to another point', L, q); continue
            if not isload(A, v, g[0], g[1]):
                (c.bad('assign', inst.loc(), 'the label a point gets is not the one its level gives it', L, q) if A.org(v) is not None or v[0] == 'i' and (v[1].const() is not None or v[1] == pos) else c.und('label given')); continue
            R.add('labels')
