"""Clusters of a level: the loops that examine the affected clusters are interpreted with containers and cluster creations as
events.  A piece is explored by taking points from a stack, adding every neighbour of each, and pushing those that are new;
pieces with fewer points than needed or without edges become noise (their points get label 0 and remember the level and the
cluster they leave), other pieces of a cluster that splits become clusters; the piece left unexplored as first child is
completed and becomes a cluster too.  Each cluster is created from the examined cluster at the weight of the level with the
next label, which is its position in the list of clusters, where it is added at once."""
from hierdom import *
import p30
from p30 import Ctx, edge_loops, writes


def strip(v):
    for _ in range(4):
        if v is not None and v[0] == 'i' and v[1].single() is not None and v[1] == Poly.a(v[1].single()) and ATOMS[v[1].single()].key[0] == 'zext':
            v = ('i', ATOMS[v[1].single()].key[1])
    return v


def removed(A, base):
    """values taken from a container: {atom: (loop, event)}"""
    out = {}
    for lp in A.loops:
        for L in lp.latch + lp.exits:
            for e in A.tail(lp, L):
                if e[0] == 'remove' and e[1][0] == 'p' and (base is None or e[1][1] == base) and e[2][0] == 'i' and e[2][1].single() is not None:
                    out[e[2][1].single()] = (lp, e)
    return out


def explorers(c):
    """loops over the neighbours of a point: [(loop, piece, vertex atom)]"""
    A = c.A; out = []
    for lp in A.loops:
        ins = []
        for L in lp.latch:
            for e in A.tail(lp, L):
                if e[0] == 'insert':
                    g = A.org(e[2])
                    # edges[v]->data[i]
                    if g is not None and isinstance(g[0], tuple) and g[0][0] == 'ld' and g[0][2][1] == A.LO['data'] and isinstance(g[0][1], tuple) and g[0][1][0] == 'ld' and g[0][1][1] == A.D['edges']:
                        ins.append((e, g))
        if not ins:
            continue
        lst = ins[0][1][0][1]
        v = exact_div(lst[2][1], Poly.c(8))
        out.append((lp, lst, v))
    return out


def neighbours(c):
    """obligations of the loops over neighbours; returns [(loop, piece, stack, vertex)]"""
    A = c.A; res = []
    taken = removed(A, None)
    for lp, lst, v in explorers(c):
        c.R.add('neighbour_loops')
        v = strip(('i', v)) if v is not None else None
        a = v[1].single() if v is not None else None
        if a not in taken:
            c.und('point whose neighbours are explored')
        size = None
        cell = lp.H.heap.get(lst, {}).get(A.LO['size'])
        for X in [lp.H] + lp.latch + lp.exits:
            q = X.heap.get(lst, {}).get(A.LO['size'])
            if q is not None and q[0][0] == 'i':
                size = q[0][1]
        ctr, why = A.steps_over(lp, ZERO, size) if size is not None else (None, '?')
        if ctr is None:
            (c.bad('neighbours', lp.loc(), 'the exploration of the neighbours of a point %s' % why) if why != '?' else c.und('range of the neighbours'))
        piece = stack = None
        for L in lp.latch:
            c.R.add('passes')
            ev = A.tail(lp, L)
            nb = [e for e in ev if e[0] == 'insert' and A.org(e[2]) is not None and A.org(e[2])[0][:2] == ('ld', lst)]
            if not nb:
                c.bad('neighbours', lp.loc(), 'a neighbour of an explored point is not added to the piece', L, lp); continue
            if ctr is not None and any(A.org(e[2])[1] != ctr * c.isz for e in nb):
                c.bad('neighbours', nb[0][-1].loc(), 'the neighbour added is not the one of the pass', L, lp); continue
            first = nb[0]; piece = first[1]
            ins = first[3]
            new = True if L.ge(ins - 1) or L.ne0(ins) else False if L.eq0(ins) else None
            push = [e for e in ev if e[0] in ('append', 'insert') and e is not first and e[2] == first[2]]
            if new is None:
                if push:
                    c.bad('neighbours', push[0][-1].loc(), 'neighbours are put on the list of points to explore whether or not they are new', L, lp)
                else:
                    c.und('is a neighbour new')
                continue
            if new and not push:
                c.bad('neighbours', first[-1].loc(), 'a new point of the piece is not put on the list of points to explore', L, lp); continue
            if not new and push:
                c.bad('neighbours', push[0][-1].loc(), 'a known point of the piece is put on the list of points to explore', L, lp); continue
            if new:
                stack = push[0][1]
                if a in taken and taken[a][1][1] != stack:
                    c.bad('neighbours', push[0][-1].loc(), 'new points are not put on the list the explored point was taken from', L, lp)
                res.append((lp, piece, stack, a, L, ev))
    return res


def check_hier(R, prog, cfg):
    A, fn, outs = run_hier(prog)
    q = type(R)()
    c = Ctx(q, A, fn, outs, cfg)
    els = edge_loops(c)         # for the labels, the sets of affected points and clusters and the weight of the level
    c.R = R
    if not els or not hasattr(c, 'SL'):
        c.und('loop over the edges'); return
    c.k0s = [k0 for lp, k0 in els]
    nb = neighbours(c)
    pieces = {p[1]: s for lp, p, s, a, L, ev in nb}
    stacks = {s[1]: p for lp, p, s, a, L, ev in nb}
    exl = removed(A, c.SL[1])
    minp = A.init['hdbscan']['minPoints'][1]
    # ---- creations
    made = {}
    for lp in A.loops:
        for L in lp.latch:
            ev = A.tail(lp, L)
            for n, e in enumerate(ev):
                if e[0] == 'create':
                    creation(c, lp, L, ev, n, e, exl, pieces, minp, nb)
    if not R.cov.get('creations'):
        c.und('no creation of clusters seen')
    elif not nb and not any(isinstance(b, tuple) and b[0] == 'ld' and b[1] == A.D['edges'] for lp in A.loops for x in lp.latch + lp.exits for b in x.heap):
        c.bad('neighbours', fn.loc(), 'pieces become clusters or noise without being explored')
    # ---- pieces start with the point they are explored from, and the examined points go with them
    starts(c, pieces, nb)
    # ---- the examined cluster's points
    members(c, exl, pieces, nb)
    count_atoms(c, nb, pieces)
    ends(c, nb, pieces)


def creation(c, lp, L, ev, n, e, exl, pieces, minp, nb):
    A, R = c.A, c.R
    R.add('creations')
    args, val, snap, inst = e[1], e[2], e[3], e[-1]
    sc, points, labels, parent, label, weight = args[:6]
    w = inst.loc()
    # the examined cluster
    g = A.org(parent)
    ex = None
    if g is None or g[0] != A.D['clusters']:
        c.und('parent of a created cluster')
    else:
        k = strip(('i', exact_div(g[1], Poly.c(8)) or Poly.c(-1)))
        if k[1].single() in exl:
            ex = k[1]
        elif k[1].const() is not None or k[1].single() is not None and ATOMS[k[1].single()].key[0] == 'ld' or k[1].atoms() & set(exl):
            c.bad('parent', w, 'the parent of a created cluster is not the examined cluster', L, lp)
        else:
            c.und('parent of a created cluster')
    if weight[0] != 'f' or not any(c.isw(weight[1], k0) for k0 in c.k0s):
        t = weight[1] if weight[0] == 'f' else None
        if isinstance(t, tuple) and t[0] in ('ld', 'const', 'sym', 'fadd', 'fmul', 'fdiv'):
            c.bad('weight', w, 'a cluster is created at another level than that of the removed edges', L, lp)
        else:
            c.und('level of a created cluster')
    if labels[0] == 'p' and labels[1] != c.C:
        c.bad('labels', w, 'the labels changed for a created cluster are not the current ones', L, lp)
    piece = points
    k = label[1].const() if label[0] == 'i' else None
    size = A.lsize(snap, piece)
    a = size.atoms() | minp.atoms()
    if k == 0:
        R.add('noise_pieces')
        small = snap.ge(minp - size - 1)
        noedge = [f for f in flag_atoms(c, nb, piece) if snap.eq0(Poly.a(f))]
        if not small and not noedge:
            if points[1] not in pieces:
                c.und('exploration of a piece')
            elif any(minp.atoms() <= p.atoms() and p.atoms() & size.atoms() for p in snap.facts if p not in lp.H.facts) or flag_atoms(c, nb, piece):
                c.bad('valid', w, 'a piece that is large enough and has edges can become noise', L, lp)
            else:
                c.und('when a piece becomes noise')
        noise_marks(c, lp, L, ev, n, points, snap, ex)
        if any(x[0] == 'append' and x[2] == val for x in ev):
            c.bad('list', w, 'a noise piece is added to a list of clusters', L, lp)
        return
    if k is not None:
        c.bad('label', w, 'every new cluster gets the label %d' % k, L, lp); return
    R.add('new_clusters')
    # its label is its position
    csize = A.lsize(snap, ('p', ('rec', 'clusters'), ZERO))
    lab = strip(label)
    if lab[0] == 'i' and (lab[1] == csize or snap.eq0(lab[1] - csize)):
        pass
    elif lab[0] == 'i' and (lab[1] - csize).const() is not None:
        c.bad('label', w, 'the label of a new cluster is not its position in the list of clusters', L, lp)
    else:
        label_steps(c, lp, L, ev, n, lab, csize, snap, w)
    nx = next((m for m in range(n + 1, len(ev)) if ev[m][0] == 'create'), len(ev))
    app = [x for x in ev[n + 1:nx] if x[0] == 'append' and x[2] == val and x[1][1] == ('rec', 'clusters')]
    if len(app) != 1:
        c.bad('list', w, 'a new cluster is %s the list of clusters' % ('not added to' if not app else 'added more than once to'), L, lp)
    if not [x for x in ev[n + 1:] if x[0] == 'append' and x[2] == val and x[1][1] != ('rec', 'clusters')]:
        c.bad('list', w, 'a new cluster is not listed as new at its level', L, lp)
    # two children
    cnt = count_atoms(c, nb, pieces)
    if cnt:
        two = [q for q in cnt if snap.ge(q - 2)]
        if not two:
            if any(snap.ge(q - 1) or any(q.atoms() & p.atoms() for p in snap.facts) for q in cnt):
                c.bad('split', w, 'a cluster can be created although its parent has not split', L, lp)
            else:
                c.und('when a new cluster is created')
    else:
        c.und('number of children')
    # the right piece
    fc = first_child(c, nb)
    if fc and points[0] == 'p' and points[1] in fc:
        # completing the first child: its points still belong to the examined cluster
        done = [x for x in ev[:n] if x[0] == 'loop' and any((l2.header, l2.fn.name) == x[1] and any(q[0] == 'remove' and q[1][1] == s[1] for L2 in l2.latch for q in A.tail(l2, L2)) for l2 in A.loops for l3, p, s, a3, L3, ev3 in nb if p == points)]
        if not done:
            c.bad('first', w, 'the first child becomes a cluster before it is explored completely', L, lp)
        elif ex is not None:
            hit = [o for o, (v, sz, ty) in snap.heap.get(c.C, {}).items() if o.const() is None and v[0] == 'i' and snap.eq0(v[1] - ex)]
            if not hit:
                c.bad('first', w, 'the first child becomes a cluster although its points may have been given to another cluster', L, lp)
    else:
        fnd = [x for x in ev[:n] if x[0] == 'find' and x[1] == points]
        big = snap.ge(size - minp)
        if not big:
            if any(minp.atoms() <= p.atoms() and p.atoms() & size.atoms() for p in snap.facts):
                c.bad('valid', w, 'a piece with too few points can become a cluster', L, lp)
            else:
                c.und('when a piece becomes a cluster')
        fl = flag_atoms(c, nb, piece)
        if fl and not any(snap.ne0(Poly.a(f)) or snap.ge(Poly.a(f) - 1) for f in fl):
            c.bad('valid', w, 'a piece without edges can become a cluster', L, lp)
        if fc:
            if not fnd:
                c.bad('first', w, 'a piece becomes a cluster without being compared with the unexplored first child', L, lp)
            elif not snap.ge(-fnd[-1][3] - 1):
                c.bad('first', w, 'a piece becomes a cluster although it contains the first child', L, lp)
            else:
                m = A.org(fnd[-1][2])
                dd = [snap.heap.get(f, {}).get(A.LO['data']) for f in fc]
                if m is None or not any(d is not None and snap.res(d[0])[1] == m[0] for d in dd):
                    c.und('point of the first child')


def locked(c):
    """loop variables that advance with the list of clusters: {header value: value before the loop + growth of the list}"""
    A = c.A
    if hasattr(c, 'lockmap'):
        return c.lockmap
    sub = {}; broken = []
    CL = ('p', ('rec', 'clusters'), ZERO)
    for lp in A.loops:
        s0, sh = A.lsize(lp.S0, CL), A.lsize(lp.H, CL)
        for p, i, h in A.phis(lp):
            if h is None or h[0] != 'i' or h[1].single() is None or h[1] != Poly.a(h[1].single()) or i is None or i[0] != 'i' or h[1] == sh:
                continue
            ok = True; part = False; own = []
            for L in lp.latch:
                n = A.nxt(lp, L, p)
                if n is None or n[0] != 'i':
                    ok = False; break
                ds = resolve((A.lsize(L, CL) - sh), sub); dn = resolve(n[1] - h[1], sub)
                own.append((L, dn, ds))
                d = dn - ds
                if d.const() != 0:
                    ok = False
            if ok and lp.latch:
                sub[h[1].single()] = i[1] + sh - s0
            else:
                broken.append((lp, h[1].single(), own))
    c.lockmap = (sub, broken)
    return c.lockmap


def resolve(p, sub):
    for _ in range(30):
        m = {a: sub[a] for a in p.atoms() if a in sub}
        if not m:
            break
        p = p.subst(m)
    return p


def label_steps(c, lp, L, ev, n, lab, csize, snap, w):
    """the label counter and the list of clusters advance together"""
    A = c.A
    sub, broken = locked(c)
    d = resolve(lab[1] - csize, sub)
    if d.const() == 0:
        return
    if d.const() is not None:
        c.bad('label', w, 'the label of a new cluster is not its position in the list of clusters', L, lp); return
    for l2, a, own in broken:
        if a not in d.atoms():
            continue
        for L2, dn, ds in own:
            if dn.const() is not None and ds.const() is not None and dn.const() != ds.const():
                c.bad('label', w, 'the next label changes by %d when %d clusters are added' % (dn.const(), ds.const()), L2, l2); return
    c.und('label of a new cluster')


def flag_atoms(c, nb, piece):
    """loop variables set whenever a neighbour is seen while this piece is explored"""
    A = c.A
    key = ('flags', piece)
    if not hasattr(c, 'memo'):
        c.memo = {}
    if key in c.memo:
        return c.memo[key]
    fl = set()
    for lp, p, s, a, L, ev in nb:
        if p != piece:
            continue
        for q, i, h in A.phis(lp):
            if h is not None and h[0] == 'i' and h[1].single() is not None:
                ns = [A.nxt(lp, X, q) for X in lp.latch]
                if all(x is not None and x[0] == 'i' and x[1].const() not in (None, 0) for x in ns):
                    fl.add(h[1].single())
    grown = True
    while grown:
        grown = False
        for lp in A.loops:
            for q, i, h in A.phis(lp):
                if h is None or h[0] != 'i' or h[1].single() is None or h[1].single() in fl:
                    continue
                ns = [A.nxt(lp, X, q) for X in lp.latch]
                if ns and all(x is not None and x[0] == 'i' and (x[1] == h[1] or x[1].single() in fl or x[1].const() not in (None, 0)) for x in ns) and any(x[1].single() in fl for x in ns):
                    fl.add(h[1].single()); grown = True
        # values on the way in
        for lp in A.loops:
            for q, i, h in A.phis(lp):
                if h is not None and h[0] == 'i' and h[1].single() in fl and i is not None and i[0] == 'i' and i[1].single() is not None and ATOMS[i[1].single()].key[0] == 'fresh' and i[1].single() not in fl:
                    fl.add(i[1].single()); grown = True
    c.memo[key] = fl
    return fl


def count_atoms(c, nb, pieces):
    """values of the counter of children: a loop variable raised by one where a piece is seen to be valid"""
    A = c.A
    if hasattr(c, 'counts'):
        return c.counts
    out = []
    fam = set()
    sub, broken = locked(c)
    for lp in A.loops:
        if not any(e[0] == 'remove' and e[1][1] in {s[1] for s in pieces.values()} for L in lp.latch for e in A.tail(lp, L)):
            continue
        for q, i, h in A.phis(lp):
            if h is None or h[0] != 'i' or h[1].single() is None or h[1].single() in sub or q[0] == 'cell' and q[1][0] != 'alloca':
                continue
            ds = set()
            for L in lp.latch:
                x = A.nxt(lp, L, q)
                ds.add((x[1] - h[1]).const() if x is not None and x[0] == 'i' else None)
            if ds and None not in ds and min(ds) == 0 and max(ds) > 1:
                for L in lp.latch:
                    d = (A.nxt(lp, L, q)[1] - h[1]).const()
                    if d > 1 and counted_here(c, lp, L, nb):
                        c.bad('count', lp.loc(), 'a piece is counted as %d children' % d, L, lp)
            if ds >= {0, 1} and None not in ds and min(ds) == 0:
                once(c, lp, q, h)
            if ds == {0, 1}:
                fam.add(h[1].single())
                for L in lp.latch:
                    x = A.nxt(lp, L, q)
                    if (x[1] - h[1]).const() == 1:
                        counted(c, lp, L, nb)
    out = [Poly.a(a) for a in fam] + [Poly.a(a) + 1 for a in fam]
    # enclosing loops' versions
    for lp in A.loops:
        for q, i, h in A.phis(lp):
            if h is not None and h[0] == 'i' and h[1].single() is not None:
                for L in lp.latch:
                    x = A.nxt(lp, L, q)
                    if x is not None and x[0] == 'i' and h[1].single() not in sub and (q[0] == 'phi' or q[1][0] == 'alloca') and x[1].atoms() & fam and Poly.a(h[1].single()) not in out:
                        out.append(Poly.a(h[1].single()))
    c.counts = out
    return out


def once(c, lp, q, h):
    """a piece is counted once: counting requires a mark that counting sets and nothing takes away until the next piece"""
    A = c.A
    for L in lp.latch:
        if (A.nxt(lp, L, q)[1] - h[1]).const() != 1:
            continue
        marks = tested = False
        for p, i, f in A.phis(lp):
            if p == q or f is None or f[0] != 'i' or f[1].single() is None or i is None or i[0] != 'i':
                continue
            n = A.nxt(lp, L, p)
            if not L.eq0(f[1]) and not L.ne0(f[1]) or n is None or n[0] != 'i':
                continue
            was = L.eq0(f[1])
            if i[1].const() is None or (i[1].const() == 0) != bool(was):
                continue
            now = L.ne0(n[1]) if was else L.eq0(n[1])
            keep = True
            for M in lp.latch:
                m = A.nxt(lp, M, p)
                if m is None or m[0] != 'i' or not (m[1] == f[1] or (M.ne0(m[1]) if was else M.eq0(m[1]))):
                    keep = False
            if now and keep:
                marks = True
            elif now or keep:
                tested = True
        if not marks:
            (c.und('how often a piece is counted') if tested else c.bad('count', lp.loc(), 'a piece can be counted as a child more than once', L, lp))


def counted_here(c, lp, L, nb):
    st = {s[1]: p for l3, p, s, a, L3, ev in nb}
    minp = c.A.init['hdbscan']['minPoints'][1]
    return any(L.ge(c.A.lsize(L, st[e[1][1]]) - minp) for e in c.A.tail(lp, L) if e[0] == 'remove' and e[1][1] in st)


def ends(c, nb, pieces):
    """examined points and points to explore are used up; the first child is remembered entirely"""
    A = c.A
    fc = first_child(c, nb)
    stk = {s[1] for s in pieces.values()}
    fcs = {s[1] for b, s in pieces.items() if b in fc}
    EX = getattr(c, 'EX', set())
    for lp in A.loops:
        taken = {e[1][1] for L in lp.latch for e in A.tail(lp, L) if e[0] == 'remove'}
        own = {b for b in taken & (stk | EX) if all(any(e[0] == 'remove' and e[1][1] == b for e in A.tail(lp, L)) for L in lp.latch)}
        for b in own:
            c.R.add('exhausted_loops')
            for x in lp.exits:
                n = A.lsize(x, ('p', b, ZERO))
                if x.eq0(n) or x.ge(-n):
                    continue
                outer = [M for l2 in A.loops if l2 is not lp for M in l2.latch + l2.exits if len(M.trace) > len(x.trace) and M.trace[:len(x.trace)] == x.trace and M.log[:len(lp.H.log)] == lp.H.log]
                if b in stk - fcs:
                    if not outer:
                        c.und('end of the exploration of a piece'); continue
                    cp = {(l2.header, l2.fn.name) for l2 in A.loops if any(e[0] == 'insert' and e[1][1] in fc for L2 in l2.latch for e in A.tail(l2, L2))}
                    if all(any(e[0] == 'loop' and e[1] in cp for e in M.log[len(lp.H.log):]) for M in outer):
                        continue
                c.bad('ends', lp.loc(), 'examined points of a cluster are left' if b in EX else 'the exploration of a piece ends with points left to explore', x, lp)
    for lp in A.loops:
        for b in fc | fcs:
            ins = [(L, e) for L in lp.latch for e in A.tail(lp, L) if e[0] in ('insert', 'append') and e[1][1] == b]
            src = {}
            for L, e in ins:
                g = A.org(e[2])
                for q in set(pieces) | stk:
                    d = L.heap.get(q, {}).get(A.LO['data'])
                    if g is not None and d is not None and q != b and L.res(d[0])[1] == g[0]:
                        src[q] = g[1]
            for q, o in src.items():
                c.R.add('first_child_copies')
                size = A.lsize(lp.S0, ('p', q, ZERO))
                ctr, why = A.steps_over(lp, ZERO, size)
                if ctr is None:
                    (c.bad('first', lp.loc(), 'remembering the first child %s' % why) if why != '?' else c.und('range of the first child'))
                elif o != ctr * c.isz:
                    c.bad('first', lp.loc(), 'the point of the first child remembered is not the one of the pass')
                elif any(not any(e[0] in ('insert', 'append') and e[1][1] == b for e in A.tail(lp, L)) for L in lp.latch):
                    c.bad('first', lp.loc(), 'a point of the first child is not remembered')
    # a piece that turns out to be the first child is not counted twice
    for lp in A.loops:
        for L in lp.latch:
            for e in A.tail(lp, L):
                if e[0] != 'find' or e[1][0] != 'p' or e[1][1] not in pieces or not (L.ge(e[3])):
                    continue
                two = [q for q in c.counts if L.ge(q - 2)]
                ns = [A.nxt(lp, L, p) for p, i, h in A.phis(lp) if h is not None and h[0] == 'i' and h[1] in c.counts]
                ns = [n[1] for n in ns if n is not None and n[0] == 'i']
                c.R.add('found_again')
                if any(n == q - 1 for n in ns for q in two):
                    continue
                if any(n == q for n in ns for q in two):
                    c.bad('count', e[-1].loc(), 'a piece found to be the first child stays counted as another child', L, lp)
                else:
                    c.und('count after the first child is found again')


def counted(c, lp, L, nb):
    """a piece is counted as a child when it is large enough and has edges"""
    A = c.A
    minp = A.init['hdbscan']['minPoints'][1]
    st = {s[1]: p for l3, p, s, a, L3, ev in nb}
    ps = [st[e[1][1]] for e in A.tail(lp, L) if e[0] == 'remove' and e[1][1] in st]
    for p in ps:
        c.R.add('counted_pieces')
        n = A.lsize(L, p)
        if not L.ge(n - minp):
            if any(minp.atoms() <= q.atoms() and q.atoms() & n.atoms() for q in L.facts):
                c.bad('valid', lp.loc(), 'a piece with too few points is counted as a child', L, lp)
            else:
                c.und('when a piece is counted')
        fl = flag_atoms(c, nb, p)
        if fl and not any(L.ne0(Poly.a(f)) or L.ge(Poly.a(f) - 1) for f in fl):
            c.bad('valid', lp.loc(), 'a piece without edges is counted as a child', L, lp)


def first_child(c, nb):
    """sets that are filled from another piece and completed later"""
    A = c.A
    ps = {p[1] for lp, p, s, a, L, ev in nb}
    out = set()
    for lp in A.loops:
        for L in lp.latch:
            for e in A.tail(lp, L):
                if e[0] == 'insert' and e[1][1] in ps:
                    g = A.org(e[2])
                    for q in ps:
                        d = L.heap.get(q, {}).get(A.LO['data'])
                        if g is not None and d is not None and q != e[1][1] and L.res(d[0])[1] == g[0]:
                            out.add(e[1][1])
    return out


def noise_marks(c, lp, L, ev, n, points, snap, ex):
    A = c.A
    loops = [x[1] for x in ev[n + 1:] if x[0] == 'loop']
    d = snap.heap.get(points[1], {}).get(A.LO['data'])
    d = snap.res(d[0])[1] if d is not None else None
    got = {}
    for l2 in A.loops_of(L):
        if (l2.header, l2.fn.name) not in loops or A.LO['size'] not in l2.S0.heap.get(points[1], {}):
            continue
        size = A.lsize(l2.S0, points)
        ctr = None
        for L2 in l2.latch:
            for b, o, (v, sz, ty) in writes(c, l2, L2):
                if b not in (('arr', 'noise'), ('arr', 'last')):
                    continue
                k = exact_div(o, Poly.c(c.dsz if b[1] == 'noise' else c.lsz))
                g = A.org(('i', k)) if k is not None else None
                if g is None:
                    c.und('point that becomes noise'); continue
                if ctr is None:
                    ctr, why = A.steps_over(l2, ZERO, size)
                    if ctr is None:
                        (c.bad('noise', l2.loc(), 'marking the points of a noise piece %s' % why, L2, l2) if why != '?' else c.und('range of the points that become noise'))
                        got[b[1]] = True
                        continue
                if g[0] != d or g[1] != ctr * c.isz:
                    c.bad('noise', l2.loc(), 'the point marked as noise is not a point of the piece of that pass', L2, l2); got[b[1]] = True; continue
                got[b[1]] = True
                c.R.add('noise_marks')
                if b[1] == 'noise':
                    if v[0] != 'f' or not any(c.isw(v[1], k0) for k0 in c.k0s):
                        c.bad('noise', l2.loc(), 'the level at which points become noise is not the level of the removed edges', L2, l2)
                elif ex is not None:
                    vv = strip(v)
                    if vv[0] == 'i' and vv[1] != ex and not L2.eq0(vv[1] - ex):
                        c.bad('noise', l2.loc(), 'the cluster remembered for points that become noise is not the examined one', L2, l2)
        for b in (('arr', 'noise'), ('arr', 'last')):
            wr = [any(x[0] == b for x in writes(c, l2, L2)) for L2 in l2.latch]
            if any(wr) and not all(wr):
                c.bad('noise', l2.loc(), 'some points of a noise piece are not marked', L2, l2)
    for k, t in (('noise', 'the level at which points become noise'), ('last', 'the last cluster of points that become noise')):
        if k not in got:
            c.bad('noise', lp.loc(), '%s is not remembered' % t, L, lp)


def starts(c, pieces, nb):
    A = c.A
    fc = first_child(c, nb)
    for lp in A.loops:
        for L in lp.latch:
            ev = A.tail(lp, L)
            ins = [e for e in ev if e[0] == 'insert' and e[1][1] in pieces and e[1][1] not in fc and e[2][0] == 'i' and e[2][1].single() in {x[2][1].single() for x in ev if x[0] == 'remove' and x[2][0] == 'i'}]
            for e in ins:
                c.R.add('starts')
                s = pieces[e[1][1]]
                if not any(x[0] in ('append', 'insert') and x[1] == s and x[2] == e[2] for x in ev):
                    c.bad('start', e[-1].loc(), 'the point a piece starts from is not put on the list of points to explore', L, lp)
                EX = next(x[1] for x in ev if x[0] == 'remove' and x[2] == e[2])
                c.EX = getattr(c, 'EX', set()) | {EX[1]}
                # left clean for the next piece
                n, m = A.lsize(L, e[1]), A.lsize(L, s)
                if not L.eq0(n):
                    if not any(x[0] == 'newlist' and x[1] == e[1] for x in ev):
                        c.bad('start', lp.loc(), 'a piece starts with the points of the one before', L, lp)
                if not L.eq0(m):
                    if not any(x[0] == 'newlist' and x[1] == s for x in ev):
                        c.bad('start', lp.loc(), 'a piece starts with points left to explore from the one before', L, lp)
    EX = getattr(c, 'EX', None)
    if EX is None:
        c.und('start of a piece'); return
    for lp, p, s, a, L, ev in nb:
        if p[1] in fc:
            continue
        nbv = [e for e in ev if e[0] == 'insert' and e[1] == p]
        if not any(x[0] == 'set_remove' and x[1][1] in EX and x[2] == nbv[0][2] for x in ev):
            c.bad('start', lp.loc(), 'points found in a piece stay listed to start pieces of their own', L, lp)


def members(c, exl, pieces, nb):
    """the affected points with the label of the examined cluster become starting points"""
    A = c.A
    EX = getattr(c, 'EX', None)
    if EX is None:
        return
    hit = False
    for lp in A.loops:
        if not any(e[0] == 'insert' and e[1][1] in EX for L in lp.latch for e in A.tail(lp, L)):
            continue
        hit = True
        for L in lp.latch:
            c.R.add('passes')
            ev = A.tail(lp, L)
            ins = [e for e in ev if e[0] == 'insert' and e[1][1] in EX]
            dv = L.heap.get(c.SV[1], {}).get(A.LO['data'])
            dv = L.res(dv[0])[1] if dv is not None else None
            lab = [(o, v) for o, (v, sz, ty) in L.heap.get(c.C, {}).items() if o.const() is None and A.org(('i', exact_div(o, Poly.c(c.lsz)) or Poly.c(0))) is not None and A.org(('i', exact_div(o, Poly.c(c.lsz))))[0] == dv]
            if not lab:
                c.und('label of an affected point'); continue
            o, v = lab[-1]
            v = strip(v)
            eq = [x for x in exl if L.eq0(v[1] - Poly.a(x))]
            pt = A.org(('i', exact_div(o, Poly.c(c.lsz))))
            if ins:
                if not eq:
                    c.bad('members', ins[0][-1].loc(), 'points of another cluster are examined with the cluster', L, lp)
                elif A.org(ins[0][2]) != pt:
                    c.bad('members', ins[0][-1].loc(), 'the point examined is not the one whose label was compared', L, lp)
                rm = [e for e in ev if e[0] == 'set_remove' and e[1] == c.SV]
                if rm and A.org(rm[0][2]) != pt:
                    c.bad('members', rm[0][-1].loc(), 'the point taken off the affected ones is not the one examined', L, lp)
                # position stays when the point is taken out, moves on otherwise
                step(c, lp, L, pt, 0 if rm else 1)
            elif eq:
                c.bad('members', lp.loc(), 'an affected point of the examined cluster is not examined', L, lp)
            else:
                step(c, lp, L, pt, 1)
    if not hit:
        c.und('points of the examined cluster')
    # left empty for the next cluster
    for lp in A.loops:
        if not any(e[0] == 'remove' and e[1] == c.SL for L in lp.latch for e in A.tail(lp, L)):
            continue
        for L in lp.latch:
            fc = first_child(c, nb)
            for S in EX | fc | {s[1] for l3, p, s, a, L3, e3 in nb if p[1] in fc}:
                if A.LO['size'] not in L.heap.get(S, {}) or any(e[0] == 'newlist' and e[1][1] == S for e in A.tail(lp, L)):
                    continue
                n = A.lsize(L, ('p', S, ZERO))
                if not L.eq0(n) and not L.ge(-n):
                    c.bad('members', lp.loc(), 'a cluster is examined with points left from the one before', L, lp)
        for x in lp.exits:
            n = A.lsize(x, c.SL)
            if not x.eq0(n):
                if any(p.atoms() & n.atoms() for p in x.facts if p not in lp.H.facts):
                    c.bad('members', lp.loc(), 'affected clusters are left unexamined', x, lp)
                else:
                    c.und('affected clusters left')


def step(c, lp, L, pt, want):
    A = c.A
    k = exact_div(pt[1], Poly.c(c.isz))
    if k is None:
        return
    for p, i, h in A.phis(lp):
        if h is not None and h[0] == 'i' and h[1] == strip(('i', k))[1]:
            n = A.nxt(lp, L, p)
            d = (n[1] - h[1]).const() if n is not None and n[0] == 'i' else None
            if d is None:
                c.und('step over the affected points')
            elif d != want:
                c.bad('members', lp.loc(), 'an affected point is skipped' if d > want else 'the search for points of the cluster stands still', L, lp)
            if i is not None and i[0] == 'i' and i[1].const() not in (None, 0):
                c.bad('members', lp.loc(), 'the search for points of the cluster starts at position %s' % i[1].const(), L, lp)


# ---------------------------------------------------------------- the functions the loops rely on
def creator(R, prog, cfg):
    """hdbscan_create_new_cluster: relabels every point, detaches them all from the parent, makes a cluster or noise"""
    fn = prog.get('hdbscan_create_new_cluster')
    A = HierAI(prog); A.hooks.pop('hdbscan_create_new_cluster', None)
    for nm in ('cluster_detach_points', 'cluster_init', 'cluster_add_points_to_virtual_child_cluster'):
        def mk(nm):
            def h(A, st, i, a):
                v = None
                if nm == 'cluster_init':
                    v = ('p', ('newc', fresh_id()), ZERO)
                elif i.ty != 'void':
                    v = A.fresh(i.ty)
                A.log(st, nm, tuple(st.res(x) if x[0] == 'p' else x for x in a), v, i)
                return [(st, v)]
            return h
        A.hooks[nm] = mk(nm)
    c = Ctx(R, A, fn, None, cfg)
    st = State(); sc = A.record(st, 'hdbscan', 'hdbscan')
    pts = A.list_of(st, 'points', c.isz)
    par = A.record(st, 'parent', 'Cluster')
    cl = ('p', ('arr', 'labels'), ZERO); st.nul[cl[1]] = 'nonnull'; st.reg[cl[1]] = Region('heap', None, 'sym')
    A.nv = A.init['points']['size'][1]
    uns = True
    w = 8 * c.lsz
    lab = ('i', Poly.a(atom(('arg', 'label'), 'label', 0, 2 ** w - 1 if w < 64 else None, w)))
    wt = ('f', ('arg', 'weight'))
    outs = A.run(fn, st, [sc, pts, cl, par, lab, wt])
    R.add('functions')
    data = A.init['points']['data'][1]
    f = [lp for lp in A.loops if any(b == cl[1] for L in lp.latch for b, o, v in writes(c, lp, L))]
    if not f:
        c.bad('relabel', fn.loc(), 'the points of a created cluster do not get its label')
    for lp in f:
        ctr, why = A.steps_over(lp, ZERO, A.nv)
        if ctr is None:
            (c.bad('relabel', lp.loc(), 'relabelling the points %s' % why) if why != '?' else c.und('range of the points relabelled'))
            continue
        for L in lp.latch:
            R.add('passes')
            ws = [(o, v) for b, o, v in writes(c, lp, L) if b == cl[1]]
            if not ws:
                c.bad('relabel', lp.loc(), 'a point of a created cluster does not get its label', L, lp); continue
            for o, (v, sz, ty) in ws:
                k = exact_div(o, Poly.c(c.lsz)); g = A.org(('i', k)) if k is not None else None
                if g is None or g[0] != data:
                    c.und('point relabelled')
                elif g[1] != ctr * c.isz:
                    c.bad('relabel', lp.loc(), 'the point relabelled is not the one of the pass', L, lp)
                if strip(v) != lab:
                    c.bad('relabel', lp.loc(), 'points get another label than that of the created cluster', L, lp)
    n = A.nv
    for x, v in outs:
        R.add('results')
        det = [e for e in x.log if e[0] == 'cluster_detach_points']
        if len(det) != 1 or det[0][1][0] != par or strip(det[0][1][1]) != ('i', n) or det[0][1][2] != wt:
            c.bad('detach', det[0][-1].loc() if det else fn.loc(), 'the points of a created cluster are not detached from the parent, all at its level, exactly once', x)
        ini = [e for e in x.log if e[0] == 'cluster_init']; vc = [e for e in x.log if e[0].startswith('cluster_add_points')]
        if x.eq0(lab[1]):
            if ini:
                c.bad('make', ini[0][-1].loc(), 'a cluster is made for noise', x)
            if not vc or vc[0][1][0] != par or vc[0][1][1] != pts:
                c.bad('make', fn.loc(), 'the noise points are not noted with the parent', x)
        elif x.ne0(lab[1]):
            if len(ini) != 1:
                c.bad('make', fn.loc(), 'no cluster is made for a label', x); continue
            a = ini[0][1]
            names = ('storage', 'label', 'parent', 'level', 'number of points')
            want = (None, lab, par, wt, ('i', n))
            for nm, g, q in zip(names, a, want):
                if q is not None and strip(g) != q:
                    c.bad('make', ini[0][-1].loc(), 'a created cluster has the wrong %s' % nm, x)
            if v is None or v != ini[0][2] and x.res(v) != ini[0][2]:
                c.bad('make', fn.loc(), 'the cluster made is not what is returned', x)
        else:
            c.und('label of a created cluster')


def remover(R, prog, cfg):
    """graph_remove_edge takes each end off the list of the other"""
    fn = prog.get('graph_remove_edge')
    A = HierAI(prog); A.hooks.pop('graph_remove_edge', None)
    c = Ctx(R, A, fn, None, cfg)
    st = State(); g = A.record(st, 'mst', G)
    e = ('p', ('recp', 'mst', 'edges'), ZERO); st.nul[e[1]] = 'nonnull'; st.reg[e[1]] = Region('heap', None, 'sym')
    w = 8 * c.isz
    ab = [('i', Poly.a(atom(('arg', k), k, 0, 2 ** w - 1 if w < 64 else None, w))) for k in ('va', 'vb')]
    outs = A.run(fn, st, [g] + ab)
    R.add('functions')
    for x, v in outs:
        rm = [q for q in x.log if q[0] == 'array_list_remove']
        got = set()
        for q in rm:
            l = q[1]
            if isinstance(l[1], tuple) and l[1][0] == 'ld' and l[1][1] == e[1] and q[2] is not None:
                k = exact_div(l[1][2][1], Poly.c(8))
                got.add((strip(('i', k)), strip(q[2])))
        same = x.eq0(ab[0][1] - ab[1][1])
        for p, q in ((ab[0], ab[1]), (ab[1], ab[0])):
            if (p, q) not in got and not (same and got):
                if any(y[2] is None or y[2][0] == 'at' for y in rm):
                    c.und('removal of an edge')
                else:
                    c.bad('unlink', fn.loc(), 'removing an edge leaves one of its ends a neighbour of the other', x)
        for p, q in got:
            if (p, q) not in ((ab[0], ab[1]), (ab[1], ab[0])):
                c.bad('unlink', fn.loc(), 'removing an edge removes another neighbour', x)


def check(R, tier):
    for cfg in (CONFIGS if tier != 'quick' else [DEFAULT, CONFIGS[4]]):
        prog = build('core', cfg)
        creator(R, prog, cfg); remover(R, prog, cfg)
    for cfg in ([DEFAULT] if tier == 'quick' else [CONFIGS[0], CONFIGS[8], CONFIGS[13]]):
        prog = build('core', cfg)
        check_hier(R, prog, cfg)
    R.need('functions', 2)
    R.assumptions += ['edge weights are not NaN', 'containers behave as in P02 and P03']
