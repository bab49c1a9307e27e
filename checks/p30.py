"""Levels of the hierarchy: the loop that builds it is interpreted with containers and edge removals as events.  Each pass
removes the edges from the heaviest down, each exactly once and with its own two ends, all edges of the weight the pass
started with; both ends and the cluster label of every removed edge that is not among noise are noted as affected; one level
is recorded per pass under the next number, with the weight of the pass and a copy of the labels from before the pass for
every point; new clusters refer to the number of the level recorded in their pass; the labels are carried over for every
point; everything starts in cluster 1 and the level numbered 0 has every point as noise."""
from hierdom import *


class Ctx:
    def __init__(s, R, A, fn, outs, cfg):
        s.R = R; s.A = A; s.fn = fn; s.outs = outs
        w = {'unsigned int': 4, 'unsigned short': 2, 'unsigned long': 8}
        s.isz = w[cfg['INDEX_TYPE']]; s.lsz = w[cfg['LABEL_TYPE']]; s.dsz = 8 if cfg['DISTANCE_TYPE'] == 'double' else 4

    def bad(s, rule, where, msg, L=None, lp=None):
        p = ['%s branch %s' % (t[0], t[1]) for t in L.trace[len(lp.H.trace) if lp else 0:] if t[0] != 'loop'] if L is not None else None
        s.R.violation(rule, where, msg, key='%s|%s' % (rule, msg[:90]), path=p)

    def und(s, m):
        s.R.undecided.append(m)

    def isw(s, t, k):
        """is the float term the weight of edge k?"""
        return isinstance(t, tuple) and t[0] == 'ld' and t[1] == s.A.D['ew'] and t[2][1] == k * s.dsz

    def passed(s, lp, L):
        return [t[2:4] for t in L.trace[len(lp.H.trace):] if t[0] == 'loop']


def edge_loops(c):
    A = c.A
    els = [lp for lp in A.loops if any(e[0] == 'edge' for L in lp.latch for e in A.tail(lp, L))]
    res = []
    for lp in els:
        ks = set()
        v = init = None
        for L in lp.latch:
            c.R.add('passes')
            ev = A.tail(lp, L)
            rm = [e for e in ev if e[0] == 'edge']
            if len(rm) != 1:
                c.bad('remove', lp.loc(), 'a pass over the edges removes %d edges' % len(rm), L, lp); continue
            x, y = A.org(rm[0][2]), A.org(rm[0][3])
            if x is None or y is None:
                c.und('edge removed'); continue
            if {x[0], y[0]} != {A.D['va'], A.D['vb']}:
                c.bad('remove', rm[0][-1].loc(), 'what is removed does not run from the first to the second end of an edge of the tree', L, lp); continue
            if x[1] != y[1]:
                c.bad('remove', rm[0][-1].loc(), 'the ends of the edge removed come from different edges', L, lp); continue
            k = exact_div(x[1], Poly.c(c.isz))
            if k is None:
                c.und('position of the edge removed'); continue
            ks.add(k)
            slot = [(p, a, h) for p, a, h in A.phis(lp) if h is not None and h[0] == 'i' and (k - h[1]).const() is not None]
            if not slot:
                c.und('counter of the edges'); continue
            p, a, h = slot[0]
            n = A.nxt(lp, L, p)
            d = (n[1] - h[1]).const() if n is not None and n[0] == 'i' else None
            if d != -1:
                (c.und('step over the edges') if d is None else c.bad('remove', lp.loc(), 'the position of the edge to remove next changes by %d' % d, L, lp)); continue
            v, init = (p, h, k - h[1]), a
            affected(c, lp, L, ev, x if x[0] == A.D['va'] else y, y if x[0] == A.D['va'] else x)
        if len(ks) != 1 or v is None:
            continue
        k = ks.pop(); p, h, dk = v
        if init is None or init[0] != 'i':
            c.und('first edge of a level'); continue
        k0 = init[1] + dk
        res.append((lp, k0))
        for x in lp.exits:
            c.R.add('level_ends')
            if x.ge(-k - 1):
                continue
            verdict = None
            for (s, t), r in x.ford.items():
                for a, b in ((s, t), (t, s)):
                    if not c.isw(a, k0):
                        continue
                    if '=' in r:
                        if c.isw(b, k) or any(qh is not None and qh[0] == 'f' and qh[1] == b for q, q0, qh in A.phis(lp)):
                            verdict = verdict or 'open'
                        continue
                    if c.isw(b, k):
                        verdict = True; continue
                    ph = [q for q, q0, qh in A.phis(lp) if qh is not None and qh[0] == 'f' and qh[1] == b]
                    if not ph:
                        if isinstance(b, tuple) and b[0] == 'ld' and b[1] == A.D['ew'] and verdict is None:
                            verdict = False
                        continue
                    q = ph[0]
                    q0 = [i for x2, i, h2 in A.phis(lp) if x2 == q][0]
                    ok = q0 is not None and q0[0] == 'f' and c.isw(q0[1], k0)
                    for L in lp.latch:
                        n = A.nxt(lp, L, q); nk = k - 1
                        if n is None or n[0] != 'f' or not c.isw(n[1], nk) and not L.ge(-nk - 1):
                            ok = False
                    verdict = True if verdict is True else ok
            if verdict is None:
                new = [1 for f, r in x.ford.items() if lp.H.ford.get(f) != r]
                if new:
                    c.und('end of the removals of a level')
                else:
                    c.bad('ties', lp.loc(), 'the removals of a level can end although the next edge has the same weight', x, lp)
            elif verdict == 'open':
                c.bad('ties', lp.loc(), 'the removals of a level can end although the next edge has the same weight', x, lp)
            elif verdict is False:
                c.bad('ties', lp.loc(), 'the weight compared with the weight of the level is not that of the next edge', x, lp)
    return res


def affected(c, lp, L, ev, a, b):
    A = c.A
    ins = [e for e in ev if e[0] == 'insert']
    lab = None
    if not ins:
        # the first end must be noise
        for base, cells in L.heap.items():
            for o, (v, sz, ty) in cells.items():
                if isinstance(base, tuple) and base[0] in ('alloca', 'alloc') and sz == c.lsz and v[0] == 'i':
                    q = exact_div(o, Poly.c(c.lsz)) if o.const() is None else None
                    g = A.org(('i', q)) if q is not None else None
                    if g in (a, b):
                        lab = v
                        if L.eq0(v[1]):
                            return
        if lab is None:
            c.bad('affected', lp.loc(), 'the ends of a removed edge are not noted as affected', L, lp)
        else:
            c.bad('affected', lp.loc(), 'the ends of a removed edge of a cluster are not noted as affected', L, lp)
        return
    got = {}
    for e in ins:
        g = A.org(e[2])
        if g is None:
            c.und('what is noted as affected'); return
        if g == a:
            got['a'] = e[1]
        elif g == b:
            got['b'] = e[1]
        else:
            q = exact_div(g[1], Poly.c(c.lsz))
            q = A.org(('i', q)) if q is not None else None
            if q in (a, b):
                got['l'] = e[1]; c.C = g[0]
            else:
                c.bad('affected', e[-1].loc(), 'something other than the ends of the removed edge and their cluster is noted as affected', L, lp); return
    for k, w in (('a', 'the first end of a removed edge'), ('b', 'the second end of a removed edge'), ('l', 'the cluster of a removed edge')):
        if k not in got:
            c.bad('affected', lp.loc(), '%s is not noted as affected' % w, L, lp)
    if len(got) == 3:
        if got['a'] != got['b'] or got['a'] == got['l']:
            c.und('sets of affected points and clusters')
        c.SV, c.SL = got['a'], got['l']


def writes(c, lp, L):
    for b, o in L.writes:
        v = L.heap.get(b, {}).get(o)
        h = lp.H.heap.get(b, {}).get(o)
        if v is not None and v != h:
            yield b, o, v


def fills(c):
    """loops that write every entry of an array of labels once: [(loop, base, kind, source)]"""
    A = c.A; out = []
    for lp in A.loops:
        per = None
        for L in lp.latch:
            cur = {}
            for b, o, (v, sz, ty) in writes(c, lp, L):
                if o.const() is not None or sz != c.lsz or v[0] != 'i' or not isinstance(b, tuple) or b[0] not in ('alloca', 'alloc'):
                    continue
                k = exact_div(o, Poly.c(c.lsz))
                if k is None:
                    continue
                if v[1].const() is not None:
                    cur[b] = (k, ('const', v[1].const()))
                else:
                    g = A.org(v)
                    if g is not None:
                        cur[b] = (k, ('copy', g[0], g[1]))
                    else:
                        # a value set in the same pass
                        cur[b] = (k, ('other',))
            per = cur if per is None else {b: x for b, x in per.items() if cur.get(b) == x}
        for b, (k, src) in (per or {}).items():
            out.append((lp, b, k, src))
    return out


def covers(c, lp, k, what, rule='labels'):
    """do the loop's passes give k every value of [0, number of points)?"""
    ctr, why = c.A.steps_over(lp, ZERO, c.A.nv)
    if ctr is None:
        if why != '?':
            c.bad(rule, lp.loc(), '%s %s' % (what, why))
        else:
            c.und('range of: ' + what)
        return False
    if ctr != k:
        c.bad(rule, lp.loc(), '%s does not keep to the point of the pass' % what)
        return False
    return True


def levels(c, els):
    A = c.A; R = c.R
    FW = A.off('_hierarchy_entry', 'edgeWeight'); FL = A.off('_hierarchy_entry', 'labels')
    table = A.init['hdbscan']['hierarchy']
    elh = {(lp.header, lp.fn.name) for lp, k0 in els}
    fl = fills(c)
    creators = {(lp.header, lp.fn.name) for lp in A.loops if any(e[0] == 'create' for L in lp.latch for e in A.tail(lp, L))}
    lps = [lp for lp in A.loops if any(e[0] == 'put' and e[1] == table for L in lp.latch for e in A.tail(lp, L))]
    if not lps:
        c.bad('record', c.fn.loc(), 'no level is recorded while edges are removed'); return
    prevs = set()
    for lp in lps:
        for L in lp.latch:
            R.add('levels')
            puts = [e for e in A.tail(lp, L) if e[0] == 'put' and e[1] == table]
            if not puts:
                if any(t in creators for t in c.passed(lp, L)):
                    c.bad('record', lp.loc(), 'a level in which clusters were examined is not recorded', L, lp)
                continue
            if len(puts) > 1:
                c.bad('record', puts[1][-1].loc(), 'a level is recorded twice', L, lp); continue
            key, val, inst = puts[0][2], puts[0][3], puts[0][-1]
            # numbering
            if key[0] != 'i':
                c.und('number of a level')
            else:
                num = number(c, lp, L, key[1])
                if num == 'bad':
                    c.bad('number', inst.loc(), 'levels are not numbered 1, 2, 3 ...', L, lp)
                elif num is None:
                    c.und('number of a level')
            # contents
            if val is None or val[0] != 'p':
                c.und('level recorded'); continue
            cells = L.heap.get(val[1], {})
            w = cells.get(val[2] + FW); la = cells.get(val[2] + FL)
            if w is None or w[0][0] != 'f':
                c.und('weight of a level')
            elif not any(c.isw(w[0][1], k0) for e, k0 in els):
                if isinstance(w[0][1], tuple) and (w[0][1][0] in ('ld', 'const', 'fadd', 'fmul') or w[0][1][0] == 'sym'):
                    c.bad('weight', inst.loc(), 'the weight recorded is not that of the edges removed for the level', L, lp)
                else:
                    c.und('weight of a level')
            if la is None or L.res(la[0])[0] != 'p' or L.res(la[0])[1] == 'null':
                c.bad('labels', inst.loc(), 'a level is recorded without labels', L, lp); continue
            lb = L.res(la[0])[1]
            r = L.reg.get(lb)
            if r is not None and r.size is not None and r.size != A.nv * c.lsz and not L.eq0(r.size - A.nv * c.lsz):
                c.bad('labels', inst.loc(), 'the labels of a level do not have one entry per point', L, lp)
            # copies of the labels made in this pass, in order: (position, target, source, loop or None)
            cps = copies(c, fl, lp, L)
            src = [f for f in cps if f[1] == lb]
            if not src:
                c.und('labels of a level'); continue
            pos, b, how, at = src[0]
            if how is None:
                continue
            if how[0] != 'copy':
                c.bad('labels', at, 'the labels recorded for a level are not those of the points before it', L, lp); continue
            P = how[1]
            C = getattr(c, 'C', None)
            if C is None:
                c.und('current labels'); continue
            if P == C:
                c.bad('labels', at, 'the labels recorded for a level are those after its edges are removed', L, lp); continue
            prevs.add(P); c.prevs = prevs
            upd = [f for f in cps if f[1] == P]
            if not upd:
                c.bad('carry', lp.loc(), 'the labels are not carried over to the next level', L, lp); continue
            pos3, b3, how3, at3 = upd[0]
            if how3 is not None:
                if how3[0] != 'copy' or how3[1] != C:
                    c.bad('carry', at3, 'the labels carried over to the next level are not the current labels', L, lp)
                elif pos3 < pos:
                    c.bad('carry', at3, 'the labels are carried over before those of the level are recorded', L, lp)
            offsets(c, lp, L, key)
    # start: everything is in cluster 1
    C = getattr(c, 'C', None)
    for P, nm in [(p, 'previous') for p in prevs] + ([(C, 'current')] if C else []):
        ini = [f for f in fl if f[1] == P and f[3][0] == 'const']
        R.add('initial_labels')
        if not ini:
            c.und('initial labels'); continue
        lp, b, k, how = ini[0]
        if covers(c, lp, k, 'setting the %s labels at the start' % nm, 'start') and how[1] != 1:
            c.bad('start', lp.loc(), 'points do not start in cluster 1')
    final(c, fl, table, FL)
    # the outer loop goes on to the last edge
    for e, k0 in els:
        a = k0.single() if k0.single() is not None else None
        for lp in A.loops:
            hs = [h for p, i, h in A.phis(lp) if h is not None and h[0] == 'i' and a is not None and h[1].single() == a]
            if not hs:
                continue
            for x in lp.exits:
                if any(t in elh for t in c.passed(lp, x)):
                    continue
                R.add('ends')
                if not x.ge(-k0 - 1):
                    new = [p for p in x.facts if p not in lp.H.facts and a in p.atoms()]
                    if new:
                        c.bad('all', lp.loc(), 'edges are left in the tree at the end', x, lp)
                    else:
                        c.und('end of the removals')
    # the first edge is the last of the list
    n = A.init['ew']['size'][1]
    for e, k0 in els:
        i = init_of(c, e, k0)
        d = (i - n).const() if i is not None else None
        if i is None or d is None:
            c.und('first edge')
        elif d != -1:
            c.bad('all', e.loc(), 'removals start at position %+d from the end of the edges' % d)


def copies(c, fl, lp, L):
    A = c.A; out = []
    for n, e in enumerate(A.tail(lp, L)):
        if e[0] == 'copy':
            if e[1][0] != 'p' or e[2][0] != 'p':
                continue
            ok = e[1][2].const() == 0 and e[2][2].const() == 0 and (e[3] == A.nv * c.lsz or L.eq0(e[3] - A.nv * c.lsz))
            if not ok and (e[3] - A.nv * c.lsz).const() is not None or e[3].const() is None and ok is False and set(e[3].t) == set((A.nv * c.lsz).t):
                c.bad('labels', e[-1].loc(), 'a copy of the labels does not have one entry per point', L, lp)
            out.append((n, e[1][1], ('copy', e[2][1]) if ok else None, e[-1].loc()))
        elif e[0] == 'loop':
            for lp2, b, k, how in fl:
                if (lp2.header, lp2.fn.name) != e[1] or (n, b) in [(o[0], o[1]) for o in out]:
                    continue
                if not covers(c, lp2, k, 'the copy of the labels'):
                    out.append((n, b, None, lp2.loc())); continue
                if how[0] == 'copy' and how[2] != k * c.lsz:
                    how = ('other',)
                out.append((n, b, how[:2], lp2.loc()))
    return out


def number(c, lp, L, key):
    """True: key is a counter of the loop plus one and the counter becomes the key, starting from 0"""
    A = c.A
    found = None
    for p, i, h in A.phis(lp):
        if h is not None and h[0] == 'i' and h[1].single() in key.atoms():
            n = A.nxt(lp, L, p)
            found = (i[1] if i is not None and i[0] == 'i' else None, h[1], n[1] if n is not None and n[0] == 'i' else None)
    for b, cells in lp.H.heap.items():
        for o, (v, sz, ty) in cells.items():
            if v[0] == 'i' and v[1].single() is not None and v[1].single() in key.atoms():
                n = L.heap.get(b, {}).get(o); i = lp.S0.heap.get(b, {}).get(o)
                found = (i[0][1] if i is not None and i[0][0] == 'i' else None, v[1], n[0][1] if n is not None and n[0][0] == 'i' else None)
    if found is None:
        return 'bad' if key.const() is not None else None
    i, h, n = found
    if n is None or i is None:
        return None
    i = init_of(c, lp, i)
    i = i.const() if i is not None else None
    dk, dn = (key - h).const(), (n - h).const()
    if dk is None or dn is None or i is None:
        return None
    return True if dn == 1 and i + dk == 1 else 'bad'


def init_of(c, lp, p):
    """what a value set before the loop was at the first entry (through enclosing loops); a polynomial over inputs"""
    for _ in range(6):
        at = [a for a in p.atoms() if ATOMS[a].key[0] == 'fresh']
        if not at:
            return p
        mp = {}
        for l2 in c.A.loops:
            for q, i, h in c.A.phis(l2):
                if h is not None and h[0] == 'i' and h[1].single() in at and i is not None and i[0] == 'i' and i[1] != h[1]:
                    mp[h[1].single()] = i[1]
            for b, cells in l2.H.heap.items():
                for o, (v, sz, ty) in cells.items():
                    if v[0] == 'i' and v[1].single() in at and v[1].single() not in mp:
                        i = l2.S0.heap.get(b, {}).get(o)
                        if i is not None and i[0][0] == 'i' and i[0][1] != v[1]:
                            mp[v[1].single()] = i[0][1]
        if not mp:
            return None
        p = p.subst(mp)
    return None


def offsets(c, lp, L, key):
    """new clusters are given the number of the level"""
    A = c.A
    OF = A.off('Cluster', 'offset')
    order = c.passed(lp, L)
    news = {e[1] for l2 in A.loops for L2 in l2.latch for e in A.tail(l2, L2) if e[0] == 'append' and e[2] is not None and e[2][0] == 'p' and isinstance(e[2][1], tuple) and e[2][1][0] == 'newc' and e[1][1] != ('rec', 'clusters')}
    hit = False
    for l2 in A.loops:
        if (l2.header, l2.fn.name) not in order:
            continue
        for L2 in l2.latch:
            for b, o, (v, sz, ty) in writes(c, l2, L2):
                if o == OF and isinstance(b, tuple) and b[0] == 'ld' and sz == 8:
                    for nl in news:
                        d = L2.heap.get(nl[1], {}).get(A.LO['data'])
                        if d is not None and L2.res(d[0])[1] == b[1]:
                            hit = True
                            c.R.add('offset_writes')
                            n = A.lsize(l2.S0, nl)
                            ctr, why = A.steps_over(l2, ZERO, n)
                            if ctr is None:
                                (c.bad('offset', l2.loc(), 'giving the new clusters their level %s' % why, L2, l2) if why != '?' else c.und('range of the new clusters'))
                            elif b[2][1] != ctr * 8:
                                c.bad('offset', l2.loc(), 'the level is given to another cluster than that of the pass', L2, l2)
                            if v[0] != 'i':
                                c.und('level of a new cluster')
                            elif key[0] == 'i' and v[1] != key[1] and not L2.eq0(v[1] - key[1]):
                                if (v[1] - key[1]).const() is not None:
                                    c.bad('offset', l2.loc(), 'new clusters are given the number of another level', L2, l2)
                                else:
                                    cur = [x for x in (L2.heap.get(bb, {}).get(oo) for bb in L2.heap for oo in L2.heap[bb]) if x is not None and x[0] == v]
                                    c.und('level of a new cluster')
    if not hit:
        if news:
            c.bad('offset', lp.loc(), 'new clusters are not given the number of the level recorded with them', L, lp)
        else:
            c.und('lists of new clusters')
    for nl in news:
        n = A.lsize(L, nl)
        if not L.eq0(n) and not any(e[0] == 'clear' and e[1] == nl for l2 in A.loops for ss in (l2.latch, l2.exits) for X in ss for e in A.tail(l2, X)):
            c.bad('offset', lp.loc(), 'new clusters of one level are still listed as new at the next', L, lp)


def final(c, fl, table, FL):
    A = c.A
    okv = None
    for x, v in c.outs:
        if any(e[0] == 'allocfail' for e in x.log):
            continue
        puts = [e for e in x.log if e[0] == 'put' and e[1] == table]
        c.R.add('results')
        z = [e for e in puts if e[2][0] == 'i' and e[2][1].const() == 0]
        if not z:
            if any(e[2][0] != 'i' or e[2][1].const() is None and init_of(c, None, e[2][1]) is None for e in puts):
                c.und('number of the last level'); continue
            c.bad('final', c.fn.loc(), 'no level numbered 0 with all points as noise is recorded'); continue
        val = z[-1][3]
        la = x.heap.get(val[1], {}).get(val[2] + FL) if val is not None and val[0] == 'p' else None
        if la is None:
            c.und('labels of the last level'); continue
        lb = x.res(la[0])[1]
        src = [f for f in fl if f[1] == lb]
        r = x.reg.get(lb)
        if r is not None and r.size is not None and r.size != A.nv * c.lsz and not x.eq0(r.size - A.nv * c.lsz):
            c.bad('final', z[-1][-1].loc(), 'the labels of the last level do not have one entry per point')
        if src:
            lp, b, k, how = src[0]
            if covers(c, lp, k, 'setting the labels of the last level', 'final') and how != ('const', 0):
                c.bad('final', lp.loc(), 'points are not noise in the last level')
        elif r is None or r.default != 'zero':
            c.und('labels of the last level')


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else [CONFIGS[0], CONFIGS[8], CONFIGS[13]]):
        prog = build('core', cfg)
        A, fn, outs = run_hier(prog)
        c = Ctx(R, A, fn, outs, cfg)
        els = edge_loops(c)
        R.add('edge_loops', len(els))
        levels(c, els)
    R.need('passes', 1)
    R.assumptions += ['edge weights are not NaN', 'edges are sorted by weight', 'called without compaction, as the library does']
