"""Spanning tree construction: the function is interpreted for an arbitrary number of points, distances and core distances.
Obligations: every pass of the scan considers exactly the points not yet attached, takes the greatest of the distance to
the point attached last and the two core distances, keeps the smaller of that and what was kept before together with where
it came from, and keeps the smallest candidate of all; the point of that candidate is attached and becomes the one attached
last; one point is attached per pass and as many passes made as there are other points; each edge runs between a point and
the one it was attached through; self edges, if asked for, follow with the core distances."""
from pipedom import *
from p26 import coreptr
from front import build, DEFAULT, CONFIGS, AnalysisBroken
import re

BIG = {8: 1.7976931348623157e308, 4: 3.4028234663852886e38}


class MstAI(PipeAI):
    MAXP = 64

    def __init__(s, prog):
        PipeAI.__init__(s, prog)
        s.hooks['graph_init'] = MstAI.h_graph
        s.hooks['distance_get'] = MstAI.h_dist

    def h_newlist(s, st, i, args):
        out = PipeAI.h_newlist(s, st, i, args)
        for x, p in out:
            d = x.heap[p[1]][s.LO['data']][0]
            n, k = (args[0], args[1]) if len(args) > 1 else (None, None)
            if n is not None and n[0] == 'i' and k[0] == 'i' and i.d['callee'].get('n') == 'array_list_init':
                x.reg[d[1]].size = n[1] * k[1]
        return out

    def h_dist(s, st, i, args):
        v = s.fresh(i.ty, 'dist')
        s.log(st, 'dist', args, v, i)
        return [(st, v)]

    def h_graph(s, st, i, args):
        s.log(st, 'graph', tuple(st.res(a) if a[0] == 'p' else a for a in args), st.copy(), i)
        v = ('p', ('out', fresh_id(), 'graph'), ZERO)
        y = st.copy(); y.nul[v[1]] = 'null'
        st.nul[v[1]] = 'nonnull'
        return [(st, v), (y, v)]

    def bulk_write(s, st, d, n, kind, *a):
        s.log(st, 'bulk', st.res(d), n, kind)
        return PipeAI.bulk_write(s, st, d, n, kind, *a)

    def on_store(s, st, inst, ptr, val, size):
        p = st.res(ptr)
        if p[0] == 'p':
            st.log = st.log + (('store', p, val, size, inst),)


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('core', cfg)
        fn = prog.get('hdbscan_construct_mst')
        for one in (False, True):
            run(R, prog, fn, cfg, one)
    R.need('functions', 1)
    R.assumptions += ['distances and core distances are not NaN', 'there is at least one point', 'the number of points fits int', 'allocation of the three lists succeeds']


def run(R, prog, fn, cfg, one):
    A = MstAI(prog)
    for n in ('set_init', 'array_list_init', 'ptr_array_list_init'):
        A.hooks[n] = MstAI.h_newlist
    st = State(); sc = A.record(st, 'hdbscan', 'hdbscan')
    N = A.init['hdbscan']['numPoints'][1]
    if one:
        N = ONE
        A.put(st, 'hdbscan', 'hdbscan', 'numPoints', I(1))
    else:
        st.add_ge(N - 2)
    st.add_ge(Poly.c(2 ** (16 if cfg['INDEX_TYPE'] == 'unsigned short' else 31) - 2) - N)
    outs = A.run(fn, st, [sc])
    A.frozen = True
    Judge(R, A, fn, outs, cfg, N)


class Judge:
    def __init__(s, R, A, fn, outs, cfg, N):
        s.R = R; s.A = A; s.fn = fn; s.outs = outs; s.N = N
        w = {'unsigned int': 4, 'unsigned short': 2, 'unsigned long': 8}
        s.isz = w[cfg['INDEX_TYPE']]; s.dsz = 8 if cfg['DISTANCE_TYPE'] == 'double' else 4
        off = {f['name']: f['off'] for f in A.prog.ditypes['hdbscan']['fields']}
        dd = {f['name']: f['off'] for f in A.prog.ditypes['Distance']['fields']}
        s.core = Poly.c(off['distanceFunction'] + dd['coreDistances'])
        R.add('functions')
        s.final()

    def bad(s, rule, where, msg, L=None, lp=None):
        p = ['%s branch %s' % (t[0], t[1]) for t in L.trace[len(lp.H.trace) if lp else 0:] if t[0] != 'loop'] if L is not None else None
        s.R.violation(rule, where, msg, key='%s|%s' % (rule, msg[:90]), path=p)

    def und(s, m):
        s.R.undecided.append(m)

    def tail(s, lp, L, kind):
        return [e for e in L.log[len(lp.H.log):] if e[0] == kind]

    def stores(s, lp, L, base):
        return [e for e in s.tail(lp, L, 'store') if e[1][1] == base]

    def loops(s, base, among=None):
        return [lp for lp in (s.A.loops if among is None else among) if any(s.stores(lp, L, base) for L in lp.latch)]

    def same(s, st, a, b):
        return a == b or st.eq0(a - b) or unz(a) == unz(b) or st.eq0(unz(a) - unz(b))

    def iscore(s, st, t):
        """position of the point whose core distance the term is"""
        if isinstance(t, tuple) and t[0] == 'ld' and isinstance(t[1], tuple) and coreptr(s.A, st, t[1], s.core):
            return exact_div(t[2][1], Poly.c(s.dsz)) if t[2][1].t else ZERO
        return None

    # ---- results
    def final(s):
        R, A = s.R, s.A
        seen = set(); n = 0
        for x, v in s.outs:
            R.add('results')
            g = [e for e in x.log if e[0] == 'graph']
            ok = v is not None and v[0] == 'i' and v[1].const() == 0
            if not g:
                if ok and not x.ge(-s.N):
                    s.bad('status', s.fn.loc(), 'success is reported although no graph was made', x)
                continue
            e = g[-1]; m = A.get(x, 'hdbscan', 'hdbscan', 'mst')
            if ok:
                if m is None or m[0] != 'p' or not (isinstance(m[1], tuple) and m[1][0] == 'out'):
                    s.bad('status', s.fn.loc(), 'success is reported but the graph is not kept', x)
                elif x.nullness(m) != 'nonnull':
                    s.bad('status', s.fn.loc(), 'success is reported although the graph could not be made', x)
            elif v is not None and v[0] == 'i' and v[1].const() is not None and m is not None and m[0] == 'p' and isinstance(m[1], tuple) and m[1][0] == 'out' and x.nullness(m) == 'nonnull':
                s.bad('status', s.fn.loc(), 'a graph that was made is reported as failure', x)
            k = (e[2].trace)
            if k in seen:
                continue
            seen.add(k); n += 1
            s.graph(e)
        if not n:
            s.und('no graph made')

    def graph(s, e):
        R, A, N = s.R, s.A, s.N
        args, st, inst = e[1], e[2], e[3]
        R.add('graphs')
        if len(args) != 5 or any(a[0] != 'p' for a in args[2:]):
            s.und('arguments of the graph'); return
        if args[1][0] == 'i' and not s.same(st, args[1][1], N):
            (s.bad('graph', inst.loc(), 'the graph is not made for the number of points') if args[1][1].const() is not None or (args[1][1] - N).const() is not None else s.und('points of the graph'))
        se = A.init['hdbscan']['selfEdges'][1]
        self_ = True if st.eq0(se - 1) else False if st.ne0(se - 1) or st.ge(-se) or st.ge(se - 2) else None
        if self_ is None:
            self_ = None
        D = []
        for a in args[2:]:
            c = st.heap.get(a[1], {})
            d = c.get(A.LO['data']); z = c.get(A.LO['size'])
            if d is None or z is None:
                s.und('lists of the graph'); return
            D.append(st.res(d[0])[1])
            if self_ is not None and z[0][0] == 'i':
                want = N - 1 + (N if self_ else ZERO)
                if not s.same(st, z[0][1], want):
                    q = z[0][1]
                    (s.bad('size', inst.loc(), 'a list of the edges has %s entries instead of %s' % (q, want), st) if q.atoms() <= N.atoms() else s.und('size of the lists'))
                else:
                    R.add('sizes')
        if len(set(D)) != 3:
            s.bad('graph', inst.loc(), 'the same list is used twice for the graph'); return
        s.VA, s.VB, s.W = D
        loops = A.loops_of(st)
        inner = scans = [lp for lp in A.loops if any(s.tail(lp, L, 'dist') for L in lp.latch)]
        mains = [lp for lp in loops if any(q in inner and q is not lp for L in lp.latch for q in A.loops_of_tail(L, len(lp.H.trace)))]
        if not mains:
            if st.ge(1 - N):
                pass
            elif not scans:
                s.bad('main', s.fn.loc(), 'no distance is ever looked at')
            else:
                s.und('loop that attaches the points')
            return
        main = mains[-1]
        s.main(st, main, inner, loops, self_)
        if self_:
            s.selfs(st, loops, main)

    # ---- attaching
    def main(s, st, main, inner, loops, self_):
        R, A, N = s.R, s.A, s.N
        early = []
        ks = A.counter(main, [N, N - 1], early)
        k = [q for q in ks if q[2] - q[1] == N - 1 or main.H.eq0(q[2] - q[1] - N + 1)]
        if not k:
            if early:
                s.bad('main', main.loc(), 'attaching points can stop before all are attached'); return
            q = [(q[2] - q[1]) for q in ks]
            if q and all((d - N).const() is not None for d in q):
                s.bad('main', main.loc(), 'points are attached %s times' % q[0]); return
            s.und('number of passes'); return
        ctr, lo, hi = k[0]
        cur = start = None
        for L in main.latch:
            R.add('attachments')
            n = len(main.H.trace)
            sub = [lp for lp in A.loops_of_tail(L, n) if lp in inner]
            if len(sub) != 1:
                s.und('scan of a pass'); continue
            scan = sub[0]
            c, best = s.scan(main, scan, self_)
            if c is None:
                continue
            slots = [(p, a, h) for p, a, h in phis(A, main) if h is not None and h[0] == 'i' and h[1] == c]
            if not slots:
                s.bad('attach', main.loc(), 'distances are always taken to the same point') if c.const() is not None or c.atoms() <= N.atoms() else s.und('point attached last'); continue
            p, a, h = slots[0]
            nx = A.slot_value(L, p, True)
            if best is None:
                continue
            b = best[1]
            # the point attached
            at = [e for e in s.tail(main, L, 'store') if e[1][1] == s.att and not any(x is e for x in scan.H.log)]
            w = s.attw
            if not at:
                s.bad('attach', main.loc(), 'the point found is not marked as attached', L, main); continue
            hit = [e for e in at if s.same(L, e[1][2], b * w)]
            if not hit:
                s.bad('attach', at[-1][4].loc(), 'a point other than the one found is marked as attached', L, main) if idx(at[-1][1][2]) <= known(A, main, scan) | N.atoms() else s.und('point marked'); continue
            v = hit[-1][2]
            if v[0] != 'i' or v[1].const() is None:
                s.und('mark')
            elif v[1].const() == 0:
                s.bad('attach', hit[-1][4].loc(), 'the point found is marked as not attached', L, main); continue
            if nx is None or nx[0] != 'i':
                s.und('point attached last'); continue
            if not s.same(L, nx[1], b):
                r = [q for q in (nx[1],) if q.atoms() <= known(A, main, scan) | N.atoms()]
                s.bad('attach', main.loc(), 'the next distances are not taken to the point just attached', L, main) if r else s.und('next point')
                continue
            cur = p; start = a
        if start is not None:
            s.begin(st, main, loops, start)
        s.others(main, ctr, lo, loops, st)

    def scan(s, main, scan, self_):
        """(value of the point attached last, (slot, value) of the best point)"""
        R, A, N = s.R, s.A, s.N
        cur = None
        early = []
        ks = A.counter(scan, [N, N - 1, ZERO], early)
        want = [q for q in ks if s.same(scan.H, q[1], ZERO) and (s.same(scan.H, q[2], N) or s.same(scan.H, q[2], N - 1))]
        if not want:
            if early:
                s.bad('scan', scan.loc(), 'looking at the points can stop before the last one')
            elif any((q[1].const() is not None or q[1].atoms() <= N.atoms() | set(a for p, i, h in phis(A, main) if h is not None and h[0] == 'i' for a in h[1].atoms())) and (q[2] - N).const() is not None for q in ks):
                q = ks[0]
                s.bad('scan', scan.loc(), 'only points %s to %s are looked at' % (q[1], q[2] - 1))
            else:
                s.und('points looked at')
            return None, None
        j = want[0][0]
        bs = set(); dists = set()
        s.att = None; s.attw = None
        for L in scan.latch:
            R.add('passes')
            st = s.tail(scan, L, 'store'); ds = s.tail(scan, L, 'dist')
            if len(ds) > 1:
                s.und('several distances in a pass'); continue
            att = attached(A, L, j)
            if att is not None:
                s.att, s.attw = att[1], att[2]
            if not ds:
                R.add('skipped')
                if att is not None and att[0] is True:
                    pass
                elif any(L.eq0(j - h[1]) for p, a, h in phis(A, main) if h is not None and h[0] == 'i'):
                    pass
                else:
                    s.bad('scan', scan.loc(), 'a point that is not attached yet can be passed over', L, scan)
                if any(e[1][1] in (s.VA, s.VB, s.W) for e in st):
                    s.und('change for a point passed over')
                s.keep(scan, L, None, j, None, bs, main)
                continue
            R.add('considered')
            a = [x[1] for x in ds[0][1][1:3] if x[0] == 'i']
            o = [x for x in a if not s.same(L, x, j)]
            if len(a) != 2 or len(o) != 1:
                s.bad('scan', ds[0][3].loc(), 'the distance looked at is not one of the point', L, scan) if len(a) == 2 and all(len(x.atoms()) <= 1 for x in a) else s.und('distance looked at'); continue
            if cur is not None and o[0] != cur:
                s.und('point attached last'); continue
            cur = o[0]
            if att is None or att[0] is not False:
                s.bad('scan', ds[0][3].loc(), 'a point that is attached already can be considered again', L, scan); continue
            t = ds[0][2][1]
            T = {('d',): t}
            for x in allterms(L):
                q = s.iscore(L, x)
                if q is not None:
                    if s.same(L, q, j):
                        T[('j',)] = x
                    elif s.same(L, q, cur):
                        T[('c',)] = x
            old = None
            for x in allterms(L):
                if isinstance(x, tuple) and x[0] == 'ld' and x[1] == s.W and s.same(L, x[2][1], j * s.dsz):
                    old = x
            wr = [e for e in st if e[1][1] == s.W]
            nb = [e for e in st if e[1][1] in (s.VA, s.VB)]
            if not wr:
                if nb:
                    s.bad('candidate', nb[0][4].loc(), 'the other end of an edge changes while its weight does not', L, scan); continue
                if old is None:
                    s.bad('candidate', scan.loc(), 'a distance is not compared with the smallest one so far', L, scan); continue
                # old <= max(T)
                if not any('>' not in A.frel(L, old, y) for x in T.values() for y in [x]) and not any('>' not in A.frel(L, old, z) for z in maxes(L, T)):
                    s.bad('candidate', scan.loc(), 'a mutual reachability distance smaller than the one kept can be passed over', L, scan); continue
                s.keep(scan, L, old, j, cur, bs, main)
                continue
            R.add('updated')
            e = wr[-1]
            if not s.same(L, e[1][2], j * s.dsz):
                s.bad('candidate', e[4].loc(), 'the weight is kept for another point', L, scan) if (e[1][2] - j * s.dsz).const() is not None or s.same(L, e[1][2], cur * s.dsz) else s.und('weight kept'); continue
            v = e[2][1] if e[2][0] == 'f' else None
            ok = s.reach(L, v, T, e, scan)
            if not ok:
                continue
            if old is None:
                s.bad('candidate', e[4].loc(), 'a weight is replaced without regard to the one kept before', L, scan); continue
            if v != old and '>' in A.frel(L, v, old):
                s.bad('candidate', e[4].loc(), 'a weight can be replaced by a greater one', L, scan); continue
            if v != old:
                if len({q[1][1] for q in nb}) != 1:
                    s.bad('candidate', e[4].loc(), 'the weight of an edge changes while its other end does not', L, scan) if not nb else s.und('both ends change'); continue
                q = nb[-1]
                s.nbase = q[1][1]
                if not s.same(L, q[1][2], j * s.isz):
                    s.bad('candidate', q[4].loc(), 'the other end is kept for another point', L, scan) if (q[1][2] - j * s.isz).const() is not None or s.same(L, q[1][2], cur * s.isz) else s.und('other end kept'); continue
                if q[2][0] != 'i' or not s.same(L, q[2][1], cur):
                    s.bad('candidate', q[4].loc(), 'the other end kept is not the point the distance was taken to', L, scan) if q[2][0] == 'i' and q[2][1].atoms() <= known(A, main, scan) | N.atoms() else s.und('other end'); continue
            s.keep(scan, L, v, j, cur, bs, main)
        if s.att is None:
            s.und('marks of attached points'); return None, None
        if cur is None:
            s.und('point attached last'); return None, None
        if len(bs) != 1:
            if not bs:
                s.und('closest point')
            return cur, None
        # the value of the best point after the scan
        pslot = bs.pop()
        h = [h for p, a, h in phis(A, scan) if p == pslot]
        return cur, (pslot, h[0][1])

    def reach(s, L, v, T, e, scan):
        """is v the greatest of the distance and the two core distances?"""
        A = s.A
        names = {('d',): 'the distance', ('j',): 'the core distance of the point', ('c',): 'the core distance of the point attached last'}
        if v is None:
            s.und('weight'); return False
        parts = fmaxes(v)
        if not any(p in T.values() for p in parts):
            if isinstance(v, tuple) and v[0] == 'ld' and (s.iscore(L, v) is not None or v[1] == s.W):
                s.bad('reach', e[4].loc(), 'the weight kept belongs to other points', L, scan)
            elif fconst(v) is not None or isinstance(v, tuple) and v[0] in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
                s.bad('reach', e[4].loc(), 'the weight kept is not a mutual reachability distance', L, scan)
            else:
                s.und('weight')
            return False
        if any(p not in T.values() for p in parts):
            s.und('weight'); return False
        for k in names:
            x = T.get(k)
            if x is None:
                s.bad('reach', e[4].loc(), '%s is not taken into account' % names[k], L, scan); return False
            if x in parts:
                continue
            if '>' in A.frel(L, x, v) and not any('>' not in A.frel(L, x, y) for y in parts):
                s.bad('reach', e[4].loc(), '%s can be greater than the weight kept' % names[k], L, scan); return False
        return True

    def keep(s, scan, L, d, j, cur, bs, main=None):
        """the closest candidate: variables that hold the smallest weight and its point"""
        A = s.A
        P = [(p, a, h) for p, a, h in phis(A, scan) if h is not None and h[0] == 'f']
        I_ = [(p, a, h) for p, a, h in phis(A, scan) if h is not None and h[0] == 'i' and h[1] != j and h[1].single() is not None]
        chg = [q for q in I_ if (lambda n: n is None or n[0] != 'i' or n[1] != q[2][1])(A.slot_value(L, q[0], True))]
        if d is None:
            if any(A.slot_value(L, q[0], True) != q[2] for q in P + I_):
                s.bad('closest', scan.loc(), 'the closest point changes with a point passed over', L, scan)
            return
        if len(P) != 1:
            cs = [y for (x, y) in list(L.ford) + [(y, x) for x, y in L.ford] if x == d and fconst(y) is not None]
            if not P and chg and cs:
                s.bad('closest', scan.loc(), 'a point replaces the closest one without regard to its weight', L, scan)
            else:
                s.und('smallest weight')
            return
        p, a, h = P[0]
        c0 = fconst(a[1]) if a is not None and a[0] == 'f' else None
        if c0 is not None and c0 < BIG[s.dsz]:
            s.bad('closest', scan.loc(), 'the search for the closest point starts with %s, which weights can exceed' % c0)
        if c0 is None and a is not None and main is not None and any(x is not None and x == a for q, i, x in phis(A, main)):
            s.bad('closest', scan.loc(), 'the search for the closest point starts with the smallest weight of the search before')
        n = A.slot_value(L, p, True)
        if n is None:
            s.und('smallest weight'); return
        if n == h:
            if chg:
                s.bad('closest', scan.loc(), 'the closest point changes while its weight does not', L, scan); return
            if '<' in A.frel(L, d, h[1]):
                s.bad('closest', scan.loc(), 'a point closer than the closest one so far can be passed over', L, scan)
            s.R.add('closest')
            return
        if n[0] != 'f' or n[1] != d:
            t = n[1] if n[0] == 'f' else None
            known_ = t is not None and (isinstance(t, tuple) and t[0] == 'ld' or fconst(t) is not None or any(t == x[2][1] for x in L.log if x[0] == 'dist'))
            s.bad('closest', scan.loc(), 'what is kept as the smallest weight is not the weight of the point', L, scan) if known_ else s.und('smallest weight'); return
        if '>' in A.frel(L, d, h[1]) and not any(L.ge(-q[2][1] - 1) and q[1] is not None and q[1][0] == 'i' and L.ge(-q[1][1] - 1) for q in chg):
            s.bad('closest', scan.loc(), 'a point farther than the closest one so far can replace it', L, scan); return
        if not chg:
            s.bad('closest', scan.loc(), 'the smallest weight changes while its point does not', L, scan); return
        if len(chg) > 1:
            s.und('closest point'); return
        v = A.slot_value(L, chg[0][0], True)
        if v is None or v[0] != 'i' or not s.same(L, v[1], j):
            s.bad('closest', scan.loc(), 'the point kept as closest is not the one with the smallest weight', L, scan) if v is not None and v[0] == 'i' and v[1].atoms() <= j.atoms() | (cur.atoms() if cur is not None else set()) else s.und('closest point'); return
        s.R.add('closest')
        bs.add(chg[0][0])

    # ---- before
    def begin(s, st, main, loops, start):
        R, A, N = s.R, s.A, s.N
        S0 = main.S0
        if start is None or start[0] != 'i':
            s.und('first point'); return
        s0 = start[1]
        if not s.same(S0, s0, N - 1):
            (s.bad('begin', main.loc(), 'the tree starts with point %s, whose place among the edges is then left over' % s0) if s0.atoms() <= N.atoms() else s.und('first point')); return
        before = [lp for lp in loops if lp is not main and len(lp.H.log) <= len(S0.log) and S0.log[:len(lp.H.log)] == lp.H.log or lp in A.loops_of(S0)]
        # marks
        mk = [e for e in S0.log if e[0] == 'store' and e[1][1] == s.att]
        true = [e for e in mk if e[2][0] == 'i' and e[2][1].const() not in (0, None) and s.same(S0, e[1][2], s0 * s.attw)]
        if not true:
            s.bad('begin', main.loc(), 'the first point is not marked as attached') if all((e[1][2] - N * s.attw).const() is not None or e[1][2].const() is not None for e in mk) else s.und('mark of the first point')
        fill = self_fill = None
        for lp in s.loops(s.att, A.loops_of(S0)):
            fill = lp
            r = s.cover(lp, s.att, s.attw, lambda L, q, v: v[0] == 'i' and v[1].const() == 0)
            if r is None:
                s.und('marks'); continue
            lo, hi, ok = r
            if not ok:
                s.bad('begin', lp.loc(), 'points are marked as attached at the start')
            elif not s.same(lp.H, lo, ZERO) or not (s.same(lp.H, hi, N - 1) or s.same(lp.H, hi, N)):
                s.bad('begin', lp.loc(), 'only points %s to %s are marked as not attached' % (lo, hi - 1)) if (lo.const() is not None and (hi - N).const() is not None or hi.const() is not None) else s.und('marks')
            else:
                R.add('prepared')
        if fill is None and s.att is not None:
            z = [e for e in S0.log if e[0] == 'bulk' and e[1][1] == s.att]
            if z and (z[-1][2] is None or z[-1][3] != 'zero'):
                s.und('marks')
            elif z and not (s.same(S0, z[-1][1][2], ZERO) and S0.ge(z[-1][2] - (N - 1) * s.attw)):
                s.bad('begin', main.loc(), 'only %s bytes of the marks are cleared' % z[-1][2]) if z[-1][2].atoms() <= N.atoms() and z[-1][1][2].const() is not None else s.und('marks')
            elif z or 'calloc' in repr(s.att):
                R.add('prepared')
            else:
                s.bad('begin', main.loc(), 'the points are not marked as not attached')
        # weights
        ok = False
        for lp in s.loops(s.W, A.loops_of(S0)):
            if lp is main:
                continue
            r = s.cover(lp, s.W, s.dsz, lambda L, q, v: v[0] == 'f' and fconst(v[1]) is not None and fconst(v[1]) >= BIG[s.dsz])
            ok = True
            if r is None:
                s.und('weights at the start'); continue
            lo, hi, good = r
            if not good:
                s.bad('begin', lp.loc(), 'weights start with a value that distances can exceed')
            elif not s.same(lp.H, lo, ZERO) or not lp.H.ge(hi - N + 1):
                s.bad('begin', lp.loc(), 'only the weights of points %s to %s are prepared' % (lo, hi - 1)) if lo.const() is not None and (hi - N).const() is not None else s.und('weights at the start')
            else:
                R.add('prepared')
        if not ok:
            s.bad('begin', main.loc(), 'the weights have no value at the start')

    def cover(s, lp, base, w, good):
        """(lo, hi, every value good) of the positions a loop fills"""
        A = s.A
        ks = A.counter(lp, [s.N, s.N - 1, ZERO])
        for v, lo, hi in ks:
            d = None; g = True
            for L in lp.latch:
                e = s.stores(lp, L, base)
                if len(e) != 1:
                    d = None; break
                q = exact_div(e[0][1][2], Poly.c(w)) if e[0][1][2].t else ZERO
                if q is None:
                    return None
                dd = q - v
                if any(a in v.atoms() for a in dd.atoms()) or d is not None and dd != d:
                    d = None; break
                d = dd
                g = g and good(L, q, e[0][2])
            if d is not None:
                return lo + d, hi + d, g
        return None

    # ---- the other ends and self edges
    def others(s, main, ctr, lo, loops, st):
        """edge k runs from point k: the list that does not take the other ends holds k at position k"""
        A, N = s.A, s.N
        nb = getattr(s, 'nbase', None)
        if nb is None:
            return
        ob = s.VB if nb == s.VA else s.VA
        fit = False; seen = False
        for lp in s.loops(ob, loops):
            if lp is not main and s.selfloop(lp, ob):
                continue
            seen = True
            bad = []
            r = s.cover(lp, ob, s.isz, lambda L, q, v: (bad.append((L, v, q)) or False) if v[0] == 'i' and not s.same(L, v[1], q) else True)
            if r is None:
                s.und('ends of the edges'); fit = None; break
            l, h, ok = r
            if not ok:
                if lp is main or fit:
                    L, v, q = bad[0]
                    if (v[1] - q).const() is not None or v[1].atoms() <= q.atoms() | s.N.atoms() | set(a for p, i, x in phis(A, main) if x is not None and x[0] == 'i' for a in x[1].atoms()):
                        s.bad('ends', lp.loc(), 'an edge does not start at the point whose weight it has', L, lp)
                        fit = None
                    else:
                        s.und('ends of the edges'); fit = None
                continue
            if s.same(lp.H, l, ZERO) and lp.H.ge(h - N + 1):
                fit = True
            elif lp is main:
                s.bad('ends', lp.loc(), 'the ends of edges %s to %s only are recorded' % (l, h - 1)); fit = None
        if fit:
            s.R.add('ends')
        elif fit is False:
            s.bad('ends', main.loc(), 'the ends of the edges are not recorded')

    def selfloop(s, lp, base):
        return any(s.iscore(L, e[2][1]) is not None for L in lp.latch for e in s.stores(lp, L, s.W) if e[2][0] == 'f')

    def selfs(s, st, loops, main):
        R, A, N = s.R, s.A, s.N
        sl = [lp for lp in loops if lp is not main and s.selfloop(lp, s.W)]
        if not sl:
            s.bad('self', s.fn.loc(), 'no self edges are added although they were asked for', st) if not any(lp.H.log[:len(main.H.log)] == main.H.log and lp is not main for lp in loops if s.stores_any(lp)) else s.und('self edges')
            return
        lp = sl[-1]
        if st.log[:len(main.S0.log)] == main.S0.log and len(lp.H.log) < len(main.S0.log) + 1 and lp in A.loops_of(main.S0):
            s.und('self edges before the tree')
        for base, w, what in ((s.VA, s.isz, 'end'), (s.VB, s.isz, 'end'), (s.W, s.dsz, 'weight')):
            R.add('self_edges')
            why = []

            def good(L, q, v):
                i = q - (N - 1)
                if base == s.W:
                    c = s.iscore(L, v[1]) if v[0] == 'f' else None
                    if c is None or not s.same(L, c, i):
                        why.append(c is not None); return False
                    return True
                if v[0] != 'i' or not s.same(L, v[1], i):
                    why.append(v[0] == 'i' and (v[1] - i).atoms() <= N.atoms() | q.atoms()); return False
                return True
            r = s.cover(lp, base, w, good)
            if r is None:
                if not any(s.stores(lp, L, base) for L in lp.latch):
                    s.bad('self', lp.loc(), 'the %s of self edges is not recorded' % what)
                else:
                    s.und('self edges')
                continue
            lo, hi, ok = r
            if not (s.same(lp.H, lo, N - 1) and s.same(lp.H, hi, 2 * N - 1)):
                s.bad('self', lp.loc(), 'self edges take places %s to %s instead of %s to %s' % (lo, hi - 1, N - 1, 2 * N - 2)) if lo.atoms() | hi.atoms() <= N.atoms() else s.und('places of self edges')
            elif not ok:
                s.bad('self', lp.loc(), 'the %s of a self edge belongs to another point' % what) if all(why) else s.und('self edges')

    def stores_any(s, lp):
        return any(e[1][1] in (s.VA, s.VB, s.W) for L in lp.latch for e in s.tail(lp, L, 'store'))


def phis(A, lp):
    for p in lp.fn.blocks[lp.header].insts:
        if p.op != 'phi':
            break
        yield ('phi', p.id), lp.S0.env.get(p.id), lp.H.env.get(p.id)
    for b, cells in lp.H.heap.items():
        if not (isinstance(b, tuple) and b[0] in ('alloca', 'alloc')):
            continue
        z = lp.S0.heap.get(b, {})
        for o, (v, sz, ty) in cells.items():
            i = z.get(o)
            if i is not None and i[0] != v and o.const() is not None:
                yield ('cell', b, o), i[0], v


def unz(p):
    """indices read as unsigned"""
    for a in list(p.atoms()):
        k = ATOMS[a].key
        if k[0] == 'zext':
            p = p.subst({a: k[1]})
    return p


def known(A, *lps):
    return set(a for lp in lps for p, i, h in phis(A, lp) if h is not None and h[0] == 'i' for a in h[1].atoms())


def idx(p):
    return p.atoms()


def fmaxes(t):
    if isinstance(t, tuple) and t[0] == 'call' and len(t) == 4 and re.match(r'(fmax[fl]?|llvm\.maxnum\..*|llvm\.maximum\..*)$', t[1]):
        return fmaxes(t[2]) + fmaxes(t[3])
    if isinstance(t, tuple) and t[0] in ('fmax',):
        return fmaxes(t[1]) + fmaxes(t[2])
    return [t]


def allterms(L):
    out = set()
    for a, b in L.ford:
        for t in (a, b):
            for q in fmaxes(t):
                out.add(q)
            out.add(t)
    for e in L.log:
        if e[0] == 'store' and e[2][0] == 'f':
            for q in fmaxes(e[2][1]):
                out.add(q)
    for v in L.env.values():
        if v is not None and v[0] == 'f' and isinstance(v[1], tuple):
            for q in fmaxes(v[1]):
                out.add(q)
    return out


def maxes(L, T):
    """terms that are the greatest of T's members by construction"""
    return [t for t in allterms(L) if len(fmaxes(t)) > 1 and all(q in T.values() for q in fmaxes(t))]


def attached(A, L, j):
    """(truth, base, width) of the mark read for point j"""
    for f in L.facts:
        for a in f.atoms():
            k = ATOMS[a].key
            r = mark(k, j)
            if r is not None:
                b, w = r
                v = Poly.a(a)
                if L.eq0(v):
                    return False, b, w
                if L.eq0(v - 1) or L.ge(v - 1) or L.ne0(v):
                    return True, b, w
                if L.ne0(v - 1):
                    return False, b, w
    for q in L.diseq:
        for a in q.atoms():
            r = mark(ATOMS[a].key, j)
            if r is not None:
                v = Poly.a(a)
                if q == v or q == -v:
                    return True, r[0], r[1]
                return False, r[0], r[1]
    return None


def mark(k, j):
    if k[0] == 'zext':
        p = k[1]
        if isinstance(p, Poly) and p.single() is not None:
            return mark(ATOMS[p.single()].key, j)
        return None
    if k[0] != 'ld' or not (isinstance(k[1], tuple) and k[1][0] in ('alloca', 'alloc')):
        return None
    off = k[2]
    if not isinstance(off, Poly):
        return None
    for w in (1, 2, 4, 8):
        if off == j * w:
            return k[1], w
    return None
