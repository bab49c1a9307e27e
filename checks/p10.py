"""Core distances: the computation is interpreted for an arbitrary number of points and neighbours.  The buffer of the
nearest distances is described by universally quantified order facts (no entry before p is greater than the distance at
hand, no entry from p on is smaller), inferred as invariants of the search loop.  Induction over the points scanned: the
buffer starts with nothing but the greatest value; a distance that is left out is not smaller than the last entry; one that
goes in goes to a position p with both facts, entries before stay, those after move up by one.  So it always holds the
smallest distances seen, in order, and its last entry, taken once every point was scanned, is the core distance."""
from distdom import *
from seqdom import scen

BIG = {8: 1.7976931348623157e308, 4: 3.4028234663852886e38}


class CoreAI(DistAI):
    S = None
    inside = 0

    def __init__(s, prog):
        DistAI.__init__(s, prog)
        s.over = []

    def call_hook(s, st, i, name, args):
        if name == 'distance_get':
            v = s.fresh(i.ty, 'dist')
            st.log = st.log + (('dist', args, v, i),)
            return [(st, v)]
        if name == 'qsort':
            st.log = st.log + (('qsort', st.res(args[0]), i),)
        return DistAI.call_hook(s, st, i, name, args)

    def on_store(s, st, inst, ptr, val, size):
        p = st.res(ptr)
        if p[0] == 'p':
            s.bound(st, p, Poly.c(size), inst)
            st.log = st.log + (('store', p, val, size, inst),)

    def on_memcpy(s, st, i, d, sr, n, kind):
        if n is not None:
            for p in (st.res(d), st.res(sr)):
                if p[0] == 'p':
                    s.bound(st, p, n, i)
        st.log = st.log + (('copy', st.res(d), st.res(sr), n, kind, i),)

    def bound(s, st, p, n, i):
        r = st.reg.get(p[1])
        if not s.quiet and r is not None and r.size is not None and isinstance(p[1], tuple) and p[1][0] in ('alloca', 'alloc'):
            if not (st.ge(p[2]) and st.ge(r.size - p[2] - n)):
                s.over.append((i, st, p, n, r.size))
            else:
                s.inside += 1

    def make_header(s, fn, phis, S0, havoc, bulk, *a):
        H, f, c = DistAI.make_header(s, fn, phis, S0, havoc, bulk, *a)
        for b in set(bulk) | {x[0] for x in havoc}:
            H.log = H.log + (('havoc', b),)
        return H, f, c

    # ---- order facts about the buffer
    def entry(s, t, st=None):
        """position of the buffer entry a term reads"""
        if isinstance(t, tuple) and t[0] == 'ld' and isinstance(t[1], tuple) and t[1][0] == 'alloca' or isinstance(t, tuple) and t[0] == 'ld' and isinstance(t[1], tuple) and t[1][0] == 'alloc':
            return t[1], exact_div(t[2][1], Poly.c(s.dsz)) if t[2][1].t else ZERO, t[2][2]
        return None

    def dist_of(s, st):
        for e in reversed(st.log):
            if e[0] == 'dist':
                return e[2][1]
        return None

    def entails_pred(s, st, g, t=None):
        if g in st.preds:
            return True
        k, p = g[0], g[1]
        if k not in ('LE', 'GE'):
            return False
        if k == 'LE' and st.ge(-p) or k == 'GE' and s.S is not None and st.ge(p - s.S):
            return True
        for q in st.preds:
            if q[0] == k and (st.ge(q[1] - p) if k == 'LE' else st.ge(p - q[1])):
                return True
        t = s.dist_of(st) if t is None else t
        if t is None:
            return False
        for (x, y), r in st.ford.items():
            for a, b, lt, gt in ((x, y, '<', '>'), (y, x, '>', '<')):
                if b != t:
                    continue
                e = s.entry(a)
                if e is None or e[1] is None:
                    continue
                # a REL t
                if k == 'LE' and gt not in r and st.ge(e[1] + 1 - p):
                    return True
                if k == 'GE' and lt not in r and st.ge(p - e[1]):
                    return True
        return False

    def loop_candidates(s, fn, S0, H, slots):
        C = []
        if s.dist_of(S0) is None:
            return C
        for slot, (v0, vh) in slots.items():
            if v0 is None or vh[0] != 'i':
                continue
            for k in ('LE', 'GE'):
                for d in (0, 1, -1):
                    def g(get, slot=slot, k=k, d=d):
                        v = get(slot)
                        return (k, v[1] + d) if v is not None and v[0] == 'i' else None
                    C.append(((k, slot, d), g))
        return C

    def origin(s, st, base, off, step, lo):
        """what bytes off..off+step of base hold, in terms of the contents at log position lo"""
        log = st.log; k = len(log)
        while k > lo:
            k -= 1
            e = log[k]
            if e[0] == 'copy':
                d, sr, ln = e[1], e[2], e[3]
                if d[0] != 'p' or d[1] != base:
                    continue
                if ln is None:
                    return ('?', [])
                if st.ge(off - d[2]) and st.ge(d[2] + ln - off - step):
                    if sr[0] != 'p':
                        return ('?', [])
                    if sr[1] == base and e[4] == 'memcpy' and not (st.ge(sr[2] - d[2] - ln) or st.ge(d[2] - sr[2] - ln)):
                        return ('overlap', e[5])
                    base, off = sr[1], sr[2] + off - d[2]
                    continue
                if st.ge(off - d[2] - ln) or st.ge(d[2] - off - step):
                    continue
                return ('?', [off - d[2], d[2] + ln - off - step])
            if e[0] == 'store' and e[1][1] == base:
                p = e[1]
                if st.eq0(off - p[2]) and e[3] == step.const():
                    return ('val', e[2])
                if st.ge(off - p[2] - e[3]) or st.ge(p[2] - off - step):
                    continue
                return ('?', [off - p[2] - e[3], p[2] - off - step])
            if e[0] in ('havoc', 'qsort') and (e[1] if e[0] == 'havoc' else e[1][1]) == base:
                return ('?', [])
        return ('at', base, off)


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('core', cfg)
        for zero in (False, True):
            one(R, prog, cfg, zero)
    R.need('functions', 1)
    R.assumptions += ['distances are not NaN', 'there is at least one point', 'numNeighbors + 1 fits the index type', 'entries of the distance table are those of P08/P09']


def one(R, prog, cfg, zero):
    fn = prog.get('distance_get_core_distances')
    A = CoreAI(prog)
    A.dsz = 8 if cfg['DISTANCE_TYPE'] == 'double' else 4
    isz = {'unsigned int': 4, 'unsigned short': 2, 'unsigned long': 8}[cfg['INDEX_TYPE']]
    st, args = A.setup(fn)
    N, T = dims(A, st)
    K = Poly.a(atom(('dist', 'nn', isz), 'neighbours', 0, 2 ** (8 * isz) - 2, 8 * isz))
    if zero:
        K = ZERO
    else:
        st.add_ge(K - 1)
    A.put(st, 'numNeighbors', ('i', K), 'i%d' % (8 * isz))
    C = ('p', ('core',), ZERO); st.nul[('core',)] = 'nonnull'; st.reg[('core',)] = Region('heap', None, 'sym')
    A.put(st, 'coreDistances', C, 'ptr')
    st.add_ge(N - 1)
    st.add_ge(N - 1 - K)
    A.S = S = K + 1
    outs = A.run(fn, st, args)
    R.add('functions'); R.add('results', len(outs))
    judge(R, A, fn, N, S, outs)
    R.add('accesses', A.inside)
    for i, x, p, n, size in A.over:
        R.violation('bounds', i.loc(), 'bytes %s to %s of a buffer of %s bytes are accessed' % (p[2], p[2] + n, size), key='bounds|' + i.loc())


def path(L, lp):
    return ['%s branch %s' % (t[0], t[1]) for t in L.trace[len(lp.H.trace):] if t[0] != 'loop']


def judge(R, A, fn, N, S, outs):
    dsz = A.dsz; step = Poly.c(dsz)

    def bad(rule, where, msg, L=None, lp=None):
        R.violation(rule, where, msg, key='%s|%s' % (rule, msg[:90]), path=path(L, lp) if L is not None else None)

    def und(m):
        R.undecided.append(m)

    def tail(lp, L):
        return L.log[len(lp.H.log):]
    # the loop that records core distances
    rows = [lp for lp in A.loops if any(e[0] == 'store' and e[1][1] == ('core',) for L in lp.latch for e in tail(lp, L))]
    if not rows:
        if any(e[0] == 'store' and e[1][1] == ('core',) for lp in A.loops for x in lp.exits for e in tail(lp, x)):
            bad('rows', fn.loc(), 'only some core distances are recorded'); return
        if not any(e[0] == 'store' and e[1][1] == ('core',) for x, v in outs for e in x.log):
            bad('rows', fn.loc(), 'no core distance is recorded')
        else:
            und('loop over the points')
        return
    for row in rows:
        i, why = steps(A, row, ZERO, N)
        if i is None:
            (bad('rows', row.loc(), 'recording the core distances ' + why) if why != '?' else und('range of the points')); continue
        for L in row.latch:
            R.add('rows')
            w = [e for e in tail(row, L) if e[0] == 'store' and e[1][1] == ('core',)]
            if len(w) != 1 or w[0][1][2] != i * dsz:
                if not w:
                    bad('rows', row.loc(), 'a point gets no core distance', L, row)
                elif w[0][1][2] != i * dsz and ((w[0][1][2] - i * dsz).const() is not None or w[0][1][2].atoms() <= S.atoms()):
                    bad('rows', w[0][4].loc(), 'the core distance is recorded for another point', L, row)
                else:
                    und('core distance recorded')
                continue
            val = w[0][2]
            e = A.entry(val[1]) if val[0] == 'f' else None
            if e is None or e[1] is None:
                und('value recorded'); continue
            B, pos, ver = e
            if pos != S - 1:
                d = pos - S + 1
                (bad('rows', w[0][4].loc(), 'the core distance recorded is entry %s of the nearest distances instead of entry %s' % (pos, S - 1), L, row) if d.atoms() <= S.atoms() else und('entry recorded')); continue
            r = L.reg.get(B)
            if r is not None and r.size is not None and not L.ge(r.size - S * dsz):
                bad('buffer', row.loc(), 'the buffer of nearest distances is too small', L, row); continue
            scans = [lp for lp in loops_in(A, row, L) if any(x[0] == 'dist' for M in lp.latch for x in tail(lp, M))]
            scan = [lp for lp in scans if B in {x[1][1] for M in lp.latch for x in tail(lp, M) if x[0] in ('store', 'copy')}]
            if not scan:
                if not scans:
                    und('scan of the points'); continue
                bad('scan', row.loc(), 'no distance gets into the buffer', L, row); continue
            scan = scan[-1]
            start(R, A, row, L, scan, B, S, bad, und)
            scanloop(R, A, scan, i, B, N, S, bad, und)


def loops_in(A, row, L):
    """loops passed in the pass L"""
    n = len(row.H.trace)
    out = []
    for lp in A.loops:
        t = lp.H.trace
        q = L.trace[len(t):len(t) + 1]
        if len(t) > n and L.trace[:len(t)] == t and q and q[0][0] == 'loop' and q[0][2:4] == (lp.header, lp.fn.name):
            out.append(lp)
    return out


def steps(A, lp, lo, hi, known=frozenset()):
    early = []
    ks = A.counter(lp, [hi, lo], early)
    H = lp.H
    for k in ks:
        if (k[1] == lo or H.eq0(k[1] - lo)) and (k[2] == hi or H.eq0(k[2] - hi)):
            return k[0], None
    if early:
        return None, 'can stop before the last one'
    for k in ks:
        if H.eq0(k[2] - hi) and k[1].atoms() and k[1].atoms() <= known:
            return None, 'starts at %s' % k[1]
        if (k[1] - lo).const() is not None and ((k[2] - hi).const() is not None or k[2].atoms() <= hi.atoms() | lo.atoms()):
            return None, 'covers positions %s to %s' % (k[1], k[2] - 1)
    return None, '?'


def start(R, A, row, L, scan, B, S, bad, und):
    """every entry is the greatest value before the scan"""
    dsz = A.dsz
    fills = [lp for lp in loops_in(A, row, scan.S0) if lp is not scan and any(e[0] == 'store' and e[1][1] == B for M in lp.latch for e in M.log[len(lp.H.log):])]
    if not fills:
        # written somewhere else?
        if any(e[0] in ('store', 'copy') and e[1][1] == B for e in scan.S0.log[len(row.H.log):]):
            und('initial buffer')
        else:
            bad('start', row.loc(), 'the buffer still holds the distances of the point before', L, row)
        return
    lp = fills[-1]
    j, why = steps(A, lp, ZERO, S)
    if j is None:
        (bad('start', lp.loc(), 'preparing the buffer ' + why) if why != '?' else und('range prepared')); return
    for M in lp.latch:
        R.add('prepared')
        w = [e for e in M.log[len(lp.H.log):] if e[0] == 'store' and e[1][1] == B]
        if len(w) != 1 or w[0][1][2] != j * dsz:
            (bad('start', lp.loc(), 'an entry of the buffer is not prepared', M, lp) if not w or (w[0][1][2] - j * dsz).const() is not None else und('entry prepared')); continue
        c = fconst(w[0][2][1]) if w[0][2][0] == 'f' else None
        if c is None:
            und('initial value')
        elif c < BIG[dsz]:
            bad('start', w[0][4].loc(), 'the buffer starts with %s, which distances can exceed' % c, M, lp)


def scanloop(R, A, lp, i, B, N, S, bad, und):
    dsz = A.dsz; step = Poly.c(dsz)
    j, why = steps(A, lp, ZERO, N, frozenset(i.atoms()))
    if j is None:
        (bad('scan', lp.loc(), 'scanning the points ' + why) if why != '?' else und('range scanned')); return
    for L in lp.latch:
        R.add('passes')
        n = len(lp.H.log)
        while n < len(L.log) and L.log[n][0] == 'havoc':
            n += 1
        ev = L.log[n:]
        ds = [e for e in ev if e[0] == 'dist']
        if len(ds) != 1:
            (bad('scan', lp.loc(), 'a point is left out', L, lp) if not ds else und('several distances in a pass')); continue
        a = [x[1] for x in ds[0][1][1:3] if x[0] == 'i']
        if sorted(map(repr, a)) != sorted(map(repr, [i, j])):
            (bad('scan', ds[0][3].loc(), 'the distance looked at is not the one between the point and the point scanned', L, lp) if all(len(q.atoms()) <= 1 for q in a) else und('distance looked at')); continue
        t = ds[0][2][1]
        mods = [e for e in ev if e[0] in ('store', 'copy') and e[1][1] == B]
        if not mods:
            last = [r for (x, y), r0 in L.ford.items() for r in [A.frel(L, x, y) if y == t else frozenset({'<': '>', '>': '<', '=': '='}[q] for q in A.frel(L, x, y)) if x == t else None] if r is not None and A.entry(x if y == t else y) is not None and A.entry(x if y == t else y)[1] is not None and L.ge(S - 1 - A.entry(x if y == t else y)[1]) and L.ge(A.entry(x if y == t else y)[1] - S + 1)]
            if any('>' not in r for r in last) or A.entails_pred(L, ('LE', S), t):
                R.add('left_out'); continue
            bad('left', lp.loc(), 'a distance can be left out although it is smaller than the last entry', L, lp); continue
        # position
        st = [e for e in mods if e[0] == 'store' and e[2][0] == 'f' and e[2][1] == t]
        if len(st) != 1:
            (bad('insert', mods[0][-1].loc(), 'the buffer changes but the distance does not get into it', L, lp) if not st else und('distance stored twice')); continue
        pos = exact_div(st[0][1][2], step) if st[0][1][2].t else ZERO
        if pos is None:
            und('position stored'); continue
        if not (L.ge(pos) and L.ge(S - 1 - pos)):
            bad('insert', st[0][4].loc(), 'a distance can be stored outside the buffer', L, lp); continue
        ok = True
        for k, m in (('LE', 'an entry before it can be greater'), ('GE', 'an entry after it can be smaller')):
            if not A.entails_pred(L, (k, pos), t):
                bad('order', st[0][4].loc(), 'a distance can be put at a position where ' + m, L, lp); ok = False
        if not ok:
            continue
        R.add('inserted')
        k = Poly.a(fresh_atom('k', 0))
        for conds, want, what in (([pos - k - 1], lambda: k, 'before'), ([k - pos - 1], lambda: k - 1, 'after')):
            x = scen(A, L, [k, S - k - 1] + conds)
            work = [(x, 0)]
            while work:
                x, d = work.pop()
                if x is None:
                    continue
                R.add('content_obligations')
                o = A.origin(x, B, k * dsz, step, n)
                if o[0] == '?' and o[1] and d < 6:
                    c0 = None
                    for c in o[1]:
                        q = exact_div(c, step)
                        c = q if q is not None else c
                        if not x.ge(c) and not x.ge(-c - 1):
                            c0 = c; break
                    if c0 is not None:
                        work += [(scen(A, x, [c0]), d + 1), (scen(A, x, [-c0 - 1]), d + 1)]
                        continue
                if o[0] == '?':
                    und('contents after an insertion'); continue
                if o[0] == 'overlap':
                    bad('insert', o[1].loc(), 'entries are moved by a copy whose source and target overlap', L, lp); continue
                if o[0] == 'at' and o[1] == B and x.eq0(o[2] - want() * dsz):
                    continue
                bad('insert', st[0][4].loc(), 'entries %s the inserted distance do not hold what they should' % what, L, lp)
