"""Index algebra of the distance table: the construction and the lookup are interpreted for an arbitrary number of
rows; the index of every store and load is a polynomial, which must enumerate the pairs exactly once, agree between
construction and lookup, not depend on arithmetic that can wrap, and fit the storage allocated; the construction
must store every pair and the lookup must give zero on the diagonal and be symmetric."""
from distdom import *


def lookup(R, prog):
    """index polynomials of the lookup for row<col and col<row, in terms of (small, large, N)"""
    fn = prog.get('distance_get')
    res = {}
    for case in ('lt', 'gt', 'eq'):
        A = DistAI(prog)
        st, args = A.setup(fn)
        N, T = dims(A, st)
        A.loads = []
        A.on_access = lambda st2, inst, ptr, n, kind: A.loads.append((st2, inst, st2.res(ptr), kind)) if st2.res(ptr)[1] == ('table',) else None
        r, c = args[1][1], args[2][1]
        for v in (r, c):
            st.add_ge(v); st.add_ge(N - 1 - v)
        if case == 'lt':
            st.add_ge(c - r - 1)
        elif case == 'gt':
            st.add_ge(r - c - 1)
        else:
            st.add_ge(r - c); st.add_ge(c - r)
        outs = A.run(fn, st, args)
        if not outs:
            raise AnalysisBroken('no exit of distance_get')
        for inst in {id(x[1]): x for x in A.stores}.values():
            R.violation('pure', inst[1].loc(), 'looking up a distance writes memory', key='pure')
        R.add('lookup_cases')
        dsz = A.elsize
        for x, v in outs:
            path = ['%s branch %s' % (t[0], t[1]) for t in x.trace]
            R.add('index_obligations')
            if case == 'eq':
                if A.loads and any(l[2][1] == ('table',) for l in A.loads):
                    R.violation('diagonal', fn.loc(), 'the distance of a point to itself is read from the table instead of being 0', key='diag', path=path)
                elif v != ('f', ('const', 0.0)):
                    R.violation('diagonal', fn.loc(), 'the distance of a point to itself is not 0', key='diag', path=path)
                continue
            ld = v[1] if v is not None and v[0] == 'f' else None
            while isinstance(ld, tuple) and ld[0] in ('fpext', 'fptrunc'):
                ld = ld[1]
            if not (isinstance(ld, tuple) and ld[0] == 'ld' and ld[1] == ('table',)):
                if isinstance(ld, tuple) and ld[0] == 'const':
                    R.violation('lookup', fn.loc(), 'distance of two different points is answered with a constant', key='lookup|const', path=path)
                else:
                    R.undecided.append('distance_get: result %s not a table entry' % (v,))
                continue
            off = ld[2][1]
            w = A.wrapped(off)
            if w is not None:
                R.violation('wrap', w.loc(), 'the index of a looked-up distance depends on arithmetic that can wrap in %s (%s)' % (w.ty, w.op), key='wrap|get|' + case, path=path); continue
            idx = exact_div(off, Poly.c(dsz))
            d2 = double(idx) if idx is not None else None
            if d2 is None:
                R.undecided.append('distance_get: index %s' % off); continue
            lo, hi = (r, c) if case == 'lt' else (c, r)
            X = Poly.a(atom(('pair', 'x'), 'x', 0, None)); Y = Poly.a(atom(('pair', 'y'), 'y', 0, None))
            res.setdefault(case, []).append((d2.subst({lo.single(): X, hi.single(): Y}), fn, path, N))
    return res


def construct(R, prog, cls=None):
    fn = prog.get('distance_compute')
    A = (cls or DistAI)(prog)
    A.skip = {'distance_get_core_distances'}
    st, args = A.setup(fn)
    N = args[2][1]
    st.add_ge(N - 1)
    outs = A.run(fn, st, args)
    sz = A.elsize
    tabs = []
    for x, v in outs:
        d = A.cell(x, 'distances')
        if d is not None and x.nullness(d) == 'nonnull':
            tabs.append((x, x.res(d)))
    if not tabs:
        raise AnalysisBroken('distance_compute: table not found at exit')
    bases = {t[1][1] for t in tabs}
    out = []
    for x, T in tabs:
        R.add('index_obligations')
        r = x.reg.get(T[1])
        size = r.size if r else None
        if size is None:
            R.undecided.append('distance_compute: size of the table'); continue
        w = A.wrapped(size)
        if w is not None:
            R.violation('wrap', w.loc(), 'the size of the distance table depends on arithmetic that can wrap in %s (%s)' % (w.ty, w.op), key='wrap|size'); continue
        d2 = double(size)
        if d2 is None:
            R.undecided.append('distance_compute: size %s of the table' % size); continue
        slack = d2 - N * (N - 1) * sz
        k = slack.const()
        if not (k is not None and k >= 0 or x.ge(slack) or nonneg_poly(slack)):
            R.violation('size', fn.loc(), 'the distance table is allocated with %s bytes, not room for all rows*(rows-1)/2 distances' % size, key='size')
        rv = A.cell(x, 'rows')
        R.add('index_obligations')
        if rv is None or rv[0] != 'i' or not x.eq0(rv[1] - N):
            R.violation('rows', fn.loc(), 'the number of rows recorded in the table is not the number of rows of the data set', key='rows')
    # the stores
    stores = [q for q in A.stores if q[2] in bases]
    if not stores:
        raise AnalysisBroken('distance_compute: no store into the table')
    X = Poly.a(atom(('pair', 'x'), 'x', 0, None)); Y = Poly.a(atom(('pair', 'y'), 'y', 0, None))
    seen = set()
    for x, inst, b, off, val, size in stores:
        R.add('index_obligations')
        path = ['%s branch %s' % (t[0], t[1]) for t in x.trace]
        w = A.wrapped(off)
        if w is not None:
            R.violation('wrap', w.loc(), 'the index of a stored distance depends on arithmetic that can wrap in %s (%s)' % (w.ty, w.op), key='wrap|store', path=path); continue
        idx = exact_div(off, Poly.c(sz))
        d2 = double(idx) if idx is not None else None
        pr = pair_of(A, x, N, d2, X, Y) if d2 is not None else None
        if d2 is None or pr is None:
            R.undecided.append('distance_compute: store index %s' % off); continue
        (i, j) = pr
        out.append((rename(d2, i, j, X, Y, N), inst, path, N, (i, j), x, val))
    # coverage
    coverage(R, A, fn, N, bases, [q[4] for q in out])
    return A, out


def nonneg_poly(p):
    """all coefficients and atoms non-negative"""
    return all(c >= 0 for c in p.t.values()) and all((ATOMS[a].lo or 0) >= 0 and ATOMS[a].lo is not None for a in p.atoms())


def loop_nest(A, x):
    """loop records whose bodies the state is in (outermost first): header counters appearing in its trace"""
    return [t for t in x.trace if t[0] == 'loop']


def pair_of(A, x, N, d2, X, Y):
    """(smaller, larger) row of a store, in terms of the counters of the loops around it; a count-down counter may be
    used as v or as v-1, the reading that makes the index a numbering of the pairs is preferred"""
    cs = []
    for v in x.ghost['hdr']:
        for u in (v, v - 1):
            if x.ge(N - 1 - u) and x.ge(u):
                cs.append(u)
    pr = [(a, b) for a in cs for b in cs if a.atoms() != b.atoms() and x.ge(b - a - 1)]
    for a, b in pr:
        F = rename(d2, a, b, X, Y, N)
        if F is not None and bijective(F, N, X, Y) is None:
            return a, b
    at = {frozenset((a.atoms() | b.atoms())) for a, b in pr}
    return pr[0] if len(at) == 1 else None


def rename(F2, i, j, X, Y, N):
    """index in terms of the pair (X < Y); None when it depends on anything else"""
    mp = {}
    for p, V in ((i, X), (j, Y)):
        a = [q for q in p.atoms()]
        if len(a) != 1:
            return None
        mp[a[0]] = V + (Poly.a(a[0]) - p)          # p = atom - c  =>  atom = V + c
    r = F2.subst(mp)
    ok = X.atoms() | Y.atoms() | N.atoms()
    return r if r.atoms() <= ok else None


def coverage(R, A, fn, N, bases, pairs):
    """every pair is stored: an outer loop over all rows whose every iteration runs an inner loop over all larger
    (or smaller) rows whose every iteration stores"""
    R.add('coverage_obligations')
    wr = lambda L, H: any(e[0] == 'wr' and e[1] in bases for e in L.log[len(H.log):])
    inner = [lp for lp in A.loops if any(wr(L, lp.H) for L in lp.latch)]
    if not inner:
        R.undecided.append('coverage: inner loop not recognised'); return
    okk = False
    for lp in inner:
        outer = [o for o in A.loops if o is not lp and any(t[0] == 'loop' and t[2] == lp.header and t[3] == lp.fn.name for L in o.latch for t in L.trace[len(o.H.trace):])]
        for o in outer:
            for (i, ilo, ihi) in A.counter(o, [N, N - 1, ZERO, ZERO - 1])[:4]:
                for (j, jlo, jhi) in A.counter(lp, [N, i, i + 1, ZERO]):
                    if (i, j) not in pairs and (j, i) not in pairs:
                        continue
                    # does every outer iteration run the inner loop?
                    for L in o.latch:
                        if not any(t[0] == 'loop' and t[2] == lp.header and t[3] == lp.fn.name for t in L.trace[len(o.H.trace):]) and not (L.ge(i - N + 1) or L.ge(-i)):
                            R.violation('coverage', lp.loc(), 'some iterations over the rows skip the distances of that row', key='cover|skip')
                            okk = True
                    for L in lp.latch:
                        if not wr(L, lp.H) and not L.ge(i - j):
                            R.violation('coverage', lp.loc(), 'a pair of points can be passed over without storing its distance', key='cover|nostore', path=['%s branch %s' % (t[0], t[1]) for t in L.trace[len(lp.H.trace):]])
                    H = lp.S0
                    up = H.eq0(jhi - N) and H.ge(i + 1 - jlo)
                    if up and H.eq0(ilo) and H.ge(ihi - N + 1):
                        return
                    dn = H.eq0(jlo) and H.ge(jhi - i)
                    if dn and H.ge(1 - ilo) and H.ge(ihi - N):
                        return
                    m = missing(i, ilo, ihi, j, jlo, jhi, N)
                    if m:
                        R.violation('coverage', lp.loc(), 'distances are computed for rows %s..%s with columns %s..%s only: with %d rows the pair %s is never stored' % (ilo, ihi, jlo, jhi, m[0], m[1]), key='cover|range'); okk = True
    if not okk:
        for lp in inner:
            early = []
            A.counter(lp, [N], early)
            for x in early:
                R.violation('coverage', lp.loc(), 'the loop over the pairs can stop before the last row', key='cover|early', path=['%s branch %s' % (t[0], t[1]) for t in x.trace[len(lp.H.trace):]])
            if early:
                return
        R.undecided.append('coverage: loop nest not recognised')


def ev(p, env):
    r = 0
    for m, c in p.t.items():
        for a in m:
            if a not in env:
                return None
            c *= env[a]
        r += c
    return r


def missing(i, ilo, ihi, j, jlo, jhi, N):
    """a pair of points outside the symbolic ranges, for some small number of rows"""
    for n in range(2, 6):
        env = {N.single(): n}
        lo, hi = ev(ilo, env), ev(ihi, env)
        if lo is None or hi is None:
            return None
        got = set()
        ia = list(i.atoms())[0]
        for a in range(lo, hi):
            e2 = dict(env); e2[ia] = a - (ev(i, {ia: 0}) or 0)
            l2, h2 = ev(jlo, e2), ev(jhi, e2)
            if l2 is None or h2 is None:
                return None
            got |= {frozenset((a, b)) for b in range(l2, h2)}
        for a in range(n):
            for b in range(a):
                if frozenset((a, b)) not in got:
                    return n, (b, a)
    return None


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('core', cfg)
        DistAI.elsize = 8 if cfg['DISTANCE_TYPE'] == 'double' else 4
        g = lookup(R, prog)
        A, stores = construct(R, prog)
        X = Poly.a(atom(('pair', 'x'), 'x', 0, None)); Y = Poly.a(atom(('pair', 'y'), 'y', 0, None))
        ref = None
        for F2, inst, path, N, ij, x, val in stores:
            R.add('index_obligations')
            if F2 is None:
                R.undecided.append('store index'); continue
            m = bijective(F2, N, X, Y)
            if m:
                R.violation('index', inst.loc(), 'distances of different pairs do not get their own index: %s (index*2 = %s)' % (m, F2), key='index|store', path=path)
            ref = (F2, N)
        for case in ('lt', 'gt'):
            for G2, fn, path, N in g.get(case, []):
                R.add('index_obligations')
                m = bijective(G2, N, X, Y)
                if m:
                    R.violation('index', fn.loc(), 'the lookup does not give every pair its own entry: %s (index*2 = %s)' % (m, G2), key='index|get|' + case, path=path)
                if ref is None:
                    continue
                G = G2.subst({N.single(): ref[1]})
                if G != ref[0]:
                    R.violation('agree', fn.loc(), 'the lookup for %s reads index*2 = %s but the distance was stored at index*2 = %s' % ('row < column' if case == 'lt' else 'row > column', G, ref[0]), key='agree|' + case, path=path)
        R.samples.append('index*2 = %s' % (ref[0] if ref else None))
    R.need('index_obligations', 8); R.need('lookup_cases', 3); R.need('coverage_obligations', 1)
    R.assumptions += ['row and column are below the number of rows', 'the data set has at least one row', 'rows*(rows-1)/2 distances fit in memory (64-bit products do not wrap)']
