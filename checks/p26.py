"""Outlier scores: the computation is interpreted for an arbitrary number of points.  The storage has one record per point, the
loop runs over every point, and what it leaves in the record of a point is the point's number, its own core distance and a
score that, as a term over the reals, is one minus the lowest death level below the point's last cluster divided by the
level at which it became noise (zero when that level is zero).  All records are then sorted by the score order."""
from hierdom import *
from p30 import Ctx, writes
import re
from fractions import Fraction

OS = 'OutlierScore'


def run(prog, cfg):
    fn = prog.get('hdbscsan_calculate_outlier_scores')
    A = HierAI(prog)
    A.hooks['qsort'] = lambda A, st, i, a: (A.log(st, 'sort', st.res(a[0]), a[1], a[2], a[3], i), [(st, None)])[1]
    st = State(); sc = A.record(st, 'hdbscan', 'hdbscan')
    A.put(st, 'hdbscan', 'hdbscan', 'clusters', A.list_of(st, 'clusters'))
    arr = []
    for k in ('noise', 'last'):
        b = ('arr', k); st.nul[b] = 'nonnull'; st.reg[b] = Region('heap', None, 'sym'); arr.append(('p', b, ZERO))
    A.nv = A.init['hdbscan']['numPoints'][1]
    st.add_ge(A.nv - 1)
    A.old = A.init['hdbscan']['outlierScores']
    outs = A.run(fn, st, [sc] + arr + [I(0)][:max(0, len(fn.args) - 3)])
    A.frozen = True
    return A, fn, outs


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('core', cfg)
        A, fn, outs = run(prog, cfg)
        c = Ctx(R, A, fn, outs, cfg)
        R.add('functions')
        judge(c, prog)
    R.need('functions', 1); R.need('results', 1)
    R.assumptions += ['there is at least one point', 'levels are not NaN', 'qsort sorts (C library)']


def judge(c, prog):
    A, R, fn = c.A, c.R, c.fn
    osz = prog.ditypes[OS]['size']
    ID, SC, CD = (A.off(OS, x) for x in ('id', 'score', 'coreDistance'))
    CORE = None
    df = prog.ditypes['hdbscan']
    # the array of core distances lives in the embedded distance structure
    off = {f['name']: f['off'] for f in prog.ditypes['hdbscan']['fields']}
    dd = {f['name']: f['off'] for f in prog.ditypes['Distance']['fields']}
    core = Poly.c(off['distanceFunction'] + dd['coreDistances'])
    PL = A.off('Cluster', 'propagatedLowestChildDeathLevel')
    ok = 0
    for x, v in c.outs:
        R.add('results')
        sv = A.get(x, 'hdbscan', 'hdbscan', 'outlierScores')
        good = v is not None and v[0] == 'i' and v[1].const() == 0
        srt = [e for e in x.log if e[0] == 'sort']
        if not good:
            if srt and v is not None and v[0] == 'i' and v[1].const() not in (0, None):
                c.bad('status', fn.loc(), 'scores that were computed are reported as failed')
            continue
        if sv is None or sv[0] != 'p' or sv[1] == 'null' or x.nullness(sv) != 'nonnull':
            c.bad('status', fn.loc(), 'success is reported without scores'); continue
        b = sv[1]; r = x.reg.get(b)
        if b == A.old[1]:
            c.und('storage of the scores'); continue
        ok += 1
        if r is None or r.size is None:
            c.und('storage of the scores')
        elif r.size != A.nv * osz and not x.ge(r.size - A.nv * osz):
            c.bad('storage', fn.loc(), 'the storage of the scores does not have one record per point')
        # the sort
        if not srt and x.ge(1 - A.nv):
            srt = None
        elif not srt:
            c.bad('sort', fn.loc(), 'the scores are not sorted'); continue
        if srt:
            e = srt[-1]
            if e[1] != sv:
                c.bad('sort', e[-1].loc(), 'something other than the scores is sorted')
            if e[2][0] == 'i' and e[2][1] != A.nv and not x.eq0(e[2][1] - A.nv):
                (c.bad if (e[2][1] - A.nv).const() is not None or e[2][1].atoms() <= A.nv.atoms() else lambda *a: c.und('number of records sorted'))('sort', e[-1].loc(), 'the sort does not cover every record')
            if e[3][0] == 'i' and e[3][1].const() != osz:
                c.bad('sort', e[-1].loc(), 'the records are sorted with the size of something else')
            f = e[4]
            if f[0] == 'fn' and f[1] != 'outlier_score_compare':
                if re.match('(int|long|short|char|float|double|string|ptr|uint|ulong|index|label|size)[a-z_]*compare', f[1]):
                    c.bad('sort', e[-1].loc(), 'the records are not sorted by the order of scores')
                else:
                    c.und('order used for the sort')
        fills = [lp for lp in A.loops_of(x) if any(w[0] == b for L in lp.latch for w in writes(c, lp, L))]
        if not fills:
            c.bad('fill', fn.loc(), 'no scores are computed'); continue
        done = set()
        for lp in fills:
            if srt and lp.H.log != x.log[:len(lp.H.log)]:
                continue
            ctr, why = A.steps_over(lp, ZERO, A.nv)
            if ctr is None:
                (c.bad('fill', lp.loc(), 'computing the scores %s' % why) if why != '?' else c.und('range of the scores')); done = None; break
            for L in lp.latch:
                R.add('passes')
                got = {}
                for b2, o, (val, sz, ty) in writes(c, lp, L):
                    if b2 == b:
                        q = o - ctr * osz
                        got[q.const() if q.const() is not None else o] = val
                if any(not isinstance(k, int) for k in got):
                    c.bad('fill', lp.loc(), 'a pass writes the record of another point', L, lp); continue
                record(c, prog, lp, L, ctr, {Poly.c(k): v for k, v in got.items()}, ID, SC, CD, core, PL)
    if not ok:
        c.und('no successful result')


def record(c, prog, lp, L, i, got, ID, SC, CD, core, PL):
    A = c.A
    v = got.get(ID)
    if v is None:
        c.bad('id', lp.loc(), 'the number of a point is not recorded', L, lp)
    elif v[0] == 'i' and v[1] != i and not L.eq0(v[1] - i):
        (c.bad('id', lp.loc(), 'the number recorded is not that of the point', L, lp) if (v[1] - i).const() is not None or v[1].const() is not None or A.org(v) is not None else c.und('number recorded'))
    v = got.get(CD)
    if v is None:
        c.bad('core', lp.loc(), 'the core distance of a point is not recorded', L, lp)
    else:
        g = A.org(v)
        if g is None:
            c.und('core distance recorded')
        elif not (isinstance(g[0], tuple) and coreptr(A, L, g[0], core)):
            c.bad('core', lp.loc(), 'what is recorded as core distance is something else', L, lp)
        elif g[1] != i * c.dsz:
            c.bad('core', lp.loc(), 'the core distance recorded is that of another point', L, lp)
    v = got.get(SC)
    if v is None:
        c.bad('score', lp.loc(), 'no score is recorded for a point', L, lp); return
    eps = [t for t in terms(v[1]) if islev(t, i, c)]
    # which case of the level
    zero = None
    for (s, t), r in L.ford.items():
        for a, b in ((s, t), (t, s)):
            if islev(a, i, c) and fconst(b) == 0:
                zero = True if r == frozenset('=') else False if '=' not in r else zero
    if zero is True:
        if v[0] == 'f' and fconst(v[1]) != 0:
            (c.bad if fconst(v[1]) is not None or 'fdiv' in repr(v[1]) else lambda *a: c.und('score at level zero'))('score', lp.loc(), 'a point that became noise at level zero gets a score other than zero', L, lp)
        return
    want = None
    samples = [(3, 7), (5, 2), (11, 13), (1, 1), (0, 4)]
    try:
        for e, m in samples:
            e, m = Fraction(e), Fraction(m)
            if e == 0:
                continue

            def leaf(t):
                if islev(t, i, c):
                    return e
                if ismax(A, t, i, c, PL):
                    return m
                return None
            x = feval(v[1], leaf)
            if x != 1 - m / e:
                c.bad('score', lp.loc(), 'the score is not one minus the ratio of the two levels (%s at levels %s and %s)' % (x, m, e), L, lp)
                return
    except NotPoly:
        lv = [t for t in terms(v[1]) if isinstance(t, tuple) and t[0] == 'ld']
        if lv and all(A.loaded(('f', t)) is not None for t in lv) and arithmetic(v[1]):
            c.bad('score', lp.loc(), 'the score is computed from something other than the level of the point and of its last cluster', L, lp)
        else:
            c.und('score'); return
    if zero is None and 'fdiv' in repr(v[1]):
        c.bad('score', lp.loc(), 'the score divides by a level that may be zero', L, lp)
    elif zero is None and fconst(v[1]) is not None:
        pass


def terms(t):
    yield t
    if isinstance(t, tuple):
        for x in t[1:]:
            if isinstance(x, tuple):
                yield from terms(x)


def arithmetic(t):
    if isinstance(t, tuple):
        if t[0] in ('ld', 'const'):
            return True
        if t[0] in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fpext', 'fptrunc'):
            return all(arithmetic(x) for x in t[1:])
    return False


def islev(t, i, c):
    return isinstance(t, tuple) and t[0] == 'ld' and t[1] == ('arr', 'noise') and t[2][1] == i * c.dsz


def ismax(A, t, i, c, PL):
    """the level of the last cluster of the point: clusters[last[i]]->propagatedLowestChildDeathLevel"""
    if not (isinstance(t, tuple) and t[0] == 'ld' and t[2][1] == PL):
        return False
    b = t[1]
    if not (isinstance(b, tuple) and b[0] == 'ld' and b[1] == A.init['clusters']['data'][1]):
        return False
    k = exact_div(b[2][1], Poly.c(8))
    g = A.org(('i', k)) if k is not None else None
    return g is not None and g[0] == ('arr', 'last') and g[1] == i * c.lsz


def coreptr(A, L, b, core):
    q = L.heap.get(('rec', 'hdbscan'), {}).get(core)
    if q is not None:
        v = L.res(q[0])
        if v[0] == 'p' and v[1] == b:
            return True
    return isinstance(b, tuple) and b[0] == 'ld' and b[1] == ('rec', 'hdbscan') and b[2][1] == core
