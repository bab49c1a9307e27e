"""Ranking of clusters.  (1) partition: interpreted over two arbitrary arrays and an arbitrary range; quantified facts "all
entries of a range are <= / >= the entry compared with" are inferred as loop invariants; every stretch between loop heads
moves the entries of both arrays in the same way and loses none, no entry outside the range is touched, and at the end all
before the returned place are not greater and all after it not smaller.  (2) the recursion covers what lies before and after.
(3) what is sorted: for every label, in both ways of calling, the value at its place is that of the label."""
from pipedom import *
from hierdom import HierAI
from p15 import ranges, bad, num
import p15

SIZES = {'short': 2, 'int': 4, 'long': 8, 'unsigned short': 2, 'unsigned int': 4, 'unsigned long': 8}
D, C = ('arr', 'values'), ('arr', 'labels')


class PartAI(PipeAI):
    MAXP = 64
    LOOPP = 16

    def __init__(s, prog):
        PipeAI.__init__(s, prog)
        s.out = []; s.inside = 0

    # ---- facts: ('R', lo, hi, rel, x): all entries lo..hi-1 of the values are rel x; ('EQ', array, k, v): entry k is v
    def cell(s, st, base, k):
        x = st.copy()
        w = s.wd[base]
        v = s.load_q(x, None, ('p', base, k * w), s.ty[base], w)
        return v

    def posof(s, v):
        """(array, position) of the load a value is"""
        g = s.loaded(v)
        if g is None or g[0] not in s.wd:
            return None
        k = exact_div(g[1], Poly.c(s.wd[g[0]])) if g[1].t else ZERO
        return (g[0], k) if k is not None else None

    def rels(s, st, v, x, rel, deep=True):
        if v is None or v[0] != 'f':
            return False
        if s.frel(st, v[1], x) <= frozenset(rel):
            return True
        if deep:
            p = s.posof(v)
            if p is not None and p[0] == D and s.cell(st, D, p[1]) == v:
                return s.prove(st, p[1], p[1] + 1, rel, x, 0)
        return False

    def isval(s, st, base, k, v):
        if s.cell(st, base, k) == v:
            return True
        return any(q[0] == 'EQ' and q[1] == base and q[3] == v and (q[2] == k or st.eq0(q[2] - k)) for q in st.preds)

    def at(s, st, k, rel, x, depth):
        if s.rels(st, s.cell(st, D, k), x, rel, False):
            return True
        return s.isval(st, D, k, ('f', x))

    def prove(s, st, lo, hi, rel, x, depth=2):
        if st.ge(lo - hi):
            return True
        for q in st.preds:
            if q[0] == 'R' and q[3] == rel and q[4] == x and st.ge(lo - q[1]) and st.ge(q[2] - hi):
                return True
        if (hi - lo).const() == 1:
            return s.at(st, lo, rel, x, depth)
        if depth > 0:
            if s.at(st, hi - 1, rel, x, depth) and s.prove(st, lo, hi - 1, rel, x, depth - 1):
                return True
            if s.at(st, lo, rel, x, depth) and s.prove(st, lo + 1, hi, rel, x, depth - 1):
                return True
        if depth > 1:           # two facts that meet
            for q in st.preds:
                if q[0] == 'R' and q[3] == rel and q[4] == x and st.ge(lo - q[1]) and st.ge(q[2] - lo) and q[2] != lo:
                    if s.prove(st, q[2], hi, rel, x, depth - 2):
                        return True
        return False

    def entails_pred(s, st, g):
        if g in st.preds:
            return True
        if g[0] == 'R':
            return s.prove(st, *g[1:])
        if g[0] == 'EQ':
            return s.isval(st, g[1], g[2], g[3])
        return False

    def on_access(s, st, inst, ptr, n, kind):
        p = st.res(ptr)
        if p[0] == 'p' and p[1] in (D, C) and not s.quiet:
            k = exact_div(p[2], Poly.c(s.wd[p[1]])) if p[2].t else ZERO
            if k is not None and st.ge(k - s.lo) and st.ge(s.hi - k):
                s.inside += 1
            else:
                s.out.append((inst, st, k, kind))

    def on_store(s, st, inst, ptr, val, size):
        p = st.res(ptr)
        if p[0] != 'p':
            return
        if p[1] in (D, C):
            k = exact_div(p[2], Poly.c(s.wd[p[1]])) if p[2].t else ZERO
            keep = set()
            for q in st.preds:
                if q[0] == 'EQ' and q[1] == p[1]:
                    if k is not None and (st.ge(k - q[2] - 1) or st.ge(q[2] - k - 1)) or q[3] == val:
                        keep.add(q)
                elif q[0] == 'R' and p[1] == D:
                    if k is None:
                        continue
                    if st.ge(q[1] - k - 1) or st.ge(k - q[2]) or s.rels(st, val, q[4], q[3]):
                        keep.add(q)
                    else:
                        keep.add(('R', q[1], k) + q[3:]); keep.add(('R', k + 1, q[2]) + q[3:])
                else:
                    keep.add(q)
            st.preds = keep
        st.log = st.log + (('store', p, val, size, inst),)

    def make_header(s, fn, phis, S0, havoc, bulk, *a):
        bs = set(bulk) | {x[0] for x in havoc}
        T = S0.copy()
        T.preds = {q for q in T.preds if not (q[0] == 'R' and D in bs or q[0] == 'EQ' and q[1] in bs)}
        # candidates are tested at the entry with everything known there
        s.before = S0
        H, f, c = PipeAI.make_header(s, fn, phis, T, havoc, bulk, *a)
        s.before = None
        for b in sorted(bs, key=repr):
            if b in (D, C):
                H.log = H.log + (('havoc', b, fn.name),)
        s._H[(fn.name, phis[0].bb if phis else None)] = H.copy()
        s._H[(fn.name, 'last')] = H.copy()
        return H, f, c

    before = None

    def holds(s, st, g):
        if s.before is not None and isinstance(g, tuple) and g and g[0] in ('R', 'EQ'):
            return PipeAI.holds(s, s.before, g)
        return PipeAI.holds(s, st, g)

    def loop_candidates(s, fn, S0, H, slots):
        out = []
        S = s.before or S0
        xs = []; ps = [s.lo, s.hi]
        for v in list(S.env.values()):
            if isinstance(v, tuple) and v and v[0] in ('f', 'i'):
                p = s.posof(v)
                if p is None:
                    continue
                if p[0] == D and v[1] not in xs and len(xs) < 3:
                    xs.append(v[1])
                if p[1] not in ps and len(ps) < 6:
                    ps.append(p[1])
        for b in (D, C):
            for k in ps:
                vs = [v for v in S.env.values() if isinstance(v, tuple) and v and v[0] in ('f', 'i') and s.posof(v) is not None and s.posof(v)[0] == b and s.isval(S, b, k, v)]
                for v in (vs or [q[3] for q in S.preds if q[0] == 'EQ' and q[1] == b and q[2] == k])[:1]:
                    if s.posof(v) is not None:
                        out.append((('EQ', b, k, v), lambda get, b=b, k=k, v=v: ('EQ', b, k, v)))
        ints = [q for q, (v0, vh) in slots.items() if v0 is not None and v0[0] == 'i' and vh[0] == 'i']
        if len(ints) > 4:
            ints = ints[:4]

        def val(get, e):
            if e[0] is None:
                return e[1]
            v = get(e[0])
            return v[1] + e[1] if v is not None and v[0] == 'i' else None
        ends = [(q, d) for q in ints for d in (-1, 0, 1)]
        for x in xs:
            for rel in ('<=', '>='):
                for a in [(None, s.lo), (None, s.lo + 1)] + ends:
                    for b in ends + [(None, s.hi), (None, s.hi + 1)]:
                        if a[0] is None and b[0] is None or a[0] == b[0]:
                            continue
                        if a[0] is not None and b[0] is not None and (a[1] == -1 or b[1] == -1):
                            continue

                        def g(get, a=a, b=b, rel=rel, x=x):
                            p, q = val(get, a), val(get, b)
                            return None if p is None or q is None else ('R', p, q, rel, x)
                        out.append((('R', a, b, rel, x), g))
        return out


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('core', cfg)
        fn = prog.fns.get('hdbscan_quicksort')
        if fn is None:
            R.undecided.append('sorting function not found')
        else:
            R.add('functions')
            driver(R, prog, fn, cfg)
        for nm, kind in (('hdbscan_sort_by_similarity', 'similarity'), ('hdbscan_sort_by_length', 'length')):
            fn = prog.fns.get(nm)
            if fn is None:
                R.undecided.append(nm + ' not found'); continue
            R.add('functions')
            for given in (0, 1, 2):
                ranking(R, prog, fn, cfg, kind, given)
    R.need('functions', 1)
    R.assumptions += ['values are not NaN', 'fewer than 2^31 labels', 'every label asked for is in the table', 'at least one label', 'a list handed in for all labels is NULL or empty']


# ---- recursion
class DriveAI(PipeAI):
    MAXP = 64

    def on_store(s, st, inst, ptr, val, size):
        p = st.res(ptr)
        if p[0] == 'p':
            st.log = st.log + (('store', p, val, size, inst),)


def driver(R, prog, fn, cfg):
    A = DriveAI(prog)
    st = State()
    if len(fn.args) != 4:
        R.undecided.append('parameters of the sorting function'); return
    lists = [A.list_of(st, 'labels', SIZES[cfg['LABEL_TYPE']]), A.list_of(st, 'values', 8 if cfg['DISTANCE_TYPE'] == 'double' else 4)]
    s = num(st, 'left'); e = num(st, 'right') - 1
    base = {A.init['labels']['data'][1]: 'c', A.init['values']['data'][1]: 'd', lists[0][1]: 'cl', lists[1][1]: 'dl'}
    found = {}

    def part(A, st, i, a):
        roles = []
        for q in a:
            q = st.res(q) if q[0] == 'p' else q
            if q[0] == 'p':
                roles.append(base.get(q[1], 'out' if isinstance(q[1], tuple) and q[1][0] in ('alloca', 'alloc') else '?') if q[2].const() == 0 else '?')
            else:
                roles.append(q)
        ints = [(n, q[1]) for n, q in enumerate(roles) if q[0] == 'i' and not isinstance(q, str)]
        v = A.fresh('i32', 'place')
        lo = hi = None
        if len(ints) == 2:
            lo, hi = ints[0][1], ints[1][1]
            if same(st, lo, e) and same(st, hi, s):
                lo, hi = hi, lo; ints.reverse()
        names = [q if isinstance(q, str) else 'i' for q in roles]
        if lo is not None:
            for n, nm in zip((ints[0][0], ints[1][0]), ('lo', 'hi')):
                names[n] = nm
            st.add_ge(v[1] - lo); st.add_ge(hi - v[1])
        found[i.d['callee'].get('n')] = tuple(names)
        A.log(st, 'part', lo, hi, None, v[1], i)
        if 'out' in names:
            A.store_q(st, st.res(a[names.index('out')]), v, 4, 'i32')
        for t in ('labels', 'values'):
            A.bulk_write(st, A.init[t]['data'])
        return [(st, v if i.ty != 'void' else None)]

    def rec(A, st, i, a):
        A.log(st, 'rec', a[2][1], a[3][1], i)
        if (st.res(a[0]), st.res(a[1])) != (lists[0], lists[1]):
            bad(R, 'driver', i.loc(), 'the part before or after the one in place is sorted in other lists', st)
        return [(st, None if i.ty == 'void' else A.fresh(i.ty))]
    A.hooks[fn.name] = rec
    first = [True]
    for nm in set(i.d['callee'].get('n') for b in fn.blocks.values() for i in b.insts if i.op == 'call' and i.d.get('callee', {}).get('n') in prog.fns) if isinstance(fn.blocks, dict) else set(i.d['callee'].get('n') for b in fn.blocks for i in b.insts if i.op == 'call' and i.d.get('callee', {}).get('n') in prog.fns):
        g = prog.fns[nm]
        if nm != fn.name and not nm.startswith('llvm') and len(g.args) >= 4 and writes(g):
            A.hooks[nm] = part
    outs = p15_run(A, fn, st, lists + [('i', s), ('i', e)])
    lps = [lp for lp in A.loops if any(q[0] == 'part' for L in lp.latch for q in L.log[len(lp.H.log):])]
    seen = False
    for lp in lps:
        H = lp.H
        vs = [(q, a, h) for q, a, h in A.int_slots(lp)]
        for L in lp.latch:
            R.add('driver_passes')
            log = L.log[len(H.log):]
            parts = [q for q in log if q[0] == 'part']
            if len(parts) != 1 or parts[0][1] is None:
                R.undecided.append('several partitions in a pass'); continue
            cur = []
            for z, arg in ((parts[0][1], s), (parts[0][2], e)):
                m = [(q, a, h) for q, a, h in vs if same(L, z, h)]
                cur.append((z, A.slot_value(L, m[0][0], True)[1]) if m and same(lp.S0, m[0][1], arg) else (z, z) if not m and same(L, z, arg) else None)
            if None in cur:
                R.undecided.append('range sorted'); continue
            seen = True
            got = [(q[1], q[2]) for q in log if q[0] == 'rec'] + [(cur[0][1], cur[1][1])]
            ranges(R, fn, L, parts, got, cur[0][0], cur[1][0])
            for x in lp.exits + lp.rets:
                if not any(q[0] == 'part' for q in x.log[len(H.log):]) and not x.ge(cur[0][0] - cur[1][0]):
                    bad(R, 'driver', lp.loc(), 'a range of two or more entries is not sorted', x)
    for x, v in outs:
        R.add('driver_paths')
        if any(lp in lps for lp in A.loops_of(x)):
            continue
        parts = [q for q in x.log if q[0] == 'part']
        recs = [(q[1], q[2]) for q in x.log if q[0] == 'rec']
        if not parts:
            if not x.ge(s - e):
                if A.loops_of(x) or any(q[0] == 'store' for q in x.log):
                    R.undecided.append('sorting in another way')
                else:
                    bad(R, 'driver', fn.loc(), 'a range of two or more entries is not sorted', x)
            continue
        if parts[-1][1] is None:
            R.undecided.append('range partitioned'); continue
        seen = True
        ranges(R, fn, x, parts, recs, s, e)
    for nm, names in found.items():
        if sorted(n for n in names if n != 'out') != ['c', 'd', 'hi', 'lo']:
            if '?' not in names and sorted(n for n in names if n != 'out') in (['c', 'c', 'hi', 'lo'], ['d', 'd', 'hi', 'lo']):
                bad(R, 'driver', prog.fns[nm].loc(), 'one of the two lists is not sorted')
            else:
                R.undecided.append('arguments of the partition %s' % (names,))
            continue
        R.add('functions')
        partition(R, prog, prog.fns[nm], names, cfg)


def writes(g):
    bs = g.blocks.values() if isinstance(g.blocks, dict) else g.blocks
    return any(i.op == 'store' for b in bs for i in b.insts)


def p15_run(A, fn, st, args):
    """run fn itself although calls of it are events"""
    h = A.hooks[fn.name]
    return A.run(fn, st, args)


def same(st, a, b):
    return a == b or st.eq0(a - b)


# ---- partition
def partition(R, prog, fn, names, cfg):
    A = PartAI(prog)
    dsz = 8 if cfg['DISTANCE_TYPE'] == 'double' else 4; lsz = SIZES[cfg['LABEL_TYPE']]
    A.wd = {D: dsz, C: lsz}; A.ty = {D: cfg['DISTANCE_TYPE'], C: 'i%d' % (8 * lsz)}
    st = State()
    for b in (D, C):
        st.nul[b] = 'nonnull'; st.reg[b] = Region('heap', None, 'sym')
    ob = ('rec', 'pivot'); st.nul[ob] = 'nonnull'; st.reg[ob] = Region('input', Poly.c(4))
    lo, hi = num(st, 'lower'), num(st, 'upper')
    st.add_ge(hi - lo - 1)
    A.lo, A.hi = lo, hi
    args = {'c': ('p', C, ZERO), 'd': ('p', D, ZERO), 'lo': ('i', lo), 'hi': ('i', hi), 'out': ('p', ob, ZERO)}
    E = st.copy()
    clean = True
    for two in (1, 2, 0):
        A.loops = []; A.out = []; A.inside = 0
        st = E.copy()
        if two:
            st.add_ge(lo + two - hi); st.add_ge(hi - lo - two)
        outs = A.run(fn, st, [args[n] for n in names])
        A.quiet = False
        if two:
            for inst, x, k, kind in A.out:
                if k is not None and (x.ge(lo - k - 1) or x.ge(k - hi - 1)):
                    bad(R, 'range', inst.loc(), 'an entry outside the range is used (when there are %d entries)' % (two + 1), x)
                    clean = False
    R.add('accesses', A.inside)
    for inst, x, k, kind in A.out:
        if k is not None and (x.ge(lo - k - 1) or x.ge(k - hi - 1)):
            bad(R, 'range', inst.loc(), 'an entry outside the range is used', x)
            clean = False
        else:
            clean = False
            if k is not None and k.atoms() <= lo.atoms() | hi.atoms():
                bad(R, 'range', inst.loc(), 'an entry outside the range can be used', x)
            else:
                R.undecided.append('entry %s used' % k)
    # permutation
    pts = []
    wl = [lp for lp in A.loops if any(e[0] == 'havoc' for e in lp.H.log[len(lp.S0.log):])]
    for lp in wl:
        pts.append((lp.S0, lp.loc(), 'before a loop'))
        for L in lp.latch:
            pts.append((L, lp.loc(), 'in a pass'))
    for x, v in outs:
        pts.append((x, fn.loc(), 'at the end'))
    for x, loc, where in pts:
        R.add('stretches')
        r = moves(R, A, x, E, wl, loc, fn)
        clean = clean and r
    # a pass that leaves everything as it was
    for lp in wl:
        for L in lp.latch:
            z = L.copy(); ok = True
            for slot, a, h in A.int_slots(lp):
                n = A.slot_value(L, slot, True)
                if n is None or n[0] != 'i':
                    ok = False; break
                if z.ge(n[1] - h - 1) or z.ge(h - n[1] - 1):
                    ok = False; break
                z.add_ge(n[1] - h); z.add_ge(h - n[1])
            if not ok or z.ge(Poly.c(-1)):
                continue
            R.add('standing_passes')
            n = len(lp.H.log)
            same_all = True
            if any(e[0] == 'havoc' for e in L.log[n:]):
                continue
            for e in L.log[n:]:
                if e[0] == 'store' and e[1][1] == D:
                    k = exact_div(e[1][2], Poly.c(dsz)) if e[1][2].t else ZERO
                    o = A.cell(lp.H, D, k) if k is not None else None
                    if o is None or e[2][0] != 'f' or '=' not in A.frel(z, o[1], e[2][1]):
                        same_all = False
            if same_all and clean:
                bad(R, 'end', lp.loc(), 'a pass can leave everything as it was, so sorting does not end', z, len(lp.H.trace))
    # order
    for x, v in outs:
        R.add('ends')
        m = v if v is not None and v[0] == 'i' else None
        if 'out' in names:
            c = x.heap.get(ob, {}).get(ZERO)
            m = c[0] if c is not None else None
            if m is None:
                bad(R, 'place', fn.loc(), 'the place of the entry compared with is not handed back', x); continue
        if m is None or m[0] != 'i':
            R.undecided.append('place returned'); continue
        m = m[1]
        for z in split(A, x, [m] + [q for q in written(A, x)]):
            if not (z.ge(m - lo) and z.ge(hi - m)):
                (bad(R, 'place', fn.loc(), 'the place handed back may lie outside the range (%s)' % m, z) if clean else R.undecided.append('place handed back')); continue
            xs = {q[4] for q in z.preds if q[0] == 'R'} | {q[3][1] for q in z.preds if q[0] == 'EQ' and q[1] == D}
            c = A.cell(z, D, m)
            if c[0] == 'f':
                xs.add(c[1])
            xs = [t for t in xs if A.isval(z, D, m, ('f', t))]
            left = [t for t in xs if A.prove(z, lo, m, '<=', t, 3)]
            right = [t for t in xs if A.prove(z, m + 1, hi + 1, '>=', t, 3)]
            if set(left) & set(right):
                R.add('ordered'); continue
            if not clean or not xs:
                R.undecided.append('order at the end')
            else:
                bad(R, 'order', fn.loc(), 'not all entries %s the place handed back are shown to be %s' % (('before', 'not greater than the one there') if not left else ('after', 'not smaller than the one there')), z)


def written(A, x):
    out = []
    for e in x.log:
        if e[0] == 'store' and e[1][1] in (D, C):
            k = exact_div(e[1][2], Poly.c(A.wd[e[1][1]])) if e[1][2].t else ZERO
            if k is not None and not any(q == k for q in out):
                out.append(k)
    return out[-3:]


def split(A, x, ks):
    """states in which the positions are known to be equal or different"""
    sts = [x]
    for n, a in enumerate(ks):
        for b in ks[:n]:
            nx = []
            for z in sts:
                if z.eq0(a - b) or z.ge(a - b - 1) or z.ge(b - a - 1):
                    nx.append(z); continue
                for f in ((a - b, b - a), (a - b - 1,), (b - a - 1,)):
                    y = z.copy()
                    if any(y.ge(-g - 1) for g in f):
                        continue
                    for g in f:
                        y.add_ge(g)
                    nx.append(y)
            sts = nx[:27]
    return sts


def moves(R, A, x, E, wl, loc, fn):
    """since the last loop head, both arrays were rearranged in the same way without losing an entry"""
    n = max([k for k, e in enumerate(x.log) if e[0] == 'havoc'], default=-1) + 1
    if n == 0:
        ref = E
    else:
        c = [lp for lp in wl if len(lp.H.log) == n and lp.H.log == x.log[:n]]
        if not c:
            R.undecided.append('moves'); return False
        ref = c[-1].H
    st = [e for e in x.log[n:] if e[0] == 'store' and e[1][1] in (D, C)]
    if not st:
        return True
    ks = []
    for e in st:
        k = exact_div(e[1][2], Poly.c(A.wd[e[1][1]])) if e[1][2].t else ZERO
        if k is None:
            R.undecided.append('moves'); return False
        if k not in ks:
            ks.append(k)
    good = True
    for z in split(A, x, ks):
        cls = []
        for k in ks:
            if not any(same(z, k, q) for q in cls):
                cls.append(k)
        fin = {}
        for e in st:
            k = exact_div(e[1][2], Poly.c(A.wd[e[1][1]])) if e[1][2].t else ZERO
            fin[(e[1][1], [q for q in range(len(cls)) if same(z, cls[q], k)][0])] = e
        src = {}; late = []
        for (b, q), e in fin.items():
            s = [j for j in range(len(cls)) if source(A, ref, z, b, cls[j], e[2])]
            if not s:
                p = A.posof(e[2])
                if p is not None and p[0] != b:
                    bad(R, 'together', e[4].loc(), 'an entry goes to the other list', z); return False
                if e[2][0] == 'f' and p is None and p15.dirt(e[2][1]):
                    bad(R, 'together', e[4].loc(), 'what is stored is not an entry but ' + p15.dirt(e[2][1]), z); return False
                late.append((b, q, e, p))
                if any(g[0] == 'EQ' and g[1] == b and g[3] == e[2] and all(z.ge(g[2] - k - 1) or z.ge(k - g[2] - 1) for k in cls) for g in ref.preds):
                    bad(R, 'together', e[4].loc(), 'an entry is stored at %s but nothing takes its place' % cls[q], z); return False
                if p is not None and A.cell(ref, b, p[1]) == e[2] and all(z.ge(p[1] - k - 1) or z.ge(k - p[1] - 1) for k in cls):
                    bad(R, 'together', e[4].loc(), 'entry %s is stored at %s but nothing takes its place' % (p[1], cls[q]), z); return False
                continue
            src[(b, q)] = s
        for b, q, e, p in late:
            j = src.get((C if b == D else D, q))
            o = fin.get((C if b == D else D, q))
            po = A.posof(o[2]) if o is not None else None
            if p is not None and po is not None and A.cell(E, b, p[1]) == e[2] and A.cell(E, po[0], po[1]) == o[2] and (z.ge(p[1] - po[1] - 1) or z.ge(po[1] - p[1] - 1)):
                bad(R, 'together', e[4].loc(), 'the labels are not moved in the same way as their values', z); return False
            w = A.cell(ref, b, cls[j[0]]) if j and len(j) == 1 else None
            pw = A.posof(w) if w is not None else None
            if p is not None and pw is not None and vers(w) == vers(e[2]) is not None and (z.ge(p[1] - pw[1] - 1) or z.ge(pw[1] - p[1] - 1)):
                bad(R, 'together', e[4].loc(), 'the labels are not moved in the same way as their values', z); return False
        if late:
            R.undecided.append('entry stored'); good = False; continue
        # a bijection common to both arrays
        perm = match(cls, src)
        if perm:
            R.add('rearrangements'); continue
        one = {b: match(cls, {k: v for k, v in src.items() if k[0] == b}, True) for b in (D, C)}
        if not one[D] or not one[C]:
            bad(R, 'together', loc, 'an entry of the %s is lost and another doubled' % ('values' if not one[D] else 'labels'), z)
        else:
            bad(R, 'together', loc, 'the labels are not moved in the same way as their values', z)
        return False
    return good


def vers(v):
    if v[0] == 'f' and v[1][0] == 'ld':
        return v[1][2][2]
    if v[0] == 'i' and v[1].single() is not None:
        return ATOMS[v[1].single()].key[3]
    return None


def source(A, ref, z, b, k, v):
    if A.cell(ref, b, k) == v:
        return True
    p = A.posof(v)
    if p is not None and p[0] == b and same(z, p[1], k) and A.cell(ref, b, p[1]) == v:
        return True
    return any(q[0] == 'EQ' and q[1] == b and q[3] == v and same(z, q[2], k) for q in ref.preds)


def match(cls, src, single=False):
    """a permutation of the classes with src[(array, q)] containing perm[q] for all arrays (an array not written at q keeps q)"""
    import itertools
    n = len(cls)
    if n > 4:
        return None
    for p in itertools.permutations(range(n)):
        ok = True
        for q in range(n):
            for b in (D, C):
                s = src.get((b, q))
                if s is None:
                    if single and not any(k[0] == b for k in src):
                        continue
                    if p[q] != q:
                        ok = False
                elif p[q] not in s:
                    ok = False
        if ok:
            return p
    return None


# ---- what is sorted
class RankAI(HierAI):
    LOOPP = 24

    def __init__(s, prog):
        HierAI.__init__(s, prog)
        s.hooks['hdbscan_quicksort'] = RankAI.h_sort
        old = s.hooks['array_list_init']

        def init(A, st, i, a):
            out = old(A, st, i, a)
            for x, p in out:
                A.log(x, 'capacity', p, a[0][1] if a[0][0] == 'i' else None, a[1][1] if len(a) > 1 and a[1][0] == 'i' else None, i)
            return out
        s.hooks['array_list_init'] = init

    def h_sort(s, st, i, a):
        s.log(st, 'sort', tuple(st.res(q) if q[0] == 'p' else q for q in a), st.copy(), i)
        for q in a:
            q = st.res(q) if q[0] == 'p' else q
            if q[0] == 'p':
                d = s.load_q(st, None, ('p', q[1], s.LO['data']), 'ptr', 8)
                if d[0] == 'p':
                    s.bulk_write(st, d)
        return [(st, None if i.ty == 'void' else s.fresh(i.ty))]

    def on_store(s, st, inst, ptr, val, size):
        p = st.res(ptr)
        if p[0] == 'p':
            st.log = st.log + (('store', p, val, size, inst),)


def ranking(R, prog, fn, cfg, kind, given):
    """given: 0 no list handed in, 1 a list of labels, 2 an empty list"""
    for ty in ((0, 1) if kind == 'similarity' else (None,)):
        A = RankAI(prog)
        A.fz = 8 if cfg['DISTANCE_TYPE'] == 'double' else 4
        lsz = SIZES[cfg['LABEL_TYPE']]
        st = State()
        t = A.record(st, 'map', 'HASHTABLE_')
        A.put(st, 'map', 'HASHTABLE_', 'keys', A.list_of(st, 'keys', lsz))
        n = A.init['keys']['size'][1]
        A.hooks['hashtable_size'] = lambda A, st, i, a: [(st, A.load_q(st, None, ('p', A.init['map']['keys'][1], A.LO['size']), 'i64', 8))] if st.res(a[0]) == t else None

        def lk(A, st, i, a):
            out = HierAI.h_lookup(A, st, i, a)
            return ([(x, v) for x, v in out if not (v[0] == 'i' and v[1].const() == 0)] or out) if st.res(a[0]) == t else out
        A.hooks['hashtable_lookup'] = lk
        st.add_ge(Poly.c(2 ** 31 - 1) - n); st.add_ge(n - 1)
        mine = None
        if given == 0:
            arg = NULL
        else:
            arg = mine = A.list_of(st, 'given', lsz)
            m = A.init['given']['size'][1]
            st.add_ge(Poly.c(2 ** 31 - 1) - m)
            if given == 2:
                st.heap[mine[1]][A.LO['size']] = (I(0), 8, 'i64')
            else:
                st.add_ge(m - 1)
                n = m
        args = [t, arg] + ([I(ty)] if ty is not None else [])
        if len(fn.args) != len(args):
            R.undecided.append('parameters of ' + fn.name); return
        outs = A.run(fn, st, args)
        if not outs:
            R.undecided.append('no end of ' + fn.name); continue
        keyb = A.init['given' if given == 1 else 'keys']['data'][1]
        want = 'size' if ty is None else ('cr', 'dr')[ty]
        for x, v in outs:
            R.add('rankings')
            ranked(R, A, prog, fn, x, v, mine, given, n, keyb, lsz, want)


def ranked(R, A, prog, fn, x, v, mine, given, n, keyb, lsz, want):
    dv = {f['name']: f['off'] for f in prog.ditypes['distance_values']['fields']}
    what = {'size': 'the number of its points', 'cr': 'its core distance confidence', 'dr': 'its distance confidence'}[want]
    sorts = [e for e in x.log if e[0] == 'sort']
    if not sorts:
        if x.ge(ONE - n):
            return
        bad(R, 'ranking', fn.loc(), 'the clusters are not sorted', x); return
    if len(sorts) > 1 or len(sorts[0][1]) != 4:
        R.undecided.append('sorting'); return
    e = sorts[0]; S = e[2]; cl, vl, lo, hi = e[1]
    rv = x.res(v) if v is not None and v[0] == 'p' else v
    if rv != cl:
        bad(R, 'ranking', fn.loc(), 'what is returned is not the sorted list', x); return
    if given and cl != mine:
        R.undecided.append('list sorted'); return
    if lo[0] != 'i' or hi[0] != 'i':
        R.undecided.append('range sorted'); return
    cs = S.heap.get(cl[1], {}).get(A.LO['size'])
    cs = cs[0][1] if cs is not None and cs[0][0] == 'i' else n
    if lo[1].const() != 0:
        (bad(R, 'ranking', e[3].loc(), 'sorting does not start at the first cluster (%s)' % lo[1], x) if lo[1].const() is not None else R.undecided.append('range sorted'))
    h = hi[1] + 1
    if not any(same(S, h, q) for q in (cs, n)):
        c = [d.const() for d in (h - cs, h - n) if d.const() is not None]
        low = A.org(hi)
        if h.const() is not None and h.const() <= 1 or h.const() == 2 ** 32:
            bad(R, 'ranking', e[3].loc(), 'nothing is sorted', x)
        elif c:
            bad(R, 'ranking', e[3].loc(), 'the range sorted ends %d beyond the last cluster' % c[0], x)
        elif not wraps(h, cs) and not wraps(h, n):
            R.undecided.append('range sorted (%s)' % hi[1])
    # after sorting
    k = x.log.index(e)
    gone = [q for q in x.log if q[0] == 'array_list_delete']
    for q in gone:
        if q[1] == cl:
            bad(R, 'ranking', q[3].loc(), 'the list returned is deleted', x); return
        if q[1] == vl and x.log.index(q) < k:
            bad(R, 'ranking', q[3].loc(), 'the values are deleted before sorting', x); return
    if not any(q[1] == vl for q in gone) and isinstance(vl[1], tuple) and vl[1][0] == 'alloc':
        bad(R, 'ranking', fn.loc(), 'the list of values is not deleted', x)
    # filling
    for q in x.log:
        if q[0] == 'capacity' and q[1] in (cl, vl):
            w = lsz if q[1] == cl else A.fz
            if q[3] is not None and q[3].const() is not None and q[3].const() != w:
                bad(R, 'ranking', q[4].loc(), 'a list of %s has entries of %d bytes instead of %d' % ('labels' if q[1] == cl else 'values', q[3].const(), w), x); return
            if q[1] == vl and q[2] is not None and any(z[0] == 'store' and z[1][1] == base(S, A, vl) for lp in A.loops_of(x) for L in lp.latch for z in A.tail(lp, L)) and not x.ge(q[2] - n):
                if x.ge(n - 1 - q[2]) or q[2].const() is not None or q[2].atoms() <= n.atoms():
                    bad(R, 'ranking', q[4].loc(), 'values are stored beyond the room of their list', x); return
                R.undecided.append('room of the list of values')
    vd = S.heap.get(vl[1], {}).get(A.LO['data']); vd = vd[0] if vd else None
    cd = S.heap.get(cl[1], {}).get(A.LO['data']); cd = cd[0] if cd else (A.init['given']['data'] if given else None)
    full = lbl = False
    odd = False
    inloops = set()
    for lp in A.loops_of(x):
        acts = [z for L in lp.latch for z in A.tail(lp, L) if z[0] == 'append' and z[1] in (cl, vl) or z[0] == 'store' and vd is not None and z[1][1] in (vd[1], cd[1] if cd else None)]
        if not acts:
            continue
        R.add('loops')
        i, why = A.steps_over(lp, ZERO, n)
        if i is None:
            (bad(R, 'ranking', lp.loc(), 'the loop over the clusters %s' % why) if why != '?' else R.undecided.append('loop over the clusters'))
            odd = True; continue
        for L in lp.latch:
            R.add('passes')
            T = A.tail(lp, L)
            vals = []; lab = []
            for z in T:
                if z[0] == 'append' and z[1] == vl:
                    vals.append((z[2], z[3]))
                elif z[0] == 'append' and z[1] == cl:
                    lab.append((z[2], z[3]))
                elif z[0] == 'store' and vd is not None and z[1][1] == vd[1]:
                    if z[1][2] == i * A.fz or L.eq0(z[1][2] - i * A.fz):
                        vals.append((z[2], z[4]))
                    else:
                        bad(R, 'ranking', z[4].loc(), 'the value of a cluster goes to the place of another', L, len(lp.H.trace)); return
                elif z[0] == 'store' and cd is not None and z[1][1] == cd[1]:
                    if z[1][2] == i * lsz or L.eq0(z[1][2] - i * lsz):
                        lab.append((z[2], z[4]))
                    else:
                        R.undecided.append('label stored'); return
            if len(vals) != 1 and any(z[0] == 'store' for z in T):
                vals = vals[-1:]
            if not given == 1 or lab:
                if len(lab) != 1 and given != 1:
                    bad(R, 'ranking', lp.loc(), 'a label is listed %s' % ('more than once' if lab else 'in no pass'), L, len(lp.H.trace)); return
                for q, inst in lab:
                    g = A.org(q) if q is not None else None
                    if g is None:
                        R.undecided.append('label listed'); return
                    if g[0] != keyb or not (g[1] == i * lsz or L.eq0(g[1] - i * lsz)):
                        bad(R, 'ranking', inst.loc(), 'what is listed is not the label of this pass', L, len(lp.H.trace)); return
                lbl = True
            if len(vals) != 1:
                bad(R, 'ranking', lp.loc(), 'a cluster gets %s value' % ('no' if not vals else 'more than one'), L, len(lp.H.trace)); return
            r = measure(A, L, T, vals[0][0], i, keyb, lsz, dv)
            if r is None:
                R.undecided.append('value of a cluster'); return
            full = True
            if r[0] != want:
                bad(R, 'ranking', vals[0][1].loc(), 'a cluster is not ranked by %s' % what, L, len(lp.H.trace)); return
            if not r[1]:
                bad(R, 'ranking', vals[0][1].loc(), 'a cluster is ranked by the value of another', L, len(lp.H.trace)); return
            R.add('values')
    if odd or x.ge(-n):
        return
    if not full:
        (bad(R, 'ranking', fn.loc(), 'the clusters get no values', x) if not A.loops_of(x) else R.undecided.append('values')); return
    if given == 1:
        s = S.heap.get(vl[1], {}).get(A.LO['size'])
        if s is not None and s[0][0] == 'i' and s[0][1].const() is not None and not x.ge(-n) and not any(z[0] == 'append' for z in x.log):
            pass            # the sort is handed its range
    elif not lbl:
        bad(R, 'ranking', fn.loc(), 'the labels are not listed', x)


def base(S, A, l):
    c = S.heap.get(l[1], {}).get(A.LO['data'])
    return c[0][1] if c is not None and c[0][0] == 'p' else None


def wraps(h, n):
    """h is n converted to another width and back"""
    a = n.single()
    return any(a == q or a in deep(q) for q in h.atoms()) if a is not None else n.atoms() & h.atoms()


def deep(a, d=4):
    k = ATOMS[a].key; out = set()
    for q in k:
        if isinstance(q, Poly):
            out |= set(q.atoms())
            if d:
                for z in q.atoms():
                    out |= deep(z, d - 1)
    return out


def measure(A, L, T, v, i, keyb, lsz, dv):
    """('cr'|'dr'|'size'|'?', of the label of this pass?) of the value given to a cluster"""
    if v is None:
        return None
    if v[0] == 'f' and isinstance(v[1], tuple) and v[1][0] == 'i2f':
        g = A.org(('i', v[1][1]) if isinstance(v[1][1], Poly) else v[1][1])
        if g is None:
            return ('?', False) if isinstance(v[1][1], Poly) and v[1][1].const() is not None else None
        g = (g[0], g[1]); f = 'size' if g[1] == A.LO['size'] else '?'
    else:
        t = v[1] if v[0] == 'f' else None
        if isinstance(t, tuple) and t[0] == 'const':
            return ('?', False)
        g = A.loaded(v) or (v[1] if False else None)
        if g is None:
            return None
        c = g[1].const()
        f = 'cr' if c == dv['cr_confidence'] else 'dr' if c == dv['dr_confidence'] else '?'
    for e in T:
        if e[0] == 'get' and e[3] is not None and e[3][0] == 'p' and e[3][1] == g[0]:
            o = A.org(e[2]) if e[2] is not None else None
            if o is None:
                return None
            return f, o[0] == keyb and (o[1] == i * lsz or L.eq0(o[1] - i * lsz))
    return (f, False) if isinstance(g[0], tuple) and g[0][0] in ('recp',) else None
