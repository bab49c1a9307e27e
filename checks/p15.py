"""Sorting of the edges of the graph.  (1) swapping: for two different symbolic positions all three lists exchange the entries
at exactly these positions.  (2) one partition step, interpreted with swaps as events: the weight compared with is moved to
the end, every position of the range is looked at once, an entry goes before the boundary exactly if it is smaller (either way
for equal ones), the boundary moves with it, and at last the weight is put at the boundary whose position is returned.
(3) choice of the position: always inside the range.  (4) the driver, with partition as an event: starts with the whole list,
hands on the part before and the part after the position unless they have fewer than two entries, with room for them."""
from pipedom import *
from p30 import Ctx

G = 'UndirectedGraph'
LISTS = (('va', 'verticesA', 0), ('vb', 'verticesB', 0), ('ew', 'edgeWeights', 1))


class SortAI(PipeAI):
    MAXP = 64

    def __init__(s, prog):
        PipeAI.__init__(s, prog)

    def h_swap(s, st, i, a):
        s.log(st, 'swap', a[1][1] if a[1][0] == 'i' else None, a[2][1] if a[2][0] == 'i' else None, i)
        for t in ('va', 'vb', 'ew'):
            s.bulk_write(st, s.init[t]['data'])
        return [(st, None if i.ty == 'void' else s.fresh(i.ty))]

    def h_part(s, st, i, a):
        v = s.fresh(i.ty, 'place')
        lo, hi = a[1][1], a[2][1]
        st.add_ge(v[1] - lo); st.add_ge(hi - v[1])
        s.log(st, 'part', lo, hi, a[3][1] if len(a) > 3 and a[3][0] == 'i' else None, v[1], i)
        return [(st, v)]

    def h_pivot(s, st, i, a):
        v = s.fresh(i.ty, 'pivot')
        st.add_ge(v[1] - a[1][1]); st.add_ge(a[2][1] - v[1])
        return [(st, v)]

    def h_rec(s, st, i, a):
        s.log(st, 'rec', a[1][1], a[2][1], i)
        return [(st, None)]

    def on_store(s, st, inst, ptr, val, size):
        p = st.res(ptr)
        if p[0] == 'p':
            st.log = st.log + (('store', p, val, size, inst),)

    def on_memcpy(s, st, i, d, sr, n, kind):
        d = st.res(d) if d[0] == 'p' else d
        if d[0] == 'p':
            st.log = st.log + (('copy', d, sr, n, i),)


def setup(prog, fn, cfg):
    A = SortAI(prog)
    st = State(); g = A.record(st, 'g', G)
    w = {'unsigned int': 4, 'unsigned short': 2, 'unsigned long': 8}[cfg['INDEX_TYPE']]
    d = 8 if cfg['DISTANCE_TYPE'] == 'double' else 4
    for tag, f, k in LISTS:
        A.put(st, 'g', G, f, A.list_of(st, tag, d if k else w))
    A.n = A.init['ew']['size'][1]
    st.add_ge(Poly.c(2 ** 31 - 2) - A.n)
    A.w = {'va': w, 'vb': w, 'ew': d}
    A.data = {A.init[t]['data'][1]: t for t in ('va', 'vb', 'ew')}
    return A, st, g


def num(st, nm):
    return Poly.a(fresh_atom(nm, 0, 2 ** 31 - 2, 64))


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('core', cfg)
        for f, nm in ((swap, 'graph_swap_edges'), (partition, 'graph_partition'), (select, 'graph_select_pivot_index'), (driver, 'graph_quicksort_by_edge_weight'), (driver, 'graph_quicksort')):
            fn = prog.fns.get(nm)
            if fn is None:
                R.undecided.append('%s not found' % nm); continue
            R.add('functions')
            f(R, prog, fn, cfg)
    R.need('functions', 1)
    R.assumptions += ['weights are not NaN', 'fewer than 2^31 edges', 'the three lists have the same length']


def bad(R, rule, where, msg, L=None, n=0):
    R.violation(rule, where, msg, key='%s|%s' % (rule, msg[:90]), path=['%s branch %s' % (t[0], t[1]) for t in L.trace[n:] if t[0] != 'loop'] if L is not None else None)


def same(st, a, b):
    return a == b or st.eq0(a - b)


def entry(A, val):
    """(list, position) a value was read from"""
    g = A.loaded(val)
    if g is None and val is not None and val[0] == 'i' and val[1].single() is not None and ATOMS[val[1].single()].key[0] == 'zext' and val[1] == Poly.a(val[1].single()):
        g = A.loaded(('i', ATOMS[val[1].single()].key[1]))
    if g is None or g[0] not in A.data:
        return None
    t = A.data[g[0]]
    k = exact_div(g[1], Poly.c(A.w[t])) if g[1].t else ZERO
    return (t, k) if k is not None else None


# ---- swapping
def swap(R, prog, fn, cfg):
    A, st, g = setup(prog, fn, cfg)
    i, j = num(st, 'i'), num(st, 'j')
    st.add_ge(A.n - 1 - i); st.add_ge(A.n - 1 - j)
    outs = []
    for d in (i - j - 1, j - i - 1):
        x = st.copy(); x.add_ge(d)
        outs += A.run(fn, x, [g, ('i', i), ('i', j)])
    for x, v in outs:
        for t in ('va', 'vb', 'ew'):
            R.add('swaps')
            b = A.init[t]['data'][1]
            cells = {}
            for e in x.log:
                if e[0] == 'store' and e[1][1] == b:
                    k = exact_div(e[1][2], Poly.c(A.w[t])) if e[1][2].t else ZERO
                    cells[k] = e[2]
                elif e[0] in ('copy', 'bulk'):
                    cells[None] = None
            if None in cells:
                R.undecided.append('exchange by copies'); continue
            done = True
            for p, q in ((i, j), (j, i)):
                v = [c for k, c in cells.items() if same(x, k, p)]
                if not v:
                    bad(R, 'swap', fn.loc(), 'entry %s of a list of the edges is not exchanged' % p, x); done = False; continue
                o = entry(A, v[-1])
                if o is None:
                    R.undecided.append('entry exchanged'); continue
                if o[0] != t:
                    bad(R, 'swap', fn.loc(), 'an entry goes to another list', x); done = False
                elif not same(x, o[1], q):
                    bad(R, 'swap', fn.loc(), 'entry %s does not get what entry %s was' % (p, q), x); done = False
            for k in cells:
                if not same(x, k, i) and not same(x, k, j):
                    bad(R, 'swap', fn.loc(), 'an entry other than the two changes', x)


# ---- partition
def partition(R, prog, fn, cfg):
    A, st, g = setup(prog, fn, cfg)
    A.hooks['graph_swap_edges'] = SortAI.h_swap
    s, e, p = num(st, 'start'), num(st, 'end'), num(st, 'pivot')
    for q in (e - s - 1, p - s, e - p, A.n - 1 - e):
        st.add_ge(q)
    outs = A.run(fn, st, [g, ('i', s), ('i', e), ('i', p)])
    if not any(v == 'swap' for x, _ in outs for v in [q[0] for q in x.log]):
        if not any(q[0] == 'swap' for lp in A.loops for L in lp.latch for q in L.log):
            R.undecided.append('partition without exchanges by the swap function'); return
    ok = None
    loops = [lp for lp in A.loops]
    body = [lp for lp in loops if any(q[0] == 'swap' for L in lp.latch for q in L.log[len(lp.H.log):])]
    if len(set((lp.header, lp.fn.name) for lp in body)) != 1:
        if not body:
            bad(R, 'partition', fn.loc(), 'no entry is moved')
        else:
            R.undecided.append('partition with several loops')
        return
    known = s.atoms() | e.atoms() | p.atoms()
    for lp in body:
        H = lp.H
        # the weight compared with
        pre = [q for q in lp.S0.log if q[0] == 'swap']
        if len(pre) == 1 and {q for q in ('p' if same(H, pre[0][1], p) else 0, 'e' if same(H, pre[0][2], e) else 0)} == {'p', 'e'} or len(pre) == 1 and same(H, pre[0][2], p) and same(H, pre[0][1], e):
            where = 'end'
        elif not pre:
            bad(R, 'pivot', fn.loc(), 'the entry compared with is not put aside') if not same(H, p, e) else None
            continue
        else:
            (bad(R, 'pivot', pre[0][3].loc(), 'entries %s and %s are exchanged instead of putting the entry compared with at the end' % (pre[0][1], pre[0][2])) if all(q.atoms() <= known for z in pre for q in z[1:3] if q is not None) else R.undecided.append('entry put aside'))
            continue
        ctr = A.counter(lp, [e, s])
        c = [k for k in ctr if same(H, k[1], s) and same(H, k[2], e)]
        if not c:
            (bad(R, 'range', lp.loc(), 'only entries %s to %s are looked at' % (ctr[0][1], ctr[0][2] - 1)) if ctr and all(k[1].atoms() | k[2].atoms() <= known for k in ctr) else R.undecided.append('range of the partition'))
            continue
        i = c[0][0]
        low = None
        for L in lp.latch:
            R.add('passes')
            sw = [q for q in L.log[len(H.log):] if q[0] == 'swap']
            rel = other = None
            for (a, b), r in L.ford.items():
                a, b, dv = difference(a, b)
                if dv:
                    other = other or dv
                for x, y, lt, gt in ((a, b, '<', '>'), (b, a, '>', '<')):
                    ex, ey = entry(A, ('f', x)), entry(A, ('f', y))
                    if ex is None or ey is None or ex[0] != 'ew' or ey[0] != 'ew':
                        continue
                    if same(L, ex[1], i) and x[2][2] != 0 and not same(L, ey[1], i):
                        # against the weight put aside: read before the first exchange at p, or after it at the end
                        vy = y[2][2]
                        if same(L, ey[1], p) and vy == 0 or same(L, ey[1], e) and vy != 0:
                            rel = frozenset('<' if q == lt else '>' if q == gt else '=' for q in r)
                        elif ey[1].atoms() <= known:
                            bad(R, 'order', lp.loc(), 'entries are compared with entry %s, which is not the one chosen' % ey[1], L, len(H.trace)); rel = 'bad'
            if rel == 'bad':
                continue
            if rel is None and other and sw:
                bad(R, 'order', lp.loc(), 'entries are ordered by %s' % other, L, len(H.trace)); continue
            if rel is None:
                R.undecided.append('comparison of an entry'); continue
            if len(sw) > 1:
                R.undecided.append('several exchanges'); continue
            slots = [(q, a, h) for q, a, h in A.int_slots(lp) if h != i and h.single() is not None]
            if not sw:
                ch = [(q, a, h) for q, a, h in slots if (lambda n: n is None or n[0] != 'i' or n[1] != h)(A.slot_value(L, q, True))]
                if len(ch) == 1 and same(L, ch[0][2], i) and (lambda n: n is not None and n[0] == 'i' and n[1] - ch[0][2] == ONE)(A.slot_value(L, ch[0][0], True)):
                    # the entry looked at is the one at the boundary: it stays where it is
                    if '>' in rel:
                        bad(R, 'order', lp.loc(), 'a greater entry is moved before the boundary', L, len(H.trace))
                    continue
                if '<' in rel:
                    bad(R, 'order', lp.loc(), 'a smaller entry is left behind the boundary', L, len(H.trace))
                if ch:
                    bad(R, 'order', lp.loc(), 'the boundary moves although no entry does', L, len(H.trace))
                continue
            if '>' in rel:
                bad(R, 'order', sw[0][3].loc(), 'a greater entry is moved before the boundary', L, len(H.trace)); continue
            ab = sw[0][1:3]
            o = [q for q in ab if not same(L, q, i)]
            if len(o) == 2:
                bad(R, 'order', sw[0][3].loc(), 'the entry moved is not the one looked at', L, len(H.trace)) if all(q.atoms() <= known | i.atoms() | set(a for z in slots for a in z[2].atoms()) for q in o) else R.undecided.append('entry moved'); continue
            if not o:
                o = [h for q, a, h in slots if (ab[0] - h).const() is not None or (ab[1] - h).const() is not None]
                if not o:
                    bad(R, 'order', sw[0][3].loc(), 'an entry is exchanged with itself', L, len(H.trace)); continue
                if not same(L, o[0], i):
                    bad(R, 'order', sw[0][3].loc(), 'an entry is moved to a place off the boundary', L, len(H.trace)); continue
            sl = [(q, a, h) for q, a, h in slots if h == o[0]]
            if not sl:
                d = [(q, a, h) for q, a, h in slots if (o[0] - h).const() is not None]
                (bad(R, 'order', sw[0][3].loc(), 'an entry is moved to a place %s off the boundary' % (o[0] - d[0][2]), L, len(H.trace)) if d else R.undecided.append('boundary')); continue
            q, a, h = sl[0]
            if a is not None and not same(H, a, s):
                bad(R, 'order', lp.loc(), 'the boundary starts at %s' % a) if a.atoms() <= known else R.undecided.append('boundary'); continue
            n = A.slot_value(L, q, True)
            if n is None or n[0] != 'i' or n[1] - h != ONE:
                bad(R, 'order', lp.loc(), 'the boundary does not move by one with an entry', L, len(H.trace)) if n is not None and n[0] == 'i' and (n[1] - h).const() is not None else R.undecided.append('boundary'); continue
            low = h
        if low is None:
            continue
        for x, v in outs:
            lps = A.loops_of(x)
            if lp not in lps:
                continue
            R.add('ends')
            post = [q for q in x.log[len(H.log):] if q[0] == 'swap']
            fin = post[-1] if post else None
            if fin is None or not (same(x, fin[1], low) and same(x, fin[2], e) or same(x, fin[2], low) and same(x, fin[1], e)):
                bad(R, 'place', fn.loc(), 'the entry compared with is not put at the boundary', x) if fin is None or all(q.atoms() <= known | low.atoms() | i.atoms() for q in fin[1:3]) else R.undecided.append('last exchange')
            if v is None or v[0] != 'i' or not (same(x, v[1], low) or 'trunc' in repr(v[1]) or low.atoms() & deep(v[1]) and v[1].single() is not None):
                bad(R, 'place', fn.loc(), 'the position returned is not that of the entry compared with', x) if v is not None and v[0] == 'i' and v[1].atoms() <= known | low.atoms() | i.atoms() else R.undecided.append('position returned')


def difference(a, b):
    """what a comparison of terms says about entries: (left, right, way in which it is not a comparison of the weights)"""
    for x, y, w in ((a, b, 0), (b, a, 1)):
        if x[0] == 'fsub' and y[0] == 'const' and y[1] == 0:
            return (x[1], x[2], dirt(x[1]) or dirt(x[2])) if not w else (x[2], x[1], dirt(x[1]) or dirt(x[2]))
    a, b = ext(a), ext(b)
    return a, b, dirt(a) or dirt(b)


def ext(t):
    while isinstance(t, tuple) and t[0] == 'fpext':
        t = t[1]
    return t


def dirt(t):
    t = ext(t)
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == 'fptrunc' and hasload(t[1]):
        return 'weights rounded to a coarser type'
    if t[0] in ('fadd', 'fsub', 'fmul', 'fdiv') and hasload(t):
        return 'something computed from the weights'
    return None


def hasload(t):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 'ld':
        return True
    return any(hasload(k) for k in t[1:] if isinstance(k, tuple))


def deep(p):
    out = set(); todo = list(p.atoms())
    while todo:
        a = todo.pop()
        if a in out:
            continue
        out.add(a)
        for k in ATOMS[a].key:
            if isinstance(k, Poly):
                todo += list(k.atoms())
    return out


# ---- choosing the position
def select(R, prog, fn, cfg):
    A, st, g = setup(prog, fn, cfg)
    s, e = num(st, 'start'), num(st, 'end')
    for q in (e - s, A.n - 1 - e):
        st.add_ge(q)
    for x, v in A.run(fn, st, [g, ('i', s), ('i', e)]):
        R.add('choices')
        if v is None or v[0] != 'i':
            R.undecided.append('position chosen'); continue
        if not (x.ge(v[1] - s) and x.ge(e - v[1])):
            (bad(R, 'choice', fn.loc(), 'position %s may be outside the range' % v[1], x) if v[1].atoms() <= s.atoms() | e.atoms() | deep(v[1]) and not any(ATOMS[a].key[0] in ('trunc', 'unk') for a in deep(v[1])) else R.undecided.append('position chosen'))


# ---- the driver
def driver(R, prog, fn, cfg):
    A, st, g = setup(prog, fn, cfg)
    A.hooks['graph_partition'] = SortAI.h_part; A.hooks['graph_select_pivot_index'] = SortAI.h_pivot
    A.hooks['graph_quicksort'] = SortAI.h_rec
    if len(fn.args) == 3:
        s, e = num(st, 'start'), num(st, 'end') - 1
        st.add_ge(A.n - 1 - e)
        outs = A.run(fn, st, [g, ('i', s), ('i', e)])
        lps = [lp for lp in A.loops if any(q[0] == 'part' for L in lp.latch for q in L.log[len(lp.H.log):])]
        for lp in lps:                     # the last call as a loop
            H = lp.H
            vs = [(q, a, h) for q, a, h in A.int_slots(lp)]
            for L in lp.latch:
                R.add('driver_passes')
                log = L.log[len(H.log):]
                parts = [q for q in log if q[0] == 'part']
                if len(parts) != 1:
                    R.undecided.append('several partitions in a pass'); continue
                cur = []
                for z, arg in ((parts[0][1], s), (parts[0][2], e)):
                    m = [(q, a, h) for q, a, h in vs if same(L, z, h)]
                    if m:
                        a = m[0][1]
                        if not same(lp.S0, a, arg):
                            R.undecided.append('range at the start')
                        cur.append((z, A.slot_value(L, m[0][0], True)[1]))
                    elif same(L, z, arg):
                        cur.append((z, z))
                    else:
                        cur.append(None)
                if None in cur:
                    R.undecided.append('range sorted'); continue
                got = [(q[1], q[2]) for q in log if q[0] == 'rec'] + [(cur[0][1], cur[1][1])]
                ranges(R, fn, L, parts, got, cur[0][0], cur[1][0])
                for x in lp.exits + lp.rets:
                    if any(q[0] == 'part' for q in x.log[len(H.log):]):
                        continue
                    if not x.ge(cur[0][0] - cur[1][0]):
                        bad(R, 'driver', lp.loc(), 'a range of two or more entries is not sorted', x)
        for x, v in outs:
            R.add('driver_paths')
            if any(lp in lps for lp in A.loops_of(x)):
                continue
            parts = [q for q in x.log if q[0] == 'part']
            recs = [(q[1], q[2]) for q in x.log if q[0] == 'rec']
            if not parts:
                if not x.ge(s - e):
                    if recs == [(s, e)] or not recs:
                        bad(R, 'driver', fn.loc(), 'a range of two or more entries is not sorted', x)
                continue
            ranges(R, fn, x, parts, recs, s, e)
        return
    outs = A.run(fn, st, [g])
    n = A.n
    lps = [lp for lp in A.loops if any(q[0] == 'part' for L in lp.latch for q in L.log[len(lp.H.log):])]
    for x, v in outs:
        R.add('driver_paths')
        recs = [(q[1], q[2]) for q in x.log if q[0] == 'rec']
        if recs:
            if not (same(x, recs[0][0], ZERO) and same(x, recs[0][1], n - 1)):
                bad(R, 'driver', fn.loc(), 'entries %s to %s are sorted instead of all' % recs[0], x)
            continue
        if not any(lp in lps for lp in A.loops_of(x)) and not x.ge(1 - n):
            bad(R, 'driver', fn.loc(), 'a list of two or more entries is not sorted', x)
    seen = set()
    for lp in lps:
        H = lp.H
        tops = [(q, a, h) for q, a, h in A.int_slots(lp)]
        for L in lp.latch:
            R.add('driver_passes')
            log = L.log[len(H.log):]
            parts = [q for q in log if q[0] == 'part']
            if len(parts) != 1:
                R.undecided.append('several partitions in a pass'); continue
            lo, hi = A.loaded(('i', parts[0][1])), A.loaded(('i', parts[0][2]))
            if lo is None or hi is None or not isinstance(lo[0], tuple) or lo[0][0] not in ('alloca', 'alloc') or not isinstance(hi[0], tuple):
                R.undecided.append('range sorted'); continue
            if lo[0] == hi[0]:
                R.undecided.append('one stack for both ends'); continue
            w = 8
            top = exact_div(lo[1], Poly.c(w)) if lo[1].t else ZERO
            if top is None:
                w = 4; top = exact_div(lo[1], Poly.c(w))
            if top is None or not same(L, lo[1], hi[1]):
                bad(R, 'driver', lp.loc(), 'start and end of a range are taken from different places', L, len(H.trace)) if top is not None else R.undecided.append('place of a range'); continue
            sl = [(q, a, h) for q, a, h in tops if (top - h).const() is not None]
            if not sl:
                R.undecided.append('top of the stack'); continue
            q, a, h = sl[0]
            d = top - h                         # place of the top entry relative to the variable
            nx = A.slot_value(L, q, True)
            k = (nx[1] - h).const() if nx is not None and nx[0] == 'i' else None
            if k is None:
                R.undecided.append('top of the stack'); continue
            # contents of the places top .. top + k afterwards
            arr = {lo[0]: {}, hi[0]: {}}
            for z in log:
                if z[0] == 'store' and z[1][1] in arr and z[2][0] == 'i':
                    pos = exact_div(z[1][2], Poly.c(w)) if z[1][2].t else ZERO
                    off = (pos - top).const() if pos is not None else None
                    arr[z[1][1]][off] = z[2][1]
                    r = L.reg.get(z[1][1])
            if None in arr[lo[0]] or None in arr[hi[0]]:
                R.undecided.append('range put on the stack'); continue
            pushed = []
            fail = False
            for z in range(0, k + 1):
                x0, y0 = arr[lo[0]].get(z), arr[hi[0]].get(z)
                if x0 is None or y0 is None:
                    bad(R, 'driver', lp.loc(), 'the stack grows by a range that was not put on it', L, len(H.trace)); fail = True; break
                pushed.append((x0, y0))
            if k < -1:
                bad(R, 'driver', lp.loc(), 'a range is taken from the stack without being sorted', L, len(H.trace)); continue
            if fail:
                continue
            ranges(R, fn, L, parts, pushed, parts[0][1], parts[0][2], lp)
            if (lp.header, q) in seen:
                continue
            seen.add((lp.header, q))
            # start and end of the loop
            S0 = lp.S0
            t0 = a + d if a is not None else None
            if t0 is None or t0.const() != 0:
                R.undecided.append('first range'); continue
            vals = []
            for b in (lo[0], hi[0]):
                st0 = [z for z in S0.log if z[0] == 'store' and z[1][1] == b and z[1][2].const() == 0]
                vals.append(st0[-1][2][1] if st0 and st0[-1][2][0] == 'i' else None)
            if vals[0] is None or vals[1] is None:
                bad(R, 'driver', lp.loc(), 'nothing is put on the stack at the start') if not [z for z in S0.log if z[0] == 'store' and z[1][1] in (lo[0], hi[0])] else R.undecided.append('first range')
            elif not same(S0, vals[0], ZERO) or not same(S0, vals[1], n - 1):
                bad(R, 'driver', lp.loc(), 'entries %s to %s are sorted instead of all' % tuple(vals)) if vals[0].atoms() | vals[1].atoms() <= n.atoms() else R.undecided.append('first range')
            for x in lp.exits + lp.rets:
                R.add('driver_ends')
                if not x.ge(-(h + d) - 1):
                    bad(R, 'driver', lp.loc(), 'sorting can end while a range is left on the stack', x, len(H.trace))
            for b in (lo[0], hi[0]):
                r = S0.reg.get(b)
                if r is not None and r.size is not None:
                    R.add('stacks')
                    # disjoint ranges of two or more entries: at most n/2 at a time
                    z = r.size
                    if not (S0.ge(2 * z - w * (n - 1)) or half(z, w, n)):
                        bad(R, 'room', lp.loc(), 'the stack has %s bytes, less than needed for half of the entries' % z)


def half(z, w, n):
    q = exact_div(z, Poly.c(w))
    if q is None or q.single() is None:
        return False
    k = ATOMS[q.single()].key
    return q == Poly.a(q.single()) and k[0] == 'div' and k[1] == n and k[2].const() in (1, 2)


def ranges(R, fn, x, parts, got, s, e, lp=None):
    p = parts[-1]
    m = p[4]
    n = len(lp.H.trace) if lp else 0
    loc = lp.loc() if lp else fn.loc()
    if not (same(x, p[1], s) and same(x, p[2], e)):
        bad(R, 'driver', p[5].loc(), 'the range partitioned is not the range to sort', x, n) if (p[1].atoms() | p[2].atoms()) <= s.atoms() | e.atoms() else R.undecided.append('range partitioned'); return
    if p[3] is not None and not (x.ge(p[3] - s) and x.ge(e - p[3])):
        R.undecided.append('entry compared with')
    for lo, hi, cond, what in ((s, m - 1, m - 1 - s, 'before'), (m + 1, e, e - m - 1, 'after')):
        if any(same(x, a, lo) and same(x, b, hi) for a, b in got):
            R.add('ranges'); continue
        if x.ge(-cond):
            R.add('ranges'); continue
        near = [g for g in got if (g[0] - lo).const() is not None and (g[1] - hi).const() is not None]
        if near:
            bad(R, 'driver', loc, 'the entries %s the one in place are sorted as %s to %s' % (what, near[0][0], near[0][1]), x, n)
        elif all((a.atoms() | b.atoms()) <= s.atoms() | e.atoms() | m.atoms() for a, b in got):
            bad(R, 'driver', loc, 'the entries %s the one in place are not sorted' % what, x, n)
        else:
            R.undecided.append('range sorted next')
    for a, b in got:
        if not any(same(x, a, lo) and same(x, b, hi) for lo, hi in ((s, m - 1), (m + 1, e))):
            R.undecided.append('another range sorted')
        elif lp is not None and not x.ge(b - a - 1):
            bad(R, 'room', loc, 'a range of fewer than two entries is put on the stack, which may have no room for it', x, n)
