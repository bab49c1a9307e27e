"""Propagation order: the traversal of the cluster tree is interpreted with its containers as events.  In every pass of
the propagating loop the cluster with the highest label is taken from the work set and propagated once, its parent is
put into the work set unless it is known to have been put there, every cluster without children starts in the work set,
the work set is emptied, and the infinity flag returned says whether some propagated cluster had infinite stability.
Because clusters are created with increasing labels (P31), children always come before their parents."""
from pipedom import *

CL = 'Cluster'
INF = float('inf')


def inf_rel(st, base, off):
    """True / False / None: is the stability read at (base,off) infinite on this path?"""
    def about(t):
        if isinstance(t, tuple):
            if t[0] == 'ld' and t[1] == base and isinstance(t[2], tuple) and t[2][1] == off:
                return True
            return t[0] in ('fabs', 'fneg', 'fpext', 'fptrunc') and about(t[1]) or t[0] == 'call' and 'fabs' in t[1] and about(t[2])
        return False
    res = None
    for (x, y), r in st.ford.items():
        for a, b in ((x, y), (y, x)):
            if fconst(a) is not None and abs(fconst(a)) == INF and about(b):
                if r == frozenset('='):
                    return True
                if '=' not in r:
                    if isinstance(b, tuple) and b[0] in ('fabs', 'call'):
                        return False
                    res = 'half' if res is None else False
    return res if res is not True else None


def propagate(R, prog, cfg):
    lsz = {'unsigned int': 4, 'unsigned short': 2, 'unsigned long': 8}[cfg['LABEL_TYPE']]
    fn = prog.get('hdbscan_propagate_tree')
    A = PipeAI(prog)
    A.hooks['cluster_propagate'] = lambda A, st, i, a: (A.log(st, 'propagate', st.res(a[0]), i), [(st, None)])[1]
    st = State(); sc = A.record(st, 'hdbscan', 'hdbscan')
    A.put(st, 'hdbscan', 'hdbscan', 'clusters', A.list_of(st, 'clusters'))
    data = A.init['clusters']['data'][1]; size = A.init['clusters']['size'][1]
    st.add_ge(size - 2)         # there is always a root cluster
    outs = A.run(fn, st, [sc])
    R.add('functions')
    LAB, PAR, HC, STB = (A.off(CL, n) for n in ('label', 'parent', 'hasChildren', 'stability'))

    def path(L, lp=None):
        return ['%s branch %s' % (t[0], t[1]) for t in L.trace[len(lp.H.trace) if lp else 0:] if t[0] != 'loop']

    def bad(rule, where, msg, p=None):
        R.violation(rule, where, 'hdbscan_propagate_tree: ' + msg, key='%s|%s' % (rule, msg[:80]), path=p)

    def und(m):
        R.undecided.append('hdbscan_propagate_tree: ' + m)
    mains = [lp for lp in A.loops if any(e[0] == 'propagate' for L in lp.latch for e in A.tail(lp, L)) or any(e[0] == 'propagate' for x in lp.exits for e in x.log[len(lp.H.log):])]
    if not mains:
        if any(e[0] == 'propagate' for x, v in outs for e in x.log):
            und('no propagating loop'); return
        bad('order', fn.loc(), 'no cluster is propagated'); return
    sets = set()
    for lp in mains:
        for L in lp.latch:
            R.add('passes')
            ev = A.tail(lp, L)
            rem = [e for e in ev if e[0] == 'remove']; pro = [e for e in ev if e[0] == 'propagate']
            if len(rem) != 1:
                if not rem:
                    k, why = A.steps_over(lp, ZERO, size)
                    und('clusters are not taken from a set')
                else:
                    bad('take', rem[1][-1].loc(), 'one pass takes %d clusters from the work set' % len(rem), path(L, lp))
                continue
            W, x, where, inst = rem[0][1:]
            sets.add(W[1])
            if where != 'last':
                if where is None:
                    und('position taken from the work set')
                else:
                    bad('take', inst.loc(), 'the cluster taken from the work set is not the one with the highest label', path(L, lp))
                continue
            if len(pro) != 1:
                bad('once', pro[1][-1].loc() if pro else inst.loc(), 'the cluster taken from the work set is propagated %s' % ('%d times' % len(pro) if pro else 'not at all'), path(L, lp)); continue
            if ev.index(pro[0]) < ev.index(rem[0]):
                und('propagation before removal'); continue
            if x[0] == 'i' and L.ge(x[1] - size):
                continue        # labels are positions in the list of clusters (P31)
            m = A.loaded(pro[0][1])
            if m is None:
                und('cluster propagated'); continue
            if m[0] != data or x[0] != 'i' or not (m[1] == x[1] * 8):
                bad('take', pro[0][-1].loc(), 'the cluster propagated is not the one whose label was taken', path(L, lp)); continue
            cb = pro[0][1][1]
            par = L.heap.get(cb, {}).get(PAR)
            ins = [e for e in ev if e[0] == 'insert' and e[1] == W]
            lin = [A.loaded(e[2]) for e in ins]
            pv = L.res(par[0]) if par is not None else None
            isnull = L.nullness(pv) == 'null' if pv is not None else None
            if pv is None:
                bad('parent', inst.loc(), 'the parent of the cluster propagated is not looked at', path(L, lp)); continue
            if isnull:
                if ins:
                    und('insertion without a parent')
            else:
                want = (pv[1], LAB)
                good = [q for q in lin if q is not None and q[0] == want[0] and q[1] == want[1]]
                wrong = [q for q in lin if q is not None and q not in good]
                if wrong:
                    bad('parent', ins[0][-1].loc(), 'something other than the parent of the cluster is put into the work set', path(L, lp)); continue
                if not good and ins:
                    und('label put into the work set'); continue
                labatom = None
                c = L.heap.get(pv[1], {}).get(LAB)
                if c is not None and c[0][0] == 'i':
                    labatom = c[0][1]
                flag = flags_at(A, L, lp, labatom)
                if not good:
                    if not any(e[0] == 'find' for e in ev):
                        if flag is None or flag[1] is None:
                            if L.nullness(pv) == 'nonnull':
                                bad('parent', inst.loc(), 'the parent of the cluster propagated is not put into the work set although nothing shows that it was before', path(L, lp)); continue
                            und('parent not followed'); continue
                        if flag[1] is False:
                            bad('parent', inst.loc(), 'the parent of the cluster propagated is not put into the work set although it never was', path(L, lp)); continue
                    else:
                        und('search in the work set')
            # the flag
            ret = [k for k in flag_slots(A, lp, fn)]
            inf = inf_rel(L, cb, STB)
            for i, h in ret:
                R.add('flag_obligations')
                n = L.env.get(('next', i.id))
                if n is None or n[0] != 'i':
                    und('flag'); continue
                same = n == h; one = n[1].const() not in (None, 0) or L.ge(n[1] - 1) or L.ne0(n[1])
                if inf is True and not one:
                    bad('infinite', inst.loc(), 'a cluster with infinite stability is not noted', path(L, lp))
                elif inf is False and not (same or n[0] == 'i' and n[1] == h[1]) and not L.eq0(n[1] - h[1]):
                    bad('infinite', inst.loc(), 'a cluster with finite stability changes what is noted about infinite stabilities', path(L, lp))
                elif inf in (None, 'half') and not same:
                    bad('infinite', inst.loc(), 'infinite stability is noted for other reasons than the stability of the cluster', path(L, lp)) if inf is None else und('flag')
        for x in lp.exits:
            R.add('exits')
            for W in sets:
                n = A.lsize(x, ('p', W, ZERO))
                if x.eq0(n):
                    continue
                new = [p for p in x.facts if p not in lp.H.facts and set(p.atoms()) & set(n.atoms())]
                if x.ge(n - 1) or new:      # the way out looks at how many are left, and not for none
                    bad('all', lp.loc(), 'clusters are left in the work set', path(x, lp))
                elif any(W == q for q in sets):
                    und('work set empty at the end')
    # seeds
    seeds = [lp for lp in A.loops if lp not in mains and any(e[0] == 'insert' and e[1][1] in sets for L in lp.latch for e in A.tail(lp, L))]
    if not seeds and sets:
        bad('leaves', fn.loc(), 'no cluster is put into the work set to start from')
    for lp in seeds:
        ctr, why = A.steps_over(lp, ZERO, size)
        if ctr is None:
            ctr, why1 = A.steps_over(lp, Poly.c(1), size)
        if ctr is None:
            if why != '?':
                bad('leaves', lp.loc(), 'the search for clusters without children %s' % why)
            else:
                und('range of the search for leaves')
            continue
        for L in lp.latch:
            R.add('passes')
            ev = A.tail(lp, L)
            ins = [e for e in ev if e[0] == 'insert']
            cv = L.heap.get(data, {}).get(ctr * 8)
            cl = L.res(cv[0]) if cv is not None else None
            if cl is None:
                und('cluster looked at'); continue
            if not ins:
                h = L.heap.get(cl[1], {}).get(HC)
                nn = L.nullness(cl)
                if nn == 'null' or h is not None and h[0][0] == 'i' and (L.ne0(h[0][1]) or L.ge(h[0][1] - 1)):
                    continue
                if h is not None and h[0][0] == 'i' and L.eq0(h[0][1]) or h is None and nn == 'nonnull':
                    bad('leaves', lp.loc(), 'a cluster without children is not put into the work set', path(L, lp))
                else:
                    und('cluster not put into the work set')
                continue
            for e in ins:
                m = A.loaded(e[2])
                if m is None:
                    und('label put into the work set')
                elif m != (cl[1], LAB) and not (m[0] == cl[1] and m[1] == LAB):
                    bad('leaves', e[-1].loc(), 'something other than the label of the cluster is put into the work set', path(L, lp))
    # marks are only set for what is put into the work set, and start unset
    marked = {}
    for lp in A.loops:
        for L in lp.latch:
            ins = [A.loaded(e[2]) for e in A.tail(lp, L) if e[0] == 'insert']
            insa = [e[2] for e in A.tail(lp, L) if e[0] == 'insert']
            for b, o, v in local_cells(A, L, lp):
                if v[0] == 'i' and v[1].const() not in (None, 0):
                    marked.setdefault(b, lp)
                    lab = exact_div(o, Poly.c(4)) if o.const() is None else None
                    a = lab.single() if lab is not None else None
                    k = ATOMS[a].key if a is not None else None
                    ok = k is not None and k[0] == 'ld' and any(q is not None and q[0] == k[1] and q[1] == k[2] for q in ins) or any(q[0] == 'i' and lab is not None and q[1] == lab for q in insa if q is not None)
                    if k is not None and k[0] == 'ld' and not ok:
                        bad('mark', lp.loc(), 'a cluster is marked as put into the work set without being put there', path(L, lp))
    for b, lp0 in marked.items():
        R.add('mark_arrays')
        ini = False; seen = None
        for x, v in outs[:1]:
            r = x.reg.get(b)
            if r is not None and r.kind == 'heap' and r.default == 'zero':
                ini = True
        for lp in A.loops:
            for L in lp.latch:
                for b2, o, v in local_cells(A, L, lp):
                    if b2 == b and v[0] == 'i' and v[1].const() == 0:
                        k, why = A.steps_over(lp, ZERO, size)
                        if k is not None and o == k * 4:
                            ini = True
                        else:
                            seen = (lp, why)
        if not ini:
            if seen and seen[1] and seen[1] != '?':
                bad('mark', seen[0].loc(), 'the marks are not all cleared: the loop %s' % seen[1])
            else:
                if any(e for e in ()):
                    pass
                und('marks cleared at the start')


def local_cells(A, L, lp):
    for b, cs in L.heap.items():
        if isinstance(b, tuple) and b[0] in ('alloca', 'alloc') and b in lp.H.reg:
            h = lp.H.heap.get(b, {})
            for o, (v, sz, ty) in cs.items():
                if o.const() is None and h.get(o) != (v, sz, ty) and (b, o) in L.writes:
                    yield b, o, v


def flags_at(A, L, lp, lab):
    """(base, truth before this pass's writes) of a local array's entry for the label"""
    if lab is None:
        return None
    for b in list(L.heap):
        if isinstance(b, tuple) and b[0] in ('alloca', 'alloc'):
            for o, (v, sz, ty) in L.heap[b].items():
                if o == lab * sz and v[0] == 'i':
                    w = (b, o) in L.writes
                    if w:
                        return (b, None)
                    if L.eq0(v[1]):
                        return (b, False)
                    if L.ne0(v[1]) or L.ge(v[1] - 1):
                        return (b, True)
                    return (b, None)
    return None


def flag_slots(A, lp, fn):
    """loop variables that the function returns"""
    rets = [i for i in fn.all_insts() if i.op == 'ret' and i.ops]
    ids = set()
    todo = [o['i'] for i in rets for o in i.ops if o.get('k') == 'i']
    while todo:
        j = todo.pop()
        if j in ids:
            continue
        ids.add(j)
        i = fn.insts.get(j)
        if i is not None and i.op == 'phi':
            todo += [o['v']['i'] for o in i.ops if o['v'].get('k') == 'i']
    for i in fn.blocks[lp.header].insts:
        if i.op == 'phi' and i.id in ids and lp.fn is fn:
            h = lp.H.env.get(i.id)
            if h is not None and h[0] == 'i':
                yield i, h


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('core', cfg)
        propagate(R, prog, cfg)
    R.need('functions', 1); R.need('passes', 2)
    R.assumptions += ['stabilities are not NaN', 'sets stay sorted by label (property P03)']
