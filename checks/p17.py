"""Cluster bookkeeping: the functions that create clusters, detach points from them, count constraints and propagate them
to their parents are interpreted from a cluster whose every field is an arbitrary symbol (parent absent or present), and
what each exit leaves in every field, and which descendants were handed up, is compared with the decision table of the
property by case splitting over the orders of the fields involved."""
from recdom import *

CL = 'Cluster'
DMAX = {'double': 1.7976931348623157e308, 'float': 3.4028234663852886e38}


class ClAI(RecAI):
    def __init__(s, prog, dty):
        RecAI.__init__(s, prog)
        s.DMAX = ('const', DMAX[dty])


def isint(v):
    return v is not None and v[0] == 'i'


def isf(v):
    return v is not None and v[0] == 'f'


def fconstlike(A, t):
    return isinstance(t, tuple) and t[0] == 'const'


class Judge:
    def __init__(s, R, A, fname, st, tags, case):
        s.R = R; s.A = A; s.f = fname; s.st = st; s.tags = tags; s.case = case; s.done = set()

    def bad(s, rule, msg):
        inst = None
        s.R.violation(rule, s.loc(), '%s (%s): %s' % (s.f, s.case, msg), key='%s|%s|%s' % (rule, s.f, msg[:70]), path=['%s branch %s' % (t[0], t[1]) for t in s.st.trace if len(t) > 2 and t[0] != 'loop'])

    def loc(s):
        return s.A.prog.get(s.f).loc()

    def und(s, m):
        s.R.undecided.append('%s (%s): %s' % (s.f, s.case, m))

    def expect(s, tag, name, want, what):
        """field tag.name must be want (a value)"""
        A = s.A
        s.done.add((tag, name))
        s.R.add('field_obligations')
        v = A.get(s.st, tag, CL, name)
        if v is None:
            s.und('%s.%s not followed' % (tag, name)); return
        ok = equal(A, s.st, v, want)
        if ok is False:
            s.bad('field', '%s of the %s is %s, not %s' % (name, tag, show(A, v), what))
        elif ok is None:
            s.und('%s of the %s: %s' % (name, tag, show(A, v)))

    def rest(s, allow=()):
        """every other field is as it was"""
        A = s.A
        for tag in s.tags:
            for name, v0 in A.init[tag].items():
                if (tag, name) in s.done or (tag, name) in allow:
                    continue
                s.R.add('field_obligations')
                v = A.get(s.st, tag, CL, name)
                if v is None:
                    s.und('%s.%s not followed' % (tag, name)); continue
                ok = equal(A, s.st, v, v0)
                if ok is False:
                    s.bad('field', '%s of the %s is changed to %s' % (name, tag, show(A, v)))
                elif ok is None:
                    s.und('%s of the %s: %s' % (name, tag, show(A, v)))


def show(A, v):
    if v[0] == 'f':
        return fshow(v[1])
    return A.vname(v)


def fshow(t):
    if isinstance(t, tuple):
        if t[0] == 'init':
            return '%s.%s' % (t[1], t[2])
        if t[0] == 'const':
            return '%g' % t[1] if isinstance(t[1], float) else str(t[1])
        o = {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}.get(t[0])
        if o:
            return '(%s %s %s)' % (fshow(t[1]), o, fshow(t[2]))
        if t[0] == 'call' and len(t) == 5:
            return '(%s * %s + %s)' % tuple(fshow(x) for x in t[2:])
        if t[0] in ('fptrunc', 'fpext') or t[0] == 'i2f':
            return fshow(t[1])
        if t[0] == 'sym':
            return str(t[1])
    return str(t)[:60]


def known(t):
    """made of initial contents, arguments, constants and arithmetic only"""
    if isinstance(t, tuple):
        if t[0] in ('init', 'const'):
            return True
        if t[0] == 'sym':
            return isinstance(t[-1], str)        # an argument
        if t[0] == 'call':
            return bool(FMA.match(t[1])) and all(known(x) for x in t[2:])
        if t[0] in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fptrunc', 'fpext'):
            return all(known(x) for x in t[1:] if isinstance(x, tuple))
        if t[0] == 'i2f':
            return True
    return False


def knowni(p):
    return all(ATOMS[a].key[0] in ('init', 'arg') for a in p.atoms())


def equal(A, st, v, want):
    """True / False / None"""
    if v[0] == 'p' and want[0] == 'p' or v[0] == 'fn' or want[0] == 'fn':
        v, want = st.res(v), st.res(want)
        if v == want:
            return True
        d = A.decide_peq(st, v, want)
        if d is not None:
            return d
        return False if all(x[1] == 'null' or x[1][0] in ('rec', 'recp', 'alloc', 'arg') for x in (v, want)) else None
    if isint(v) and isint(want):
        if v[1] == want[1] or st.eq0(v[1] - want[1]):
            return True
        if st.ne0(v[1] - want[1]):
            return False
        return False if knowni(v[1]) and knowni(want[1]) else None
    if v[0] == 'b' or want[0] == 'b':
        a = A.toint(st, v) if False else v
        return None
    if isf(v) and isf(want):
        r = same_real(v[1], want[1])
        if r:
            return True
        # equal by an order fact (x == y on this path)
        if A.frel(st, v[1], want[1]) == frozenset('='):
            return True
        return False if known(v[1]) and known(want[1]) else None
    return None


def setup(A, parent):
    st = State()
    cl = A.record(st, 'cluster', CL)
    desc = A.list_of(st, 'descendants'); A.put(st, 'cluster', CL, 'propagatedDescendants', desc)
    vc = A.list_of(st, 'virtual child', 4); A.put(st, 'cluster', CL, 'virtualChildCluster', vc)
    if parent is True:
        p = A.record(st, 'parent', CL)
        pd = A.list_of(st, 'descendants of the parent'); A.put(st, 'parent', CL, 'propagatedDescendants', pd)
        A.put(st, 'cluster', CL, 'parent', p)
        A.put(st, 'parent', CL, 'virtualChildCluster', A.list_of(st, 'virtual child of the parent', 4))
        return st, cl, ['cluster', 'parent']
    if parent is False:
        A.put(st, 'cluster', CL, 'parent', NULL)
    return st, cl, ['cluster']


def events(A, st, names):
    return [e for e in st.log if e[0] in names]


def descendants_loop(A, lp, elem_ok):
    """(lists appended to in one pass, reasons)"""
    out = []
    for L in lp.latch:
        n = len(lp.H.log)
        out.append(([e for e in L.log[n:]], L))
    return out


def propagate(R, prog, dty):
    fn = prog.get('cluster_propagate')
    for parent in (False, True):
        A = ClAI(prog, dty)
        st, cl, tags = setup(A, parent)
        I = {t: A.init[t] for t in tags}
        outs = A.run(fn, st, [cl])
        R.add('functions')
        if not parent:
            for x, v in outs:
                R.add('exits')
                J = Judge(R, A, fn.name, x, tags, 'no parent')
                # its own lowest death level is nobody's business afterwards
                J.rest(allow={('cluster', 'propagatedLowestChildDeathLevel')})
                if x.log:
                    J.bad('handed', 'a cluster without a parent changes a container')
            continue
        c, p = I['cluster'], I['parent']
        hc = c['hasChildren'][1]; N, PN = c['numConstraintsSatisfied'][1], c['propagatedNumConstraintsSatisfied'][1]
        S, PS = c['stability'][1], c['propagatedStability'][1]
        L0, D, PL = c['propagatedLowestChildDeathLevel'][1], c['deathLevel'][1], p['propagatedLowestChildDeathLevel'][1]
        for x0, v in outs:
            R.add('exits')
            todo = []
            # case analysis of who is chosen
            for x1, nochild in cases(A, x0, ('eq', hc)):
                if nochild:
                    todo.append((x1, True, 'no children')); continue
                for x2, ge in cases(A, x1, A.ge_c(N - PN)):
                    if not ge:
                        todo.append((x2, False, 'fewer constraints than its descendants')); continue
                    for x3, gt in cases(A, x2, A.ge_c(N - PN - 1)):
                        if gt:
                            todo.append((x3, True, 'more constraints than its descendants')); continue
                        for x4, more in cases(A, x3, ('fc', 'oge', S, PS)):
                            todo.append((x4, more, 'as many constraints, %s stability' % ('at least as much' if more else 'less')))
            for x1, own, why in todo:
                for x2, isd in cases(A, x1, ('fc', 'oeq', L0, A.DMAX)):
                    low = D if isd else L0
                    for x, less in cases(A, x2, ('fc', 'olt', low, PL)):
                        R.add('cases')
                        J = Judge(R, A, fn.name, x, tags, why)
                        J.expect('parent', 'propagatedLowestChildDeathLevel', ('f', low if less else PL), 'the lowest death level among the cluster, its descendants and the siblings seen')
                        J.expect('cluster', 'propagatedLowestChildDeathLevel', ('f', low), 'its lowest death level')
                        J.expect('parent', 'propagatedStability', ('f', ('fadd', p['propagatedStability'][1], S if own else PS)), 'increased by the stability of %s' % ('the cluster' if own else 'its descendants'))
                        J.expect('parent', 'propagatedNumConstraintsSatisfied', ('i', p['propagatedNumConstraintsSatisfied'][1] + (N if own else PN)), 'increased by the constraints of %s' % ('the cluster' if own else 'its descendants'))
                        J.rest()
                        R.add('handed_obligations')
                        ev = [e for e in x.log]
                        app = [e for e in ev if e[0] == 'array_list_append' and e[1] == x.res(p['propagatedDescendants'])]
                        oth = [e for e in ev if e not in app]
                        if oth:
                            J.bad('handed', '%s is applied to a container other than the descendants of the parent' % oth[0][0])
                        lps = [lp for lp in A.loops_of(x) if any(len(L.log) > len(lp.H.log) for L in lp.latch)]
                        if own:
                            if lps:
                                J.bad('handed', 'its descendants are handed up although the cluster itself is chosen'); continue
                            if len(app) != 1 or app[0][2] != cl:
                                J.bad('handed', 'the cluster is handed up %s' % ('%d times' % len(app) if len(app) != 1 else 'but the pointer stored is not the cluster')); continue
                        else:
                            if app:
                                if any(e[2] == cl for e in app):
                                    J.bad('handed', 'the cluster itself is handed up although its descendants are chosen')
                                else:
                                    J.und('what is handed up')
                                continue
                            if not lps:
                                # no descendants at all on this path?
                                sz = A.init['descendants']['size'][1]
                                if not x.eq0(sz):
                                    seen = A.loops_of(x)
                                    if seen:
                                        J.bad('handed', 'its descendants are not handed up')
                                    else:
                                        J.bad('handed', 'neither the cluster nor its descendants are handed up')
                                continue
                            for lp in lps:
                                whole_list(R, J, A, lp, 'descendants', lambda e: e[0] == 'array_list_append' and e[1] == x.res(p['propagatedDescendants']), 'array_list_append', 'descendants of the parent', x)


def elem_of(A, st, v, tag, k, step):
    """is v the k-th element of the list tag? True/False/None"""
    d = A.init[tag]['data'][1]
    off = None
    if v is None:
        return None
    if v[0] == 'p' and v[2].const() == 0 and isinstance(v[1], tuple) and v[1][0] == 'ld' and v[1][1] == d:
        off = v[1][2][1]
    elif v[0] == 'at' and v[1] == d:
        off = v[2]
    elif v[0] == 'i' and v[1].single() is not None and ATOMS[v[1].single()].key[0] == 'ld' and ATOMS[v[1].single()].key[1] == d:
        off = ATOMS[v[1].single()].key[2]
    elif v[0] == 'el' and v[1] == d:
        off = v[2]
    if off is None:
        return None
    return True if off == k * step or st.eq0(off - k * step) else off


def whole_list(R, J, A, lp, tag, match, fname, target, x, step=8):
    """loop lp hands every element of list tag to the target exactly once"""
    R.add('loop_obligations')
    size = A.init[tag]['size'][1]
    for L in lp.latch:
        ev = L.log[len(lp.H.log):]
        hit = [e for e in ev if match(e)]
        if len(hit) != 1 or len(ev) != 1:
            J.bad('handed', 'one pass over the %s hands %d elements to the %s' % (tag, len(hit), target)); return
    early = []
    ks = A.counter(lp, [size], early)
    full = [k for k in ks if lp.H.eq0(k[1]) and (k[2] == size or lp.H.eq0(k[2] - size))]
    if not full:
        if early:
            J.bad('handed', 'the pass over the %s can stop before the last one' % tag)
        elif any(k[1].const() is not None and (k[2] - size).const() is not None for k in ks):
            k = ks[0]
            J.bad('handed', 'the pass over the %s covers positions %s to %s only' % (tag, A.vname(('i', k[1])), A.vname(('i', k[2] - 1))))
        else:
            J.und('range of the pass over the %s' % tag)
        return
    for L in lp.latch:
        e = [e for e in L.log[len(lp.H.log):] if match(e)][0]
        rs = [elem_of(A, L, e[2], tag, k[0], step) for k in full]
        if True in rs:
            continue
        wrong = [r for r in rs if r is not None]
        if wrong:
            J.bad('handed', 'the pass over the %s hands up the element at byte %s instead of the one it stands at' % (tag, wrong[0]))
        else:
            J.und('element handed up (%s)' % (e[2],))


def detach(R, prog, dty):
    fn = prog.get('cluster_detach_points')
    A = ClAI(prog, dty)
    st, cl, tags = setup(A, True)
    n = A.arg_value(st, fn, 1); lev = A.arg_value(st, fn, 2)
    outs = A.run(fn, st, [cl, n, lev])
    c = A.init['cluster']
    P = c['numPoints'][1]
    R.add('functions')
    codes = {True: set(), False: set()}
    for x0, v in outs:
        R.add('exits')
        for x1, more in cases(A, x0, A.ge_c(n[1] - P - 1)):
            R.add('cases')
            if v is not None and v[0] == 'i' and v[1].const() is not None:
                codes[more].add(v[1].const())
            if more:
                J = Judge(R, A, fn.name, x1, tags, 'more points than it has')
                J.rest(); continue
            for x, empty in cases(A, x1, ('eq', P - n[1])):
                J = Judge(R, A, fn.name, x, tags, 'all its points' if empty else 'some of its points')
                J.expect('cluster', 'numPoints', ('i', P - n[1]), 'reduced by the number of points detached')
                inv = lambda t: ('fdiv', ('const', 1.0), t)
                J.expect('cluster', 'stability', ('f', ('fadd', c['stability'][1], ('fmul', ('i2f', n[1]), ('fsub', inv(lev[1]), inv(c['birthLevel'][1]))))), 'increased by points * (1/level - 1/birth level)')
                J.expect('cluster', 'deathLevel', ('f', lev[1]) if empty else c['deathLevel'], 'the level at which its last point went' if empty else 'as it was')
                J.rest()
    if codes[True] & codes[False]:
        R.violation('status', fn.loc(), 'cluster_detach_points reports the same status %s whether it succeeds or is asked for more points than there are' % sorted(codes[True] & codes[False]), key='status|detach')


def create(R, prog, dty):
    fn = prog.get('cluster_init')
    for given in (False, True):
        for parent in (False, True):
            A = ClAI(prog, dty)
            st = State(); args = []
            for k in range(len(fn.args)):
                args.append(A.arg_value(st, fn, k))
            args[0] = A.record(st, 'cluster', CL) if given else NULL
            par = A.record(st, 'parent', CL) if parent else NULL
            args[2] = par
            A.hooks['set_init'] = lambda A, st, i, a: A.alloc(st, i, Poly.c(40), 'sym', 'set')
            A.hooks['ptr_array_list_init'] = A.hooks['array_list_init'] = lambda A, st, i, a: A.alloc(st, i, Poly.c(40), 'sym', 'list')
            outs = A.run(fn, st, args)
            R.add('functions')
            for x, v in outs:
                if v is None or v[0] != 'p' or x.nullness(v) == 'null':
                    continue
                R.add('exits')
                b = x.res(v)[1]
                J = Judge(R, A, fn.name, x, ['parent'] if parent else [], 'new cluster')
                if parent:
                    hc = A.get(x, 'parent', CL, 'hasChildren')
                    R.add('field_obligations'); J.done.add(('parent', 'hasChildren'))
                    if hc is not None and isint(hc) and hc[1].const() is not None and hc[1].const() == 0 or hc == A.init['parent']['hasChildren']:
                        J.bad('field', 'the parent is not marked as having children')
                    elif not (hc is not None and isint(hc) and hc[1].const()):
                        J.und('hasChildren of the parent')
                    J.rest()
                want = {'label': args[1], 'birthLevel': args[3], 'numPoints': args[4], 'parent': par, 'deathLevel': ('f', ('const', 0.0)), 'offset': I(0), 'stability': ('f', ('const', 0.0)), 'propagatedStability': ('f', ('const', 0.0)),
                        'propagatedLowestChildDeathLevel': ('f', A.DMAX), 'numConstraintsSatisfied': I(0), 'propagatedNumConstraintsSatisfied': I(0), 'hasChildren': I(0)}
                for f in A.prog.ditypes[CL]['fields']:
                    if f['name'] not in want:
                        continue
                    R.add('field_obligations')
                    c = x.heap.get(b, {}).get(Poly.c(f['off']))
                    if c is None:
                        r = x.reg.get(b)
                        if r is not None and not r.written or (b, Poly.c(f['off'])) not in x.writes:
                            J.bad('field', '%s of the new cluster is not set' % f['name'])
                        else:
                            J.und(f['name'])
                        continue
                    val = c[0]
                    if val[0] == 'zero':
                        val = zero_of(fty(f))
                    ok = equal(A, x, val, want[f['name']])
                    if ok is False:
                        J.bad('field', '%s of the new cluster is %s' % (f['name'], show(A, val)))
                    elif ok is None:
                        J.und('%s of the new cluster: %s' % (f['name'], show(A, val)))


def counters(R, prog, dty):
    for name, field in (('cluster_add_constraints_satisfied', 'numConstraintsSatisfied'), ('cluster_add_virtual_child_constraints_satisfied', 'propagatedNumConstraintsSatisfied')):
        fn = prog.fns.get(name)
        if fn is None or fn.decl:
            continue
        A = ClAI(prog, dty)
        st, cl, tags = setup(A, True)
        n = A.arg_value(st, fn, 1)
        R.add('functions')
        for x, v in A.run(fn, st, [cl, n]):
            R.add('exits')
            J = Judge(R, A, fn.name, x, tags, 'any')
            J.expect('cluster', field, ('i', A.init['cluster'][field][1] + n[1]), 'increased by the number given')
            J.rest()


def virtual_child(R, prog, dty, cfg):
    isz = {'unsigned int': 4, 'unsigned short': 2, 'unsigned long': 8}[cfg['INDEX_TYPE']]
    fn = prog.get('cluster_add_points_to_virtual_child_cluster')
    A = ClAI(prog, dty)
    st, cl, tags = setup(A, True)
    pts = A.list_of(st, 'points', isz)
    R.add('functions')
    vc = A.init['cluster']['virtualChildCluster']
    for x, v in A.run(fn, st, [cl, pts]):
        R.add('exits')
        J = Judge(R, A, fn.name, x, tags, 'any')
        J.rest()
        size = A.init['points']['size'][1]
        if x.eq0(size):
            continue
        lps = [lp for lp in A.loops_of(x) if any(len(L.log) > len(lp.H.log) for L in lp.latch)]
        if not lps:
            if x.log:
                J.und('insertion of the points')
            else:
                J.bad('handed', 'the points are not added')
            continue
        for lp in lps:
            whole_list(R, J, A, lp, 'points', lambda e: e[0] == 'set_insert' and e[1] == x.res(vc), 'set_insert', 'virtual child', x, isz)
    fn = prog.fns.get('cluster_virtual_child_contains_point')
    if fn is not None and not fn.decl:
        A = ClAI(prog, dty)
        st, cl, tags = setup(A, True)
        n = A.arg_value(st, fn, 1)
        pos = Poly.a(fresh_atom('position', -1, 2 ** 62, 64))
        seen = []

        def find(A, st, i, args):
            seen.append((st.res(args[0]), A.peek(st, i, args[1])))
            return [(st, ('i', pos))]
        for nm in ('set_find', 'array_list_find', 'set_lookup'):
            A.hooks[nm] = find
        R.add('functions')
        for x0, v in A.run(fn, st, [cl, n]):
            for x, has in cases(A, x0, A.ge_c(pos)):
                R.add('cases')
                J = Judge(R, A, fn.name, x, tags, 'contained' if has else 'not contained')
                J.rest()
                if not seen:
                    J.und('no search'); continue
                if any(q[0] != A.init['cluster']['virtualChildCluster'] or q[1] != n for q in seen):
                    J.bad('search', 'something other than the point is searched, or elsewhere than in the virtual child')
                r = v
                if r is not None and r[0] == 'b':
                    d = A.decide(x, r[1])
                elif isint(r):
                    d = x.ne0(r[1]) or (False if x.eq0(r[1]) else None)
                    if d is None:
                        i = r[1].single()
                        if i is not None and ATOMS[i].key[0] == 'b2i':
                            d = A.decide(x, ATOMS[i].key[1])
                else:
                    d = None
                if d is None:
                    J.und('result')
                elif d != has:
                    J.bad('search', 'the answer is %s' % ('yes' if d else 'no'))


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('core', cfg)
        d = cfg['DISTANCE_TYPE']
        propagate(R, prog, d); detach(R, prog, d); create(R, prog, d); counters(R, prog, d); virtual_child(R, prog, d, cfg)
    R.need('functions', 6); R.need('cases', 8); R.need('field_obligations', 60)
    R.assumptions += ['stabilities and levels compared are not NaN', 'sums of constraint counts fit their type', 'equality over the reals of the values computed (rounding is not judged)']
