"""Runs: hdbscan_run, hdbscan_rerun and hdbscan_do_run are interpreted with the steps of a run as events.  A run carries out
the tree, its sorting, the hierarchy, the propagation, the selection and the scores once each, in this order, on the object,
each with what the earlier ones gave; before, everything of an earlier run that the steps build on is gone and distances and
core distances are those of the data and number of points given.  Besides, no function of the library keeps anything in
variables that outlive its calls, and none asks for the time or for random numbers."""
from pipedom import *
import re

STEPS = ['hdbscan_construct_mst', 'sort', 'hdbscan_compute_hierarchy_and_cluster_tree', 'hdbscan_propagate_tree',
         'hdbscan_find_prominent_clusters', 'hdbscsan_calculate_outlier_scores']
NAMES = ['spanning tree', 'sorting of the tree', 'hierarchy', 'propagation', 'selection of clusters', 'outlier scores']
SORTS = ('graph_quicksort_by_edge_weight', 'graph_quicksort')
EVENTS = set(STEPS) | set(SORTS) | {'hdbscan_do_run', 'distance_compute', 'distance_get_core_distances', 'distance_init', 'distance_clean',
                                    'graph_destroy', 'graph_clean', 'constraint_destroy', 'cluster_destroy', 'hashtable_clear'}
CHANCE = re.compile(r'(s?rand|random|rand_r|[a-z]rand48|time|clock|clock_gettime|gettimeofday|getpid|getenv|getrandom)$')


class RunAI(PipeAI):
    MAXP = 3000

    def call_hook(s, st, i, name, args):
        if name in EVENTS and name != s.top:
            cells = {b: dict(c) for b, c in st.heap.items() if b == ('rec', 'sc')}.get(('rec', 'sc'), {})
            v = None if i.ty == 'void' else ('p', ('out', fresh_id(), name), ZERO) if i.ty == 'ptr' else s.fresh(i.ty, name)
            s.log(st, 'sort' if name in SORTS else name, tuple(st.res(a) if a[0] == 'p' else a for a in args), cells, v, i)
            if name == 'distance_get_core_distances' or name == 'distance_compute':
                s.forget(st, args[0], 'coreDistances')
            if name == 'hdbscan_find_prominent_clusters':
                st.heap.get(('rec', 'sc'), {}).pop(s.off('hdbscan', 'clusterLabels'), None)
                st.ghost['labels'] = fresh_id()
            return [(st, v)]
        return PipeAI.call_hook(s, st, i, name, args)

    def forget(s, st, p, member):
        p = st.res(p)
        if p[0] == 'p':
            st.heap.get(p[1], {}).pop(p[2] + s.off('Distance', member), None)


def noext(v):
    for _ in range(4):
        if v is not None and v[0] == 'i' and v[1].single() is not None and v[1] == Poly.a(v[1].single()):
            k = ATOMS[v[1].single()].key
            if k and k[0] in ('zext', 'sext', 's2u', 'u2s', 'trunc') and isinstance(k[1], Poly):
                v = ('i', k[1]); continue
        break
    return v


def same(x, a, b):
    if a is None or b is None:
        return False
    if a == b or noext(a) == noext(b):
        return True
    if a[0] == 'p' and b[0] == 'p':
        return x.res(a) == x.res(b)
    return a[0] == 'i' and b[0] == 'i' and (x.eq0(a[1] - b[1]) or x.eq0(noext(a)[1] - noext(b)[1]))


def check(R, tier):
    for cfg in (CONFIGS if tier != 'quick' else [DEFAULT]):
        prog = build('core', cfg)
        steps(R, prog)
        start(R, prog, 'hdbscan_run')
        start(R, prog, 'hdbscan_rerun')
    for cfg in (CONFIGS if tier != 'quick' else [DEFAULT]):
        state(R, build('corecpp', cfg))
    R.need('functions', 2)


def interpret(R, prog, name):
    fn = prog.fns.get(name)
    if fn is None or fn.decl:
        R.undecided.append('%s not found' % name); return None
    A = RunAI(prog); A.top = name
    st = State()
    av = []
    for k, a in enumerate(fn.args):
        if k == 0:
            av.append(A.record(st, 'sc', 'hdbscan')); continue
        v = A.arg_value(st, fn, k, nonnull=False)
        if a['ty'] == 'ptr':
            st.reg[v[1]] = Region('heap', None, 'sym')
        av.append(v)
    init = dict(st.heap[('rec', 'sc')])
    outs = A.run(fn, st, av)
    R.add('functions')
    return fn, A, av, outs, init


def value(A, e, member, init, inner=None):
    o = A.off('hdbscan', member)
    if inner:
        o = o + A.off('Distance', inner)
    q = e[2].get(o)
    return q[0] if q is not None else None


def steps(R, prog):
    r = interpret(R, prog, 'hdbscan_do_run')
    if r is None:
        return
    fn, A, av, outs, init = r
    seen = 0

    def bad(rule, i, msg, x):
        R.violation(rule, i.loc() if i is not None else fn.loc(), 'a run: %s' % msg, key='%s|%s' % (rule, msg), path=['%s branch %s' % (t[0], t[1]) for t in x.trace if t[0] != 'loop'])
    for x, v in outs:
        R.add('paths')
        ev = [e for e in x.log if e[0] in STEPS]
        pos = {}
        for n, e in enumerate(ev):
            k = STEPS.index(e[0])
            if k in pos:
                bad('order', e[4], 'the %s is carried out more than once' % NAMES[k], x)
            pos[k] = n
            for q in range(k):
                if q not in pos:
                    bad('order', e[4], 'the %s comes before the %s' % (NAMES[k], NAMES[q]), x)
            R.add('steps')
            obj = e[1][0] if e[1] else None
            if e[0] == 'sort':
                q = e[2].get(A.off('hdbscan', 'mst'))
                if q is not None and not same(x, obj, q[0]):
                    bad('object', e[4], 'what is sorted is not the tree of the object', x)
            elif obj != av[0]:
                bad('object', e[4], 'the %s is not carried out on the object' % NAMES[k], x)
        by = {e[0]: e for e in ev}
        full = len(pos) == len(STEPS)
        if full:
            seen += 1
            h, p, f, o = (by[STEPS[k]] for k in (2, 3, 4, 5))
            if not same(x, f[1][1], p[3]):
                bad('result', f[4], 'the selection does not get the outcome of the propagation', x)
            if not same(x, o[1][3], p[3]):
                bad('result', o[4], 'the outlier scores do not get the outcome of the propagation', x)
            for k, what in ((1, 'levels at which points became noise'), (2, 'last clusters of the points')):
                if not same(x, o[1][k], h[1][k + 1]):
                    bad('result', o[4], 'the outlier scores do not get the %s of the hierarchy' % what, x)
            if h[1][2] == h[1][3]:
                bad('result', h[4], 'levels and last clusters are put into one array', x)
            if v is not None and v[0] == 'i' and v[1].const() == 0 and not x.eq0(o[3][1]) or v is None:
                bad('status', o[4], 'success is reported whatever became of the outlier scores', x)
        elif v is not None and v[0] == 'i' and v[1].const() == 0:
            k = [k for k in range(len(STEPS)) if k not in pos][0]
            bad('status', ev[-1][4] if ev else None, 'success is reported without the %s' % NAMES[k], x)
    if outs and not seen:
        R.violation('order', fn.loc(), 'a run: no path carries out all steps', key='order|none')


def start(R, prog, name):
    r = interpret(R, prog, name)
    if r is None:
        return
    fn, A, av, outs, init = r
    again = name == 'hdbscan_rerun'
    what = 'running again' if again else 'a run'

    def bad(rule, i, msg, x):
        R.violation(rule, i.loc() if i is not None else fn.loc(), '%s: %s' % (what, msg), key='%s|%s|%s' % (name, rule, msg), path=['%s branch %s' % (t[0], t[1]) for t in x.trace if t[0] != 'loop'])
    ran = 0
    for x, v in outs:
        R.add('paths')
        d = [e for e in x.log if e[0] == 'hdbscan_do_run']
        if not d:
            if v is not None and v[0] == 'i' and v[1].const() == 0:
                bad('status', None, 'success is reported without a run', x)
            continue
        ran += 1
        e = d[0]; at = x.log.index(e)
        if len(d) > 1:
            bad('once', d[1][4], 'the steps are carried out more than once', x)
        if e[1][0] != av[0]:
            bad('object', e[4], 'the steps are not carried out on the object', x)
        if v is None or not same(x, v, e[3]):
            if not (v is not None and v[0] == 'i' and (x.eq0(e[3][1]) if v[1].const() == 0 else v[1].const() is not None)):
                bad('status', e[4], 'the outcome of the steps is not handed on', x)
        early = x.log[:at]
        # nothing of an earlier run is left
        R.add('obligations')
        for m in ('clusterLabels', 'outlierScores'):
            q = value(A, e, m, init)
            if q is not None and q[0] == 'p':
                q = x.res(q)
                if q[1] != 'null' and x.nul.get(q[1]) != 'null' and q == x.res(init[A.off('hdbscan', m)][0]):
                    bad('left', e[4], '%s of an earlier run are still there' % {'clusterLabels': 'labels', 'outlierScores': 'outlier scores'}[m], x)
        for m, text in (('clusters', 'clusters'),):
            q = value(A, e, m, init)
            old = init[A.off('hdbscan', m)][0]
            if q is None or q[0] != 'p' or x.res(q) != x.res(old) or x.res(q)[1] == 'null' or x.nul.get(x.res(q)[1]) == 'null':
                continue
            if not any(f[0] in ('clear', 'hashtable_clear', 'array_list_clear') and x.res(old) in clearing(x, f) for f in early):
                bad('left', e[4], 'the %s of an earlier run are still there' % text, x)
        R.add('obligations')
        mp = value(A, e, 'minPoints', init)
        if again:
            if not same(x, mp, av[1]):
                bad('points', e[4], 'the number of points asked for is not noted', x)
            c = [f for f in early if f[0] == 'distance_get_core_distances']
            if not c:
                bad('core', e[4], 'the core distances are not computed for the new number of points', x); continue
            nn = value(A, c[-1], 'distanceFunction', init, 'numNeighbors')
            if nn is None or not near(x, nn, av[1]):
                bad('core', c[-1][4], 'the core distances are not computed for the new number of points', x)
            if not same(x, value(A, e, 'numPoints', init), init[A.off('hdbscan', 'numPoints')][0]):
                bad('points', e[4], 'the number of points of the data set changes', x)
        else:
            if mp is not None and not same(x, mp, init[A.off('hdbscan', 'minPoints')][0]):
                bad('points', e[4], 'the number of points asked for changes', x)
            c = [f for f in early if f[0] == 'distance_compute']
            if len(c) != 1:
                bad('distances', e[4], 'the distances are computed %d times' % len(c), x); continue
            a = c[0][1]
            if a[1] != x.res(av[1]):
                bad('distances', c[0][4], 'the distances are not those of the data set', x)
            if not near(x, a[4], init[A.off('hdbscan', 'minPoints')][0]):
                bad('core', c[0][4], 'the core distances are not those of the number of points asked for', x)
            n = value(A, e, 'numPoints', init)
            if n is None or not same(x, n, a[2]):
                bad('points', c[0][4], 'the distances are not taken between as many points as the object has', x)
            rw = x.eq0(av[4][1] - 1)
            if rw and not (same(x, a[2], av[2]) and same(x, a[3], av[3])):
                bad('distances', c[0][4], 'the shape of the data set is not the one given', x)
            if not rw and a[3][0] == 'i' and a[3][1].const() != 1 and not x.ge(av[4][1] - 1) and not x.ge(-av[4][1]):
                R.add('open')
            t = [f for f in early if f[0] == 'distance_init']
            if not t:
                bad('distances', c[0][4], 'the type of the data is not noted', x)
            elif not same(x, t[-1][1][2], av[5]):
                bad('distances', t[-1][4], 'the type of the data is not the one given', x)
            elif early.index(t[-1]) > early.index(c[0]):
                bad('distances', t[-1][4], 'the type of the data is noted after the distances were computed', x)
    if outs and not ran:
        R.undecided.append('%s: no path to the steps found' % name)


def clearing(x, f):
    return [x.res(a) for a in (f[1] if isinstance(f[1], tuple) and f[1] and isinstance(f[1][0], tuple) else (f[1],)) if isinstance(a, tuple) and a and a[0] == 'p']


def near(x, a, b):
    """is a one less than b?"""
    a, b = noext(a), noext(b)
    return a[0] == 'i' and b[0] == 'i' and x.eq0(b[1] - a[1] - 1)


def state(R, prog):
    kept = {}
    for fn in prog.fns.values():
        if fn.decl or not fn.loc().startswith(('src/', 'modules/collections', 'include/')):
            continue
        R.add('functions_searched')
        for i in fn.all_insts():
            if i.op == 'call' and CHANCE.match(i.d['callee'].get('n', '')):
                R.violation('chance', i.loc(), '%s asks for the time or random numbers' % fn.srcname, key='chance|%s' % fn.srcname)
            if i.op == 'store':
                g = root(fn, i.ops[1])
                if g is not None:
                    kept.setdefault(g, []).append((fn, i))
    R.add('globals', len(prog.globals))
    for g, st in sorted(kept.items()):
        G = prog.globals.get(g)
        if G is None or G.get('const') or G.get('decl'):
            continue
        for fn in prog.fns.values():
            if fn.decl:
                continue
            hit = [i for i in fn.all_insts() if i.op == 'load' and root(fn, i.ops[0]) == g]
            if hit:
                R.violation('kept', st[0][1].loc(), '%s keeps a value in %s from one call to the next' % (st[0][0].srcname, g), key='kept|%s' % g); break


def root(fn, o, depth=0):
    if o.get('k') == 'g':
        return o.get('n')
    if o.get('k') == 'ce':
        for x in o.get('ops', []):
            r = root(fn, x, depth + 1)
            if r:
                return r
    if o.get('k') == 'i' and depth < 12:
        i = fn.insts.get(o['i'])
        if i is not None and i.op in ('getelementptr', 'gep', 'bitcast', 'select', 'freeze'):
            for x in i.ops:
                r = root(fn, x, depth + 1)
                if r:
                    return r
    return None
