"""C++ interface: every constructor, destructor and forwarding operation of the C++ classes and name space is interpreted with
the C functions of the library as events.  On every path the C operation of the same meaning is called once, on the
object itself, with the arguments in their places and unchanged; its result is handed on; nothing else of the library is
called and no member is changed besides."""
from pipedom import *
import re

# C++ operation (mangled prefix), parameter names by position -> C function, arguments
TABLE = [
    ('hdbscan', 'C2Ev', 'hdbscan_init', ['this', 3], None),
    ('hdbscan', r'C2E[jtm]', 'hdbscan_init', ['this', 1], None),
    ('hdbscan', 'D2Ev', 'hdbscan_clean', ['this'], None),
    ('hdbscan', '3run', 'hdbscan_run', ['this', 1, 2, 3, 4, 5], None),
    ('hdbscan', '5reRun', 'hdbscan_rerun', ['this', 1], None),
    ('hdbscan', '12constructMST', 'hdbscan_construct_mst', ['this'], None),
    ('hdbscan', '30computeHierarchyAndClusterTree', 'hdbscan_compute_hierarchy_and_cluster_tree', ['this', 1, 2, 3], None),
    ('hdbscan', '13propagateTree', 'hdbscan_propagate_tree', ['this'], 'ret'),
    ('hdbscan', '21findProminentClusters', 'hdbscan_find_prominent_clusters', ['this', 1], None),
    ('hdbscan', '22calculateOutlierScores', 'hdbscsan_calculate_outlier_scores', ['this', 1, 2, 3], None),
    ('hdbscan', '5clean', 'hdbscan_clean', ['this'], None),
    ('Distance', 'C2Ev', 'distance_init', ['this', 'any', 'any'], None),
    ('Distance', r'C2E[jtm]$', 'distance_init', ['this', 1, 'any'], None),
    ('Distance', r'C2E[jtm]6HTYPES', 'distance_init', ['this', 1, 2], None),
    ('Distance', 'D2Ev', 'distance_clean', ['this'], None),
    ('Distance', '16getCoreDistances', 'distance_get_core_distances', ['this'], ('numNeighbors', 1)),
    ('Distance', '15computeDistance', 'distance_compute', ['this', 2, 3, 4, 5], None),
    ('UndirectedGraph', 'D2Ev', 'graph_clean', ['this'], None),
    ('', '12analyseStats', 'hdbscan_analyse_stats', [0], 'ret'),
    ('', '10printStats', 'hdbscan_print_stats', [0], None),
]


class FwdAI(PipeAI):
    def __init__(s, prog):
        PipeAI.__init__(s, prog)
        s.hooks = {}

    def call_hook(s, st, i, name, args):
        f = s.prog.fns.get(name)
        if f is not None and not name.startswith('_Z') and not name.startswith('llvm.') and name not in ('malloc', 'calloc', 'free', 'realloc'):
            if f.decl and not re.match(r'(hdbscan|hdbscsan|distance|graph|cluster|set|array_list|hashtable|linkedlist)_', name):
                return PipeAI.call_hook(s, st, i, name, args)
            fields = {b: dict(c) for b, c in st.heap.items() if b == ('rec', 'this')}
            v = None if i.ty == 'void' else ('p', ('out', fresh_id(), name), ZERO) if i.ty == 'ptr' else s.fresh(i.ty, name)
            s.log(st, 'call', name, tuple(st.res(a) if a[0] == 'p' else a for a in args), fields.get(('rec', 'this'), {}), v, i)
            return [(st, v)]
        if re.match(r'_ZN10clustering8Distance[CD]2', name) and args:
            # the member that measures distances is set up and taken down by the language
            s.log(st, 'member', name, st.res(args[0]), i)
            return [(st, None)]
        return PipeAI.call_hook(s, st, i, name, args)


def check(R, tier):
    for cfg in (CONFIGS if tier != 'quick' else [DEFAULT, CONFIGS[4], CONFIGS[13]]):
        prog = build('corecpp', cfg)
        for cls, op, target, args, extra in TABLE:
            rx = re.compile(r'_ZN10clustering%s%s' % ('%d%s' % (len(cls), cls) if cls else '', op))
            fns = [f for n, f in prog.fns.items() if rx.match(n) and not f.decl]
            if not fns:
                R.undecided.append('%s %s not found' % (cls, op)); continue
            for fn in fns:
                one(R, prog, cfg, fn, cls, target, args, extra)
    R.need('operations', 3)


def strip(v):
    for _ in range(4):
        if v is not None and v[0] == 'i' and v[1].single() is not None and v[1] == Poly.a(v[1].single()) and ATOMS[v[1].single()].key[0] in ('zext', 'sext', 's2u', 'u2s') and isinstance(ATOMS[v[1].single()].key[1], Poly):
            v = ('i', ATOMS[v[1].single()].key[1])
    return v


def one(R, prog, cfg, fn, cls, target, args, extra):
    A = FwdAI(prog)
    st = State()
    av = []
    for k, a in enumerate(fn.args):
        if k == 0 and cls:
            av.append(A.record(st, 'this', cls)); continue
        v = A.arg_value(st, fn, k, nonnull=(not cls and k == 0))
        if a['ty'] == 'ptr':
            st.reg[v[1]] = Region('heap', None, 'sym')
        av.append(v)
    before = dict(st.heap.get(('rec', 'this'), {}))
    outs = A.run(fn, st, av)
    R.add('operations')
    nm = '%s%s' % (cls + '::' if cls else '', fn.args and re.sub(r'^_ZN10clustering(\d+%s)?\d*' % cls, '', fn.name) or fn.name)
    nm = re.sub(r'E(v|[a-zA-Z0-9_]*)$', '', nm) or nm

    def bad(rule, where, msg, x):
        R.violation(rule, where, '%s: %s' % (nm, msg), key='%s|%s' % (rule, msg[:80]), path=['%s branch %s' % (t[0], t[1]) for t in x.trace if t[0] != 'loop'])
    for x, v in outs:
        R.add('paths')
        calls = [e for e in x.log if e[0] == 'call']
        mine = [e for e in calls if e[1] == target]
        other = [e for e in calls if e[1] != target and not (e[1].startswith('logger_') or quiet(prog, e[1]))]
        if not mine:
            bad('call', other[0][-1].loc() if other else fn.loc(), 'the C operation %s is not carried out' % target, x); continue
        if len(mine) > 1:
            bad('call', mine[1][-1].loc(), 'the C operation is carried out %d times' % len(mine), x); continue
        e = mine[0]
        for o in other:
            bad('call', o[-1].loc(), 'another operation, %s, is carried out' % o[1], x)
        for k, want in enumerate(args):
            if k >= len(e[2]) or want == 'any':
                continue
            R.add('arguments')
            g = e[2][k]
            if want == 'this':
                if g != av[0]:
                    bad('argument', e[-1].loc(), 'the C operation is not carried out on the object', x)
                continue
            if fn.name.endswith('C2Ev') and isinstance(want, int):
                w = ('i', Poly.c(want))
                if g[0] == 'i' and (g[1].const() is None or g[1].const() < 2):
                    bad('argument', e[-1].loc(), 'the number of points handed on is of no use', x)
                continue
            w = av[want]
            if g == w or strip(g) == strip(w) or g[0] == 'i' and w[0] == 'i' and (x.eq0(g[1] - w[1]) or strip(g)[0] == 'i' and x.eq0(strip(g)[1] - w[1])):
                continue
            bad('argument', e[-1].loc(), 'argument %d of %s is not what was given' % (k + 1, target), x)
        if extra == 'ret':
            r = e[4]
            if v is None or v != r and not (v[0] == 'i' and r[0] == 'i' and (strip(v) == strip(r) or x.eq0(v[1] - r[1]))):
                bad('result', fn.loc(), 'the result of the C operation is not handed on', x)
        # members of the object
        if cls:
            sets = {}
            if isinstance(extra, tuple):
                o = A.off(cls, extra[0])
                q = e[3].get(o)
                w = av[extra[1]]
                if q is None or strip(q[0]) != strip(w) and not (q[0][0] == 'i' and x.eq0(q[0][1] - w[1])):
                    bad('member', e[-1].loc(), 'the %s asked for is not noted before the C operation' % extra[0], x)
                sets[o] = 1
            if not fn.name.startswith('_ZN10clustering%d%sC2' % (len(cls), cls)):
                for o, (val, sz, ty) in x.heap.get(('rec', 'this'), {}).items():
                    if o not in sets and (val != before[o][0] if o in before else (('rec', 'this'), o) in x.writes):
                        names = [f['name'] for f in prog.ditypes[cls]['fields'] if f['off'] == o.const()]
                        bad('member', fn.loc(), 'the operation changes %s itself' % (names[0] if names else 'a member'), x)


def quiet(prog, name):
    """operations that change nothing of the object (sizes and the like)"""
    return re.match(r'(array_list|set|hashtable)_(size|empty|find|contains)|hdbscan_get_dataset_size', name) is not None
