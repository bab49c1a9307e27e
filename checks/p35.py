"""Graph construction: graph_init interpreted for an arbitrary number of vertices and arbitrary lists of edges, with containers
as events.  Every vertex gets a list of its own that holds vertex numbers; every edge is gone through once and enters each
end, once, into the list of the other; an edge from a vertex to itself is entered once.  The graph keeps the lists given."""
from hierdom import *
from p30 import Ctx
from p31 import strip


class GraphAI(HierAI):
    def __init__(s, prog):
        HierAI.__init__(s, prog)
        s.hooks['array_list_insert_at'] = PipeAI.h_append       # where in the list of a vertex does not matter

    def on_store(s, st, inst, ptr, val, size):
        p = st.res(ptr)
        if p[0] == 'p':
            st.log = st.log + (('store', p, val, size, inst),)


def failed(x):
    return any(e[0] == 'allocfail' for e in x.log)


def check(R, tier):
    for cfg in (CONFIGS if tier != 'quick' else [DEFAULT, CONFIGS[4]]):
        prog = build('core', cfg)
        fn = prog.fns.get('graph_init')
        if fn is None or fn.decl:
            R.undecided.append('graph_init not found'); continue
        for given in (False, True):
            A = GraphAI(prog)
            st = State()
            g = A.record(st, 'mst', G) if given else ('p', 'null', ZERO)
            w = {'unsigned int': 32, 'unsigned short': 16, 'unsigned long': 64}[cfg['INDEX_TYPE']]
            n = Poly.a(atom(('in', 'n'), 'n', 0, 2 ** w - 1, w))
            isz = w // 8
            st.add_ge(n - 1)
            ls = [A.list_of(st, t, isz if t != 'ew' else 8) for t in ('va', 'vb', 'ew')]
            # the lists of ends have one entry per edge
            st.add_ge(A.init['va']['size'][1] - A.init['vb']['size'][1]); st.add_ge(A.init['vb']['size'][1] - A.init['va']['size'][1])
            outs = A.run(fn, st, [g, ('i', n)] + ls)
            A.frozen = True
            R.add('functions')
            outs = [(x, v) for x, v in outs if not failed(x)]
            for lp in A.loops:
                lp.latch = [x for x in lp.latch if not failed(x)]; lp.exits = [x for x in lp.exits if not failed(x)]; lp.rets = [x for x in lp.rets if not failed(x)]
            A.loops = [lp for lp in A.loops if not failed(lp.H)]
            c = Ctx(R, A, fn, outs, cfg)
            c.asz = isz
            judge(c, g, n, ls, given)
    R.need('functions', 1); R.need('results', 1)
    R.assumptions += ['there is a vertex', 'both lists of ends have one entry per edge and name vertices of the graph', 'allocations succeed (P14 decides their failure)']


FIELDS = (('numVertices', None), ('verticesA', 0), ('verticesB', 1), ('edgeWeights', 2))


def judge(c, g, n, ls, given):
    A, R, fn = c.A, c.R, c.fn
    E = A.off(G, 'edges')
    seen = {}
    for x, v in c.outs:
        if v is None or v[0] != 'p' or x.nullness(v) == 'null':
            # the code may look for lists it could not make even where all of them were made
            if not any(e[0] == 'newlist' for lp in A.loops_of(x) for L in lp.latch for e in A.tail(lp, L)) and not x.facts:
                c.bad('result', fn.loc(), 'no graph is returned', x)
            continue
        R.add('results')
        if given and x.res(v)[1] != g[1]:
            c.bad('result', fn.loc(), 'what is returned is not the graph given', x); continue
        b = x.res(v)[1]
        for f, k in FIELDS:
            q = x.heap.get(b, {}).get(A.off(G, f))
            want = ('i', n) if k is None else ls[k]
            if q is None:
                c.bad('keep', fn.loc(), '%s of the graph is not set' % f, x) if not given and not any(e[0] == 'copy' for e in x.log) else c.und(f); continue
            q = strip(q[0]) if k is None else x.res(q[0])
            if q != want and not (k is None and x.eq0(q[1] - n)):
                (c.bad('keep', fn.loc(), '%s of the graph is not what was given' % f, x) if q[0] == 'i' and q[1].atoms() <= n.atoms() or q in ls or q[0] == 'p' and q[1] == 'null' else c.und(f))
        q = x.heap.get(b, {}).get(E)
        if q is None or q[0][0] != 'p':
            c.und('lists of the graph'); continue
        base = x.res(q[0])[1]
        lps = A.loops_of(x)
        app = [lp for lp in lps if any(e[0] == 'append' for L in lp.latch for e in A.tail(lp, L))]
        made = [lp for lp in lps if any(e[0] == 'newlist' for L in lp.latch for e in A.tail(lp, L))]
        m = A.init['va']['size'][1]
        if not app and not x.ge(-m):
            (c.bad('edges', fn.loc(), 'the edges are not entered') if not any(e[0] == 'append' for e in x.log) and not any(A.tail(lp, L) and any(e[0] == 'loop' for e in A.tail(lp, L)) for lp in lps for L in lp.latch) else c.und('edges'))
        if not made and not x.ge(-n):
            c.und('lists of the vertices') if lps else c.bad('lists', fn.loc(), 'the vertices have no lists', x)
        for lp in app:
            seen[id(lp)] = ('e', lp, base, m)
        for lp in made:
            seen.setdefault(id(lp), ('v', lp, base, n))
    for kind, lp, base, hi in seen.values():
        i, why = A.steps_over(lp, ZERO, hi)
        if i is None:
            what = 'edges' if kind == 'e' else 'vertices'
            (c.bad(what, lp.loc(), 'the loop over the %s %s' % (what, why)) if why != '?' else c.und('loop over the ' + what)); continue
        for L in lp.latch:
            (edge if kind == 'e' else vertex)(c, lp, L, i, base)


def vertex(c, lp, L, i, base):
    A, R = c.A, c.R
    ev = A.tail(lp, L)
    new = [e for e in ev if e[0] == 'newlist']
    R.add('vertex_passes')
    put = [e for e in ev if e[0] == 'store' and e[1][1] == base and e[2] is not None and e[2][0] == 'p' and any(e[2][1] == q[1][1] for q in new)]
    if not put:
        c.bad('vertices', lp.loc(), 'a vertex gets no list', L, lp) if not new else c.und('list of a vertex'); return
    for e in put:
        if e[1][2] != i * 8 and not L.eq0(e[1][2] - i * 8):
            k = e[1][2] - i * 8
            (c.bad('vertices', e[-1].loc(), 'the list made is that of another vertex', L, lp) if k.const() is not None else c.und('list of a vertex'))
    for e in new:
        s = e[2]
        if s is not None and s[0] == 'i' and s[1].const() is not None and s[1].const() != c.isz:
            c.bad('vertices', e[-1].loc(), 'the list of a vertex does not hold vertex numbers (elements of %d bytes)' % s[1].const(), L, lp)


def edge(c, lp, L, i, base):
    A, R = c.A, c.R
    D = {A.init[t]['data'][1]: t for t in ('va', 'vb')}
    R.add('edge_passes')

    def end(v):
        """'va' / 'vb' when v is that end of the edge of the pass; 'other' for the end of another one; None"""
        g = A.org(v) if v is not None else None
        if g is None:
            return None
        t = D.get(g[0])
        if t is None:
            return None
        if g[1] == i * c.isz or L.eq0(g[1] - i * c.isz):
            return t
        return 'other' if (g[1] - i * c.isz).const() is not None else None
    vals = {}
    got = []
    for e in A.tail(lp, L):
        if e[0] != 'append':
            continue
        l = e[1]
        own = None
        if isinstance(l[1], tuple) and l[1][0] == 'ld' and l[1][1] == base:
            k = exact_div(l[1][2][1], Poly.c(8))
            own = ('i', k) if k is not None else None
        a, b = end(own), end(e[2])
        for t, v in ((a, own), (b, e[2])):
            if t in ('va', 'vb'):
                vals[t] = v[1]
        if None in (a, b):
            raw = own is not None and own[0] == 'i' and own[1] == i or e[2] is not None and e[2][0] == 'i' and strip(e[2])[1] == i
            (c.bad('ends', e[-1].loc(), 'the number of the edge is used as that of a vertex', L, lp) if raw else c.und('end of an edge')); return
        if 'other' in (a, b):
            c.bad('ends', e[-1].loc(), 'an end of another edge is entered', L, lp); return
        got.append((a, b, e))
    ds = differences(L, D, i, c, vals)
    same = any(L.eq0(d) for d in ds)
    differ = any(L.ne0(d) for d in ds)
    where = got[0][2][-1].loc() if got else lp.loc()
    if same:
        if len(got) != 1:
            c.bad('self', where, 'an edge from a vertex to itself is entered %d times' % len(got), L, lp)
        return
    pairs = [(a, b) for a, b, _ in got]
    for a, b in (('va', 'vb'), ('vb', 'va')):
        n = pairs.count((a, b))
        if n == 0:
            c.bad('ends', where, 'the %s end of an edge does not become a neighbour of the %s' % (('second', 'first') if a == 'va' else ('first', 'second')), L, lp)
        elif n > 1:
            c.bad('ends', where, 'an end of an edge is entered twice', L, lp)
    for a, b in pairs:
        if a == b and not same:
            c.bad('ends', where, 'an end of an edge becomes a neighbour of itself', L, lp)
    if not differ and len(got) == 2 and ('va', 'vb') in pairs and ('vb', 'va') in pairs:
        c.bad('self', where, 'an edge from a vertex to itself is entered twice', L, lp)


def differences(L, D, i, c, vals):
    """first end - second end, in every width the pass compares them in"""
    ends = {'va': set(), 'vb': set()}
    for t, v in vals.items():
        ends[t].add(v)
    for q in list(L.facts) + list(L.diseq):
        for a in q.atoms():
            g = c.A.org(('i', Poly.a(a)))
            if g is not None and g[0] in D and (g[1] == i * c.isz or L.eq0(g[1] - i * c.isz)):
                ends[D[g[0]]].add(Poly.a(a))
    return [a - b for a in ends['va'] for b in ends['vb']]
