"""The construction of the hierarchy (hdbscan_compute_hierarchy_and_cluster_tree) interpreted with containers, edge removals
and cluster creations as events; shared by P30 (levels) and P31 (clusters)."""
from pipedom import *

G = 'UndirectedGraph'


class HierAI(PipeAI):
    MAXP = 24

    def __init__(s, prog):
        PipeAI.__init__(s, prog)
        s.hooks['graph_remove_edge'] = HierAI.h_edge
        s.hooks['hdbscan_create_new_cluster'] = HierAI.h_create
        s.hooks['hashtable_lookup'] = HierAI.h_lookup
        s.hooks['cluster_destroy'] = HierAI.h_nop
        s.hooks['hdbscan_destroy_hierarchical_entry'] = HierAI.h_nop

    def enter_loop(s, H, fn, header):
        H.log = H.log + (('loop', (header, fn.name), None),)

    def call_hook(s, st, i, name, args):
        if name.startswith(('llvm.memcpy', 'llvm.memmove')) or name in ('memcpy', 'memmove'):
            n = aspoly(args[2])
            if n is not None and n.const() is None:
                d, q = st.res(args[0]), st.res(args[1])
                s.log(st, 'copy', d, q, n, i)
        return PipeAI.call_hook(s, st, i, name, args)

    def h_lookup(s, st, i, args):
        # what is known about the key from the pass so far
        t = st.res(args[0]); k = s.peek(st, i, args[1])
        for e in reversed(st.log):
            if e[0] == 'loop':
                break
            if e[0] == 'put' and e[1] == t and e[2] == k or e[0] == 'get' and e[1:3] == (t, k):
                v = e[3]
                s.log(st, 'get', t, k, v, i)
                if v is None:
                    return [(st, I(0))]
                if v[0] != 'p' or s.outtype(st, args[2]) != 'ptr':
                    break
                s.store(st, i, args[2], v, 8, 'ptr')
                return [(st, I(1))]
            if e[0] in ('put', 'hashtable_destroy', 'hashtable_remove', 'hashtable_clear') and e[1] == t:
                break
        return PipeAI.h_lookup(s, st, i, args)

    def h_edge(s, st, i, a):
        s.log(st, 'edge', st.res(a[0]), a[1], a[2], i)
        return [(st, None if i.ty == 'void' else s.fresh(i.ty))]

    def h_create(s, st, i, a):
        v = ('p', ('newc', fresh_id()), ZERO)
        st.nul[v[1]] = 'nonnull'
        s.log(st, 'create', tuple(st.res(x) if x[0] == 'p' else x for x in a), v, st.copy(), i)
        return [(st, v)]

    def h_nop(s, st, i, a):
        return [(st, None if i.ty == 'void' else s.fresh(i.ty))]

    frozen = False

    def lsize(s, st, l):
        if s.frozen:
            l = st.res(l)
            q = st.heap.get(l[1], {}).get(s.LO['size'])
            return q[0][1] if q is not None and q[0][0] == 'i' else Poly.a(fresh_atom('size', 0))
        return PipeAI.lsize(s, st, l)

    def org(s, v):
        """(base, offset) of the memory a value was read from, through widening"""
        for _ in range(4):
            if v is None:
                return None
            if v[0] == 'i' and v[1].single() is not None and v[1] == Poly.a(v[1].single()) and ATOMS[v[1].single()].key[0] == 'zext':
                v = ('i', ATOMS[v[1].single()].key[1])
            else:
                break
        return s.loaded(v)

    def phis(s, lp):
        """loop variables: (slot, value before the loop, value at the head of a pass); registers and local memory alike"""
        for p in lp.fn.blocks[lp.header].insts:
            if p.op != 'phi':
                break
            yield ('phi', p.id), lp.S0.env.get(p.id), lp.H.env.get(p.id)
        for b, cells in lp.H.heap.items():
            if not (isinstance(b, tuple) and b[0] in ('alloca', 'alloc')):
                continue
            z = lp.S0.heap.get(b, {})
            for o, (v, sz, ty) in cells.items():
                i = z.get(o)
                if i is not None and i[0] != v:
                    yield ('cell', b, o), i[0], v

    def nxt(s, lp, L, p):
        return s.slot_value(L, p, True)


def run_hier(prog):
    fn = prog.get('hdbscan_compute_hierarchy_and_cluster_tree')
    A = HierAI(prog)
    st = State(); sc = A.record(st, 'hdbscan', 'hdbscan')
    A.put(st, 'hdbscan', 'hdbscan', 'clusters', A.list_of(st, 'clusters'))
    A.put(st, 'clusters', 'ArrayList', 'size', I(0))
    g = A.record(st, 'mst', G)
    A.put(st, 'hdbscan', 'hdbscan', 'mst', g)
    isz = {'unsigned int': 4, 'unsigned short': 2, 'unsigned long': 8}[prog.cfg['INDEX_TYPE']] if hasattr(prog, 'cfg') else 4
    dsz = 8
    for tag, f in (('va', 'verticesA'), ('vb', 'verticesB'), ('ew', 'edgeWeights')):
        A.put(st, 'mst', G, f, A.list_of(st, tag))
    e = ('p', ('recp', 'mst', 'edges'), ZERO)
    st.nul[e[1]] = 'nonnull'; st.reg[e[1]] = Region('heap', None, 'sym')
    arr = {}
    for k in ('noise', 'last'):
        arr[k] = ('p', ('arr', k), ZERO)
        st.nul[('arr', k)] = 'nonnull'; st.reg[('arr', k)] = Region('heap', None, 'sym')
    A.sc = sc; A.mst = g
    A.D = {t: A.init[t]['data'][1] for t in ('clusters', 'va', 'vb', 'ew')}
    A.D['edges'] = e[1]
    A.nv = A.init['mst']['numVertices'][1]
    st.add_ge(A.nv - 1)
    outs = A.run(fn, st, [sc, I(0), arr['noise'], arr['last']])
    A.frozen = True
    return A, fn, outs
