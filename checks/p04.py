"""Shape analysis of the doubly linked list: every operation is interpreted from an arbitrary well-formed list
(explicit nodes plus summarised gaps, materialised on demand, loops by invariant); at each exit the sequence is
re-derived from memory and compared with the ideal list operation: forward and backward links, head, tail, count,
which node was taken or returned, released memory, allocation failure."""
from chaindom import *


class LLAI(ChainAI):
    def __init__(s, prog):
        ChainAI.__init__(s, prog, 'NODE' if 'NODE' in prog.ditypes else 'node')
        di = prog.ditypes.get('LINKEDLIST') or prog.ditypes.get('linkedlist')
        if not di:
            raise AnalysisBroken('record of the linked list not found')
        s.LF = {f['name']: f for f in di['fields']}; s.lsize = di['size']

    def setup(s, fn):
        st = State(); args = []
        L = None
        for k, a in enumerate(fn.args):
            v = s.arg_value(st, fn, k)
            args.append(v)
            if fn.dicanon[k + 1].endswith('LINKEDLIST*') or fn.dicanon[k + 1].endswith('linkedlist*'):
                L = v[1]
                st.nul[L] = 'nonnull'; st.reg[L] = Region('input', Poly.c(s.lsize)); st.btype[L] = 'struct.LINKEDLIST'
                s.headloc = (L, Poly.c(s.LF['head']['off'])); s.tailloc = (L, Poly.c(s.LF['tail']['off'])); s.sizeloc = (L, Poly.c(s.LF['size']['off'])); s.size_w = s.LF['size']['size']
                s.step_sz = Poly.a(atom(('LL', L, 'step'), 'step', 1, None))
                s.put(st, (L, Poly.c(s.LF['step']['off'])), ('i', s.step_sz), 'i64', 8)
                s.new_list(st)
        for k, a in enumerate(fn.args):
            if fn.dicanon[k + 1] == 'void*':
                s.key = args[k][1]; st.nul[s.key] = 'nonnull'; st.reg[s.key] = Region('input', s.step_sz)
        s.L = L
        return st, args

    def on_memcpy(s, st, i, d, sr, n, kind):
        st.log = st.log + (('copy', d, sr, n),)


def copied(A, st, dst, src, n):
    return any(e[0] == 'copy' and st.res(e[1])[1] == dst and st.res(e[2])[1] == src and st.eq0(e[3] - n) for e in st.log)


def failed(st):
    return any(e[0] == 'allocfail' for e in st.log)


def nodes(seq):
    return [t for t in seq]


def same(A, st, seq):
    return tuple(seq) == tuple(st.ghost['items'])


def spec(A, R, fn, st, v, args, path):
    n = fn.name
    w = fn.loc()

    def bad(rule, msg):
        R.violation(rule, w, '%s: %s' % (n, msg), key='%s|%s|%s' % (rule, n, msg[:60]), path=path)
    ok, seq, msg = A.walk(st)
    R.add('shape_obligations')
    if not ok:
        bad('shape', msg); return
    items = st.ghost['items']
    keep = set()
    old = tuple(items)
    if n in ('linkedlist_node_front_add', 'linkedlist_node_tail_add', 'linkedlist_front_add', 'linkedlist_tail_add'):
        R.add('contract_obligations')
        front = 'front' in n
        if len(seq) == 1 and seq[0][0] == 'U' or tuple(seq) == old:
            if not failed(st):
                bad('add', 'returns without having added the element')
            if not (is_null(v) if v[0] == 'p' else st.eq0(v[1])):
                bad('status', 'does not report that nothing was added')
        else:
            new = seq[0] if front else seq[-1]
            rest = seq[1:] if front else seq[:-1]
            if tuple(rest) != old or new[0] != 'n' or new[1][0] != 'alloc':
                bad('add', 'the result is not the old list with one new element at the %s' % ('front' if front else 'back'))
            else:
                d = A.get(st, (new[1], Poly.c(A.N['data'])))
                dr = st.reg.get(d[1]) if d is not None and d[0] == 'p' else None
                if dr is None or not copied(A, st, d[1], A.key, A.step_sz):
                    bad('add', "the new node does not hold a copy of the caller's element")
                elif dr.size is not None and not st.ge(dr.size - A.step_sz):
                    bad('add', 'the new node has too little storage for an element')
            if v[0] == 'p' and (is_null(v) or st.res(v)[1] != new[1]) or v[0] == 'i' and not st.ne0(v[1]):
                bad('status', 'does not report the element it added')
    elif n == 'linkedlist_lookup_helper':
        R.add('contract_obligations')
        if tuple(seq) != old:
            bad('query', 'a lookup changes the list')
        found(A, R, st, st.res(v), bad)
    elif n == 'linkedlist_lookup':
        R.add('contract_obligations')
        r = st.res(v)
        rem = args[2][1]
        wants = st.eq0(rem - 1)
        if st.nullness(r) == 'null':
            if tuple(seq) != old:
                bad('query', 'reports nothing found but changes the list')
            if not A.entails_pred(st, ('neb', NULL)):
                bad('lookup', 'can report an element missing that has not been excluded')
        else:
            nd = r[1][1] if isinstance(r[1], tuple) and r[1][0] == 'dt' else None
            if nd is None:
                bad('lookup', 'returns something other than the data of a node')
            else:
                first_hit(A, st, nd, bad)
                keep.add(r[1])
                if r[1] in st.reg and st.reg[r[1]].freed:
                    bad('lookup', 'returns data it has already released')
                if wants and tuple(seq) != tuple(t for t in old if t != ('n', nd)):
                    bad('remove', 'the result is not the old list without the element found')
                if not wants and st.ne0(rem - 1) and tuple(seq) != old:
                    bad('query', 'a lookup without removal changes the list')
    elif n == 'linkedlist_remove':
        R.add('contract_obligations')
        gone = [t for t in old if t not in seq]
        if tuple(t for t in seq) != tuple(t for t in old if t not in gone):
            bad('remove', 'the remaining elements are not in their old order')
        if len(gone) > 1 or gone and gone[0][0] != 'n':
            bad('remove', 'removes more than one element')
        elif gone:
            first_hit(A, st, gone[0][1], bad)
            if not st.ne0(v[1]):
                bad('status', 'does not report the removal')
        else:
            if not A.entails_pred(st, ('neb', NULL)):
                bad('remove', 'can leave an equal element in place')
            if not st.eq0(v[1]):
                bad('status', 'reports a removal that did not happen')
    elif n == 'linkedlist_value_at':
        R.add('contract_obligations')
        if tuple(seq) != old:
            bad('query', 'a query changes the list')
        pos = args[1][1]
        cp = [e for e in st.log if e[0] == 'copy' and st.res(e[1])[1] == A.key]
        if cp:
            s_ = st.res(cp[-1][2])
            k = A.index(st, ('p', s_[1][1], ZERO)) if isinstance(s_[1], tuple) and s_[1][0] == 'dt' else None
            if k is None or not st.eq0(k - pos) or not st.eq0(cp[-1][3] - A.step_sz):
                bad('value', 'hands out an element other than the one at the requested position')
            if not st.ge(v[1]):
                bad('status', 'reports failure although it delivered an element')
        else:
            if not st.ge(-v[1] - 1):
                bad('status', 'reports success without delivering an element')
            if not (st.ge(pos - st.ghost['len']) or st.ge(-pos - 1)):
                x = st.copy()
                x.add_ge(pos); x.add_ge(st.ghost['len'] - 1 - pos)
                if not entails(list(x.facts), Poly.c(-1)):
                    bad('value', 'can refuse a position inside the list')
    elif n == 'linkedlist_empty':
        R.add('contract_obligations')
        ln = st.ghost['len']
        for c, want in ((ln - 1, True), (-ln, False)):
            x = st.copy(); x.add_ge(c)
            if not entails(list(x.facts), Poly.c(-1)) and not (x.ne0(v[1]) if want else x.eq0(v[1])):
                bad('status', 'must return non-zero exactly for a list with elements (its documented result)')
    elif n in ('linkedlist_head', 'linkedlist_tail'):
        R.add('contract_obligations')
        if tuple(seq) != old:
            return       # removal through the flag is not specified
        r = st.res(v)
        if st.nullness(r) == 'null':
            if not st.eq0(st.ghost['len']):
                bad('value', 'can deliver nothing for a list with elements')
        else:
            e = (old[0] if n.endswith('head') else old[-1]) if old and old[0][0] != 'U' else None
            if e is None or r[1] != ('dt', e[1]):
                bad('value', 'does not deliver the data of the %s element' % ('first' if n.endswith('head') else 'last'))
    elif n == 'linkedlist_clear':
        R.add('contract_obligations')
        if seq:
            bad('clear', 'elements remain in the list')
    A.leak_check(fn, st, seq, fn.blocks[0].insts[0], keep)


def first_hit(A, st, nd, bad):
    if not A.hit(st, nd):
        bad('lookup', 'selects an element that did not compare equal')
    if not A.entails_pred(st, ('neb', ('p', nd, ZERO))):
        bad('lookup', 'selects an element although an earlier one has not been excluded')


def found(A, R, st, r, bad):
    if st.nullness(r) == 'null':
        if not A.entails_pred(st, ('neb', NULL)):
            bad('lookup', 'can report an element missing that has not been excluded')
    elif isinstance(r[1], tuple) and r[1][0] == 'nd':
        first_hit(A, st, r[1], bad)
    else:
        bad('lookup', 'returns something other than a node of the list')


OPS = ['linkedlist_node_front_add', 'linkedlist_node_tail_add', 'linkedlist_front_add', 'linkedlist_tail_add', 'linkedlist_lookup_helper', 'linkedlist_lookup', 'linkedlist_remove',
       'linkedlist_value_at', 'linkedlist_empty', 'linkedlist_head', 'linkedlist_tail', 'linkedlist_clear', 'linkedlist_delete']


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('collections', cfg)
        for name in OPS:
            fn = prog.get(name)
            A = LLAI(prog)
            A.MAXP = 64
            st, args = A.setup(fn)
            ents = [st]
            if name == 'linkedlist_value_at':
                neg = st.copy(); neg.add_ge(-args[1][1] - 1); st.add_ge(args[1][1]); ents.append(neg)
            outs = []
            for e in ents:
                outs += A.run(fn, e, list(args))
            R.add('operations'); R.add('abstract_exits', len(outs)); R.add('abstract_steps', A.steps)
            if not outs:
                raise AnalysisBroken('no exit of ' + name)
            outs = [(x, v) for rs, v in outs for x in A.resolve_list(rs)]
            for rs, v in outs:
                path = ['%s branch %s' % (t[0], t[1]) for t in rs.trace]
                if name == 'linkedlist_delete':
                    r = rs.reg[A.L]
                    if not r.freed:
                        R.violation('leak', fn.loc(), '%s does not release the list' % name, path=path)
                    for b, q in rs.reg.items():
                        if isinstance(b, tuple) and b[0] == 'nd' and not q.freed:
                            R.violation('leak', fn.loc(), '%s leaves nodes behind' % name, key='leak|' + name, path=path)
                    R.add('contract_obligations')
                    continue
                spec(A, R, fn, rs, v, args, path)
            for f in A.findings.values():
                R.violation(f.rule, f.inst.loc(), '%s: %s' % (name, f.msg), key='%s|%s|%s' % (f.rule, name, f.inst.loc()), path=trace_path(f))
            R.samples.append('%s: %d abstract exits' % (name, len(outs)))
        init = prog.get('linkedlist_init')
        A = LLAI(prog)
        st = State(); args = [A.arg_value(st, init, k) for k in range(len(init.args))]
        for rs, v in A.run(init, st, args):
            v = rs.res(v)
            R.add('contract_obligations')
            if failed(rs):
                if not is_null(v):
                    R.violation('init', init.loc(), 'linkedlist_init does not report allocation failure')
                continue
            for f, want in (('size', 0), ('head', None), ('tail', None), ('step', args[0])):
                c = A.get(rs, (v[1], Poly.c(A.LF[f]['off'])))
                if c is None or (is_null(c) if want is None else (c == want if isinstance(want, tuple) else c[0] == 'i' and rs.eq0(c[1]))) is False:
                    R.violation('init', init.loc(), 'linkedlist_init leaves %s wrong or unset' % f, key='init|' + f)
    R.need('shape_obligations', 20); R.need('contract_obligations', 25)
    R.assumptions += ['the comparison function is pure', 'list element size fits the type it is passed as']
