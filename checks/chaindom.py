"""Shape domain for doubly linked chains (linked list, hash-table bucket chain): a chain is a sequence of explicit
nodes and summarised gaps of unknown length; gaps and cursors are materialised on demand, and a chain is
re-summarised at the head of a loop that changes it.  `walk` re-derives the sequence from memory and checks
forward/backward links, the tail pointer and the element count."""
from listdom import *


class ChainAI(Interp):
    def __init__(s, prog, node_rec, hdr_rec=None):
        Interp.__init__(s, prog)
        di = prog.ditypes.get(node_rec)
        if not di:
            raise AnalysisBroken('record %s not found' % node_rec)
        s.N = {f['name']: f['off'] for f in di['fields']}
        s.nsize = di['size']
        for k in ('next', 'prev', 'data'):
            if k not in s.N:
                raise AnalysisBroken('%s.%s not found' % (node_rec, k))
        s.headloc = s.tailloc = s.sizeloc = None
        s.noprev = False      # the operation takes the whole chain apart: backward links of the remainder do not matter
        s.key = None; s.step_sz = None; s.leaks = {}; s.shape_notes = set()

    # ------------------------------------------------------------ construction
    def new_list(s, st, n=None):
        lid = fresh_id()
        n = n if n is not None else Poly.a(fresh_atom('len', 0))
        st.ghost['items'] = (('U', lid),); st.ghost['len'] = n; st.ghost['gaps'] = {}
        if not st.ghost.get('detached'):
            s.put(st, s.headloc, ('p', ('lh', lid), ZERO), 'ptr', 8)
        if s.tailloc:
            s.put(st, s.tailloc, ('p', ('lt', lid), ZERO), 'ptr', 8)
        if s.sizeloc:
            s.put(st, s.sizeloc, ('i', n), 'i%d' % (8 * s.size_w), s.size_w)
        return lid

    def put(s, st, loc, v, ty, sz):
        st.heap.setdefault(loc[0], {})[loc[1]] = (v, sz, ty)

    def get(s, st, loc):
        c = st.heap.get(loc[0], {}).get(loc[1])
        if c is None:
            return None
        return st.res(c[0]) if c[0][0] == 'p' else c[0]

    def mknode(s, st):
        b = ('nd', fresh_id())
        r = Region('heap', Poly.c(s.nsize), 'sym', None, 'node'); st.reg[b] = r; st.nul[b] = 'nonnull'
        d = ('dt', b)
        st.reg[d] = Region('heap', s.data_size(st), 'sym', None, 'node data'); st.nul[d] = 'nonnull'
        s.put(st, (b, Poly.c(s.N['data'])), ('p', d, ZERO), 'ptr', 8)
        s.extra_fields(st, b)
        return b

    def data_size(s, st):
        return s.step_sz

    def extra_fields(s, st, b):
        pass

    def setlink(s, st, b, f, v):
        s.put(st, (b, Poly.c(s.N[f])), v, 'ptr', 8)

    def glen(s, st, g):
        return st.ghost['gaps'][g]

    # ------------------------------------------------------------ materialisation
    def resolve_list(s, st):
        it = st.ghost.get('items', ())
        if not it or it[0][0] != 'U':
            return [st]
        lid = it[0][1]; n = st.ghost['len']
        out = []
        for kind in ('empty', 'one', 'many'):
            x = st.copy(); x.ghost['gaps'] = dict(x.ghost['gaps'])
            lh, lt = ('lh', lid), ('lt', lid)
            nu = [x.nul.get(lh), x.nul.get(lt)]
            if kind == 'empty':
                if 'nonnull' in nu or not s.eqfact(x, n, ZERO):
                    continue
                x.nul[lh] = 'null'; x.nul[lt] = 'null'; x.ghost['items'] = ()
            else:
                if 'null' in nu:
                    continue
                x.nul[lh] = x.nul[lt] = 'nonnull'
                A = s.mknode(x)
                s.setlink(x, A, 'prev', ('p', ('fresh', fresh_id(), 'stale backward link'), ZERO) if x.ghost.get('detached') or s.noprev and x.ghost.get('summarised') else NULL)
                x.alias[lh] = (A, ZERO)
                if kind == 'one':
                    if not s.eqfact(x, n, ONE):
                        continue
                    x.alias[lt] = (A, ZERO); s.setlink(x, A, 'next', NULL); x.ghost['items'] = (('n', A),)
                else:
                    B = s.mknode(x); g = fresh_id(); ln = Poly.a(fresh_atom('gap', 0))
                    if not s.eqfact(x, n, ln + 2):
                        continue
                    x.ghost['gaps'][g] = ln
                    x.alias[lt] = (B, ZERO)
                    x.nul[('gF', g)] = x.nul[('gL', g)] = 'nonnull'
                    s.setlink(x, A, 'next', ('p', ('gF', g), ZERO)); s.setlink(x, B, 'prev', ('p', ('gL', g), ZERO)); s.setlink(x, B, 'next', NULL)
                    x.ghost['items'] = (('n', A), ('g', g), ('n', B))
            x.trace = x.trace + (('case', 'list ' + kind, 0, ''),)
            if s.sync(x):
                out.append(x)
        return out

    def eqfact(s, st, a, b):
        d = a - b
        k = d.const()
        if k is not None:
            return k == 0
        if st.ne0(d):
            return False
        st.add_ge(d); st.add_ge(-d)
        return bool(s.tighten_diseq(st))

    def sync(s, st):
        """positions asserted for resolved cursors must agree with the sequence"""
        for q in list(st.preds):
            if q[0] == 'idx':
                p = st.res(q[1])
                k = s.index(st, p)
                if k is not None and not s.eqfact(st, k, q[2]):
                    return False
        return True

    def index(s, st, p):
        it = st.ghost.get('items', ())
        if is_null(p):
            return st.ghost['len']
        if it and it[0][0] == 'U':
            return ZERO if p[1] == ('lh', it[0][1]) else None
        k = ZERO
        for t in it:
            if t[0] == 'n':
                if p[1] == t[1]:
                    return k
                k = k + 1
            else:
                if p[1] == ('gF', t[1]):
                    return k
                k = k + s.glen(st, t[1])
                if p[1] == ('gL', t[1]):
                    return k - 1
        return None

    def split_gap(s, st, g, how, cursor=None):
        """how: 'F','L' materialise an end (or find it empty); 'M' an inner node for the cursor"""
        it = st.ghost['items']; k = it.index(('g', g)); a, b = it[k - 1][1], it[k + 1][1]
        out = []
        ln = s.glen(st, g)
        gF, gL = ('gF', g), ('gL', g)
        if how != 'M':
            x = st.copy(); x.ghost['gaps'] = dict(x.ghost['gaps'])
            if s.eqfact(x, ln, ZERO):
                x.ghost['items'] = it[:k] + it[k + 1:]
                x.alias[gF] = (b, ZERO); x.alias[gL] = (a, ZERO)
                if s.sync(x):
                    out.append(x)
        x = st; x.ghost['gaps'] = dict(x.ghost['gaps'])
        M = s.mknode(x)
        parts = []
        tot = ONE
        lg = rg = None
        if how in ('L', 'M'):
            lg = fresh_id(); l1 = Poly.a(fresh_atom('gap', 0)); x.ghost['gaps'][lg] = l1; tot = tot + l1
        if how in ('F', 'M'):
            rg = fresh_id(); l2 = Poly.a(fresh_atom('gap', 0)); x.ghost['gaps'][rg] = l2; tot = tot + l2
        if not s.eqfact(x, ln, tot):
            return out
        for q in (lg, rg):
            if q is not None:
                x.nul[('gF', q)] = x.nul[('gL', q)] = 'nonnull'
        s.setlink(x, M, 'prev', ('p', ('gL', lg), ZERO) if lg is not None else ('p', a, ZERO))
        s.setlink(x, M, 'next', ('p', ('gF', rg), ZERO) if rg is not None else ('p', b, ZERO))
        x.alias[gF] = (('gF', lg), ZERO) if lg is not None else (M, ZERO)
        x.alias[gL] = (('gL', rg), ZERO) if rg is not None else (M, ZERO)
        mid = ((('g', lg),) if lg is not None else ()) + (('n', M),) + ((('g', rg),) if rg is not None else ())
        x.ghost['items'] = it[:k] + mid + it[k + 1:]
        if cursor is not None:
            x.alias[cursor] = (M, ZERO)
        if s.sync(x):
            out.append(x)
        return out

    def need(s, st, v):
        """refine st so that pointer v denotes a known object; list of states"""
        if v[0] != 'p':
            return [st]
        v = st.res(v)
        b = v[1]
        if not isinstance(b, tuple):
            return [st]
        if b[0] in ('lh', 'lt'):
            return s.resolve_list(st)
        if b[0] == 'gF':
            return s.split_gap(st, b[1], 'F')
        if b[0] == 'gL':
            return s.split_gap(st, b[1], 'L')
        if b[0] in ('fresh', 'ld') and st.nul.get(b) != 'null' and s.has_pred(st, 'innul', ('p', b, ZERO)):
            out = []
            for x in s.resolve_list(st):
                if x.nul.get(b) is None:
                    z = x.copy(); z.nul[b] = 'null'
                    if s.sync(z):
                        out.append(z)
                x.nul[b] = 'nonnull'
                for t in x.ghost['items']:
                    y = x.copy()
                    if t[0] == 'n':
                        y.alias[b] = (t[1], ZERO)
                        if s.sync(y):
                            out.append(y)
                    else:
                        out += s.split_gap(y, t[1], 'M', b)
            return out
        return [st]

    def has_pred(s, st, k, v):
        for q in st.preds:
            if q[0] == k and st.res(q[1]) == v:
                return True
        return False

    def on_nullness(s, st, base, isnull):
        if isinstance(base, tuple) and base[0] in ('lh', 'lt'):
            return s.resolve_list(st)
        return [st] if s.sync(st) else []

    # ------------------------------------------------------------ stepping with materialisation
    def step(s, fn, i, st):
        ptrs = []
        if i.op == 'load':
            ptrs = [i.ops[0]]
        elif i.op == 'store':
            ptrs = [i.ops[1]]
        elif i.op == 'icmp' and i.d['opty'] == 'ptr':
            if not any(o['k'] == 'null' for o in i.ops):
                ptrs = i.ops
        elif i.op in ('call', 'invoke'):
            nm = i.d['callee'].get('n', '')
            if nm in ('free', 'memcpy', 'memmove') or nm.startswith('llvm.mem') or i.d['callee']['k'] != 'fn':
                ptrs = [o for o in i.ops]
        if ptrs:
            sts = [st]
            for o in ptrs:
                nxt = []
                for x in sts:
                    v = s.op(x, o)
                    done = [x]
                    for _ in range(3):
                        d2 = []
                        again = False
                        for y in done:
                            v = s.op(y, o)
                            if v[0] == 'p' and s.pending(y, v):
                                d2 += s.need(y, v); again = True
                            else:
                                d2.append(y)
                        done = d2
                        if not again:
                            break
                    nxt += done
                sts = nxt
            out = []
            for x in sts:
                out += Interp.step(s, fn, i, x)
            return out
        return Interp.step(s, fn, i, st)

    def pending(s, st, v):
        v = st.res(v)
        b = v[1]
        if not isinstance(b, tuple):
            return False
        if b[0] in ('lh', 'lt'):
            return st.nul.get(b) != 'null' and st.ghost.get('items', ())[:1] == (('U', b[1]),)
        return b[0] in ('gF', 'gL') or b[0] in ('fresh', 'ld') and st.nul.get(b) != 'null' and s.has_pred(st, 'innul', ('p', b, ZERO))

    def on_indirect(s, st, inst, fv, args):
        v = s.fresh(inst.ty, 'cmp')
        if len(args) >= 2 and v[0] == 'i':
            a, b = st.res(args[0]), st.res(args[1])
            for x, y in ((a, b), (b, a)):
                if x[0] == 'p' and isinstance(x[1], tuple) and x[1][0] == s.cmp_region and y[0] == 'p' and y[1] == s.key:
                    st.preds.add(('cmp', v[1], x[1][1]))
        return [(st, v)]
    cmp_region = 'dt'

    # ------------------------------------------------------------ predicates and loops
    def entails_pred(s, st, g):
        if g in st.preds:
            return True
        if g[0] == 'innul':
            p = st.res(g[1])
            if is_null(p) or st.nul.get(p[1]) == 'null':
                return True
            b = p[1]
            if isinstance(b, tuple) and b[0] in ('gF', 'gL', 'lh', 'lt') and p[2].const() == 0:
                return True
            if ('n', b) in st.ghost.get('items', ()) and not st.reg[b].freed:
                return True
            return s.has_pred(st, 'innul', p)
        if g[0] in ('first', 'rest'):
            it = st.ghost.get('items', ())
            p = st.res(g[1])
            if g[0] == 'rest' and st.ghost.get('detached'):
                return st.ghost['detached'] == g[2]
            return s.index(st, p) == ZERO if it else is_null(p)
        if g[0] == 'idx':
            p = st.res(g[1])
            k = s.index(st, p)
            if k is not None:
                return st.eq0(k - g[2])
            return any(q[0] == 'idx' and st.res(q[1]) == p and st.eq0(q[2] - g[2]) for q in st.preds)
        if g[0] == 'neb':
            p = st.res(g[1])
            if s.has_pred(st, 'neb', p):
                return True
            it = st.ghost.get('items', ())
            if not it:
                return True
            if it[0][0] == 'U':
                return p[1] == ('lh', it[0][1])
            if it[0] == ('n', p[1]):
                return True
            for k, t in enumerate(it):
                if t[0] != 'n':
                    continue
                nx = it[k + 1] if k + 1 < len(it) else None
                sv = 'null' if nx is None else nx[1] if nx[0] == 'n' else ('gF', nx[1])
                pb = 'null' if is_null(p) else p[1]
                if pb == sv and s.miss(st, t[1]) and s.entails_pred(st, ('neb', ('p', t[1], ZERO))):
                    return True
            return False
        return False

    def miss(s, st, node):
        return any(q[0] == 'cmp' and q[2] == node and st.ne0(q[1]) for q in st.preds)

    def hit(s, st, node):
        return any(q[0] == 'cmp' and q[2] == node and st.eq0(q[1]) for q in st.preds)

    def loop_candidates(s, fn, S0, H, slots):
        C = []
        ps = [sl for sl, (v0, vh) in slots.items() if vh[0] == 'p' and v0 is not None and v0[0] == 'p' and not (isinstance(v0[1], tuple) and v0[1][0] == 'arg')]
        iss = [sl for sl, (v0, vh) in slots.items() if vh[0] == 'i' and v0 is not None and v0[0] == 'i']
        for sl in ps:
            def g1(get, sl=sl):
                v = get(sl)
                return ('innul', v) if v is not None and v[0] == 'p' else None

            def g2(get, sl=sl):
                v = get(sl)
                return ('neb', v) if v is not None and v[0] == 'p' else None
            if H.ghost.get('detached'):
                def g3(get, sl=sl):
                    v = get(sl)
                    return ('rest', v, sl) if v is not None and v[0] == 'p' else None
                C.append((('rest', sl), g3))
            elif H.ghost.get('summarised'):
                def g3(get, sl=sl):
                    v, h = get(sl), get(('cell',) + s.headloc)
                    return ('peq', v, h) if v is not None and h is not None and v[0] == 'p' else None
                C.append((('eqhead', sl), g3))
            else:
                C.append((('neb', sl), g2))
                for q in iss:
                    def g4(get, sl=sl, q=q):
                        v, n = get(sl), get(q)
                        return ('idx', v, n[1]) if v is not None and n is not None and v[0] == 'p' and n[0] == 'i' else None
                    C.append((('idx', sl, q), g4))
            C.append((('innul', sl), g1))
        return C

    def walks_array(s, st, v):
        return not (isinstance(v[1], tuple) and v[1][0] in ('lh', 'lt', 'gF', 'gL', 'nd'))

    def chain_base(s, b):
        return b == s.headloc[0] or (isinstance(b, tuple) and b[0] in ('nd', 'dt'))

    def pre_existing(s, st, b):
        if isinstance(b, tuple) and b[0] in ('nd', 'dt'):
            return b in st.reg
        return Interp.pre_existing(s, st, b)

    def make_header(s, fn, phis, S0, havoc, bulk, ptrform, unk_regs, *a):
        keys = set(havoc) | {(b, None) for b in bulk} | {(b, None) for b in unk_regs}
        if any(s.chain_base(b) for b, o in keys) or S0.ghost.get('force_sum'):
            hv = {k: v for k, v in havoc.items() if not s.chain_base(k[0])}
            bk = {b: v for b, v in bulk.items() if not s.chain_base(b)}
            ur = {b: v for b, v in unk_regs.items() if not s.chain_base(b)}
            S1 = S0.copy()
            okk, seq, msg = s.walk(S1)
            X = S1.copy()
            old = [b for b in X.reg if isinstance(b, tuple) and b[0] == 'nd']
            X.ghost['summarised'] = True
            X.ghost['badentry'] = None if okk else msg
            X.ghost['detached'] = None
            if okk and not seq and X.ghost.get('items') and not s.tailloc:
                for p in phis:          # the chain was taken off its bucket and is being walked from a cursor
                    v = X.env.get(p.id, UNDEF)
                    if p.ty == 'ptr' and v[0] == 'p' and s.entails_pred(S0, ('first', v)):
                        X.ghost['detached'] = ('phi', p.id)
            lid = s.new_list(X)
            X.ghost['detlid'] = lid
            for b in old:
                X.reg.pop(b, None); X.reg.pop(('dt', b), None); X.heap.pop(b, None)
            # evaluate candidates: initial values against S0, header values against the summary
            H, fm, c = s._mh(fn, phis, S0, X, hv, bk, ptrform, ur, *a)
            H.ghost['summarised'] = True
            return H, fm, c
        return Interp.make_header(s, fn, phis, S0, havoc, bulk, ptrform, unk_regs, *a)

    def _mh(s, fn, phis, S0, X, havoc, bulk, ptrform, unk_regs, extra, lock, dead):
        H = X
        H.ghost['__maxatom0'] = len(ATOMS) - 1
        fmap = {}; slots = {}
        for p in phis:
            v0 = S0.env.get(p.id, UNDEF)
            v = s.fresh('ptr' if p.ty == 'ptr' else p.ty, p.n or 'phi', p.ty != 'ptr' and s.use_signed(p))
            if v[0] == 'i':
                fmap[v[1].single()] = ('phi', p.id)
            slots[('phi', p.id)] = (v0, v)
            H.env[p.id] = v
            ptrform[p.id] = 'base'
        for (b, o), (ty, size) in havoc.items():
            v = s.fresh(ty, 'cell')
            H.heap.setdefault(b, {})[o] = (v, size, ty)
            c0 = S0.heap.get(b, {}).get(o)
            slots[('cell', b, o)] = (c0[0] if c0 else None, v)
            if v[0] == 'i':
                fmap[v[1].single()] = ('cell', b, o)
        for b in bulk:
            H.heap[b] = {}; s.region(H, b).written = True
        H.ghost['__maxatom'] = len(ATOMS) - 1
        out = []
        for key, f in ([] if '*' in dead else s.base_cands(fn, S0, H, slots, fmap, extra, lock)):
            if key in dead:
                continue
            g0 = f(lambda sl: slots[sl][0] if sl in slots else s.slot_value(S0, sl, False))
            if g0 is None or not s.holds(S0, g0):
                dead.add(key); continue
            gh = f(lambda sl: slots[sl][1] if sl in slots else s.slot_value(H, sl, False))
            if gh is None:
                dead.add(key); continue
            s.add_goal(H, gh); out.append((key, f))
        return H, fmap, out

    def add_goal(s, st, g):
        if g[0] == 'rest':
            if st.ghost.get('detached') == g[2]:
                g = ('peq', g[1], ('p', ('lh', st.ghost['detlid']), ZERO))
            else:
                return
        return Interp.add_goal(s, st, g)

    def on_loop(s, fn, header, S0, R):
        for pv, L in R['latch']:
            if not L.ghost.get('summarised'):
                continue
            det = L.ghost.get('detached')
            if det and not any(i.op == 'phi' and i.id == det[1] for i in fn.blocks[header].insts):
                det = L.ghost['detached'] = None
            s.do_phis_keep(fn, header, pv, L)
            s.iteration(fn, header, S0, L)
            ok, seq, msg = s.walk(L, s.slot_value(L, det, True)) if det else s.walk(L)
            if not ok:
                i = fn.blocks[header].insts[-1]
                s.report('loop-breaks-chain', i, 'an iteration leaves the chain inconsistent: ' + msg, L)
            else:
                s.leak_check(fn, L, seq, fn.blocks[header].insts[-1])

    def iteration(s, fn, header, S0, L):
        pass

    def on_null_deref(s, st, inst, ptr, sure):
        if sure:
            s.report('null', inst, 'access through a null pointer (%s)' % s.vname(ptr), st)

    def on_access(s, st, inst, ptr, n, kind):
        ptr = st.res(ptr)
        r = st.reg.get(ptr[1]) if ptr[0] == 'p' else None
        if r is not None and r.freed:
            s.report('use-after-free', inst, '%s of a node that was already released' % kind, st)

    def on_free(s, st, inst, ptr, how):
        r = st.reg.get(ptr[1])
        if r is not None and r.freed:
            s.report('double-free', inst, 'node released twice', st)

    def leak_check(s, fn, st, seq, inst, keep=()):
        inq = {t[1] for t in seq if t[0] == 'n'}
        for b, r in st.reg.items():
            if isinstance(b, tuple) and (b[0] == 'nd' or b[0] == 'alloc' and r.kind == 'heap' and r.size is not None and r.size == Poly.c(s.nsize)):
                if b not in inq and not r.freed and b not in keep:
                    s.report('leak', inst, 'a node leaves the chain without being released', st)
                d = s.get(st, (b, Poly.c(s.N['data'])))
                if r.freed and d is not None and d[0] == 'p' and d[1] in st.reg and not st.reg[d[1]].freed and d[1] not in keep:
                    s.report('leak', inst, 'the data of a released node is not released', st)

    # ------------------------------------------------------------ re-deriving the sequence
    def walk(s, st, start=None):
        v = s.get(st, s.headloc) if start is None else st.res(start)
        lax = start is not None or s.noprev and st.ghost.get('summarised')
        items = st.ghost.get('items', ())
        if v is None:
            return False, (), 'head pointer not tracked'
        n = st.ghost.get('len', ZERO)
        if items and items[0][0] == 'U' and v[1] == ('lh', items[0][1]) and st.nul.get(v[1]) != 'null':
            if s.tailloc:
                t = s.get(st, s.tailloc)
                if t is None or t[1] != ('lt', items[0][1]):
                    return False, (), 'tail pointer changed on an untouched list'
            if not s.size_is(st, n):
                return False, (), 'element count changed without a change of the list'
            return True, items, ''
        seq = []; prev = NULL; cnt = ZERO; seen = set()
        pos = {t: k for k, t in enumerate(items)}
        while not is_null(v):
            b = v[1]
            if b in seen or len(seq) > 40:
                return False, seq, 'the chain runs in a circle'
            seen.add(b)
            if isinstance(b, tuple) and b[0] == 'gF' and ('g', b[1]) in pos:
                k = pos[('g', b[1])]
                a, nb = items[k - 1][1], items[k + 1][1]
                if prev[1] != a and not (lax and is_null(prev)):
                    return False, seq, 'the backward link of an inner node does not lead to its predecessor'
                seq.append(('g', b[1])); cnt = cnt + s.glen(st, b[1])
                prev = ('p', ('gL', b[1]), ZERO); v = ('p', nb, ZERO)
                continue
            if st.nul.get(b) == 'null':
                break
            r = st.reg.get(b)
            if r is None:
                return False, seq, 'the chain continues into an unknown object (%s)' % s.vname(v)
            if r.freed:
                return False, seq, 'the chain still contains a released node'
            p = s.get(st, (b, Poly.c(s.N['prev'])))
            if p is None:
                return False, seq, 'a node has no backward link'
            if p != prev and not (is_null(p) and is_null(prev)) and not (lax and is_null(prev)):
                return False, seq, 'the backward link of a node does not lead to its predecessor (%s, expected %s)' % (s.vname(p), s.vname(prev))
            seq.append(('n', b)); cnt = cnt + 1
            prev = v
            v = s.get(st, (b, Poly.c(s.N['next'])))
            if v is None:
                return False, seq, 'a node has no forward link'
        if s.tailloc:
            t = s.get(st, s.tailloc)
            if t is None:
                return False, seq, 'tail pointer not tracked'
            if not (is_null(t) or st.nul.get(t[1]) == 'null') if not seq else t != prev:
                return False, seq, 'the tail pointer does not designate the last node'
        if not s.size_is(st, cnt):
            return False, seq, 'the recorded element count is not the number of nodes'
        return True, tuple(seq), ''

    def size_is(s, st, cnt):
        if not s.sizeloc:
            return True
        z = s.get(st, s.sizeloc)
        return z is not None and z[0] == 'i' and st.eq0(z[1] - cnt)

    def ret_key(s, st):
        return (Interp.ret_key(s, st), st.ghost.get('items'), tuple(sorted((repr(b), r.freed) for b, r in st.reg.items() if isinstance(b, tuple) and b[0] == 'nd' and r.freed)))
