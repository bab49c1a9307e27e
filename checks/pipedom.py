"""The clustering pipeline over containers as events: container constructors, insertions, removals and hash table accesses
are logged with the values they were given (keys and elements symbolically) instead of being followed; sizes are kept."""
from recdom import *

LISTOFF = {}


class PipeAI(RecAI):
    MAXP = 80
    MEMO = True

    def __init__(s, prog):
        RecAI.__init__(s, prog)
        H = s.hooks
        for n in ('set_init', 'array_list_init', 'ptr_array_list_init'):
            H[n] = PipeAI.h_newlist
        for n in ('hashtable_init', 'hashtable_init_size'):
            H[n] = PipeAI.h_newtable
        H['array_list_append'] = H['ptr_array_list_append'] = PipeAI.h_append
        H['set_insert'] = PipeAI.h_setinsert
        for n in ('set_remove_at', 'array_list_remove_at'):
            H[n] = PipeAI.h_removeat
        H['array_list_pop'] = PipeAI.h_pop
        for n in ('array_list_clear', 'set_clear'):
            H[n] = PipeAI.h_clear
        for n in ('array_list_delete', 'set_delete', 'hashtable_destroy', 'array_list_remove', 'set_remove'):
            H[n] = PipeAI.h_log
        H['array_list_value_at'] = PipeAI.h_valueat
        H['hashtable_lookup'] = PipeAI.h_lookup
        H['hashtable_insert'] = PipeAI.h_put
        for n in ('set_find', 'array_list_find'):
            H[n] = PipeAI.h_find
        s.LO = {f['name']: Poly.c(f['off']) for f in prog.ditypes['ArrayList']['fields']}
        s.KO = [Poly.c(f['off']) for f in prog.ditypes['HASHTABLE_']['fields'] if f['name'] == 'keys'][0]

    def make_header(s, fn, phis, S0, *a):
        r = RecAI.make_header(s, fn, phis, S0, *a)
        r[0].ghost['__id0'] = fresh_id()
        return r

    def base_new(s, st, b):
        q = b
        while isinstance(q, tuple) and q[0] == 'ld':
            q = q[1]
        if isinstance(q, tuple) and q[0] == 'out' and q[1] > st.ghost.get('__id0', 10 ** 12):
            return True         # handed out in this pass
        return RecAI.base_new(s, st, b)

    # ---- helpers
    def lsize(s, st, l):
        l = st.res(l)
        v = s.load_q(st, None, ('p', l[1], s.LO['size']), 'i64', 8)
        return v[1] if v[0] == 'i' else Poly.a(fresh_atom('size', 0))

    def setsize(s, st, l, p):
        l = st.res(l)
        s.store_q(st, ('p', l[1], s.LO['size']), ('i', p), 8, 'i64')

    def lname(s, l):
        return s.bname(l[1])

    def outtype(s, st, p, default='ptr'):
        p = st.res(p)
        r = st.reg.get(p[1]) if p[0] == 'p' else None
        ty = r.site.d.get('aty') if r is not None and r.site is not None and r.site.op == 'alloca' else None
        if ty in ('ptr', 'double', 'float') or ty and ty[0] == 'i' and ty[1:].isdigit():
            return ty
        return default

    def tsize(s, ty):
        return 8 if ty in ('ptr', 'double') else 4 if ty == 'float' else int(ty[1:]) // 8

    def tyval(s, ty, nm):
        if ty == 'ptr':
            return ('p', ('out', fresh_id(), nm), ZERO)
        return s.fresh(ty, nm, True)

    def log(s, st, *e):
        st.log = st.log + (tuple(e),)

    # ---- hooks
    def h_newlist(s, st, i, args):
        nm = i.d['callee'].get('n', '')
        out = s.alloc(st, i, Poly.c(40), 'sym', 'list', maynull=False)
        x, p = out[0]
        cells = x.heap.setdefault(p[1], {})
        d = ('p', ('alloc', fresh_id(), 'data'), ZERO)
        x.reg[d[1]] = Region('heap', None, 'sym'); x.nul[d[1]] = 'nonnull'
        cells[s.LO['size']] = (I(0), 8, 'i64'); cells[s.LO['data']] = (d, 8, 'ptr')
        step = args[0] if nm == 'set_init' else (args[1] if nm == 'array_list_init' and len(args) > 1 else I(8))
        cells[s.LO['step']] = (step, 8, 'i64')
        s.log(x, 'newlist', p, step, i)
        return [(x, p)]

    def h_newtable(s, st, i, args):
        out = s.alloc(st, i, Poly.c(s.prog.ditypes['HASHTABLE_']['size']), 'sym', 'table', maynull=False)
        x, p = out[0]
        k = ('p', ('keys', fresh_id()), ZERO)           # the set of its keys
        x.reg[k[1]] = Region('heap', None, 'sym'); x.nul[k[1]] = 'nonnull'
        x.heap.setdefault(k[1], {})[s.LO['size']] = (I(0), 8, 'i64')
        x.heap.setdefault(p[1], {})[s.KO] = (k, 8, 'ptr')
        s.log(x, 'newtable', p, tuple(args), i)
        return [(x, p)]

    def h_append(s, st, i, args):
        l = st.res(args[0])
        s.log(st, 'append', l, s.peek(st, i, args[1]), i)
        s.setsize(st, l, s.lsize(st, l) + 1)
        return [(st, I(1))]

    def h_setinsert(s, st, i, args):
        l = st.res(args[0])
        n = s.lsize(st, l)
        a = fresh_atom('inserted', 0, 1, 32)
        s.log(st, 'insert', l, s.peek(st, i, args[1]), Poly.a(a), i)
        s.setsize(st, l, n + Poly.a(a))
        return [(st, ('i', Poly.a(a)))]

    def h_removeat(s, st, i, args):
        l = st.res(args[0]); n = s.lsize(st, l)
        pos = args[1][1] if args[1][0] == 'i' else None
        where = None
        if pos is not None:
            where = 'last' if pos == n - 1 or st.eq0(pos - n + 1) else 'first' if pos.const() == 0 else pos
        return s.taken(st, i, l, where, args[2], n)

    def h_valueat(s, st, i, args):
        l = st.res(args[0]); n = s.lsize(st, l)
        pos = args[1][1] if args[1][0] == 'i' else None
        ty = s.outtype(st, args[2])
        outs = []
        if pos is None or not (st.ge(pos) and st.ge(n - 1 - pos)):
            miss = st.copy()
            if pos is not None:
                miss.add_ge(pos - n)
            outs.append((miss, I(0)))
        if pos is None:
            v = s.tyval(ty, 'element')
        else:
            st.add_ge(n - 1 - pos)
            w = s.tsize(ty)
            d = s.load_q(st, None, ('p', l[1], s.LO['data']), 'ptr', 8)
            v = s.load_q(st, None, ('p', d[1], d[2] + pos * w), ty, w)
        s.store(st, i, args[2], v, s.tsize(ty), ty)
        return [(st, I(1))] + outs

    def taken(s, st, i, l, where, out, n):
        ty = s.outtype(st, out)
        v = s.tyval(ty, 'removed')
        s.store(st, i, out, v, s.tsize(ty), ty)
        s.setsize(st, l, n - 1)
        s.log(st, 'remove', l, v, where, i)
        return [(st, I(1))]

    def h_pop(s, st, i, args):
        l = st.res(args[0])
        return s.taken(st, i, l, 'last', args[1], s.lsize(st, l))

    def h_clear(s, st, i, args):
        l = st.res(args[0])
        s.setsize(st, l, ZERO)
        s.log(st, 'clear', l, i)
        return [(st, None if i.ty == 'void' else s.fresh(i.ty))]

    def h_log(s, st, i, args):
        nm = i.d['callee'].get('n', '')
        s.log(st, nm, st.res(args[0]) if args and args[0][0] == 'p' else None, s.peek(st, i, args[1]) if len(args) > 1 and args[1][0] == 'p' and nm.endswith('remove') else None, i)
        return [(st, None if i.ty == 'void' else s.fresh(i.ty))]

    def h_lookup(s, st, i, args):
        t = st.res(args[0]); k = s.peek(st, i, args[1])
        miss = st.copy()
        s.log(miss, 'get', t, k, None, i)
        ty = s.outtype(st, args[2])
        v = s.tyval(ty, 'found')
        if v[0] == 'p':
            st.nul[v[1]] = 'nonnull'
        s.store(st, i, args[2], v, s.tsize(ty), ty)
        s.log(st, 'get', t, k, v, i)
        return [(st, I(1)), (miss, I(0))]

    def h_put(s, st, i, args):
        k = st.heap.get(st.res(args[0])[1], {}).get(s.KO)
        if k is not None and k[0][0] == 'p' and isinstance(k[0][1], tuple) and k[0][1][0] == 'keys':
            s.setsize(st, k[0], s.lsize(st, k[0]) + Poly.a(fresh_atom('newkey', 0, 1, 32)))
        s.log(st, 'put', st.res(args[0]), s.peek(st, i, args[1]), s.peek(st, i, args[2]), i)
        return [(st, I(1))]

    def h_find(s, st, i, args):
        l = st.res(args[0]); v = s.peek(st, i, args[1])
        a = fresh_atom('position', -1, 2 ** 62, 64)
        s.log(st, 'find', l, v, Poly.a(a), args[2] if len(args) > 2 else None, i)
        return [(st, ('i', Poly.a(a)))]

    # ---- reading logs
    def tail(s, lp, L):
        return list(L.log[len(lp.H.log):])

    def loaded(s, v):
        """(base, offset) when v is memory read"""
        if v is None:
            return None
        if v[0] == 'p' and isinstance(v[1], tuple) and v[1][0] == 'ld' and v[2].const() == 0:
            return v[1][1], v[1][2][1]
        if v[0] == 'i' and v[1].single() is not None and v[1] == Poly.a(v[1].single()) and ATOMS[v[1].single()].key[0] == 'ld':
            k = ATOMS[v[1].single()].key
            return k[1], k[2]
        if v[0] == 'f' and isinstance(v[1], tuple) and v[1][0] == 'ld':
            return v[1][1], v[1][2][1]
        if v[0] == 'at':
            return v[1], v[2]
        return None

    def steps_over(s, lp, lo, hi):
        """does the loop's counter take every value of [lo,hi) once, in order?  (counter, None) / (None, reason|'?')"""
        early = []
        ks = s.counter(lp, [hi, lo], early)
        H = lp.H
        for k in ks:
            if (k[1] == lo or H.eq0(k[1] - lo)) and (k[2] == hi or H.eq0(k[2] - hi)):
                return k[0], None
        if early:
            return None, 'can stop before the last one'
        for k in ks:
            a, b = k[1] - lo, k[2] - hi
            if a.const() is not None and b.const() is not None:
                return None, 'covers positions %s to %s' % (s.vname(('i', k[1])), s.vname(('i', k[2] - 1)))
        return None, '?'
