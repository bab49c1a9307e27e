"""Shape and content analysis of the hash table: every operation is interpreted from an arbitrary well-formed table (the
bucket the key hashes to holds a chain of unknown length; the key set mirrors the entries); at each exit the chain, the
entry count, the key set, the bytes handed in and out and the released memory are compared with the ideal map operation."""
from chaindom import *


class HTAI(ChainAI):
    cmp_region = 'ky'

    def __init__(s, prog):
        ChainAI.__init__(s, prog, 'HTBL_ENTRY' if 'HTBL_ENTRY' in prog.ditypes else 'hashtable_entry')
        if 'key' not in s.N:
            raise AnalysisBroken('the entry record has no key')
        di = prog.ditypes.get('HASHTABLE_') or prog.ditypes.get('hashtable')
        sd = prog.ditypes.get('ArrayList')
        if not di or not sd:
            raise AnalysisBroken('record of the hash table not found')
        s.HF = {f['name']: f for f in di['fields']}; s.hsize = di['size']
        s.SF = {f['name']: f for f in sd['fields']}
        s.undec = set(); s.checks = []

    def hts(s, t):
        """size of the type denoted by t (the library's own type-size function, decided by P07)"""
        t = aspoly(t)
        return Poly.a(atom(('hts', t), 'sizeof(type)', 1, 8))

    def ho(s, n):
        return Poly.c(s.HF[n]['off'])

    def setup(s, fn):
        st = State(); args = []
        H = None
        for k, a in enumerate(fn.args):
            v = s.arg_value(st, fn, k); args.append(v)
            if H is None and fn.dicanon[k + 1].rstrip('*').split()[-1] in ('HASHTABLE_', 'hashtable'):
                H = s.H = v[1]
        st.nul[H] = 'nonnull'; st.reg[H] = Region('input', Poly.c(s.hsize)); st.btype[H] = 'struct.HASHTABLE_'
        s.nb = Poly.a(atom(('HT', 'buckets'), 'buckets', 1)); s.B = Poly.a(atom(('HT', 'bucket'), 'bucket', 0))
        st.add_ge(s.nb - 1 - s.B)
        s.T = ('T',); s.K = ('KS',)
        st.reg[s.T] = Region('heap', s.nb * 8, 'sym'); st.nul[s.T] = 'nonnull'
        st.reg[s.K] = Region('heap', None, 'sym'); st.nul[s.K] = 'nonnull'
        s.n0 = Poly.a(atom(('HT', 'size'), 'entries', 0))
        kt, dt = (Poly.a(atom(('HT', x), x, 0, 7)) for x in ('ktype', 'dtype'))
        s.ks, s.ds = s.hts(('i', kt)), s.hts(('i', dt))
        s.step_sz = s.ds
        for n, v in (('buckets', ('i', s.nb)), ('size', ('i', s.n0)), ('ktype', ('i', kt)), ('dtype', ('i', dt))):
            s.put(st, (H, s.ho(n)), v, 'i%d' % (8 * s.HF[n]['size']), s.HF[n]['size'])
        for n, b in (('table', s.T), ('keys', s.K), ('key_compare', ('kc',)), ('key_hash', ('kh',))):
            s.put(st, (H, s.ho(n)), ('p', b, ZERO), 'ptr', 8); st.nul[b] = 'nonnull'
        s.put(st, (s.K, Poly.c(s.SF['size']['off'])), ('i', s.n0), 'i64', 8)
        s.put(st, (('vis',), ZERO), ('i', ZERO), 'i64', 8); st.reg[('vis',)] = Region('input', Poly.c(8))
        s.headloc = (s.T, s.B * 8); s.tailloc = s.sizeloc = None
        st.ghost['c'] = {}
        s.new_list(st)
        st.add_ge(s.n0 - st.ghost['len'])
        s.key = s.val = None; s.kd = s.vd = None
        vp = [k for k in range(len(fn.args)) if fn.dicanon[k + 1] == 'void*']
        for j, k in enumerate(vp):
            b = args[k][1]
            if j == 0:
                s.key = b; st.nul[b] = 'nonnull'; st.reg[b] = Region('input', s.ks); s.setc(st, b, 'K')
            else:
                s.val = b; st.nul[b] = 'nonnull'; st.reg[b] = Region('input', s.ds); s.setc(st, b, 'V')
        fp = [k for k in range(len(fn.args)) if '(' in fn.dicanon[k + 1] or 'subr' in fn.dicanon[k + 1] or k and 'void*' not in fn.dicanon[k + 1]]
        if len(fp) == 2:
            s.kd, s.vd = args[fp[0]][1], args[fp[1]][1]
        return st, args

    def setc(s, st, b, t):
        st.ghost['c'] = dict(st.ghost['c']); st.ghost['c'][b] = t

    def content(s, st, b):
        if isinstance(b, tuple) and b not in st.ghost['c']:
            if b[0] == 'ky':
                return ('K', b[1])
            if b[0] == 'dt':
                return ('D', b[1])
        return st.ghost['c'].get(b)

    def extra_fields(s, st, b):
        k = ('ky', b)
        st.reg[k] = Region('heap', s.ks, 'sym', None, 'entry key'); st.nul[k] = 'nonnull'
        s.put(st, (b, Poly.c(s.N['key'])), ('p', k, ZERO), 'ptr', 8)
        s.put(st, (b, Poly.c(s.N['key_compare'])), ('p', ('kc',), ZERO), 'ptr', 8)
        s.put(st, (k, ZERO), ('p', ('kv', b), ZERO), 'ptr', 8)
        s.put(st, (('dt', b), ZERO), ('p', ('dv', b), ZERO), 'ptr', 8)

    # ---------------------------------------------------------------- events
    def lazy(s, st, base, off, ty, inst):
        if base == s.T:
            s.undec.add('a bucket other than that of the key is visited (%s)' % inst.loc())
        return None

    def on_access(s, st, inst, ptr, n, kind):
        ChainAI.on_access(s, st, inst, ptr, n, kind)
        ptr = st.res(ptr)
        if ptr[0] != 'p':
            return
        r = st.reg.get(ptr[1])
        if r is None or r.size is None or r.freed:
            return
        if ptr[1] == s.T or isinstance(ptr[1], tuple) and ptr[1][0] in ('ky', 'dt', 'alloc', 'nd') or ptr[1] in (s.key, s.val, s.H):
            s.count('bounds')
            if ptr[1] in (s.T, s.H) or not s.deref_typed(st, inst, ptr):
                if not (st.ge(ptr[2]) and st.ge(r.size - ptr[2] - n)):
                    s.report('bounds', inst, '%s outside its storage (%s)' % (kind, s.vname(ptr)), st)

    def deref_typed(s, st, inst, ptr):
        # *(void**)key on a copy of a key or value is only meaningful for pointer types: the caller's contract
        return inst.op == 'load' and inst.ty == 'ptr' and not (isinstance(ptr[1], tuple) and ptr[1][0] == 'nd')

    def on_store(s, st, inst, ptr, val, size):
        ptr = st.res(ptr)
        if ptr[0] == 'p' and (isinstance(ptr[1], tuple) and ptr[1][0] in ('ky', 'dt') or ptr[1] in (s.key, s.val)):
            s.setc(st, ptr[1], 'direct')

    def on_memcpy(s, st, i, d, sr, n, kind):
        if d[0] != 'p' or sr[0] != 'p':
            return
        t = s.content(st, sr[1])
        r, q = st.reg.get(d[1]), st.reg.get(sr[1])
        full = s.ks if t is not None and t != 'direct' and t[0] == 'K' else s.ds
        if not (is0(st, d[2]) and is0(st, sr[2]) and st.eq0(n - full)):
            t = None if t is None else ('part',)
        s.setc(st, d[1], t)

    def on_free(s, st, i, p, how):
        ChainAI.on_free(s, st, i, p, how)
        if isinstance(p[1], tuple) and p[1][0] == 'dt':
            pass

    def after_copy(s, st, d, sr):
        for rg in ('ky', 'dt'):
            t = st.ghost['c'].get(d[1])
            if isinstance(t, tuple) and len(t) == 2 and t[0] == ('K' if rg == 'ky' else 'D') and is0(st, d[2]):
                s.put(st, (d[1], ZERO), ('p', ('kv' if rg == 'ky' else 'dv', t[1]), ZERO), 'ptr', 8)
                st.writes.add((d[1], ZERO))

    def on_indirect(s, st, inst, fv, args):
        fv = st.res(fv) if fv[0] == 'p' else fv
        b = fv[1]
        if b == ('kh',):
            s.count('hash')
            if not st.eq0(aspoly(args[1]) - s.nb):
                s.report('hash', inst, 'the key is hashed for a number of buckets that is not the number of buckets of the table', st)
            k = st.res(args[0])
            t = s.content(st, k[1]) if k[0] == 'p' else None
            if k[0] == 'p' and is0(st, k[2]) and (t == 'K' or s.typical or isinstance(t, tuple) and t[0] == 'K'):
                return [(st, ('i', s.B))]
            s.undec.add('something other than a key is hashed (%s)' % inst.loc())
            v = s.fresh(inst.ty, 'hash', True); st.add_ge(s.nb - 1 - v[1])
            return [(st, v)]
        if b == ('kc',):
            return ChainAI.on_indirect(s, st, inst, fv, args)
        if b in (s.kd, s.vd) and b is not None:
            a = st.res(args[0])
            st.log = st.log + (('destroy', 'k' if b == s.kd else 'v', a[1]),)
            return [(st, None)]
        return ChainAI.on_indirect(s, st, inst, fv, args)

    typical = False

    def ksz(s, st, d):
        loc = (s.K, Poly.c(s.SF['size']['off']))
        v = s.get(st, loc)[1]
        if d is None:
            return v
        s.put(st, loc, ('i', v + d if d != 'zero' else ZERO), 'i64', 8); st.writes.add(loc)

    def call_hook(s, st, i, nm, args):
        if nm == 'get_htype_size':
            return [(st, ('i', s.hts(args[0])))]
        if nm.startswith('logger_'):
            return [(st, s.fresh(i.ty, 'log') if i.ty != 'void' else None)]
        base = nm[4:] if nm.startswith('set_') else nm[11:] if nm.startswith('array_list_') else None
        if base is None:
            if nm in ('malloc', 'calloc', 'free', 'memcpy', 'memmove') or nm.startswith('llvm.') or not s.prog.fns.get(nm) or not s.prog.fns[nm].decl:
                return None
            return None
        if not s.mem_calls:
            return None
        a0 = st.res(args[0]) if args and args[0][0] == 'p' else None
        onk = a0 is not None and a0[1] == s.K
        if onk and st.reg[s.K].freed:
            s.report('use-after-free', i, 'the key set is used after it was released', st)
        if base == 'init':
            z = st.copy(); z.log = z.log + (('allocfail', i.loc()),)
            st.log = st.log + (('setinit', args[0] if nm.startswith('set_') else args[1], args[-1]),)
            st.reg[('NK',)] = Region('heap', None, 'sym', i, 'set'); st.nul[('NK',)] = 'nonnull'
            return [(st, ('p', ('NK',), ZERO)), (z, NULL)]
        if a0 is not None and a0[1] == ('NK',) and base == 'delete':
            st.reg[('NK',)].freed = 'free'
            return [(st, NULL)]
        if not onk:
            return None
        if base == 'insert':
            k = st.res(args[1])
            isk = k[0] == 'p' and k[1] == s.key and s.content(st, s.key) == 'K' or k[0] == 'p' and s.content(st, k[1]) == 'K'
            z = st.copy(); z.log = z.log + (('allocfail', i.loc()), ('setinsfail',))
            st.log = st.log + (('setins', isk),)
            s.ksz(st, 1)
            return [(st, ('i', ONE)), (z, ('i', ZERO))]
        if base == 'remove':
            k = st.res(args[1])
            st.log = st.log + (('setrem', k[0] == 'p' and s.content(st, k[1]) == 'K' and is0(st, k[2])),)
            s.ksz(st, -1)
            return [(st, ('i', ONE))]
        if base == 'clear':
            st.log = st.log + (('setclear',),)
            s.ksz(st, 'zero')
            return [(st, None)]
        if base == 'size':
            return [(st, ('i', s.ksz(st, None)))]
        if base == 'empty':
            return None
        if base == 'value_at':
            idx = aspoly(args[1])
            c = st.heap[('vis',)][ZERO][0][1]; n = s.ksz(st, None)
            if st.eq0(idx - c) or st.eq0(n - 1 - idx - c):
                s.put(st, (('vis',), ZERO), ('i', c + 1), 'i64', 8)
            else:
                s.irregular = True
                s.put(st, (('vis',), ZERO), s.fresh('i64', 'vis', True), 'i64', 8)
            st.writes.add((('vis',), ZERO))
            d = st.res(args[2])
            if not (st.ge(n - 1 - idx) and st.ge(idx)):
                s.undec.add('a key is fetched from a position that may be outside the key set (%s)' % i.loc())
            s.deref(st, i, d, s.ks, 'memwrite')
            s.bulk_write(st, d, s.ks)
            s.setc(st, d[1], ('K', 'typ'))
            st.log = st.log + (('setval',),)
            return [(st, ('i', ONE))]
        if base == 'delete':
            if st.reg[s.K].freed:
                s.report('double-free', i, 'the key set is released twice', st)
            st.reg[s.K].freed = 'free'
            return [(st, NULL)]
        s.undec.add('operation %s on the key set is not modelled' % nm)
        return None
    mem_calls = True; irregular = False

    def step(s, fn, i, st):
        out = ChainAI.step(s, fn, i, st)
        if i.op in ('call', 'invoke') and (i.d['callee'].get('n', '') in ('memcpy', 'memmove') or i.d['callee'].get('n', '').startswith(('llvm.memcpy', 'llvm.memmove'))):
            for x in out:
                y = x[0] if isinstance(x, tuple) else x
                d = y.res(s.op(y, i.ops[0]))
                if d[0] == 'p':
                    s.after_copy(y, d, None)
        return out

    def iteration(s, fn, header, S0, L):
        if not s.typical:
            return
        it = L.log[len(S0.log):] if L.log[:len(S0.log)] == S0.log else tuple(e for e in L.log if e not in S0.log)
        inst = fn.blocks[header].insts[-1]
        s.destroyed(L, it, inst)
        if not L.ghost.get('detached') and ('setval',) in it:
            ok, seq, msg = s.walk(L)
            s.count('iterations')
            if ok and seq:
                s.report('clear', inst, 'the bucket of a key still holds an entry after the key was dealt with', L)

    def destroyed(s, L, it, inst):
        for b, r in list(L.reg.items()):
            if isinstance(b, tuple) and b[0] == 'nd' and r.freed:
                for w, tag, f in (('k', 'kv', s.kd), ('v', 'dv', s.vd)):
                    n = sum(1 for e in it if e[0] == 'destroy' and e[1] == w and e[2] == (tag, b))
                    s.count('destroys')
                    given = L.nul.get(f); val = L.nul.get((tag, b))
                    what = 'key' if w == 'k' else 'value'
                    if n > 1:
                        s.report('destroy', inst, 'the %s of an entry is destroyed twice' % what, L)
                    if n == 0 and given == 'nonnull' and val != 'null':
                        s.report('destroy', inst, 'the destructor given for the %ss is not applied to the %s of a released entry' % (what, what), L)
        for e in it:
            if e[0] == 'destroy' and not (isinstance(e[2], tuple) and e[2][0] == ('kv' if e[1] == 'k' else 'dv') and L.reg.get(e[2][1]) is not None and (True)):
                s.report('destroy', inst, 'a destructor is applied to something that is not the %s of an entry being released' % ('key' if e[1] == 'k' else 'value'), L)

    def ret_key(s, st):
        return (ChainAI.ret_key(s, st), tuple(sorted(repr(x) for x in st.ghost.get('c', {}).items())), st.log)

    def leak_check(s, fn, st, seq, inst, keep=()):
        ChainAI.leak_check(s, fn, st, seq, inst, keep)
        for b, r in st.reg.items():
            if isinstance(b, tuple) and (b[0] == 'nd' or b[0] == 'alloc' and r.size is not None and r.size == Poly.c(s.nsize)) and r.freed:
                k = s.get(st, (b, Poly.c(s.N['key'])))
                if k is not None and k[0] == 'p' and k[1] in st.reg and not st.reg[k[1]].freed:
                    s.report('leak', inst, 'the key of a released entry is not released', st)


def is0(st, p):
    return p.const() == 0 or st.eq0(p)


def failed(st):
    return any(e[0] == 'allocfail' for e in st.log)


def spec(A, R, fn, st, v, path):
    n = fn.name; w = fn.loc()

    def bad(rule, msg):
        R.violation(rule, w, '%s: %s' % (n, msg), key='%s|%s|%s' % (rule, n, msg[:60]), path=path)
    ok, seq, msg = A.walk(st)
    R.add('shape_obligations')
    if not ok:
        bad('shape', msg); return
    old = tuple(st.ghost['items']); seq = tuple(seq)
    sz = A.get(st, (A.H, A.ho('size')))[1]
    ksz = A.ksz(st, None)
    ins = [e for e in st.log if e[0] == 'setins']; rem = [e for e in st.log if e[0] == 'setrem']; clr = [e for e in st.log if e[0] == 'setclear']
    if not st.eq0(sz - ksz):
        bad('count', 'the entry count and the number of keys in the key set drift apart')
    for f, want in (('table', ('p', A.T, ZERO)), ('keys', ('p', A.K, ZERO)), ('key_compare', ('p', ('kc',), ZERO)), ('key_hash', ('p', ('kh',), ZERO)), ('buckets', ('i', A.nb))):
        if A.get(st, (A.H, A.ho(f))) != want:
            bad('header', 'the operation changes %s' % f)
    R.add('contract_obligations')
    unchanged = seq == old and st.eq0(sz - A.n0) and not ins and not rem and not clr
    intact = lambda b: A.content(st, ('dt', b)) == ('D', b)
    keysame = all(A.content(st, ('ky', t[1])) == ('K', t[1]) for t in old if t[0] == 'n')
    direct = any(c == 'direct' for c in st.ghost['c'].values())
    if direct:
        A.undec.add('%s moves key or value bytes by individual stores' % n); return
    if not keysame:
        bad('keys', 'the key stored in an entry is overwritten')
    others = lambda keep: all(intact(t[1]) for t in old if t[0] == 'n' and t[1] != keep)
    if n == 'hashtable_insert':
        hits = [t[1] for t in old if t[0] == 'n' and A.hit(st, t[1])]
        new = [t for t in seq if t not in old]
        if new:
            b = new[0][1]
            if len(new) > 1 or b[0] != 'alloc' or tuple(t for t in seq if t in old) != old:
                bad('insert', 'the bucket is not the old chain with one new entry'); return
            if not A.entails_pred(st, ('neb', NULL)):
                bad('insert', 'can add a second entry for a key that is already in the table')
            k, d = (A.get(st, (b, Poly.c(A.N[f]))) for f in ('key', 'data'))
            if k is None or A.content(st, k[1]) != 'K' or k[1] == A.key:
                bad('insert', 'the new entry does not hold a copy of the key')
            if d is None or A.content(st, d[1]) != 'V' or d[1] == A.val:
                bad('insert', 'the new entry does not hold a copy of the value')
            if A.get(st, (b, Poly.c(A.N['key_compare']))) != ('p', ('kc',), ZERO):
                bad('insert', 'the new entry does not carry the comparison function of the table')
            if not st.eq0(sz - A.n0 - 1):
                bad('count', 'a new entry is not counted')
            if len(ins) != 1 or not ins[0][1] or rem or clr:
                bad('keyset', 'the key of a new entry is not entered into the key set exactly once')
            if not st.eq0(v[1] - 1):
                bad('status', 'does not report 1 for a new entry')
            if not others(None):
                bad('insert', 'another entry loses its value')
        elif seq != old:
            bad('insert', 'an entry disappears')
        elif ins or rem or clr or not st.eq0(sz - A.n0):
            bad('keyset', 'the key set or the count changes although no entry was added')
        elif hits and (A.content(st, ('dt', hits[0])) == 'V' or not failed(st)):
            b = hits[0]
            if A.content(st, ('dt', b)) != 'V':
                bad('replace', 'the value of a key that is present is not replaced')
            if A.content(st, A.val) != ('D', b):
                bad('replace', 'the replaced value is not handed back')
            if not others(b):
                bad('replace', 'another entry loses its value')
            if not st.eq0(v[1] + 1):
                bad('status', 'does not report -1 for a replaced value')
        elif failed(st):
            if not st.eq0(v[1]):
                bad('status', 'does not report 0 although nothing was stored')
            if not others(None):
                bad('insert', 'a failed insertion changes a value')
        else:
            bad('insert', 'returns without having stored the value')
    elif n in ('hashtable_lookup', 'hashtable_lookup_entry'):
        if not unchanged or not others(None):
            bad('query', 'a lookup changes the table')
        if n.endswith('entry'):
            r = st.res(v); b = None if st.nullness(r) == 'null' else r[1]
        else:
            c = A.content(st, A.val)
            b = c[1] if isinstance(c, tuple) and c[0] == 'D' else None
            if b is None and c != 'V':
                bad('lookup', 'writes something that is not the value of the key')
            if not st.eq0(v[1] - (1 if b else 0)):
                bad('status', 'the result does not tell whether the value was delivered')
        if b is None:
            if not A.entails_pred(st, ('neb', NULL)):
                bad('lookup', 'can report a key missing that has not been excluded')
        elif not (isinstance(b, tuple) and b[0] == 'nd' and A.hit(st, b)):
            bad('lookup', 'delivers an entry whose key did not compare equal')
    elif n == 'hashtable_remove':
        gone = [t for t in old if t not in seq]
        if not others(None) and not gone:
            bad('remove', 'changes a value')
        if tuple(t for t in old if t not in gone) != seq:
            bad('remove', 'the remaining entries are not in their old order')
        elif len(gone) > 1 or gone and gone[0][0] != 'n':
            bad('remove', 'removes more than one entry')
        elif gone:
            b = gone[0][1]
            if not A.hit(st, b):
                bad('remove', 'removes an entry whose key did not compare equal')
            if A.content(st, A.val) != ('D', b):
                bad('remove', 'does not hand back the value of the removed entry')
            if not st.eq0(sz - A.n0 + 1):
                bad('count', 'the entry count is not reduced by one')
            if len(rem) != 1 or not rem[0][1] or ins or clr:
                bad('keyset', 'the removed key is not taken out of the key set exactly once')
            if not st.eq0(v[1] - 1):
                bad('status', 'does not report the removal')
        else:
            if not A.entails_pred(st, ('neb', NULL)):
                bad('remove', 'can leave the entry of the key in place')
            if not unchanged or A.content(st, A.val) != 'V':
                bad('remove', 'changes something although the key was not found')
            if not st.eq0(v[1]):
                bad('status', 'reports a removal that did not happen')
    elif n == 'hashtable_empty':
        if not unchanged:
            bad('query', 'a query changes the table')
        for c, want in ((A.n0 - 1, False), (-A.n0, True)):
            x = st.copy(); x.add_ge(c)
            if not entails(list(x.facts), Poly.c(-1)) and not (x.ne0(v[1]) if want else x.eq0(v[1])):
                bad('status', 'must return non-zero exactly for an empty table')
    elif n == 'hashtable_size':
        if not unchanged or not st.eq0(v[1] - A.n0):
            bad('status', 'does not return the number of entries')
    A.leak_check(fn, st, seq, fn.blocks[0].insts[0])


def clear_spec(A, R, fn, st, v, path, destroy):
    n = fn.name; w = fn.loc()

    def bad(rule, msg):
        R.violation(rule, w, '%s: %s' % (n, msg), key='%s|%s|%s' % (rule, n, msg[:60]), path=path)
    R.add('contract_obligations')
    rel = {k: st.reg[b].freed for k, b in (('table', A.T), ('key set', A.K), ('table header', A.H))}
    if failed(st):
        if not st.eq0(v[1]):
            bad('status', 'does not report that nothing was released')
        if any(rel.values()):
            bad('clear', 'releases part of the table and reports failure')
        return
    if destroy:
        for k, f in rel.items():
            if not f:
                bad('leak', 'the %s is not released' % k)
    else:
        if any(rel.values()):
            bad('clear', 'releases the table itself')
        if not ('setclear',) in st.log or not st.eq0(A.ksz(st, None)):
            bad('keyset', 'keys remain in the key set')
        if not st.eq0(A.get(st, (A.H, A.ho('size')))[1]):
            bad('count', 'the entry count is not reset')
    if not st.ne0(v[1]):
        bad('status', 'does not report success')
    vis = st.heap[('vis',)][ZERO][0][1]
    if A.irregular or not any(e[0] == 'setval' for e in st.log) and st.eq0(vis) and not st.eq0(A.n0) and not A.undec and False:
        A.undec.add('%s does not go through the key set in order' % n)
    elif not st.ge(vis - A.n0):
        if A.undec:
            return
        bad('clear', 'can leave out keys of the key set')


def init_spec(A, R, prog, fn, res):
    for st, v in res:
        v = st.res(v); R.add('contract_obligations'); path = ['%s branch %s' % (t[0], t[1]) for t in st.trace]
        live = [b for b, r in st.reg.items() if isinstance(b, tuple) and (b[0] == 'alloc' or b == ('NK',)) and not r.freed and r.kind == 'heap']

        def bad(rule, msg):
            R.violation(rule, fn.loc(), '%s: %s' % (fn.name, msg), key='%s|%s|%s' % (rule, fn.name, msg[:60]), path=path)
        if is_null(v) or st.nul.get(v[1]) == 'null':
            if not failed(st):
                bad('init', 'refuses to create a table')
            if live:
                bad('leak', 'memory is lost when creation fails')
            continue
        if failed(st):
            bad('init', 'delivers a table although an allocation failed'); continue
        g = lambda f: A.get(st, (v[1], A.ho(f)))
        nb, tb = g('buckets'), g('table')
        if nb is None or nb[0] != 'i' or not st.ge(nb[1] - 1):
            bad('init', 'can create a table without buckets')
        r = st.reg.get(tb[1]) if tb and tb[0] == 'p' else None
        if r is None or r.size is None or nb is None or not st.ge(r.size - nb[1] * 8):
            bad('init', 'the bucket array is smaller than the number of buckets')
        elif r.default != 'zero' or st.heap.get(tb[1]):
            bad('init', 'buckets do not start out empty')
        for f in ('size', 'collisions'):
            if g(f) is None or g(f)[0] != 'i' or not st.eq0(g(f)[1]):
                bad('init', '%s does not start at 0' % f)
        args = A.iargs
        for f, k in (('ktype', 1), ('dtype', 2)):
            if g(f) is None or g(f)[0] != 'i' or not st.eq0(g(f)[1] - args[k][1]):
                bad('init', '%s is not the type asked for' % f)
        if g('key_compare') is None or g('key_compare') != st.res(args[3]):
            bad('init', 'the comparison function is not the one given')
        si = [e for e in st.log if e[0] == 'setinit']
        if g('keys') is None or g('keys')[1] != ('NK',) or len(si) != 1 or not st.eq0(aspoly(si[0][1]) - A.hts(args[1])) or st.res(si[0][2]) != st.res(args[3]):
            bad('init', 'the key set is not one of keys of the key type ordered by the given comparison')


OPS = ['hashtable_insert', 'hashtable_lookup', 'hashtable_lookup_entry', 'hashtable_remove', 'hashtable_empty', 'hashtable_size']


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('collections', cfg)
        for name in OPS + ['hashtable_clear', 'hashtable_destroy', 'hashtable_init_size']:
            fn = prog.fns.get(name)
            if fn is None or fn.decl:
                if name == 'hashtable_lookup_entry':
                    continue            # internal helper
                raise AnalysisBroken('%s not found' % name)
            A = HTAI(prog); A.MAXP = 64
            if name.endswith('init_size'):
                st = State(); A.H = None; A.T = A.K = None; A.key = A.val = A.kd = A.vd = None
                A.ks = A.ds = A.step_sz = ONE; st.ghost['c'] = {}
                A.headloc = (('none',), ZERO); A.tailloc = A.sizeloc = None; st.ghost['items'] = (); st.ghost['len'] = ZERO
                args = [A.arg_value(st, fn, k) for k in range(len(fn.args))]
                A.iargs = args
                outs = A.run(fn, st, args)
                R.add('operations'); R.add('abstract_exits', len(outs))
                init_spec(A, R, prog, fn, outs)
            else:
                A.typical = name in ('hashtable_clear', 'hashtable_destroy'); A.noprev = A.typical
                st, args = A.setup(fn)
                if A.typical and A.kd is None:
                    raise AnalysisBroken('destructor parameters of %s not found' % name)
                outs = A.run(fn, st, args)
                R.add('operations'); R.add('abstract_exits', len(outs)); R.add('abstract_steps', A.steps)
                if not outs:
                    raise AnalysisBroken('no exit of ' + name)
                if A.typical:
                    for rs, v in outs:
                        clear_spec(A, R, fn, rs, v, ['%s branch %s' % (t[0], t[1]) for t in rs.trace], name.endswith('destroy'))
                else:
                    outs = [(x, v) for rs, v in outs for x in A.resolve_list(rs)]
                    for rs, v in outs:
                        spec(A, R, fn, rs, v, ['%s branch %s' % (t[0], t[1]) for t in rs.trace])
            for k in ('bounds', 'hash', 'iterations', 'destroys'):
                R.add(k + '_obligations', A.counts.get(k, 0)) if hasattr(A, 'counts') else None
            for f in A.findings.values():
                R.violation(f.rule, f.inst.loc(), '%s: %s' % (name, f.msg), key='%s|%s|%s' % (f.rule, name, f.inst.loc()), path=trace_path(f))
            for u in sorted(A.undec):
                R.undecided.append('%s: %s' % (name, u))
            R.samples.append('%s: %d abstract exits' % (name, len(outs)))
    R.need('shape_obligations', 15); R.need('contract_obligations', 20)
    R.assumptions += ['the key comparison is pure and keys that compare equal hash alike (P07)', 'destructors do not touch the table', 'set operations behave as decided by P03',
                      'pointer-valued keys and values when destructors are given']
