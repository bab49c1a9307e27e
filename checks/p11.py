"""Data races in parallel regions: every function the compiler outlines for a parallel region is analysed as code run
by several threads.  Each store (also those inside called functions, through effect summaries) is classified by the
object it reaches and by whether its address varies with the worksharing loop variable; a store into shared memory at
an address that is the same, or overlaps, for different iterations and is not inside a critical/atomic/single section
is a race, and so are accesses of one location under different locks and reads of elements other iterations write."""
import re
from front import build, DEFAULT, CONFIGS, AnalysisBroken, inst_operands

PURE = set('malloc calloc free printf puts putchar sqrt log pow fabs log2 exp floor ceil strlen strcmp memcmp strncmp abs isnan isinf fprintf fopen fclose fputs fwrite fread exit abort assert __assert_fail omp_get_thread_num omp_get_num_threads omp_get_max_threads omp_get_wtime time clock'.split())
WRITES0 = set('memcpy memmove memset strcpy strcat strncpy sprintf snprintf qsort realloc'.split())
INIT = re.compile(r'__kmpc_(for_static_init|dispatch_next|dispatch_init|dist_for_static)')


class Eff:
    """one access: kind 'w'/'r', root, path, deps, locks, inst, index form"""
    __slots__ = ('kind', 'root', 'path', 'deps', 'locks', 'inst', 'form', 'via')

    def __init__(s, kind, root, path, deps, locks, inst, form=None, via=()):
        s.kind, s.root, s.path, s.deps, s.locks, s.inst, s.form, s.via = kind, root, path, deps, locks, inst, form, via

    def key(s):
        return (s.root, s.path)


class Fn:
    """address analysis of one function; outlined: arguments are captured (shared) variables"""

    def __init__(s, P, f, outlined):
        s.P, s.f, s.out = P, f, outlined
        s.memo = {}; s.rm = {}
        s.alloc = {i.id: i for i in f.all_insts() if i.op == 'alloca'}
        s.tid = set(); s.last = set(); s.escaped = {}; s.stores = {}
        for i in f.all_insts():
            if i.op in ('call', 'invoke'):
                n = s.P.name(i) or ''
                for k, o in enumerate(i.ops):
                    if o.get('k') == 'i' and o['i'] in s.alloc:
                        if INIT.match(n):
                            s.tid.add(o['i'])
                            if 'static_init' in n and k == 3 or 'dispatch_next' in n and k == 2:
                                s.last.add(o['i'])
                        else:
                            s.escaped.setdefault(o['i'], []).append((i, k))
            elif i.op == 'store' and i.ops[1].get('k') == 'i' and i.ops[1]['i'] in s.alloc:
                s.stores.setdefault(i.ops[1]['i'], []).append(i)
        s.locks = s.lockflow()

    # ---- which locks are held before each instruction
    def lockflow(s):
        f = s.f
        prot = {}
        # blocks run by one thread only: guarded by the last-iteration flag
        for i in f.all_insts():
            if i.op == 'br' and len(f.blocks[i.bb].succ) == 2 and i.ops[0].get('k') == 'i':
                c = f.insts.get(i.ops[0]['i'])
                if c is not None and c.op == 'icmp' and c.ops[0].get('k') == 'i':
                    l = f.insts.get(c.ops[0]['i'])
                    if l is not None and l.op == 'load' and l.ops[0].get('k') == 'i' and l.ops[0]['i'] in s.last:
                        t = f.blocks[i.bb].succ[0 if c.d['pred'] == 'ne' else 1]
                        for b in f.rpo:
                            if f.dominates(t, b):
                                prot.setdefault(b, set()).add('last')
        IN = {0: frozenset()}; res = {}
        work = [0]
        while work:
            b = work.pop()
            cur = set(IN[b])
            for i in f.blocks[b].insts:
                res[i.id] = frozenset(cur) | frozenset(prot.get(b, ()))
                if i.op in ('call', 'invoke'):
                    n = s.P.name(i) or ''
                    if n == '__kmpc_critical' or n == '__kmpc_critical_with_hint':
                        cur.add(('crit', str(i.ops[2].get('n'))))
                    elif n == '__kmpc_end_critical':
                        cur.discard(('crit', str(i.ops[2].get('n'))))
                    elif n in ('__kmpc_single', '__kmpc_master', '__kmpc_masked', '__kmpc_ordered'):
                        cur.add(n[7:])
                    elif n in ('__kmpc_end_single', '__kmpc_end_master', '__kmpc_end_masked', '__kmpc_end_ordered'):
                        cur.discard(n[11:])
                    elif n in ('__kmpc_reduce', '__kmpc_reduce_nowait'):
                        cur.add('reduce')
                    elif n.startswith('__kmpc_end_reduce'):
                        cur.discard('reduce')
                    elif n in ('omp_set_lock', 'GOMP_critical_start'):
                        cur.add(('lock', str(s.root(i.ops[0])[:2]) if i.ops else ''))
                    elif n in ('omp_unset_lock', 'GOMP_critical_end'):
                        cur.discard(('lock', str(s.root(i.ops[0])[:2]) if i.ops else ''))
            o = frozenset(cur)
            for t in f.blocks[b].succ:
                n = o if t not in IN else IN[t] & o
                if t not in IN or n != IN[t]:
                    IN[t] = n; work.append(t)
        return res

    # ---- how a value varies between iterations / threads
    def deps(s, o, seen=frozenset()):
        k = o.get('k')
        if k == 'a':
            if s.out:
                return frozenset(['inj']) if o['i'] in (0, 1) else frozenset()
            return frozenset([('a', o['i'])])
        if k != 'i':
            return frozenset()
        i = s.f.insts[o['i']]
        if i.id in s.memo:
            return s.memo[i.id]
        if i.id in seen:
            return frozenset()
        seen = seen | {i.id}
        r = s._deps(i, seen)
        if len(seen) == 1 or i.op not in ('phi',):
            if not (seen - {i.id}):
                s.memo[i.id] = r
        return r

    def _deps(s, i, seen):
        D = lambda o: s.deps(o, seen)
        op = i.op
        if op == 'alloca':
            return frozenset()
        if op == 'load':
            a = i.ops[0]
            if a.get('k') == 'i' and a['i'] in s.alloc:
                if a['i'] in s.tid:
                    return frozenset(['inj'])
                r = set()
                for st in s.stores.get(a['i'], []):
                    r |= D(st.ops[0])
                if a['i'] in s.escaped or not s.stores.get(a['i']):
                    r.add('maybe')
                return frozenset(r)
            if a.get('k') == 'a' and s.out and a['i'] in (0, 1):
                return frozenset(['inj'])
            root = s.root(a)
            d = D(a)
            if root[0] in ('priv', 'heap'):
                return d | {'maybe'}
            return d if not d else frozenset(x if isinstance(x, tuple) else 'maybe' for x in d)
        if op == 'phi':
            f = s.f
            if i.bb in f.loops:
                body = f.loops[i.bb]
                ini = [o['v'] for o in i.ops if o.get('b', o.get('bb')) not in body]
                upd = [o['v'] for o in i.ops if o.get('b', o.get('bb')) in body]
                d0 = set(); d1 = set()
                for v in ini:
                    d0 |= D(v)
                for v in upd:
                    d1 |= D(v)
                if s.out and 'inj' in d0 and not s.is_ws(i):
                    # an inner loop that starts at a place of its own; its end decides
                    step = [s.f.insts[v['i']] for v in upd if v.get('k') == 'i']
                    if step and all(q.op == 'add' and any(o.get('k') == 'i' and o['i'] == i.id for o in q.ops) for q in step):
                        end = s.loop_end(i)
                        if end is not None and not s.deps(end, seen):
                            return frozenset(x for x in d0 | d1 if x != 'inj') | {'slide'}
                        return frozenset(['maybe'])
                return frozenset(d0 | d1)
            vals = [o['v'] for o in i.ops]
            r = set()
            for v in vals:
                r |= D(v)
            if len({str(sorted(v.items(), key=str)) for v in vals}) > 1:
                r.add('maybe')
            return frozenset(r)
        if op in ('udiv', 'sdiv', 'urem', 'srem', 'and', 'lshr', 'ashr', 'or', 'xor'):
            d = D(i.ops[0]) | D(i.ops[1])
            if op in ('or', 'xor'):
                return d
            return frozenset(('lossy', i.id) if x in ('inj', 'slide') else x for x in d)
        if op in ('icmp', 'fcmp'):
            d = D(i.ops[0]) | D(i.ops[1])
            return frozenset('maybe' if not isinstance(x, tuple) else x for x in d)
        if op in ('call', 'invoke'):
            n = s.P.name(i) or ''
            if n == 'omp_get_thread_num' or n == '__kmpc_global_thread_num':
                return frozenset(['inj'])
            r = set()
            for o in i.ops:
                r |= D(o)
            if n in ('malloc', 'calloc') or r:
                r = {x for x in r if isinstance(x, tuple)} | {'maybe'}
            return frozenset(r | (set() if n in PURE else {'maybe'}))
        r = set()
        for o in inst_operands(i):
            r |= D(o)
        if op == 'select':
            r.add('maybe') if r else None
        return frozenset(r)

    def is_ws(s, phi):
        """worksharing loop variable: starts from the bound the runtime hands out"""
        for o in phi.ops:
            v = o['v']
            if v.get('k') == 'i':
                l = s.f.insts[v['i']]
                if l.op == 'load' and l.ops[0].get('k') == 'i' and l.ops[0]['i'] in s.tid:
                    return True
        return False

    def loop_end(s, phi):
        f = s.f
        body = f.loops[phi.bb]
        for b in body:
            t = f.blocks[b].insts[-1]
            if len(f.blocks[b].succ) == 2 and any(x not in body for x in f.blocks[b].succ) and t.ops[0].get('k') == 'i':
                c = f.insts[t.ops[0]['i']]
                if c.op == 'icmp':
                    for n in (0, 1):
                        if s.mentions(c.ops[n], phi.id) and not s.mentions(c.ops[1 - n], phi.id):
                            return c.ops[1 - n]
        return None

    def mentions(s, o, pid, d=0):
        if o.get('k') != 'i' or d > 6:
            return False
        if o['i'] == pid:
            return True
        i = s.f.insts[o['i']]
        return i.op in ('add', 'sub', 'zext', 'sext', 'trunc') and any(s.mentions(q, pid, d + 1) for q in i.ops)

    # ---- the objects an address may lie in: set of (kind, id, path)
    def root(s, o):
        r = s.roots(o)
        return next(iter(r)) if len(r) == 1 else ('unk', None, '')

    def roots(s, o, seen=frozenset()):
        top = not seen and o.get('k') == 'i'
        if top and o['i'] in s.rm:
            return s.rm[o['i']]
        r = s._roots(o, seen)
        r = {x for x in r if x[0] not in ('rec', 'null')} or r
        m = {}
        for x in r:
            m.setdefault(x[:2], []).append(x[2])
        out = set()
        for k, ps in m.items():
            if len(ps) > 4 or k[0] == 'unk':
                q = min(ps, key=len)
                out.add(k + ((q.rstrip('[]') + '[]') if k[0] != 'unk' else '',))
            else:
                out |= {k + (q[:60],) for q in ps}
        r = frozenset(out)
        if top:
            s.rm[o['i']] = r
        return r

    def _roots(s, o, seen):
        k = o.get('k')
        if k == 'a':
            return {('arg', o['i'], '')}
        if k == 'gep':
            return {(r[0], r[1], r[2] + ('+%s' % o['off'] if o.get('off') else '')) for r in s.roots(o['base'], seen)}
        if k != 'i':
            return {('null' if k == 'null' else 'glob' if 'n' in o and k != 'fn' else 'unk', o.get('n'), '')}
        i = s.f.insts[o['i']]
        if i.id in seen:
            return {('rec', None, '')}
        seen = seen | {i.id}
        R = lambda q: s.roots(q, seen)
        if i.op == 'alloca':
            return {('priv', i.id, '')}
        if i.op == 'getelementptr':
            suf = '[]' if i.d.get('vars') else '+%d' % i.d['off'] if i.d['off'] else ''
            return {(r[0], r[1], r[2] + suf) for r in R(i.ops[0])}
        if i.op == 'load':
            a = i.ops[0]
            if a.get('k') == 'i' and a['i'] in s.alloc:
                rs = set()
                for st in s.stores.get(a['i'], []):
                    rs |= R(st.ops[0])
                for c, n in s.escaped.get(a['i'], []):
                    rs |= s.content(c, n, seen)
                return rs or {('unk', None, '')}
            return {(r[0], r[1], r[2] + '*') for r in R(a)}
        if i.op in ('phi', 'select'):
            rs = set()
            for v in [q['v'] for q in i.ops] if i.op == 'phi' else i.ops[1:]:
                rs |= R(v)
            b = {}
            for r in rs:
                b.setdefault(r[:2], set()).add(r[2])
            out = set()
            rec = any(r[0] == 'rec' for r in rs)
            for q, ps in b.items():
                if q[0] in ('arg', 'heap', 'priv', 'glob') and (rec or len(ps) > 1):
                    out.add(q + (min(ps, key=len).rstrip('[]') + '[]',))
                else:
                    out |= {q + (x,) for x in ps}
            if len(out) > 1:
                out = {x for x in out if x[0] not in ('null', 'rec')} or out
            return out
        if i.op in ('call', 'invoke'):
            n = s.P.name(i) or ''
            if n == 'realloc':
                return {('heap', i.id, '')} | R(i.ops[0])
            if n in ('malloc', 'calloc') or s.P.fresh(n):
                return {('heap', i.id, '')}
            rs = set()
            for t in s.P.returns(n):
                if t[0] == 'arg' and t[1] < len(i.ops):
                    rs |= {(r[0], r[1], r[2] + t[2]) for r in R(i.ops[t[1]])}
                elif t[0] == 'heap':
                    rs.add(('heap', i.id, ''))
                else:
                    rs.add(t)
            return rs or {('unk', None, '')}
        if i.op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze'):
            return R(i.ops[0])
        return {('unk', None, '')}

    def held(s, aid):
        rs = set()
        for st in s.stores.get(aid, []):
            rs |= s.roots(st.ops[0])
        for c, n in s.escaped.get(aid, []):
            rs |= s.content(c, n, frozenset([aid]))
        return rs

    def content(s, c, n, seen):
        """what a local handed to a call by address may hold afterwards"""
        nm = s.P.name(c) or ''
        if nm in PURE or nm.startswith('__kmpc') or nm.startswith('llvm.dbg'):
            return set()
        if nm.startswith('llvm.memcpy') or nm in ('memcpy', 'memmove') or nm.startswith('llvm.memmove'):
            if n == 1:
                return set()
            return {(r[0], r[1], r[2] + '*') for r in s.roots(c.ops[1], seen)} if n == 0 else set()
        if nm.startswith('llvm.memset'):
            return set()
        out = set()
        w = s.P.wrote(nm, n)
        if w is None:
            return {('unk', None, '')}
        for t in w:
            if t[0] == 'arg' and t[1] < len(c.ops):
                if t[1] == n:
                    continue
                out |= {(r[0], r[1], r[2] + t[2]) for r in s.roots(c.ops[t[1]], seen)}
            elif t[0] == 'heap':
                out.add(('heap', c.id, ''))
            elif t[0] not in ('null', 'rec', 'priv'):
                out.add(t)
        return out

    # ---- linear index form of an address for same-array read/write comparison
    def form(s, o):
        """{atom: coefficient}, const ; None when not linear"""
        if o.get('k') == 'i':
            i = s.f.insts[o['i']]
            if i.op == 'getelementptr':
                b = s.form(i.ops[0]) or ({}, 0)
                if b is None:
                    return None
                t, c = dict(b[0]), b[1] + i.d['off']
                for v in i.d.get('vars', []):
                    l = s.lin(v['idx'])
                    for a, k in l[0].items():
                        t[a] = t.get(a, 0) + k * v['scale']
                    c += l[1] * v['scale']
                return {a: k for a, k in t.items() if k}, c
        return {}, 0

    def lin(s, o, d=0):
        if o.get('k') in ('c', 'int', 'const') or 'v' in o and isinstance(o.get('v'), (int, str)) and o.get('k') != 'i':
            try:
                return {}, int(o['v'])
            except Exception:
                return {('c', str(o)): 1}, 0
        if o.get('k') == 'i' and d < 20:
            i = s.f.insts[o['i']]
            if i.op in ('zext', 'sext', 'trunc'):
                return s.lin(i.ops[0], d + 1)
            if i.op in ('add', 'sub'):
                a, b = s.lin(i.ops[0], d + 1), s.lin(i.ops[1], d + 1)
                k = 1 if i.op == 'add' else -1
                t = dict(a[0])
                for x, c in b[0].items():
                    t[x] = t.get(x, 0) + k * c
                return {x: c for x, c in t.items() if c}, a[1] + k * b[1]
            if i.op == 'mul':
                a, b = s.lin(i.ops[0], d + 1), s.lin(i.ops[1], d + 1)
                if not b[0]:
                    a, b = b, a
                if not a[0]:
                    return {x: c * a[1] for x, c in b[0].items() if c * a[1]}, b[1] * a[1]
            if i.op == 'load':
                r = s.root(i.ops[0])
                return {('ld',) + r: 1}, 0
            return {('i', i.id): 1}, 0
        return {('o', str(sorted(o.items(), key=str))): 1}, 0


class Prog:
    def __init__(s, prog):
        s.p = prog; s.eff = {}; s.an = {}; s._fresh = {}; s._ret = {}; s._wr = {}

    def name(s, i):
        c = i.d['callee']
        return c['n'] if c.get('k') == 'fn' else None

    def fresh(s, n):
        """does the function hand back memory it has just allocated?"""
        if n in s._fresh:
            return s._fresh[n]
        f = s.p.fns.get(n)
        s._fresh[n] = False
        if f is None or f.decl or f.ret != 'ptr':
            return False
        ok = True; any_ = False
        A = s.fn(f)
        for i in f.all_insts():
            if i.op == 'ret' and i.ops:
                st = [i.ops[0]]; seen = set()
                while st:
                    o = st.pop()
                    if o.get('k') == 'i' and o['i'] not in seen:
                        seen.add(o['i']); q = f.insts[o['i']]
                        if q.op in ('phi', 'select'):
                            st += [x['v'] for x in q.ops] if q.op == 'phi' else q.ops[1:]
                        elif q.op == 'call' and (s.name(q) in ('malloc', 'calloc') or s.fresh(s.name(q))):
                            any_ = True
                        else:
                            ok = False
                    elif o.get('k') == 'a':
                        ok = False
        s._fresh[n] = ok and any_
        return s._fresh[n]

    def returns(s, n):
        """what the pointer a function returns may point into, in terms of its arguments"""
        if n in s._ret:
            return s._ret[n]
        s._ret[n] = {('unk', None, '')}
        f = s.p.fns.get(n)
        if f is None or f.decl or f.ret != 'ptr':
            return s._ret[n]
        A = s.fn(f); out = set()
        for i in f.all_insts():
            if i.op == 'ret' and i.ops:
                out |= {r for r in A.roots(i.ops[0]) if r[0] not in ('null', 'rec')}
        s._ret[n] = {('unk', None, '') if r[0] == 'priv' else r for r in out} or {('unk', None, '')}
        return s._ret[n]

    def wrote(s, n, k):
        """pointers a function may leave in the memory its argument k points to; None when unknown"""
        if (n, k) in s._wr:
            return s._wr[n, k]
        s._wr[n, k] = set()
        f = s.p.fns.get(n)
        if f is None or f.decl:
            s._wr[n, k] = None
            return None
        A = s.fn(f); out = set()
        for i in f.all_insts():
            if i.op == 'store':
                if any(r[:2] == ('arg', k) and '*' not in r[2] for r in A.roots(i.ops[1])) and i.d.get('vty') == 'ptr':
                    out |= A.roots(i.ops[0])
            elif i.op in ('call', 'invoke'):
                for j, o in enumerate(i.ops):
                    if o.get('k') in ('a', 'i') and any(r[:2] == ('arg', k) and '*' not in r[2] for r in A.roots(o)):
                        q = s.name(i)
                        if q is None:
                            continue        # comparison callbacks read only
                        out |= A.content(i, j, frozenset())
        s._wr[n, k] = {r for r in out if r[0] not in ('null', 'rec')}
        return s._wr[n, k]

    def fn(s, f, outlined=False):
        if f.name not in s.an:
            s.an[f.name] = Fn(s, f, outlined)
        return s.an[f.name]

    def effects(s, name, outlined=False, stack=()):
        """accesses of a function to memory its caller can see, deps in terms of its arguments"""
        if name in s.eff:
            return s.eff[name]
        f = s.p.fns.get(name)
        if f is None or f.decl or name in stack:
            return []
        A = s.fn(f, outlined)
        out = {}

        def put(e):
            k = (e.kind, e.root, e.path, e.deps, e.locks, e.inst.loc() if outlined else '')
            out.setdefault(k, e)
        for i in f.all_insts():
            lk = A.locks.get(i.id)
            if lk is None:
                continue
            if i.op in ('store', 'load'):
                a = i.ops[1] if i.op == 'store' else i.ops[0]
                if i.d.get('atomic'):
                    lk = lk | {'atomic'}
                for r in A.roots(a):
                    if r[0] not in ('priv', 'heap', 'null', 'rec'):
                        put(Eff('w' if i.op == 'store' else 'r', r[:2], r[2], A.deps(a), lk, i, A.form(a)))
            elif i.op in ('atomicrmw', 'cmpxchg'):
                r = A.root(i.ops[0])
                put(Eff('w', r[:2], r[2], A.deps(i.ops[0]), lk | {'atomic'}, i))
            elif i.op in ('call', 'invoke'):
                n = s.name(i)
                if n is None or n.startswith('__kmpc') or n.startswith('llvm.dbg'):
                    continue
                g = s.p.fns.get(n)
                if n in PURE:
                    continue
                b = n[5:].split('.')[0] if n.startswith('llvm.') else n
                if b in WRITES0:
                    for r in A.roots(i.ops[0]):
                        if r[0] not in ('priv', 'heap', 'null', 'rec'):
                            put(Eff('w', r[:2], r[2] + '[]', A.deps(i.ops[0]), lk, i, None, (n,)))
                    for r in A.roots(i.ops[1]) if b in ('memcpy', 'memmove', 'strcpy') else ():
                        if r[0] not in ('priv', 'heap', 'null', 'rec'):
                            put(Eff('r', r[:2], r[2] + '[]', A.deps(i.ops[1]), lk, i, None, (n,)))
                    continue
                if g is None or g.decl:
                    continue
                for e in s.effects(n, False, stack + (name,)):
                    if e.root[0] == 'arg':
                        if e.root[1] >= len(i.ops):
                            continue
                        act = i.ops[e.root[1]]
                        d = set()
                        for x in e.deps:
                            if isinstance(x, tuple) and x[0] == 'a':
                                if x[1] < len(i.ops):
                                    d |= A.deps(i.ops[x[1]])
                            else:
                                d.add(x)
                        for r in A.roots(act):
                            if r[0] in ('heap', 'null', 'rec') or r[0] == 'priv' and '*' not in e.path:
                                continue
                            p2 = r[2] + e.path
                            if r[0] == 'priv':
                                for r2 in A.held(r[1]):
                                    if r2[0] not in ('heap', 'null', 'rec', 'priv'):
                                        put(Eff(e.kind, r2[:2], (r2[2] + e.path.split('*', 1)[1])[:60] if r2[0] != 'unk' else '', frozenset(d), lk | e.locks, i, None, (n,) + e.via))
                                continue
                            put(Eff(e.kind, r[:2], p2[:60] if r[0] != 'unk' else '', frozenset(d), lk | e.locks, i, None, (n,) + e.via))
                    else:
                        d = set()
                        for x in e.deps:
                            if isinstance(x, tuple) and x[0] == 'a':
                                d |= A.deps(i.ops[x[1]]) if x[1] < len(i.ops) else set()
                            else:
                                d.add(x)
                        put(Eff(e.kind, e.root, e.path, frozenset(d), lk | e.locks, i, None, (n,) + e.via))
        s.eff[name] = list(out.values()) if outlined else collapse(out.values())
        return s.eff[name]


def collapse(es):
    d = {}
    for e in es:
        d.setdefault((e.kind, e.root, e.path, e.deps, e.locks), e)
    return list(d.values())


ONE = {'last', 'single', 'master', 'masked', 'ordered', 'reduce'}


def same_object(a, b):
    return a.root == b.root and a.path.rstrip('[]') == b.path.rstrip('[]')


def what(f, e):
    if e.root[0] == 'arg':
        n = f.args[e.root[1]]['name'] if e.root[1] < len(f.args) else '?'
        return n if e.path == '' else 'memory reached from ' + n
    if e.root[0] == 'glob':
        return 'the global ' + str(e.root[1])
    return 'shared memory'


def guarded(A, inst, ws):
    """is the instruction executed only under a condition that depends on this iteration?"""
    f = A.f
    for b in f.rpo:
        t = f.blocks[b].insts[-1]
        if b in ws or len(set(f.blocks[b].succ)) < 2 or not t.ops or t.ops[0].get('k') != 'i':
            continue
        dom = [x for x in f.blocks[b].succ if f.dominates(x, inst.bb) and f.blocks[x].pred == [b]]
        if dom and any(b in body for h, body in f.loops.items() if h in ws) and A.deps(t.ops[0]):
            return True
    return False


def judge(R, PG, f):
    PG.an.pop(f.name, None); PG.eff.pop(f.name, None)
    es = PG.effects(f.name, True)
    A = PG.an[f.name]
    R.add('parallel_regions')
    reg = f.srcname if 'outlined' not in f.srcname else f.name.split('.omp_outlined')[0]
    ws = {i.bb for b in f.loops for i in f.blocks[b].insts if i.op == 'phi' and A.is_ws(i)}
    W = [e for e in es if e.kind == 'w']; Rd = [e for e in es if e.kind == 'r']

    def bad(rule, e, msg):
        R.violation(rule, e.inst.loc(), 'parallel loop in %s: %s' % (reg, msg), key='%s|%s|%s' % (rule, reg, msg[:60]),
                    path=['%s of %s%s' % ('write' if e.kind == 'w' else 'read', what(f, e), ' through ' + ' > '.join(e.via) if e.via else '')])
    for e in W:
        R.add('shared_stores')
        if e.locks:
            continue
        if e.root[0] == 'unk':
            R.undecided.append('%s: %s target' % (reg, e.inst.loc())); continue
        d = {x for x in e.deps}
        if 'inj' in d or 'maybe' in d:
            if 'inj' not in d:
                R.add('assumed_distinct')
            continue
        lossy = {x for x in d if isinstance(x, tuple) and x[0] == 'lossy'}
        v = ' (through %s)' % e.via[0] if e.via else ''
        if len(lossy) > 1:
            R.undecided.append('%s: %s several divided indices' % (reg, e.inst.loc()))
        elif lossy:
            bad('race', e, 'iterations sharing the same quotient or remainder of the loop variable write the same element of %s%s' % (what(f, e), v))
        elif 'slide' in d:
            bad('race', e, 'iterations write overlapping ranges of %s%s' % (what(f, e), v))
        elif (e.via and '[]' in e.path[:-2] or e.form is not None and e.form[0]) and guarded(A, e.inst, ws):
            # an element chosen by an inner loop, written only under a condition of this iteration
            R.undecided.append('%s: %s element written under a condition of the iteration' % (reg, e.inst.loc()))
        else:
            bad('race', e, 'every iteration writes %s%s without synchronisation' % (what(f, e), v))
    # locations protected at one place only
    for e in W:
        if not e.locks or e.locks & ONE or {'inj', 'maybe', 'slide'} & e.deps or e.root[0] == 'unk':
            continue
        for x in es:
            if x is e or not same_object(e, x) or {'inj', 'maybe', 'slide'} & x.deps:
                continue
            R.add('lock_pairs')
            if not (x.locks & e.locks) and not x.locks & ONE:
                bad('lock', x, '%s is %s without the lock under which it is written' % (what(f, e), 'read' if x.kind == 'r' else 'written'))
    # elements other iterations write
    ws = [i for b in f.loops for i in f.blocks[b].insts if i.op == 'phi' and A.is_ws(i)]
    iv = {('i', i.id) for i in ws}
    for e in W:
        if e.locks or not e.form or 'inj' not in e.deps:
            continue
        ce = {a: k for a, k in e.form[0].items() if a in iv}
        if len(ce) != 1 or not iv:
            continue
        (a, k), = ce.items()
        for x in Rd:
            if not same_object(e, x) or x.locks:
                continue
            R.add('element_pairs')
            if x.form is None:
                if not x.deps:
                    bad('neighbour', x, 'elements of %s that other iterations write are read' % what(f, e))
                continue
            t = dict(e.form[0])
            for q, c in x.form[0].items():
                t[q] = t.get(q, 0) - c
            t = {q: c for q, c in t.items() if c}
            d = e.form[1] - x.form[1]
            if not t and d and d % k == 0:
                bad('neighbour', x, 'an iteration reads an element of %s that another iteration writes' % what(f, e))
            elif not x.deps and x.path.endswith('[]') and x.form[0] and not (set(x.form[0]) & iv):
                bad('neighbour', x, 'elements of %s that other iterations write are read' % what(f, e))


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        seen = set()
        for group in ('corecpp', 'jni'):
            prog = build(group, cfg, openmp=True)
            PG = Prog(prog)
            for f in prog.defined():
                if 'omp_outlined' in f.name and not (f.name + '_debug__' in prog.fns) and len(f.blocks) > 1:
                    k = (f.name, f.loc())
                    if k not in seen:
                        seen.add(k); judge(R, PG, f)
    R.add('parallel_directives_seen', 0)
    R.assumptions += ['element comparison callbacks and logging are free of shared state', 'pointers and point numbers stored at different positions of a list or set are distinct (deep writes through them are counted as assumed_distinct)']
