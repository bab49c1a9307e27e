"""Ownership interpreter: functions are interpreted over abstract storage (one object per place of allocation and call path,
a second one standing for all the earlier objects of the same place), inlining callees, with the containers' operations as
events.  Kept apart are: which object a variable, member or container element may refer to, whether an object is allocated or
released, and which members were written.  Every allocation may fail."""
from front import *

NULL = ('n',)
TOP = ('u',)


def is_null(v):
    return v[0] == 'n'


class Obj:
    __slots__ = ('kind', 'st', 'f', 'el', 'dflt', 'multi', 'orig', 'site', 'arr', 'opt', 'ty', 'own', 'wr')

    def __init__(s, kind, st='live', dflt='undef', site=None):
        s.kind = kind           # heap, list, table, stack, in, glob
        s.st = st               # live, freed, maybe (no claim), in
        s.f = {}; s.el = frozenset(); s.dflt = dflt; s.multi = False; s.orig = None; s.site = site; s.arr = False; s.opt = False; s.ty = None; s.own = False; s.wr = frozenset()

    def copy(s):
        o = Obj(s.kind, s.st, s.dflt, s.site)
        o.f = dict(s.f); o.el = s.el; o.multi = s.multi; o.orig = s.orig; o.arr = s.arr; o.opt = s.opt; o.ty = s.ty; o.own = s.own; o.wr = s.wr
        return o

    def key(s):
        return (s.kind, s.st, s.dflt, s.multi, s.orig, s.arr, s.el, frozenset(s.f.items()))


class St:
    __slots__ = ('env', 'frames', 'heap', 'facts', 'fail', 'trace')

    def __init__(s):
        s.env = {}; s.frames = (); s.heap = {}; s.facts = {}; s.fail = None; s.trace = ()

    def copy(s):
        t = St()
        t.env = dict(s.env); t.frames = s.frames; t.heap = dict(s.heap); t.facts = dict(s.facts); t.fail = s.fail; t.trace = s.trace
        return t

    def mod(s, oid):
        o = s.heap[oid].copy()
        s.heap[oid] = o
        return o


def has_sym(v, sym):
    if v == sym:
        return True
    return isinstance(v, tuple) and any(has_sym(x, sym) for x in v if isinstance(x, tuple))


ALLOC_LIST = {'array_list_init': 'list', 'ptr_array_list_init': 'list', 'set_init': 'list', 'hashtable_init': 'table', 'hashtable_init_size': 'table',
              'linkedlist_init': 'list', 'int_array_list_init': 'list'}
PURE = {'logger_write', 'logger_init', 'logger_close', 'printf', 'puts', 'putchar', 'fprintf', 'snprintf', 'sprintf', 'fputs', 'fclose', 'fwrite', 'fputc', 'time', 'qsort', 'strcpy', 'strcat', 'strlen',
        'strncpy', 'sprintf', 'localtime', 'strftime', 'fflush'}


class Budget(Exception):
    pass


class Own:
    MAXFAIL = 1

    def __init__(s, prog):
        s.prog = prog
        s.found = {}            # (rule, fn, inst id) -> (rule, inst, msg, trace)
        s.cov = {}
        s.und = {}
        s.stack = []
        s._live = {}; s._needs = {}; s._cnt = {}
        s.depth = 0
        s.fails = True
        s.sizes = {}; s.failing = set()
        s.steps = 0
        s.limit = 10 ** 9

    def count(s, k, n=1):
        s.cov[k] = s.cov.get(k, 0) + n

    def report(s, rule, inst, msg, st=None):
        k = (rule, inst.fn.name if inst is not None else '', inst.id if inst is not None else 0, msg if inst is None else '')
        if k not in s.found:
            s.found[k] = (rule, inst, msg, list(st.trace) if st is not None else [], list(s.stack))

    # ---- static facts
    def live(s, fn):
        """block -> values needed on entry (phi operands counted at the end of the predecessor)"""
        if fn.name in s._live:
            return s._live[fn.name]
        use = {}; dfn = {}; out_phi = {}
        for b in fn.blocks:
            u = set(); d = set()
            for i in b.insts:
                if i.op == 'phi':
                    for o in i.ops:
                        for x in s.refs(o['v']):
                            out_phi.setdefault(o['b'], set()).add(x)
                    d.add(i.id); continue
                for o in inst_operands(i):
                    if o.get('k') == 'i' and o['i'] not in d:
                        u.add(o['i'])
                d.add(i.id)
            use[b.id] = u; dfn[b.id] = d
        inn = {b.id: set() for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.rpo):
                o = set(out_phi.get(b, ()))
                for t in fn.blocks[b].succ:
                    o |= inn[t]
                n = use[b] | (o - dfn[b])
                if n != inn[b]:
                    inn[b] = n; ch = True
        s._live[fn.name] = inn
        return inn

    def refs(s, o):
        st = [o]; out = []
        while st:
            x = st.pop()
            if x.get('k') == 'i':
                out.append(x['i'])
            elif x.get('k') == 'gep':
                st.append(x['base'])
            elif x.get('k') == 'ce':
                st += x['ops']
        return out

    def needs(s, name, k, d=0):
        """the function uses its k-th argument without asking whether it is NULL"""
        if (name, k) in s._needs:
            return s._needs[(name, k)]
        s._needs[(name, k)] = False
        fn = s.prog.fns.get(name)
        if fn is None or fn.decl:
            return False
        ders = {k}
        al = {('a', k)}
        ch = True
        while ch:
            ch = False
            for i in fn.all_insts():
                if i.op in ('getelementptr', 'bitcast') and ('i', i.id) not in al and s.okey(i.ops[0]) in al:
                    al.add(('i', i.id)); ch = True
        tests = []
        for b in fn.blocks:
            t = b.insts[-1] if b.insts else None
            if t is not None and t.op == 'br' and len(b.succ) == 2:
                c = t.ops[0]
                ci = fn.insts.get(c.get('i')) if c.get('k') == 'i' else None
                if ci is not None and ci.op == 'icmp' and ci.d['pred'] in ('eq', 'ne'):
                    a, z = ci.ops
                    if z.get('k') == 'null' and s.okey(a) == ('a', k) or a.get('k') == 'null' and s.okey(z) == ('a', k):
                        tests.append((b, ci.d['pred']))
        res = False
        for i in fn.all_insts():
            hit = False
            if i.op == 'load' and s.okey(i.ops[0]) in al or i.op == 'store' and s.okey(i.ops[1]) in al:
                hit = True
            elif i.op in ('call', 'invoke') and i.d['callee'].get('k') == 'fn':
                for j, o in enumerate(i.ops):
                    if s.okey(o) == ('a', k) and (i.d['callee']['n'] in ('memcpy', 'memmove', 'memset', 'llvm.memcpy.p0.p0.i64') or s.needs(i.d['callee']['n'], j, d + 1)):
                        hit = True
            if hit and not s.guarded(fn, i, tests):
                res = True; break
        s._needs[(name, k)] = res
        return res

    def guarded(s, fn, i, tests):
        for b, pred in tests:
            succ = s.true_false(b)
            nn = succ[0] if pred == 'ne' else succ[1]
            if fn.dominates(nn, i.bb) and fn.blocks[nn].pred == [b.id]:
                return True
        return False

    def true_false(s, b):
        return s.brsucc(b.insts[-1])

    @staticmethod
    def okey(o):
        return (o.get('k'), o.get('i')) if o.get('k') in ('i', 'a') else None

    def brsucc(s, t):
        """targets (true, false) of a conditional branch"""
        b = t.fn.blocks[t.bb]
        bs = [o['i'] for o in t.ops if o.get('k') == 'b']
        # operands of a br are (cond, false, true)
        if len(bs) == 2:
            return bs[1], bs[0]
        return b.succ[0], b.succ[1]

    def counted(s, fn, H, e):
        """how a loop that is left from block e walks: 'full' (from 0, by 1, up to a bound), 'partial' or None"""
        k = (fn.name, H, e)
        if k in s._cnt:
            return s._cnt[k]
        r = None
        t = fn.blocks[e].insts[-1]
        if t.op == 'br' and t.ops and t.ops[0].get('k') == 'i':
            ci = fn.insts[t.ops[0]['i']]
            if ci.op == 'icmp':
                def strip(o):
                    while o.get('k') == 'i' and fn.insts[o['i']].op in ('zext', 'sext', 'trunc'):
                        o = fn.insts[o['i']].ops[0]
                    return o
                for x, y in ((0, 1), (1, 0)):
                    o = strip(ci.ops[x])
                    if o.get('k') != 'i':
                        continue
                    p = fn.insts[o['i']]
                    past = False
                    if p.op == 'add':               # tested after the step
                        q = strip(p.ops[0])
                        if q.get('k') == 'i' and fn.insts[q['i']].op == 'phi' and fn.insts[q['i']].bb == H:
                            p = fn.insts[q['i']]; past = True
                    if p.op != 'phi' or p.bb != H:
                        continue
                    body = fn.loops.get(H, ())
                    init = [z['v'] for z in p.ops if z['b'] not in body]; step = [z['v'] for z in p.ops if z['b'] in body]
                    if len(init) != 1:
                        continue
                    ok = True
                    for z in step:
                        z = strip(z)
                        si = fn.insts.get(z.get('i')) if z.get('k') == 'i' else None
                        if si is None or si.op != 'add' or strip(si.ops[0]) != {'k': 'i', 'i': p.id} or si.ops[1].get('v') != 1:
                            ok = False
                    if not ok:
                        continue
                    bnd = strip(ci.ops[y])
                    if init[0].get('k') == 'c':
                        r = 'full' if init[0]['v'] == 0 else 'partial'
                        bi = fn.insts.get(bnd.get('i')) if bnd.get('k') == 'i' else None
                        if bi is not None and (bi.op == 'sub' or bi.op == 'add' and bi.ops[1].get('v', 0) < 0 or bi.op in ('udiv', 'lshr')):
                            r = 'partial'
        s._cnt[k] = r
        return r

    # ---- values
    def sym(s, st, inst):
        y = ('s', ('i', inst.fn.name, inst.id))
        s.kill(st, y)
        return y

    def kill(s, st, y):
        if st.facts:
            bad = [k for k in st.facts if has_sym(k, y)]
            for k in bad:
                del st.facts[k]

    def val(s, st, args, o):
        k = o.get('k')
        if k == 'i':
            return st.env.get(o['i'], TOP)
        if k == 'a':
            return args[o['i']]
        if k == 'c':
            return ('c', o['v'])
        if k == 'null':
            return NULL
        if k == 'undef':
            return ('x',)
        if k == 'fn':
            return ('f', o['n'])
        if k == 'g':
            return ('p', ('g', o['n']), 0)
        if k == 'gep':
            b = s.val(st, args, o['base'])
            return s.gep(b, o['off'], not o['vars'])
        if k == 'f':
            return ('fc', o['v'])
        return TOP

    def gep(s, b, off, exact):
        if b[0] == 'p':
            return ('p', b[1], b[2] + off if exact and b[2] is not None else None)
        return b

    # ---- objects
    def obj(s, st, oid):
        o = st.heap.get(oid)
        if o is None:
            if oid[0] == 'g':
                o = Obj('glob', 'in', 'top')
            else:
                o = Obj('heap', 'maybe', 'top')
            st.heap[oid] = o
        return o

    def base_status(s, st, oid):
        """status of the object, for the parts of a container that of the container"""
        while oid[0] in ('d', 'k'):
            oid = oid[1]
        return s.obj(st, oid).st

    def size_bases(s, st, inst):
        """numbers that the size asked for is a multiple of"""
        out = set()
        args = args_of(st)

        def walk(o, d=0):
            i = inst.fn.insts.get(o.get('i')) if o.get('k') == 'i' else None
            v = s.val(st, args, o)
            if v[0] == 's':
                out.add(v)
            if i is not None and d < 6 and i.op in ('mul', 'shl', 'zext', 'sext', 'trunc'):
                for q in i.ops[:2]:
                    walk(q, d + 1)
        if inst.op in ('call', 'invoke') and inst.d['callee'].get('n') in ('malloc', 'calloc', '_Znam', '_Znwm'):
            for o in inst.ops[:2]:
                if o.get('k') in ('i', 'a'):
                    walk(o)
        return out

    def alloc(s, st, inst, kind, dflt, fallible=True):
        """states after an allocation: (state, value)"""
        site = (tuple(s.stack), inst.fn.name, inst.id)
        n, o = ('n', site), ('o', site)
        s.count('allocations')
        out = []
        if fallible and s.fails and (st.fail or 0) < s.MAXFAIL:
            t = st.copy(); t.fail = (t.fail or 0) + 1
            t.trace = t.trace + ('the allocation at %s fails' % inst.loc(),)
            out.append((t, ('n', 'F', inst.fn.name, inst.id)))
            s.failing.add(inst.loc())
            s.sizes.setdefault(out[-1][1], set()).update(s.size_bases(t, inst))
        if n in st.heap:
            if st.heap[n].st == 'freed':
                s.forget(st, n)
            else:
                s.merge(st, n, o)
        x = Obj(kind, 'live', dflt, inst)
        st.heap[n] = x
        out.append((st, ('p', n, 0)))
        return out

    def forget(s, st, n):
        """the released object makes room for the next of the same place; remaining references dangle"""
        dead = ('dead', n)
        if dead not in st.heap:
            st.heap[dead] = Obj('heap', 'freed', 'top')
        s.rename(st, {n: dead})
        st.heap.pop(n, None)

    def rename(s, st, m):
        def r(v):
            if isinstance(v, tuple) and v:
                if v[0] == 'p' and v[1] in m:
                    return ('p', m[v[1]], v[2])
                if v[0] == 'p' and v[1][0] in ('d', 'k') and v[1][1] in m:
                    return ('p', (v[1][0], m[v[1][1]]), v[2])
                if v[0] == 'alt':
                    return ('alt', frozenset(r(x) for x in v[1]))
                if v[0] == 's' and v[1][0] == 'sz' and v[1][1] in m:
                    return ('s', ('sz', m[v[1][1]]))
            return v
        for k, v in list(st.env.items()):
            w = r(v)
            if w != v:
                st.env[k] = w
        fr = []
        for e, a in st.frames:
            e2 = {k: r(v) for k, v in e.items()}
            fr.append((e2, tuple(r(x) for x in a)))
        st.frames = tuple(fr)
        for k, o in list(st.heap.items()):
            nf = {q: r(v) for q, v in o.f.items()}
            ne = frozenset(r(v) for v in o.el)
            no = m.get(o.orig, o.orig) if o.orig is not None else None
            if nf != o.f or ne != o.el or no != o.orig:
                o = st.mod(k); o.f = nf; o.el = ne; o.orig = no
        if st.facts:
            def rf(v):
                if isinstance(v, tuple):
                    if len(v) == 2 and v[0] == 'sz' and v[1] in m:
                        return ('sz', m[v[1]])
                    return tuple(rf(x) for x in v)
                return v
            # what was known about the sizes of the renamed object does not hold for all of them
            st.facts = {k: v for k, v in st.facts.items() if not any(has_sym(k, ('sz', q)) for q in m)}
        for q, t in m.items():
            for p in ('d', 'k'):
                if (p, q) in st.heap:
                    st.heap.setdefault((p, t), st.heap[(p, q)]); del st.heap[(p, q)]

    def merge(s, st, n, o):
        """the object n becomes one of those that o stands for"""
        a = st.heap[n]
        s.rename(st, {n: o})
        a = st.heap.pop(n)
        b = st.heap.get(o)
        if b is None:
            c = a.copy(); c.multi = True; st.heap[o] = c
            return
        c = b.copy(); c.multi = True
        if a.st != b.st:
            c.st = 'maybe' if 'maybe' in (a.st, b.st) or 'freed' in (a.st, b.st) else 'live'
        c.el = a.el | b.el
        if a.dflt != b.dflt:
            c.dflt = 'top'
        f = {}
        for k in set(a.f) | set(b.f):
            f[k] = s.joinv(a.f.get(k), b.f.get(k), a if k not in a.f else b)
        c.f = f; c.arr = a.arr or b.arr
        st.heap[o] = c

    def joinv(s, x, y, missing):
        if x == y:
            return x
        if x is None or y is None:
            z = y if x is None else x
            d = NULL if missing.dflt == 'zero' else TOP
            if missing.dflt == 'zero' and z[0] in ('p', 'n', 'alt'):
                return s.joinv(z, NULL, missing)
            return TOP
        p = set()
        for v in (x, y):
            if v[0] == 'alt':
                p |= v[1]
            elif v[0] in ('p', 'n'):
                p.add(v)
            else:
                return TOP
        return ('alt', frozenset(p))

    def roots(s, st, extra=()):
        out = list(extra)
        out += st.env.values()
        for e, a in st.frames:
            out += e.values(); out += a
        for oid, o in st.heap.items():
            if o.st == 'in' or o.kind in ('in', 'glob'):
                out += o.f.values(); out += o.el
        return out

    def reach(s, st, vals):
        seen = set(); work = list(vals)
        while work:
            v = work.pop()
            if not isinstance(v, tuple) or not v:
                continue
            if v[0] == 'alt':
                work += v[1]
            elif v[0] == 'p':
                oid = v[1]
                while oid[0] in ('d', 'k'):
                    if oid not in seen:
                        seen.add(oid)
                        if oid in st.heap:
                            work += st.heap[oid].f.values(); work += st.heap[oid].el
                    oid = oid[1]
                if oid in seen:
                    continue
                seen.add(oid)
                o = st.heap.get(oid)
                if o is not None:
                    if o.st != 'freed':
                        work += o.f.values(); work += o.el
        return seen

    def gc(s, st, inst, extra=()):
        r = s.reach(st, s.roots(st, extra))
        for oid in [k for k in st.heap if k not in r]:
            o = st.heap[oid]
            if o.kind == 'glob' or o.st == 'in' or oid[0] == 'stk' and oid[1] == s.depth and False:
                continue
            if o.st == 'live' and not o.opt and o.orig is None and o.kind in ('heap', 'list', 'table') and oid[0] in ('n', 'o'):
                s.report('leak', o.site, 'storage allocated here is never released: the last reference to it is gone' + (' at %s' % inst.loc() if inst is not None else ''), st)
            if oid[0] == 'm' and o.orig in st.heap and o.st == 'freed':
                continue            # needed when the loop is left
            del st.heap[oid]

    # ---- memory
    def ok(s, st, inst, p, what):
        """the object may be accessed; False ends the path"""
        s.count('accesses')
        if p[0] == 'n':
            if len(p) > 1:
                if any(st.facts.get(s.norm('eq', b, ('c', 0))[:3]) for b in s.sizes.get(p, ())):
                    return False        # nothing was asked for, so no place of it is accessed
                s.report('null', inst, '%s storage whose allocation failed (NULL)' % what, st)
            else:
                s.on_null(st, inst, what)
            return False
        if p[0] == 'p':
            if s.base_status(st, p[1]) == 'freed':
                s.report('released', inst, '%s storage that is already released' % what, st)
                return False
        return True

    def on_null(s, st, inst, what):
        s.und['null'] = s.und.get('null', 0) + 1

    def load(s, st, inst, p, ty):
        """[(state, value)]"""
        if p[0] == 'alt':
            out = []
            for q in sorted(p[1], key=repr):
                t = st.copy(); out += s.load(t, inst, q, ty)
            return out
        if not s.ok(st, inst, p, 'reads'):
            return []
        if p[0] != 'p':
            return [(st, s.sym(st, inst) if ty != 'ptr' else TOP)]
        oid, off = p[1], p[2]
        o = s.obj(st, oid)
        if oid[0] == 'd':           # the storage of a list
            return s.element(st, inst, oid[1], ty)
        if o.kind in ('list', 'table') and oid[0] != 'k' or oid[0] == 'k':
            v = s.cfield(st, inst, oid, o, off, ty)
            if v is not None:
                return [(st, v)]
        if off is not None and off in o.f:
            v = o.f[off]
            if v[0] == 'alt':
                out = []
                for x in sorted(v[1], key=repr):
                    t = st.copy()
                    if not o.multi:
                        t.mod(oid).f[off] = x
                    out.append((t, x))
                return out
            if v[0] == 'x':
                s.uninit(st, inst, o)
            if v == TOP and ty != 'ptr':
                return [(st, s.sym(st, inst))]
            return [(st, v)]
        if off is None or o.arr:
            if ty == 'ptr' and o.el:
                return s.element(st, inst, oid, ty)
            if ty == 'ptr' and o.dflt == 'zero' and off is None and not o.el:
                return [(st, NULL)]
            return [(st, s.sym(st, inst) if ty != 'ptr' else TOP)]
        if o.dflt == 'zero':
            return [(st, NULL if ty == 'ptr' else ('c', 0) if ty not in ('double', 'float') else ('fc', '0'))]
        if o.dflt == 'undef':
            if o.kind != 'stack':
                s.uninit(st, inst, o)
            return [(st, s.sym(st, inst) if ty != 'ptr' else TOP)]
        if ty == 'ptr':
            return [(st, TOP)]
        y = ('s', ('ld', oid, off))
        m = st.mod(oid); m.f[off] = y
        return [(st, y)]

    def uninit(s, st, inst, o):
        s.report('uninit', inst, 'reads a member that was never written since the storage was allocated%s' % (' at %s' % o.site.loc() if o.site is not None else ''), st)

    def cfield(s, st, inst, oid, o, off, ty):
        """members of the containers the program looks at"""
        name = s.fname(o.kind if oid[0] != 'k' else 'list', off)
        if name == 'data':
            return ('p', ('d', oid), 0)
        if name == 'size':
            return o.f[off] if off in o.f else ('s', ('sz', oid))
        if name == 'keys':
            if ('k', oid) not in st.heap:
                st.heap[('k', oid)] = Obj('list', 'live', 'top')
            return ('p', ('k', oid), 0)
        if ty == 'ptr':
            return TOP
        return ('s', ('cf', oid, off))

    def fname(s, kind, off):
        d = s.prog.ditypes.get('ArrayList' if kind == 'list' else 'HASHTABLE_')
        for f in (d['fields'] if d else ()):
            if f['off'] == off:
                return f['name']
        return None

    def offof(s, di, name):
        for f in s.prog.ditypes[di]['fields']:
            if f['name'] == name:
                return f['off']

    def element(s, st, inst, oid, ty):
        """one of the elements of a container or array"""
        o = s.obj(st, oid)
        if ty != 'ptr':
            return [(st, s.sym(st, inst))]
        if not o.el:
            return [(st, NULL if o.dflt == 'zero' and o.kind == 'heap' else TOP)]
        out = []
        for v in sorted(o.el, key=repr):
            t = st.copy()
            if v[0] == 'n' and len(v) > 1 and o.arr and s.elemtest(inst.fn):
                v = NULL            # which element was asked for NULL is not kept apart
            out.append((t, s.view(t, inst, v, oid)))
        return out

    def elemtest(s, fn):
        """the function asks whether an element of an array is NULL"""
        k = ('elemtest', fn.name)
        if k not in s._cnt:
            r = False
            for i in fn.all_insts():
                if i.op == 'icmp' and i.d['pred'] in ('eq', 'ne') and any(o.get('k') == 'null' for o in i.ops):
                    for o in i.ops:
                        l = fn.insts.get(o.get('i')) if o.get('k') == 'i' else None
                        if l is not None and l.op == 'load':
                            g = fn.insts.get(l.ops[0].get('i')) if l.ops[0].get('k') == 'i' else None
                            if g is not None and g.op == 'getelementptr' and g.d['vars']:
                                r = True
            s._cnt[k] = r
        return s._cnt[k]

    def view(s, st, inst, v, cont):
        if v[0] != 'p':
            return v
        tag = (tuple(s.stack), inst.fn.name, inst.id)
        memo = {}
        same = v[1]

        def cp(oid, d):
            if oid in memo:
                return memo[oid]
            o = st.heap.get(oid)
            if o is None or o.kind in ('stack', 'in', 'glob') or o.st == 'in':
                return oid
            m = ('m', tag, oid)
            memo[oid] = m
            c = o.copy(); c.orig = oid; c.multi = False

            def r(x):
                if x[0] == 'p' and x[1][0] in ('n', 'o') and x[1] != same and st.heap.get(x[1]) is not None and st.heap[x[1]].multi and st.heap[x[1]].site is not None and d < 3 and s.owned_by(st, x[1], oid):
                    return ('p', cp(x[1], d + 1), x[2])
                if x[0] == 'alt':
                    return ('alt', frozenset(r(y) for y in x[1]))
                return x
            c.f = {k: r(x) for k, x in c.f.items()}
            c.el = frozenset(r(x) for x in c.el)
            if m in st.heap:
                s.drop(st, m)
            st.heap[m] = c
            return m
        if st.heap.get(v[1]) is None:
            return TOP
        return ('p', cp(v[1], 0), v[2])

    def drop(s, st, m):
        """an earlier view of the same place: references to it refer to the object itself again"""
        o = st.heap[m]
        s.rename(st, {m: o.orig})
        st.heap.pop(m, None)

    def owned_by(s, st, x, holder):
        """x belongs to holder: nothing but objects of the same kind refer to it"""
        for k, o in st.heap.items():
            if k == holder or k[0] == 'm' or o.kind == 'stack':
                continue
            for v in list(o.f.values()) + list(o.el):
                if v[0] == 'p' and v[1] == x and not s.same_site(k, holder):
                    return False
        return True

    @staticmethod
    def same_site(a, b):
        return len(a) > 1 and len(b) > 1 and a[0] in 'no' and b[0] in 'no' and a[1] == b[1]

    def store(s, st, inst, p, v, ty):
        if p[0] == 'alt':
            out = []
            for q in sorted(p[1], key=repr):
                out += s.store(st.copy(), inst, q, v, ty)
            return out
        if not s.ok(st, inst, p, 'writes'):
            return []
        if p[0] != 'p':
            return [st]
        oid, off = p[1], p[2]
        if oid[0] == 'd':
            if v[0] in ('p', 'n') and ty == 'ptr':
                o = st.mod(oid[1]) if oid[1] in st.heap else None
                if o is not None:
                    o.el = o.el | {v}
            return [st]
        s.obj(st, oid)
        o = st.mod(oid)
        if o.kind in ('list', 'table'):
            nm = s.fname(o.kind, off) if off is not None else None
            if nm == 'size':
                s.kill(st, ('sz', oid))
                s.set_size(st, o, off, oid, v)
            elif nm == 'data':
                s.und['data'] = s.und.get('data', 0) + 1
            return [st]
        if off is None:
            o.arr = True
            if ty == 'ptr':
                if v[0] in ('p', 'n'):
                    o.el = o.el | {v}
                    if o.orig is not None and o.orig in st.heap:
                        q = st.mod(o.orig); q.el = q.el | {v}
            else:
                for k in [k for k in o.f if o.f[k][0] not in ('p', 'n', 'alt')]:
                    o.f[k] = TOP
            return [st]
        if ty == 'ptr' and off not in o.wr:
            o.wr = o.wr | {off}
        if o.multi and off in o.f and o.f[off] != v:
            o.f[off] = s.joinv(o.f[off], v, o)
        else:
            o.f[off] = v
        if o.orig is not None and o.orig in st.heap and st.heap[o.orig].kind == 'heap' and o.st != 'freed':
            q = st.mod(o.orig)
            if q.multi or True:
                if v[0] == 'p' and v[1][0] == 'm':
                    v = ('p', st.heap[v[1]].orig, v[2]) if v[1] in st.heap else v
                q.f[off] = v if off not in q.f else s.joinv(q.f[off], v, q) if v[0] in ('p', 'n') else v
        return [st]

    def set_size(s, st, o, off, oid, v):
        if v == ('c', 0):
            o.f[off] = ('c', 0)
        else:
            o.f.pop(off, None)

    def free(s, st, inst, p, how):
        """how: 'free' or 'container'"""
        s.count('releases')
        if p[0] == 'alt':
            out = []
            for q in sorted(p[1], key=repr):
                out += s.free(st.copy(), inst, q, how)
            return out
        if p[0] != 'p':
            return [st]
        oid = p[1]
        if oid[0] in ('d', 'k'):
            s.report('foreign', inst, 'releases storage that belongs to a container', st)
            return []
        o = s.obj(st, oid)
        if o.st == 'freed':
            s.report('twice', inst, 'releases storage that is already released', st)
            return []
        if o.kind in ('stack', 'glob') or oid[0] == 'g':
            s.report('foreign', inst, 'releases storage that was not allocated', st)
            return []
        if o.st == 'given':
            s.report('foreign', inst, "releases storage that is the caller's", st)
            return []
        if p[2] not in (0, None):
            s.report('foreign', inst, 'releases an address inside an allocation', st)
            return []
        if o.kind in ('list', 'table') and how == 'free':
            s.report('kind', inst, 'releases a container without its storage', st)
        if o.kind == 'heap' and how == 'container' and o.st != 'maybe':
            s.report('kind', inst, 'releases plain storage as if it were a container', st)
        o = st.mod(oid)
        o.st = 'freed'
        return [st]

    # ---- facts
    def norm(s, pred, a, b):
        """(predicate, a, b, polarity) with predicates eq, ult, slt"""
        if pred == 'ne':
            return s.norm('eq', a, b)[:3] + (False,)
        if pred in ('ugt', 'sgt'):
            pred, a, b = pred[0] + 'lt', b, a
        elif pred in ('uge', 'sge'):
            r = s.norm(pred[0] + 'lt', a, b)
            return r[:3] + (not r[3],)
        elif pred in ('ule', 'sle'):
            r = s.norm(pred[0] + 'lt', b, a)
            return r[:3] + (not r[3],)
        if pred == 'ult' and b == ('c', 1):
            pred, b = 'eq', ('c', 0)
        if pred == 'ult' and a == ('c', 0):
            r = s.norm('eq', b, a)
            return r[:3] + (not r[3],)
        if pred == 'eq' and repr(a) > repr(b):
            a, b = b, a
        return pred, a, b, True

    def decide(s, st, pred, a, b):
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            if pred[0] == 'u':
                M = 1 << 64
                x %= M; y %= M
            return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
        if pred in ('eq', 'ne'):
            r = None
            if a[0] == 'n' and b[0] == 'n':
                r = True
            elif (a[0] == 'p' and b[0] == 'n') or (a[0] == 'n' and b[0] == 'p'):
                r = False
            elif a[0] == 'f' and b[0] == 'f':
                r = a == b
            elif a[0] in ('p', 'f') and b[0] == 'f':
                r = False
            elif a[0] == 'f' and b[0] == 'n' or a[0] == 'n' and b[0] == 'f':
                r = False
            elif a[0] == 'p' and b[0] == 'p' and a[1] != b[1] and not (s.view_of(st, a[1]) == s.view_of(st, b[1])):
                r = False
            if r is not None:
                return r == (pred == 'eq')
        if pred in ('ult',) and b == ('c', 0):
            return False
        if pred == 'uge' and b == ('c', 0):
            return True
        if a == b and a[0] == 's':
            return pred in ('eq', 'ule', 'uge', 'sle', 'sge')
        p, x, y, pol = s.norm(pred, a, b)
        v = st.facts.get((p, x, y))
        if v is not None:
            return v == pol
        if x[0] == 'c' or y[0] == 'c':
            c, z = (x, y) if x[0] == 'c' else (y, x)
            if p == 'eq':
                for (q, u, w), t in st.facts.items():
                    if q == 'eq' and t and (u == z and w[0] == 'c' and w != c or w == z and u[0] == 'c' and u != c):
                        return not pol
            else:
                for (q, u, w), t in st.facts.items():
                    if q == 'eq' and t and z in (u, w):
                        k = w if u == z else u
                        if k[0] == 'c':
                            return s.decide(st, pred, a if a[0] == 'c' else k, b if b[0] == 'c' else k)
        if p == 'slt' and x == ('c', 0):
            v = st.facts.get(s.norm('eq', y, ('c', 0))[:3])
            if v is True:
                return not pol
        return None

    def view_of(s, st, oid):
        o = st.heap.get(oid)
        return o.orig if o is not None and o.orig is not None else oid

    def assume(s, st, cond, truth):
        """False when impossible"""
        if cond[0] == 'c':
            return bool(cond[1]) == truth
        if cond[0] == 'cmp':
            _, pred, a, b = cond
            d = s.decide(st, pred, a, b)
            if d is not None:
                return d == truth
            p, x, y, pol = s.norm(pred, a, b)
            t = truth == pol
            st.facts[(p, x, y)] = t
            if p == 'eq' and t:
                for u, w in ((x, y), (y, x)):
                    if u == ('c', 0) and w[0] == 's' and w[1][0] == 'sz':
                        s.emptied(st, w[1][1])
                    if u == ('c', 0) and w[0] == 's':
                        for q, bases in s.sizes.items():
                            if w in bases:
                                s.nothing(st, q)
            if p == 'slt' and x == ('c', 0) and not t and y[0] == 's' and y[1][0] == 'sz':
                s.emptied(st, y[1][1])
            if p in ('ult', 'slt') and t and x == ('c', 0):
                st.facts[s.norm('eq', y, ('c', 0))[:3]] = False
            return True
        if cond[0] == 'not':
            return s.assume(st, cond[1], not truth)
        if cond[0] == 'and' and truth:
            return s.assume(st, cond[1], True) and s.assume(st, cond[2], True)
        if cond[0] == 'or' and not truth:
            return s.assume(st, cond[1], False) and s.assume(st, cond[2], False)
        if cond[0] == 's':
            return s.assume(st, ('cmp', 'ne', cond, ('c', 0)), truth)
        if cond == ('x',):
            return True
        return True

    def nothing(s, st, q):
        """nothing was asked for by the allocation that did not succeed"""
        for k, v in list(st.env.items()):
            if v == q:
                st.env[k] = NULL
        for k, o in list(st.heap.items()):
            if q in o.f.values():
                m = st.mod(k); m.f = {a: NULL if b == q else b for a, b in m.f.items()}

    def emptied(s, st, oid):
        if oid in st.heap:
            o = st.mod(oid); o.el = frozenset()

    # ---- execution
    def key(s, st, live):
        r = s.reach(st, s.roots(st))
        env = frozenset((k, v) for k, v in st.env.items() if live is None or k in live)
        heap = frozenset((k, o.key()) for k, o in st.heap.items() if k in r or o.st == 'freed' and o.orig is not None)
        fr = tuple((frozenset(e.items()), a) for e, a in st.frames)
        return env, heap, fr, frozenset(st.facts.items()), st.fail

    # states that differ in numbers only are joined
    @staticmethod
    def sh(v):
        return v if v[0] in ('p', 'n', 'c', 'alt', 'f', 'x', 'cmp', 'not') else 's'

    @staticmethod
    def shr(v):
        return v[0] if v[0] in ('p', 'f', 'x') else v if v[0] in ('n', 'c') else 's'

    @staticmethod
    def shh(v):
        return v if v[0] in ('p', 'n', 'alt', 'f', 'x') else 's'

    def shape(s, st, extra=()):
        r = s.reach(st, s.roots(st, extra))
        heap = []
        for k, o in st.heap.items():
            if k in r or o.st == 'freed' and o.orig is not None:
                heap.append((k, o.kind, o.st, o.dflt, o.multi, o.orig, o.el, frozenset((q, s.shh(v)) for q, v in o.f.items())))
        return frozenset((k, s.sh(v)) for k, v in st.env.items()), frozenset(heap), st.fail

    def joinst(s, a, b, tag):
        """a state that covers both (same shape), None when a already does"""
        chg = False
        x = a.copy()
        if not all(b.facts.get(k) == t for k, t in a.facts.items()):
            x.facts = {k: t for k, t in a.facts.items() if b.facts.get(k) == t}
            chg = True

        def jv(p, q, pos):
            if p == q or p[0] in ('p', 'n', 'alt', 'f', 'x') or p == TOP:
                return p
            j = ('s', ('j',) + tag + pos)
            return j
        for k, v in a.env.items():
            w = b.env.get(k, v)
            n = jv(v, w, ('e', k))
            if n != v:
                x.env[k] = n; chg = True; s.kill(x, n)
        for k, o in a.heap.items():
            q = b.heap.get(k)
            if q is None:
                continue
            if q.arr and not o.arr:
                x.mod(k).arr = True; chg = True
            if q.wr - o.wr:
                m = x.mod(k); m.wr = m.wr | q.wr; chg = True
            if q.opt and not o.opt:
                x.mod(k).opt = True; chg = True
            for f, v in o.f.items():
                n = jv(v, q.f.get(f, v), (k, f))
                if n != v:
                    m = x.mod(k); m.f[f] = n; chg = True; s.kill(x, n)
        return x if chg else None

    CAP = 160
    WIDE = 4            # so many different shapes are kept apart at one place, the others are covered together

    def wide(s, a, b, tag):
        """a state that covers both, whatever their storage looks like"""
        x = a.copy()
        x.facts = {k: t for k, t in a.facts.items() if b.facts.get(k) == t}
        x.trace = a.trace if a.trace == b.trace else ()

        def parts(v):
            return set(v[1]) if v[0] == 'alt' else {v} if v[0] in ('p', 'n', 'f') else None

        def jv(p, q, pos, ptr=True):
            if p == q:
                return p
            u, w = parts(p), parts(q)
            if u is not None and w is not None:
                return ('alt', frozenset(u | w))
            if u is not None or w is not None or p == TOP or q == TOP:
                return TOP
            j = ('s', ('j',) + tag + pos)
            s.kill(x, j)
            return j
        for k in list(x.env):
            if k not in b.env:
                del x.env[k]
            else:
                x.env[k] = jv(a.env[k], b.env[k], ('e', k))
        fr = []
        for n, ((e, g), (e2, g2)) in enumerate(zip(a.frames, b.frames)):
            ne = {k: jv(v, e2[k], ('fr', n, k)) for k, v in e.items() if k in e2}
            fr.append((ne, tuple(jv(u, w, ('fa', n, m)) for m, (u, w) in enumerate(zip(g, g2)))))
        x.frames = tuple(fr)
        for k in set(a.heap) | set(b.heap):
            o, q = a.heap.get(k), b.heap.get(k)
            if o is None or q is None:
                c = (o or q).copy(); c.opt = True
                x.heap[k] = c
                continue
            if o is q or o.key() == q.key() and o.opt == q.opt and o.wr == q.wr:
                continue
            c = x.mod(k)
            c.opt = o.opt or q.opt; c.wr = o.wr | q.wr; c.arr = o.arr or q.arr; c.multi = o.multi or q.multi
            if o.st != q.st:
                c.st = 'maybe'
            c.el = o.el | q.el
            if o.dflt != q.dflt:
                c.dflt = 'top'
            f = {}
            for m in set(o.f) | set(q.f):
                u, w = o.f.get(m), q.f.get(m)
                if u is not None and w is not None:
                    f[m] = jv(u, w, (k, m))
                else:
                    mis = o if u is None else q
                    if mis.kind in ('list', 'table'):
                        continue
                    v = u or w
                    if mis.dflt == 'zero' and parts(v) is not None:
                        f[m] = jv(v, NULL, (k, m))
                    elif mis.dflt == 'zero':
                        f[m] = jv(v, ('c', 0), (k, m))
                    else:
                        f[m] = TOP
            c.f = f
        return x

    def run(s, fn, st, args):
        """[(state, value)] after a call of fn"""
        caller = st.env
        st.frames = st.frames + ((caller, tuple(args)),)
        st.env = {}
        s.depth += 1
        s.stack.append(fn.name) if not s.stack or True else None
        live = s.live(fn)
        order = {b: k for k, b in enumerate(fn.rpo)}
        pend = {0: [(None, st)]}
        seen = {}
        rets = {}
        while pend:
            b = min(pend, key=lambda x: order.get(x, 1 << 30))
            lst = pend.pop(b)
            for pred, x in lst:
                if pred is not None:
                    s.phis(fn, fn.blocks[b], pred, x, args_of(x))
                lv = live[b]
                x.env = {k: v for k, v in x.env.items() if k in lv or (fn.insts[k].op == 'phi' and fn.insts[k].bb == b)}
                s.prune(fn, x)
                if len(fn.blocks[b].pred) > 1 or b in fn.loops:
                    s.gc(x, fn.blocks[b].insts[0])
                    k = s.shape(x)
                    sn = seen.setdefault(b, {})
                    if k in sn:
                        x = s.joinst(sn[k], x, (fn.name, b))
                        if x is None:
                            continue
                    elif len(sn) >= s.WIDE and any(j[0] == 'W' for j in sn) or len(sn) >= s.WIDE:
                        w = ('W', x.fail)
                        if w in sn:
                            o = sn[w]
                            x = s.wide(o, x, (fn.name, b))
                            if s.key(x, None) == s.key(o, None):
                                continue
                        k = w
                    elif len(sn) >= s.CAP:
                        s.und['states'] = s.und.get('states', 0) + 1
                        continue
                    sn[k] = x.copy()
                for y, t in s.block(fn, fn.blocks[b], x):
                    if t[0] == 'ret':
                        v = t[1]
                        s.leave(y, fn, v)
                        rk = (s.shape(y, [v] if v is not None else []), v if v is None else s.sh(v))
                        if rk not in rets and len(rets) >= s.WIDE:
                            w = ('W', y.fail, v if v is None else s.shr(v))
                            if w in rets:
                                o, ov = rets[w]
                                if ov != v:
                                    u = y; nv = ov
                                    if ov[0] in ('p', 'n', 'alt') and v[0] in ('p', 'n', 'alt'):
                                        nv = ('alt', frozenset((ov[1] if ov[0] == 'alt' else {ov}) | (v[1] if v[0] == 'alt' else {v})))
                                    else:
                                        nv = ('s', ('j', fn.name, 'ret'))
                                    v = nv
                                y = s.wide(o, y, (fn.name, 'ret'))
                            rets[w] = (y, v)
                        elif rk not in rets:
                            rets[rk] = (y, v)
                        else:
                            o, ov = rets[rk]
                            z = s.joinst(o, y, (fn.name, 'ret'))
                            if ov != v:
                                v = ('s', ('j', fn.name, 'ret'))
                                z = z or o
                                s.kill(z, v)
                            else:
                                v = ov
                            rets[rk] = (z or o, v)
                    else:
                        s.edge(fn, b, t[1], y)
                        pend.setdefault(t[1], []).append((b, y))
        s.stack.pop()
        s.depth -= 1
        return list(rets.values())

    def prune(s, fn, st):
        """facts about values nobody can ask for any more"""
        if len(st.facts) > 6:
            alive = set(v for v in st.env.values() if isinstance(v, tuple))
            for e, a in st.frames:
                alive |= set(e.values()) | set(a)
            for o in st.heap.values():
                alive |= set(o.f.values())

            def ok(v):
                if v[0] == 's' and v[1][0] == 'i' and v[1][1] == fn.name:
                    return v in alive
                return True
            st.facts = {k: t for k, t in st.facts.items() if ok(k[1]) and ok(k[2])}

    def leave(s, st, fn, v):
        (caller, args) = st.frames[-1]
        st.frames = st.frames[:-1]
        st.env = caller
        for k in [k for k, o in st.heap.items() if k[0] == 'stk' and k[1] == s.depth]:
            del st.heap[k]
        last = fn.blocks[-1].insts[-1] if fn.blocks else None
        s.gc(st, None, [v] if v is not None else [])
        # facts about the values of the function that returned
        n = fn.name
        st.facts = {k: t for k, t in st.facts.items() if not s.mentions(k, n) or v is not None and (has_sym(k[1], v) or has_sym(k[2], v))}

    def mentions(s, k, n):
        if isinstance(k, tuple):
            if len(k) == 3 and k[0] == 'i' and k[1] == n:
                return True
            return any(s.mentions(x, n) for x in k if isinstance(x, tuple))
        return False

    def edge(s, fn, b, t, st):
        """effects of leaving loops on the edge b -> t"""
        for H, body in fn.loops.items():
            if b in body and t not in body:
                how = s.counted(fn, H, b)
                for k, o in list(st.heap.items()):
                    if k[0] != 'm' or o.orig is None or o.st != 'freed':
                        continue
                    tag = k[1]
                    # the place of the view lies in this loop, in this call
                    inl = tag[1] == fn.name and tag[0] == tuple(s.stack) and fn.insts[tag[2]].bb in body
                    if not inl and len(tag[0]) > len(s.stack) and tag[0][:len(s.stack)] == tuple(s.stack):
                        inl = True
                    if not inl:
                        continue
                    q = st.heap.get(o.orig)
                    if q is not None and q.st in ('live', 'in'):
                        if how == 'full':
                            st.mod(o.orig).st = 'freed'
                        elif how is None:
                            st.mod(o.orig).st = 'maybe'
                    s.drop(st, k)

    def phis(s, fn, B, pred, st, args):
        new = {}
        back = pred in fn.loops.get(B.id, ())
        for i in B.insts:
            if i.op != 'phi':
                break
            for o in i.ops:
                if o['b'] == pred:
                    v = s.val(st, args, o['v'])
                    if back and v[0] == 'c' and not s.literal(fn, o['v']) or back and v[0] == 's' and v[1][0] != 'i' and not s.literal(fn, o['v']) and v != st.env.get(i.id):
                        v = ('s', ('i', fn.name, i.id))
                    w = st.env.get(i.id)
                    if back and v[0] == 'p' and w is not None and w[0] == 'p' and w[1] == v[1] and w[2] != v[2]:
                        v = ('p', v[1], None)       # a pointer that walks over storage
                    new[i.id] = (i, v, back)
                    break
        for k, (i, v, back) in new.items():
            if back:
                s.kill(st, ('s', ('i', fn.name, i.id)))
                if v[0] == 's' and v[1] == ('i', fn.name, i.id):
                    pass
                elif v[0] == 's' and v[1][0] == 'i' and i.ty != 'ptr':
                    v = ('s', ('i', fn.name, i.id))
            st.env[k] = v

    def literal(s, fn, o, d=0):
        if o.get('k') in ('c', 'null', 'undef'):
            return True
        if o.get('k') == 'i' and d < 5:
            i = fn.insts[o['i']]
            if i.op in ('zext', 'sext', 'trunc'):
                return s.literal(fn, i.ops[0], d + 1)
            if i.op == 'phi':
                return all(x['v'] == o or x['v'].get('i') == i.id or s.literal(fn, x['v'], d + 1) for x in i.ops)
            if i.op == 'select':
                return s.literal(fn, i.ops[1], d + 1) and s.literal(fn, i.ops[2], d + 1)
        return False

    def block(s, fn, B, st):
        """[(state, ('ret', v) | ('br', target))]"""
        cur = [st]
        for i in B.insts[:-1]:
            if i.op == 'phi':
                continue
            nxt = []
            for x in cur:
                nxt += s.step(fn, i, x)
            if len(nxt) > 1 and i.op in ('call', 'invoke'):
                nxt = s.dedupe(fn, nxt)
            cur = nxt
            if not cur:
                return []
        out = []
        t = B.insts[-1]
        for x in cur:
            out += s.term(fn, t, x)
        return out

    def dedupe(s, fn, sts):
        seen = set(); out = []
        for x in sts:
            k = s.key(x, None)
            if k not in seen:
                seen.add(k); out.append(x)
        return out

    def term(s, fn, t, st):
        args = args_of(st)
        if t.op == 'ret':
            return [(st, ('ret', s.val(st, args, t.ops[0]) if t.ops else None))]
        if t.op == 'br':
            B = fn.blocks[t.bb]
            if len(B.succ) == 1 or len([o for o in t.ops if o.get('k') != 'b']) == 0:
                return [(st, ('br', B.succ[0]))]
            c = s.val(st, args, t.ops[0])
            T, F = s.brsucc(t)
            out = []
            for truth, tgt in ((True, T), (False, F)):
                y = st.copy()
                if s.assume(y, c, truth):
                    out.append((y, ('br', tgt)))
            return out
        if t.op == 'switch':
            c = s.val(st, args, t.ops[0])
            out = []
            for k in t.d['cases']:
                y = st.copy()
                if s.assume(y, ('cmp', 'eq', c, ('c', k['v'])), True):
                    out.append((y, ('br', k['b'])))
            y = st
            if all(s.assume(y, ('cmp', 'eq', c, ('c', k['v'])), False) for k in t.d['cases']):
                out.append((y, ('br', t.d['default'])))
            return out
        if t.op == 'invoke':
            out = []
            for y in s.step(fn, t, st):
                out.append((y, ('br', t.d['normal'])))
            return out
        return []           # unreachable, resume

    def step(s, fn, i, st):
        s.steps += 1
        if s.steps > s.limit:
            raise Budget()
        args = args_of(st)
        op = i.op
        V = lambda k: s.val(st, args, i.ops[k])
        if op == 'alloca':
            oid = ('stk', s.depth, i.id)
            if oid not in st.heap:
                st.heap[oid] = Obj('stack', 'live', 'undef', i)
            st.env[i.id] = ('p', oid, 0)
            return [st]
        if op == 'load':
            out = []
            for y, v in s.load(st, i, V(0), i.ty):
                y.env[i.id] = v
                out.append(y)
            return out
        if op == 'store':
            return s.store(st, i, V(1), V(0), i.d['vty'])
        if op == 'getelementptr':
            b = V(0)
            off = i.d['off']; exact = True
            if i.d['vars']:
                exact = False           # an element, whatever its index
            st.env[i.id] = s.gepv(b, off, exact)
            return [st]
        if op == 'icmp':
            a, b = V(0), V(1)
            for k, x in ((0, a), (1, b)):
                if x[0] == 'alt':
                    out = []
                    o = i.ops[k]
                    for q in sorted(x[1], key=repr):
                        y = st.copy()
                        if o.get('k') == 'i':
                            y.env[o['i']] = q
                            out += s.step(fn, i, y)
                        else:
                            y.env[i.id] = s.sym(y, i); out.append(y); break
                    return out
            d = s.decide(st, i.d['pred'], a, b)
            if d is not None:
                st.env[i.id] = ('c', int(d))
            elif a[0] == 'u' or b[0] == 'u':
                st.env[i.id] = s.sym(st, i)
            elif a[0] == 'cmp' and b == ('c', 0) and i.d['pred'] in ('ne', 'eq'):
                st.env[i.id] = a if i.d['pred'] == 'ne' else ('not', a)
            elif a[0] == 'not' and b == ('c', 0) and i.d['pred'] in ('ne', 'eq'):
                st.env[i.id] = a if i.d['pred'] == 'ne' else a[1]
            else:
                st.env[i.id] = ('cmp', i.d['pred'], a, b)
            return [st]
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            v = V(0)
            if op == 'trunc' and v[0] == 's':
                v = v if i.ty != 'i1' else v
            if v[0] == 'c' and op == 'zext' and v[1] < 0:
                w = {'i8': 8, 'i16': 16, 'i32': 32}.get(i.d.get('srcty'))
                v = ('c', v[1] % (1 << w)) if w else ('c', v[1] & 1)
            if v[0] == 'c' and op == 'trunc':
                w = {'i8': 8, 'i16': 16, 'i32': 32}.get(i.ty)
                if w:
                    x = v[1] % (1 << w)
                    v = ('c', x - (1 << w) if x >> (w - 1) else x)
                else:
                    v = ('c', v[1] & 1)
            st.env[i.id] = v
            return [st]
        if op == 'select':
            c = V(0)
            out = []
            for truth, k in ((True, 1), (False, 2)):
                y = st.copy()
                if s.assume(y, c, truth):
                    y.env[i.id] = s.val(y, args, i.ops[k])
                    out.append(y)
            return out
        if op in ('call', 'invoke'):
            return s.call(fn, i, st, [s.val(st, args, o) for o in i.ops])
        if op in ('and', 'or', 'xor') and i.ty == 'i1':
            a, b = V(0), V(1)
            if op == 'xor' and b[0] == 'c' and b[1] in (1, -1):
                st.env[i.id] = ('not', a) if a[0] != 'c' else ('c', 1 - (a[1] & 1))
            elif a[0] == 'c' or b[0] == 'c':
                st.env[i.id] = s.sym(st, i)
            else:
                st.env[i.id] = (op, a, b)
            return [st]
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'urem', 'srem'):
            a, b = V(0), V(1)
            inloop = any(i.bb in body for body in fn.loops.values())
            if a[0] == 'c' and b[0] == 'c' and not inloop:
                r = {'add': lambda: a[1] + b[1], 'sub': lambda: a[1] - b[1], 'mul': lambda: a[1] * b[1], 'and': lambda: a[1] & b[1], 'or': lambda: a[1] | b[1]}.get(op)
                if r:
                    st.env[i.id] = ('c', r()); return [st]
            if not inloop and a[0] in ('s', 'c') and b[0] in ('s', 'c') and depth(a) + depth(b) < 6 and 'i' not in (a[1][0] if a[0] == 's' else '', b[1][0] if b[0] == 's' else ''):
                st.env[i.id] = ('s', (op, a, b))
            else:
                st.env[i.id] = s.sym(st, i)
            return [st]
        if op in ('extractvalue', 'insertvalue', 'landingpad'):
            st.env[i.id] = TOP
            return [st]
        if i.ty != 'void':
            st.env[i.id] = s.sym(st, i)
        return [st]

    def gepv(s, b, off, exact):
        if b[0] == 'alt':
            return ('alt', frozenset(s.gep(x, off, exact) for x in b[1]))
        return s.gep(b, off, exact)

    # ---- calls
    def call(s, fn, i, st, args):
        c = i.d['callee']
        name = c['n'] if c.get('k') == 'fn' else None
        if name is None:
            v = s.val(st, args_of(st), c)
            if v[0] == 'f':
                name = v[1]
        if name is None:
            return s.opaque(st, i, args)
        if i.d.get('noreturn') or name in ('__assert_fail', 'abort', 'exit'):
            return []
        r = s.model(fn, i, st, name, args)
        if r is not None:
            return r
        f = s.prog.fns.get(name)
        if f is None or f.decl or name in PURE or s.external(f) or name in s.stack or len(s.stack) > 10:
            return s.opaque(st, i, args)
        # arguments that may be one of several
        for k, a in enumerate(args):
            if a[0] == 'alt':
                out = []
                for q in sorted(a[1], key=repr):
                    out += s.call(fn, i, st.copy(), args[:k] + [q] + args[k + 1:])
                return out
        s.count('calls')
        out = []
        # the values of the caller that are needed after the call
        lv = s.after(fn, i)
        st.env = {k: v for k, v in st.env.items() if k in lv}
        s.stack.append((fn.name, i.id))
        try:
            res = s.run(f, st, args)
        finally:
            s.stack.pop()
        for y, v in res:
            if i.ty != 'void':
                y.env[i.id] = v if v is not None else TOP
            out.append(y)
        return out

    def after(s, fn, i):
        """values of the caller needed after the call i"""
        k = ('after', fn.name, i.id)
        if k in s._cnt:
            return s._cnt[k]
        B = fn.blocks[i.bb]
        live = s.live(fn)
        r = set()
        for t in B.succ:
            r |= live[t]
            for x in fn.blocks[t].insts:
                if x.op != 'phi':
                    break
                for o in x.ops:
                    if o['b'] == B.id:
                        r |= set(s.refs(o['v']))
        for x in B.insts[i.idx + 1:]:
            for o in inst_operands(x):
                if o.get('k') == 'i':
                    r.add(o['i'])
        s._cnt[k] = r
        return r

    def external(s, f):
        return f.name.startswith(('_ZNSt', '_ZSt', '_ZN9__gnu', '_ZNKSt', '__clang', 'llvm.'))

    def opaque(s, st, i, args):
        if i.ty != 'void':
            st.env[i.id] = TOP if i.ty == 'ptr' else s.sym(st, i)
        return [st]

    def setret(s, st, i, v):
        if i.ty != 'void':
            st.env[i.id] = v
        return st

    def bump(s, st, oid):
        """the number of elements of a container changes"""
        o = st.heap.get(oid)
        s.kill(st, ('sz', oid))
        if o is None:
            return
        so = s.offof('ArrayList' if o.kind == 'list' else 'HASHTABLE_', 'size')
        if so in o.f:
            o = st.mod(oid); o.f.pop(so, None)

    def content(s, st, p):
        """the pointer kept at the address p"""
        if p[0] == 'p' and p[2] is not None:
            o = st.heap.get(p[1])
            if o is not None and p[2] in o.f and p[1][0] not in ('d',):
                return o.f[p[2]]
        return None

    def model(s, fn, i, st, name, args):
        if name.startswith('llvm.'):
            if 'memcpy' in name or 'memmove' in name:
                return s.copy_(st, i, args)
            if 'memset' in name:
                return s.set_(st, i, args)
            return s.opaque(st, i, args)
        if name in ('malloc', 'calloc', '_Znwm', '_Znam'):
            return [s.setret(y, i, v) for y, v in s.alloc(st, i, 'heap', 'zero' if name == 'calloc' else 'undef', name in ('malloc', 'calloc'))]
        if name == 'strdup':
            return [s.setret(y, i, v) for y, v in s.alloc(st, i, 'heap', 'top')]
        if name in ('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm'):
            return s.free(st, i, args[0], 'free')
        if name in ALLOC_LIST:
            out = []
            for y, v in s.alloc(st, i, ALLOC_LIST[name], 'top'):
                if v[0] == 'p':
                    o = y.mod(v[1])
                    so = s.offof('ArrayList' if o.kind == 'list' else 'HASHTABLE_', 'size')
                    o.f[so] = ('c', 0)
                out.append(s.setret(y, i, v))
            return out
        if name in ('array_list_delete', 'set_delete', 'linkedlist_delete'):
            if not s.nullarg(st, i, name, args, 0):
                return []
            return [s.setret(y, i, NULL) for y in s.free(st, i, args[0], 'container')]
        if name in ('hashtable_destroy', 'hashtable_clear'):
            return s.table_release(fn, i, st, name, args)
        if s.collection(name):
            return s.container_op(fn, i, st, name, args)
        return None

    def collection(s, name):
        f = s.prog.fns.get(name)
        return f is not None and relpath(f.file or '').startswith('modules/collections/')

    def nullarg(s, st, i, name, args, k):
        """NULL as the k-th argument of a container operation"""
        a = args[k]
        if a[0] == 'n' and s.needs(name, k):
            if len(a) > 1:
                s.report('null', i, '%s is called with a container whose allocation failed (NULL)' % name, st)
            else:
                s.on_null(st, i, name)
            return False
        if a[0] == 'p' and s.base_status(st, a[1]) == 'freed' :
            if name in ('array_list_delete', 'set_delete', 'linkedlist_delete', 'hashtable_destroy'):
                s.report('twice', i, 'releases storage that is already released', st)
            else:
                s.report('released', i, '%s is called with storage that is already released' % name, st)
            return False
        return True

    def table_release(s, fn, i, st, name, args):
        if args[0][0] == 'alt':
            out = []
            for q in sorted(args[0][1], key=repr):
                out += s.table_release(fn, i, st.copy(), name, [q] + args[1:])
            return out
        if not s.nullarg(st, i, name, args, 0):
            return []
        if args[0][0] != 'p':
            return [s.setret(st, i, s.sym(st, i))]
        oid = args[0][1]
        cur = [st]
        vf = args[2] if len(args) > 2 else NULL
        o = s.obj(st, oid)
        if vf[0] == 'f':
            for v in sorted(o.el, key=repr):
                if v[0] == 'n' and (len(v) == 1 or not s.needs_any(vf[1])):
                    continue
                nxt = []
                for y in cur:
                    r = s.invoke(fn, i, y, vf[1], [v])
                    nxt += r
                cur = nxt
        elif vf[0] != 'n':
            for v in o.el:
                if v[0] == 'p':
                    for y in cur:
                        y.mod(v[1]).st = 'maybe'
        out = []
        for y in cur:
            m = y.mod(oid); m.el = frozenset()
            if name == 'hashtable_destroy':
                out += s.free(y, i, args[0], 'container')
            else:
                s.bump(y, oid)
                out.append(y)
        for y in out:
            s.setret(y, i, s.sym(y, i))
        return out

    def needs_any(s, name):
        return name in ALLOC_LIST or name == 'free' and False or s.needs(name, 0)

    def invoke(s, fn, i, st, name, args):
        """call of a release function on an element"""
        r = s.model(fn, i, st, name, args)
        if r is None:
            f = s.prog.fns.get(name)
            if f is None or f.decl or name in s.stack:
                return [st]
            saved = st.env
            s.stack.append((fn.name, i.id))
            try:
                res = s.run(f, st, args)
            finally:
                s.stack.pop()
            r = [y for y, v in res]
        return r

    # operations on containers: (argument that hands an element in, argument an element is handed out to, number changes)
    OPS = {'array_list_append': (1, None, True), 'array_list_insert_at': (1, None, True), 'array_list_replace_at': (1, None, False), 'set_insert': (1, None, True),
           'array_list_value_at': (None, 2, False), 'set_value_at': (None, 2, False), 'array_list_pop': (None, 1, True), 'array_list_remove_at': (None, 2, True), 'set_remove_at': (None, 2, True),
           'array_list_remove': (None, None, True), 'set_remove': (None, None, True), 'hashtable_insert': (2, None, True), 'hashtable_lookup': (None, 2, False), 'hashtable_remove': (None, 2, True),
           'linkedlist_tail_add': (1, None, True), 'linkedlist_front_add': (1, None, True), 'linkedlist_value_at': (None, 2, False)}

    def container_op(s, fn, i, st, name, args):
        for k, a in enumerate(args):
            if a[0] == 'alt':
                out = []
                for q in sorted(a[1], key=repr):
                    out += s.container_op(fn, i, st.copy(), name, args[:k] + [q] + args[k + 1:])
                return out
        f = s.prog.fns.get(name)
        for k, a in enumerate(args):
            if f is not None and k < len(f.args) and f.args[k]['ty'] == 'ptr' and not s.nullarg(st, i, name, args, k):
                return []
        s.count('container operations')
        a0 = args[0] if args else TOP
        oid = a0[1] if a0[0] == 'p' else None
        if name in ('array_list_size', 'set_size', 'hashtable_size'):
            o = st.heap.get(oid) if oid is not None else None
            if o is not None and o.kind in ('list', 'table'):
                so = s.offof('ArrayList' if o.kind == 'list' else 'HASHTABLE_', 'size')
                return [s.setret(st, i, s.cfield(st, i, oid, o, so, 'i64'))]
            return s.opaque(st, i, args)
        if name in ('array_list_empty', 'set_empty', 'hashtable_empty') and oid is not None:
            out = []
            for y, t in ((st.copy(), True), (st, False)):
                o = y.heap.get(oid)
                if o is None or o.kind not in ('list', 'table'):
                    out.append(s.setret(y, i, ('c', int(t)))); continue
                so = s.offof('ArrayList' if o.kind == 'list' else 'HASHTABLE_', 'size')
                if s.assume(y, ('cmp', 'eq', s.cfield(y, i, oid, o, so, 'i64'), ('c', 0)), t):
                    out.append(s.setret(y, i, ('c', int(t))))
            return out
        if name in ('array_list_clear', 'set_clear') and oid is not None:
            o = st.heap.get(oid)
            if o is not None and o.kind == 'list':
                m = st.mod(oid); m.el = frozenset()
                s.bump(st, oid)
                st.heap[oid].f[s.offof('ArrayList', 'size')] = ('c', 0)
            return [s.setret(st, i, s.sym(st, i))]
        op = s.OPS.get(name)
        if op is None:
            return s.opaque(st, i, args)
        hin, hout, ch = op
        o = st.heap.get(oid) if oid is not None else None
        if hin is not None and o is not None:
            v = s.content(st, args[hin])
            if v is not None and v[0] in ('p', 'n', 'alt'):
                vs = v[1] if v[0] == 'alt' else (v,)
                vs = tuple(('p', st.heap[x[1]].orig, x[2]) if x[0] == 'p' and x[1] in st.heap and st.heap[x[1]].orig is not None and st.heap[x[1]].st != 'freed' else x for x in vs)
                m = st.mod(oid); m.el = m.el | frozenset(vs)
            if ch:
                s.bump(st, oid)
                so = s.offof('ArrayList' if o.kind == 'list' else 'HASHTABLE_', 'size')
                st.facts[s.norm('eq', ('s', ('sz', oid)), ('c', 0))[:3]] = False
            return [s.setret(st, i, s.sym(st, i))]
        if hout is not None:
            out = []
            tgt = args[hout]
            if (name == 'hashtable_lookup' or name in ('array_list_value_at', 'set_value_at', 'hashtable_remove', 'array_list_pop')) and fn.users.get(('i', i.id)) and not (name in ('array_list_value_at', 'set_value_at') and any(i.bb in b for b in fn.loops.values())):
                # (a place asked for in a walk is taken to be there)
                y = st.copy()
                so = None
                out.append(s.setret(y, i, ('c', 0)))
            if o is not None and o.el:
                if ch:
                    s.bump(st, oid)
                for y, v in s.element(st, i, oid, 'ptr'):
                    for z in s.store(y, i, tgt, v, 'ptr') if tgt[0] == 'p' else [y]:
                        out.append(s.setret(z, i, ('c', 1)))
            elif o is None or name != 'hashtable_lookup' or not (o.f.get(s.offof('HASHTABLE_', 'size')) == ('c', 0)):
                if ch and oid is not None:
                    s.bump(st, oid)
                if tgt[0] == 'p' and tgt[1] in st.heap and tgt[2] is not None:
                    m = st.mod(tgt[1])
                    m.f[tgt[2]] = TOP
                out.append(s.setret(st, i, ('c', 1)))
            return out
        if ch and oid is not None:
            s.bump(st, oid)
        return [s.setret(st, i, s.sym(st, i))]

    def copy_(s, st, i, args):
        for a in (args[0], args[1]):
            if a[0] in ('p', 'n') and not s.ok(st, i, a, 'copies'):
                return []
        d, r = args[0], args[1]
        if d[0] == 'p' and d[1] in st.heap and st.heap[d[1]].kind not in ('list', 'table') and d[1][0] != 'd':
            o = st.mod(d[1])
            so = st.heap.get(r[1]) if r[0] == 'p' else None
            n = args[2][1] if args[2][0] == 'c' else None
            if so is not None and n is not None and d[2] is not None and r[2] is not None and so.kind not in ('list', 'table'):
                for k, v in so.f.items():
                    if r[2] <= k < r[2] + n:
                        o.f[d[2] + k - r[2]] = v
                if so.dflt != 'undef':
                    o.arr = True
            else:
                o.arr = True
        return [s.setret(st, i, d)]

    def set_(s, st, i, args):
        if args[0][0] in ('p', 'n') and not s.ok(st, i, args[0], 'fills'):
            return []
        d = args[0]
        if d[0] == 'p' and d[1] in st.heap and st.heap[d[1]].kind not in ('list', 'table') and d[1][0] != 'd':
            o = st.mod(d[1])
            if args[1] == ('c', 0) and d[2] == 0:
                o.f = {}; o.dflt = 'zero'
            else:
                o.arr = True
        return [s.setret(st, i, d)]


def depth(v):
    if not isinstance(v, tuple):
        return 0
    return 1 + max([depth(x) for x in v if isinstance(x, tuple)] or [0])


def args_of(st):
    return st.frames[-1][1]
