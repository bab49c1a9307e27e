"""Function by function ownership: every function is interpreted on its own over storage that its parameters may refer to
(materialised when it is looked at, according to the declared types), small callees are inlined, the others and all that
hand out fresh storage are summarised."""
import re
from own import *

LISTS = ('ArrayList', 'LINKEDLIST')


def strip_canon(c):
    c = c.replace('const ', '').strip()
    return c


class Mod(Own):
    LIMIT = 150000
    INLINE = 260
    models = True           # containers are understood, not analysed

    def __init__(s, prog):
        super().__init__(prog)
        s.owns = {}             # (type, offset) -> places where fresh storage is put there
        s.elowns = {}           # (type, offset) -> kinds of the fresh elements put into the container kept there
        s.sums = {}
        s.busy = set()
        s._reads = None
        s._cost = {}; s._mods = {}
        s.ty = {}               # oid -> type is kept with the object: Obj.site of lazy ones
        s.reqs = {}             # function -> {(argument, offset): (place, what)}: members that must not own anything when it is called
        s.total = 0; s.most = (0, '')
        s.full = {}             # loops -> elements that every full walk releases
        s.root = None
        s.keptin = {}           # (function, argument) -> members it is kept in

    # ---- types
    def pointee(s, canon):
        c = strip_canon(canon or '')
        return c[:-1].strip() if c.endswith('*') else None

    @staticmethod
    def sname(c):
        for p in ('struct ', 'class ', 'enum ', 'union '):
            if c.startswith(p):
                return c[len(p):]
        return c

    def flat(s, T, off):
        """(owning type, offset in it, declared type) of the member at the offset"""
        t = s.prog.ditypes.get(T)
        for f in (t['fields'] if t else ()):
            if f.get('kind') not in ('field', 'inherit', 'base', 'inheritance') or f.get('off') is None:
                continue
            c = strip_canon(f.get('canon') or '')
            n = s.sname(c)
            if f['off'] <= off < f['off'] + max(f.get('size', 0), 1):
                if not c.endswith('*') and n in s.prog.ditypes and s.prog.ditypes[n]['fields'] and n != T:
                    return s.flat(n, off - f['off'])
                if f['off'] == off:
                    return T, off, c
        return None

    def kind_of(s, base):
        """(kind, type, dflt, array of pointers)"""
        n = s.sname(base)
        if base.endswith('*'):
            return 'heap', None, 'top', True
        if n in LISTS and s.models:
            return 'list', n, 'top', False
        if n == 'HASHTABLE_' and s.models:
            return 'table', n, 'top', False
        if n in s.prog.ditypes and s.prog.ditypes[n]['fields']:
            return 'heap', n, 'lazy', False
        return 'heap', None, 'top', False

    def lazy_obj(s, st, oid, base, own, els=None):
        kind, ty, dflt, arr = s.kind_of(base)
        o = Obj(kind, 'in', dflt)
        o.ty = ty; o.own = own
        o.arr = arr
        if kind in ('list', 'table') or arr:
            if els is None and arr:
                b = s.pointee(base)
                if b is not None and b != 'void':
                    els = {(s.kind_of(b)[0], b, False)}
            if els:
                el = set([NULL])
                for k, (ek, eb, eo) in enumerate(sorted(els)):
                    e = ('e', oid, k)
                    x = Obj(*((s.kind_of(eb)[0], 'in', s.kind_of(eb)[2]) if eb else (ek, 'in', 'top')))
                    x.ty = s.kind_of(eb)[1] if eb else None
                    x.own = eo; x.multi = True
                    st.heap[e] = x
                    el.add(('p', e, 0))
                o.el = frozenset(el)
        st.heap[oid] = o
        return oid

    def child(s, st, oid, off):
        """value kept in a member of storage that was not looked at yet: [(state, value)]"""
        o = st.heap[oid]
        m = s.flat(o.ty, off) if o.ty else None
        base = s.pointee(m[2]) if m else None
        if base == 'void' and m[:2] in s.owns:
            base = 'char'
        d = 0; x = oid
        while x[0] in ('c', 'e'):
            d += 1; x = x[1]
        if base is None or base == 'void' or '(' in base or d > 5:
            return [(st, TOP)]
        key = m[:2]
        out = []
        t = st.copy()
        t.mod(oid).f[off] = NULL
        out.append((t, NULL))
        c = ('c', oid, off)
        own = key in s.owns
        els = s.elowns.get(key)
        if own or els:
            s.lazy_obj(st, c, base, own, {e + (True,) for e in els} if els else None)
        else:
            s.lazy_obj(st, c, base, False)
        st.heap[c].st = 'in'
        st.mod(oid).f[off] = ('p', c, 0)
        out.append((st, ('p', c, 0)))
        return out

    def load(s, st, inst, p, ty):
        if p[0] == 'p' and p[2] is not None and ty == 'ptr' and p[1] in st.heap:
            o = st.heap[p[1]]
            if o.dflt == 'lazy' and p[2] not in o.f and not (o.arr and o.el):
                if not s.ok(st, inst, p, 'reads'):
                    return []
                return s.child(st, p[1], p[2])
        return super().load(st, inst, p, ty)

    def settype(s, st, v, inst):
        """the type of plain storage, from the member that is addressed"""
        if v[0] != 'p' or v[2] != 0:
            return
        o = st.heap.get(v[1])
        if o is not None and o.kind == 'heap' and o.ty is None and not o.arr:
            p = inst.d.get('path') or []
            if p and p[0].get('struct'):
                d = s.prog.di(p[0]['struct'])
                if d is not None:
                    st.mod(v[1]).ty = d['name']

    def collection(s, name):
        return s.models and super().collection(name)

    def model(s, fn, i, st, name, args):
        if name == 'realloc':
            out = []
            if s.fails and (st.fail or 0) < s.MAXFAIL:
                t = st.copy(); t.fail = (t.fail or 0) + 1
                t.trace = t.trace + ('the allocation at %s fails' % i.loc(),)
                out.append(s.setret(t, i, ('n', 'F', fn.name, i.id)))
            if args[0][0] == 'n':
                return out + [s.setret(y, i, v) for y, v in s.alloc(st, i, 'heap', 'top', False)]
            if args[0][0] == 'p' and not s.ok(st, i, args[0], 'resizes'):
                return out
            return out + [s.setret(st, i, args[0])]
        if not s.models and (name in ALLOC_LIST or s.prog.fns.get(name) is not None and relpath(s.prog.fns[name].file or '').startswith('modules/collections')):
            return None
        return super().model(fn, i, st, name, args)

    def step(s, fn, i, st):
        if i.op == 'getelementptr' and i.d.get('path'):
            s.settype(st, s.val(st, args_of(st), i.ops[0]), i)
        return super().step(fn, i, st)

    def untouched(s, st, v, oid, off):
        """the value is what a look at the member gives"""
        if v == NULL:
            return True
        if v[0] == 'alt':
            return all(s.untouched(st, x, oid, off) for x in v[1])
        c = ('c', oid, off)
        return v[0] == 'p' and v[1] == c and all(st.heap[k].st == 'in' for k in st.heap if k == c or k[0] in ('c', 'e') and s.under(k, c))

    def wide(s, a, b, tag):
        p, q = a.copy(), b.copy()
        for x, y in ((p, q), (q, p)):
            for k, o in list(x.heap.items()):
                w = y.heap.get(k)
                if w is None or o.dflt != 'lazy' or w.dflt != 'lazy':
                    continue
                for off in [f for f in o.f if f not in w.f]:
                    if s.untouched(x, o.f[off], k, off):
                        c = ('c', k, off)
                        used = any(s.refers(v, c) for v in x.env.values()) or any(s.refers(v, c) for e, g in x.frames for v in list(e.values()) + list(g))
                        if not used:
                            m = x.mod(k); del m.f[off]; o = m
                            for z in [z for z in x.heap if z == c or z[0] in ('c', 'e') and s.under(z, c)]:
                                del x.heap[z]
        return super().wide(p, q, tag)

    # ---- lifetime
    def roots(s, st, extra=()):
        out = list(extra)
        out += st.env.values()
        for e, a in st.frames:
            out += e.values(); out += a
        for oid, o in st.heap.items():
            if oid[0] == 'a' or o.kind == 'glob':
                out.append(('p', oid, 0))
        return out

    def gc(s, st, inst, extra=()):
        r = s.reach(st, s.roots(st, extra))
        dead = [k for k in st.heap if k not in r]
        ds = set(dead)
        for oid in dead:
            o = st.heap[oid]
            if o.kind in ('glob', 'stack') and o.kind == 'glob':
                continue
            if o.opt:
                continue
            where = (' at %s' % inst.loc() if inst is not None else '')
            if o.st == 'live' and o.orig is None and o.kind in ('heap', 'list', 'table') and oid[0] in ('n', 'o'):
                if o.site is not None:
                    s.report('leak', o.site, 'storage allocated here is never released: the last reference to it is gone' + where, st)
            elif o.st == 'in' and o.own and oid[0] == 'c':
                p = st.heap.get(oid[1])
                if p is not None and p.st in ('in', 'live') and oid[1] not in ds and not p.opt and p.f.get(oid[2]) not in (None, TOP) and not s.refers(p.f[oid[2]], oid) and p.orig is None:
                    if oid[1][0] == 'a' and p.f[oid[2]] != NULL:
                        s.reqs.setdefault(s.root, {}).setdefault(oid[1:], (inst, s.mname(p, oid[2]), list(st.trace), list(s.stack)))
                        continue
                    s.report('lost', inst, 'the storage that a member (%s) referred to is neither released nor kept when the member is overwritten' % s.mname(p, oid[2]), st)
            elif o.st == 'in' and o.own and oid[0] == 'e':
                L = st.heap.get(oid[1])
                if L is not None and not L.opt and (L.st == 'freed' or L.st in ('in', 'live') and oid[1] not in ds and not any(s.refers(v, oid) for v in L.el)):
                    s.report('elements', inst, 'the elements of a container are lost without being released%s' % where, st)
        for oid in dead:
            o = st.heap[oid]
            if o.kind == 'glob':
                continue
            if oid[0] == 'm' and o.orig in st.heap and o.st == 'freed':
                continue            # needed when the loop is left
            if oid[0] == 'c' and o.st == 'freed' and oid[1] in st.heap and oid[1] not in ds:
                pass
            del st.heap[oid]

    def mname(s, o, off):
        m = s.flat(o.ty, off) if o.ty else None
        if m is None:
            return 'at offset %s' % off
        for f in s.prog.ditypes[m[0]]['fields']:
            if f.get('off') == m[1]:
                return '%s.%s' % (m[0], f['name'])
        return '%s+%d' % m[:2]

    @staticmethod
    def refers(v, oid):
        if v[0] == 'alt':
            return any(x[0] == 'p' and x[1] == oid for x in v[1])
        return v[0] == 'p' and v[1] == oid

    def owned_members(s, T, base=0, d=0):
        t = s.prog.ditypes.get(T)
        out = []
        for f in (t['fields'] if t else ()):
            if f.get('off') is None or f.get('kind') != 'field':
                continue
            c = strip_canon(f.get('canon') or '')
            n = s.sname(c)
            if not c.endswith('*') and n in s.prog.ditypes and s.prog.ditypes[n]['fields'] and n != T and d < 3:
                out += s.owned_members(n, base + f['off'], d + 1)
            elif (T, f['off']) in s.owns:
                out.append((base + f['off'], '%s.%s' % (T, f['name'])))
        return out

    def free(s, st, inst, p, how):
        if p[0] == 'p' and p[2] in (0, None) and how == 'free':
            o = st.heap.get(p[1])
            if o is not None and o.kind == 'heap' and o.st in ('in', 'live') and o.ty and o.dflt == 'lazy' and not o.opt:
                for off, name in s.owned_members(o.ty):
                    if off not in o.f:
                        s.report('member', inst, 'releases storage whose member %s was not released' % name, st)
                    else:
                        v = o.f[off]
                        for x in (v[1] if v[0] == 'alt' else (v,)):
                            if x[0] == 'p':
                                c = st.heap.get(x[1])
                                if c is not None and c.st == 'in' and x[1] == ('c', p[1], off) and not s.elsewhere(st, x[1], p[1]):
                                    s.report('member', inst, 'releases storage whose member %s was not released' % name, st)
        return super().free(st, inst, p, how)

    def torn(s, st, f, oid):
        """a destructor leaves nothing behind"""
        o = st.heap.get(oid)
        if o is None or not o.ty or o.st == 'freed' or o.opt:
            return
        s.count('destructors')
        for off, name in s.owned_members(o.ty):
            v = o.f.get(off)
            if v is None or any(x[0] == 'p' and x[1] in st.heap and st.heap[x[1]].st == 'in' and not st.heap[x[1]].opt for x in (v[1] if v[0] == 'alt' else (v,))):
                s.report('member', f.blocks[-1].insts[-1], 'the destructor does not release the member %s' % name, st)

    def elsewhere(s, st, oid, holder):
        h = st.heap[holder]
        o = st.mod(holder); saved = dict(o.f); el = o.el
        o.f = {k: v for k, v in o.f.items() if not s.refers(v, oid)}
        r = s.reach(st, s.roots(st))
        o.f = saved
        return oid in r

    def view(s, st, inst, v, cont):
        if v[0] != 'p':
            return v
        o = st.heap.get(v[1])
        if o is None:
            return TOP
        if o.kind in ('stack', 'glob') or v[1][0] in ('a', 'm'):
            return v
        tag = (tuple(s.stack), inst.fn.name, inst.id)
        m = ('m', tag, v[1])
        if m in st.heap:
            s.drop(st, m)
        c = o.copy(); c.orig = v[1]; c.multi = False
        if c.kind == 'heap':
            c.f = {k: x for k, x in c.f.items() if x[0] not in ('p', 'alt')}
            if c.st != 'freed':
                c.dflt = 'lazy'
        st.heap[m] = c
        return ('p', m, v[2])

    def drop(s, st, m):
        o = st.heap[m]
        for k in [k for k in st.heap if k[0] in ('c', 'e') and s.under(k, m)]:
            del st.heap[k]
        o = st.mod(m)
        o.f = {}
        s.rename(st, {m: o.orig})
        st.heap.pop(m, None)

    @staticmethod
    def under(k, m):
        while k[0] in ('c', 'e', 'd', 'k'):
            k = k[1]
            if k == m:
                return True
        return False

    def merge(s, st, n, o):
        for k in [k for k in st.heap if k[0] in ('c', 'e') and s.under(k, n)]:
            del st.heap[k]
        x = st.mod(n)
        x.f = {k: v for k, v in x.f.items() if not (v[0] == 'p' and v[1][0] == 'c' and s.under(v[1], n)) and v[0] != 'alt'}
        x.el = frozenset(v for v in x.el if not (v[0] == 'p' and s.under(v[1], n)))
        super().merge(st, n, o)

    def edge(s, fn, b, t, st):
        for H, body in fn.loops.items():
            if b in body and t not in body:
                key = (s.root, tuple(s.stack), fn.name, H)
                how = s.counted(fn, H, b)
                if how is None and not any(s.counted(fn, H, x) for x in body if any(y not in body for y in fn.blocks[x].succ)):
                    how = 'full'        # not a counted walk: taken to reach every element
                if how == 'full':
                    seen = set()
                    for k, o in list(st.heap.items()):
                        if k[0] == 'm' and o.orig is not None and o.st == 'freed' and k[1][0][:len(s.stack)] == tuple(s.stack):
                            s.full.setdefault(key, set()).add(o.orig); seen.add(o.orig)
                    for e in s.full.get(key, ()):
                        if e not in seen and e in st.heap and st.heap[e].st in ('in', 'live'):
                            # nothing was there to be walked
                            if e[0] == 'e' and e[1] in st.heap and not any(s.refers(v, e) for v in st.env.values()):
                                L = st.mod(e[1]); L.el = frozenset(v for v in L.el if not s.refers(v, e))
                                for z in [z for z in st.heap if z == e or z[0] in ('c', 'e') and s.under(z, e)]:
                                    del st.heap[z]
                            else:
                                st.mod(e).st = 'maybe'
                for k, o in list(st.heap.items()):
                    if k[0] == 'm' and o.orig is not None and o.st == 'freed' and o.orig in st.heap:
                        q = st.heap[o.orig]
                        for v in list(q.f.values()):
                            for x in (v[1] if v[0] == 'alt' else (v,)):
                                if x[0] == 'p' and x[1] in st.heap and st.heap[x[1]].st == 'live' and x[1][0] in ('n', 'o'):
                                    st.mod(x[1]).st = 'maybe'
        super().edge(fn, b, t, st)

    def emptied(s, st, oid):
        if oid in st.heap:
            o = st.mod(oid)
            for v in o.el:
                if v[0] == 'p' and v[1][0] == 'e' and v[1][1] == oid:
                    st.heap.pop(v[1], None)
            o.el = frozenset()

    # ---- calls
    def cost(s, name, seen=()):
        if name in s._cost:
            return s._cost[name]
        f = s.prog.fns.get(name)
        if f is None or f.decl or s.collection(name) or s.external(f) or name in PURE:
            return 1
        if name in seen:
            return 10000
        n = 0
        for i in f.all_insts():
            n += 1
            if i.op in ('call', 'invoke') and i.d['callee'].get('k') == 'fn':
                n += s.cost(i.d['callee']['n'], seen + (name,))
        s._cost[name] = n
        return n

    def fresh_out(s, name):
        """the function hands out storage"""
        f = s.prog.fns[name]
        return f.ret == 'ptr' and any(i.op in ('call', 'invoke') and i.d['callee'].get('k') == 'fn' and (i.d['callee']['n'] in ('malloc', 'calloc', '_Znwm', '_Znam', 'strdup') or i.d['callee']['n'] in ALLOC_LIST and s.models or s.calls_fresh(i.d['callee']['n'], name)) for i in f.all_insts())

    def calls_fresh(s, n, by):
        f = s.prog.fns.get(n)
        return f is not None and not f.decl and n != by and f.ret == 'ptr' and not s.collection(n) and not s.external(f) and n not in PURE and s.fresh_out(n)

    def mods(s, name, seen=()):
        if name in s._mods:
            return s._mods[name]
        f = s.prog.fns.get(name)
        if f is None or f.decl or s.collection(name) or name in seen:
            return frozenset()
        out = set()
        for i in f.all_insts():
            if i.op == 'store' and i.d['vty'] == 'ptr':
                a = i.ops[1]
                g = f.insts.get(a.get('i')) if a.get('k') == 'i' else None
                if g is not None and g.op == 'getelementptr' and g.d.get('path') and g.d['path'][-1].get('struct'):
                    d = s.prog.di(g.d['path'][-1]['struct'])
                    if d:
                        m = s.flat(d['name'], g.d['path'][-1]['off'])
                        if m:
                            out.add(m[:2])
                elif g is None or g.op != 'alloca':
                    out.add(('*', 0))
            elif i.op in ('call', 'invoke') and i.d['callee'].get('k') == 'fn':
                out |= s.mods(i.d['callee']['n'], seen + (name,))
        if not seen:
            s._mods[name] = frozenset(out)
        return frozenset(out)

    def call(s, fn, i, st, args):
        c = i.d['callee']
        name = c['n'] if c.get('k') == 'fn' else None
        f = s.prog.fns.get(name) if name else None
        if f is None or f.decl or name in PURE or s.external(f) or s.collection(name) or name in ALLOC_LIST and s.models:
            return super().call(fn, i, st, args)
        if not s.fresh_out(name) and s.cost(name) <= s.INLINE and name not in s.stack:
            return super().call(fn, i, st, args)
        for k, a in enumerate(args):
            if a[0] == 'alt':
                out = []
                for q in sorted(a[1], key=repr):
                    out += s.call(fn, i, st.copy(), args[:k] + [q] + args[k + 1:])
                return out
        return s.apply(fn, i, st, name, f, args)

    def pattern(s, f, args):
        return tuple('n' if a[0] == 'n' else 'p' for a in args)

    def raw(s, f, k):
        """the k-th parameter is storage to be set up: the function sets up storage of its own when it is NULL"""
        c = f.dicanon
        if k == 0 and f.name.startswith('_ZN') and c and len(c) > 1 and re.search(r'::(\w+)::\1\(', f.dem or ''):
            return True             # a constructor
        return f.ret == 'ptr' and len(c) > k + 1 and c[0] and strip_canon(c[0]) == strip_canon(c[k + 1] or '') and nulltested(s, f, k) and s.fresh_out(f.name)

    def summary(s, name, pat):
        k = (name, pat)
        if k in s.sums:
            return s.sums[k]
        if name in s.busy:
            return None
        f = s.prog.fns[name]
        s.busy.add(name); known = set(s.found)
        saved = s.stack, s.depth, s.root, s.limit, s.steps
        s.stack, s.depth, s.root, s.steps, s.limit = [], 0, name, 0, s.LIMIT
        try:
            r = s.analyse(f, pat)
        except Budget:
            r = None                    # too many paths: nothing is known about its calls
            for q in [q for q, x in s.found.items() if q not in known]:
                del s.found[q]
            s.und['paths'] = s.und.get('paths', 0) + 1
        finally:
            s.total += s.steps; s.most = max(s.most, (s.steps, name))
            s.stack, s.depth, s.root, s.limit, s.steps = saved
            s.busy.discard(name)
        s.sums[k] = r
        return r

    def entry(s, f, pat):
        st = St()
        args = []
        for k, a in enumerate(f.args):
            canon = f.dicanon[k + 1] if len(f.dicanon) > k + 1 else ''
            base = s.pointee(canon or '')
            if a['ty'] != 'ptr':
                args.append(('s', ('in', f.name, a['name'] or k)))
            elif k < len(pat) and pat[k] == 'n':
                args.append(NULL)
            elif base is None or base == 'void' and s.models or '(' in base:
                args.append(TOP)
            else:
                oid = ('a', k)
                s.lazy_obj(st, oid, base, False)
                if s.raw(f, k):
                    st.heap[oid].dflt = 'undef'
                args.append(('p', oid, 0))
        return st, args

    def analyse(s, f, pat):
        """variants of a call: (result, what becomes of the arguments, failures)"""
        st, args = s.entry(f, pat)
        res = s.run(f, st, args)
        out = {}
        s.count('functions')
        for y, v in res:
            y.frames = (); y.env = {}
            s.harvest(y, v, f)
            s.unset(y, v, f, args)
            if s.fails and y.fail and f.ret.startswith('i') and v == ('c', 0):
                for k, a in enumerate(args):
                    o = y.heap.get(a[1]) if a[0] == 'p' else None
                    for off, x in (o.f.items() if o is not None else ()):
                        if x[0] == 'alt' and all(z[0] == 'n' for z in x[1]):
                            x = max(x[1], key=len)
                        if x[0] == 'n' and len(x) > 1:
                            s.report('success', f.blocks[-1].insts[-1], '%s reports success although there is no memory for the member %s' % (f.srcname, s.mname(o, off) if o.ty else off), y)
            if not (v is not None and v[0] == 'n'):
                s.dangling(y, v, f, args)
            if f.srcname.startswith('~') and args and args[0][0] == 'p':
                s.torn(y, f, args[0][1])
            fates = []
            outs = []
            for k, a in enumerate(args):
                if a[0] != 'p' or a[1][0] != 'a':
                    continue
                o = y.heap.get(a[1])
                if o is None:
                    continue
                if o.kind == 'heap' and o.ty and o.st != 'freed':
                    if s.raw(f, k):
                        outs.append((k, None, 'set up'))
                    for off, x in sorted(o.f.items(), key=repr):
                        if x[0] == 'alt' and all(z[0] == 'n' for z in x[1]):
                            x = ('n',)
                        m = s.flat(o.ty, off)
                        if m and m[:2] in s.owns and x[0] in ('n', 'p'):
                            q = y.heap.get(x[1]) if x[0] == 'p' else None
                            if x[0] == 'n' or q is not None and q.st == 'freed':
                                outs.append((k, off, 'dead' if x[0] != 'n' else 'null' if off in o.wr else 'was null'))
                if o.st == 'freed':
                    fates.append((k, 'freed'))
                elif o.st == 'maybe':
                    fates.append((k, 'maybe'))
                else:
                    r = s.reach(y, ([v] if v is not None and v != a else []) + [('p', ('a', j), 0) for j in range(len(args)) if j != k and ('a', j) in y.heap])
                    if a[1] in r:
                        fates.append((k, 'kept'))
                        for q, h in y.heap.items():
                            if h.ty and h.kind == 'heap' and h.orig is None:
                                for off, x in h.f.items():
                                    m = s.refers(x, a[1]) and s.flat(h.ty, off)
                                    if m:
                                        s.keptin.setdefault((f.name, k), set()).add(m[:2])
            for w in (v[1] if v is not None and v[0] == 'alt' else (v,)):
                d = s.describe(y, w, f, args)
                out[(d, tuple(fates), y.fail or 0, tuple(outs))] = tuple(y.trace)
        return list(out.items())

    def describe(s, y, v, f, args):
        if v is None:
            return None
        if v[0] == 'n':
            return ('null', len(v) > 1)
        if v[0] == 'c':
            return v
        if v[0] == 'p':
            o = y.heap.get(v[1])
            for k, a in enumerate(args):
                if a == v:
                    return ('arg', k)
            if v[1][0] in ('n', 'o') and o is not None and o.st == 'live':
                els = frozenset((y.heap[x[1]].kind, y.heap[x[1]].ty) for x in o.el if x[0] == 'p' and x[1] in y.heap and x[1][0] in ('n', 'o') and y.heap[x[1]].st == 'live')
                nul = frozenset(off for off, x in o.f.items() if x[0] == 'n') if o.ty else frozenset()
                return ('new', o.kind, o.ty, els, o.arr, nul)
            if o is not None and o.st == 'freed':
                s.report('dangling', f.blocks[-1].insts[-1], 'returns storage that is already released', y)
            return ('top', 'p')
        if v[0] in ('s', 'cmp', 'not', 'fc'):
            return ('num',)
        return ('top', 'u')

    def members(s, T, base=0, d=0):
        """[(offset, owning type, offset in it, name)] of all members, those of members that are structures included"""
        t = s.prog.ditypes.get(T)
        out = []
        for f in (t['fields'] if t else ()):
            if f.get('kind') not in ('field', 'inherit', 'base', 'inheritance') or f.get('off') is None:
                continue
            c = strip_canon(f.get('canon') or '')
            n = s.sname(c)
            if not c.endswith('*') and n in s.prog.ditypes and s.prog.ditypes[n]['fields'] and n != T and d < 4:
                out += s.members(n, base + f['off'], d + 1)
            elif f.get('size'):
                out.append((base + f['off'], T, f['off'], f.get('name')))
        return out

    def read_somewhere(s):
        if s._reads is None:
            s._reads = set()
            for g in s.prog.defined():
                for i in g.all_insts():
                    if i.op != 'getelementptr' or not i.d.get('path'):
                        continue
                    e = i.d['path'][-1]
                    if any(not (u.op == 'store' and u.ops[1].get('i') == i.id and u.ops[1].get('k') == 'i') for u in g.users.get(('i', i.id), ())):
                        s._reads.add((re.sub(r'^(struct|class|union)\.|\.\d+$', '', e['struct']), e['off']))
        return s._reads

    def unset(s, y, v, f, args):
        """members of a record handed out that nothing has written"""
        r = s.reach(y, [a for a in args if a[0] == 'p' and a[1] in y.heap and y.heap[a[1]].st != 'freed'] + ([v] if v is not None else []))
        for oid, o in y.heap.items():
            if o.kind != 'heap' or not o.ty or o.dflt != 'undef' or o.orig is not None or o.st in ('freed',):
                continue
            if not (oid in r and oid[0] in ('n', 'o') or s.models and oid[0] == 'a' and s.raw(f, oid[1]) and not (v is not None and v[0] == 'n')):
                continue
            s.count('records set up')
            for off, T, q, name in s.members(o.ty):
                s.count('members set up')
                if off not in o.f and (T, q) in s.read_somewhere():
                    s.report('unset', f.blocks[-1].insts[-1], '%s hands out a %s whose member %s was never written' % (f.srcname, o.ty, name), y)

    def harvest(s, y, v, f):
        """which members refer to storage that was made for them"""
        for oid, o in y.heap.items():
            if o.kind != 'heap' or not o.ty or o.orig is not None:
                continue
            for off, x in o.f.items():
                for z in (x[1] if x[0] == 'alt' else (x,)):
                    s.own_note(y, o.ty, off, z)

    def own_note(s, y, T, off, z):
        if z[0] != 'p' or z[2] != 0:
            return
        m = s.flat(T, off)
        if m is None:
            return
        q = y.heap.get(z[1])
        if q is None:
            return
        if z[1][0] in ('n', 'o') and q.st == 'live' and q.orig is None:
            if q.site is not None:
                s.owns.setdefault(m[:2], set()).add(q.site.loc())
        if z[1][0] in ('n', 'o', 'c'):
            for x in q.el:
                if x[0] == 'p' and x[1][0] in ('n', 'o') and x[1] in y.heap and y.heap[x[1]].st == 'live':
                    e = y.heap[x[1]]
                    s.elowns.setdefault(m[:2], set()).add((e.kind, 'struct ' + e.ty if e.ty else {'list': 'struct ArrayList', 'table': 'struct HASHTABLE_'}.get(e.kind, '')))

    def dangling(s, y, v, f, args):
        roots = [a for a in args if a[0] == 'p' and a[1] in y.heap and y.heap[a[1]].st != 'freed']
        if v is not None:
            roots.append(v)
        r = s.reach(y, roots)
        for oid in r:
            o = y.heap.get(oid)
            if o is None or o.st == 'freed' or o.kind == 'stack' or o.orig is not None:
                continue
            for off, x in o.f.items():
                for z in (x[1] if x[0] == 'alt' else (x,)):
                    if z[0] == 'p' and z[1] in y.heap and y.heap[z[1]].st == 'freed':
                        s.report('dangling', f.blocks[-1].insts[-1], '%s leaves a reference to released storage in a member (%s)' % (f.srcname, s.mname(o, off) if o.ty else off), y)
            for x in o.el:
                if x[0] == 'p' and x[1] in y.heap and y.heap[x[1]].st == 'freed':
                    s.report('dangling', f.blocks[-1].insts[-1], '%s leaves references to released storage in a container' % f.srcname, y)

    def store(s, st, inst, p, v, ty):
        if p[0] not in ('p', 'n', 'alt'):
            s.escape(st, v)
        if p[0] == 'p' and ty == 'ptr' and p[2] is not None and p[1] in st.heap:
            o = st.heap[p[1]]
            if o.ty and v[0] == 'p':
                s.own_note(st, o.ty, p[2], v)
            if o.dflt == 'lazy' and p[2] not in o.f and o.kind == 'heap' and not (o.arr and o.el) and o.st in ('in', 'live') and o.orig is None:
                m = s.flat(o.ty, p[2]) if o.ty else None
                if m and m[:2] in s.owns:
                    out = []
                    for y, _ in s.child(st, p[1], p[2]):
                        out += s.store(y, inst, p, v, ty)
                        for z in out[-1:]:
                            s.gc(z, inst)
                    return out
        return super().store(st, inst, p, v, ty)

    def escape(s, st, v):
        for x in (v[1] if v[0] == 'alt' else (v,)):
            if x[0] == 'p' and x[1] in st.heap and st.heap[x[1]].st == 'live' and st.heap[x[1]].kind != 'stack':
                st.mod(x[1]).st = 'maybe'

    def container_op(s, fn, i, st, name, args):
        op = s.OPS.get(name)
        if op is not None and op[0] is not None and args[0][0] == 'u' and len(args) > op[0]:
            v = s.content(st, args[op[0]])
            if v is not None:
                s.escape(st, v)
        return super().container_op(fn, i, st, name, args)

    NOCAPTURE = {'qsort', 'memcpy', 'memset', 'memmove', 'free', 'fwrite', 'fread', 'fgets', 'strtok', 'strcmp', 'sscanf', 'atoi', 'atof', 'strtod', 'strtol', 'fopen', 'PyArg_ParseTuple', 'PyArg_ParseTupleAndKeywords'}

    def opaque(s, st, i, args):
        c = i.d['callee']
        n = c['n'] if c.get('k') == 'fn' else None
        if n is not None and n not in PURE and n not in s.NOCAPTURE and not n.startswith('llvm.') and not s.collection(n):
            for a in args:
                s.escape(st, a)
        return super().opaque(st, i, args)

    def apply(s, fn, i, st, name, f, args):
        """call of a summarised function"""
        for k, a in enumerate(args):
            if a[0] == 'n' and len(a) > 1 and s.needs(name, k):
                s.report('null', i, '%s is called with storage whose allocation failed (NULL)' % name, st)
                return []
            if a[0] == 'p' and a[1] in st.heap and s.base_status(st, a[1]) == 'freed':
                s.report('released', i, '%s is called with storage that is already released' % name, st)
                return []
        var = s.summary(name, s.pattern(f, args))
        if var is None:
            return s.opaque(st, i, args)
        s.count('summarised calls')
        out = []
        mods = s.mods(name)
        usual = set((k, off) for (ret, fates, fail, outs), _ in var if not fail for k, off, w in outs if w == 'null')
        for (ret, fates, fail, outs), trace in var:
            if fail and (not s.fails or (st.fail or 0) + fail > s.MAXFAIL):
                continue
            y = st.copy()
            if fail:
                y.fail = (y.fail or 0) + fail
                y.trace = y.trace + trace
            if not s.require(y, i, name, args):
                continue
            s.havoc(y, args, mods)
            feas = True
            for k, off, w in outs:
                a = args[k]
                if a[0] == 'p' and a[1] in y.heap and y.heap[a[1]].kind in ('heap', 'stack') and a[2] is not None:
                    o = y.mod(a[1])
                    if w == 'set up':
                        t = s.pointee(f.dicanon[k + 1])
                        if o.ty is not None and t and o.ty != s.sname(t):
                            for e, _, _, _ in s.members(s.sname(t)):        # a part of the storage
                                if a[2] + e not in o.f:
                                    o.f[a[2] + e] = TOP
                            continue
                        if o.dflt in ('undef', 'zero') and o.ty is None and a[2] == 0 and t:
                            o.ty = s.sname(t)
                        if o.ty and o.dflt in ('undef', 'zero') and a[2] == 0 and o.kind == 'heap':
                            o.dflt = 'lazy'
                        elif o.ty is None or o.dflt != 'lazy':
                            o.dflt = 'top'
                    elif w == 'null':
                        s.setnull(y, a[1], off + a[2])
                        o = y.heap[a[1]]
                        if fail and (k, off) not in usual:
                            o.f[off + a[2]] = ('n', 'F', fn.name, i.id)         # because of the failure
                        o.wr = o.wr | {off + a[2]}
                    elif w == 'was null':
                        v = o.f.get(off + a[2])
                        if v is not None and v[0] == 'p':
                            feas = False
                        elif v is None or v[0] in ('alt', 'n'):
                            s.setnull(y, a[1], off + a[2])
                    else:
                        x = ('dead', a[1], off + a[2])
                        y.heap[x] = Obj('heap', 'freed', 'top')
                        o.f[off + a[2]] = ('p', x, 0)
            if not feas:
                continue
            ok = True
            for k, w in fates:
                a = args[k]
                if a[0] != 'p' or a[1] not in y.heap:
                    continue
                if w == 'freed':
                    q = y.heap[a[1]]
                    if q.st == 'freed' or q.kind == 'stack':
                        s.report('foreign', i, 'hands storage to %s that it must not release' % name, y); ok = False
                    else:
                        y.mod(a[1]).st = 'freed'
                elif w == 'maybe':
                    y.mod(a[1]).st = 'maybe'
                elif w == 'kept' and y.heap[a[1]].st == 'live':
                    for m in s.keptin.get((name, k), ()):
                        s.owns.setdefault(m, set()).add(y.heap[a[1]].site.loc() if y.heap[a[1]].site is not None else '')
                    y.mod(a[1]).st = 'given'
            if not ok:
                continue
            if i.ty == 'void':
                out.append(y); continue
            if ret is None:
                v = TOP
            elif ret[0] == 'null':
                v = ('n', 'F', fn.name, i.id) if fail else NULL
            elif ret[0] == 'c':
                v = ret
            elif ret[0] == 'arg':
                v = args[ret[1]]
            elif ret[0] == 'new':
                _, kind, ty, els, arr, nul = ret
                for y, v in s.alloc(y, i, kind, 'lazy' if ty and kind == 'heap' else 'top', False):
                    pass
                o = y.mod(v[1]); o.ty = ty; o.arr = arr
                for off in nul:
                    o.f[off] = NULL
                el = set()
                for k, (ek, et) in enumerate(sorted(els, key=repr)):
                    e = ('e', v[1], k)
                    x = Obj(ek, 'in', 'lazy' if et and ek == 'heap' else 'top'); x.ty = et; x.own = True; x.multi = True
                    y.heap[e] = x; el.add(('p', e, 0))
                o.el = frozenset(el)
            else:
                v = TOP if i.ty == 'ptr' else s.sym(y, i)
            y.env[i.id] = v
            out.append(y)
        return out

    def setnull(s, st, oid, off):
        m = st.mod(oid)
        v = m.f.get(off)
        m.f[off] = NULL
        for x in (v[1] if v is not None and v[0] == 'alt' else (v,)):
            if x is not None and x[0] == 'p' and x[1] in st.heap:
                if x[1] == ('c', oid, off):
                    for z in [z for z in st.heap if z == x[1] or s.under(z, x[1])]:
                        del st.heap[z]
                elif st.heap[x[1]].st == 'live':
                    st.mod(x[1]).st = 'maybe'

    def require(s, st, i, name, args):
        """members the callee overwrites must not own anything"""
        for (k, off), (inst, what, trace, stk) in s.reqs.get(name, {}).items():
            k = k[1] if isinstance(k, tuple) else k
            a = args[k]
            if a[0] != 'p' or a[1] not in st.heap or a[2] is None:
                continue
            o = st.heap[a[1]]
            off = off + a[2]
            v = o.f.get(off)
            if v is None and o.dflt != 'lazy' or v is not None and v[0] not in ('p', 'alt'):
                continue
            if v is not None:
                ps = [x for x in (v[1] if v[0] == 'alt' else (v,)) if x[0] == 'p' and x[1] in st.heap and st.heap[x[1]].st in ('in', 'live') and (st.heap[x[1]].own or x[1][0] in 'no')]
                if not ps or o.opt:
                    continue
            if a[1][0] == 'a' and (v is None or any(x[1] == ('c', a[1], off) for x in ps)):
                s.reqs.setdefault(s.root, {}).setdefault((a[1], off), (i, what, list(st.trace), list(s.stack)))
            elif o.orig is None:
                s.report('lost', i, '%s overwrites the member %s while it still refers to storage that has to be released' % (name, what), st)
        return True

    def havoc(s, st, args, mods):
        work = [a for a in args if a[0] == 'p' and a[1] in st.heap]
        r = s.reach(st, work)
        for oid in r:
            o = st.heap.get(oid)
            if o is None:
                continue
            if o.kind in ('list', 'table'):
                s.bump(st, oid)
            elif o.kind == 'heap' and o.ty:
                gone = [off for off in o.f if (s.flat(o.ty, off) or (0, 0, 0))[:2] in mods]
                if gone:
                    m = st.mod(oid)
                    for off in gone:
                        v = m.f.pop(off)
                        for x in (v[1] if v[0] == 'alt' else (v,)):
                            if x[0] == 'p' and x[1] in st.heap:
                                if x[1][0] == 'c':
                                    for k in [k for k in st.heap if k == x[1] or s.under(k, x[1])]:
                                        del st.heap[k]
                                elif st.heap[x[1]].st == 'live':
                                    st.mod(x[1]).st = 'maybe'
                    if m.dflt in ('undef', 'zero'):
                        m.dflt = 'lazy'
            elif o.kind == 'stack':
                m = st.mod(oid)
                for off in list(m.f):
                    if m.f[off][0] not in ('p', 'n', 'alt', 'f'):
                        m.f[off] = TOP


FITS = ('hdbscan_run', 'hdbscan_rerun', 'run', 'rerun')        # a model in any state may be fitted (again)


def nulltested(s, f, k):
    """the function asks whether its k-th argument is NULL"""
    for i in f.all_insts():
        if i.op == 'icmp' and i.d['pred'] in ('eq', 'ne') and any(o.get('k') == 'null' for o in i.ops) and any(o.get('k') == 'a' and o.get('i') == k for o in i.ops):
            return True
    return False


def scope(prog, pre=('src/', 'modules/'), coll=False):
    return [f for f in prog.defined() if relpath(f.file or '').startswith(pre) and coll == relpath(f.file).startswith('modules/collections') and not f.artificial]


def run_all(prog, fails=True, pre=('src/', 'modules/'), rounds=3, coll=False):
    A = None
    owns, elowns, reqs, full = {}, {}, {}, {}
    for r in range(rounds):
        A = Mod(prog)
        A.fails = fails; A.models = not coll
        A.owns, A.elowns, A.full, A.reqs = owns, elowns, full, {}
        n = (len(owns), sum(map(len, elowns.values())), len(full))
        for f in scope(prog, pre, coll):
            pats = ['p' * len(f.args)]
            for k, a in enumerate(f.args):
                if a['ty'] == 'ptr' and nulltested(A, f, k):
                    pats.append('p' * k + 'n' + 'p' * (len(f.args) - k - 1))
            for p in pats:
                A.summary(f.name, tuple(p))
        if r and n == (len(owns), sum(map(len, elowns.values())), len(full)):
            break
    called = set(n for f in prog.defined() for _, n in prog.calls[f.name])
    for name, q in A.reqs.items():
        if name in called or name is None or prog.fns[name].srcname.lower() not in FITS:
            continue            # what may be passed there is the caller's business
        for (a, off), (inst, what, trace, stk) in q.items():
            k = ('lost', inst.fn.name if inst is not None else name, inst.id if inst is not None else 0, '')
            A.found.setdefault(k, ('lost', inst if inst is not None else prog.fns[name].blocks[-1].insts[-1], 'the storage that the member %s refers to is neither released nor kept when %s overwrites it' % (what, name), trace, stk))
    return A
