"""Records with symbolic contents: states in which named structures have every field set to a symbol of its own, container
mutators logged as events instead of being followed, and helpers to compare what a function left in the fields."""
from looprec import *
from front import build, DEFAULT, CONFIGS, AnalysisBroken


def fty(f):
    c = f['canon']
    if c.endswith('*') or c == 'fn*':
        return 'ptr'
    if c in ('double', 'float'):
        return c
    return 'i%d' % (8 * f['size'])


class RecAI(LoopRec):
    MAXP = 64
    EVENTS = ('array_list_append', 'set_insert', 'hashtable_insert', 'array_list_insert_at', 'array_list_remove', 'set_remove', 'array_list_remove_at', 'set_remove_at', 'array_list_pop', 'array_list_clear')

    def __init__(s, prog):
        LoopRec.__init__(s, prog)
        s.init = {}
        s.hooks = {}
        s.derefs = []

    def call_hook(s, st, i, name, args):
        if name.startswith(('llvm.memcpy', 'llvm.memmove')) or name in ('memcpy', 'memmove'):
            d, q, n = st.res(args[0]), st.res(args[1]), aspoly(args[2])
            k = n.const() if n is not None else None
            if k in (1, 2, 4, 8) and q[0] == 'p' and d[0] == 'p' and q[1] != 'null' and not any(o == q[2] or st.eq0(o - q[2]) for o in st.heap.get(q[1], {})):
                r = st.reg.get(d[1])
                ty = r.site.d.get('aty') if r is not None and r.site is not None and r.site.op == 'alloca' else None
                if ty not in ('ptr', 'double', 'float') and not (ty and ty[0] == 'i' and ty[1:].isdigit()):
                    ty = 'i%d' % (8 * k)
                v = s.load_q(st, i, q, ty, k)
                out = s.models[name](s, st, i, args) if name in s.models else s.models['llvm.memcpy'](s, st, i, args) if 'llvm.memcpy' in s.models else m_memcpy(s, st, i, args)
                for x, _ in out:
                    x.heap.setdefault(d[1], {})[d[2]] = (v, k, ty); x.writes.add((d[1], d[2]))
                return out
        if name in s.hooks:
            r = s.hooks[name](s, st, i, args)
            if r is not None:
                return r
        if name in s.EVENTS:
            return s.event(st, i, name, args)
        if name.startswith('logger_') or name in ('printf', 'puts', 'putchar', 'fprintf'):
            return [(st, s.fresh(i.ty) if i.ty != 'void' else None)]
        return None

    def event(s, st, i, name, args):
        """log (name, container, contents of the element argument)"""
        el = None
        if len(args) > 1 and args[1][0] == 'p':
            el = s.peek(st, i, args[1])
        elif len(args) > 1:
            el = args[1]
        st.log = st.log + ((name, st.res(args[0]) if args and args[0][0] == 'p' else (args[0] if args else None), el, i),)
        return [(st, s.fresh(i.ty, name) if i.ty != 'void' else None)]

    def peek(s, st, i, p):
        p = st.res(p)
        c = st.heap.get(p[1], {})
        for o in c:
            if o == p[2] or st.eq0(o - p[2]):
                v = c[o][0]
                return st.res(v) if v[0] == 'p' else v
        return ('at', p[1], p[2])

    def record(s, st, tag, dt, kind='input'):
        d = s.prog.ditypes.get(dt)
        if not d:
            raise AnalysisBroken('structure %s not found' % dt)
        b = ('rec', tag)
        st.nul[b] = 'nonnull'; st.reg[b] = Region(kind, Poly.c(d['size']))
        cells = st.heap.setdefault(b, {})
        vals = {}
        for f in d['fields']:
            t = fty(f)
            if t == 'ptr':
                v = ('p', ('recp', tag, f['name']), ZERO)
            elif t in ('double', 'float'):
                v = ('f', ('init', tag, f['name']))
            elif f['size'] in (1, 2, 4, 8) and not f['canon'].startswith('struct'):
                w = 8 * f['size']
                uns = f['canon'].startswith('unsigned')
                v = ('i', Poly.a(atom(('init', tag, f['name'], w), '%s.%s' % (tag, f['name']), 0 if uns else -2 ** (w - 1), (2 ** w - 1 if w < 64 else None) if uns else 2 ** (w - 1) - 1, w)))
            else:
                continue
            cells[Poly.c(f['off'])] = (v, f['size'], t); vals[f['name']] = v
        s.init[tag] = vals
        return ('p', b, ZERO)

    def off(s, dt, name):
        for f in s.prog.ditypes[dt]['fields']:
            if f['name'] == name:
                return Poly.c(f['off'])
        raise AnalysisBroken('%s has no member %s' % (dt, name))

    def get(s, st, tag, dt, name):
        c = st.heap.get(('rec', tag), {}).get(s.off(dt, name))
        if c is None:
            return None
        v = c[0]
        return st.res(v) if v[0] == 'p' else v

    def put(s, st, tag, dt, name, v):
        for f in s.prog.ditypes[dt]['fields']:
            if f['name'] == name:
                st.heap[('rec', tag)][Poly.c(f['off'])] = (v, f['size'], fty(f)); s.init[tag][name] = v
                return
        raise AnalysisBroken('%s has no member %s' % (dt, name))

    def list_of(s, st, tag, step=8):
        """an array list with arbitrary contents"""
        p = s.record(st, tag, 'ArrayList')
        s.put(st, tag, 'ArrayList', 'step', ('i', Poly.c(step)))
        d = ('p', ('recp', tag, 'data'), ZERO)
        st.nul[d[1]] = 'nonnull'; st.reg[d[1]] = Region('heap', None, 'sym')
        st.add_ge(s.init[tag]['size'][1])
        return p

    def loops_of(s, st):
        """records of the loops passed on the way to st"""
        out = []
        for lp in s.loops:
            t = lp.H.trace
            q = st.trace[len(t):len(t) + 1]
            if st.trace[:len(t)] == t and q and q[0][0] == 'loop' and q[0][2:4] == (lp.header, lp.fn.name):
                out.append(lp)
        # entries of a loop that no branch tells apart differ in what was logged before
        keep = []
        for lp in out:
            same = [q for q in out if q.H.trace == lp.H.trace and (q.header, q.fn.name) == (lp.header, lp.fn.name)]
            if len(same) > 1:
                fit = [q for q in same if st.log[:len(q.H.log)] == q.H.log]
                if fit and lp not in fit:
                    continue
            keep.append(lp)
        return keep

    def loops_of_tail(s, st, n):
        """records of the loops passed on the way to st after the first n steps"""
        return [lp for lp in s.loops_of(st) if len(lp.H.trace) > n]


def cases(A, st, cond):
    """[(state, truth)] splitting st on cond"""
    d = A.decide(st, cond)
    if d is not None:
        return [(st, d)]
    out = []
    for x in A.assume(st.copy(), cond, True):
        out.append((x, True))
    for x in A.assume(st.copy(), cond, False):
        out.append((x, False))
    return out


def real(t):
    """float term with quotients written as products with a reciprocal"""
    if isinstance(t, tuple):
        if t and t[0] == 'fdiv':
            return ('fmul', real(t[1]), recip(real(t[2])))
        if t and t[0] == 'call' and FMA.match(t[1]) and len(t) == 5:
            return t[:2] + tuple(real(x) for x in t[2:])
        if t and t[0] in ('fadd', 'fsub', 'fmul', 'fneg', 'fptrunc', 'fpext'):
            return (t[0],) + tuple(real(x) for x in t[1:])
    return t


def recip(t):
    if isinstance(t, tuple) and t[0] in ('fptrunc', 'fpext'):
        return recip(t[1])
    if isinstance(t, tuple) and t[0] == 'fmul':
        return ('fmul', recip(t[1]), recip(t[2]))
    if isinstance(t, tuple) and t[0] == 'const' and isinstance(t[1], float) and t[1]:
        return ('const', 1.0 / t[1])
    if isinstance(t, tuple) and t[0] == 'inv':
        return t[1]
    return ('inv', t)


def rform(t, leaf=lambda x: x):
    """normal form over the reals, reciprocals as leaves; x*(1/x) cancelled"""
    p = fpoly(real(t), leaf)
    out = {}
    for m, c in p.items():
        m = list(m)
        for x in list(m):
            if isinstance(x, tuple) and x and x[0] == 'inv' and x in m and x[1] in m:
                m.remove(x); m.remove(x[1])
        m = tuple(sorted(m, key=repr))
        out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c}


def same_real(a, b, leaf=lambda x: x):
    try:
        return rform(a, leaf) == rform(b, leaf)
    except NotPoly:
        return None
