"""Abstract interpreter over the IR dump.

Domain: value numbering (polynomial normal forms for integers, base+offset pointers, Herbrand terms for
floating point), a field/element sensitive region memory with lazily materialised input cells, linear
inequality facts (polyhedral entailment by Fourier-Motzkin), finite orderings for floating point values,
and property specific ghost predicates.  The state is a bounded disjunction (trace partitioning).
Loops are solved by fixpoint: everything the body writes is havocked, and relations are recovered as the
greatest inductive subset of a template set (Houdini style).  Nothing is executed and no solver is used.
"""
import sys
from front import AnalysisBroken, relpath
from poly import *

sys.setrecursionlimit(20000)
ZERO = Poly.c(0)
ONE = Poly.c(1)
NULL = ('p', 'null', ZERO)
UNDEF = ('undef',)


def I(v):
    return ('i', Poly.c(v) if isinstance(v, int) else v)


def is_null(v):
    return v[0] == 'p' and v[1] == 'null' and v[2].const() == 0


def width(ty):
    if ty.startswith('i') and ty[1:].isdigit():
        return int(ty[1:])
    if ty == 'ptr':
        return 64
    return {'double': 64, 'float': 32, 'half': 16}.get(ty, 64)


class Region:
    __slots__ = ('kind', 'size', 'default', 'freed', 'site', 'ver', 'name', 'written', 'esz')

    def __init__(s, kind, size=None, default='sym', site=None, name=None):
        s.kind = kind; s.size = size; s.default = default; s.freed = None; s.site = site; s.ver = 0; s.name = name
        s.written = False; s.esz = None

    def copy(s):
        r = Region(s.kind, s.size, s.default, s.site, s.name)
        r.freed = s.freed; r.ver = s.ver; r.written = s.written; r.esz = s.esz
        return r


_GE = {}        # memo of entailments


class State:
    __slots__ = ('env', 'heap', 'facts', 'diseq', 'nul', 'alias', 'reg', 'ford', 'preds', 'trace', 'writes', 'bulk', 'btype', 'ghost', 'opq', 'log')

    def __init__(s):
        s.env = {}; s.heap = {}; s.facts = {}; s.diseq = set(); s.nul = {}; s.alias = {}; s.reg = {}; s.ford = {}
        s.preds = set(); s.trace = (); s.writes = set(); s.bulk = set(); s.btype = {}; s.ghost = {}; s.opq = {}; s.log = ()

    def copy(s):
        n = State.__new__(State)
        n.env = dict(s.env); n.heap = {b: dict(c) for b, c in s.heap.items()}; n.facts = dict(s.facts); n.diseq = set(s.diseq); n.nul = dict(s.nul)
        n.alias = dict(s.alias); n.reg = {b: r.copy() for b, r in s.reg.items()}; n.ford = dict(s.ford); n.preds = set(s.preds)
        n.trace = s.trace; n.writes = set(s.writes); n.bulk = set(s.bulk); n.btype = dict(s.btype); n.ghost = dict(s.ghost)
        n.opq = dict(s.opq); n.log = s.log
        return n

    # ---- facts
    def add_ge(s, p):
        k = p.const()
        if k is not None:
            return k >= 0
        s.facts[p] = True
        return True

    def ge(s, p):
        k = p.const()
        if k is not None:
            return k >= 0
        if p in s.facts:
            return True
        k = (p, frozenset(s.facts))
        r = _GE.get(k)
        if r is None:
            if len(_GE) > 300000:
                _GE.clear()
            r = _GE[k] = entails(list(s.facts), p)
        return r

    def eq0(s, p):
        k = p.const()
        if k is not None:
            return k == 0
        return s.ge(p) and s.ge(-p)

    def ne0(s, p):
        k = p.const()
        if k is not None:
            return k != 0
        if p in s.diseq or (-p) in s.diseq:
            return True
        return s.ge(p - 1) or s.ge(-p - 1)

    def same(s, p, q):
        return p == q or s.eq0(p - q)

    # ---- pointers
    def res(s, v):
        """resolve aliases / nullness"""
        while v[0] == 'p' and v[1] in s.alias:
            b, o = s.alias[v[1]]
            v = ('p', b, v[2] + o)
        if v[0] == 'p' and s.nul.get(v[1]) == 'null' and v[2].const() == 0:
            return NULL
        return v

    def nullness(s, v):
        v = s.res(v)
        if v[0] == 'fn':
            return 'nonnull'
        if v[0] != 'p':
            return None
        if v[1] == 'null':
            return 'null' if v[2].const() == 0 else 'nullish'
        if v[2].const() != 0:
            # p+off with off!=0: pointer arithmetic on a valid object
            return 'nonnull' if s.nul.get(v[1]) != 'null' else 'nullish'
        return s.nul.get(v[1])


class Finding:
    def __init__(s, rule, inst, msg, st=None, key=None):
        s.rule = rule; s.inst = inst; s.msg = msg; s.trace = st.trace if st is not None else ()
        s.key = key or (rule, inst.fn.name if inst is not None else '', inst.line if inst is not None else 0, msg)

    def __repr__(s):
        return '%s at %s in %s: %s' % (s.rule, s.inst.loc() if s.inst else '?', s.inst.fn.name if s.inst else '?', s.msg)


UNS = ('unsigned', 'size_t', 'index_t', 'label_t', 'uint', 'bool', '_Bool')


class Interp:
    MAXP = 16          # states per block before joining
    LOOPP = 4          # states entering a loop before joining
    MAXDEPTH = 14
    STEP_LIMIT = 3000000
    MEMO = False

    def __init__(s, prog):
        s.memo = {}
        s.prog = prog; s.findings = {}; s.quiet = 0; s.steps = 0; s.models = dict(BASE_MODELS); s.stack = []
        s.cmps = None; s.visited = set(); s.opaque_fns = set(); s.counts = {}
        s.analysed = set()

    # ------------------------------------------------------------ reporting
    def report(s, rule, inst, msg, st=None):
        if s.quiet:
            return
        f = Finding(rule, inst, msg, st)
        s.findings.setdefault(f.key, f)

    def count(s, k, n=1):
        if not s.quiet:
            s.counts[k] = s.counts.get(k, 0) + n

    # ------------------------------------------------------------ hooks
    def on_access(s, st, inst, ptr, n, kind):
        pass

    def on_store(s, st, inst, ptr, val, size):
        pass

    def on_free(s, st, inst, ptr, how):
        pass

    def on_indirect(s, st, inst, fv, args):
        return None

    def on_undef_read(s, st, inst, ptr):
        pass

    def on_null_deref(s, st, inst, ptr, sure):
        pass

    def lazy(s, st, base, off, ty, inst):
        return None

    def call_hook(s, st, inst, name, args):
        return None

    def loop_candidates(s, st, phis):
        return []

    def entails_pred(s, st, pred):
        return pred in st.preds

    def on_ret(s, st, fn, val):
        pass

    # ------------------------------------------------------------ naming
    def bname(s, b):
        if isinstance(b, tuple):
            if b[0] == 'arg':
                return b[2]
            if b[0] == 'ld':
                return '%s->%s' % (s.bname(b[1]), b[3])
            if b[0] in ('alloc', 'alloca', 'fresh', 'g'):
                return '%s' % (b[-1],)
        return str(b)

    def vname(s, v):
        if v[0] == 'i':
            return repr(v[1])
        if v[0] == 'p':
            if v[1] == 'null':
                return 'NULL' if v[2].const() == 0 else 'NULL+' + repr(v[2])
            return s.bname(v[1]) + ('' if v[2].const() == 0 else '+' + repr(v[2]))
        return str(v)

    # ------------------------------------------------------------ fresh values
    def fresh(s, ty, name='t', unsigned=False, st=None):
        if ty == 'ptr':
            return ('p', ('fresh', fresh_id(), name), ZERO)
        if ty in ('double', 'float', 'half', 'x86_fp80'):
            return ('f', ('sym', name, fresh_id()))
        if ty == 'i1':
            return ('b', ('opq', ('fresh', fresh_id())))
        if ty.startswith('i') and ty[1:].isdigit():
            w = int(ty[1:])
            lo, hi = (0, 2 ** w - 1) if unsigned else (-2 ** (w - 1), 2 ** (w - 1) - 1)
            if unsigned and w == 64:
                hi = None
            return ('i', Poly.a(fresh_atom(name, lo, hi, w)))
        return UNDEF

    def use_signed(s, inst):
        """is an integer SSA value used as unsigned? (users decide; LLVM ints are signless)"""
        us = inst.fn.users.get(('i', inst.id), [])
        seen = set(); work = list(us); uns = sig = False
        for u in work[:60]:
            if u.op in ('zext', 'uitofp', 'udiv', 'urem', 'lshr'):
                uns = True
            elif u.op in ('sext', 'sitofp', 'sdiv', 'srem', 'ashr'):
                sig = True
            elif u.op == 'icmp':
                if u.d['pred'][0] == 'u':
                    uns = True
                elif u.d['pred'][0] == 's':
                    sig = True
            elif u.op == 'phi' and u.id not in seen:
                seen.add(u.id); work += u.fn.users.get(('i', u.id), [])[:20]
        if uns and not sig:
            return True
        return False

    # ------------------------------------------------------------ operand evaluation
    def op(s, st, o):
        k = o['k']
        if k == 'i':
            v = st.env.get(o['i'])
            if v is None:
                return UNDEF
            return st.res(v) if v[0] == 'p' else v
        if k == 'a':
            v = st.env.get(('a', o['i']), UNDEF)
            return st.res(v) if v[0] == 'p' else v
        if k == 'c':
            if o['w'] == 1:
                return ('b', bool(o['v']))
            return I(o['v'])
        if k == 'null':
            return NULL
        if k == 'f':
            return ('f', ('const', canon_float(o['v'])))
        if k == 'fn':
            return ('fn', o['n'])
        if k == 'g':
            return ('p', ('g', o['n']), ZERO)
        if k == 'gep':
            b = s.op(st, o['base'])
            if b[0] == 'p':
                off = b[2] + o['off']
                for v in o['vars']:
                    x = s.op(st, v['idx'])
                    off = off + x[1] * v['scale'] if x[0] == 'i' else off
                return ('p', b[1], off)
            return UNDEF
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return ('zero',)
        if k == 'ce':
            if o['op'] in ('inttoptr', 'ptrtoint', 'bitcast'):
                return s.op(st, o['ops'][0])
        return ('other', str(o))

    # ------------------------------------------------------------ memory
    def region(s, st, base):
        r = st.reg.get(base)
        if r is None:
            r = Region('input')
            if isinstance(base, tuple) and base[0] == 'g':
                r.kind = 'global'
                g = s.prog.globals.get(base[1])
                if g:
                    r.size = Poly.c(g['size'])
            st.reg[base] = r
        return r

    def alloc(s, st, inst, size, default, name, maynull=True, kind='heap'):
        """returns list of (state, ptr)"""
        base = ('alloc', fresh_id(), name)
        out = []
        if maynull:
            z = st.copy()
            z.log = z.log + (('allocfail', inst.loc() if inst else ''),)
            out.append((z, NULL))
        r = Region(kind, size, default, inst, name)
        st.reg[base] = r; st.nul[base] = 'nonnull'
        out.insert(0, (st, ('p', base, ZERO)))
        return out

    def overlap(s, st, o1, n1, o2, n2):
        """may [o1,o1+n1) overlap [o2,o2+n2)"""
        d = o1 - o2
        k = d.const()
        if k is not None and n1 is not None and n2 is not None:
            return not (k >= n2 or -k >= n1)
        if n1 is None or n2 is None:
            return True
        if st.ge(d - n2) or st.ge(-d - n1):
            return False
        return True

    def load(s, st, inst, ptr, ty, size):
        ptr = st.res(ptr)
        if ptr[0] != 'p':
            return s.fresh(ty, 'ld')
        s.deref(st, inst, ptr, Poly.c(size), 'load')
        return s.load_q(st, inst, ptr, ty, size)

    def load_q(s, st, inst, ptr, ty, size):
        base, off = ptr[1], ptr[2]
        if base == 'null':
            return s.fresh(ty, 'nullload')
        r = s.region(st, base)
        cells = st.heap.setdefault(base, {})
        c = cells.get(off)
        if c is None and off.const() is None:
            for o2 in cells:
                if o2.const() is None and st.eq0(o2 - off):
                    off = o2; c = cells[o2]; break
        if c is not None:
            v, sz, vty = c
            if v[0] == 'p':
                v = st.res(v)
            if v == UNDEF or v[0] == 'undef':
                s.on_undef_read(st, inst, ptr)
                return s.fresh(ty, 'undef')
            if sz == size and tycompat(vty, ty):
                return v
            if v[0] == 'zero':
                return zero_of(ty)
            return s.fresh(ty, 'cast')
        ov = [o2 for o2, (v2, sz2, _) in cells.items() if s.overlap(st, off, size, o2, sz2)]
        written = [o2 for o2 in ov if (base, o2) in st.writes or r.written]
        if written and r.default != 'sym' or (r.written and any(o2.const() is None or off.const() is None for o2 in ov) and ov):
            v = s.lazyval(st, inst, base, off, ty, r, True)
            return v
        if r.default == 'zero':
            v = zero_of(ty)
        elif r.default == 'undef':
            s.on_undef_read(st, inst, ptr)
            v = s.fresh(ty, 'undef')
        else:
            v = s.lazyval(st, inst, base, off, ty, r, False)
        if not ov:
            cells[off] = (v, size, ty)
        return v

    def lazyval(s, st, inst, base, off, ty, r, transient):
        if not transient:
            v = s.lazy(st, base, off, ty, inst)
            if v is not None:
                return v
        nm, uns = s.field_hint(st, inst, base, off, ty)
        key = (base, off, r.ver)
        if transient:
            key = (base, off, r.ver, fresh_id())
        if isinstance(base, tuple) and base[0] == 'g' and off.const() is not None:
            v = s.global_init(base[1], off.const(), ty)
            if v is not None:
                return v
        if ty == 'ptr':
            return ('p', ('ld', base, key, nm), ZERO)
        if ty in ('double', 'float'):
            return ('f', ('ld', base, key, nm))
        if ty == 'i1':
            return ('b', ('opq', ('ld',) + key))
        if ty.startswith('i') and ty[1:].isdigit():
            w = int(ty[1:])
            lo, hi = (0, None if w == 64 else 2 ** w - 1) if uns else (-2 ** (w - 1), 2 ** (w - 1) - 1)
            return ('i', Poly.a(atom(('ld',) + key + (w, uns), '%s->%s' % (s.bname(base), nm), lo, hi, w)))
        return UNDEF

    def global_init(s, name, off, ty):
        g = s.prog.globals.get(name)
        if g and g.get('const'):
            if 'ints' in g and ty.startswith('i'):
                if off % g['esize'] == 0 and off // g['esize'] < len(g['ints']):
                    return I(g['ints'][off // g['esize']])
        return None

    def field_hint(s, st, inst, base, off, ty):
        nm = repr(off); uns = None
        k = off.const()
        # struct path on the address computation
        if inst is not None and inst.op in ('load',) and inst.ops:
            a = inst.ops[0]
            g = inst.fn.insts.get(a['i']) if a['k'] == 'i' else None
            path = None
            if g is not None and g.op == 'getelementptr':
                path = g.d.get('path')
            elif a['k'] == 'gep':
                path = a.get('path')
            if path:
                p = path[-1]
                f = s.prog.field_at(p['struct'], p['off'])
                if f:
                    nm = f['name'] if k is not None else '%r.%s' % (off, f['name'])
                    uns = any(f['canon'].startswith(u) for u in UNS)
        if uns is None and k is not None and base in st.btype:
            f = s.prog.field_at(st.btype[base], k)
            if f:
                nm = f['name']; uns = any(f['canon'].startswith(u) for u in UNS)
        if uns is None:
            uns = s.use_signed(inst) if inst is not None and inst.op == 'load' else False
        return nm, uns

    def store(s, st, inst, ptr, val, size, ty):
        ptr = st.res(ptr)
        if ptr[0] != 'p':
            return
        s.deref(st, inst, ptr, Poly.c(size), 'store')
        s.on_store(st, inst, ptr, val, size)
        s.store_q(st, ptr, val, size, ty)

    def store_q(s, st, ptr, val, size, ty):
        base, off = ptr[1], ptr[2]
        if base == 'null':
            return
        r = s.region(st, base)
        r.written = True
        cells = st.heap.setdefault(base, {})
        kill = [o2 for o2, (v2, sz2, _) in cells.items() if o2 != off and s.overlap(st, off, size, o2, sz2)]
        for o2 in kill:
            del cells[o2]
            st.writes.add((base, o2))
        if kill:
            r.ver = fresh_id()
            if r.default in ('zero', 'undef'):
                r.default = 'mixed'
        elif off.const() is None and r.default in ('zero', 'undef'):
            r.default = 'mixed'
        cells[off] = (val, size, ty)
        st.writes.add((base, off))

    def bulk_write(s, st, ptr, n=None, default='mixed'):
        """[ptr, ptr+n) overwritten with unknown contents"""
        ptr = st.res(ptr)
        if ptr[0] != 'p' or ptr[1] == 'null':
            return
        base, off = ptr[1], ptr[2]
        r = s.region(st, base)
        cells = st.heap.setdefault(base, {})
        nk = n.const() if n is not None else None
        whole = False
        if r.size is not None and n is not None and off.const() == 0 and n == r.size:
            whole = True
        for o2 in list(cells):
            v2, sz2, _ = cells[o2]
            if nk is not None:
                ov = s.overlap(st, off, nk, o2, sz2)
            elif n is not None:
                d = o2 - off
                ov = not (st.ge(d - n) or st.ge(-d - sz2))
            else:
                ov = True
            if ov:
                del cells[o2]
        r.ver = fresh_id(); r.written = True
        if whole:
            r.default = default
        elif r.default != default:
            r.default = 'mixed' if r.default != 'sym' else 'sym'
        st.bulk.add(base)

    def deref(s, st, inst, ptr, n, kind):
        nn = st.nullness(ptr)
        if nn in ('null', 'nullish'):
            s.on_null_deref(st, inst, ptr, True)
        elif nn is None:
            s.on_null_deref(st, inst, ptr, False)
            b = st.res(ptr)[1]
            st.nul[b] = 'nonnull'
        s.on_access(st, inst, ptr, n, kind)

    # ------------------------------------------------------------ conditions
    def mknot(s, c):
        if c is True:
            return False
        if c is False:
            return True
        if c[0] == 'not':
            return c[1]
        if c[0] == 'ge':
            return ('ge', -c[1] - 1)
        return ('not', c)

    def icmp(s, st, pred, a, b, ty):
        if a[0] == 'undef' or b[0] == 'undef':
            return ('opq', ('undef', fresh_id()))
        if a[0] in ('p', 'fn') or b[0] in ('p', 'fn'):
            if pred in ('eq', 'ne'):
                if a[0] == 'i' and a[1].const() == 0:
                    a = NULL
                if b[0] == 'i' and b[1].const() == 0:
                    b = NULL
                if s.cmps is not None and a[0] == 'p' and b[0] == 'p':
                    ra, rb = st.res(a), st.res(b)
                    if ra[1] == rb[1]:
                        s.cmps.append((ra[2], rb[2]))
                c = ('peq', a, b)
                return c if pred == 'eq' else s.mknot(c)
            if a[0] == 'p' and b[0] == 'p':
                a, b = st.res(a), st.res(b)
                if a[1] == b[1]:
                    return s.cmp_poly(st, pred.replace('u', 's'), a[2], b[2])
            return ('pcmp', pred, a, b)
        if a[0] == 'b' or b[0] == 'b':
            if pred in ('eq', 'ne'):
                ca = a[1] if a[0] == 'b' else (a[1].const() != 0 if a[1].const() is not None else ('opq', a))
                cb = b[1] if b[0] == 'b' else (b[1].const() != 0 if b[1].const() is not None else ('opq', b))
                if cb in (True, False):
                    r = ca if cb else s.mknot(ca)
                    return r if pred == 'eq' else s.mknot(r)
            return ('opq', ('bcmp', pred, a, b))
        if a[0] != 'i' or b[0] != 'i':
            return ('opq', ('cmp', pred, a, b))
        return s.cmp_poly(st, pred, a[1], b[1], ty)

    def cmp_poly(s, st, pred, a, b, ty='i64'):
        # booleans widened to int
        for x, y, sw in ((a, b, False), (b, a, True)):
            i = x.single()
            if i is not None and ATOMS[i].key[0] == 'b2i' and y.const() is not None:
                c = ATOMS[i].key[1]; k = y.const()
                one = ATOMS[i].key[2] if len(ATOMS[i].key) > 2 else 1
                v0, v1 = 0, one
                f = CMPF[pred]
                r0 = f(k, v0) if sw else f(v0, k)
                r1 = f(k, v1) if sw else f(v1, k)
                if r0 == r1:
                    return r0
                return c if r1 else s.mknot(c)
        if s.cmps is not None:
            s.cmps.append((a, b))
        if pred in ('eq', 'ne'):
            w0 = width(ty)
            for x, y in ((a, b), (b, a)):
                k = y.const()
                if k is not None and k < 0 and w0 < 65:
                    lo = lower(x)
                    if lo is not None and lo >= 0:
                        if x is a:
                            b = Poly.c(k + 2 ** w0)
                        else:
                            a = Poly.c(k + 2 ** w0)
            d = a - b
            k = d.const()
            if k is not None:
                return (k == 0) if pred == 'eq' else (k != 0)
            c = ('eq', d)
            return c if pred == 'eq' else s.mknot(c)
        if pred[0] == 'u':
            w = width(ty)
            if b.const() is not None and b.const() < 0:
                b = Poly.c(b.const() + 2 ** w)
            if a.const() is not None and a.const() < 0:
                a = Poly.c(a.const() + 2 ** w)
            if pred == 'ult' and b.const() == 0:
                return False
            if pred == 'uge' and b.const() == 0:
                return True
            if pred == 'ugt' and a.const() == 0:
                return False
            if pred == 'ule' and a.const() == 0:
                return True
            pa, pb = s.nonneg(st, a), s.nonneg(st, b)
            if not (pa and pb):
                # (unsigned)x < k with x possibly negative: true side still implies 0<=x
                return ('ucmp', pred, a, b, w)
        q = pred[1:]
        if q == 'lt':
            return s.ge_c(b - a - 1)
        if q == 'le':
            return s.ge_c(b - a)
        if q == 'gt':
            return s.ge_c(a - b - 1)
        return s.ge_c(a - b)

    def nonneg(s, st, p):
        lo = lower(p)
        if lo is not None and lo >= 0:
            return True
        return st.ge(p)

    def ge_c(s, p):
        k = p.const()
        if k is not None:
            return k >= 0
        return ('ge', p)

    def decide(s, st, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k == 'not':
            r = s.decide(st, c[1])
            return None if r is None else not r
        if k == 'ge':
            if st.ge(c[1]):
                return True
            if st.ge(-c[1] - 1):
                return False
            return None
        if k == 'eq':
            if st.eq0(c[1]):
                return True
            if st.ne0(c[1]):
                return False
            return None
        if k == 'peq':
            return s.decide_peq(st, c[1], c[2])
        if k == 'and':
            a, b = s.decide(st, c[1]), s.decide(st, c[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == 'or':
            a, b = s.decide(st, c[1]), s.decide(st, c[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if k == 'fc':
            return s.decide_f(st, c)
        if k == 'ucmp':
            _, pred, a, b, w = c
            if s.nonneg(st, a) and s.nonneg(st, b):
                return s.decide(st, s.cmp_poly(st, 's' + pred[1:], a, b))
            return None
        if c in st.opq:
            return st.opq[c]
        return None

    def decide_peq(s, st, a, b):
        a, b = st.res(a), st.res(b)
        if a == b:
            return True
        if a[0] == 'fn' and b[0] == 'fn':
            return a[1] == b[1]
        for x, y in ((a, b), (b, a)):
            if is_null(y):
                n = st.nullness(x)
                if n == 'null':
                    return True
                if n in ('nonnull', 'nullish'):
                    return False
                return None
        if a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1]:
                d = a[2] - b[2]
                if st.eq0(d):
                    return True
                if st.ne0(d):
                    return False
                return None
            ra, rb = st.reg.get(a[1]), st.reg.get(b[1])
            ha = ra is not None and ra.kind in ('heap', 'stack'); hb = rb is not None and rb.kind in ('heap', 'stack')
            if ha and hb:
                return False
            if (ha and a[2].const() is not None) or (hb and b[2].const() is not None):
                return False     # fresh allocation differs from every pre-existing object
            if ('pne', a, b) in st.preds or ('pne', b, a) in st.preds:
                return False
            if st.nul.get(a[1]) == 'null' and st.nul.get(b[1]) == 'nonnull' or st.nul.get(b[1]) == 'null' and st.nul.get(a[1]) == 'nonnull':
                return False
        return None

    def assume(s, st, c, truth):
        """refine st (in place) with c==truth; returns list of feasible states"""
        if c is True or c is False:
            return [st] if c == truth else []
        k = c[0]
        if k == 'not':
            return s.assume(st, c[1], not truth)
        d = s.decide(st, c)
        if d is not None:
            return [st] if d == truth else []
        if k == 'and':
            if truth:
                out = []
                for x in s.assume(st, c[1], True):
                    out += s.assume(x, c[2], True)
                return out
            a = st.copy()
            out = s.assume(a, c[1], False)
            for x in s.assume(st, c[1], True):
                out += s.assume(x, c[2], False)
            return out
        if k == 'or':
            return s.assume(st, ('and', s.mknot(c[1]), s.mknot(c[2])), not truth)
        if k == 'ge':
            p = c[1] if truth else -c[1] - 1
            st.add_ge(p)
            return s.tighten_diseq(st)
        if k == 'eq':
            if truth:
                st.add_ge(c[1]); st.add_ge(-c[1])
                return [st]
            st.diseq.add(c[1])
            return s.tighten_diseq(st)
        if k == 'ucmp':
            _, pred, a, b, w = c
            q = pred[1:]
            if q in ('lt', 'le') and truth and s.nonneg(st, b):
                st.add_ge(a); st.add_ge(b - a - (1 if q == 'lt' else 0))
            elif q in ('gt', 'ge') and not truth and s.nonneg(st, b):
                st.add_ge(a); st.add_ge(b - a - (1 if q == 'ge' else 0))
            elif q in ('gt', 'ge') and truth and s.nonneg(st, a):
                st.add_ge(b); st.add_ge(a - b - (1 if q == 'gt' else 0))
            elif q in ('lt', 'le') and not truth and s.nonneg(st, a):
                st.add_ge(b); st.add_ge(a - b - (1 if q == 'le' else 0))
            st.opq[c] = truth
            return [st]
        if k == 'peq':
            return s.assume_peq(st, st.res(c[1]), st.res(c[2]), truth)
        if k == 'fc':
            return s.assume_f(st, c, truth)
        st.opq[c] = truth
        return [st]

    def tighten_diseq(s, st):
        for d in list(st.diseq):
            if not d.t:
                return []
            if st.ge(d) and st.ge(-d):
                return []
            if st.ge(d):
                st.add_ge(d - 1); st.diseq.discard(d)
            elif st.ge(-d):
                st.add_ge(-d - 1); st.diseq.discard(d)
        return [st]

    def assume_peq(s, st, a, b, truth):
        for x, y in ((a, b), (b, a)):
            if is_null(y):
                if x[0] == 'p' and x[2].const() == 0:
                    st.nul[x[1]] = 'null' if truth else 'nonnull'
                    return s.on_nullness(st, x[1], truth)
                return [st]
        if not truth:
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                st.diseq.add(a[2] - b[2])
                return s.tighten_diseq(st)
            st.preds.add(('pne', a, b))
            return [st]
        if a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1]:
                st.add_ge(a[2] - b[2]); st.add_ge(b[2] - a[2])
                return [st]
            return s.unify(st, a, b)
        return [st]

    def on_nullness(s, st, base, isnull):
        return [st]

    def unify(s, st, a, b):
        # map b's base onto a's (prefer keeping args / known regions)
        def rank(x):
            r = st.reg.get(x[1])
            return (0 if r is not None and r.kind in ('heap', 'stack', 'global') else 1, 0 if x[1][0] == 'arg' else 1, len(str(x[1])))
        if rank(b) < rank(a):
            a, b = b, a
        off = a[2] - b[2]
        st.alias[b[1]] = (a[1], off)
        if st.nul.get(b[1]) == 'nonnull' or st.nul.get(a[1]) == 'nonnull':
            if st.nul.get(a[1]) == 'null' or st.nul.get(b[1]) == 'null':
                return []
            st.nul[a[1]] = 'nonnull'
        elif st.nul.get(b[1]) == 'null':
            st.nul[a[1]] = 'null'
        cb = st.heap.pop(b[1], {})
        ca = st.heap.setdefault(a[1], {})
        eqs = []
        for o, (v, sz, ty) in cb.items():
            k = o + off
            if k in ca:
                eqs.append((ca[k][0], v, ty, ca[k]))
            else:
                ca[k] = (v, sz, ty)
        for p in list(st.preds):
            q = tuple(st.res(x) if isinstance(x, tuple) and x and x[0] == 'p' else x for x in p)
            if q != p:
                st.preds.discard(p); st.preds.add(q)
                if q[0] == 'pne' and q[1] == q[2]:
                    return []
        for v1, v2, ty, _ in eqs:
            v1, v2 = (st.res(v1), st.res(v2)) if v1[0] == 'p' and v2[0] == 'p' else (v1, v2)
            if v1 == v2:
                continue
            if v1[0] == 'p' and v2[0] == 'p':
                d = s.decide_peq(st, v1, v2)
                if d is False:
                    return []
                r = s.assume_peq(st, v1, v2, True)
                if not r:
                    return []
            elif v1[0] == 'i' and v2[0] == 'i':
                st.add_ge(v1[1] - v2[1]); st.add_ge(v2[1] - v1[1])
        return [st]

    # ---- floating orderings: subsets of {'<','=','>'} ('u' only when NaN is possible)
    FULL = frozenset('<=>')

    def fkey(s, a, b):
        ka, kb = repr(a), repr(b)
        return (a, b, False) if ka <= kb else (b, a, True)

    def frel(s, st, a, b):
        if a == b:
            return frozenset('=')
        ca, cb = fconst(a), fconst(b)
        if ca is not None and cb is not None:
            return frozenset('<' if ca < cb else '>' if ca > cb else '=')
        x, y, sw = s.fkey(a, b)
        r = st.ford.get((x, y), s.FULL)
        if sw:
            r = frozenset({'<': '>', '>': '<', '=': '='}[q] for q in r)
        if len(r) > 1:
            # transitive closure through known relations
            if s.fle(st, a, b, strict=True):
                return frozenset('<')
            if s.fle(st, b, a, strict=True):
                return frozenset('>')
            if s.fle(st, a, b):
                r = r & frozenset('<=')
            if s.fle(st, b, a):
                r = r & frozenset('>=')
        return r

    def fedges(s, st):
        g = {}
        for (x, y), r in st.ford.items():
            if '>' not in r:
                g.setdefault(x, []).append((y, '=' not in r))
            if '<' not in r:
                g.setdefault(y, []).append((x, '=' not in r))
        return g

    def fle(s, st, a, b, strict=False):
        g = s.fedges(st)
        seen = set(); stk = [(a, False)]
        while stk:
            x, sg = stk.pop()
            if x == b and (sg or not strict):
                return True
            if (x, sg) in seen:
                continue
            seen.add((x, sg))
            for y, e in g.get(x, []):
                stk.append((y, sg or e))
        return False

    FP = {'oeq': '=', 'one': '<>', 'olt': '<', 'ole': '<=', 'ogt': '>', 'oge': '>=', 'ueq': '=', 'une': '<>', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>=', 'ord': '<=>', 'uno': '', 'true': '<=>', 'false': ''}

    def decide_f(s, st, c):
        _, pred, a, b = c
        if pred in ('ord', 'uno'):
            return pred == 'ord'
        r = s.frel(st, a, b); t = frozenset(s.FP[pred])
        if r <= t:
            return True
        if not (r & t):
            return False
        return None

    def assume_f(s, st, c, truth):
        _, pred, a, b = c
        t = frozenset(s.FP[pred])
        if not truth:
            t = s.FULL - t
        r = s.frel(st, a, b) & t
        if not r:
            return []
        x, y, sw = s.fkey(a, b)
        if sw:
            r = frozenset({'<': '>', '>': '<', '=': '='}[q] for q in r)
        st.ford[(x, y)] = r
        return [st]

    # ------------------------------------------------------------ execution
    def entry_state(s, fn):
        """generic entry: arguments are fresh inputs"""
        st = State()
        args = []
        for k, a in enumerate(fn.args):
            args.append(s.arg_value(st, fn, k))
        return st, args

    def arg_value(s, st, fn, k, nonnull=False):
        a = fn.args[k]; nm = a['name'] or 'arg%d' % k
        ty = a['ty']
        if ty == 'ptr':
            b = ('arg', fn.name, nm)
            if nonnull:
                st.nul[b] = 'nonnull'
            return ('p', b, ZERO)
        if ty in ('double', 'float'):
            return ('f', ('sym', nm, fn.name))
        if ty == 'i1':
            return ('b', ('opq', ('arg', fn.name, nm)))
        if ty.startswith('i') and ty[1:].isdigit():
            w = int(ty[1:]); uns = False
            if len(fn.dicanon) == len(fn.args) + 1:
                uns = any(fn.dicanon[k + 1].startswith(u) for u in UNS)
            lo, hi = (0, None if w == 64 else 2 ** w - 1) if uns else (-2 ** (w - 1), 2 ** (w - 1) - 1)
            return ('i', Poly.a(atom(('arg', fn.name, nm), nm, lo, hi, w)))
        return UNDEF

    def run(s, fn, st, args):
        """analyse fn from st; returns list of (state, retval)"""
        if fn.name in s.stack and s.stack.count(fn.name) >= 1 or len(s.stack) > s.MAXDEPTH:
            return s.opaque_call(st, None, fn, args)
        saved = st.env
        st.env = {('a', k): v for k, v in enumerate(args)}
        for k, a in enumerate(fn.args):
            if a.get('byval') and args[k][0] == 'p':
                pass
        s.stack.append(fn.name)
        if not s.quiet:
            s.analysed.add(fn.name)
        try:
            R = s.region_run(fn, [(0, None, st)], None, None)
        finally:
            s.stack.pop()
        out = []
        for (rs, v) in R['ret']:
            rs.env = dict(saved)
            out.append((rs, v))
        out = s.limit_rets(out)
        return out

    def limit_rets(s, out):
        if len(out) <= s.MAXP:
            return out
        groups = {}
        for rs, v in out:
            k = repr(v) if v is not None and (v[0] != 'i' or v[1].const() is not None) and v[0] != 'f' else str(v and v[0])
            groups.setdefault((k, s.ret_key(rs)), []).append((rs, v))
        res = []
        for k, l in groups.items():
            if len(l) == 1:
                res += l; continue
            for rs, v in l:
                rs.env['__ret'] = v if v is not None else UNDEF
            for j in s.join_all([rs for rs, _ in l], max(2, s.MAXP // len(groups))):
                v = j.env.pop('__ret', UNDEF)
                res.append((j, None if l[0][1] is None else v))
        return res

    def region_run(s, fn, entries, region, header):
        rpo = {b: i for i, b in enumerate(fn.rpo)}
        pend = {}
        for b, pv, st in entries:
            pend.setdefault(b, []).append((pv, st))
        res = {'ret': [], 'exits': [], 'latch': []}
        loops = fn.loops
        first = True
        while pend:
            b = min(pend, key=lambda x: rpo.get(x, 10 ** 6))
            items = pend.pop(b)
            started = (b == header and first)
            first = False
            if b in loops and b != header:
                outs = s.run_loop(fn, b, items)
                res['ret'] += outs['ret']
                edges = outs['exits']
            else:
                if b != header or not started:
                    items = s.limit(fn, b, items)
                edges = []
                for pv, st in items:
                    e, r = s.exec_block(fn, b, pv, st, skip_phi=started)
                    edges += e; res['ret'] += r
            for (t, pv, st) in edges:
                if t == header:
                    res['latch'].append((pv, st))
                elif region is not None and t not in region:
                    res['exits'].append((t, pv, st))
                else:
                    pend.setdefault(t, []).append((pv, st))
        return res

    def limit(s, fn, b, items):
        if len(items) <= s.MAXP:
            return items
        # evaluate phis first so states can be joined across predecessors
        sts = []
        for pv, st in items:
            s.do_phis(fn, b, pv, st)
            sts.append(st)
        j = s.join_all(sts, s.MAXP)
        return [('phidone', x) for x in j]

    def do_phis(s, fn, b, pv, st):
        new = {}
        for i in fn.blocks[b].insts:
            if i.op != 'phi':
                break
            for o in i.ops:
                if o['b'] == pv:
                    new[i.id] = s.op(st, o['v']); break
        st.env.update(new)

    def exec_block(s, fn, b, pv, st, skip_phi=False):
        B = fn.blocks[b]
        s.visited.add((fn.name, b))
        if not skip_phi and pv is not None and pv != 'phidone':
            s.do_phis(fn, b, pv, st)
        work = [(0, st)]
        edges = []; rets = []
        while work:
            k, st = work.pop()
            while True:
                i = B.insts[k]
                if i.op == 'phi':
                    k += 1; continue
                s.steps += 1
                if s.steps > s.STEP_LIMIT:
                    raise AnalysisBroken('step limit in ' + fn.name)
                if i.op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'invoke', 'indirectbr'):
                    e, r = s.terminator(fn, b, i, st)
                    edges += e; rets += r
                    break
                outs = s.step(fn, i, st)
                if not outs:
                    break
                st = outs[0]
                for o in outs[1:]:
                    work.append((k + 1, o))
                k += 1
        return edges, rets

    def terminator(s, fn, b, i, st):
        if i.op == 'ret':
            v = s.op(st, i.ops[0]) if i.ops else None
            return [], [(st, v)]
        if i.op in ('unreachable', 'resume', 'indirectbr'):
            return [], []
        if i.op == 'br':
            if len(i.ops) == 1:
                return [(i.ops[0]['i'], b, st)], []
            c = s.op(st, i.ops[0])
            c = c[1] if c[0] == 'b' else ('opq', (fn.name, i.id, fresh_id()))
            fb, tb = i.ops[1]['i'], i.ops[2]['i']
            out = []
            d = s.decide(st, c)
            if d is not False:
                t = st if d else st.copy()
                for x in s.assume(t, c, True):
                    if d is None:
                        x.trace = x.trace + ((i.loc(), True, b, fn.name),)
                    out.append((tb, b, x))
            if d is not True:
                for x in s.assume(st, c, False):
                    if d is None:
                        x.trace = x.trace + ((i.loc(), False, b, fn.name),)
                    out.append((fb, b, x))
            return out, []
        if i.op == 'switch':
            v = s.op(st, i.ops[0])
            out = []
            rest = st
            tgt = {}
            if v[0] == 'b':
                for c in i.d['cases']:
                    x = rest.copy()
                    for y in s.assume(x, v[1], bool(c['v'])):
                        out.append((c['b'], b, y))
                return out + [(i.d['default'], b, rest)], []
            for c in i.d['cases']:
                cond = s.cmp_poly(rest, 'eq', v[1], Poly.c(c['v']), 'i%d' % i.ops[0].get('w', 64)) if v[0] == 'i' else ('opq', (i.id, c['v']))
                x = rest.copy()
                for y in s.assume(x, cond, True):
                    y.trace = y.trace + ((i.loc(), c['v'], b, fn.name),)
                    out.append((c['b'], b, y))
                r = s.assume(rest, cond, False)
                if not r:
                    rest = None; break
                rest = r[0]
            if rest is not None:
                rest.trace = rest.trace + ((i.loc(), 'default', b, fn.name),)
                out.append((i.d['default'], b, rest))
            return out, []
        if i.op == 'invoke':
            outs = s.call(fn, i, st)
            return [(i.d['normal'], b, x) for x in outs], []
        raise AnalysisBroken('terminator ' + i.op)

    # ------------------------------------------------------------ instructions
    def step(s, fn, i, st):
        o = i.op
        E = st.env
        if o == 'load':
            E[i.id] = s.load(st, i, s.op(st, i.ops[0]), i.ty, i.d['size'])
            return [st]
        if o == 'store':
            s.store(st, i, s.op(st, i.ops[1]), s.op(st, i.ops[0]), i.d['size'], i.d['vty'])
            return [st]
        if o == 'getelementptr':
            b = s.op(st, i.ops[0])
            if b[0] == 'p':
                off = b[2] + i.d['off']
                for v in i.d['vars']:
                    x = s.op(st, v['idx'])
                    if x[0] == 'i':
                        off = off + x[1] * v['scale']
                    else:
                        off = off + Poly.a(fresh_atom('idx'))
                if i.d['path'] and not i.d['vars'] and b[2].const() is not None:
                    st.btype.setdefault(b[1], i.d['path'][0]['struct']) if b[2].const() == 0 else None
                E[i.id] = ('p', b[1], off)
            else:
                E[i.id] = s.fresh('ptr', 'gep')
            return [st]
        if o in ('call',):
            return s.call(fn, i, st)
        if o == 'alloca':
            b = ('alloca', fresh_id(), i.n or 'tmp')
            n = s.op(st, i.ops[0])
            r = Region('stack', n[1] * i.d['asize'] if n[0] == 'i' else None, 'undef', i, i.n)
            st.reg[b] = r; st.nul[b] = 'nonnull'
            E[i.id] = ('p', b, ZERO)
            return [st]
        if o == 'icmp':
            E[i.id] = ('b', s.icmp(st, i.d['pred'], s.op(st, i.ops[0]), s.op(st, i.ops[1]), i.d['opty']))
            return [st]
        if o == 'fcmp':
            a, b = s.op(st, i.ops[0]), s.op(st, i.ops[1])
            if a[0] == 'f' and b[0] == 'f':
                E[i.id] = ('b', ('fc', i.d['pred'], a[1], b[1]))
            else:
                E[i.id] = ('b', ('opq', ('fcmp', fresh_id())))
            return [st]
        if o == 'select':
            c = s.op(st, i.ops[0])
            a, b = s.op(st, i.ops[1]), s.op(st, i.ops[2])
            if c[0] == 'b':
                if a[0] == 'b' and b[0] == 'b':
                    # logical and/or
                    if b[1] is False:
                        E[i.id] = ('b', ('and', c[1], a[1])); return [st]
                    if a[1] is True:
                        E[i.id] = ('b', ('or', c[1], b[1])); return [st]
                d = s.decide(st, c[1])
                if d is not None:
                    E[i.id] = a if d else b
                    return [st]
                if a == b:
                    E[i.id] = a; return [st]
                out = []
                t = st.copy()
                for x in s.assume(t, c[1], True):
                    x.env[i.id] = a; x.trace = x.trace + ((i.loc(), True, i.bb, fn.name),); out.append(x)
                for x in s.assume(st, c[1], False):
                    x.env[i.id] = b; x.trace = x.trace + ((i.loc(), False, i.bb, fn.name),); out.append(x)
                return out
            E[i.id] = s.fresh(i.ty, 'sel')
            return [st]
        if o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return s.arith(fn, i, st)
        if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = s.op(st, i.ops[0]), s.op(st, i.ops[1])
            if a[0] == 'f' and b[0] == 'f':
                k = (a[1], b[1])
                if o in ('fadd', 'fmul') and repr(k[1]) < repr(k[0]):
                    k = (k[1], k[0])
                E[i.id] = ('f', fsimp(o, k[0], k[1]))
            else:
                E[i.id] = s.fresh(i.ty, o)
            return [st]
        if o == 'fneg':
            a = s.op(st, i.ops[0])
            E[i.id] = ('f', ('fneg', a[1])) if a[0] == 'f' else s.fresh(i.ty)
            return [st]
        if o in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'freeze'):
            E[i.id] = s.cast(st, i, s.op(st, i.ops[0]))
            return [st]
        if o == 'extractvalue':
            a = s.op(st, i.ops[0])
            if a[0] == 'agg' and len(i.d['idx']) == 1 and i.d['idx'][0] in a[1]:
                E[i.id] = a[1][i.d['idx'][0]]
            else:
                E[i.id] = s.fresh(i.ty, 'ev')
            return [st]
        if o == 'insertvalue':
            a = s.op(st, i.ops[0]); v = s.op(st, i.ops[1])
            d = dict(a[1]) if a[0] == 'agg' else {}
            d[i.d['idx'][0]] = v
            E[i.id] = ('agg', d)
            return [st]
        if o == 'landingpad':
            E[i.id] = UNDEF
            return [st]
        if o == 'atomicrmw':
            p = s.op(st, i.ops[0])
            E[i.id] = s.fresh(i.ty, 'rmw')
            s.store(st, i, p, s.fresh(i.ty, 'rmw'), width(i.ty) // 8, i.ty)
            return [st]
        if o in ('va_arg', 'extractelement', 'insertelement', 'shufflevector', 'fence', 'cmpxchg'):
            E[i.id] = s.fresh(i.ty, o)
            return [st]
        raise AnalysisBroken('unsupported instruction %s at %s' % (o, i.loc()))

    def toint(s, v):
        """boolean as integer poly"""
        if v[0] == 'i':
            return v[1]
        if v[0] == 'b':
            if v[1] is True:
                return ONE
            if v[1] is False:
                return ZERO
            return Poly.a(atom(('b2i', v[1]), 'b2i', 0, 1))
        return None

    def arith(s, fn, i, st):
        o = i.op; E = st.env
        a, b = s.op(st, i.ops[0]), s.op(st, i.ops[1])
        if i.ty == 'i1':
            ca = a[1] if a[0] == 'b' else ('opq', fresh_id())
            cb = b[1] if b[0] == 'b' else ('opq', fresh_id())
            if o == 'xor':
                if cb is True:
                    r = s.mknot(ca)
                elif ca is True:
                    r = s.mknot(cb)
                elif cb is False:
                    r = ca
                else:
                    r = ('opq', ('xor', ca, cb))
            elif o == 'and':
                r = ('and', ca, cb)
            elif o == 'or':
                r = ('or', ca, cb)
            else:
                r = ('opq', fresh_id())
            E[i.id] = ('b', r)
            return [st]
        # pointers as integers
        if a[0] == 'p' and b[0] == 'p' and o == 'sub' and a[1] == b[1]:
            E[i.id] = ('i', a[2] - b[2]); return [st]
        if a[0] == 'p' and b[0] == 'i' and o in ('add', 'sub'):
            E[i.id] = ('p', a[1], a[2] + (b[1] if o == 'add' else -b[1])); return [st]
        pa, pb = s.toint(a), s.toint(b)
        if pa is None or pb is None:
            E[i.id] = s.fresh(i.ty, o); return [st]
        ka, kb = pa.const(), pb.const()
        w = width(i.ty)
        r = None
        if o == 'add':
            r = pa + pb
        elif o == 'sub':
            r = pa - pb
        elif o == 'mul':
            r = pa * pb
        elif o == 'shl' and kb is not None and 0 <= kb < 64:
            r = pa * (1 << kb)
        elif ka is not None and kb is not None:
            ua, ub = ka % 2 ** w, kb % 2 ** w
            try:
                x = {'udiv': lambda: ua // ub, 'sdiv': lambda: int(ka / kb) if abs(ka) < 2 ** 50 else ka // kb, 'urem': lambda: ua % ub, 'srem': lambda: ka - kb * int(ka / kb),
                     'and': lambda: ua & ub, 'or': lambda: ua | ub, 'xor': lambda: ua ^ ub, 'lshr': lambda: ua >> ub, 'ashr': lambda: ka >> ub, 'shl': lambda: (ua << ub) % 2 ** w}[o]()
                if x >= 2 ** (w - 1) and o in ('and', 'or', 'xor', 'shl'):
                    x -= 2 ** w
                r = Poly.c(x)
            except ZeroDivisionError:
                r = None
        elif o in ('udiv', 'sdiv', 'lshr', 'ashr'):
            if o in ('lshr', 'ashr'):
                dv = Poly.c(1 << kb) if kb is not None and 0 <= kb < 63 else None
            else:
                dv = pb
            if dv is not None and dv.const() == 1:
                r = pa
            elif dv is not None:
                nn = s.nonneg(st, pa) and s.nonneg(st, dv)
                # exact division by a common factor
                q = exact_div(pa, dv)
                if q is not None and nn:
                    r = q
                elif nn:
                    A = atom(('div', pa, dv, w), '(%r)/(%r)' % (pa, dv), 0, None if w == 64 else 2 ** w - 1, w)
                    r = Poly.a(A)
                    if st.ge(dv - 1):
                        st.add_ge(pa - r * dv); st.add_ge(r * dv + dv - 1 - pa)
                        st.add_ge(pa - r)
        elif o in ('urem', 'srem'):
            if s.nonneg(st, pa) and s.nonneg(st, pb):
                A = atom(('rem', pa, pb, w), '(%r)%%(%r)' % (pa, pb), 0, None, w)
                r = Poly.a(A)
                st.add_ge(pa - r)
                st.add_ge(pb - 1 - r)     # result of a defined urem is < divisor
        elif o == 'and' and (kb is not None and kb >= 0 or ka is not None and ka >= 0):
            k = kb if kb is not None else ka
            p = pa if kb is not None else pb
            A = atom(('and', p, k, w), '(%r)&%d' % (p, k), 0, k, w)
            r = Poly.a(A)
        if r is None:
            uns = o in ('udiv', 'urem', 'lshr')
            lo, hi = (0, None if w == 64 else 2 ** w - 1) if uns else (-2 ** (w - 1), 2 ** (w - 1) - 1)
            if o in ('and', 'or', 'xor', 'shl', 'sdiv', 'srem', 'ashr', 'udiv', 'urem', 'lshr'):
                if s.nonneg(st, pa) and s.nonneg(st, pb):
                    lo = 0
                r = Poly.a(atom((o, pa, pb, w), '(%r %s %r)' % (pa, o, pb), lo, hi, w))
            else:
                r = Poly.a(fresh_atom(o, lo, hi, w))
        s.on_arith(st, i, o, pa, pb, r, w)
        E[i.id] = ('i', r)
        return [st]

    def on_arith(s, st, i, o, a, b, r, w):
        pass

    def cast(s, st, i, v):
        o = i.op
        if v[0] == 'undef':
            return v
        if o in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            if o == 'inttoptr' and v[0] == 'i':
                if v[1].const() == 0:
                    return NULL
                return ('p', ('i2p', v[1]), ZERO)
            if o == 'ptrtoint' and is_null(v):
                return I(0)
            return v
        if o in ('zext', 'sext'):
            if v[0] == 'b':
                if v[1] is True:
                    return I(1 if o == 'zext' else -1)
                if v[1] is False:
                    return I(0)
                if o == 'zext':
                    return ('i', Poly.a(atom(('b2i', v[1]), 'b2i', 0, 1)))
                return ('i', Poly.a(atom(('b2i', v[1], -1), 'b2i', -1, 0)))
            if v[0] == 'i':
                k = v[1].const()
                if k is not None and k < 0 and o == 'zext':
                    return I(k + 2 ** width(i.d['srcty']))
                if o == 'zext' and not s.nonneg(st, v[1]):
                    i1 = v[1].single()
                    w = width(i.d['srcty'])
                    if i1 is not None:
                        return ('i', Poly.a(atom(('zext', v[1], w), 'u(%r)' % v[1], 0, 2 ** w - 1, 64)))
                return v
            return s.fresh(i.ty)
        if o == 'trunc':
            w = width(i.ty)
            if v[0] == 'p':
                return ('i', Poly.a(atom(('trunc', v[1], v[2], w), 'trunc', None, None, w)))
            if w == 1:
                if v[0] == 'i':
                    k = v[1].const()
                    if k is not None:
                        return ('b', bool(k & 1))
                    sgl = v[1].single()
                    if sgl is not None and ATOMS[sgl].key[0] == 'b2i':
                        return ('b', ATOMS[sgl].key[1])
                    if sgl is not None and ATOMS[sgl].w == 8:
                        return ('b', ('not', ('eq', v[1])))
                return ('b', ('opq', ('trunc', v)))
            if v[0] == 'i':
                k = v[1].const()
                if k is not None:
                    k %= 2 ** w
                    if k >= 2 ** (w - 1):
                        k -= 2 ** w
                    return I(k)
                lo = lower(v[1]); hi = lower(-v[1])
                if lo is not None and hi is not None and lo >= -2 ** (w - 1) and -hi < 2 ** w:
                    return v
                return s.trunc_int(st, i, v, w)
            return s.fresh(i.ty)
        if o in ('fpext', 'fptrunc'):
            if v[0] == 'f':
                if o == 'fpext' or (isinstance(v[1], tuple) and v[1][0] == 'const'):
                    return v        # value preserving
                if isinstance(v[1], tuple) and v[1][0] == 'fpext':
                    return ('f', v[1][1])
                return ('f', ('fptrunc', v[1]))
            return s.fresh(i.ty)
        if o in ('sitofp', 'uitofp'):
            if v[0] == 'b':
                v = ('i', s.toint(v))
            if v[0] == 'i':
                k = v[1].const()
                if k is not None:
                    if o == 'uitofp' and k < 0:
                        k += 2 ** width(i.d['srcty'])
                    return ('f', ('const', float(k)))
                return ('f', ('i2f', v[1]))
            return s.fresh(i.ty)
        if o in ('fptosi', 'fptoui'):
            if v[0] == 'f':
                w = width(i.ty)
                lo, hi = (0, None if w == 64 else 2 ** w - 1) if o == 'fptoui' else (-2 ** (w - 1), 2 ** (w - 1) - 1)
                if isinstance(v[1], tuple) and v[1][0] == 'i2f':
                    return ('i', v[1][1])
                A = Poly.a(atom(('f2i', o, v[1], w), 'f2i', lo, hi, w))
                pow2_axioms(st, A, v[1])
                return ('i', A)
            return s.fresh(i.ty)
        return s.fresh(i.ty)

    def trunc_int(s, st, i, v, w):
        # a value that fits is unchanged; a symbolic value is assumed to fit when its atoms are
        # sizes/indices (width obligations are a separate property)
        return v

    # ------------------------------------------------------------ calls
    def call(s, fn, i, st):
        args = [s.op(st, a) for a in i.ops]
        cal = i.d['callee']
        fv = s.op(st, cal)
        name = fv[1] if fv[0] == 'fn' else None
        outs = None
        if name is not None:
            outs = s.call_hook(st, i, name, args)
            if outs is None:
                base = name
                m = s.models.get(name)
                if m is None and name.startswith('llvm.'):
                    m = intrinsic_model(name)
                if m is not None:
                    outs = m(s, st, i, args)
                else:
                    f = s.prog.fns.get(name)
                    if f is not None and not f.decl and name not in s.opaque_fns:
                        outs = s.run(f, st, args)
                    else:
                        outs = s.opaque_call(st, i, f, args)
        else:
            outs = s.on_indirect(st, i, fv, args)
            if outs is None:
                outs = s.opaque_call(st, i, None, args)
        if i.d.get('noreturn'):
            return []
        res = []
        for x, v in outs:
            if i.ty != 'void':
                x.env[i.id] = v if v is not None else UNDEF
            res.append(x)
        return res

    def opaque_call(s, st, i, f, args, havoc=True):
        if havoc:
            for a in args:
                if a[0] == 'p' and a[1] != 'null':
                    r = st.reg.get(a[1])
                    if isinstance(a[1], tuple) and a[1][0] == 'g' and s.prog.globals.get(a[1][1], {}).get('const'):
                        continue
                    s.havoc_reach(st, a)
        ty = i.ty if i is not None else (f.ret if f is not None else 'void')
        nm = f.name if f is not None else (i.d['callee'].get('n', 'icall') if i is not None else 'call')
        if ty == 'void':
            return [(st, None)]
        uns = False
        if f is not None and f.dicanon and f.dicanon[0]:
            uns = any(f.dicanon[0].startswith(u) for u in UNS)
        elif i is not None:
            uns = s.use_signed(i)
        return [(st, s.fresh(ty, nm, uns))]

    def havoc_reach(s, st, ptr, seen=None):
        seen = seen or set()
        ptr = st.res(ptr)
        b = ptr[1]
        if b in seen or b == 'null':
            return
        seen.add(b)
        for o, (v, sz, ty) in list(st.heap.get(b, {}).items()):
            if v[0] == 'p' and v[1] != 'null':
                s.havoc_reach(st, v, seen)
        s.bulk_write(st, ('p', b, ZERO), None)

    # ------------------------------------------------------------ loops
    def run_loop(s, fn, header, items):
        body = fn.loops[header]
        phis = [i for i in fn.blocks[header].insts if i.op == 'phi']
        res = {'ret': [], 'exits': []}
        if len(items) > s.LOOPP:
            sts = []
            for pv, st in items:
                s.do_phis(fn, header, pv, st); sts.append(st)
            ent = s.join_all(sts, s.LOOPP)
        else:
            ent = []
            for pv, st in items:
                if pv != 'phidone':
                    s.do_phis(fn, header, pv, st)
                ent.append(st)
        for st in ent:
            r = s.loop_one(fn, header, body, phis, st)
            res['ret'] += r['ret']; res['exits'] += r['exits']
        return res

    def loop_one(s, fn, header, body, phis, S0):
        havoc = {}          # (base,off) -> (ty,size)
        bulk = {}           # base -> new default
        ptrform = {}        # phi id -> 'off' | 'base' | 'same'
        for p in phis:
            if p.ty == 'ptr':
                v = S0.env.get(p.id, UNDEF)
                ptrform[p.id] = 'off' if v[0] == 'p' and v[1] != 'null' and s.walks_array(S0, v) else 'base'
                if ptrform[p.id] == 'off':
                    sc = s.ptr_scale(S0, v)
                    if sc is not None:
                        ptrform[p.id] = ('scaled', sc)
        dead = set()         # dropped candidate keys
        unk_regs = {}        # base -> freed status join
        extra = []           # guided candidates (closures) gathered from comparisons
        extra_keys = set()
        lock = {}            # lockstep deltas
        mk = None
        if s.MEMO:
            # what an earlier interpretation of the same loop was found to write is written again
            mk = (fn.name, header) + tuple(sorted(ptrform.items(), key=repr))
            m = s.memo.get(mk)
            if m is not None:
                havoc.update((k, v) for k, v in m[0].items() if k[0] in S0.reg or k[0] in S0.heap)
                bulk.update((k, v) for k, v in m[1].items() if k in S0.reg or k in S0.heap)
                ptrform.update(m[2])
        s.quiet += 1
        rounds = 0
        try:
            while True:
                rounds += 1
                if rounds > 30:
                    # give up precision: no invariants
                    dead.add('*')
                if rounds > 34:
                    raise AnalysisBroken('loop at %s did not stabilise' % fn.blocks[header].insts[0].loc())
                H, fmap, cands = s.make_header(fn, phis, S0, havoc, bulk, ptrform, unk_regs, extra, lock, dead)
                snap = H
                B = H.copy()
                B.writes = set(); B.bulk = set()
                oldc = s.cmps; s.cmps = []
                R = s.region_run(fn, [(header, None, B)], body, header)
                cm = s.cmps; s.cmps = oldc
                if oldc is not None:
                    oldc.extend(cm)
                changed = False
                known = set()
                # 1. new writes
                for pv, L in R['latch']:
                    s.do_phis_keep(fn, header, pv, L)
                    for (b, o) in L.writes:
                        if b not in snap.reg and b not in snap.heap and not s.pre_existing(snap, b):
                            continue
                        if b in bulk:
                            continue
                        c0 = snap.heap.get(b, {}).get(o)
                        c1 = L.heap.get(b, {}).get(o)
                        if not s.offset_stable(snap, o):
                            bulk[b] = True; changed = True
                            continue
                        if (b, o) in havoc:
                            continue
                        if c0 is not None and c1 is not None and c0[0] == c1[0]:
                            continue
                        if c1 is None:
                            bulk[b] = True; changed = True; continue
                        havoc[(b, o)] = (c1[2], c1[1]); changed = True
                    for b in L.bulk:
                        if b not in bulk and (b in snap.reg or b in snap.heap):
                            bulk[b] = True; changed = True
                    for b, r in L.reg.items():
                        r0 = snap.reg.get(b)
                        if r0 is not None and r0.freed != r.freed and unk_regs.get(b) != 'maybe':
                            unk_regs[b] = 'maybe'; changed = True
                    for p in phis:
                        v1 = L.env.get(('next', p.id), UNDEF)
                        if ptrform.get(p.id) == 'off' or isinstance(ptrform.get(p.id), tuple):
                            v0 = H.env[p.id]
                            if not (v1[0] == 'p' and v1[1] == v0[1]):
                                ptrform[p.id] = 'base'; changed = True
                            elif isinstance(ptrform[p.id], tuple) and exact_div(v1[2], ptrform[p.id][1]) is None:
                                ptrform[p.id] = 'off'; changed = True
                if changed:
                    continue
                # 2. guided candidates
                fr = set(fmap)
                newx = False
                for a, b in cm:
                    d = b - a
                    at = d.atoms()
                    if not (at & fr) or len(extra) > 40:
                        continue
                    if not all(x in fr or s.atom_known(S0, x, H) for x in at):
                        # try projecting: skip
                        continue
                    # stable description: relative to havoc slots
                    desc = []
                    for k in (0, 1, -1):
                        for sg in (1, -1):
                            desc.append((d * sg) + k)
                    for q in desc:
                        kx = s.cand_key(q, fmap)
                        if kx not in extra_keys:
                            extra_keys.add(kx); extra.append(kx); newx = True
                # 2b. lockstep deltas
                if not lock and R['latch']:
                    deltas = {}
                    for slot in set(fmap.values()):
                        ds = set()
                        for pv, L in R['latch']:
                            v = s.slot_value(L, slot, True)
                            f = s.slot_value(H, slot, False)
                            if v is None or f is None or v[0] != 'i' or f[0] != 'i':
                                ds.add(None); continue
                            ds.add(v[1] - f[1])
                        if len(ds) == 1:
                            d = ds.pop()
                            if d is not None and d.const() != 0 and not (d.atoms() & fr):
                                deltas[slot] = d
                    lock['done'] = True
                    if len(deltas) > 1:
                        lock['d'] = deltas; newx = True
                if newx:
                    continue
                # 3. Houdini
                drop = False
                for key, inst_fn in cands:
                    if key in dead:
                        continue
                    ok = True
                    for pv, L in R['latch']:
                        g = inst_fn(lambda slot: s.slot_value(L, slot, True))
                        if g is None or not s.holds(L, g):
                            ok = False; break
                    if not ok:
                        dead.add(key); drop = True
                if drop:
                    continue
                break
        finally:
            s.quiet -= 1
        if mk is not None:
            s.memo[mk] = (dict(havoc), dict(bulk), dict(ptrform))
        # final recorded pass
        H, fmap, cands = s.make_header(fn, phis, S0, havoc, bulk, ptrform, unk_regs, extra, lock, dead)
        w0, b0 = set(S0.writes), set(S0.bulk)
        H.writes = set(); H.bulk = set()
        H.trace = S0.trace + (('loop', fn.blocks[header].insts[-1].loc(), header, fn.name),)
        s.enter_loop(H, fn, header)
        R = s.region_run(fn, [(header, None, H)], body, header)
        s.on_loop(fn, header, S0, R)
        for t, pv, x in R['exits']:
            x.writes |= w0 | set(havoc); x.bulk |= b0 | set(bulk)
        for x, v in R['ret']:
            x.writes |= w0 | set(havoc); x.bulk |= b0 | set(bulk)
        return {'ret': R['ret'], 'exits': R['exits']}

    def on_loop(s, fn, header, S0, R):
        pass

    def enter_loop(s, H, fn, header):
        pass

    def walks_array(s, st, v):
        return True

    def ptr_scale(s, st, v):
        return None

    def atom_known(s, S0, x, H=None):
        """atom existed before the loop body (not created inside this iteration)"""
        return x <= H.ghost.get('__maxatom', 10 ** 12)

    def base_new(s, st, b):
        """names memory through something that changes from one iteration to the next"""
        m = st.ghost.get('__maxatom0', 10 ** 12)
        while isinstance(b, tuple) and b[0] == 'ld':
            for x in b[2] if isinstance(b[2], tuple) else (b[2],):
                if isinstance(x, Poly) and any(a > m for a in x.atoms()):
                    return True
            b = b[1]
        return False

    def pre_existing(s, st, b):
        if s.base_new(st, b):
            return False
        return not (isinstance(b, tuple) and b[0] in ('alloc', 'alloca', 'fresh') and b not in st.reg)

    def offset_stable(s, snap, o):
        m = snap.ghost.get('__maxatom0', 10 ** 12)
        return all(a <= m for a in o.atoms())

    def cand_key(s, q, fmap):
        # represent with slots
        items = []
        for m, c in q.t.items():
            items.append((tuple(sorted(((('slot', fmap[a]) if a in fmap else ('atom', a)) for a in m), key=repr)), c))
        return ('poly', tuple(sorted(items, key=repr)))

    def slot_value(s, st, slot, nxt):
        if slot[0] == 'phi':
            v = st.env.get(('next', slot[1]) if nxt else slot[1])
            if len(slot) >= 3:
                if v is None or v[0] != 'p':
                    return None
                x = v[2] if len(slot) == 3 else exact_div(v[2], slot[3])
                return None if x is None else ('i', x)
            return v
        b, o = slot[1], slot[2]
        c = st.heap.get(b, {}).get(o)
        return c[0] if c else None

    def do_phis_keep(s, fn, b, pv, st):
        for i in fn.blocks[b].insts:
            if i.op != 'phi':
                break
            for o in i.ops:
                if o['b'] == pv:
                    st.env[('next', i.id)] = s.op(st, o['v']); break

    def make_header(s, fn, phis, S0, havoc, bulk, ptrform, unk_regs, extra, lock, dead):
        H = S0.copy()
        H.ghost['__maxatom0'] = len(ATOMS) - 1
        fmap = {}           # fresh atom id -> slot
        slots = {}          # slot -> (init value, header value)
        for p in phis:
            v0 = S0.env.get(p.id, UNDEF)
            slot = ('phi', p.id)
            if p.ty == 'ptr':
                if isinstance(ptrform[p.id], tuple) and v0[0] == 'p':
                    A = fresh_atom('idx_' + (p.n or 'p'))
                    fmap[A] = slot + ('off', ptrform[p.id][1])
                    v = ('p', v0[1], Poly.a(A) * ptrform[p.id][1])
                elif ptrform[p.id] == 'off' and v0[0] == 'p':
                    A = fresh_atom('off_' + (p.n or 'p'))
                    fmap[A] = slot + ('off',)
                    v = ('p', v0[1], Poly.a(A))
                else:
                    v = s.fresh('ptr', p.n or 'phi')
            elif p.ty in ('double', 'float') or p.ty == 'i1':
                v = s.fresh(p.ty, p.n or 'phi')
            else:
                uns = s.use_signed(p)
                v = s.fresh(p.ty, p.n or 'phi', uns)
                if v[0] == 'i':
                    fmap[v[1].single()] = slot
            slots[slot] = (v0, v)
            H.env[p.id] = v
        for b in bulk:
            r = s.region(H, b)
            H.heap[b] = {}
            r.ver = fresh_id(); r.written = True
            if r.default in ('undef', 'zero'):
                r.default = 'mixed'
        for (b, o), (ty, size) in havoc.items():
            if b in bulk:
                continue
            c0 = S0.heap.get(b, {}).get(o)
            if c0 is None:
                ini = None
            else:
                ini = c0[0]
            uns = False
            f = s.prog.field_at(S0.btype.get(b, ''), o.const()) if o.const() is not None and b in S0.btype else None
            if f:
                uns = any(f['canon'].startswith(u) for u in UNS)
            elif ini is not None and ini[0] == 'i':
                lo = lower(ini[1]); uns = lo is not None and lo >= 0 and ini[1].const() is None
            v = s.fresh(ty, f['name'] if f else 'cell', uns)
            slot = ('cell', b, o)
            if v[0] == 'i':
                fmap[v[1].single()] = slot
            H.heap.setdefault(b, {})
            for o2 in list(H.heap[b]):
                if o2 != o and s.overlap(S0, o, size, o2, H.heap[b][o2][1]):
                    del H.heap[b][o2]
            H.heap[b][o] = (v, size, ty)
            s.region(H, b).written = True
            slots[slot] = (ini, v)
        for b, stt in unk_regs.items():
            if b in H.reg:
                H.reg[b].freed = stt
        H.ghost['__maxatom'] = len(ATOMS) - 1
        cands = []
        if '*' not in dead:
            cands = s.base_cands(fn, S0, H, slots, fmap, extra, lock)
        out = []
        for key, inst_fn in cands:
            if key in dead:
                continue
            g0 = inst_fn(lambda slot: slots[slot][0] if slot in slots else s.slot_value(S0, slot, False))
            if g0 is None or not s.holds(S0, g0):
                dead.add(key); continue
            gh = inst_fn(lambda slot: slots[slot][1] if slot in slots else s.slot_value(H, slot, False))
            if gh is None:
                dead.add(key); continue
            s.add_goal(H, gh)
            out.append((key, inst_fn))
        return H, fmap, out

    def holds(s, st, g):
        if g is True or g is False:
            return g
        if g[0] == 'ge':
            return st.ge(g[1])
        if g[0] == 'nonnull':
            return st.nullness(g[1]) == 'nonnull'
        if g[0] == 'isnull':
            return st.nullness(g[1]) == 'null'
        if g[0] == 'peq':
            return st.res(g[1]) == st.res(g[2])
        if g[0] == 'veq':
            a, b = g[1], g[2]
            if a == b:
                return True
            if a[0] == 'p' and b[0] == 'p':
                return st.res(a) == st.res(b)
            if a[0] == 'i' and b[0] == 'i':
                return st.eq0(a[1] - b[1])
            if a[0] == 'f' and b[0] == 'f':
                return s.frel(st, a[1], b[1]) == frozenset('=')
            return False
        if g[0] == 'frel':
            return s.frel(st, g[1], g[2]) <= g[3]
        return s.entails_pred(st, g)

    def add_goal(s, st, g):
        if g is True:
            return
        if g[0] == 'ge':
            st.add_ge(g[1])
        elif g[0] == 'nonnull':
            v = st.res(g[1])
            if v[0] == 'p':
                st.nul[v[1]] = 'nonnull'
        elif g[0] == 'isnull':
            v = st.res(g[1])
            if v[0] == 'p' and v[1] != 'null':
                st.nul[v[1]] = 'null'
        elif g[0] == 'peq':
            a, b = st.res(g[1]), st.res(g[2])
            if a != b and a[0] == 'p' and a[1] != 'null':
                st.alias[a[1]] = (b[1], b[2] - a[2])
        elif g[0] == 'veq':
            a, b = g[1], g[2]
            if a[0] == 'i' and b[0] == 'i':
                st.add_ge(a[1] - b[1]); st.add_ge(b[1] - a[1])
            elif a[0] == 'p':
                s.add_goal(st, ('peq', a, b))
            elif a[0] == 'f':
                x, y, sw = s.fkey(a[1], b[1])
                if x != y:
                    st.ford[(x, y)] = frozenset('=')
        elif g[0] == 'frel':
            x, y, sw = s.fkey(g[1], g[2])
            r = g[3]
            if sw:
                r = frozenset({'<': '>', '>': '<', '=': '='}[q] for q in r)
            st.ford[(x, y)] = st.ford.get((x, y), s.FULL) & r
        else:
            st.preds.add(g)

    def base_cands(s, fn, S0, H, slots, fmap, extra, lock):
        C = []

        def iv(get, slot):
            if len(slot) >= 3 and slot[0] == 'phi':   # pointer offset pseudo slot
                v = get(slot[:2])
                if v is None or v[0] != 'p':
                    return None
                return v[2] if len(slot) == 3 else exact_div(v[2], slot[3])
            v = get(slot)
            if v is None or v[0] != 'i':
                return None
            return v[1]
        for A, slot in fmap.items():
            base_slot = slot[:2] if (slot[0] == 'phi' and len(slot) >= 3) else slot
            v0 = slots[base_slot][0]
            if v0 is None:
                continue
            i0 = iv(lambda q: slots[q][0], slot)
            if i0 is None:
                continue

            def mk(f, slot=slot):
                def g(get):
                    x = iv(get, slot)
                    return None if x is None else ('ge', f(x))
                return g
            C.append((('geinit', slot), mk(lambda x, i0=i0: x - i0)))
            C.append((('leinit', slot), mk(lambda x, i0=i0: i0 - x)))
            C.append((('ge0', slot), mk(lambda x: x)))
        for slot, (v0, vh) in slots.items():
            if v0 is None or v0 == UNDEF:
                continue
            if vh[0] == 'p' and vh[1] and v0[0] == 'p' and isinstance(vh[1], tuple) and vh[1][0] == 'fresh':
                C.append((('nonnull', slot), lambda get, slot=slot: ('nonnull', get(slot)) if get(slot) else None))
                C.append((('pinit', slot), lambda get, slot=slot, v0=v0: ('peq', get(slot), v0) if get(slot) else None))
            if vh[0] == 'f' and v0[0] == 'f':
                C.append((('fge', slot), lambda get, slot=slot, v0=v0: ('frel', get(slot)[1], v0[1], frozenset('>=')) if get(slot) and get(slot)[0] == 'f' else None))
                C.append((('fle', slot), lambda get, slot=slot, v0=v0: ('frel', get(slot)[1], v0[1], frozenset('<=')) if get(slot) and get(slot)[0] == 'f' else None))
        for kx in extra:
            def g(get, kx=kx):
                p = ZERO
                for m, c in kx[1]:
                    x = Poly.c(c)
                    for k, a in m:
                        if k == 'slot':
                            v = iv(get, a)
                            if v is None:
                                return None
                            x = x * v
                        else:
                            x = x * Poly.a(a)
                    p = p + x
                return ('ge', p)
            C.append((kx, g))
        if lock.get('d'):
            d = list(lock['d'].items())
            (s0, d0) = d[0]
            for (s1, d1) in d[1:]:
                a0, a1 = iv(lambda q: slots[q][0], s0), iv(lambda q: slots[q][0], s1)
                if a0 is None or a1 is None:
                    continue
                for sg in (1, -1):
                    def g(get, s0=s0, s1=s1, d0=d0, d1=d1, a0=a0, a1=a1, sg=sg):
                        x0, x1 = iv(get, s0), iv(get, s1)
                        if x0 is None or x1 is None:
                            return None
                        return ('ge', ((x0 - a0) * d1 - (x1 - a1) * d0) * sg)
                    C.append((('lock', s0, s1, sg), g))
        il = [sl for sl in fmap.values()]
        if 2 <= len(il) <= 7:
            for x in il:
                for y in il:
                    if x is not y and x[0] == 'phi' and y[0] == 'phi' and (len(x) != 3 and len(y) != 3 or len(x) == len(y)):
                        for k in (0, 1):
                            def g(get, x=x, y=y, k=k):
                                a, b = iv(get, x), iv(get, y)
                                return None if a is None or b is None else ('ge', a - b - k)
                            C.append((('pair', x, y, k), g))
        C += s.loop_candidates(fn, S0, H, slots)
        return C

    def loop_candidates(s, fn, S0, H, slots):
        return []

    # ------------------------------------------------------------ join
    def join_all(s, sts, k):
        sts = list(sts)
        while len(sts) > k:
            # join the two most similar (consecutive heuristic: smallest env difference)
            best = None
            lim = min(len(sts), 14)
            for a in range(lim):
                for b in range(a + 1, lim):
                    d = s.distance(sts[a], sts[b])
                    if best is None or d < best[0]:
                        best = (d, a, b)
            _, a, b = best
            j = s.join(sts[a], sts[b])
            sts = [x for n, x in enumerate(sts) if n not in (a, b)] + [j]
        return sts

    def distance(s, a, b):
        d = 0
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is not None and w != v:
                d += 1
        for base, c in a.heap.items():
            cb = b.heap.get(base)
            if cb is None:
                continue
            for o, v in c.items():
                if o in cb and cb[o][0] != v[0]:
                    d += 2
        for base, r in a.reg.items():
            rb = b.reg.get(base)
            if rb is None:
                if r.kind == 'heap':
                    d += 3
            elif rb.freed != r.freed:
                d += 6
        for base, n in a.nul.items():
            if b.nul.get(base, n) != n:
                d += 4
        return d + s.ghost_distance(a, b)

    def ghost_distance(s, a, b):
        return 0 if s.ret_key(a) == s.ret_key(b) else 20

    def ret_key(s, st):
        return any(x[0] in ('allocfail', 'openfail') for x in st.log)

    def join_val(s, a, b, sa, sb, J, name='j'):
        va = sa.res(a) if a[0] == 'p' else a
        vb = sb.res(b) if b[0] == 'p' else b
        if va == vb:
            return va
        if va[0] == 'i' and vb[0] == 'i':
            key = (va[1], vb[1])
            ca, cb = va[1].const(), vb[1].const()
            lo = hi = None
            if ca is not None and cb is not None:
                lo, hi = min(ca, cb), max(ca, cb)
            else:
                la, lb = lower(va[1]), lower(vb[1])
                if la is not None and lb is not None:
                    lo = min(la, lb)
                ha, hb = lower(-va[1]), lower(-vb[1])
                if ha is not None and hb is not None:
                    hi = max(-ha, -hb)
            A = fresh_atom(name, lo, hi)
            P = Poly.a(A)
            J.append((P, va[1], vb[1]))
            return ('i', P)
        if va[0] == 'p' and vb[0] == 'p':
            if va[1] == vb[1]:
                x = s.join_val(('i', va[2]), ('i', vb[2]), sa, sb, J, name)
                return ('p', va[1], x[1])
            r = s.fresh('ptr', name)
            na, nb = sa.nullness(va), sb.nullness(vb)
            if na == nb and na is not None:
                J.append(('nul', r[1], na))
            return r
        if va[0] == 'f' and vb[0] == 'f':
            return s.fresh('double', name)
        if va[0] == 'b' and vb[0] == 'b':
            return s.fresh('i1', name)
        return UNDEF

    def join(s, a, b):
        n = State()
        J = []
        memo = {}

        def jv(x, y, nm='j'):
            k = (repr(x), repr(y))
            if k not in memo:
                memo[k] = s.join_val(x, y, a, b, J, nm)
            return memo[k]
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is None:
                continue
            n.env[k] = jv(v, w, 'j')
        # aliases must agree, else resolved values above have been used
        n.alias = {k: v for k, v in a.alias.items() if b.alias.get(k) == v}
        for base in set(a.reg) | set(b.reg):
            ra, rb = a.reg.get(base), b.reg.get(base)
            r = (ra or rb).copy()
            if ra is not None and rb is not None:
                if ra.freed != rb.freed:
                    r.freed = 'maybe'
                if ra.default != rb.default:
                    r.default = 'mixed'
                if ra.ver != rb.ver:
                    r.ver = fresh_id()
                r.written = ra.written or rb.written
                if ra.size != rb.size:
                    r.size = None if ra.size is None or rb.size is None else s.join_val(('i', ra.size), ('i', rb.size), a, b, J)[1]
            n.reg[base] = r
        for base in set(a.heap) | set(b.heap):
            ca, cb = a.heap.get(base), b.heap.get(base)
            if ca is None or cb is None:
                if base in a.alias or base in b.alias:
                    continue
                own = a if ca is not None else b
                oth = b if ca is not None else a
                cells = ca if ca is not None else cb
                # region unknown to the other state (allocated only here) keeps its cells;
                # an input region: written cells are lost, lazily loaded ones stay
                if base in oth.reg or not s.local_base(base):
                    n.heap[base] = {o: c for o, c in cells.items() if (base, o) not in own.writes and base not in own.bulk}
                else:
                    n.heap[base] = dict(cells)
                continue
            d = {}
            for o, (v, sz, ty) in ca.items():
                if o in cb and cb[o][1] == sz:
                    d[o] = (jv(v, cb[o][0], 'm'), sz, ty)
                elif o not in cb and (base, o) not in a.writes and (base, o) not in b.writes and base not in b.bulk:
                    d[o] = (v, sz, ty)
            for o, (v, sz, ty) in cb.items():
                if o not in ca and (base, o) not in a.writes and (base, o) not in b.writes and base not in a.bulk:
                    d[o] = (v, sz, ty)
            n.heap[base] = d
        for p in a.facts:
            if p in b.facts or b.ge(p):
                n.facts[p] = True
        for p in b.facts:
            if p not in n.facts and a.ge(p):
                n.facts[p] = True
        for x in J:
            if x[0] == 'nul':
                n.nul[x[1]] = x[2]; continue
            P, va, vb = x
            # order relations between joined value and both sources
            for q in (va, vb):
                if a.ge(va - q) and b.ge(vb - q):
                    n.add_ge(P - q)
                if a.ge(q - va) and b.ge(q - vb):
                    n.add_ge(q - P)
        n.diseq = {d for d in a.diseq if b.ne0(d)}
        for base, v in a.nul.items():
            w = b.nul.get(base)
            if w is None and base not in b.reg and s.local_base(base):
                n.nul[base] = v
            elif w == v:
                n.nul[base] = v
        for base, v in b.nul.items():
            if base not in a.nul and base not in a.reg and s.local_base(base):
                n.nul[base] = v
        for k, r in a.ford.items():
            if k in b.ford:
                u = r | b.ford[k]
                if u != s.FULL:
                    n.ford[k] = u
        n.preds = a.preds & b.preds
        n.opq = {k: v for k, v in a.opq.items() if b.opq.get(k) == v}
        n.writes = a.writes | b.writes; n.bulk = a.bulk | b.bulk
        n.btype = dict(b.btype); n.btype.update(a.btype)
        n.trace = a.trace if len(a.trace) <= len(b.trace) else b.trace
        n.ghost = s.join_ghost(a, b)
        n.log = a.log if a.log == b.log else tuple(x for x in a.log if x in b.log)
        return n

    def join_ghost(s, a, b):
        return {k: v for k, v in a.ghost.items() if b.ghost.get(k) == v}

    def local_base(s, base):
        return isinstance(base, tuple) and base[0] in ('alloc', 'alloca')


def pow2_axioms(st, A, t):
    """A = (int)2^(q+c) with q = (int)log2(n), n >= 1:  n*2^(c-1) < A <= n*2^c"""
    if not (isinstance(t, tuple) and t[0] == 'call' and len(t) >= 3):
        return
    nm = t[1].replace('llvm.', '').split('.')[0]
    if nm in ('floor', 'round', 'trunc', 'rint', 'ceil'):
        return pow2_axioms(st, A, t[2])
    if nm == 'pow' and len(t) == 4 and fconst(t[2]) == 2.0:
        x = t[3]
    elif nm == 'exp2':
        x = t[2]
    else:
        return
    c = 0
    while isinstance(x, tuple) and x[0] in ('fadd', 'fsub'):
        if fconst(x[2]) is not None:
            c += fconst(x[2]) if x[0] == 'fadd' else -fconst(x[2]); x = x[1]
        elif fconst(x[1]) is not None and x[0] == 'fadd':
            c += fconst(x[1]); x = x[2]
        else:
            return
    if not (isinstance(x, tuple)):
        return
    if x[0] == 'i2f':
        k = x[1].t.get((), 0)
        r = (x[1] - k).single()
        c += k
        if r is None or ATOMS[r].key[0] != 'f2i':
            return
        l = ATOMS[r].key[2]
    elif x[0] == 'call' and x[1].replace('llvm.', '').startswith(('floor', 'trunc')):
        l = x[2]
    else:
        return
    if not (isinstance(l, tuple) and l[0] == 'call' and l[1].replace('llvm.', '').split('.')[0] == 'log2' and isinstance(l[2], tuple) and l[2][0] == 'i2f'):
        return
    n = l[2][1]
    if c != int(c) or not st.ge(n - 1):
        return
    c = int(c)
    if c >= 1:
        st.add_ge(A - n * (2 ** (c - 1)) - 1); st.add_ge(n * (2 ** c) - A)
    elif c == 0:
        st.add_ge(A * 2 - n - 1); st.add_ge(n - A); st.add_ge(A - 1)


def tycompat(a, b):
    if a == b:
        return True
    return False


def zero_of(ty):
    if ty == 'ptr':
        return NULL
    if ty in ('double', 'float'):
        return ('f', ('const', 0.0))
    if ty == 'i1':
        return ('b', False)
    return I(0)


def canon_float(v):
    try:
        return float(v)
    except ValueError:
        if v in ('+Inf', 'Inf'):
            return float('inf')
        if v == '-Inf':
            return float('-inf')
        return str(v)


def fconst(k):
    if isinstance(k, tuple) and k[0] == 'const' and isinstance(k[1], float):
        return k[1]
    return None


def fsimp(o, a, b):
    ca, cb = fconst(a), fconst(b)
    if ca is not None and cb is not None:
        try:
            return ('const', {'fadd': lambda: ca + cb, 'fsub': lambda: ca - cb, 'fmul': lambda: ca * cb, 'fdiv': lambda: ca / cb, 'frem': lambda: ca % cb}[o]())
        except (ZeroDivisionError, OverflowError):
            pass
    return (o, a, b)


def exact_div(p, d):
    """p/d when d is a single monomial dividing every term"""
    if len(d.t) != 1:
        return None
    (m, c), = d.t.items()
    t = {}
    for pm, pc in p.t.items():
        if pc % c:
            return None
        l = list(pm)
        for a in m:
            if a in l:
                l.remove(a)
            else:
                return None
        t[tuple(l)] = pc // c
    return Poly(t)


CMPF = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b,
        'ult': lambda a, b: (a % 2 ** 64) < (b % 2 ** 64), 'ule': lambda a, b: (a % 2 ** 64) <= (b % 2 ** 64), 'ugt': lambda a, b: (a % 2 ** 64) > (b % 2 ** 64), 'uge': lambda a, b: (a % 2 ** 64) >= (b % 2 ** 64)}


# ---------------------------------------------------------------- models of library functions
def aspoly(v):
    return v[1] if v[0] == 'i' else None


def m_malloc(A, st, i, args):
    n = aspoly(args[0])
    return A.alloc(st, i, n, 'undef', 'malloc@%s' % i.loc())


def m_calloc(A, st, i, args):
    a, b = aspoly(args[0]), aspoly(args[1])
    n = a * b if a is not None and b is not None else None
    return A.alloc(st, i, n, 'zero', 'calloc@%s' % i.loc())


def m_realloc(A, st, i, args):
    p = st.res(args[0]); n = aspoly(args[1])
    out = []
    if is_null(p):
        return A.alloc(st, i, n, 'undef', 'realloc@%s' % i.loc())
    z = st.copy()
    z.log = z.log + (('allocfail', i.loc()),)
    A.on_free(st, i, p, 'realloc')
    b = ('alloc', fresh_id(), 'realloc@%s' % i.loc())
    old = st.reg.get(p[1])
    r = Region('heap', n, 'mixed', i, b[2])
    r.written = True
    st.reg[b] = r; st.nul[b] = 'nonnull'
    A.realloc_move(st, p, b, old, n)
    return [(st, ('p', b, ZERO)), (z, NULL)]


def realloc_move(A, st, p, b, old, n):
    if p[0] == 'p' and p[1] in st.reg:
        st.reg[p[1]].freed = 'realloc'
    elif p[0] == 'p':
        A.region(st, p[1]).freed = 'realloc'
    # preserved contents (cells that still fit cannot be told apart cheaply): keep symbolic
    st.reg[b].default = 'sym'


Interp.realloc_move = realloc_move


def m_free(A, st, i, args):
    p = st.res(args[0])
    if is_null(p) or p[0] != 'p':
        return [(st, None)]
    A.on_free(st, i, p, 'free')
    r = A.region(st, p[1])
    r.freed = 'free'
    return [(st, None)]


def m_memcpy(A, st, i, args):
    d, sr, n = st.res(args[0]), st.res(args[1]), aspoly(args[2])
    if n is None:
        n = Poly.a(fresh_atom('n', 0))
    A.deref(st, i, d, n, 'memwrite')
    A.deref(st, i, sr, n, 'memread')
    A.on_memcpy(st, i, d, sr, n, 'memmove' if 'memmove' in i.d['callee'].get('n', '') else 'memcpy')
    k = n.const()
    src = []
    if k is not None and sr[0] == 'p' and d[0] == 'p':
        for o, c in st.heap.get(sr[1], {}).items():
            dd = (o - sr[2]).const()
            if dd is not None and 0 <= dd and dd + c[1] <= k:
                src.append((dd, c))
    sdef = A.region(st, sr[1]).default if sr[0] == 'p' and sr[1] != 'null' else None
    A.bulk_write(st, d, n)
    if d[0] == 'p' and d[1] != 'null':
        for dd, c in src:
            st.heap.setdefault(d[1], {})[d[2] + dd] = c
            st.writes.add((d[1], d[2] + dd))
    return [(st, args[0])]


def on_memcpy(A, st, i, d, sr, n, kind):
    pass


Interp.on_memcpy = on_memcpy


def m_memset(A, st, i, args):
    d, n = st.res(args[0]), aspoly(args[2])
    A.deref(st, i, d, n if n is not None else ONE, 'memwrite')
    z = args[1][0] == 'i' and args[1][1].const() == 0
    A.bulk_write(st, d, n, 'zero' if z else 'mixed')
    return [(st, args[0])]


def m_pure(uns=False, lo=None, hi=None):
    def f(A, st, i, args):
        if i.ty == 'void':
            return [(st, None)]
        if i.ty in ('double', 'float'):
            if all(a[0] == 'f' for a in args):
                return [(st, ('f', ('call', i.d['callee']['n']) + tuple(a[1] for a in args)))]
        v = A.fresh(i.ty, i.d['callee'].get('n', 'c'), uns)
        if v[0] == 'i' and lo is not None:
            st.add_ge(v[1] - lo)
        return [(st, v)]
    return f


def m_noreturn(A, st, i, args):
    return []


def m_fopen(A, st, i, args):
    z = st.copy()
    z.log = z.log + (('openfail', i.loc()),)
    b = ('alloc', fresh_id(), 'FILE@' + i.loc())
    r = Region('file', None, 'sym', i, 'FILE')
    st.reg[b] = r; st.nul[b] = 'nonnull'
    return [(st, ('p', b, ZERO)), (z, NULL)]


def m_new(A, st, i, args):
    n = aspoly(args[0])
    return A.alloc(st, i, n, 'undef', 'new@%s' % i.loc(), maynull=False)


def m_delete(A, st, i, args):
    return m_free(A, st, i, args[:1])


def m_expect(A, st, i, args):
    return [(st, args[0])]


def m_umaxmin(kind):
    def f(A, st, i, args):
        a, b = aspoly(args[0]), aspoly(args[1])
        if a is None or b is None:
            return [(st, A.fresh(i.ty))]
        c = A.cmp_poly(st, kind[0] + 'ge', a, b, i.ty)
        out = []
        t = st.copy()
        for x in A.assume(t, c, True):
            out.append((x, args[0] if 'max' in kind else args[1]))
        for x in A.assume(st, c, False):
            out.append((x, args[1] if 'max' in kind else args[0]))
        return out
    return f


def m_fabs(A, st, i, args):
    if args[0][0] == 'f':
        v = ('f', ('fabs', args[0][1]))
        x, y, sw = A.fkey(v[1], ('const', 0.0))
        st.ford[(x, y)] = frozenset('>=') if not sw else frozenset('<=')
        return [(st, v)]
    return [(st, A.fresh(i.ty))]


def m_fmax(A, st, i, args):
    a, b = args[0], args[1]
    if a[0] != 'f' or b[0] != 'f':
        return [(st, A.fresh(i.ty))]
    mx = 'max' in i.d['callee']['n']
    out = []
    t = st.copy()
    for x in A.assume(t, ('fc', 'oge', a[1], b[1]), True):
        out.append((x, a if mx else b))
    for x in A.assume(st, ('fc', 'oge', a[1], b[1]), False):
        out.append((x, b if mx else a))
    return out


def intrinsic_model(name):
    if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
        return m_memcpy
    if name.startswith('llvm.memset'):
        return m_memset
    if name.startswith('llvm.umax') or name.startswith('llvm.umin') or name.startswith('llvm.smax') or name.startswith('llvm.smin'):
        return m_umaxmin(name[5:9])
    if name.startswith('llvm.fabs'):
        return m_fabs
    if name.startswith('llvm.maxnum') or name.startswith('llvm.minnum'):
        return m_fmax
    if name.startswith('llvm.expect'):
        return m_expect
    if name.startswith(('llvm.assume', 'llvm.dbg', 'llvm.lifetime', 'llvm.prefetch', 'llvm.donothing', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.va_', 'llvm.trap')):
        return m_pure()
    return m_pure()


BASE_MODELS = {
    'malloc': m_malloc, 'calloc': m_calloc, 'realloc': m_realloc, 'free': m_free,
    'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset,
    '_Znwm': m_new, '_Znam': m_new, '_ZdlPv': m_delete, '_ZdaPv': m_delete, '_ZdlPvm': m_delete, '_ZdaPvm': m_delete,
    '__assert_fail': m_noreturn, 'abort': m_noreturn, 'exit': m_noreturn, '_ZSt9terminatev': m_noreturn, '__clang_call_terminate': m_noreturn,
    'fopen': m_fopen, 'printf': m_pure(), 'fprintf': m_pure(), 'puts': m_pure(), 'putchar': m_pure(), 'fputs': m_pure(), 'fflush': m_pure(), 'fputc': m_pure(),
    'strcmp': m_pure(), 'strncmp': m_pure(), 'strlen': m_pure(True, 0), 'atoi': m_pure(), 'time': m_pure(), 'clock': m_pure(),
    'sqrt': m_pure(), 'sqrtf': m_pure(), 'pow': m_pure(), 'fabs': m_fabs, 'fabsf': m_fabs, 'log': m_pure(), 'log2': m_pure(), 'exp': m_pure(), 'floor': m_pure(), 'ceil': m_pure(),
    'fmax': m_fmax, 'fmin': m_fmax, 'fmaxf': m_fmax, 'fminf': m_fmax,
    'omp_get_thread_num': m_pure(), 'omp_get_num_threads': m_pure(), 'omp_get_max_threads': m_pure(), 'omp_get_wtime': m_pure(),
}
