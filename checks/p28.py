"""Element and key sizes.  Unification-based type inference over the IR of all units, per configuration: every address is given a
cell, containers a cell for their elements (tables: one for keys and one for values).  Constructors, comparison functions,
container calls with the address of a variable, array accesses and allocations state the size of a cell; within one cell all
must agree.  Fields of structures are one cell each; functions are instantiated per call; variables whose address is handed out
are split at each definition."""
from absint import *
from front import *
import re

COLL = ('modules/collections/',)
SZ = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8, 'double': 8, 'float': 4}
CMP = {'int_compare': (4, 'i'), 'long_compare': (8, 'i'), 'short_compare': (2, 'i'), 'double_compare': (8, 'f'), 'float_compare': (4, 'f'),
       'char_compare': (1, 'i'), 'string_compare': (8, 'p'), 'ptr_compare': (8, 'p'), 'pointer_compare': (8, 'p'), 'cluster_compare': (8, 'p')}
HT = {0: (4, 'i'), 1: (8, 'f'), 2: (4, 'f'), 3: (8, 'i'), 4: (2, 'i'), 5: (1, 'i'), 6: (8, 'p'), 7: (8, 'p')}


def kind(ty):
    return 'f' if ty in ('double', 'float') else 'p' if ty == 'ptr' else 'i' if ty in SZ else None


class Cell:
    n = 0
    __slots__ = ('up', 'facts', 'pt', 'el', 'key', 'val', 'keys', 'id', 'nm')

    def __init__(s, nm=None):
        s.up = None; s.facts = {}; s.pt = s.el = s.key = s.val = s.keys = None
        Cell.n += 1; s.id = Cell.n; s.nm = nm


def find(c):
    while c.up is not None:
        if c.up.up is not None:
            c.up = c.up.up
        c = c.up
    return c


def unify(a, b):
    work = [(a, b)]
    while work:
        a, b = work.pop()
        a, b = find(a), find(b)
        if a is b:
            continue
        b.up = a
        for k, v in b.facts.items():
            a.facts.setdefault(k, v)
        a.nm = a.nm or b.nm
        for f in ('pt', 'el', 'key', 'val', 'keys'):
            x, y = getattr(a, f), getattr(b, f)
            if y is not None:
                if x is None:
                    setattr(a, f, y)
                else:
                    work.append((x, y))
    return a


def sub(c, f):
    c = find(c)
    v = getattr(c, f)
    if v is None:
        v = Cell(); setattr(c, f, v)
        if f == 'keys':         # the set of the keys of a table
            unify(sub(v, 'el'), sub(c, 'key'))
    return find(v)


class Types:
    LIST = ('struct.ArrayList',)
    TABLE = ('struct.HASHTABLE_',)

    def __init__(s, prog, R):
        s.prog = prog; s.R = R
        s.fields = {}; s.globs = {}
        s.cells = []
        s.off = {(st, f['name']): f['off'] for st, d in (('struct.ArrayList', 'ArrayList'), ('struct.HASHTABLE_', 'HASHTABLE_')) if d in prog.ditypes for f in prog.ditypes[d]['fields']}
        s.consts = {}

    def fact(s, c, size, kd, inst, text):
        c = find(c)
        c.facts.setdefault((size, kd, text.split(' (')[0], inst.fn.name if inst is not None else ''), (inst, text))

    def cell(s, nm=None):
        c = Cell(nm); s.cells.append(c)
        return c

    def field(s, st, off):
        st = re.sub(r'\.\d+$', '', st)
        if (st, off) not in s.fields:
            c = s.fields[(st, off)] = s.cell('%s+%d' % (st, off))
        return s.fields[(st, off)]

    # what callers pass from one function to the next
    ROLES = {('hdbscan_create_cluster_map', 'ret'): 'cluster map', ('hdbscan_get_min_max_distances', 1): 'cluster map', ('hdbscan_sort_by_length', 0): 'cluster map',
             ('hdbscan_print_cluster_map', 0): 'cluster map', ('hdbscan_print_cluster_sizes', 0): 'cluster map', ('hdbscan_destroy_cluster_map', 0): 'cluster map',
             ('hdbscan_get_min_max_distances', 'ret'): 'extremes', ('hdbscan_calculate_stats', 0): 'extremes', ('hdbscan_sort_by_similarity', 0): 'extremes',
             ('hdbscan_print_distance_map', 0): 'extremes', ('hdbscan_destroy_distance_map', 0): 'extremes',
             ('hdbscan_print_hierarchies', 0): 'hierarchy',
             ('hdbscan_sort_by_similarity', 1): 'labels', ('hdbscan_sort_by_length', 1): 'labels', ('hdbscan_sort_by_similarity', 'ret'): 'labels', ('hdbscan_sort_by_length', 'ret'): 'labels'}

    def run(s):
        roles = {r: s.cell(r) for r in set(s.ROLES.values())}
        d = s.prog.ditypes.get('hdbscan')
        for f in (d['fields'] if d else ()):
            if f['name'] == 'hierarchy':
                for st in ('struct.hdbscan', 'class.clustering::hdbscan'):
                    unify(sub(s.field(st, f['off']), 'pt'), roles['hierarchy'])
        for f in s.prog.defined():
            if s.mine(f):
                s.R.add('functions')
                ret, c = s.instance(f, [roles[s.ROLES[(f.name, k)]] if (f.name, k) in s.ROLES and f.args[k]['ty'] == 'ptr' else s.cell() for k in range(len(f.args))], [None] * len(f.args), ())
                if (f.name, 'ret') in s.ROLES and f.ret == 'ptr':
                    unify(ret, roles[s.ROLES[(f.name, 'ret')]])

    def mine(s, f):
        r = relpath(f.file or '')
        return not f.decl and (r.startswith('src/') or r.startswith('include/')) and not f.name.startswith(('_ZNSt', '_ZSt', '_ZN9__gnu', '_ZNKSt', '__clang'))

    # ---- one instance of a function
    def instance(s, fn, args, consts, stack):
        I = Inst1(s, fn, args, consts, stack + (fn.name,))
        I.go()
        return I.ret, I.retc


class Inst1:
    def __init__(s, T, fn, args, consts, stack):
        s.T = T; s.fn = fn; s.args = args; s.consts = consts; s.stack = stack
        s.v = {}; s.ret = T.cell(); s.retc = set()
        s.vers = {}

    def const(s, o, d=0):
        k = o.get('k')
        if k == 'c':
            return o['v']
        if k == 'a':
            return s.consts[o['i']] if o['i'] < len(s.consts) else None
        if k == 'i' and d < 6:
            i = s.fn.insts[o['i']]
            if i.op == 'phi':
                r = set(s.const(x['v'], d + 1) for x in i.ops)
                return r.pop() if len(r) == 1 else None
            if i.op == 'select':
                c = s.const(i.ops[0], d + 1)
                if c is not None:
                    return s.const(i.ops[1 if c else 2], d + 1)
                r = set(s.const(x, d + 1) for x in i.ops[1:])
                return r.pop() if len(r) == 1 else None
            if i.op in ('zext', 'sext', 'trunc'):
                return s.const(i.ops[0], d + 1)
            if i.op in ('call', 'invoke'):
                return s.v.get(('c', i.id))
        return None

    def unit(s, o, d=0):
        """(unit, is a product) when the value is a count times a constant"""
        k = o.get('k')
        if k == 'c':
            return o['v'], False
        if k == 'i' and d < 4:
            i = s.fn.insts[o['i']]
            if i.op == 'mul':
                for x in i.ops:
                    c = s.const(x)
                    if c is not None:
                        return c, True
            if i.op == 'shl':
                c = s.const(i.ops[1])
                if c is not None:
                    return 1 << c, True
            if i.op in ('zext', 'sext', 'trunc'):
                return s.unit(i.ops[0], d + 1)
        return None, False

    def val(s, o):
        """cell of what a pointer value points to"""
        k = o.get('k')
        if k == 'i':
            return s.of(o['i'])
        if k == 'a':
            return s.args[o['i']]
        if k == 'g':
            g = s.T.globs
            if o['n'] not in g:
                g[o['n']] = s.T.cell(o['n'])
            return g[o['n']]
        if k == 'gep':
            return s.gep(o, s.val(o['base']), None)
        return s.T.cell()

    def of(s, i):
        if i not in s.v:
            s.v[i] = s.T.cell()
        return s.v[i]

    def gep(s, g, base, inst):
        T = s.T
        path = g.get('path') or []
        vs = g.get('vars') or []
        if vs and inst is not None:
            sc = vs[0].get('scale')
            src = g.get('srcty', '')
            if sc and not src.startswith('[') and src != 'i8':
                T.fact(base, sc, kind(src), inst, 'array access')
        if not path and not vs and g.get('off'):
            return T.cell()
        st = [p for p in path if 'struct' in p]
        if st:
            p = st[-1]
            n = p['struct']
            n0 = re.sub(r'\.\d+$', '', n)
            if n0 in T.LIST and p['off'] == T.off.get((n0, 'data')):
                return ('data', base)
            if n0 in T.TABLE and p['off'] == T.off.get((n0, 'keys')):
                return ('keys', base)
            if n0 in T.LIST and p['off'] == T.off.get((n0, 'step')):
                return ('step', base)
            if n0 in T.LIST + T.TABLE and p['off'] == T.off.get((n0, 'compare')):
                return ('cmp', base, n0)
            if n0 in T.LIST + T.TABLE:
                return T.cell()
            return T.field(n0, p['off'])
        return base

    def go(s):
        fn, T = s.fn, s.T
        s.versions()
        for b in fn.rpo:
            for i in fn.blocks[b].insts:
                s.step(i)

    # ---- variables handed out by address: a version per definition
    def versions(s):
        fn = s.fn
        al = {i.id: i for i in fn.all_insts() if i.op == 'alloca' and i.d.get('aty') == 'ptr'}
        for a in al:
            defs = {}; ok = True
            for u in fn.users.get(('i', a), []):
                if u.op == 'store' and u.ops[1].get('i') == a and u.ops[1].get('k') == 'i' and not (u.ops[0].get('k') == 'i' and u.ops[0].get('i') == a):
                    defs[u.id] = u
                elif u.op in ('call', 'invoke'):
                    defs[u.id] = u
                elif u.op != 'load':
                    ok = False
            if not ok or not defs:
                continue
            IN = {b.id: set() for b in fn.blocks}; OUT = {b.id: None for b in fn.blocks}
            ch = True
            IN[0] = {'entry'}
            while ch:
                ch = False
                for b in fn.rpo:
                    cur = set(IN[b])
                    for p in fn.blocks[b].pred:
                        cur |= OUT[p] or set()
                    IN[b] = set(cur)
                    for i in fn.blocks[b].insts:
                        if i.id in defs:
                            cur = s.kill(i, cur, a)
                    if OUT[b] != cur:
                        OUT[b] = cur; ch = True
            cells = {}
            for b in fn.rpo:
                cur = set(IN[b])
                for i in fn.blocks[b].insts:
                    if i.op == 'load' and i.ops[0].get('k') == 'i' and i.ops[0].get('i') == a or i.id in defs:
                        s.vers[(a, i.id)] = frozenset(cur)
                    if i.id in defs:
                        cur = s.kill(i, cur, a)
            s.vers[a] = {}

    def kill(s, i, cur, a):
        # a call may leave the variable as it was (nothing found) or read it: what it held stays possible only for reads
        if i.op == 'store':
            return {i.id}
        return {i.id} if s.writes(i, a) else cur

    def writes(s, i, a):
        nm = i.d['callee'].get('n', '')
        pos = [k for k, o in enumerate(i.ops) if o.get('k') == 'i' and o.get('i') == a]
        w = {'hashtable_lookup': (2,), 'array_list_value_at': (2,), 'set_value_at': (2,), 'array_list_remove_at': (2,), 'set_remove_at': (2,), 'array_list_pop': (1,), 'hashtable_remove': (2,), 'ptr_array_list_pop': (1,), 'ptr_array_list_value_at': (2,), 'ptr_array_list_remove_at': (2,)}.get(nm)
        if w is not None:
            return any(p in w for p in pos)
        if nm in ('array_list_append', 'array_list_insert_at', 'array_list_find', 'set_insert', 'set_find', 'hashtable_insert', 'array_list_replace_at', 'ptr_array_list_append', 'array_list_remove', 'set_remove'):
            return False
        return True

    def addr(s, o, inst, write=False):
        """cell the operand addresses, for a variable split by definition that of the version"""
        if o.get('k') == 'i' and o['i'] in s.vers and isinstance(s.vers[o['i']], dict):
            a = o['i']; V = s.vers[a]
            if write:
                ids = {inst.id}
            else:
                ids = set(s.vers.get((a, inst.id), ())) or {'entry'}
            c = None
            for d in sorted(ids, key=str):
                if d not in V:
                    V[d] = s.T.cell(s.fn.insts[a].n)
                    s.T.fact(V[d], 8, 'p', s.fn.insts[a], 'variable %s' % s.fn.insts[a].n)
                if c is not None:
                    unify(c, V[d])
                c = V[d]
            return c
        c = s.val(o)
        return c if isinstance(c, Cell) else s.special(c)

    def special(s, c):
        return s.T.cell()

    def step(s, i):
        T = s.T; op = i.op
        if op == 'alloca':
            c = s.of(i.id)
            t = i.d.get('aty', '')
            if t in SZ:
                T.fact(c, SZ[t], kind(t), i, 'variable %s' % (i.n or '?'))
            elif t.startswith(('%struct.', '%class.')):
                T.fact(c, i.d['asize'], None, i, 'variable %s' % (i.n or '?'))
        elif op == 'getelementptr':
            b = s.val(i.ops[0])
            if not isinstance(b, Cell):
                b = s.special(b)
            s.v[i.id] = r = s.gep(i.d, b, i)
            if isinstance(r, Cell) and i.d.get('path') and r in T.fields.values():
                st = i.d['path'][-1]
                if 'struct' in st:
                    n = T.prog.irstructs.get(st['struct'])
                    f = [x for x in n['fields'] if x['off'] == st['off']] if n else []
                    if f and f[0].get('ty') in SZ:
                        T.fact(r, SZ[f[0]['ty']], kind(f[0]['ty']), i, 'member %s' % (i.n or '?').rstrip('0123456789'))
        elif op == 'load':
            a = s.val(i.ops[0])
            if isinstance(a, tuple):
                if a[0] == 'data':
                    s.v[i.id] = sub(a[1], 'el')
                elif a[0] == 'keys':
                    s.v[i.id] = sub(a[1], 'keys')
                return
            a = s.addr(i.ops[0], i)
            if i.ty in SZ:
                T.fact(a, SZ[i.ty], kind(i.ty), i, 'access')
            if i.ty == 'ptr':
                s.bind(i.id, sub(a, 'pt'))
        elif op == 'store':
            a = s.val(i.ops[1])
            if isinstance(a, tuple):
                if a[0] == 'data':
                    v = s.val(i.ops[0])
                    if isinstance(v, Cell):
                        unify(sub(a[1], 'el'), v)
                elif a[0] == 'keys':
                    v = s.val(i.ops[0])
                    if isinstance(v, Cell):
                        unify(sub(a[1], 'keys'), v)
                elif a[0] == 'step':
                    c = s.const(i.ops[0])
                    if c is not None:
                        T.fact(sub(a[1], 'el'), c, None, i, 'step')
                elif a[0] == 'cmp' and i.ops[0].get('k') == 'fn':
                    s.compare(sub(a[1], 'el' if a[2] in T.LIST else 'key'), i.ops[0]['n'], i)
                return
            ty = i.d.get('vty')
            a = s.addr(i.ops[1], i, True)
            if ty in SZ:
                T.fact(a, SZ[ty], kind(ty), i, 'access')
            if ty == 'ptr':
                v = s.val(i.ops[0])
                if isinstance(v, Cell):
                    unify(sub(a, 'pt'), v)
        elif op in ('phi', 'select'):
            if i.ty == 'ptr':
                c = s.of(i.id)
                for o in ([x['v'] for x in i.ops] if op == 'phi' else i.ops[1:]):
                    if o.get('k') in ('i', 'a', 'g', 'gep'):
                        v = s.val(o)
                        if isinstance(v, Cell):
                            c = unify(c, v)
                s.bind(i.id, c)
        elif op in ('bitcast', 'addrspacecast', 'freeze'):
            if i.ty == 'ptr':
                s.v[i.id] = s.val(i.ops[0])
        elif op == 'ret':
            if i.ops and i.ops[0].get('k') in ('i', 'a', 'g', 'gep', 'c'):
                if s.fn.ret == 'ptr':
                    v = s.val(i.ops[0])
                    if isinstance(v, Cell):
                        unify(s.ret, v)
                else:
                    s.retc.add(s.const(i.ops[0]))
        elif op in ('call', 'invoke'):
            s.call(i)

    def bind(s, k, c):
        if k in s.v and isinstance(s.v[k], Cell):
            unify(s.v[k], c)
        else:
            s.v[k] = c

    def compare(s, el, nm, i):
        k = CMP.get(nm)
        if k is not None:
            s.T.fact(el, k[0], k[1], i, 'comparison by %s' % nm)
        else:
            f = s.T.prog.fns.get(nm)
            if f is not None and not f.decl and len(f.args) == 2:
                A = Inst1(s.T, f, [el, el], [None, None], s.stack + (nm,))
                if len(s.stack) < 12:
                    A.go()

    def pt(s, o, i, write=False):
        return s.addr(o, i, write)

    def call(s, i):
        T = s.T; nm = i.d['callee'].get('n', '') if i.d['callee'].get('k') == 'fn' else ''
        o = i.ops
        N = lambda k: s.lst(o[k])
        T.R.add('calls') if nm.startswith(('array_list', 'ptr_array', 'set_', 'hashtable_')) else None
        cmpf = lambda el, k: s.compare(el, o[k]['n'], i) if len(o) > k and o[k].get('k') == 'fn' else None
        if nm in ('array_list_init', 'set_init', 'ptr_array_list_init'):
            c = s.of(i.id)
            n = 8 if nm == 'ptr_array_list_init' else s.const(o[1 if nm == 'array_list_init' else 0])
            if n is not None:
                T.fact(sub(c, 'el'), n, 'p' if nm[0] == 'p' else None, i, 'element size of the list')
            elif nm != 'ptr_array_list_init':
                g = s.stepof(o[1 if nm == 'array_list_init' else 0])
                if g is not None:
                    unify(sub(c, 'el'), g)
            cmpf(sub(c, 'el'), 2 if nm == 'array_list_init' else 1)
        elif nm in ('hashtable_init', 'hashtable_init_size'):
            c = s.of(i.id)
            for k, f in ((1, 'key'), (2, 'val')):
                t = s.const(o[k])
                if t in HT:
                    T.fact(sub(c, f), HT[t][0], HT[t][1], i, '%s type of the table' % ('key' if k == 1 else 'value'))
            cmpf(sub(c, 'key'), 3)
        elif nm in ('array_list_append', 'set_insert', 'set_find', 'array_list_find', 'array_list_remove', 'set_remove', 'ptr_array_list_append', 'array_list_pop', 'ptr_array_list_pop', 'ptr_array_list_remove'):
            if s.isptr(o[1]):
                unify(sub(N(0), 'el'), s.pt(o[1], i, nm.endswith('pop')))
        elif nm in ('array_list_insert_at', 'array_list_value_at', 'array_list_remove_at', 'set_value_at', 'set_remove_at', 'array_list_replace_at', 'ptr_array_list_value_at', 'ptr_array_list_remove_at', 'ptr_array_list_insert_at'):
            q = [k for k in range(1, len(o)) if i.d['argtys'][k] == 'ptr']
            if q and s.isptr(o[q[0]]):
                unify(sub(N(0), 'el'), s.pt(o[q[0]], i, 'value_at' in nm or 'remove_at' in nm))
        elif nm in ('hashtable_lookup', 'hashtable_insert', 'hashtable_remove', 'hashtable_lookup_helper'):
            if s.isptr(o[1]):
                unify(sub(N(0), 'key'), s.pt(o[1], i))
            if len(o) > 2 and s.isptr(o[2]):
                unify(sub(N(0), 'val'), s.pt(o[2], i, nm == 'hashtable_lookup' or nm == 'hashtable_remove'))
        elif nm in ('malloc', 'calloc', 'realloc', 'aligned_alloc'):
            c = s.of(i.id)
            if nm == 'calloc':
                u, many = s.const(o[1]), s.const(o[0]) != 1
            elif nm == 'malloc':
                u, many = s.unit(o[0])
            else:
                u, many = s.unit(o[1])
                if nm == 'realloc':
                    v = s.val(o[0])
                    if isinstance(v, Cell):
                        s.bind(i.id, v)
            if u is not None and many:
                T.fact(c, u, None, i, 'allocation in units')
        elif nm == 'qsort':
            u = s.const(o[2])
            v = s.val(o[0])
            if isinstance(v, Cell):
                if u is not None:
                    T.fact(v, u, None, i, 'sorting in units')
                if o[3].get('k') == 'fn':
                    s.compare(v, o[3]['n'], i)
        elif nm.startswith(('llvm.memcpy', 'llvm.memmove')) or nm in ('memcpy', 'memmove'):
            u, many = s.unit(o[2])
            for k in (0, 1):
                v = s.val(o[k])
                if isinstance(v, Cell) and many and u != 1:
                    T.fact(v, u, None, i, 'copy in units')
        elif nm.startswith('llvm.memset') or nm == 'memset':
            u, many = s.unit(o[2]); v = s.val(o[0])
            if isinstance(v, Cell) and many and u != 1:
                T.fact(v, u, None, i, 'fill in units')
        else:
            f = T.prog.fns.get(nm)
            if f is not None and T.mine(f) and nm not in s.stack and len(s.stack) < 8:
                ar = []
                for k in range(len(f.args)):
                    v = s.pt(o[k], i, True) if k < len(o) and i.d['argtys'][k] == 'ptr' and s.isptr(o[k]) else T.cell()
                    ar.append(v)
                ret, rc = T.instance(f, ar, [s.const(q) for q in o[:len(f.args)]], s.stack)
                if i.ty == 'ptr':
                    s.bind(i.id, find(ret))
                elif len(rc) == 1:
                    s.v[('c', i.id)] = rc.pop()

    def stepof(s, o):
        if o.get('k') == 'i':
            l = s.fn.insts[o['i']]
            if l.op == 'load':
                a = s.val(l.ops[0])
                if isinstance(a, tuple) and a[0] == 'step':
                    return sub(a[1], 'el')
        return None

    def isptr(s, o):
        return o.get('k') in ('i', 'a', 'g', 'gep')

    def lst(s, o):
        c = s.val(o)
        return c if isinstance(c, Cell) else s.T.cell()


ORDER = ['element size of the list', 'step', 'key type of the table', 'value type of the table', 'comparison by', 'allocation in units', 'member', 'variable', 'array access', 'sorting in units', 'copy in units', 'fill in units', 'access']


UNITS = ('allocation in units', 'copy in units', 'fill in units')


def rank(t):
    for k, p in enumerate(ORDER):
        if t.startswith(p):
            return k
    return 99


def check(R, tier):
    for cfg in CONFIGS:
        prog = build('corecpp', cfg, passes=PASSES.replace('sroa', 'mem2reg'))
        T = Types(prog, R); T.run()
        seen = set()
        R.add('configurations')
        for c in T.cells + [x for y in T.cells for x in (find(y).el, find(y).key, find(y).val, find(y).pt) if x is not None]:
            c = find(c)
            if c.id in seen or not c.facts:
                continue
            seen.add(c.id)
            R.add('cells')
            judge(R, c, cfg)
    R.need('calls', 1)


def judge(R, c, cfg):
    fs = sorted(((k[0], k[1], t, i) for k, (i, t) in c.facts.items()), key=lambda f: (rank(f[2]), f[3].loc() if f[3] is not None else ''))
    fs = [f for f in fs if not (f[2] == 'access' and f[0] == 1)]
    if not fs or rank(fs[0][2]) > 7:
        return
    many = [f for f in fs if f[2] in UNITS]
    fs = [f for f in fs if f[2] not in UNITS]
    strong = [f for f in fs if rank(f[2]) < 12]
    for u in many:
        for f in fs:
            if f[0] and u[0] % f[0]:
                R.violation('size', u[3].loc(), '%s in %s is %d bytes, %s in %s (%s) %d, with %s' % (u[2], u[3].fn.srcname, u[0], f[2], f[3].fn.srcname, f[3].loc(), f[0], cfg_name(cfg)), key='size|%s|%s|%s|%s' % (u[2], u[3].fn.name, f[2], f[3].fn.name))
                return
    if not fs:
        return
    R.add('sizes', len(fs))
    if len(set(f[0] for f in strong)) <= 1 and len(set(f[0] for f in fs)) <= 1:
        ks = [f for f in fs if f[1] is not None]
        a = ks and ks[0]
        for f in ks:
            if f[1] != a[1] and 'f' in (f[1], a[1]):
                R.violation('kind', f[3].loc(), '%s in %s and %s in %s are not of the same kind' % (f[2], f[3].fn.srcname, a[2], a[3].fn.srcname), key='kind|%s|%s|%s|%s' % (f[2], f[3].fn.name, a[2], a[3].fn.name))
                break
        return
    a = fs[0]
    for f in fs[1:]:
        if f[0] != a[0]:
            R.violation('size', f[3].loc(), '%s in %s has %d bytes, %s in %s (%s) %d, with %s' % (f[2], f[3].fn.srcname, f[0], a[2], a[3].fn.srcname, a[3].loc(), a[0], cfg_name(cfg)), key='size|%s|%s|%s|%s' % (f[2], f[3].fn.name, a[2], a[3].fn.name))
            return
