"""Unusable arguments and smallest sizes.  (1) hdbscan_run and hdbscan_rerun are interpreted with each unusable argument (no
object, no data, no rows, no columns, fewer than two points asked for, nothing run before): on every path the error status
comes back, nothing of the library is called and no member changes.  (2) Every function of the library that asks for a list
is interpreted with arbitrary arguments: at each constructor the number of places asked for must be at least one."""
from p27 import *

MAKERS = ('array_list_init', 'ptr_array_list_init')


class CapAI(RunAI):
    MAXP = 4

    def __init__(s, prog):
        RunAI.__init__(s, prog)
        s.asked = []

    def call_hook(s, st, i, name, args):
        if name in MAKERS:
            s.asked.append((i, args[0], st.copy()))
        elif not (name in s.hooks or name in EVENTS or name.startswith('llvm.') or name in s.models):
            f = s.prog.fns.get(name)
            if f is not None and not f.decl and name != s.top and not f.internal:
                if re.match(r'(hashtable|array_list|set)_(size|empty)$|hdbscan_get_dataset_size$', name):
                    return None
                v = None if i.ty == 'void' else ('p', ('out', fresh_id(), name), ZERO) if i.ty == 'ptr' else s.fresh(i.ty, name, s.use_signed(i))
                return [(st, v)]
        out = RunAI.call_hook(s, st, i, name, args)
        if name in MAKERS or name == 'set_init':
            for x, p in out:               # sets start with room of their own
                n = args[0] if name != 'set_init' else ('i', Poly.a(fresh_atom('room', 1)))
                if p[0] == 'p':
                    x.heap.setdefault(p[1], {})[s.LO['max_size']] = (n, 8, 'i64')
        return out


def check(R, tier):
    for cfg in (CONFIGS if tier != 'quick' else [DEFAULT, CONFIGS[4]]):
        prog = build('core', cfg)
        refuse(R, prog, 'hdbscan_run')
        refuse(R, prog, 'hdbscan_rerun')
        room(R, prog)
    R.need('functions', 1)


def refuse(R, prog, name):
    fn = prog.fns.get(name)
    if fn is None or fn.decl:
        R.undecided.append('%s not found' % name); return
    cases = [('no object', None)] + ([('no data', 1), ('no rows', 2), ('no columns', 3)] if name == 'hdbscan_run' else [('a single point asked for', 1), ('no points asked for', 0), ('nothing run before', 'core')])
    R.add('functions')
    for text, k in cases:
        A = RunAI(prog); A.top = name
        st = State(); av = []
        for n, a in enumerate(fn.args):
            if n == 0 and k is None:
                av.append(('p', 'null', ZERO)); continue
            if n == 0:
                av.append(A.record(st, 'sc', 'hdbscan')); continue
            v = A.arg_value(st, fn, n, nonnull=False)
            if a['ty'] == 'ptr':
                if name == 'hdbscan_run' and k == n:
                    v = ('p', 'null', ZERO)
                else:
                    st.reg[v[1]] = Region('heap', None, 'sym')
            elif name == 'hdbscan_run' and k == n:
                v = I(0)
            elif name == 'hdbscan_rerun' and n == 1 and k in (0, 1):
                v = I(k)
            av.append(v)
        if k == 'core':
            o = A.off('hdbscan', 'distanceFunction') + A.off('Distance', 'coreDistances')
            st.heap[('rec', 'sc')][o] = (('p', 'null', ZERO), 8, 'ptr')
        before = dict(st.heap.get(('rec', 'sc'), {}))
        R.add('refusals')
        for x, v in A.run(fn, st, av):
            R.add('paths')

            def bad(rule, i, msg):
                R.violation(rule, i.loc() if i is not None else fn.loc(), '%s with %s: %s' % (name, text, msg), key='%s|%s|%s|%s' % (name, rule, text, msg), path=['%s branch %s' % (t[0], t[1]) for t in x.trace if t[0] != 'loop'])
            if v is None or v[0] != 'i' or v[1].const() != 1:
                e = [e for e in x.log if e[0] in EVENTS or e[0] in STEPS]
                bad('refused', e[0][4] if e else None, 'the arguments are not refused'); continue
            for e in x.log:
                if e[0] in EVENTS:
                    bad('untouched', e[4], 'something is done to the object before'); break
            for o, c in x.heap.get(('rec', 'sc'), {}).items():
                if (('rec', 'sc'), o) in x.writes and (o not in before or c[0] != before[o][0]):
                    bad('untouched', None, 'the object is changed'); break


def known(o):
    """is the number made of arguments, members and sizes only?"""
    def atomok(a):
        k = ATOMS[a].key
        if isinstance(k, tuple):
            if k[0] in ('init', 'arg', 'ld', 'size', 'mem', 'load'):
                return True
            subs = [y for y in k[1:] if isinstance(y, Poly)]
            return bool(subs) and all(polyok(y) for y in subs)
        return False

    def polyok(p):
        return all(atomok(a) for m in p.t for a in m)
    return polyok(o)


def plain(prog, fn, o, depth=0):
    """constants and capacities of other lists (at least one by this very rule, and lists only grow)"""
    if o.get('k') == 'c':
        return isinstance(o.get('v'), int) and o['v'] >= 1
    i = fn.insts.get(o.get('i')) if o.get('k') == 'i' else None
    if i is None or depth > 8:
        return False
    if i.op == 'phi':
        return all(plain(prog, fn, x['v'], depth + 1) for x in i.ops)
    if i.op in ('select', 'zext', 'freeze'):
        return all(plain(prog, fn, x, depth + 1) for x in (i.ops[1:] if i.op == 'select' else i.ops))
    if i.op == 'load' and i.ops[0].get('k') == 'i':
        g = fn.insts.get(i.ops[0]['i'])
        off = [f['off'] for f in prog.ditypes['ArrayList']['fields'] if f['name'] == 'max_size']
        return g is not None and g.op == 'getelementptr' and g.d.get('srcty', '').endswith('struct.ArrayList') and g.d.get('off') in off and not g.d.get('vars')
    return False


def room(R, prog):
    for fn in list(prog.fns.values()):
        if fn.decl or not fn.loc().startswith(('src/',)) or not any(i.op == 'call' and i.d['callee'].get('n') in MAKERS for i in fn.all_insts()):
            continue
        sites = [i for i in fn.all_insts() if i.op == 'call' and i.d['callee'].get('n') in MAKERS]
        if all(plain(prog, fn, i.ops[0]) for i in sites):
            R.add('functions'); R.add('capacities', len(sites)); continue
        A = CapAI(prog); A.top = fn.name
        st = State(); av = []
        for k, a in enumerate(fn.args):
            canon = fn.dicanon[k + 1] if len(fn.dicanon) == len(fn.args) + 1 else ''
            if a['ty'] == 'ptr' and 'struct hdbscan' in str(canon):
                av.append(A.record(st, 'sc', 'hdbscan'))
                n = A.init['sc']['numPoints'][1]
                st.add_ge(n - 1)
                continue
            v = A.arg_value(st, fn, k, nonnull=False)
            if a['ty'] == 'ptr':
                st.reg[v[1]] = Region('heap', None, 'sym')
            av.append(v)
        try:
            A.run(fn, st, av)
        except AnalysisBroken:
            raise
        except Exception as e:
            R.undecided.append('%s: not interpreted (%s)' % (fn.name, type(e).__name__)); continue
        R.add('functions')
        for i, n, x in A.asked:
            R.add('capacities')
            if n[0] != 'i':
                R.undecided.append('%s: capacity unknown at %s' % (fn.name, i.loc())); continue
            if x.ge(n[1] - 1):
                continue
            c = n[1].const()
            z = x.copy()
            if c is not None and c <= 0 or known(n[1]):
                R.violation('room', i.loc(), 'a list without a single place may be asked for in %s' % fn.srcname, key='room|%s' % fn.srcname, path=['%s branch %s' % (t[0], t[1]) for t in x.trace if t[0] != 'loop'])
            else:
                R.undecided.append('%s: capacity not followed at %s' % (fn.name, i.loc()))
