"""Cluster map: the construction of the map from labels to points is interpreted for arbitrary labels and an arbitrary range
of points, with its containers as events.  The loop runs over the whole range and every pass enters the point, once, into
the list that the table holds for the label of that very point."""
from hierdom import *
from p30 import Ctx
from p25 import shifted
import re


def run(prog, cfg):
    fn = prog.get('hdbscan_create_cluster_map')
    A = HierAI(prog)
    st = State()
    lab = ('p', ('arr', 'labels'), ZERO)
    st.nul[lab[1]] = 'nonnull'; st.reg[lab[1]] = Region('heap', None, 'sym')
    w = {'unsigned int': 32, 'unsigned short': 16, 'unsigned long': 64}[cfg['INDEX_TYPE']]
    lo = Poly.a(atom(('in', 'begin'), 'begin', 0, 2 ** w - 1, w)); hi = Poly.a(atom(('in', 'end'), 'end', 0, 2 ** w - 1, w))
    st.add_ge(hi - lo)
    outs = A.run(fn, st, [lab, ('i', lo), ('i', hi)])
    A.frozen = True
    return A, fn, outs, lo, hi


class MapAI(HierAI):
    """std::map and std::vector as events"""
    def call_hook(s, st, i, name, args):
        if re.match(r'_ZNSt3mapI.*EixE', name):              # operator[]: the entry of a key, made when it is not there
            t = st.res(args[0]); k = s.peek(st, i, args[1])
            v = ('p', ('entry', fresh_id()), ZERO)
            st.nul[v[1]] = 'nonnull'; st.reg[v[1]] = Region('heap', None, 'sym')
            s.log(st, 'get', t, k, v, i)
            return [(st, v)]
        if re.match(r'_ZNSt6vectorI.*E(9push_backE|12emplace_backI)', name):
            s.log(st, 'append', st.res(args[0]), s.peek(st, i, args[1]), i)
            return [(st, None if i.ty == 'void' else args[0])]
        if re.match(r'_ZNSt(3map|6vector|4pair|4less|15_Rb_tree|9allocator)?.*(C2E|D2E|C1E|D1E|reserve)', name):
            return [(st, None if i.ty == 'void' else s.fresh(i.ty) if i.ty != 'ptr' else args[0])]
        if name.startswith('_ZNSt') or name.startswith('_ZNKSt') or name.startswith('_ZSt'):
            s.log(st, 'stl', name, i)
            return [(st, None if i.ty == 'void' else ('p', ('out', fresh_id(), 'stl'), ZERO) if i.ty == 'ptr' else s.fresh(i.ty))]
        return HierAI.call_hook(s, st, i, name, args)


def cpp(R, cfg):
    prog = build('corecpp', cfg)
    fns = [f for n, f in prog.fns.items() if re.match(r'_ZN10clustering16createClusterMapE', n) and not f.decl]
    if not fns:
        R.undecided.append('C++ createClusterMap not found'); return
    fn = fns[0]
    A = MapAI(prog)
    st = State()
    T = ('p', ('arr', 'map'), ZERO); lab = ('p', ('arr', 'labels'), ZERO)
    for b in (T, lab):
        st.nul[b[1]] = 'nonnull'; st.reg[b[1]] = Region('heap', None, 'sym')
    w = {'unsigned int': 32, 'unsigned short': 16, 'unsigned long': 64}[cfg['INDEX_TYPE']]
    lo = Poly.a(atom(('in', 'begin'), 'begin', 0, 2 ** w - 1, w)); hi = Poly.a(atom(('in', 'end'), 'end', 0, 2 ** w - 1, w))
    st.add_ge(hi - lo)
    outs = A.run(fn, st, [T, lab, ('i', lo), ('i', hi)])
    A.frozen = True
    c = Ctx(R, A, fn, outs, cfg)
    R.add('functions')
    loops = {}
    for x, v in outs:
        R.add('results')
        for lp in A.loops_of(x):
            if any(e[0] == 'append' for L in lp.latch for e in A.tail(lp, L)):
                loops[id(lp)] = lp
    if not loops:
        (c.und('filling of the C++ map') if any(e[0] in ('stl', 'loop') for x, v in outs for e in x.log) or A.loops else c.bad('fill', fn.loc(), 'no point is entered into the map'))
    for lp in loops.values():
        if any(e[0] == 'stl' for L in lp.latch for e in A.tail(lp, L)):
            c.und('operations of the C++ map'); continue
        fill(c, lp, lo, hi, {T[1]})


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else [CONFIGS[0], CONFIGS[4], CONFIGS[13]]):
        cpp(R, cfg)
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('core', cfg)
        A, fn, outs, lo, hi = run(prog, cfg)
        R.add('functions')
        judge(Ctx(R, A, fn, outs, cfg), lo, hi)
    R.need('functions', 1); R.need('results', 1)
    R.assumptions += ['the range handed in is not inverted', 'allocations of containers succeed']


def judge(c, lo, hi):
    A, R, fn = c.A, c.R, c.fn
    loops = {}
    T = set()
    for x, v in c.outs:
        R.add('results')
        new = [e[1] for e in x.log if e[0] == 'newtable']
        if v is None or v[0] != 'p' or x.nullness(v) == 'null':
            if x.ge(lo - hi):
                continue
            if not any(e[0] == 'allocfail' for e in x.log):
                c.bad('result', fn.loc(), 'no map is returned')
            continue
        if new and v not in new:
            c.und('map returned'); continue
        T.add(v[1])
        lps = [lp for lp in A.loops_of(x) if any(e[0] == 'append' for L in lp.latch for e in A.tail(lp, L))]
        if not lps and not x.ge(lo - hi):
            lps2 = A.loops_of(x)
            (c.und if lps2 else lambda m: c.bad('fill', fn.loc(), 'no point is entered into the map'))('filling of the map'); continue
        for lp in lps:
            loops[id(lp)] = lp
    for lp in loops.values():
        fill(c, lp, lo, hi, T)


def strides(A, lp):
    """constant steps of the integer loop variables"""
    for slot, v0, v in A.int_slots(lp):
        d = set()
        for L in lp.latch:
            n = A.slot_value(L, slot, True)
            d.add((n[1] - v).const() if n is not None and n[0] == 'i' else None)
        yield [k for k in d] if None not in d else []


def fill(c, lp, lo, hi, T):
    A, R = c.A, c.R
    early = []
    ks = A.counter(lp, [hi, lo, hi - lo, ZERO], early)
    n = hi - lo
    fit = [k for k in ks if k[2] - k[1] == n]
    if fit:
        k = [q for q in fit if q[1] == lo] or fit
        i = k[0][0] - k[0][1] + lo
    else:
        if early:
            c.bad('fill', lp.loc(), 'filling the map can stop before the last point')
        elif ks and all(q.atoms() <= lo.atoms() | hi.atoms() for k in ks for q in k[1:]):
            c.bad('fill', lp.loc(), 'filling the map covers positions %s to %s' % (A.vname(('i', ks[0][1])), A.vname(('i', ks[0][2] - 1))))
        elif any(len(st) == 1 and abs(st[0]) > 1 for st in strides(A, lp)) and all(sum(e[0] == 'append' for e in A.tail(lp, L)) == 1 for L in lp.latch):
            c.bad('fill', lp.loc(), 'filling the map skips points')
        else:
            c.und('range of the points')
        return
    for L in lp.latch:
        R.add('passes')
        ev = A.tail(lp, L)
        app = [e for e in ev if e[0] == 'append']; get = [e for e in ev if e[0] == 'get']; put = [e for e in ev if e[0] == 'put']
        if len(app) != 1:
            c.bad('point', app[1][-1].loc() if app else lp.loc(), 'a point is %s' % ('entered %d times' % len(app) if app else 'left out'), L, lp); continue
        X, val, inst = app[0][1:4]
        if val[0] == 'i' and val[1] != i and not L.eq0(val[1] - i):
            d = (val[1] - i)
            (c.bad('point', inst.loc(), 'what is entered is not the number of the point', L, lp) if d.const() is not None or d.atoms() <= lo.atoms() | hi.atoms() or A.org(val) is not None else c.und('point entered')); continue
        if val[0] == 'at':
            (c.bad('point', inst.loc(), 'what is entered is not the number of the point', L, lp) if val[1] == ('arr', 'labels') else c.und('point entered')); continue
        keys = [(e[1], e[2], e[-1]) for e in get + put]
        if not keys:
            c.und('table of labels'); continue
        wrong = False
        for t, k, q in keys:
            g = shifted(A, k)
            if t is not None and t[1] not in T:
                c.und('table used'); wrong = True
            if g is None:
                c.und('key of a point'); wrong = True
            elif g[0] != ('arr', 'labels') or g[1] != i * c.lsz or g[2]:
                c.bad('point', q.loc(), 'the list a point is entered into is not that of its label', L, lp); wrong = True
        if wrong:
            continue
        found = [e[3] for e in get if e[3] is not None]; made = [e[3] for e in put]
        if found and any(q[1] != found[0][1] for q in made if q[0] == 'p'):
            c.bad('point', put[0][-1].loc(), 'the list of a label is replaced when another point of the label is entered', L, lp)
        elif not found and not put:
            c.bad('point', inst.loc(), 'the list made for a label is not entered in the map', L, lp)
        elif X[1] not in [q[1] for q in found + made if q[0] == 'p']:
            c.bad('point', inst.loc(), 'the list a point is entered into is not the one of the map', L, lp)
        if found:
            R.add('found')
        for e in ev:
            if e[0] == 'newlist' and e[1][1] == X[1] and e[2][0] == 'i' and e[2][1].const() is not None and e[2][1].const() != c.isz:
                c.bad('point', e[-1].loc(), 'the list of a label does not hold numbers of points (elements of %d bytes)' % e[2][1].const(), L, lp)
