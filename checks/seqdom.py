"""Sequence semantics of list/set operations: element origins traced backwards through block copies, and
universally quantified order facts (everything before p is smaller than the key, everything from p on is
greater, nothing before p matches) as a loop-inductive predicate domain."""
from listdom import *


class SeqAI(ListAI):
    SORTED = True

    def setup(s, fn):
        st, args, lists = ListAI.setup(s, fn)
        s.cur = lists
        s.key = None
        for k, a in enumerate(fn.args):
            if a['ty'] == 'ptr' and not s.is_list_arg(fn, k):
                s.key = args[k][1]
        s.sortedarg = None
        return st, args, lists

    def elem_index(s, st, p):
        p = st.res(p)
        for (k, L, D, sz, mx, sp) in s.cur:
            if p[0] == 'p' and p[1] == D:
                q = exact_div(p[2], sp) if p[2].t else ZERO
                return q
        return None

    def on_indirect(s, st, inst, fv, args):
        v = s.fresh(inst.ty, 'cmp')
        ListAI.on_indirect(s, st, inst, fv, args)
        if len(args) == 2 and v[0] == 'i':
            a, b = st.res(args[0]), st.res(args[1])
            ia, ib = s.elem_index(st, a), s.elem_index(st, b)
            ka, kb = a[0] == 'p' and a[1] == s.key, b[0] == 'p' and b[1] == s.key
            if ia is not None and kb:
                st.preds.add(('cmp', v[1], ia, 1))
            elif ib is not None and ka:
                st.preds.add(('cmp', v[1], ib, -1))
            elif ia is None and ib is None or not (ka or kb):
                st.ghost['opaquecmp'] = True
        return [(st, v)]

    def entails_pred(s, st, g, used=frozenset()):
        if g in st.preds:
            return True
        k, p = g[0], g[1]
        (_, L, D, sz, mx, sp) = s.cur[0]
        if k in ('LT', 'NE') and st.ge(-p):
            return True
        if k in ('GT', 'NEs') and st.ge(p - sz):
            return True
        for q in list(st.preds):
            if q[0] == k:
                if k in ('LT', 'NE') and st.ge(q[1] - p):
                    return True
                if k in ('GT', 'NEs') and st.ge(p - q[1]):
                    return True
            if q[0] == 'cmp':
                c = q[1] * q[3]; m = q[2]
                if s.SORTED:
                    if k == 'LT' and st.ge(m + 1 - p) and st.ge(-c - 1):
                        return True
                    if k == 'GT' and st.ge(p - m) and st.ge(c - 1):
                        return True
                if q in used:
                    continue
                if k == 'NE' and (st.ge(m + 1 - p)) and st.ne0(c) and s.entails_pred(st, ('NE', m), used | {q}):
                    return True
                if k == 'NEs' and (st.ge(p - m)) and st.ne0(c) and s.entails_pred(st, ('NEs', m + 1), used | {q}):
                    return True
        if k == 'NE' and s.SORTED:
            # sorted and distinct: LT(p) (or GT from a lower bound) excludes matches
            if s.entails_pred(st, ('LT', p)):
                return True
        return False

    def loop_candidates(s, fn, S0, H, slots):
        C = []
        if not s.cur:
            return C
        for slot, (v0, vh) in slots.items():
            if v0 is None or vh[0] == 'p' and (vh[1] == s.key or s.elem_index(H, vh) is None) or vh[0] not in ('i', 'p'):
                continue
            for k in ('LT', 'GT', 'NE', 'NEs'):
                for d in (0, 1, -1):
                    def g(get, slot=slot, k=k, d=d):
                        v = get(slot)
                        if v is not None and v[0] == 'p':
                            x = s.elem_index(H, v)
                            return (k, x + d) if x is not None else None
                        return (k, v[1] + d) if v is not None and v[0] == 'i' else None
                    C.append(((k, slot, d), g))
        # same facts about loop-invariant positions need no candidates
        return C

    # ---- spec helpers
    def content(s, st, lst, fnname):
        (k, L, D, sz, mx, sp) = lst
        d = st.res(s.cell(st, L, s.F['data'])) if s.cell(st, L, s.F['data']) else None
        n = s.cell(st, L, s.F['size'])
        return d, (n[1] if n is not None and n[0] == 'i' else None)

    def elem(s, st, lst, k):
        """origin of element k of the list's current storage: ('old',idx) ('data',) or ('?',..)"""
        (_, L, D, sz, mx, sp) = lst
        d, n = s.content(st, lst, '')
        if d is None or d[0] != 'p':
            return ('?', 'no storage')
        o = s.origin(st, d[1], d[2] + k * sp, sp)
        return s.classify(st, lst, o)

    def classify(s, st, lst, o):
        (_, L, D, sz, mx, sp) = lst
        if o[0] != 'at':
            return o
        if o[1] == D:
            return ('old', o[2])
        if o[1] == s.key:
            return ('data', o[2])
        return ('other', o[1], o[2])


def scen(A, st, conds):
    """states refined by linear conditions (each >=0)"""
    x = st.copy()
    for c in conds:
        if not x.add_ge(c):
            return None
    if entails(list(x.facts), Poly.c(-1)):
        return None
    return x


def split(A, st, c):
    """split on poly c >= 0"""
    out = []
    a = scen(A, st, [c]); b = scen(A, st, [-c - 1])
    return a, b


def expect_content(A, R, st, lst, newsize, mapping, fn, path, what):
    """mapping: list of (conds(k) -> list of polys >=0, expected(k) -> ('old', idx) | ('data',))"""
    (_, L, D, sz, mx, sp) = lst
    d, n = A.content(st, lst, fn.name)
    ok = True
    R.add('content_obligations')
    if d is None or d[0] != 'p':
        n = None
    if n is None:
        R.undecided.append('%s: size not tracked' % fn.name); return False
    if not st.eq0(n - newsize):
        R.violation('size', fn.loc(), '%s (%s): size becomes %s, expected %s' % (fn.name, what, n, newsize), key='size|%s|%s' % (fn.name, what), path=path)
        return False
    for j, (conds, exp) in enumerate(mapping):
        kk = Poly.a(fresh_atom('k', 0))
        x = scen(A, st, [kk, newsize - kk - 1] + conds(kk))
        work = [(x, 0)]
        while work:
            x, depth = work.pop()
            if x is None:
                continue
            got = A.elem(x, lst, kk)
            if got[0] == '?' and len(got) > 2 and depth < 6:
                # undetermined overlap: split on its boundary conditions (element granular when possible)
                c0 = None
                for c in got[2]:
                    q = exact_div(c, sp)
                    c = q if q is not None else c
                    if not x.ge(c) and not x.ge(-c - 1):
                        c0 = c; break
                if c0 is not None:
                    work += [(y, depth + 1) for y in split(A, x, c0)]
                    continue
            ok = elem_ok(A, R, x, lst, kk, j, got, exp, fn, path, what) and ok
    return ok


def elem_ok(A, R, x, lst, kk, j, got, exp, fn, path, what):
    (_, L, D, sz, mx, sp) = lst
    ok = True
    if True:
        R.add('content_obligations')
        want = exp(kk)
        if got[0] == '?':
            R.undecided.append('%s (%s): element origin not traced (%s)' % (fn.name, what, got[1])); return True
        good = False
        if want[0] == 'data':
            good = got[0] == 'data' and x.eq0(got[1])
        else:
            good = got[0] == 'old' and x.eq0(got[1] - want[1] * sp)
        if not good:
            ok = False
            gt = {'old': lambda: 'the old bytes at offset %s' % got[1], 'data': lambda: 'the caller\'s element', 'lost': lambda: 'bytes lost in reallocation'}.get(got[0], lambda: str(got))()
            R.violation('content', fn.loc(), '%s (%s): element k of the result (scenario %d) holds %s instead of %s' % (fn.name, what, j, gt, 'the new element' if want[0] == 'data' else 'old element %s' % want[1]), key='content|%s|%s|%d' % (fn.name, what, j), path=path)
    return ok


def expect_out(A, R, st, lst, idx, fn, path, what):
    """caller's buffer must receive old element idx"""
    (_, L, D, sz, mx, sp) = lst
    R.add('content_obligations')
    o = A.classify(st, lst, A.origin(st, A.key, ZERO, sp))
    if o[0] == '?':
        R.undecided.append('%s: output not traced' % fn.name); return
    if not (o[0] == 'old' and st.eq0(o[1] - idx * sp)):
        R.violation('output', fn.loc(), '%s (%s): the caller receives %s instead of element %s' % (fn.name, what, o, idx), key='out|%s|%s' % (fn.name, what), path=path)


def ident(sz):
    return [(lambda k: [], lambda k: ('old', k))]


def ret_is(A, R, st, v, pred, msg, fn, path, key):
    R.add('status_obligations')
    if v is None or v[0] != 'i' or not pred(v[1]):
        R.violation('status', fn.loc(), '%s: %s (returns %s)' % (fn.name, msg, A.vname(v) if v else 'nothing'), key='status|%s|%s' % (fn.name, key), path=path)


def truthy(A, st, p):
    return st.ne0(p) and st.ge(p)


def falsy(A, st, p):
    return st.ge(-p)
