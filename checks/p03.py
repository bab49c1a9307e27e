"""Abstract interpretation of the set operations from an arbitrary strictly ordered set: universally quantified
order facts (every element before p is smaller than the key, every element from p on is greater) are inferred as
loop invariants; an insertion must land at a position p for which both hold, a refusal needs an equal element,
"absent" needs both facts at one position, and removals must take exactly the element that matched."""
from seqdom import *
from p02 import points, failed


def witness(A, st):
    return [q[2] for q in st.preds if q[0] == 'cmp' and st.eq0(q[1]) and st.ge(q[2]) and st.ge(A.cur[0][3] - 1 - q[2])]


def excluded(A, st):
    if A.entails_pred(st, ('NE', A.cur[0][3])) or A.entails_pred(st, ('NEs', ZERO)):
        return True
    return any(A.entails_pred(st, ('LT', p)) and A.entails_pred(st, ('GT', p)) for p in points(A, st))


def opaque(R, st, n):
    if st.ghost.get('opaquecmp'):
        R.undecided.append('%s: comparison operands not traced' % n)
        return True
    return False


def insert(A, R, fn, st, v, lst, path):
    (_, L, D, sz, mx, sp) = lst
    n = fn.name
    d, cnt = A.content(st, lst, n)
    if cnt is None:
        R.undecided.append('%s: size not tracked' % n); return
    R.add('order_obligations')
    if st.eq0(cnt - sz):
        expect_content(A, R, st, lst, sz, ident(sz), fn, path, 'refused')
        if v is None or v[0] != 'i' or st.ne0(v[1]) and st.ge(v[1]):
            R.violation('status', fn.loc(), '%s reports success although nothing was inserted' % n, key='status|' + n, path=path)
        if not failed(st) and not witness(A, st) and not opaque(R, st, n):
            R.violation('refused', fn.loc(), '%s can refuse an element without having found an equal one' % n, key='refused|' + n, path=path)
        return
    # position written
    pos = None
    for e in st.log:
        if e[0] == 'copy' and st.res(e[2])[1] == A.key and d is not None and st.res(e[1])[1] == d[1]:
            pos = exact_div(st.res(e[1])[2], sp)
    if pos is None:
        R.undecided.append('%s: insertion position not traced' % n); return
    expect_content(A, R, st, lst, sz + 1, [(lambda k: [pos - k - 1], lambda k: ('old', k)), (lambda k: [k - pos, pos - k], lambda k: ('data',)), (lambda k: [k - pos - 1], lambda k: ('old', k - 1))], fn, path, 'insertion')
    if v is None or v[0] != 'i' or not (st.ne0(v[1]) and st.ge(v[1])):
        R.violation('status', fn.loc(), '%s does not report the insertion it made' % n, key='status2|' + n, path=path)
    if opaque(R, st, n):
        return
    if not (st.ge(pos) and st.ge(sz - pos)):
        R.violation('position', fn.loc(), '%s can insert at position %s, outside the set' % (n, pos), key='pos|' + n, path=path)
    if not A.entails_pred(st, ('LT', pos)):
        R.violation('order', fn.loc(), '%s can insert at position %s without every earlier element being smaller' % (n, pos), key='lt|' + n, path=path)
    if not A.entails_pred(st, ('GT', pos)):
        R.violation('order', fn.loc(), '%s can insert at position %s without every later element being greater (order broken or duplicate stored)' % (n, pos), key='gt|' + n, path=path)


def find(A, R, fn, st, v, lst, path):
    n = fn.name
    sz = lst[3]
    expect_content(A, R, st, lst, sz, ident(sz), fn, path, 'query')
    if v is None or v[0] != 'i' or opaque(R, st, n):
        return
    r = v[1]
    f, nf = split(A, st, r)
    R.add('order_obligations')
    if f is not None and not any(f.eq0(w - r) for w in witness(A, f)):
        R.violation('find', fn.loc(), '%s can return a position that did not compare equal' % n, key='find|' + n, path=path)
    if nf is not None and not excluded(A, nf):
        R.violation('absent', fn.loc(), '%s can report an element absent that the order facts do not exclude' % n, key='absent|' + n, path=path)


def remove(A, R, fn, st, v, lst, path):
    n = fn.name; sz = lst[3]
    d, cnt = A.content(st, lst, n)
    if cnt is None or v is None or v[0] != 'i':
        R.undecided.append('%s: result not tracked' % n); return
    if opaque(R, st, n):
        return
    R.add('order_obligations')
    if st.eq0(cnt - sz):
        expect_content(A, R, st, lst, sz, ident(sz), fn, path, 'absent')
        if not excluded(A, st):
            R.violation('absent', fn.loc(), '%s can leave the set unchanged although an equal element is not excluded' % n, key='absent|' + n, path=path)
        if st.ge(v[1] - 1):
            R.violation('status', fn.loc(), '%s reports a removal it did not make' % n, key='status|' + n, path=path)
        return
    ms = witness(A, st)
    if not ms:
        R.violation('find', fn.loc(), '%s can remove an element that did not compare equal' % n, key='find|' + n, path=path); return
    pos = ms[-1]
    expect_content(A, R, st, lst, sz - 1, [(lambda k: [pos - k - 1], lambda k: ('old', k)), (lambda k: [k - pos], lambda k: ('old', k + 1))], fn, path, 'removal')


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('collections', cfg)
        for name, f in (('set_insert', insert), ('set_find', find), ('set_remove', remove)):
            fn = prog.get(name)
            A = SeqAI(prog)
            st, args, lists = A.setup(fn)
            if len(lists) != 1:
                raise AnalysisBroken('%s does not take one set' % name)
            st.nul[lists[0][1]] = 'nonnull'
            outs = A.run(fn, st, list(args))
            R.add('operations'); R.add('abstract_exits', len(outs))
            if not outs:
                raise AnalysisBroken('no exit of ' + name)
            for rs, v in outs:
                f(A, R, fn, rs, v, lists[0], ['%s branch %s' % (t[0], t[1]) for t in rs.trace])
            R.samples.append('%s: %d abstract exits' % (name, len(outs)))
    R.need('order_obligations', 6); R.need('content_obligations', 8)
    R.assumptions += ['the comparison function is a pure total order', 'elements inserted through the set operations only', 'no 64-bit wrap of size*step']
