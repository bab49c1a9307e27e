"""Abstract interpretation of each array-list operation from an arbitrary list: the element stored at an
arbitrary symbolic index of the result is traced backwards through every block copy / reallocation and
compared with the ideal sequence operation; sizes, outputs and refusal of out-of-range positions likewise."""
from seqdom import *


def pospar(fn, args):
    for k, a in enumerate(fn.args):
        if a['ty'] == 'i64':
            return args[k][1]
    raise AnalysisBroken('%s has no position parameter' % fn.name)


def failed(st):
    return any(isinstance(e, tuple) and e[0] == 'allocfail' for e in st.log)


def spec(A, R, fn, st, v, args, lst, path):
    (_, L, D, sz, mx, sp) = lst
    n = fn.name
    if n == 'array_list_append' or n == 'array_list_insert_at':
        pos = sz if n.endswith('append') else pospar(fn, args)
        inr, oor = (st, None) if n.endswith('append') else split(A, st, sz - pos)
        if oor is not None:
            ret_is(A, R, oor, v, lambda p: falsy(A, oor, p), 'a position past the end must be refused', fn, path, 'oor')
            expect_content(A, R, oor, lst, sz, ident(sz), fn, path, 'refused')
        if inr is not None:
            if failed(inr):
                ret_is(A, R, inr, v, lambda p: falsy(A, inr, p), 'allocation failure must be reported', fn, path, 'fail')
                expect_content(A, R, inr, lst, sz, ident(sz), fn, path, 'failed growth')
            else:
                ret_is(A, R, inr, v, lambda p: truthy(A, inr, p), 'success must be reported', fn, path, 'ok')
                expect_content(A, R, inr, lst, sz + 1, [(lambda k: [pos - k - 1], lambda k: ('old', k)), (lambda k: [k - pos, pos - k], lambda k: ('data',)), (lambda k: [k - pos - 1], lambda k: ('old', k - 1))], fn, path, 'insertion')
    elif n in ('array_list_value_at', 'array_list_replace_at', 'array_list_remove_at', 'set_value_at', 'set_remove_at'):
        pos = pospar(fn, args)
        inr, oor = split(A, st, sz - pos - 1)
        if oor is not None:
            ret_is(A, R, oor, v, lambda p: falsy(A, oor, p), 'an out-of-range position must be refused', fn, path, 'oor')
            expect_content(A, R, oor, lst, sz, ident(sz), fn, path, 'refused')
        if inr is not None:
            ret_is(A, R, inr, v, lambda p: truthy(A, inr, p), 'success must be reported', fn, path, 'ok')
            if 'value_at' in n:
                expect_content(A, R, inr, lst, sz, ident(sz), fn, path, 'read'); expect_out(A, R, inr, lst, pos, fn, path, 'read')
            elif 'replace_at' in n:
                expect_content(A, R, inr, lst, sz, [(lambda k: [pos - k - 1], lambda k: ('old', k)), (lambda k: [k - pos, pos - k], lambda k: ('data',)), (lambda k: [k - pos - 1], lambda k: ('old', k))], fn, path, 'replacement')
            else:
                expect_content(A, R, inr, lst, sz - 1, [(lambda k: [pos - k - 1], lambda k: ('old', k)), (lambda k: [k - pos], lambda k: ('old', k + 1))], fn, path, 'removal')
                expect_out(A, R, inr, lst, pos, fn, path, 'removal')
    elif n == 'array_list_pop':
        ne, em = split(A, st, sz - 1)
        if em is not None:
            ret_is(A, R, em, v, lambda p: falsy(A, em, p), 'popping an empty list must be refused', fn, path, 'empty')
            expect_content(A, R, em, lst, sz, ident(sz), fn, path, 'refused')
        if ne is not None:
            ret_is(A, R, ne, v, lambda p: truthy(A, ne, p), 'success must be reported', fn, path, 'ok')
            expect_content(A, R, ne, lst, sz - 1, ident(sz), fn, path, 'pop'); expect_out(A, R, ne, lst, sz - 1, fn, path, 'pop')
    elif n in ('array_list_clear', 'set_clear'):
        expect_content(A, R, st, lst, ZERO, [], fn, path, 'clear')
    elif n in ('array_list_size', 'set_size'):
        ret_is(A, R, st, v, lambda p: st.eq0(p - sz), 'must return the element count', fn, path, 'size')
        expect_content(A, R, st, lst, sz, ident(sz), fn, path, 'query')
    elif n in ('array_list_empty', 'set_empty'):
        ne, em = split(A, st, sz - 1)
        if ne is not None:
            ret_is(A, R, ne, v, lambda p: ne.eq0(p), 'a list with elements is not empty', fn, path, 'ne')
        if em is not None:
            ret_is(A, R, em, v, lambda p: em.ne0(p), 'a list without elements is empty', fn, path, 'em')
        expect_content(A, R, st, lst, sz, ident(sz), fn, path, 'query')
    elif n in ('array_list_find',):
        expect_content(A, R, st, lst, sz, ident(sz), fn, path, 'query')
        r = v[1]
        f, nf = split(A, st, r)
        if f is not None:
            R.add('status_obligations')
            ok = f.ge(sz - 1 - r) and any(q[0] == 'cmp' and f.eq0(q[2] - r) and f.eq0(q[1]) for q in f.preds)
            if not ok:
                R.violation('find', fn.loc(), '%s: may return index %s of an element that was not found equal to the key' % (n, r), key='find|' + n, path=path)
        if nf is not None:
            R.add('status_obligations')
            sort = args[2][1] if len(args) > 2 and args[2][0] == 'i' else None
            exh = A.entails_pred(nf, ('NE', sz)) or A.entails_pred(nf, ('NEs', ZERO))
            srt = sort is not None and nf.eq0(sort - 1) and any(A.entails_pred(nf, ('LT', p)) and A.entails_pred(nf, ('GT', p)) for p in points(A, nf))
            if not exh and not srt:
                R.violation('find', fn.loc(), '%s: may report "not found" without having excluded every element' % n, key='nofind|' + n, path=path)
    elif n == 'array_list_remove':
        r = v[1]
        nf, f = split(A, st, -r - 1)
        if nf is not None:
            expect_content(A, R, nf, lst, sz, ident(sz), fn, path, 'not found')
            R.add('status_obligations')
            if not (A.entails_pred(nf, ('NE', sz)) or A.entails_pred(nf, ('NEs', ZERO))):
                R.violation('find', fn.loc(), '%s: may report "not found" without having excluded every element' % n, key='nofind|' + n, path=path)
        if f is not None:
            ms = [q[2] for q in f.preds if q[0] == 'cmp' and f.eq0(q[1])]
            R.add('status_obligations')
            if not ms:
                R.violation('find', fn.loc(), '%s: may remove an element that was not found equal to the key' % n, key='find|' + n, path=path)
            else:
                pos = ms[0]
                expect_content(A, R, f, lst, sz - 1, [(lambda k: [pos - k - 1], lambda k: ('old', k)), (lambda k: [k - pos], lambda k: ('old', k + 1))], fn, path, 'removal')
    elif n in ('array_list_sort', 'set_sort'):
        R.add('content_obligations')
        q = [e for e in st.log if e[0] == 'qsort']
        w = [e for e in st.log if e[0] in ('copy', 'havoc', 'lost') or e[0] == 'store' and st.res(e[1])[1] == D]
        if not q and not w:
            one = scen(A, st, [sz - 2])
            if one is not None:
                R.violation('sort', fn.loc(), '%s can return with the elements unsorted (no reordering on this path)' % n, key='sort|' + n, path=path)
        elif q:
            e = q[-1]
            d, cnt = A.content(st, lst, n)
            cv = st.res(A.load_q(st, None, ('p', L, Poly.c(A.F['compare'])), 'ptr', 8))
            if not (st.res(e[1]) == d and st.eq0(e[2] - sz) and st.eq0(e[3] - sp) and cnt is not None and st.eq0(cnt - sz)):
                R.violation('sort', fn.loc(), '%s sorts %s elements of %s bytes at %s, not the whole list' % (n, e[2], e[3], A.vname(e[1])), key='sort|' + n, path=path)
            if cv[0] != 'fn' and e[4] is not None and st.res(e[4]) != cv and e[4][0] != 'fn' and False:
                R.violation('sort', fn.loc(), '%s sorts with a comparator other than the list\'s own' % n, key='sortcmp|' + n, path=path)
    else:
        return False
    return True


def points(A, st):
    """positions mentioned by order facts"""
    (_, L, D, sz, mx, sp) = A.cur[0]
    ps = [ZERO, sz]
    for q in st.preds:
        if q[0] in ('LT', 'GT'):
            ps.append(q[1])
        elif q[0] == 'cmp':
            ps += [q[2], q[2] + 1]
    out = []
    for p in ps:
        if p not in out:
            out.append(p)
    return out[:40]


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('collections', cfg)
        done = 0
        for fn in public_list_functions(prog):
            A = SeqAI(prog)
            # NULL lists are outside the sequence semantics
            st, args, lists = A.setup(fn)
            if not lists or fn.name in ('array_list_delete', 'set_delete', 'array_list_grow') or fn.name.startswith('set_') and fn.name in ('set_insert', 'set_remove', 'set_find'):
                continue
            for l in lists:
                st.nul[l[1]] = 'nonnull'
            A.SORTED = False
            if fn.name == 'array_list_find':
                # the sorted mode is decided under the caller's promise that the list is sorted
                outs = []
                for mode in (0, 1):
                    A.SORTED = bool(mode)
                    x = st.copy()
                    c = args[2][1] - 1
                    if mode:
                        x.add_ge(c); x.add_ge(-c)
                    else:
                        x.diseq.add(c)
                    outs = A.run(fn, x, list(args))
                    for rs, v in outs:
                        path = ['%s branch %s' % (t[0], t[1]) for t in rs.trace]
                        spec(A, R, fn, rs, v, args, lists[0], path)
                    R.add('abstract_exits', len(outs))
                done += 1; R.add('operations')
                continue
            outs = A.run(fn, st, list(args))
            hit = False
            for rs, v in outs:
                path = ['%s branch %s' % (t[0], t[1]) for t in rs.trace]
                if spec(A, R, fn, rs, v, args, lists[0], path):
                    hit = True
            for f in A.findings.values():
                if f.rule == 'overlap':
                    R.violation(f.rule, f.inst.loc(), '%s: %s' % (fn.name, f.msg), path=trace_path(f))
            if hit:
                R.add('operations'); R.add('abstract_exits', len(outs)); done += 1
                R.samples.append('%s: %d abstract exits' % (fn.name, len(outs)))
        if done < 14:
            raise AnalysisBroken('only %d list operations recognised' % done)
    R.need('content_obligations', 60)
    R.assumptions += ['no 64-bit wrap of size*step', 'distinct pointer arguments do not alias', 'comparator is a pure function', 'qsort sorts']
