"""Abstract interpretation of every public array-list and set operation from an arbitrary valid list
(0 <= size <= capacity, storage of capacity*step bytes): each memory access and block copy is shown to stay
inside the storage it addresses, and every exit (allocation failure included) re-establishes the
invariant capacity <= allocated storage, size <= capacity with live, non-null storage."""
from listdom import *


def check_list_exit(A, R, fn, st, L, D, sz, mx, sp, where, path):
    r = st.reg.get(L)
    if r is not None and r.freed:
        return
    d = A.cell(st, L, A.F['data']); s_ = A.cell(st, L, A.F['size']); m = A.cell(st, L, A.F['max_size']); p = A.cell(st, L, A.F['step'])
    R.add('exit_invariants')
    if d is None or s_ is None or m is None or p is None:
        R.undecided.append('%s: list header rewritten in a way the analysis does not track' % fn.name)
        return
    d = st.res(d)
    if p[0] != 'i' or not st.eq0(p[1] - sp):
        R.violation('step-changed', where, '%s can change the element size of a list' % fn.name, path=path)
    if is_null(d) or st.nullness(d) == 'null':
        R.violation('storage-lost', where, '%s can return leaving the list without storage while its capacity is still %s' % (fn.name, A.vname(m)), key='storage-lost|' + fn.name, path=path)
        return
    dr = st.reg.get(d[1])
    if dr is not None and dr.freed:
        R.violation('storage-stale', where, '%s can return with the list pointing at released storage' % fn.name, key='storage-stale|' + fn.name, path=path)
        return
    if s_[0] == 'i' and m[0] == 'i':
        if not st.ge(s_[1]):
            R.violation('negative-size', where, '%s can leave size = %s, which may be below zero' % (fn.name, s_[1]), key='neg|' + fn.name, path=path)
        if not st.ge(m[1] - s_[1]):
            R.violation('size-exceeds-capacity', where, '%s can leave size %s above capacity %s' % (fn.name, s_[1], m[1]), key='cap|' + fn.name, path=path)
        if dr is not None and dr.size is not None:
            if d[2].const() != 0 or not st.ge(dr.size - m[1] * p[1]):
                R.violation('capacity-exceeds-storage', where, '%s can leave a recorded capacity of %s elements on storage of %s bytes' % (fn.name, m[1], dr.size), key='alloc|' + fn.name, path=path)
        if not st.ge(m[1] - 1):
            R.violation('zero-capacity', where, '%s can leave capacity %s, possibly zero' % (fn.name, m[1]), key='zero|' + fn.name, path=path)


def check(R, tier, cfgs=None):
    cfgs = [DEFAULT] if tier == 'quick' else CONFIGS
    for cfg in cfgs:
        prog = build('collections', cfg)
        fns = public_list_functions(prog)
        for fn in fns:
            A = ListAI(prog)
            st, args, lists = A.setup(fn)
            outs = A.run(fn, st, args)
            R.add('functions'); R.add('abstract_exits', len(outs)); R.add('abstract_steps', A.steps)
            if outs == [] and not fn.noreturn:
                raise AnalysisBroken('no exit of %s reached' % fn.name)
            for f in A.findings.values():
                R.violation(f.rule, f.inst.loc(), '%s: %s' % (fn.name, f.msg), key='%s|%s|%s' % (f.rule, fn.name, f.inst.loc()), path=trace_path(f))
            for k, v in A.counts.items():
                R.add(k, v)
            for rs, v in outs:
                path = ['%s branch %s' % (t[0], t[1]) for t in rs.trace]
                for (k, L, D, sz, mx, sp) in lists:
                    check_list_exit(A, R, fn, rs, L, D, sz, mx, sp, fn.loc(), path)
                # a list produced by the function
                if fn.dicanon[0] == 'struct ArrayList*' and v is not None and v[0] == 'p' and not is_null(rs.res(v)):
                    v = rs.res(v)
                    if v[1] in [l[1] for l in lists]:
                        continue
                    p = A.cell(rs, v[1], A.F['step'])
                    if p is None:
                        R.violation('uninitialised-header', fn.loc(), '%s returns a list whose element size was never set' % fn.name, path=path); continue
                    for nm in ('data', 'size', 'max_size'):
                        if A.cell(rs, v[1], A.F[nm]) is None:
                            R.violation('uninitialised-header', fn.loc(), '%s returns a list whose %s was never set' % (fn.name, nm), path=path)
                    if rs.ge(p[1] - 1) is False:
                        # element sizes are positive by contract
                        rs.add_ge(p[1] - 1)
                    check_list_exit(A, R, fn, rs, v[1], None, None, None, p[1], fn.loc(), path)
            R.samples.append('%s: %d abstract exits, %d bounds obligations' % (fn.name, len(outs), A.counts.get('bounds_obligations', 0)))
    R.need('functions', 20 * len(cfgs)); R.need('bounds_obligations', 60 * len(cfgs))
    R.assumptions += ['size_t products/sums of list sizes do not wrap at 64 bits', 'caller passes one element of `step` bytes as the element buffer', 'distinct pointer arguments do not alias']
