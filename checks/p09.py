"""Value terms of the distance table: for every data type, the accumulation loop is recognised from its loop record
(start value, what one pass adds, range of columns) and what one pass adds is put in normal form over the reals; it
must be the squared difference of the two rows' coordinates in that column, read with the size, signedness and
kind of the data type, and not computed through integer arithmetic that can wrap; the value stored must be the
square root of the accumulated sum."""
import re, os
from distdom import *
from p08 import pair_of, nonneg_poly
import front

KIND = {'H_DOUBLE': ('f', 8), 'H_FLOAT': ('f', 4), 'H_INT': ('i', 4), 'H_LONG': ('i', 8), 'H_SHORT': ('i', 2), 'H_CHAR': ('i', 1)}


def htypes():
    t = open(os.path.join(front.REPO, 'modules/utils/include/hdbscan/utils.h')).read()
    m = re.search(r'enum\s+HTYPES\s*\{(.*?)\}', t, re.S)
    if not m:
        raise AnalysisBroken('enumeration of the data types not found')
    out = {}; n = 0
    for it in re.sub(r'/\*.*?\*/|//[^\n]*', '', m.group(1), flags=re.S).split(','):
        it = it.strip()
        if not it:
            continue
        if '=' in it:
            a, b = it.split('='); n = int(b.strip(), 0); it = a.strip()
        out[it] = n; n += 1
    return out


KNOWN = re.compile(r'(fma|fabs)[fl]?$|llvm\.(fma|fmuladd|fabs)\.')


class FormAI(DistAI):
    def __init__(s, prog):
        DistAI.__init__(s, prog); s.narrowed = {}

    def cast(s, st, i, v):
        r = DistAI.cast(s, st, i, v)
        if i.ty == 'float' and s.elsize == 8 and r[0] == 'f' and isinstance(r[1], tuple):
            if i.op == 'fptrunc' and r[1][0] == 'fptrunc' or i.op in ('sitofp', 'uitofp') and r[1][0] == 'i2f' and not exact24(st, r[1][1]):
                s.narrowed[r[1]] = i
        return r


def exact24(st, p):
    return st.ge(p + 2 ** 24) and st.ge(Poly.c(2 ** 24) - p)


def leafer(A, i, j, kvar, cols, esz, notes):
    """dataset element -> ('x', which row) ; anything else stays itself"""
    def leaf(t):
        if isinstance(t, tuple) and t[0] == 'int':
            k = ATOMS[t[1]].key
            if k[0] == 'ld' and k[1] == A.dataset:
                off = k[2][1] if isinstance(k[2], tuple) else k[2]
                return data(k, ('i', ATOMS[t[1]].w // 8, ATOMS[t[1]].lo is not None and ATOMS[t[1]].lo < 0))
            return t
        if isinstance(t, tuple) and t[0] == 'ld' and t[1] == A.dataset:
            return data(t, ('f', None, True))
        return t

    def data(k, kind):
        off = [q for q in flat(k) if isinstance(q, Poly)]
        if not off:
            notes.append('element offset not followed'); return ('?', k)
        off = off[0]
        w = A.wrapped(off)
        if w is not None:
            notes.append(('wrap', w)); return ('?', k)
        for nm, r in (('i', i), ('j', j)):
            if off == (r * cols + kvar) * esz:
                if kind[0] == 'i' and not kind[2]:
                    notes.append(('unsigned',))
                notes.append(('kind', kind))
                return ('x', nm)
        notes.append(('elem', off))
        return ('x?', repr(off))
    return leaf


def flat(t):
    if isinstance(t, tuple):
        for x in t:
            yield from flat(x)
    else:
        yield t


def strip(t):
    while isinstance(t, tuple) and t[0] in ('fptrunc', 'fpext'):
        t = t[1]
    return t


def opaque(t):
    """function terms the real-number normal form does not know"""
    return any(isinstance(x, tuple) and x and (x[0] in ('fdiv', 'frem', 'f2i') or x[0] == 'call' and not KNOWN.match(x[1])) for x in subterms(t))


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def judge(R, prog, dname, dval):
    fn = prog.get('distance_compute')
    A = FormAI(prog); A.skip = {'distance_get_core_distances'}
    st, args = A.setup(fn)
    N, M = args[2][1], args[3][1]
    st.add_ge(N - 1)
    A.put(st, 'datatype', ('i', Poly.c(dval)), 'i32')
    outs = A.run(fn, st, args)
    bases = {x.res(d)[1] for x, v in outs for d in [A.cell(x, 'distances')] if d is not None and x.nullness(d) == 'nonnull'}
    stores = [q for q in A.stores if q[2] in bases]
    if not stores:
        raise AnalysisBroken('distance_compute: no store into the table')
    kind = KIND[dname]
    X = Poly.a(atom(('pair', 'x'), 'x', 0, None)); Y = Poly.a(atom(('pair', 'y'), 'y', 0, None))

    def bad(rule, where, msg, path=None):
        R.violation(rule, where, '%s data: %s' % (dname, msg), key='%s|%s|%s' % (rule, dname, msg[:50]), path=path)
    for x, inst, b, off, val, size in stores:
        R.add('formula_obligations')
        path = ['%s branch %s' % (t[0], t[1]) for t in x.trace]
        und = lambda m: R.undecided.append('%s: %s' % (dname, m))
        if val[0] != 'f':
            und('stored value not followed'); continue
        t = strip(val[1])
        loops = {}
        for lp in A.loops:
            for i in lp.fn.blocks[lp.header].insts:
                if i.op == 'phi' and lp.H.env.get(i.id, UNDEF)[0] == 'f':
                    loops[lp.H.env[i.id][1]] = (lp, i)
            for bb, cells in lp.H.heap.items():
                for o, (v, sz, ty) in cells.items():
                    if v[0] == 'f' and isinstance(v[1], tuple) and v[1][0] == 'sym':
                        loops.setdefault(v[1], (lp, (bb, o)))
        if t in loops:
            bad('root', inst.loc(), 'the stored value is the accumulated sum itself, not its square root', path); continue
        if not (isinstance(t, tuple) and t[0] == 'call' and t[1] in ('sqrt', 'sqrtf', 'sqrtl', 'llvm.sqrt.f64', 'llvm.sqrt.f32') and len(t) == 3):
            if isinstance(t, tuple) and t[0] in ('const',) or not opaque(t) and any(q in loops for q in subterms(t)):
                bad('root', inst.loc(), 'the stored value is not the square root of the accumulated sum', path)
            else:
                und('stored value %s' % (str(t)[:80],))
            continue
        S = strip(t[2])
        if S not in loops:
            if isinstance(S, tuple) and S[0] == 'fmul' and any(q in loops for q in S[1:]) or isinstance(S, tuple) and S[0] == 'const':
                bad('root', inst.loc(), 'the value under the root is not the accumulated sum', path)
            else:
                und('value under the root')
            continue
        lp, phi = loops[S]
        # start value
        if isinstance(phi, tuple):
            c0 = lp.S0.heap.get(phi[0], {}).get(phi[1]); v0 = c0[0] if c0 else None
            nxt = lambda L: (L.heap.get(phi[0], {}).get(phi[1]) or (None,))[0]
        else:
            v0 = lp.S0.env.get(phi.id)
            nxt = lambda L: A.slot_value(L, ('phi', phi.id), True)
        if v0 is None or v0[0] != 'f':
            und('start of the sum')
        elif v0[1] != ('const', 0.0):
            if isinstance(v0[1], tuple) and v0[1][0] in ('const', 'sym'):
                bad('start', lp.loc(), 'the sum of a pair does not start from 0 (it starts from %s)' % ('what an earlier pair left' if v0[1][0] == 'sym' else v0[1][1]), path)
            else:
                und('start of the sum')
        pr = None
        idx = exact_div(off, Poly.c(size)); d2 = double(idx) if idx is not None else None
        if d2 is not None:
            pr = pair_of(A, x, N, d2, X, Y)
        hdr = x.ghost['hdr']
        early = []
        ks = A.counter(lp, [M], early)
        full = [k for k in ks if x.eq0(k[1]) and k[2] == M or x.eq0(k[1]) and x.eq0(k[2] - M)]
        if not full:
            if ks and not any(k[0].atoms() & set().union(*[h.atoms() for h in (pr or ())]) for k in ks):
                k = ks[0]
                miss = [n for n in range(1, 5) if (lambda a, b: a is not None and b is not None and (a, b) != (0, n))(evl(k[1], M, n), evl(k[2], M, n))]
                if miss:
                    bad('columns', lp.loc(), 'the sum runs over columns %s..%s instead of all columns' % (k[1], k[2]), path); continue
            if early:
                bad('columns', lp.loc(), 'the sum can stop before the last column', path); continue
            und('range of columns not recognised'); continue
        if pr is None:
            # fall back on the two outer counters
            und('pair of rows not recognised'); continue
        for L in lp.latch:
            R.add('formula_obligations')
            n = nxt(L)
            lpath = path + ['%s branch %s' % (q[0], q[1]) for q in L.trace[len(lp.H.trace):]]
            if n is None or n[0] != 'f':
                und('sum after one column'); continue
            ok = False; why = None
            nar = [q for q in subterms(n[1]) if q in A.narrowed]
            if nar:
                bad('precision', A.narrowed[nar[0]].loc(), 'a coordinate or the sum is rounded to single precision on the way to a double precision distance', lpath); continue
            for kv in {f[0] for f in full}:
                notes = []
                lf = leafer(A, pr[0], pr[1], kv, M, kind[1], notes)
                try:
                    p = fpoly(n[1], lf)
                except NotPoly:
                    why = None; continue
                want = {(S,): 1.0}
                d = {(('x', 'i'),): 1.0, (('x', 'j'),): -1.0}
                want = padd(want, pmul(d, d), 1)
                want = {tuple(sorted(m, key=repr)): c for m, c in want.items()}
                wr = [q for q in notes if isinstance(q, tuple) and q[0] == 'wrap']
                ints = [a for m in p for q in m if isinstance(q, tuple) and q[0] == 'int' for a in [q[1]]]
                wrp = [A.wrapped(Poly.a(a)) for a in ints if A.wrapped(Poly.a(a)) is not None]
                if wr or wrp:
                    w = wr[0][1] if wr else wrp[0]
                    why = ('wrap', w.loc(), 'the distance depends on %s arithmetic that can wrap (%s)' % (w.ty, w.op)); continue
                if p == want:
                    kinds = {q[1] for q in notes if isinstance(q, tuple) and q[0] == 'kind'}
                    wrongk = [k for k in kinds if k[0] != kind[0] or k[1] is not None and k[1] != kind[1]]
                    if wrongk:
                        why = ('type', lp.loc(), 'coordinates are read as the wrong kind of number'); continue
                    if kind[0] == 'i' and any(q == ('unsigned',) for q in notes):
                        why = ('type', lp.loc(), 'signed coordinates are read as unsigned'); continue
                    ok = True; break
                el = [q for q in notes if isinstance(q, tuple) and q[0] == 'elem']
                if el:
                    why = ('element', lp.loc(), 'one pass reads the element at byte %s, which is not column %s of either row' % (el[0][1], kv))
                elif not opaque(n[1]):
                    why = ('formula', lp.loc(), 'one pass does not add the squared difference of the two coordinates')
                else:
                    why = why or 'und'
            if not ok:
                if isinstance(why, tuple):
                    bad(why[0], why[1], why[2], lpath)
                else:
                    und('what one column adds: %s' % (str(n[1])[:100],))


def evl(p, M, n):
    r = 0
    for m, c in p.t.items():
        for a in m:
            if a != M.single():
                return None
            c *= n
        r += c
    return r


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('core', cfg)
        DistAI.elsize = 8 if cfg['DISTANCE_TYPE'] == 'double' else 4
        H = htypes()
        for d in KIND:
            if d not in H:
                raise AnalysisBroken('data type %s not found' % d)
            judge(R, prog, d, H[d])
            R.add('data_types')
    R.need('data_types', 6); R.need('formula_obligations', 6)
    R.assumptions += ['real-number reading of floating point sums (rounding is not judged)', 'the data set holds rows*cols elements of the stated type']
