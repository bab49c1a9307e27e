"""Distance table: the interpreter is run on the table construction and on the table lookup from arbitrary sizes;
stores into the table, their index polynomials and value terms, and the loops around them are recorded."""
from looprec import *
from front import build, DEFAULT, CONFIGS, AnalysisBroken


class DistAI(LoopRec):
    def __init__(s, prog):
        LoopRec.__init__(s, prog)
        di = prog.ditypes.get('Distance') or prog.ditypes.get('distance')
        if not di:
            raise AnalysisBroken('record of the distance table not found')
        s.F = {f['name']: f for f in di['fields']}; s.dsize = di['size']
        s.narrow = []
        s.stores = []          # (state, inst, base, offset, value, size)
        s.skip = set()
        s.opaque_fns = set()

    def call_hook(s, st, i, name, args):
        if name in s.skip:
            st.log = st.log + (('call', name, tuple(args)),)
            return [(st, s.fresh(i.ty) if i.ty != 'void' else None)]
        if name.startswith('logger_'):
            return [(st, s.fresh(i.ty) if i.ty != 'void' else None)]
        return None

    def on_store(s, st, inst, ptr, val, size):
        p = st.res(ptr)
        r = st.reg.get(p[1]) if p[0] == 'p' else None
        if p[0] == 'p' and (r is None or r.kind != 'stack'):
            st.log = st.log + (('wr', p[1], p[2], val, size, inst),)
            if not s.quiet:
                c = st.copy(); c.ghost['hdr'] = s.headers(st)
                s.stores.append((c, inst, p[1], p[2], val, size))

    def fits(s, st, r, w):
        return st.ge(r + 2 ** (w - 1)) and st.ge(Poly.c(2 ** (w - 1) - 1) - r) or st.ge(r) and st.ge(Poly.c(2 ** w - 1) - r)

    def arith(s, fn, i, st):
        out = LoopRec.arith(s, fn, i, st)
        if i.op in ('add', 'sub', 'mul', 'shl') and i.ty in ('i8', 'i16', 'i32', 'i64'):
            for x in out:
                v = x.env.get(i.id)
                if v is not None and v[0] == 'i' and v[1].const() is None and (i.ty != 'i64' or any(s.isdata(a) for a in v[1].atoms())) and not s.fits(x, v[1], width(i.ty)):
                    if not any(ATOMS[a].key[0] == 'unk' for a in v[1].atoms()):
                        a = fresh_atom('wrapped@' + i.loc(), -2 ** (width(i.ty) - 1), 2 ** (width(i.ty) - 1) - 1, width(i.ty))
                        s.wrapat[a] = i
                        x.env[i.id] = ('i', Poly.a(a))
        return out

    def trunc_int(s, st, i, v, w):
        if w >= 8 and not s.fits(st, v[1], w):
            a = fresh_atom('truncated@' + i.loc(), -2 ** (w - 1), 2 ** (w - 1) - 1, w)
            s.wrapat[a] = i
            return ('i', Poly.a(a))
        return v

    wrapat = {}
    dataset = None

    def isdata(s, a):
        k = ATOMS[a].key
        return k[0] == 'ld' and s.dataset is not None and k[1] == s.dataset

    def wrapped(s, p):
        """an arithmetic step that may wrap and that p depends on"""
        todo = list(p.atoms()); seen = set()
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            if a in s.wrapat:
                return s.wrapat[a]
            for k in ATOMS[a].key:
                if isinstance(k, Poly):
                    todo += list(k.atoms())
        return None

    def setup(s, fn):
        st = State(); args = []
        for k, a in enumerate(fn.args):
            v = s.arg_value(st, fn, k)
            args.append(v)
            if v[0] == 'p':
                st.nul[v[1]] = 'nonnull'; st.reg[v[1]] = Region('input', None)
        s.dis = args[0][1]
        st.reg[s.dis].size = Poly.c(s.dsize); st.btype[s.dis] = 'struct.Distance'
        for k, a in enumerate(fn.args):
            if fn.dicanon[k + 1] == 'void*':
                s.dataset = args[k][1]
        return st, args

    def cell(s, st, name, ty=None):
        f = s.F[name]
        c = st.heap.get(s.dis, {}).get(Poly.c(f['off']))
        return c[0] if c else None

    def put(s, st, name, v, ty):
        f = s.F[name]
        st.heap.setdefault(s.dis, {})[Poly.c(f['off'])] = (v, f['size'], ty)


def dims(A, st):
    """arbitrary table of N rows behind the record"""
    f = A.F['rows']
    N = Poly.a(atom(('dist', 'rows', f['size']), 'rows', 0, 2 ** (8 * f['size']) - 1, 8 * f['size']))
    T = ('p', ('table',), ZERO)
    st.nul[('table',)] = 'nonnull'; st.reg[('table',)] = Region('heap', None, 'sym')
    A.put(st, 'rows', ('i', N), 'i%d' % (8 * f['size'])); A.put(st, 'distances', T, 'ptr')
    return N, T


def bijective(F2, N, x, y):
    """F2(x,y) = twice the index for x<y.  Polynomial identities showing that the index enumerates the N(N-1)/2
    pairs without gaps or repeats starting at 0: returns None when shown, otherwise the identity that fails."""
    xa, ya = x.single(), y.single()

    def f(a, b):
        return F2.subst({xa: a, ya: b})
    one = Poly.c(1)
    zero = (f(ZERO, one) == ZERO, 'the first pair is not at index 0')
    row = [zero, (f(x, y + 1) - f(x, y) == Poly.c(2), 'neighbours in a row are not adjacent'), (f(x + 1, x + 2) - f(x, N - 1) == Poly.c(2), 'rows do not follow each other')]
    col = [zero, (f(x + 1, y) - f(x, y) == Poly.c(2), 'neighbours in a column are not adjacent'), (f(ZERO, y + 1) - f(y - 1, y) == Poly.c(2), 'columns do not follow each other')]
    for q in (row, col):
        if all(c for c, _ in q):
            return None
    return [m for c, m in row if not c][0]
