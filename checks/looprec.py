"""Loop records on top of the abstract interpreter: header state, back-edge states and exits of every loop in the
final (invariant-assuming) pass, counted-loop recognition, and real-number normal forms of floating point terms."""
import re
from absint import *
from poly import ATOMS


class Loop:
    def __init__(s, fn, header, S0, H, latch, exits, rets):
        s.fn = fn; s.header = header; s.S0 = S0; s.H = H; s.latch = latch; s.exits = exits; s.rets = rets

    def loc(s):
        return s.fn.blocks[s.header].insts[-1].loc()


class LoopRec(Interp):
    """mixin: self.loops collects the records of loops analysed while reporting is on"""
    ALWAYS = False

    def __init__(s, prog):
        Interp.__init__(s, prog)
        s.loops = []; s._H = {}

    def make_header(s, fn, phis, S0, *a):
        r = super().make_header(fn, phis, S0, *a)
        s._H[(fn.name, phis[0].bb if phis else None)] = r[0].copy()
        s._H[(fn.name, 'last')] = r[0].copy()
        return r

    def loop_one(s, fn, header, body, phis, S0):
        s._S0hdr = header
        return super().loop_one(fn, header, body, phis, S0)

    def on_loop(s, fn, header, S0, R):
        if s.quiet:
            return
        phis = [i for i in fn.blocks[header].insts if i.op == 'phi']
        H = s._H.get((fn.name, phis[0].bb if phis else None)) or s._H.get((fn.name, 'last'))
        for pv, L in R['latch']:
            s.do_phis_keep(fn, header, pv, L)
        s.loops.append(Loop(fn, header, S0, H, [L for _, L in R['latch']], [x.copy() for _, _, x in R['exits']], [x.copy() for x, _ in R['ret']]))

    def headers(s, st):
        """header values of the integer loop variables of the loops entered on the way to st (outermost first)"""
        out = []
        for t in st.trace:
            if t[0] == 'loop':
                f = s.prog.fns[t[3]]
                phis = [i for i in f.blocks[t[2]].insts if i.op == 'phi']
                H = s._H.get((f.name, t[2])) if phis else None
                for i in phis:
                    v = H.env.get(i.id) if H is not None else None
                    if v is not None and v[0] == 'i' and v[1].single() is not None and v[1] not in out:
                        out.append(v[1])
        return out

    def int_slots(s, lp):
        """integer loop variables: [(slot, init, header value)]"""
        out = []
        for i in lp.fn.blocks[lp.header].insts:
            if i.op != 'phi':
                break
            v0, v = lp.S0.env.get(i.id), lp.H.env.get(i.id)
            if v0 and v and v0[0] == 'i' and v[0] == 'i':
                out.append((('phi', i.id), v0[1], v[1]))
        for b, cells in lp.H.heap.items():          # counters kept in memory because their address is taken
            if isinstance(b, tuple) and b[0] == 'alloca':
                z = lp.S0.heap.get(b, {})
                for o, (v, sz, ty) in cells.items():
                    i = z.get(o)
                    if i is not None and i[0] != v and i[0][0] == 'i' and v[0] == 'i' and v[1].single() is not None:
                        out.append((('cell', b, o), i[0][1], v[1]))
        return out

    def counter(s, lp, want=None, early=None):
        """(value, lo, hi) when the loop runs its counter over every integer of [lo, hi) exactly once and leaves only
        when the range is exhausted; hi is found from the exits (candidates: want)"""
        res = []
        for slot, v0, v in s.int_slots(lp):
            steps = set()
            for L in lp.latch:
                n = s.slot_value(L, slot, True)
                d = n[1] - v if n is not None and n[0] == 'i' else None
                steps.add(d.const() if d is not None else None)
            if steps == {1}:
                cand = list(want or [])
                a = v.single()
                for L in lp.latch[:1]:
                    cand += [q for q in (f + v + 1 for f in L.facts if f.t.get((a,), 0) == -1) if q not in cand and a not in q.atoms()]
                for hi in cand:
                    bad = [x for x in lp.exits + lp.rets if not x.ge(v - hi)]
                    if bad and early is not None and len(bad) < len(lp.exits + lp.rets) and all(L.ge(hi - 1 - v) for L in lp.latch):
                        early += bad
                    if not bad and all(L.ge(hi - 1 - v) for L in lp.latch):
                        res.append((v, v0, hi))
            elif steps == {-1}:
                for lo in want or []:
                    # lo is the value at which it stops; the body sees v, or v-1 (idiom `for(i = n; i-- > lo;)`)
                    if all(x.ge(lo - v) for x in lp.exits + lp.rets) and all(L.ge(v - 1 - lo) for L in lp.latch):
                        res.append((v, lo + 1, v0 + 1)); res.append((v - 1, lo, v0))
        return res


# ---------------------------------------------------------------- float terms over the reals
FMA = re.compile(r'(fma[fl]?|llvm\.fma\..*|llvm\.fmuladd\..*)$')


class NotPoly(Exception):
    pass


def fpoly(t, leaf, depth=0):
    """float term -> {monomial(tuple of sorted leaf reprs): coefficient} over the reals; NotPoly when not polynomial"""
    if depth > 60:
        raise NotPoly('deep')
    if isinstance(t, tuple):
        o = t[0]
        if o == 'const' and isinstance(t[1], float):
            return {(): t[1]} if t[1] else {}
        if o in ('fadd', 'fsub'):
            a, b = fpoly(t[1], leaf, depth + 1), fpoly(t[2], leaf, depth + 1)
            return padd(a, b, 1 if o == 'fadd' else -1)
        if o == 'fmul':
            return pmul(fpoly(t[1], leaf, depth + 1), fpoly(t[2], leaf, depth + 1))
        if o == 'fneg':
            return padd({}, fpoly(t[1], leaf, depth + 1), -1)
        if o in ('fptrunc', 'fpext'):
            return fpoly(t[1], leaf, depth + 1)
        if o == 'i2f':
            r = {}
            for m, c in t[1].t.items():
                k = tuple(sorted((leaf(('int', a)) for a in m), key=repr))
                r[k] = r.get(k, 0) + c
            return r
        if o == 'call' and len(t) == 5 and FMA.match(t[1]):
            return padd(pmul(fpoly(t[2], leaf, depth + 1), fpoly(t[3], leaf, depth + 1)), fpoly(t[4], leaf, depth + 1), 1)
        if o == 'call' and len(t) == 4 and re.match(r'(pow[fl]?|llvm\.pow(i)?\..*)$', t[1]) and (t[3] == ('const', 2.0) or isinstance(t[3], Poly) and t[3].const() == 2):
            a = fpoly(t[2], leaf, depth + 1)
            return pmul(a, a)
        if o == 'call' and len(t) == 3 and re.match(r'(fabs[fl]?|llvm\.fabs\..*)$', t[1]):
            return {(('abs', tuple(sorted(fpoly(t[2], leaf, depth + 1).items(), key=repr))),): 1.0}
        if o == 'fma' and len(t) == 4:
            return padd(pmul(fpoly(t[1], leaf, depth + 1), fpoly(t[2], leaf, depth + 1)), fpoly(t[3], leaf, depth + 1), 1)
        if o == 'pow' and len(t) == 3 and t[2] == ('const', 2.0):
            a = fpoly(t[1], leaf, depth + 1)
            return pmul(a, a)
        if o in ('fabs',) and len(t) == 2:
            # |x| : keep as a leaf whose square is x squared
            return {(('abs', tuple(sorted(fpoly(t[1], leaf, depth + 1).items(), key=repr))),): 1.0}
    return {(leaf(t),): 1.0}


def padd(a, b, k):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = sorted(m1 + m2, key=repr)
            # |x|*|x| = x*x
            q = [x for x in m if isinstance(x, tuple) and x and x[0] == 'abs']
            pairs = [x for x in set(q) if q.count(x) >= 2]
            if pairs:
                rest = list(m); extra = {(): 1.0}
                for x in pairs:
                    while rest.count(x) >= 2:
                        rest.remove(x); rest.remove(x)
                        p = dict(x[1]); extra = pmul(extra, pmul(p, p))
                for m3, c3 in extra.items():
                    mm = tuple(sorted(rest + list(m3), key=repr))
                    r[mm] = r.get(mm, 0) + c1 * c2 * c3
                continue
            m = tuple(m)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def feval(t, leaf, depth=0):
    """value of a float term over the rationals, leaf(t) giving the values of inputs (None: unknown); NotPoly when it cannot
    be computed or divides by zero"""
    from fractions import Fraction as F
    if depth > 80:
        raise NotPoly('deep')
    if isinstance(t, tuple):
        v = leaf(t)
        if v is not None:
            return v
        o = t[0]
        if o == 'const' and isinstance(t[1], float) and t[1] == t[1] and abs(t[1]) != float('inf'):
            return F(t[1])
        if o in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = feval(t[1], leaf, depth + 1), feval(t[2], leaf, depth + 1)
            if o == 'fdiv':
                if b == 0:
                    raise NotPoly('zero')
                return a / b
            return a + b if o == 'fadd' else a - b if o == 'fsub' else a * b
        if o == 'fneg':
            return -feval(t[1], leaf, depth + 1)
        if o in ('fptrunc', 'fpext'):
            return feval(t[1], leaf, depth + 1)
        if o in ('fabs',) or o == 'call' and len(t) == 3 and re.match(r'(fabs[fl]?|llvm\.fabs\..*)$', t[1]):
            return abs(feval(t[-1], leaf, depth + 1))
        if o == 'call' and len(t) == 5 and FMA.match(t[1]):
            return feval(t[2], leaf, depth + 1) * feval(t[3], leaf, depth + 1) + feval(t[4], leaf, depth + 1)
        if o == 'call' and len(t) == 4 and re.match(r'(pow[fl]?|llvm\.pow(i)?\..*)$', t[1]):
            e = t[3].const() if isinstance(t[3], Poly) else t[3][1] if isinstance(t[3], tuple) and t[3][0] == 'const' else None
            if e is not None and float(e) == int(e) and abs(e) < 20:
                return feval(t[2], leaf, depth + 1) ** int(e)
        if o == 'i2f':
            r = F(0)
            for m, c in t[1].t.items():
                x = F(c)
                for a in m:
                    v = leaf(('int', a))
                    if v is None:
                        raise NotPoly('input')
                    x *= v
                r += x
            return r
    raise NotPoly(repr(t)[:60])


# ---------------------------------------------------------------- exact halves of even products
def even(p):
    """is the integer polynomial even for every integer assignment? (mod 2 only parities matter)"""
    at = sorted(p.atoms())
    if len(at) > 8:
        return False
    for k in range(2 ** len(at)):
        v = {a: (k >> n) & 1 for n, a in enumerate(at)}
        x = 0
        for m, c in p.t.items():
            y = c
            for a in m:
                y *= v[a]
            x += y
        if x % 2:
            return False
    return True


def double(p):
    """2*p with exact halves div(q,2), q always even, replaced by q; None when some half is not provably exact"""
    r = ZERO
    for m, c in p.t.items():
        ds = [a for a in m if ATOMS[a].key[0] == 'div' and ATOMS[a].key[2].const() == 2]
        if not ds:
            r = r + Poly({m: 2 * c}); continue
        if len(ds) > 1 or not even(ATOMS[ds[0]].key[1]):
            return None
        l = list(m); l.remove(ds[0])
        r = r + ATOMS[ds[0]].key[1] * Poly({tuple(l): c})
    for a in r.atoms():
        if ATOMS[a].key[0] == 'div':
            return None
    return r
