"""Linear/polynomial normal forms over interned atoms, and a small entailment procedure
(interval bounds + Fourier-Motzkin over monomials).  This is the numeric abstract domain."""
from math import gcd
from functools import reduce

ATOMS = []          # id -> Atom
ATOMKEY = {}        # key -> id


class Atom:
    __slots__ = ('id', 'key', 'lo', 'hi', 'name', 'w')

    def __repr__(s):
        return s.name


def atom(key, name=None, lo=None, hi=None, w=64):
    i = ATOMKEY.get(key)
    if i is not None:
        return i
    a = Atom()
    a.id = len(ATOMS); a.key = key; a.lo = lo; a.hi = hi; a.w = w
    a.name = name or str(key)
    ATOMS.append(a); ATOMKEY[key] = a.id
    return a.id


_fresh = [0]


def fresh_id():
    _fresh[0] += 1
    return _fresh[0]


def fresh_atom(name, lo=None, hi=None, w=64):
    n = fresh_id()
    return atom(('fresh', n), '%s\'%d' % (name, n), lo, hi, w)


class Poly:
    __slots__ = ('t', '_h')

    def __init__(s, t):
        s.t = t; s._h = None

    @staticmethod
    def c(v):
        return Poly({(): v} if v else {})

    @staticmethod
    def a(i):
        return Poly({(i,): 1})

    def __hash__(s):
        if s._h is None:
            s._h = hash(frozenset(s.t.items()))
        return s._h

    def __eq__(s, o):
        return isinstance(o, Poly) and s.t == o.t

    def __add__(s, o):
        if isinstance(o, int):
            o = Poly.c(o)
        t = dict(s.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    def __neg__(s):
        return Poly({m: -c for m, c in s.t.items()})

    def __sub__(s, o):
        if isinstance(o, int):
            o = Poly.c(o)
        return s + (-o)

    def __rsub__(s, o):
        return -s + o

    def __radd__(s, o):
        return s + o

    def __rmul__(s, o):
        return s * o

    def __mul__(s, o):
        if isinstance(o, int):
            return Poly({m: c * o for m, c in s.t.items()}) if o else Poly({})
        t = {}
        for m1, c1 in s.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2))
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return Poly(t)

    def const(s):
        if not s.t:
            return 0
        if len(s.t) == 1 and () in s.t:
            return s.t[()]
        return None

    def atoms(s):
        r = set()
        for m in s.t:
            r.update(m)
        return r

    def single(s):
        """atom id if the poly is exactly one atom"""
        if len(s.t) == 1:
            (m, c), = s.t.items()
            if c == 1 and len(m) == 1:
                return m[0]
        return None

    def subst(s, mp):
        if not (s.atoms() & mp.keys()):
            return s
        r = Poly({})
        for m, c in s.t.items():
            x = Poly.c(c)
            for a in m:
                x = x * (mp[a] if a in mp else Poly.a(a))
            r = r + x
        return r

    def __repr__(s):
        if not s.t:
            return '0'
        out = []
        for m, c in sorted(s.t.items(), key=lambda x: (len(x[0]), x[0])):
            ms = '*'.join(ATOMS[a].name for a in m)
            if not m:
                out.append('%d' % c)
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append('-' + ms)
            else:
                out.append('%d*%s' % (c, ms))
        return ' + '.join(out).replace('+ -', '- ')


def mono_bounds(m):
    """interval of a monomial from atom ranges, (lo,hi) with None unbounded"""
    lo, hi = 1, 1
    for a in m:
        A = ATOMS[a]
        al, ah = A.lo, A.hi
        if al is None or lo is None or al < 0 or (lo is not None and lo < 0):
            # only handle simple case of a single atom
            if len(m) == 1:
                return al, ah
            if al is not None and ah is not None and lo is not None and hi is not None:
                c = [lo * al, lo * ah, hi * al, hi * ah]
                lo, hi = min(c), max(c)
                continue
            return None, None
        lo = lo * al
        hi = None if hi is None or ah is None else hi * ah
    return lo, hi


_MB = {}


def lower_diff(p, f):
    """lower(p - f)"""
    s = 0
    pt, ft = p.t, f.t
    for m, c in ft.items():
        c = pt.get(m, 0) - c
        if not c:
            continue
        if not m:
            s += c; continue
        b = _MB.get(m)
        if b is None:
            b = _MB[m] = mono_bounds(m)
        b = b[0] if c > 0 else b[1]
        if b is None:
            return None
        s += c * b
    for m, c in pt.items():
        if m in ft:
            continue
        if not m:
            s += c; continue
        b = _MB.get(m)
        if b is None:
            b = _MB[m] = mono_bounds(m)
        b = b[0] if c > 0 else b[1]
        if b is None:
            return None
        s += c * b
    return s


def lower(p):
    s = 0
    for m, c in p.t.items():
        if not m:
            s += c; continue
        lo, hi = mono_bounds(m)
        b = lo if c > 0 else hi
        if b is None:
            return None
        s += c * b
    return s


def norm_ineq(t):
    """t: dict mono->int for t>=0 ; divide by gcd with integer tightening"""
    g = 0
    for m, c in t.items():
        if m:
            g = gcd(g, abs(c))
    if g > 1:
        k = t.get((), 0)
        t = {m: c // g for m, c in t.items() if m}
        kk = k // g   # floor
        if kk:
            t[()] = kk
    return t


def fm_add(best, t):
    """keep the strongest constant per linear part; 'no' when t alone is infeasible"""
    k = t.pop((), 0)
    if not t:
        return k < 0
    f = frozenset(t.items())
    o = best.get(f)
    if o is None or k < o[0]:
        best[f] = (k, t)
    return False


def fm_infeasible(cons, limit=4000):
    """cons: list of dict mono->int each meaning >=0.  True iff rationally (with tightening) infeasible is derived."""
    best = {}
    for t in cons:
        t = norm_ineq(t)
        if fm_add(best, dict(t)):
            return True
    steps = 0
    while True:
        # variable counts
        cnt = {}
        for k, t in best.values():
            for m, c in t.items():
                p = cnt.get(m)
                if p is None:
                    p = cnt[m] = [0, 0]
                p[c < 0] += 1
        if not cnt:
            return False
        # drop constraints with one-signed vars
        os_ = {m for m, p in cnt.items() if p[0] == 0 or p[1] == 0}
        if os_:
            best = {f: kt for f, kt in best.items() if os_.isdisjoint(kt[1])}
            if not best:
                return False
            continue
        m = min(cnt, key=lambda v: cnt[v][0] * cnt[v][1])
        pos = []; neg = []; rest = {}
        for f, kt in best.items():
            c = kt[1].get(m, 0)
            if c > 0:
                pos.append(kt)
            elif c < 0:
                neg.append(kt)
            else:
                rest[f] = kt
        if len(pos) * len(neg) + len(rest) > 400:
            return False
        for pk, p in pos:
            a = p[m]
            for nk, n in neg:
                steps += 1
                if steps > limit:
                    return False
                b = -n[m]
                g = gcd(a, b)
                fa, fb = b // g, a // g
                t = {k: c * fa for k, c in p.items()} if fa != 1 else dict(p)
                for k, c in n.items():
                    v = t.get(k, 0) + c * fb
                    if v:
                        t[k] = v
                    else:
                        t.pop(k, None)
                t.pop(m, None)
                k = pk * fa + nk * fb
                if not t:
                    if k < 0:
                        return True
                    continue
                g = 0
                for c in t.values():
                    g = gcd(g, c)
                    if g == 1:
                        break
                if g > 1:
                    t = {x: c // g for x, c in t.items()}; k //= g
                f = frozenset(t.items())
                o = rest.get(f)
                if o is None or k < o[0]:
                    rest[f] = (k, t)
        best = rest
        if not best:
            return False


def entails(facts, p, depth=0):
    """facts: iterable of Poly (each >= 0); decide p >= 0 (sound, incomplete)"""
    k = p.const()
    if k is not None:
        if k >= 0:
            return True
        # still provable if facts contradictory; leave to FM
    else:
        lo = lower(p)
        if lo is not None and lo >= 0:
            return True
    if k is None:
        for f in facts:
            lo = lower_diff(p, f)
            if lo is not None and lo >= 0:
                return True
    if k is None and depth < 3 and any(len(m) > 1 for m in p.t) and all(c >= 0 for c in p.t.values()):
        if all(ATOMS[a].lo is not None and ATOMS[a].lo >= 0 or entails(facts, Poly.a(a), depth + 1) for a in p.atoms()):
            return True
    # factor a common nonnegative atom
    if k is None and depth < 3 and () not in p.t:
        common = None
        for m in p.t:
            sm = set(m)
            common = sm if common is None else common & sm
        if common:
            for a in common:
                if entails(facts, Poly.a(a), depth + 1):
                    t = {}
                    for m, c in p.t.items():
                        mm = list(m); mm.remove(a)
                        t[tuple(mm)] = c
                    if entails(facts, Poly(t), depth + 1):
                        return True
    # relevance closure
    neg = (-p) - 1
    vars_ = {m for m in neg.t if m}
    base = {a for m in vars_ for a in m}
    rel = []
    pool = list(facts)
    used = [False] * len(pool)
    ch = k is None
    if k is not None:
        rel = pool[:80]
        vars_ = {m for f in rel for m in f.t if m}
    rounds = 0
    while ch and rounds < 6:
        ch = False; rounds += 1
        for i, f in enumerate(pool):
            if used[i]:
                continue
            fv = {m for m in f.t if m}
            fa = {a for m in fv for a in m}
            if fa & base:
                used[i] = True; rel.append(f); base |= fa; vars_ |= fv; ch = True
        if len(rel) > 60:
            break
    cons = [neg.t] + [f.t for f in rel]
    if any(len(m) > 1 for m in vars_) and all(len(m) <= 1 for m in p.t):
        # cheap attempt with the linear facts only
        lin = [t for t in cons if all(len(m) <= 1 for m in t)]
        if ranges(lin):
            return True
    # products with nonneg atoms for the nonlinear monomials
    nl = {m for m in vars_ if len(m) > 1}
    if nl:
        linear = [Poly(dict(neg.t))] + [f for f in rel if all(len(m) <= 1 for m in f.t)]
        done = set()
        for rnd in range(2):
            fac = {a for m in nl for a in m}
            new = set()
            for a in list(fac)[:8]:
                if ATOMS[a].lo is not None and ATOMS[a].lo >= 0 or any(f.t.get((a,), 0) > 0 and len(f.t) == 1 for f in rel):
                    for n, f in enumerate(linear[:30]):
                        if (a, n) not in done and any(tuple(sorted(m + (a,))) in nl for m in f.t if m):
                            done.add((a, n))
                            q = f * Poly.a(a)
                            cons.append(q.t); new |= {m for m in q.t if len(m) > 1}
                    for b in list(fac)[:8]:
                        if b >= a and tuple(sorted((a, b))) in nl and ATOMS[b].lo is not None and ATOMS[b].lo >= 0:
                            cons.append({tuple(sorted((a, b))): 1})
            if new <= nl:
                break
            nl |= new
    return ranges(cons)


def ranges(cons):
    """infeasible together with the atom ranges?"""
    cons = list(cons)
    mons = set()
    for t in cons:
        mons.update(m for m in t if m)
    for m in mons:
        lo, hi = mono_bounds(m)
        if lo is not None:
            d = {m: 1}
            if lo:
                d[()] = -lo
            cons.append(d)
        if hi is not None:
            cons.append({m: -1, (): hi})
    return fm_infeasible(cons)
