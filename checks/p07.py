"""Hashing: every hash function is interpreted on an arbitrary key object of exactly its key type's size and an arbitrary
positive number of buckets (accesses inside the key, nothing written, result below the number of buckets); a dependence
analysis shows that the result is determined by the key's value (not its address, not changeable state, not the sign of a
zero); the table constructor is constant-propagated for each key type and the hash function it picks is judged for that
type; the bucket-count search is interpreted with the request as an interval split at each comparison."""
import struct
from absint import *
from front import build, DEFAULT, CONFIGS, AnalysisBroken

SIZES = {'H_INT': 4, 'H_DOUBLE': 8, 'H_FLOAT': 4, 'H_LONG': 8, 'H_SHORT': 2, 'H_CHAR': 1, 'H_STRING': 8, 'H_PTR': 8}
NAMED = {'int': 'H_INT', 'double': 'H_DOUBLE', 'float': 'H_FLOAT', 'long': 'H_LONG', 'short': 'H_SHORT', 'char': 'H_CHAR'}
STRNAMED = ('str_hash',)


class HashAI(Interp):
    def __init__(s, prog):
        Interp.__init__(s, prog); s.stores = []; s.unknown = []

    def on_null_deref(s, st, inst, ptr, sure):
        if sure:
            s.report('null', inst, 'reads through a NULL pointer', st)

    def on_access(s, st, inst, ptr, n, kind):
        p = st.res(ptr)
        if p[0] != 'p':
            return
        r = st.reg.get(p[1])
        if r is None or r.size is None or r.kind != 'input':
            return
        n = n if isinstance(n, Poly) else Poly.c(n)
        s.count('bounds')
        if st.ge(p[2]) and st.ge(r.size - p[2] - n):
            return
        if st.ge(-p[2] - 1) or st.ge(p[2] + n - r.size - 1):
            s.report('bounds', inst, 'accesses bytes %s to %s of a key of %s bytes' % (p[2], p[2] + n - 1, r.size), st)
        else:
            s.unknown.append('access at %s' % inst.loc())

    def on_store(s, st, inst, ptr, val, size):
        p = st.res(ptr); r = st.reg.get(p[1]) if p[0] == 'p' else None
        if r is None or r.kind not in ('stack',):
            s.stores.append(inst)

    def on_memcpy(s, st, i, d, sr, n, kind):
        s.on_store(st, i, d, None, None)

    def arith(s, fn, i, st):
        out = Interp.arith(s, fn, i, st)
        if i.op in ('urem', 'srem', 'and') and i.ty != 'i1':
            for x in out:
                b = s.op(x, i.ops[1]); r = x.env.get(i.id)
                if r is None or r[0] != 'i':
                    r = ('i', Poly.a(fresh_atom(i.op))); x.env[i.id] = r
                for c in ([s.op(x, i.ops[0])] if i.op == 'and' else []) + [b]:
                    if c[0] == 'i' and s.nonneg(x, c[1]) and r[1].const() is None:
                        if i.op == 'and':
                            x.add_ge(r[1]); x.add_ge(c[1] - r[1])
                        else:
                            x.add_ge(c[1] - 1 - r[1]); x.add_ge(r[1] if i.op == 'urem' else r[1] + c[1] - 1)
        return out

    def on_indirect(s, st, inst, fv, args):
        s.unknown.append('call through a pointer at %s' % inst.loc())
        return None


def irty(kt):
    return {'H_DOUBLE': 'double', 'H_FLOAT': 'float', 'H_PTR': 'ptr', 'H_STRING': 'ptr'}.get(kt) or 'i%d' % (8 * SIZES[kt])


def key_state(kt, direct_string=False):
    st = State()
    b = ('key',); st.nul[b] = 'nonnull'
    if direct_string:
        st.reg[b] = Region('input', None)
        return st, ('p', b, ZERO)
    st.reg[b] = Region('input', Poly.c(SIZES[kt]))
    t = irty(kt)
    if t == 'ptr':
        q = ('keyed',); st.nul[q] = 'nonnull'; st.reg[q] = Region('input', None)
        st.heap.setdefault(b, {})[ZERO] = (('p', q, ZERO), 8, 'ptr')
    return st, ('p', b, ZERO)


def refute(prog, fn, kt, content=b'ab\xe9\x01zz'):
    """constant propagation with sample keys and bucket counts: a definite result outside the table"""
    t = irty(kt); n = SIZES[kt]
    if t.startswith('i'):
        keys = [(k % 2 ** (8 * n)).to_bytes(n, 'little') for k in (0, 1, 2, 5, 36, 37, 100, -1, -2, -38, 2 ** (8 * n - 1) - 1, -2 ** (8 * n - 1))]
    elif t in ('double', 'float'):
        keys = [struct.pack('<' + {'double': 'd', 'float': 'f'}[t], k) for k in (0.0, 1.0, 2.5, 37.0, -1.0, 1e30, -3e20)]
    else:
        keys = [k.to_bytes(8, 'little') for k in (0x7ffe00001000, 0x55d0c0ffee00)]
    for k in keys:
        for m in (1, 2, 3, 37, 43):
            S = Split(prog); S.keymem = k; S.strings = content + b'\0'
            for lo, hi, c in S.run(fn, [('K', 0), m], 0, 0):
                if isinstance(c, int) and not 0 <= c % 2 ** 64 < m:
                    return 'a key of bytes %s with %d buckets gives %d' % (k.hex(), m, c % 2 ** 64)
    return None


def refute_string(prog, fn):
    for text in (b'', b'a', b'junior', b'\xff\xfe', b'a much longer key with many letters'):
        for m in (1, 2, 37, 43):
            S = Split(prog); S.strings = text + b'\0'
            for lo, hi, c in S.run(fn, [('S', 0), m], 0, 0):
                if isinstance(c, int) and not 0 <= c % 2 ** 64 < m:
                    return 'the string %r with %d buckets gives %d' % (text, m, c % 2 ** 64)
    return None


class Deps:
    """what a function's result is computed from"""

    def __init__(s, prog, kt):
        s.prog = prog; s.float = kt in ('H_DOUBLE', 'H_FLOAT'); s.bad = []; s.unk = []; s.count = 0

    def run(s, f, keyargs, depth=0):
        """keyargs: {arg: 'addr' | 'content'}  (the key's address / a pointer stored in the key)"""
        if depth > 4:
            s.unk.append(f.name); return
        taint = {}

        def t(o):
            k = o.get('k')
            if k == 'a':
                return {keyargs[o['i']]} if o['i'] in keyargs else {'plain'}
            if k == 'i':
                return taint.get(o['i'], set())
            if k == 'g':
                g = s.prog.globals.get(o['n'], {})
                return {'const'} if g.get('const') else {'state:' + o['n']}
            if k == 'gep':
                return t(o['base'])
            if k == 'f':
                return {'zero'} if float(o['v'] if not isinstance(o['v'], str) else 0 if o['v'] in ('0', '0.0') else 1) == 0 else {'const'}
            return {'const'}
        guards = any(i.op == 'fcmp' for i in f.all_insts())
        res = set()
        for _ in range(8):
            before = {k: set(v) for k, v in taint.items()}
            for i in f.all_insts():
                s.count += 1
                if i.op == 'load':
                    a = t(i.ops[0])
                    out = set()
                    if 'addr' in a:
                        if s.float and i.ty not in ('double', 'float'):
                            s.note('bits', i, 'hashes the representation of the key, which differs for 0 and -0')
                        if s.string and i.ty not in ('ptr', 'i64'):
                            s.note('address', i, 'depends on where the string is stored and not on the string')
                        out.add('raw' if s.float and i.ty in ('double', 'float') else 'content' if i.ty == 'ptr' else 'plain')
                    if 'content' in a:
                        out |= {'plain', 'byte'}
                    for x in a:
                        if x.startswith('state:'):
                            s.note('state', i, 'depends on the variable %s' % x[6:])
                    taint[i.id] = out
                elif i.op == 'phi':
                    r = set()
                    for q in i.ops:
                        r |= t(q['v'])
                    taint[i.id] = r | ({'guarded'} if 'raw' in r else set())
                elif i.op == 'select':
                    r = t(i.ops[1]) | t(i.ops[2])
                    taint[i.id] = r | ({'guarded'} if 'raw' in r else set())
                elif i.op in ('fadd', 'fsub'):
                    a, b = t(i.ops[0]), t(i.ops[1])
                    taint[i.id] = ((a | b) - {'raw', 'zero'}) | {'normal'} if ('zero' in b and i.op == 'fadd' or 'zero' in a and i.op == 'fadd') else a | b
                elif i.op == 'bitcast':
                    a = t(i.ops[0])
                    if 'raw' in a and i.ty not in ('double', 'float'):
                        if guards or 'guarded' in a:
                            s.unk.append('representation of a guarded key at %s' % i.loc())
                        else:
                            s.note('bits', i, 'hashes the representation of the key, which differs for 0 and -0')
                    taint[i.id] = {'plain'}
                elif i.op in ('fptosi', 'fptoui'):
                    a = t(i.ops[0])
                    if ('raw' in a or 'normal' in a):
                        if guards:
                            s.unk.append('guarded conversion at %s' % i.loc())
                        else:
                            s.note('range', i, 'converts any floating point key to an integer type, which is undefined for keys outside its range')
                    taint[i.id] = {'plain'}
                elif i.op == 'ptrtoint':
                    a = t(i.ops[0])
                    if 'addr' in a:
                        s.note('address', i, 'depends on the address of the key')
                    if 'content' in a and s.string:
                        s.note('address', i, 'depends on the address of the string')
                    taint[i.id] = {'plain'}
                elif i.op in ('call', 'invoke'):
                    n = i.d['callee'].get('n')
                    g = s.prog.fns.get(n)
                    ka = {k: ('addr' if 'addr' in t(o) else 'content') for k, o in enumerate(i.ops) if t(o) & {'addr', 'content'}}
                    if n and n.startswith('llvm.memcpy') and 0 not in ka:
                        if s.float and 1 in ka:
                            s.note('bits', i, 'hashes the representation of the key, which differs for 0 and -0')
                    elif g is not None and not g.decl:
                        for fx in (s.run(g, ka, depth + 1),):
                            pass
                        r = set()
                        for o in i.ops:
                            r |= t(o)
                        taint[i.id] = {'plain'} | (r & {'raw', 'normal'})
                        continue
                    elif n and not n.startswith('llvm.') and n not in ('strlen', 'fabs', 'floor', 'ldexp', 'frexp', 'toupper', 'tolower'):
                        if n in ('rand', 'random', 'time', 'clock', 'pthread_self', 'getpid', 'rand_r', 'drand48'):
                            s.note('state', i, 'depends on %s()' % n)
                        else:
                            s.unk.append('call of %s at %s' % (n, i.loc()))
                    taint[i.id] = {'plain'} | ({'byte'} if n in ('strlen', 'strnlen') else set())
                elif i.op == 'alloca':
                    taint[i.id] = {'stack'}
                elif i.op == 'store':
                    if 'stack' in t(i.ops[1]) and 'raw' in t(i.ops[0]):
                        s.unk.append('key kept in memory at %s' % i.loc())
                else:
                    r = set()
                    for o in i.ops:
                        r |= t(o)
                    taint[i.id] = r
            if taint == before:
                break
        if s.string:
            for h, body in f.loops.items():
                steps = [i for b in body for i in f.blocks[b].insts if i.op == 'load' and 'content' in t(i.ops[0])]
                if not steps:
                    continue
                ends = [f.blocks[b].insts[-1] for b in body if any(x not in body for x in f.blocks[b].succ)]
                if not any('byte' in t(o) for e in ends for o in e.ops[:1]):
                    s.note('end', steps[0], 'does not stop at the end of the string')

    def note(s, rule, i, msg):
        if not any(b[0] == rule and b[1] is i for b in s.bad):
            s.bad.append((rule, i, msg))


def judge_hash(R, prog, fn, kt, why, direct=False):
    A = HashAI(prog); st, p = key_state(kt, direct)
    n = Poly.a(fresh_atom('buckets', 1, 2 ** 62))
    if len(fn.args) != 2 or fn.args[0]['ty'] != 'ptr':
        R.undecided.append('%s: unexpected parameters' % fn.name); return
    outs = A.run(fn, st, [p, ('i', n)])
    R.add('hash_functions'); R.add('abstract_exits', len(outs)); R.add('access_obligations', A.counts.get('bounds', 0) if hasattr(A, 'counts') else 0)
    for f in A.findings.values():
        R.violation(f.rule, f.inst.loc(), '%s %s (%s)' % (fn.name, f.msg, why), key='%s|%s|%s' % (f.rule, fn.name, kt))
    for i in A.stores:
        R.violation('pure', i.loc(), '%s writes memory' % fn.name, key='pure|' + fn.name)
    for x, v in outs:
        R.add('range_obligations')
        if v is not None and v[0] == 'i' and x.ge(v[1]) and x.ge(n - 1 - v[1]):
            continue
        w = refute(prog, fn, kt) if not direct else refute_string(prog, fn)
        if w:
            R.violation('range', fn.loc(), '%s gives a position outside the table: %s (%s)' % (fn.name, w, why), key='range|%s|%s' % (fn.name, kt))
        else:
            R.undecided.append('%s: result %s' % (fn.name, v))
    for u in A.unknown:
        R.undecided.append('%s: %s' % (fn.name, u))
    D = Deps(prog, kt); D.string = kt == 'H_STRING'
    D.run(fn, {0: 'content' if direct else 'addr'})
    R.add('dependence_steps', D.count)
    for rule, i, msg in D.bad:
        R.violation(rule, i.loc(), '%s %s, so equal keys can end up in different buckets (%s)' % (fn.name, msg, why) if rule != 'range' else '%s %s (%s)' % (fn.name, msg, why), key='%s|%s|%s' % (rule, fn.name, kt))
    for u in D.unk:
        R.undecided.append('%s: %s' % (fn.name, u))


def enum_values(prog):
    return {f['name']: f['value'] for f in (prog.ditypes.get('HTYPES') or {'fields': []})['fields'] if f['kind'] == 'enum'}


class Split:
    """path interpretation with one interval-valued input, split at each comparison"""
    MAXLEAF = 20000
    keymem = strings = b''

    def __init__(s, prog):
        s.prog = prog; s.leaf = 0; s.steps = 0

    def val(s, o, env):
        k = o.get('k')
        if k == 'c':
            return o['v']
        if k == 'i':
            return env.get(o['i'])
        if k == 'a':
            return env.get(('a', o['i']))
        if k == 'g':
            return ('g', o['n'], 0)
        if k == 'f':
            try:
                return ('fl', float(o['v']))
            except (TypeError, ValueError):
                return None
        if k == 'gep':
            b = s.val(o['base'], env)
            if not isinstance(b, tuple) or b[0] not in ('g', 'K', 'S') or o['vars']:
                return None
            return b[:-1] + (b[-1] + o['off'],)
        return None

    def run(s, f, args, lo, hi, depth=0):
        """yields (lo, hi, value | None)"""
        stack = [(0, None, {('a', k): v for k, v in enumerate(args)}, lo, hi, None)]
        if depth > 300:
            yield lo, hi, None; return
        n = 0
        while stack:
            bi, prev, env, lo, hi, cont = stack.pop()
            b = f.blocks[bi]
            if cont is None:
                new = {}
                for i in b.insts:
                    if i.op != 'phi':
                        break
                    for q in i.ops:
                        if q.get('b', q.get('bb')) == prev:
                            new[i.id] = s.val(q['v'], env)
                env = dict(env); env.update(new)
                cont = len(new)
            idx = cont; done = False
            while idx < len(b.insts) and not done:
                i = b.insts[idx]; idx += 1; s.steps += 1; n += 1
                if n > 400000:
                    yield lo, hi, None; return
                ops = [s.val(o, env) for o in i.ops] if i.op != 'phi' else []
                if i.op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor'):
                    a, c = ops
                    r = None
                    if isinstance(a, int) and isinstance(c, int):
                        if i.op in ('sdiv', 'udiv', 'srem', 'urem') and c == 0:
                            r = None
                        else:
                            q = lambda: abs(a) // abs(c) * (1 if (a < 0) == (c < 0) else -1)
                            w = int(i.ty[1:])
                            if i.op in ('udiv', 'urem', 'lshr'):
                                a %= 2 ** w; c %= 2 ** w
                            r = {'add': lambda: a + c, 'sub': lambda: a - c, 'mul': lambda: a * c, 'sdiv': q, 'udiv': lambda: a // c, 'srem': lambda: a - c * q(), 'urem': lambda: a % c, 'shl': lambda: a << c,
                                 'ashr': lambda: a >> c, 'lshr': lambda: a >> c, 'and': lambda: a & c, 'or': lambda: a | c, 'xor': lambda: a ^ c}[i.op]()
                            r = (r + 2 ** (w - 1)) % 2 ** w - 2 ** (w - 1)
                    elif i.op in ('add', 'sub') and isinstance(a, tuple) and a[0] == 'x' and isinstance(c, int):
                        k = a[1] + (c if i.op == 'add' else -c)
                        if -2 ** 31 <= lo + k and hi + k < 2 ** 31:
                            r = ('x', k)
                    elif i.op == 'add' and isinstance(c, tuple) and c[0] == 'x' and isinstance(a, int):
                        if -2 ** 31 <= lo + c[1] + a and hi + c[1] + a < 2 ** 31:
                            r = ('x', c[1] + a)
                    env[i.id] = r
                elif i.op in ('sext', 'freeze'):
                    env[i.id] = ops[0]
                elif i.op == 'zext':
                    a = ops[0]; w = int(i.d.get('srcty', 'i32')[1:])
                    env[i.id] = a % 2 ** w if isinstance(a, int) else a if isinstance(a, tuple) and a[0] == 'x' and lo + a[1] >= 0 else ('b', a) if isinstance(a, tuple) and a[0] == 'cmp' else None
                elif i.op == 'trunc':
                    a = ops[0]; w = int(i.ty[1:])
                    env[i.id] = (a + 2 ** (w - 1)) % 2 ** w - 2 ** (w - 1) if isinstance(a, int) else a if isinstance(a, tuple) and a[0] == 'x' and w >= 32 else None
                elif i.op == 'getelementptr':
                    p = ops[0]; off = i.d['off']; ok = isinstance(p, tuple) and p[0] in ('g', 'K', 'S')
                    for v in i.d['vars']:
                        x = s.val(v['idx'], env)
                        if isinstance(x, int):
                            off += x * v['scale']
                        else:
                            ok = False
                    env[i.id] = (p[:-1] + (p[-1] + off,)) if ok else None
                elif i.op == 'load':
                    p = ops[0]; r = None
                    if isinstance(p, tuple) and p[0] in ('K', 'S'):
                        m = (s.keymem if p[0] == 'K' else s.strings)[p[1]:p[1] + i.d['size']] if p[1] >= 0 else b''
                        if len(m) == i.d['size']:
                            if i.ty == 'ptr':
                                r = ('S', 0)
                            elif i.ty in ('double', 'float'):
                                r = ('fl', struct.unpack('<' + i.ty[0], m)[0])
                            else:
                                r = int.from_bytes(m, 'little', signed=True)
                    if isinstance(p, tuple) and p[0] == 'g':
                        g = s.prog.globals.get(p[1])
                        if g and g.get('const') and 'ints' in g:
                            if p[2] % g['esize'] or not 0 <= p[2] // g['esize'] < len(g['ints']):
                                s.oob = (i, p[2] // g['esize'], lo, hi)
                                yield lo, hi, 'oob'; done = True; break
                            r = g['ints'][p[2] // g['esize']]
                    env[i.id] = r
                elif i.op == 'icmp' or i.op == 'select':
                    if i.op == 'select':
                        c = ops[0]
                        if isinstance(c, int):
                            env[i.id] = ops[1] if c else ops[2]; continue
                        env[i.id] = None; continue
                    a, c = ops; pred = i.d['pred']
                    if isinstance(a, int) and isinstance(c, int):
                        w = int(i.d['opty'][1:])
                        if pred[0] == 'u':
                            a %= 2 ** w; c %= 2 ** w
                        env[i.id] = int({'eq': a == c, 'ne': a != c}.get(pred, {'lt': a < c, 'le': a <= c, 'gt': a > c, 'ge': a >= c}.get(pred[1:])))
                        continue
                    if isinstance(c, tuple) and c[0] == 'x':
                        a, c = c, a
                        pred = pred[0] + {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[pred[1:]] if pred[0] in 'su' else pred
                    if not (isinstance(a, tuple) and a[0] == 'x' and isinstance(c, int)) or pred[0] == 'u' and lo + a[1] < 0:
                        env[i.id] = None; continue
                    k = c - a[1]
                    parts = {'eq': [(k, k, 1), (lo, k - 1, 0), (k + 1, hi, 0)], 'ne': [(k, k, 0), (lo, k - 1, 1), (k + 1, hi, 1)]}.get(pred) or \
                            {'lt': [(lo, k - 1, 1), (k, hi, 0)], 'le': [(lo, k, 1), (k + 1, hi, 0)], 'gt': [(lo, k, 0), (k + 1, hi, 1)], 'ge': [(lo, k - 1, 0), (k, hi, 1)]}[pred[1:]]
                    parts = [(max(lo, p), min(hi, q), v) for p, q, v in parts if max(lo, p) <= min(hi, q)]
                    for p, q, v in parts[1:]:
                        e = dict(env); e[i.id] = v
                        stack.append((bi, prev, e, p, q, idx))
                    lo, hi, env[i.id] = parts[0]
                elif i.op == 'br':
                    t = b.succ
                    if len(t) == 1:
                        stack.append((t[0], bi, env, lo, hi, None))
                    else:
                        c = ops[0]
                        if not isinstance(c, int):
                            yield lo, hi, None
                        else:
                            stack.append((t[0] if c else t[1], bi, env, lo, hi, None))
                    done = True
                elif i.op == 'switch':
                    c = ops[0]
                    if not isinstance(c, int):
                        yield lo, hi, None
                    else:
                        t = [x['b'] for x in i.d['cases'] if x['v'] == c]
                        stack.append((t[0] if t else i.d['default'], bi, env, lo, hi, None))
                    done = True
                elif i.op == 'ret':
                    s.leaf += 1
                    yield lo, hi, ops[0] if ops else None
                    done = True
                elif i.op == 'call':
                    g = s.prog.fns.get(i.d['callee'].get('n'))
                    if g is None or g.decl:
                        env[i.id] = None
                    else:
                        for p, q, v in s.run(g, ops, lo, hi, depth + 1):
                            e = dict(env); e[i.id] = v
                            stack.append((bi, prev, e, p, q, idx))
                        done = True
                elif i.op in ('fadd', 'fmul', 'fsub') and all(isinstance(o, tuple) and o[0] == 'fl' for o in ops):
                    a, c = ops[0][1], ops[1][1]
                    env[i.id] = ('fl', a + c if i.op == 'fadd' else a - c if i.op == 'fsub' else a * c)
                elif i.op == 'bitcast' and isinstance(ops[0], tuple) and ops[0][0] == 'fl' and i.ty in ('i64', 'i32'):
                    env[i.id] = int.from_bytes(struct.pack('<d' if i.ty == 'i64' else '<f', ops[0][1]), 'little', signed=True)
                elif i.op in ('fptosi', 'fptoui') and isinstance(ops[0], tuple) and ops[0][0] == 'fl':
                    env[i.id] = int(ops[0][1]) if abs(ops[0][1]) < 2 ** 31 else None
                elif i.op in ('fpext', 'fptrunc') and isinstance(ops[0], tuple) and ops[0][0] == 'fl':
                    env[i.id] = ops[0]
                elif i.op == 'ptrtoint' and isinstance(ops[0], tuple) and ops[0][0] == 'S':
                    env[i.id] = int.from_bytes(s.keymem[:8], 'little', signed=True) + ops[0][1]
                elif i.op == 'unreachable':
                    done = True
                else:
                    env[i.id] = None


def is_prime(p):
    return p > 1 and all(p % d for d in range(2, int(p ** 0.5) + 1))


def primes(R, prog):
    fn = prog.fns.get('find_prime_less_than')
    if fn is None or fn.decl:
        R.undecided.append('find_prime_less_than is gone'); return
    S = Split(prog)
    nd = 0
    for lo, hi, v in S.run(fn, [('x', 0)], -2 ** 31, 2 ** 31 - 1):
        R.add('request_intervals')
        rng = '%d' % lo if lo == hi else '%d to %d' % (lo, hi)
        if v == 'oob':
            i, k, a, b = S.oob
            R.violation('bounds', i.loc(), 'the search for a prime below %s reads element %d of the table of primes' % (rng, k), key='bounds|primes'); continue
        if isinstance(v, tuple) or v is None:
            nd += 1; continue
        if not is_prime(v):
            R.violation('prime', fn.loc(), 'the prime proposed for a request of %s is %d, which is no prime' % (rng, v), key='prime|notprime'); continue
        if hi > 3 and v >= max(lo, 4):
            R.violation('prime', fn.loc(), 'the prime proposed for a request of %s is %d, which is not less' % (rng, v), key='prime|less'); continue
        if lo > 3 and hi <= 1218:
            if any(is_prime(q) for q in range(v + 1, hi)):
                R.violation('prime', fn.loc(), 'the prime proposed for a request of %s is %d, a larger one is known' % (rng, v), key='prime|largest')
    if nd:
        R.undecided.append('find_prime_less_than: %d intervals not followed' % nd)


def table(R, prog):
    en = enum_values(prog)
    if len(en) < 8:
        raise AnalysisBroken('enumeration of key types not found')
    gs, init = prog.get('get_htype_size'), prog.get('hashtable_init_size')
    di = prog.ditypes.get('HASHTABLE_')
    F = {f['name']: f['off'] for f in di['fields']}
    for n, val in sorted(en.items(), key=lambda x: x[1]):
        if n not in SIZES:
            R.undecided.append('unknown key type ' + n); continue
        A = HashAI(prog)
        for x, v in A.run(gs, State(), [I(val)]):
            R.add('size_obligations')
            c = v[1].const() if v is not None and v[0] == 'i' else None
            if c is None:
                R.undecided.append('size of %s not followed' % n)
            elif c != SIZES[n]:
                R.violation('size', gs.loc(), 'values of type %s have %d bytes, get_htype_size says %d' % (n, SIZES[n], c), key='size|' + n)
        A = HashAI(prog)
        st = State()
        args = [A.arg_value(st, init, k) for k in range(len(init.args))]
        args[1] = I(val)
        got = set()
        for x, v in A.run(init, st, args):
            v = x.res(v) if v is not None and v[0] == 'p' else v
            if v is None or v[0] != 'p' or x.nullness(v) in ('null', 'nullish'):
                continue
            c = x.heap.get(v[1], {}).get(v[2] + F['key_hash'])
            if c is None:
                R.undecided.append('hash function of %s not followed' % n); continue
            R.add('assignments')
            if is_null(c[0]):
                R.violation('assigned', init.loc(), 'tables with keys of type %s have no hash function' % n, key='assigned|' + n)
            elif c[0][0] == 'fn':
                got.add(c[0][1])
            else:
                R.undecided.append('hash function of %s not followed' % n)
        for g in sorted(got):
            f = prog.fns.get(g)
            if f is not None and not f.decl:
                judge_hash(R, prog, f, n, 'keys of type ' + n)


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('collections', cfg)
        for t, kt in NAMED.items():
            f = prog.fns.get(t + '_hash')
            if f is not None and not f.decl:
                judge_hash(R, prog, f, kt, t + ' keys')
        for n in STRNAMED:
            f = prog.fns.get(n)
            if f is not None and not f.decl:
                judge_hash(R, prog, f, 'H_STRING', 'strings', direct=True)
        table(R, prog)
        primes(R, prog)
    R.need('hash_functions', 8); R.need('assignments', 6)
    R.assumptions += ['two keys of an integer or pointer type are equal exactly when their bytes are; floating point keys are never NaN; the comparison of string keys compares what they point to']
