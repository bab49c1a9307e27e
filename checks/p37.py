"""Narrowing: every conversion to a smaller type in the library and its C++ wrapper, in all configurations.  A number of a
point, label, count, size or level that is converted to a type below 32 bits (below the configured width where points and
labels themselves are narrower), must be known to fit: it is a constant, a truth value, the widening of a value of that size,
or bounded by a mask, a shift or a remainder.  Distances are not taken to a type below the configured one, and not to integers
except as results of functions that make whole numbers of whole numbers."""
from front import build, CONFIGS, DEFAULT, AnalysisBroken
import re

W = {'unsigned int': 32, 'unsigned short': 16, 'unsigned long': 64}
WHOLE = re.compile(r'(llvm\.)?(floor|ceil|round|trunc|rint|nearbyint|log2|log|pow|sqrt|exp2|ldexp)[fl]?(\.f\d+)?$')


def width(ty):
    return int(ty[1:]) if ty and ty[0] == 'i' and ty[1:].isdigit() else None


class Fit:
    def __init__(s, prog):
        s.prog = prog; s.memo = {}

    def fits(s, fn, o, w, depth=0, seen=()):
        """can the value not exceed w bits (as unsigned or signed number)?"""
        if depth > 24:
            return False
        k = o.get('k')
        if k in ('c', 'ci') or k == 'int' or 'v' in o and isinstance(o.get('v'), int) and k not in ('i', 'a'):
            v = o.get('v')
            if isinstance(v, str):
                try:
                    v = int(v)
                except ValueError:
                    return False
            return isinstance(v, int) and -2 ** (w - 1) <= v < 2 ** w
        if k in ('undef', 'poison'):
            return True
        if k == 'a':
            a = fn.args[o['i']]
            q = width(a['ty'])
            if q is not None and q <= w:
                return True
            return s.everywhere(fn, o['i'], w, depth, seen)
        if k != 'i':
            return False
        if (fn.name, o['i']) in seen:
            return True                        # round a loop: decided by the other ways in
        i = fn.insts.get(o['i'])
        if i is None:
            return False
        seen = seen + ((fn.name, o['i']),)
        q = width(i.ty)
        if q is not None and q <= w:
            return True
        f = lambda x: s.fits(fn, x, w, depth + 1, seen)
        if i.op in ('zext', 'sext'):
            q = width(i.d.get('srcty'))
            return q is not None and q <= w or f(i.ops[0])
        if i.op in ('trunc', 'freeze', 'bitcast'):
            return f(i.ops[0])
        if i.op == 'phi':
            return all(f(x['v']) for x in i.ops)
        if i.op == 'select':
            return all(f(x) for x in i.ops[1:3])
        if i.op == 'and':
            return any(s.small(x, w) for x in i.ops)
        if i.op in ('or', 'xor'):
            return all(f(x) for x in i.ops)
        if i.op in ('urem', 'srem'):
            return s.small(i.ops[1], w) or f(i.ops[1])
        if i.op in ('udiv', 'lshr', 'ashr'):
            return f(i.ops[0]) or i.op != 'udiv' and s.shift(i, w)
        if i.op == 'call':
            n = i.d['callee'].get('n', '')
            g = s.prog.fns.get(n)
            if g is not None and not g.decl:
                rets = [r for r in g.all_insts() if r.op == 'ret' and r.ops]
                return bool(rets) and all(s.fits(g, r.ops[0], w, depth + 1, seen) for r in rets)
            return bool(re.match(r'(toupper|tolower|isalpha|isdigit|isspace|getc|fgetc|strcmp|memcmp)$', n)) or g is not None and g.decl and n.startswith('is')
        return False

    def everywhere(s, fn, k, w, depth, seen):
        """do all calls of a function only this unit can call pass a value that fits?"""
        if not fn.internal:
            return False
        sites = [(g, i) for g in s.prog.fns.values() if not g.decl for i in g.all_insts() if i.op == 'call' and i.d['callee'].get('n') == fn.name]
        return bool(sites) and all(k < len(i.ops) and s.fits(g, i.ops[k], w, depth + 1, seen) for g, i in sites)

    def const(s, o):
        v = o.get('v')
        if o.get('k') in ('i', 'a'):
            return None
        try:
            return int(v)
        except (TypeError, ValueError):
            return None

    def small(s, o, w):
        c = s.const(o)
        return c is not None and 0 <= c < 2 ** w + (1 if False else 0)

    def shift(s, i, w):
        c = s.const(i.ops[1])
        q = width(i.ty)
        return c is not None and q is not None and q - c <= w


def whole(fn, o, depth=0):
    """is the float the result of a function of whole numbers?"""
    if depth > 12:
        return False
    if o.get('k') != 'i':
        return o.get('k') not in ('a',)
    i = fn.insts.get(o['i'])
    if i is None:
        return False
    if i.op in ('sitofp', 'uitofp'):
        return True
    if i.op == 'call':
        n = i.d['callee'].get('n', '')
        return bool(WHOLE.match(n)) and all(whole(fn, x, depth + 1) for x in i.ops)
    if i.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fpext', 'fptrunc', 'select', 'freeze'):
        return all(whole(fn, x, depth + 1) for x in (i.ops[1:] if i.op == 'select' else i.ops))
    if i.op == 'phi':
        return all(whole(fn, x['v'], depth + 1) for x in i.ops)
    return False


def product(fn, o, depth=0):
    """number of bits a product of counts of up to 31 bits can take; 0 without a product of numbers that are not constant"""
    def bits(o, depth):
        if o.get('k') not in ('i', 'a'):
            try:
                return int(o.get('v')).bit_length(), False
            except (TypeError, ValueError):
                return 31, False
        i = fn.insts.get(o['i']) if o['k'] == 'i' else None
        w = min(31, width(i.ty if i is not None else fn.args[o['i']]['ty']) or 31)
        if i is None or depth > 12:
            return w, False
        if i.op in ('zext', 'sext', 'trunc', 'freeze'):
            return bits(i.ops[0], depth + 1)
        if i.op in ('add', 'sub'):
            c = [bits(x, depth + 1) for x in i.ops if x.get('k') in ('i', 'a')]
            return max([x[0] for x in c] or [w]), any(x[1] for x in c)
        if i.op == 'mul':
            c = [bits(x, depth + 1) for x in i.ops]
            var = all(x.get('k') in ('i', 'a') for x in i.ops)
            return sum(x[0] for x in c), var or any(x[1] for x in c)
        return w, False
    b, p = bits(o, 0)
    return b if p else 0


def guarded(fn, inst):
    """is the counter, or what it was counted from, compared with a constant it stays within?"""
    ids = {inst.id} | {o['i'] for o in inst.ops if o.get('k') == 'i'}
    grown = True
    while grown:
        grown = False
        for i in fn.all_insts():
            if i.op in ('zext', 'sext', 'phi', 'freeze') and i.id not in ids and any((o.get('v') if i.op == 'phi' else o).get('i') in ids and (o.get('v') if i.op == 'phi' else o).get('k') == 'i' for o in i.ops):
                ids.add(i.id); grown = True
    for i in fn.all_insts():
        if i.op == 'icmp' and any(o.get('k') == 'i' and o['i'] in ids for o in i.ops):
            if any(o.get('k') not in ('i', 'a') and str(o.get('v', '')).lstrip('-').isdigit() for o in i.ops):
                return True
    return False


def check(R, tier):
    for cfg in (CONFIGS if tier != 'quick' else [CONFIGS[0], CONFIGS[2], CONFIGS[4], CONFIGS[8], CONFIGS[9]]):
        prog = build('corecpp', cfg)
        F = Fit(prog)
        iw, lw = W[cfg['INDEX_TYPE']], W[cfg['LABEL_TYPE']]
        least = min(32, iw, lw)
        R.add('configurations')
        for fn in list(prog.fns.values()):
            if fn.decl or not fn.loc().startswith(('src/', 'modules/', 'include/')):
                continue
            R.add('functions')
            for i in fn.all_insts():
                if i.op == 'trunc':
                    q = width(i.ty)
                    if q is None or q == 1:
                        continue
                    R.add('conversions')
                    if q >= least:
                        continue
                    R.add('narrow')
                    if not F.fits(fn, i.ops[0], q):
                        R.violation('narrow', i.loc(), 'a number is cut down to %d bits in %s' % (q, fn.srcname), key='narrow|%s|%d' % (fn.srcname, q))
                elif i.op in ('add', 'sub', 'mul') and width(i.ty) not in (None, 1) and width(i.ty) < least:
                    R.add('narrow')
                    if not guarded(fn, i):
                        R.violation('narrow', i.loc(), 'a number is counted up in only %d bits in %s' % (width(i.ty), fn.srcname), key='count|%s|%d' % (fn.srcname, width(i.ty)))
                elif i.op == 'fptrunc':
                    R.add('conversions')
                    if i.ty == 'float' and cfg['DISTANCE_TYPE'] == 'double' and not fn.loc().startswith('modules/collections'):
                        R.violation('coarse', i.loc(), 'a distance is rounded to single precision in %s' % fn.srcname, key='coarse|%s' % fn.srcname)
                elif i.op in ('sitofp', 'uitofp'):
                    R.add('conversions')
                    w = width(i.d.get('srcty'))
                    if w and product(fn, i.ops[0]) > w:
                        R.violation('product', i.loc(), 'a product of numbers is taken in only %d bits in %s before it becomes a distance or score' % (w, fn.srcname), key='product|%s' % fn.srcname)
                elif i.op in ('fptosi', 'fptoui'):
                    R.add('conversions')
                    if not whole(fn, i.ops[0]):
                        R.violation('whole', i.loc(), 'a distance or score is cut down to a whole number in %s' % fn.srcname, key='whole|%s' % fn.srcname)
    R.need('functions', 1); R.need('conversions', 1)
    R.assumptions += ['fewer than 2^31 points, so that counts, positions and labels fit 32 bits (the table of distances of more does not fit into memory)']
