"""Ownership: every function of the library is interpreted on its own, over storage its parameters may refer to in any valid
state of the model; small callees are inlined, the others summarised (what they hand out, keep, release and clear).  Which
members and containers own storage is inferred from where fresh storage is put.  On every path, storage that was allocated or
is owned is released, handed on or still referred to; nothing is released twice, used or left referred to after its release."""
import sys
from ownmod import *

RULES = {'leak': 'a storage is lost', 'lost': 'an owned member is overwritten', 'elements': 'elements are lost', 'member': 'an owned member outlives its holder', 'twice': 'double release',
         'released': 'use after release', 'dangling': 'reference to released storage', 'foreign': 'release of foreign storage', 'kind': 'wrong kind of release'}


def check(R, tier):
    sys.setrecursionlimit(20000)
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('corecpp', cfg)
        A = run_all(prog, False)
        collect(R, A)
    R.need('functions', 50); R.need('allocations', 20); R.need('releases', 20); R.need('owning members', 8)
    R.assumptions += ['allocations succeed (their failure is P14)', 'distinct parameters refer to distinct storage', 'containers behave as P31 to P34 say; what they keep inside is analysed there',
                      'functions other than run and rerun are called on a model whose members they overwrite own nothing yet']


def collect(R, A):
    for k in ('functions', 'allocations', 'releases', 'accesses', 'calls', 'summarised calls', 'container operations'):
        R.add(k, A.cov.get(k, 0))
    R.add('owning members', len(A.owns)); R.add('owning containers', len(A.elowns))
    for (rule, fn, iid, _), (rule, inst, msg, trace, stk) in sorted(A.found.items(), key=lambda x: str(x[0])):
        if rule not in RULES or trace:
            continue
        R.violation('own-' + rule, inst.loc() if inst is not None else '', '%s: %s' % (RULES[rule], msg), '%s@%s#%s' % (rule, fn, msg[:60]), [x for x in stk if isinstance(x, str)])
