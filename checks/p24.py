"""Initialisation: every function of the library is interpreted on its own (see P12), constructors with the storage they are given
in an unknown state, all others with storage in any valid state.  What is made there (allocated storage, local variables,
storage a constructor sets up) is tracked member by member; every read of a member or variable follows a write
on its path, and every record handed out has had each of its members written that anything reads."""
import sys
from ownmod import *


def check(R, tier):
    sys.setrecursionlimit(20000)
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        one(R, run_all(build('corecpp', cfg), False), ('uninit', 'unset'))
        one(R, run_all(build('collections', cfg), False, coll=True, rounds=1), ('unset',))
    R.need('functions', 50); R.need('allocations', 20); R.need('accesses', 1000); R.need('records set up', 4); R.need('members set up', 20)
    R.assumptions += ['storage handed to functions other than constructors is in a valid state of its type', 'elements of arrays of numbers are not told apart (P08, P16, P32, P33 decide those)']


def one(R, A, rules):
    for k in ('functions', 'allocations', 'accesses', 'calls', 'summarised calls', 'container operations', 'records set up', 'members set up'):
        R.add(k, A.cov.get(k, 0))
    for (rule, fn, iid, _), (rule, inst, msg, trace, stk) in sorted(A.found.items(), key=lambda x: str(x[0])):
        if rule in rules and not trace:
            R.violation('own-' + rule, inst.loc() if inst is not None else '', 'read before it is written: ' + msg if rule == 'uninit' else msg, '%s@%s#%s' % (rule, fn, msg[:60]), [x for x in stk if isinstance(x, str)])
