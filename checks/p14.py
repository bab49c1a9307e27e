"""Allocation failure: the ownership analysis of P12 with every allocation of the library succeeding or failing (one failure on a
path at a time, in callees as well as in the function itself).  On no path is storage that could not be allocated read, written
or handed to something that does, and none of the storage that the function holds by then is lost, released twice or left
referred to after its release."""
import sys
from ownmod import *
import p12


def check(R, tier):
    sys.setrecursionlimit(20000)
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        A = run_all(build('corecpp', cfg), True)
        for k in ('functions', 'allocations', 'releases', 'accesses', 'calls', 'summarised calls', 'container operations'):
            R.add(k, A.cov.get(k, 0))
        R.add('allocations that may fail', len(A.failing))
        for (rule, fn, iid, _), (rule, inst, msg, trace, stk) in sorted(A.found.items(), key=lambda x: str(x[0])):
            if rule in ('null', 'success') or trace and rule in p12.RULES:
                R.violation('own-' + rule, inst.loc() if inst is not None else '', '%s: %s' % ('use of storage that could not be allocated' if rule == 'null' else 'success without memory' if rule == 'success' else p12.RULES[rule] + ' when memory runs out', msg),
                            '%s@%s#%s' % (rule, fn, msg[:60]), list(trace) + [x for x in stk if isinstance(x, str)])
    R.need('functions', 50); R.need('allocations that may fail', 15); R.need('accesses', 1000)
    R.assumptions += ['one allocation fails at a time', 'the growth of containers and of their tables succeeds (P01 and P05 decide what they do when it does not)', 'operator new throws instead of returning NULL']
