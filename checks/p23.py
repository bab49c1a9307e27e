"""Read-only inputs: effect summaries (which memory reached from which argument a function may write, release or keep a
pointer into, through any calls) are computed for the whole program; arguments that are inputs by contract - the data
set, labels, keys and elements handed in, and the structures of every query and print function - must have none."""
from p11 import Prog, Fn, PURE, WRITES0, same_object
from front import build, DEFAULT, CONFIGS, AnalysisBroken

# function -> positions of arguments that are inputs only; 'r': memory reached from it is never written or released,
# 'k': additionally the pointer itself is not kept
INPUTS = {
    'hdbscan_run': {1: 'k'}, 'distance_compute': {1: 'k'},
    'hdbscan_create_cluster_map': {0: 'k'}, 'hdbscan_get_min_max_distances': {0: 'r', 1: 'r'},
    'hdbscan_analyse_stats': {0: 'r'}, 'hdbscan_sort_by_similarity': {0: 'r'}, 'hdbscan_sort_by_length': {0: 'r'},
    'hdbscan_print_cluster_map': {0: 'r'}, 'hdbscan_print_cluster_sizes': {0: 'r'}, 'hdbscan_print_hierarchies': {0: 'r', 2: 'r'},
    'hdbscan_print_outlier_scores': {0: 'r'}, 'hdbscan_print_distance_map': {0: 'r'}, 'hdbscan_print_stats': {0: 'r'},
    'print_distances': {0: 'r'}, 'print_graph_components': {0: 'r', 1: 'r', 2: 'r'}, 'graph_print': {0: 'r'},
    'hdbscan_create_new_cluster': {1: 'r'}, 'hdbscsan_calculate_outlier_scores': {1: 'k', 2: 'k'},
    'distance_get': {0: 'r'}, 'distances_print': {0: 'r'}, 'cluster_virtual_child_contains_point': {0: 'r'}, 'cluster_add_points_to_virtual_child_cluster': {1: 'r'},
    'cluster_compare': {0: 'r', 1: 'r'}, 'outlier_score_compare': {0: 'r', 1: 'r'}, 'hashtable_entry_compare': {0: 'r', 1: 'r'},
    'graph_select_pivot_index': {0: 'r'},
    'hashtable_insert': {1: 'k'}, 'hashtable_lookup': {0: 'r', 1: 'k'}, 'hashtable_lookup_entry': {0: 'r', 1: 'k'}, 'hashtable_empty': {0: 'r'}, 'hashtable_size': {0: 'r'},
    'array_list_append': {1: 'k'}, 'array_list_insert_at': {1: 'k'}, 'array_list_replace_at': {1: 'k'}, 'array_list_find': {0: 'r', 1: 'k'}, 'array_list_value_at': {0: 'r'}, 'array_list_size': {0: 'r'}, 'array_list_empty': {0: 'r'},
    'set_insert': {1: 'k'}, 'set_find': {0: 'r', 1: 'k'}, 'set_value_at': {0: 'r'}, 'set_size': {0: 'r'}, 'set_empty': {0: 'r'},
    'linkedlist_front_add': {1: 'k'}, 'linkedlist_tail_add': {1: 'k'}, 'linkedlist_empty': {0: 'r'}, 'linkedlist_value_at': {0: 'r'},
    'logger_write': {1: 'r'},
}
for t in 'int double short long float char'.split():
    INPUTS[t + '_compare'] = {0: 'r', 1: 'r'}; INPUTS[t + '_ptr_compare'] = {0: 'r', 1: 'r'}; INPUTS[t + '_hash'] = {0: 'r'}
INPUTS['ptr_compare'] = {0: 'r', 1: 'r'}; INPUTS['str_hash'] = {0: 'r'}
CPP = {'run': {1: 'k'}, 'createClusterMap': {0: 'k'}, 'calculateOutlierScores': {1: 'k', 2: 'k'}}
FREES = {'free': 0, 'realloc': 0, '_ZdlPv': 0, '_ZdaPv': 0, '_ZdlPvm': 0, 'cfree': 0}


class Caps:
    """pointers into an argument that are released, or stored where they outlive the call"""

    def __init__(s, PG):
        s.PG = PG; s.memo = {}

    def of(s, name, stack=()):
        if name in s.memo:
            return s.memo[name]
        f = s.PG.p.fns.get(name)
        if f is None or f.decl or name in stack:
            return []
        A = s.PG.fn(f); out = []
        for i in f.all_insts():
            if i.op == 'store' and i.d.get('vty') == 'ptr':
                v = A.root(i.ops[0])
                if v[0] == 'arg':
                    t = A.root(i.ops[1])
                    if t[0] in ('arg', 'glob') and t[1] != v[1]:
                        out.append(('keep', v[1], v[2], t, i, ()))
            elif i.op in ('call', 'invoke'):
                n = s.PG.name(i)
                if n in FREES:
                    v = A.root(i.ops[0])
                    if v[0] == 'arg':
                        out.append(('free', v[1], v[2], None, i, ()))
                elif n:
                    for k, a, p, t, j, via in s.of(n, stack + (name,)):
                        if a < len(i.ops):
                            v = A.root(i.ops[a])
                            if v[0] != 'arg':
                                continue
                            if k == 'keep':
                                r = A.root(i.ops[t[1]]) if t[0] == 'arg' and t[1] < len(i.ops) else t
                                if r[0] not in ('arg', 'glob') or r[0] == 'arg' and r[1] == v[1]:
                                    continue
                                t2 = (r[0], r[1], r[2] + (t[2] if t[0] == 'arg' else ''))
                            else:
                                t2 = None
                            out.append((k, v[1], v[2] + p, t2, i, (n,) + via))
        d = {}
        for c in out:
            d.setdefault(c[:4], c)
        s.memo[name] = list(d.values())
        return s.memo[name]


def check(R, tier):
    for cfg in ([DEFAULT] if tier == 'quick' else CONFIGS):
        prog = build('corecpp', cfg)
        PG = Prog(prog); C = Caps(PG)
        missing = []
        tab = []
        for n, a in INPUTS.items():
            f = prog.fns.get(n)
            if f is None or f.decl:
                missing.append(n)
            else:
                tab.append((f, a, 0))
        for f in prog.defined():
            if f.srcname in CPP and '/src/' in (f.file or '') and f.cls is not None or f.srcname == 'createClusterMap' and f.srcname in CPP:
                off = 1 if f.args and (f.args[0].get('sret') or f.args[0]['name'] == 'agg.result') else 0
                tab.append((f, {k + off: v for k, v in CPP[f.srcname].items()}, off))
        for f, a, off in tab:
            es = PG.effects(f.name)
            R.add('functions')
            for k, mode in a.items():
                if k >= len(f.args) or f.args[k]['ty'] != 'ptr':
                    R.undecided.append('%s: argument %d is not a pointer any more' % (f.srcname, k)); continue
                R.add('read_only_arguments')
                nm = f.args[k]['name'] or 'argument %d' % k
                for e in es:
                    if e.kind != 'w':
                        continue
                    if e.root == ('arg', k):
                        R.violation('written', e.inst.loc(), '%s writes into its input %s%s' % (f.srcname, nm, ' through ' + ' > '.join(e.via) if e.via else ''),
                                    key='written|%s|%s' % (f.srcname, nm), path=['memory %s%s' % (nm, e.path)])
                for c in C.of(f.name):
                    if c[1] != k:
                        continue
                    if c[0] == 'free':
                        R.violation('released', c[4].loc(), '%s releases its input %s' % (f.srcname, nm), key='released|%s|%s' % (f.srcname, nm), path=list(c[5]))
                    elif mode == 'k' and '*' not in c[2]:
                        R.violation('kept', c[4].loc(), '%s keeps a pointer into its input %s after it returns' % (f.srcname, nm), key='kept|%s|%s' % (f.srcname, nm), path=list(c[5]))
            unk = [e for e in es if e.kind == 'w' and e.root[0] == 'unk']
            for e in unk:
                if set(x[1] for x in e.deps if isinstance(x, tuple) and x[0] == 'a') & set(a):
                    R.undecided.append('%s: target at %s' % (f.srcname, e.inst.loc()))
        R.cov['absent_functions'] = len(missing)
        if len(missing) > 20:
            raise AnalysisBroken('most of the query functions are gone: ' + ', '.join(missing[:5]))
    R.need('read_only_arguments', 60)
    R.assumptions += ['comparison callbacks given by the user only read their operands', 'writes through pointers loaded from stored elements are attributed to the structure they were loaded from']
