LST, SETF, LL, HT = COL + 'list.c', COL + 'set.c', COL + 'linkedlist.c', COL + 'hashtable.c'
BASE = 'Sound for the compiled LLVM IR of the analysed functions up to the listed assumptions; obligations on code the domain cannot follow are counted as undecided in the evidence and never reported as violations. '

P('P01', 'Array list and set operations stay inside their storage',
  'Every array list and set operation, started from any list reachable through the public operations, reads and writes only inside the storage the list currently owns, never touches released storage, and leaves a list whose recorded capacity and element count again describe that storage. When growing fails the list keeps its old storage and contents.',
  ['histories', 'inputs', 'fault_sequences'], 'all lists with size <= capacity over storage of capacity elements, any element size, any position argument within the documented precondition, any success or failure of each allocation',
  'The unit tests run one short history on two element types and never fail an allocation; out-of-bounds accesses by one element are invisible to them without instrumentation, and capacity bookkeeping errors need a particular sequence (clear, then insert).',
  [LST, SETF, 'modules/collections/include/collections/list.h'],
  [('growth', LST + ':array_list_grow'), ('insertion shift', LST + ':array_list_insert_at'), ('removal shift', LST + ':array_list_remove_at'), ('clear/shrink', LST + ':array_list_clear'), ('binary insertion', SETF + ':set_insert')],
  'abstract interpretation of LLVM IR (linear-inequality domain, inductive list invariant)', BASE + 'Assumes array element counts times element size do not overflow size_t and that comparison callbacks are pure.')

P('P02', 'Array list operations behave as a sequence of elements',
  'Appending, inserting, removing, overwriting, fetching, searching, clearing and sizing an array list have exactly the effect of the same operation on an ideal sequence: elements not addressed keep their value and relative order, out-of-range positions are refused without any change, and the reported status tells success from refusal.',
  ['histories', 'inputs'], 'all list contents, lengths, element sizes, positions and elements',
  'The tests check a handful of positions on lists of at most a few dozen elements; a shift that loses or duplicates one element at one boundary, or a status that is wrong only on one path, needs exactly that position.',
  [LST, 'modules/collections/include/collections/list.h'],
  [('insertion', LST + ':array_list_insert_at'), ('removal', LST + ':array_list_remove_at'), ('fetch', LST + ':array_list_value_at'), ('search', LST + ':array_list_find'), ('append', LST + ':array_list_append')],
  'abstract interpretation of LLVM IR (symbolic segment/content domain)', BASE + 'Content is tracked through block copies; rewrites that move elements byte by byte may become undecided.')

P('P03', 'Sets stay sorted, duplicate free, and answer membership exactly',
  'From any set whose elements are strictly increasing in its comparison order, inserting an element yields the set with that element at its ordered place and a success status, or leaves it untouched with a refusal status when an equal element is present. Searching reports a position exactly when an equal element is there, and removal takes out that element only.',
  ['histories', 'inputs'], 'all strictly increasing sets, all elements, all total comparison functions',
  'The tests insert some twenty integers; a binary search that mishandles one boundary or one parity of length keeps passing until the specific length and key meet.',
  [SETF, LST], [('ordered insertion', SETF + ':set_insert'), ('search', LST + ':array_list_find'), ('removal', SETF + ':set_remove')],
  'abstract interpretation of LLVM IR (array-segment order predicates, inductive search invariants)', BASE + 'Assumes the comparison is a pure total order.')

P('P04', 'Linked lists stay well formed and behave as a sequence',
  'Every linked list operation, started from any well-formed list, leaves a list whose forward and backward chains visit the same elements in opposite order between the recorded first and last element and whose recorded count is their number. Additions, lookups and removals have exactly the effect on that sequence that their description says, taking the first matching element, and removed or cleared elements are released exactly once.',
  ['histories', 'inputs', 'fault_sequences'], 'all well-formed lists of any length, all matches, any allocation failure',
  'The test builds one list; a wrong backward link, a stale tail or a lost node only shows after a further operation from the other end.',
  [LL, 'modules/collections/include/collections/linkedlist.h'],
  [('unhooking', LL + ':linkedlist_node_unhook'), ('add', LL + ':linkedlist_node_front_add'), ('search', LL + ':linkedlist_lookup_helper'), ('clear', LL + ':linkedlist_clear')],
  'shape analysis by abstract interpretation of LLVM IR (list segments with materialisation)', BASE + 'Assumes a pure comparison callback; the removal flag of the head/tail queries is unspecified and not judged.')

P('P05', 'Hash tables behave as maps and keep their key set in step',
  'Every hash table operation, started from any consistent table, has exactly the effect of the map operation: one entry per key, inserting reports whether the key was new and hands the replaced value back, removing hands the value back, lookups deliver the stored value or report absence. The entry count, the key set and the stored entries always agree, and clearing or destroying releases every entry once, applying the given destructors to that entry\'s own key and value.',
  ['histories', 'inputs', 'fault_sequences'], 'all consistent tables with any number of buckets and any collision chains, all keys and values, any allocation failure',
  'The tests insert five keys, with at most two collisions, and never remove a colliding key or fail an allocation; chain corruption needs removal of a middle entry followed by further operations.',
  [HT, 'modules/collections/include/collections/hashtable.h'],
  [('insertion', HT + ':hashtable_insert'), ('lookup', HT + ':hashtable_lookup_entry'), ('removal', HT + ':hashtable_remove'), ('clear', HT + ':hashtable_clear'), ('creation', HT + ':hashtable_init_size')],
  'shape and content analysis by abstract interpretation of LLVM IR', BASE + 'Assumes keys that compare equal hash alike (decided by P07 for the built-in types) and set operations as decided by P03.')

UTL = 'modules/utils/src/utils.c'
P('P06', 'Comparison functions are exact orders for every pair of values',
  'Every comparison function the library offers (integers, floating point numbers, pointers, values behind pointers, clusters, hash table entries, outlier scores) answers negative, zero or positive exactly when its first operand is smaller than, equal to or greater than the second, for every pair of values of the type including the extremes, and changes nothing. Clusters are ordered by label with a missing cluster first, outlier scores by score, then core distance, then point number, hash table entries by their keys.',
  ['inputs'], 'all pairs of values of the element type (no NaN), all pairs of clusters including missing ones, all outlier scores',
  'The tests compare a few small positive numbers; wrap-around, truncation of a difference, or a swapped tie-break needs extreme or tied values.',
  [UTL, 'src/cluster.c', 'src/outlier_score.c', HT], [('scalars', UTL + ':int_compare'), ('clusters', 'src/cluster.c:cluster_compare'), ('outlier scores', 'src/outlier_score.c:outlier_score_compare'), ('entries', HT + ':hashtable_entry_compare')],
  'abstract interpretation of LLVM IR (order scenarios over linear inequalities and float orders, wrap detection)', BASE)

DST = 'src/distance.c'
P('P08', 'Every pair of points has its own entry in the distance table',
  'After the distance table is built, each of the n(n-1)/2 unordered pairs of points has exactly one entry, every entry is written, nothing outside the table is written, and looking up two points, in either order, reads the entry that was written for them; a point has distance zero to itself. This holds for any number of points for which the table can be allocated.',
  ['inputs'], 'all numbers of rows and columns, all pairs of points, all six data types',
  'No test checks a distance. An index that collides, misses a pair or wraps shows only for particular row counts (wrapping only beyond 65536 rows) or particular data.',
  [DST, 'include/hdbscan/distance.h'], [('index', DST + ':distance_compute'), ('lookup', DST + ':distance_get')],
  'abstract interpretation of LLVM IR (polynomial index forms, enumeration identities, wrap detection)', BASE)

P('P09', 'Table entries are Euclidean distances of the data in its own type',
  'The entry of two points is the square root of the sum, over every column, of the squared difference of their coordinates, whichever of the six element types the data set has: elements are read with the size, kind and sign of their type, from the two rows concerned, and differences are not formed in arithmetic that can wrap or that is coarser than the distance type.',
  ['inputs'], 'all data sets, numbers of rows and columns, all six data types',
  'The tests never compare a distance with its definition; wrong element size, sign, stride or an overflowing difference need data of that type with unusual magnitudes.',
  [DST], [('formula', DST + ':distance_compute')],
  'abstract interpretation of LLVM IR (loop value terms in real-number normal form)', BASE + 'Rounding of floating point sums is not judged.')

HD = 'src/hdbscan.c'
P('P11', 'Parallel loops have no data races, so results do not depend on scheduling',
  'With OpenMP enabled, no two iterations of a parallel loop access the same memory unless both only read it or both are inside the same kind of mutual exclusion, so a parallel build computes what a serial build computes for every number of threads and every interleaving.',
  ['schedules', 'configurations'], 'all interleavings of all parallel loops of the library and its bindings, any number of threads',
  'The tests are built without OpenMP and would sample a few schedules at most; a race needs two iterations to collide at the right moment.',
  [HD, 'src/distance.c', 'src/undirected_graph.c'],
  [('distances', 'src/distance.c:distance_compute'), ('hierarchy labels', HD + ':hdbscan_compute_hierarchy_and_cluster_tree'), ('prominent clusters', HD + ':hdbscan_find_prominent_clusters'), ('outlier scores', HD + ':hdbscsan_calculate_outlier_scores')],
  'effect and index-dependence analysis of the outlined OpenMP regions in LLVM IR', BASE + 'Stores into containers reached through distinct elements of an array of pointers are assumed distinct (counted as assumed_distinct); one region whose disjointness comes from the data (clusters share no points) is undecided.')

P('P23', 'Inputs handed in by the caller are left as they were',
  'Running the clustering, computing distances, building maps and statistics, and every query, lookup, comparison and printing function only read the data set, labels, keys, elements and structures they are given as inputs: they neither change nor release them, and data handed in by value of a pointer (data set, labels, keys, elements) is not referred to after the call has returned.',
  ['inputs', 'histories'], 'all data sets, labels, containers and calls',
  'Tests do not compare their inputs before and after; a write that depends on the data, or a pointer kept too long, needs a particular input or a later call to be seen.',
  [HD, DST, HT, LST, SETF, LL], [('clustering', HD + ':hdbscan_run'), ('distances', DST + ':distance_compute'), ('cluster map', HD + ':hdbscan_create_cluster_map'), ('lookup', HT + ':hashtable_lookup')],
  'interprocedural effect analysis (mod/ref and escape summaries) of LLVM IR', BASE + 'Removal functions, which write the removed element back by design, are not inputs-only.')

P('P20', 'C and C++ programs see the same structures and functions',
  'In every configuration, each structure and enumeration declared by the public headers has the same size, members, offsets, member types and constants whether the headers are read as C or as C++, and every function of the C library that the headers declare is visible to C++ under the same symbol with the same parameter and result types. So C++ programs and bindings can use what the C library built.',
  ['programs', 'configurations'], 'all structures, enumerations and functions of the public headers, all combinations of index, label and distance type',
  'The tests are either C or C++ with the default configuration and do not read structures filled in by the other language; a layout difference corrupts data only for the programs that mix both.',
  ['include/hdbscan/hdbscan.h', 'include/hdbscan/cluster.h', 'include/hdbscan/outlier_score.h', 'include/hdbscan/distance.h', 'include/hdbscan/undirected_graph.h', 'modules/utils/include/hdbscan/utils.h'],
  [('clustering object', 'include/hdbscan/hdbscan.h:128'), ('outlier score', 'include/hdbscan/outlier_score.h:54'), ('cluster', 'include/hdbscan/cluster.h:54')],
  'comparison of compiler type information (C view against C++ view) of the current headers', 'Complete for the public headers in the 18 supported configurations on this platform ABI.')

UT = 'modules/utils/src/utils.c'
PR = 'modules/collections/src/primes.c'
P('P07', 'Equal keys always hash to the same bucket inside the table',
  'For each key type that a hash table can be created for, the hash of a key is a bucket of the table whatever the key and the number of buckets, reads only the bytes of the key (for strings, up to the end of the string), and is the same whenever two keys compare equal: it depends neither on where the key is stored nor on anything but its value. Numbers of buckets that the prime search proposes are primes, and less than what was asked for unless that is below its smallest prime.',
  ['inputs'], 'all key values of all eight key types, all numbers of buckets, all requests to the prime search',
  'The tests use a few small positive integers and one table size; negative keys, zeros of either sign, equal strings stored twice and other sizes are not sampled.',
  [UT, HT, PR], [('hash functions', UT + ':int_hash'), ('string hash', UT + ':str_hash'), ('choice of hash and key size', HT + ':hashtable_init_size'), ('prime search', PR + ':find_prime_less_than')],
  'abstract interpretation, dependence and constant propagation over LLVM IR of the hash functions and the prime search', BASE)

CLU = 'src/cluster.c'
P('P17', 'Cluster bookkeeping and propagation follow the stated decision table',
  'A new cluster starts with the given label, parent, level and number of points, with nothing satisfied, propagated or detached, and marks its parent as having children. Detaching points lowers the number of points by exactly that many and adds points*(1/level - 1/birth level) to the stability, sets the death level when the last point goes, and refuses more points than there are; propagating a cluster hands its parent either the cluster itself or its selected descendants, with their stability and satisfied constraints: the cluster if it has no children, satisfies more constraints, or as many with at least their stability, else the descendants, and lowers the parent\'s lowest death level to its own or its descendants\' one.',
  ['inputs', 'histories'], 'all clusters, parents, numbers of points, levels, stabilities and numbers of constraints',
  'The tests never look at propagated values; ties, missing parents, equal constraint counts and clusters with and without children need particular trees.',
  [CLU], [('propagation', CLU + ':cluster_propagate'), ('detaching', CLU + ':cluster_detach_points'), ('creation', CLU + ':cluster_init')],
  'abstract interpretation of LLVM IR (record transformers over all paths, real-number normal forms)', BASE + 'Stabilities are assumed not NaN.')

P('P18', 'Propagation visits every cluster once, children before parents',
  'The traversal of the cluster tree starts from every cluster without children, always continues with the highest label left, propagates each cluster it takes once, adds the parent of each unless it was added before, and ends only when no cluster is left. It reports infinite stability exactly if some cluster it propagated has infinite stability.',
  ['inputs', 'histories'], 'all cluster trees with labels increasing from parents to children',
  'The tests have no deep or unbalanced cluster tree; visiting a parent early, losing one or visiting one twice needs such a tree.',
  [HD], [('traversal', HD + ':hdbscan_propagate_tree')],
  'abstract interpretation of LLVM IR with containers as event traces', BASE + 'Set order is P03, label order P31.')

P('P30', 'Each level of the hierarchy takes away exactly the edges of one weight',
  'Levels are formed from the heaviest edge of the spanning tree down: one level takes away every remaining edge of one weight, each once and with its own two ends, until none is left, and notes both ends and the cluster of every edge that is not among noise. A level recorded gets the next number starting from 1, the weight of its edges and the label of every point from just before it, and clusters born at it refer to its number. Everything starts in cluster 1 and the level numbered 0 has every point as noise.',
  ['inputs', 'histories'], 'all spanning trees, with any ties between weights, self edges and numbers of points',
  'No test builds a hierarchy; losing one edge among ties, or recording labels from one level too late, shows only for particular weights.',
  [HD], [('levels', HD + ':hdbscan_compute_hierarchy_and_cluster_tree')],
  'abstract interpretation of LLVM IR with containers as event traces, inductive loop obligations', BASE + 'Assumes edge weights sorted and not NaN; without compaction, as the library always runs it.')

P('P31', 'Clusters are the connected pieces left, numbered as they are created',
  'For every cluster that lost edges the pieces left are explored completely from its own points: a piece with fewer points than required or without edges becomes noise, with the level and the cluster its points left remembered, and when two or more other pieces exist each of them, including the one set aside first, becomes a cluster exactly once. Such a cluster starts at the weight of the level, has the examined cluster as parent, takes all points of its piece with it, and gets the next label, which is its position in the list of clusters. Pieces and candidates never carry points over from an earlier piece or cluster.',
  ['inputs', 'histories'], 'all spanning trees, minimum sizes and combinations of affected clusters',
  'No test builds a hierarchy; carrying state from one examined cluster to the next needs ties in different clusters.',
  [HD, 'src/undirected_graph.c'], [('split', HD + ':hdbscan_compute_hierarchy_and_cluster_tree'), ('creation', HD + ':hdbscan_create_new_cluster'), ('edge removal', 'src/undirected_graph.c:graph_remove_edge')],
  'abstract interpretation of LLVM IR with containers as event traces, inductive loop obligations', BASE + 'Set and list behaviour is P02/P03; the bookkeeping inside clusters P17.')

P('P25', 'Flat labels are those of the selected clusters at the level of their birth',
  'A point gets the label of a cluster selected below the root when the level recorded right after the birth of that cluster gives the point this label; every other point has label 0. Each selected cluster takes part once, whichever order they are listed in and however many were born at one level, and there is one label for every point.',
  ['inputs', 'histories'], 'all selections of clusters, recorded levels and numbers of points',
  'Tests compare the labels of one data set; losing a cluster or point shows only when several clusters are born at one level or lists have particular orders.',
  [HD], [('selection', HD + ':hdbscan_find_prominent_clusters')],
  'abstract interpretation of LLVM IR with containers as event traces, inductive loop obligations', BASE + 'Containers have properties of their own (P01-P07), the selection is P17/P18, the levels P30.')

P('P26', 'Outlier scores follow from the levels at which points became noise',
  'There is one outlier score for every point, with the number of the point, its own core distance, and one minus the ratio of the lowest level at which anything below its last cluster ended to the level at which the point became noise, or 0 when the latter is 0. All scores are sorted by the order of scores, and success is reported exactly when they are there.',
  ['inputs'], 'all levels, last clusters and numbers of points',
  'No test checks the scores; an error in the formula or for a special level shows only for data with duplicates or points that leave a cluster late.',
  [HD, 'src/outlier_score.c'], [('scores', HD + ':hdbscsan_calculate_outlier_scores')],
  'abstract interpretation of LLVM IR, exact rational evaluation of the computed terms', BASE + 'Floating point is treated as real arithmetic; the order of scores itself is P06.')

P('P29', 'The cluster map lists every point of the range under its own label',
  'A map made from labels and a range of points has, for each label that occurs in the range, a list with exactly the points of the range that carry the label, each once, and nothing else; points outside the range do not occur. Maps made through the C++ interface are the same.',
  ['inputs'], 'all labels and all ranges of points',
  'Tests build maps for one clustering and the full range; wrong offsets, lost first or last points show only for other ranges.',
  [HD, 'src/hdbscan.cpp'], [('map', HD + ':hdbscan_create_cluster_map'), ('C++ map', 'src/hdbscan.cpp:createClusterMap')],
  'abstract interpretation of LLVM IR with containers as event traces, inductive loop obligations', BASE + 'Containers have properties of their own (P01-P07).')

P('P10', 'The core distance of every point is its k-th smallest distance',
  'The core distance of a point is the entry at the position given by the number of neighbours, counted from 0, of all distances of that point in ascending order, the zero distance to itself included and tied distances counted as often as they occur. Every point gets one, and nothing outside the working storage is accessed.',
  ['inputs'], 'all numbers of points, numbers of neighbours and distances',
  'Tests look at one data set; ties, wrong search positions and the last points only show for particular orders of distances.',
  [DST], [('core distances', DST + ':distance_get_core_distances')],
  'abstract interpretation of LLVM IR with inferred quantified order invariants of the sorted buffer', BASE + 'Distances not NaN; distances themselves are P08/P09.')

P('P16', 'The spanning tree grows by the closest point in mutual reachability',
  'The tree starts from the last point and attaches one point per step until all are attached: always one whose smallest mutual reachability distance (the greatest of the distance and the two core distances) to the points attached before is least, joined by an edge of that weight to the point that distance was taken to. There is exactly one such edge for every other point and, if self edges are asked for, one more per point with its core distance; success is reported exactly when the graph of these edges was made.',
  ['inputs'], 'all numbers of points, distances and core distances, with and without self edges',
  'No test looks at the spanning tree; a wrong edge changes the result only for particular arrangements of distances and core distances.',
  [HD], [('tree', HD + ':hdbscan_construct_mst')],
  'abstract interpretation of LLVM IR, inductive loop obligations over symbolic distances', BASE + 'Distances not NaN, at least one point; that this greedy construction gives a minimum spanning tree is a theorem about Prim\'s algorithm and not re-proved.')

UG = 'src/undirected_graph.c'
P('P15', 'Edges are sorted by weight with their two ends kept together',
  'Sorting a graph by edge weight leaves the same edges, each still joining the same two points with the same weight, in order of non-decreasing weight, for any number of edges and any weights, equal ones and all-sorted ones included; no range of edges is forgotten and the working storage is never exceeded.',
  ['inputs'], 'all edge lists of equal length with fewer than 2^31 edges, all weights that are not NaN, any choice of the edge compared with',
  'No test sorts a graph directly; the few spanning trees the clustering tests sort do not reach a range of two edges at the end, tied weights on both sides, or weights that differ in the last digits.',
  [UG], [('exchange', UG + ':graph_swap_edges'), ('partition', UG + ':graph_partition'), ('work list', UG + ':graph_quicksort_by_edge_weight')],
  'abstract interpretation of LLVM IR (order relations of entries, inductive partition invariant, work-list obligations)', BASE + 'That partitioning every range of two or more entries around an entry sorts the list is the quicksort argument and not re-proved.')

P('P33', 'Extreme distances of a cluster cover all its points and pairs',
  'For every label of a cluster map the recorded extremes are the smallest core distance other than zero and the greatest core distance over all points of the cluster, and the smallest distance other than zero and the greatest distance over all pairs of its points, whatever the order of the points; a cluster with only zero values keeps zero, and one without pairs keeps the neutral values.',
  ['inputs'], 'all cluster maps, all lists of points in any order, all core distances and distances that are not NaN and not negative, all distance types',
  'The tests only print these values; a pair or point that is skipped, a zero that is kept, or an update that depends on the order of the points shows for particular clusters only.',
  [HD], [('extremes', HD + ':hdbscan_get_min_max_distances')],
  'abstract interpretation of LLVM IR (loop coverage, update rules decided on all order types)', BASE + 'Distances themselves are P08/P09, the map is P29.')

P('P32', 'Cluster statistics, confidences and validity are as defined',
  'For any clusters with recorded extremes, the core distance ratio and the distance ratio of every cluster is its greatest over its smallest value, and the statistics of each are the maximum, mean, variance (over n-1), standard deviation, skewness and kurtosis (third and fourth central moment over n times that power of the deviation, less 3 for kurtosis) over all clusters, with zero for no cluster. The confidence of each cluster is how far its ratio lies below the maximum, in percent of it, and the validity depends on the signs of skewness and kurtosis exactly as tabulated.',
  ['inputs'], 'all numbers of clusters other than one, all ratios, all sign combinations of the four measures, all distance types',
  'The tests look at one data set; a moment with a wrong power, a value left out, a confidence taken from another cluster or a sign case that is off by equality shows for other values only.',
  [HD], [('moments', HD + ':hdbscan_calculate_stats_helper'), ('ratios', HD + ':hdbscan_calculate_stats'), ('assessment', HD + ':hdbscan_analyse_stats')],
  'abstract interpretation of LLVM IR (loop sums summarised, results compared with definitions by identity testing)', BASE + 'Sums are over the reals; rounding is not judged.')

P('P34', 'Clusters are ranked by their own value, labels and values moving together',
  'For any table of clusters and any list of labels (none, empty or given), sorting by confidence or by length returns every label exactly once in ascending order of its own value: its core distance confidence or distance confidence as asked, or its number of points. This holds for any values, tied ones included, and sorting always ends.',
  ['inputs'], 'all numbers of clusters, all value arrays and permutations, ties, both confidences, all three ways to hand in labels, all label and distance types',
  'The tests sort one small result without ties; labels that do not follow their values, a range left out of the recursion or a wrong bound shows only for particular value orders.',
  [HD], [('partition', HD + ':partition'), ('recursion', HD + ':hdbscan_quicksort'), ('by confidence', HD + ':hdbscan_sort_by_similarity'), ('by length', HD + ':hdbscan_sort_by_length')],
  'abstract interpretation of LLVM IR (quantified loop invariants over array ranges, permutation of each stretch between loop heads)', BASE + 'Values are not NaN.')

P('P28', 'Containers and arrays hold elements of the size their users give them',
  'In every supported combination of index, label and distance type, each list, set, table and array the library creates is made for elements (and keys) of exactly the size and kind that everything adding to it, reading from it, comparing its elements or indexing it uses, wherever it travels between creation and use. So no element is cut off, read beyond its end or mixed with its neighbour, whichever types the library is configured with.',
  ['configurations', 'inputs'], 'all 18 combinations of index, label and distance type; all containers, arrays and comparison functions of the library',
  'The tests are built in one configuration in which several of the types have the same size, so an element of the wrong type fits by accident.',
  [HD, DST, HT, LST, SETF, CLU, UG, 'src/outlier_score.c'], [('containers created', HD + ':hdbscan_create_cluster_map'), ('hierarchy', HD + ':hdbscan_compute_hierarchy_and_cluster_tree'), ('cluster lists', CLU + ':cluster_init'), ('edges', UG + ':graph_init')],
  'unification-based type inference over LLVM IR in every configuration (element sizes as cell facts, one instance per call)', BASE + 'Elements reached only through the C++ wrapper or the bindings are not covered.')

P('P19', 'Printed and saved results show every value, whole and under its name',
  'Printing or saving cluster maps, cluster sizes, hierarchies, outlier scores, extreme distances, statistics, distances and graphs shows every value asked for once per position of its range, taken from that position and standing under its own name. In every configuration each number is written with the conversion for its type, and every text fits its buffer whole, for the greatest values those types can hold and for names of any length.',
  ['configurations', 'inputs'], 'all combinations of index, label and distance type, with and without debug output; all values and sizes; file names of any length',
  'The tests throw away what is printed; values that are cut, negative or overrun their buffer appear only for large values, other types or long names.',
  [HD, UG, DST, 'src/hdbscan.cpp', 'modules/utils/src/logger.c'], [('hierarchies', HD + ':hdbscan_print_hierarchies'), ('statistics', HD + ':hdbscan_print_stats'), ('graphs', UG + ':graph_print'), ('log', 'modules/utils/src/logger.c:logger_write')],
  'format strings checked against IR types; abstract interpretation of LLVM IR with symbolic string lengths and loop coverage', BASE + 'The number of digits printed and the layout are not judged; signedness is taken from the compiler\'s type checker.')

P('P12', 'Every piece of storage is released exactly once and never used after',
  'Whatever sequence of runs, reruns, cleaning and destruction a user goes through, the library releases each piece of storage it allocated exactly once: nothing is lost when a result is replaced or destroyed, nothing is released twice, and nothing released is read, written or left referred to. What a function hands to its caller is complete and can be released with the function meant for it.',
  ['histories'], 'all paths of all functions of the library and its C++ wrapper, all sequences of calls through the states they leave, all results of conditions',
  'Tests do not look at storage; a piece lost or released twice shows only in long running programs or in a particular order of calls.',
  [HD, CLU, UG, DST, 'src/hdbscan.cpp'], [('cleaning', HD + ':hdbscan_minimal_clean'), ('rerun', HD + ':hdbscan_rerun'), ('clusters', CLU + ':cluster_destroy'), ('trees', UG + ':graph_clean')],
  'modular ownership analysis of LLVM IR (path-sensitive heap abstraction, inferred owning members, function summaries)', BASE + 'Allocations succeed (P14 decides their failure). The storage inside the containers themselves and of the language bindings is not covered.')

P('P14', 'Running out of memory is reported and harms nothing',
  'Whichever allocation of the clustering library fails, nothing is read from or written to storage that does not exist, no storage already held is lost or released twice, and a run whose results there is no memory for does not report success. A later cleaning or destruction releases everything that is left.',
  ['fault_sequences'], 'each allocation made by the clustering code failing, on all paths that lead to and from it',
  'Allocations do not fail in tests.',
  [HD, CLU, UG, DST, 'src/hdbscan.cpp'], [('hierarchy', HD + ':hdbscan_compute_hierarchy_and_cluster_tree'), ('tree', UG + ':graph_init'), ('clusters', CLU + ':cluster_init'), ('distances', DST + ':distance_compute')],
  'modular ownership analysis of LLVM IR with failing allocations', BASE + 'One allocation fails at a time; the growth of lists and tables succeeds (P01 and P05 decide what they do otherwise).')

P('P24', 'Nothing is read before it was written',
  'No result depends on what storage held before the library used it: every variable and every member of a record the library allocates or sets up is written before it is read, on every path, and every record handed out has all the members that anything reads set.',
  ['inputs', 'histories'], 'all paths of all functions, all records and local variables, all orders of use after a constructor',
  'Fresh storage is often zero in short tests, which hides a member that was never set.',
  [HD, CLU, UG, DST, LST, HT, LL], [('model', HD + ':hdbscan_init'), ('cluster', CLU + ':cluster_init'), ('distances', DST + ':distance_init'), ('list', LST + ':array_list_init')],
  'modular path-sensitive definite-initialisation analysis of LLVM IR', BASE + 'Elements of number arrays are not told apart here.')


P('P35', 'A graph knows every edge from both its ends',
  'A graph made from a list of edges has, for every vertex, a list of its own in which the vertex at the other end of each of its edges stands once per edge; an edge from a vertex to itself stands in it once. Every edge of the list is entered, and the graph keeps the lists it was given.',
  ['inputs'], 'all numbers of vertices from one on, all lists of edges between them, graphs made in given or in own storage',
  'The hierarchy is built by taking edges out and walking the neighbours; an edge known from one end only changes the clusters of a few data sets and raises no error.',
  [UG], [('construction', UG + ':graph_init')],
  'abstract interpretation of LLVM IR (containers as events, loop obligations)', BASE + 'Vertices named by edges exist.')

P('P36', 'The C++ interface carries out the C operation it stands for',
  'Every constructor, destructor and operation of the C++ interface that has a counterpart in the C interface carries that one out exactly once, on the object itself, with every argument in its own place and unchanged, and hands on its result. It does nothing else to the object or its results.',
  ['inputs'], 'all C++ constructors, destructors and operations with a C counterpart, all arguments, all configurations of point, label and distance types',
  'No test uses more than one set of values through C++; arguments that change places or an operation done twice or not at all go unnoticed for equal or default values.',
  ['src/hdbscan.cpp', 'src/distance.cpp', 'src/undirected_graph.cpp'], [('clustering', 'src/hdbscan.cpp:run'), ('distances', 'src/distance.cpp:computeDistance'), ('graph', 'src/undirected_graph.cpp:UndirectedGraph')],
  'abstract interpretation of LLVM IR (library calls as events, call traces compared on every path)', BASE + 'What the C operations do is decided by the other properties.')

P('P37', 'Numbers of points, labels and distances are never cut down on the way',
  'No number of a point, label, position, count or size is kept in or taken through a type too small for it anywhere between input and result, for any data set of up to the number of points the configured types allow (and fewer than 2^31). Distances, stabilities and scores are never rounded to a coarser type than the configured one, and never to whole numbers.',
  ['inputs', 'configurations'], 'all functions of the library and its C++ interface, all configured types of points, labels and distances, all numbers of points below 2^31',
  'Tests use data sets of some hundred points and weights of moderate size; numbers cut down to 8 or 16 bits only differ for larger ones, and rounded distances only for near ties.',
  [HD, CLU, UG, DST, 'src/hdbscan.cpp', 'src/distance.cpp', 'src/outlier_score.c'], [('hierarchy', HD + ':hdbscan_compute_hierarchy_and_cluster_tree'), ('partition', UG + ':graph_partition'), ('map', HD + ':hdbscan_create_cluster_map')],
  'value-range lint over LLVM IR: every narrowing conversion and narrow counter must be bounded', BASE + 'Fewer than 2^31 points; 64 bit sizes are counts of things in memory.')


P('P27', 'A run depends on its data and parameters only, not on earlier runs',
  'Whatever an object was used for before, running it or running it again with another number of points discards the earlier results first and then carries out all steps once each, in order, each with what the earlier ones gave, on the data, type and number of points given; its status is that of the steps. No function of the library keeps anything outside the objects it is given, or asks for the time or random numbers, so equal calls give equal results.',
  ['histories', 'inputs'], 'all objects left behind by earlier runs (successful or not), all data, numbers of points and types, all outcomes of the steps',
  'Tests run an object at most twice with parameters that hide what is left over; leftovers change results only for particular sequences of parameters.',
  [HD], [('steps', HD + ':hdbscan_do_run'), ('run', HD + ':hdbscan_run'), ('again', HD + ':hdbscan_rerun'), ('discarding', HD + ':hdbscan_minimal_clean')],
  'abstract interpretation of LLVM IR (steps as events, order and dataflow between them), global-state lint', BASE + 'What each step does with its inputs is decided by the other properties; the logger module is left out of the global-state lint.')


P('P13', 'Unusable arguments are refused untouched, and the smallest inputs work',
  'Asking for a run without an object, without data, rows or columns, or for a run again with fewer than two points or before any run, gives the error status and changes nothing. Every other request, down to a single point, an empty map or an empty list of labels, asks only for lists with at least one place, as lists require.',
  ['inputs', 'histories'], 'all combinations of unusable and other arguments, all sizes of data sets, maps, clusters and graphs from the smallest on',
  'Tests use complete arguments and data sets of a hundred points or more; a check that misses one argument, or a size that is rounded down to nothing, shows only for the one input.',
  [HD, CLU, UG], [('run', HD + ':hdbscan_run'), ('again', HD + ':hdbscan_rerun'), ('tree', HD + ':hdbscan_construct_mst'), ('sorting', HD + ':hdbscan_sort_by_similarity'), ('clusters', CLU + ':cluster_init'), ('graph', UG + ':graph_init')],
  'abstract interpretation of LLVM IR (refusal paths, numeric lower bounds at list constructors)', BASE + 'Pointers given are valid; steps are only run on objects with at least one point, which the refusals establish.')


# ---- not applicable -------------------------------------------------------------------------------------------------
P('X01', 'The clustering equals the HDBSCAN* result for the data set',
  'For every data set, metric and minimum cluster size, the reported labels, hierarchy and stabilities are those of the HDBSCAN* algorithm.',
  ['inputs'], 'all data sets and parameters',
  'Tests check only containers; no reference results are compared.',
  ['src/hdbscan.c'], [('whole pipeline', 'src/hdbscan.c:hdbscan_do_run')],
  na='An end-to-end functional equivalence over runtime data (heap contents, float values, data-dependent loops): no sound static argument in reach bounds it. Its mechanisms that can be decided from the source are separate properties here.')
P('X02', 'The spanning tree built is a minimum spanning tree',
  'The graph built for the hierarchy is a minimum spanning tree of the mutual reachability graph of the data set.',
  ['inputs'], 'all data sets', 'No test covers it.', ['src/hdbscan.c'], [('tree construction', 'src/hdbscan.c:hdbscan_construct_mst')],
  na='Global optimality of a greedy construction over runtime distances; needs an inductive cut argument over symbolic float arrays that none of the static domains in reach can carry.')
P('X03', 'Selected clusters maximise total stability',
  'The selected flat clustering has the largest total stability among the admissible selections of the cluster tree.',
  ['inputs'], 'all cluster trees', 'No test covers it.', ['src/hdbscan.c', 'src/cluster.c'], [('propagation', 'src/cluster.c:cluster_propagate')],
  na='Optimality over an unbounded tree of runtime stabilities is an inductive semantic proof, not a static-analysis fact.')
P('X04', 'Results are accurate in floating point',
  'Distances, core distances and stabilities are within rounding error of their real-number values for all finite inputs.',
  ['inputs'], 'all finite data', 'No test covers it.', ['src/distance.c'], [('distance', 'src/distance.c:distance_compute')],
  na='Error bounds depend on the number and magnitude of runtime coordinates; no bound exists that holds for every input.')
