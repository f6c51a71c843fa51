"""Writes properties.jsonl and MANIFEST.json from the tables below.

    python3 tools/catalog.py
"""

import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
P = []
NA = []


def add(id, title, statement, over, quant, why, files, mech, observe,
        state=None):
    a = {"files": ["pads/%s.py" % f for f in files.split()],
         "mechanism": [{"name": n, "where": "pads/" + w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": "pads/" + w}
                      for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": quant},
              "why_tests_cant": why, "anchors": a})


SIF = "schedules inputs fault_sequences"
HIF = "histories inputs schedules fault_sequences"

add("C01", "Callers in different threads do not disturb each other",
    "Calls made by several threads of one process, each on its own data or "
    "on data that all of them only read, give every caller the answer it "
    "would have got alone. This includes the first calls in a fresh process. "
    "Nothing any caller did not own or ask to change is changed.",
    "schedules inputs fault_sequences",
    "every interleaving of two to four callers at the points where the "
    "interpreter may switch threads, for all entry points and inputs, with "
    "and without a failure in one of them",
    "The tests call each function once, in one thread; module-level tables, "
    "caches, shared defaults and lazily built state are never touched by two "
    "callers at a time.",
    "lca eratosthenes sudoku halin svg sequence union_find permutations "
    "two_satisfiability automata medium",
    [("all working state lives in locals or in the caller's own object",
      "bipartite_matching.py"),
     ("module-level tables are completed before they are published",
      "lca.py"),
     ("defaults that are never modified", "halin.py")],
    ["results and exceptions seen by each caller",
     "contents of the callers' inputs after every phase"],
    [("power-of-two table", "grown on demand and shared by all structures",
      "lca.py")])

add("C02", "Failures reach the caller and leave the library usable",
    "When a call fails part-way because of an interrupt, exhausted memory or "
    "stack, or an exception raised by something the caller supplied, that "
    "same failure reaches the caller: it is neither swallowed nor replaced by "
    "another outcome. The caller's inputs are as they were, and the same call "
    "made again afterwards in the same process gives the right answer.",
    "crash_points inputs fault_sequences schedules",
    "every point at which the interpreter can deliver a signal, fail an "
    "allocation or run out of stack, every call back into caller-supplied "
    "code, all entry points and inputs",
    "No test makes anything fail part-way, so nothing is known about broad "
    "exception handlers, partially filled tables or unfinished clean-up.",
    "chordal permutations eratosthenes read_undirected_graph biconnectivity "
    "bipartite strong_connectivity dfs halin",
    [("exception handlers name only the library's own exceptions",
      "biconnectivity.py"),
     ("inputs are copied before they are taken apart", "halin.py"),
     ("generators release what they hold when closed", "dfs.py")],
    ["the exception object the caller receives", "a retry of the same call",
     "contents of the inputs"])

add("C03", "Streams are independent and may be suspended or abandoned",
    "A stream of results gives the same items however long it is suspended "
    "between them and whatever else the library is asked to do meanwhile, "
    "including other streams over the same data. Items already handed out "
    "that are values of their own stay as they were, and a stream abandoned "
    "part-way leaves nothing behind: its inputs are unchanged and a new "
    "stream starts from the beginning.",
    "schedules inputs histories fault_sequences",
    "every interleaving of streams and other calls at item boundaries, every "
    "point of abandonment, all streaming entry points and inputs",
    "Tests consume each stream at once with list() or islice; none runs two "
    "streams in turns or abandons one and looks at what remains.",
    "dfs bfs lex_bfs eratosthenes permutations integer_partitions lyndon "
    "integerpoints cubic_ham xyz_graph bipartite graphdegeneracy sudoku "
    "bucketqueue",
    [("each stream keeps its state in its own frame", "dfs.py"),
     ("undo stacks restore only the stream's private copy", "cubic_ham.py")],
    ["each item as it is produced and again at the end", "inputs"])

add("C04", "Depth-first and breadth-first search visit exactly what they should",
    "A depth-first search reports every edge and root of the searched part "
    "exactly once with its correct kind and in an order nested as a "
    "depth-first traversal must be; preorder, postorder, reachability and "
    "caller-supplied visit handlers agree with it. A breadth-first search "
    "yields each vertex once, in the level given by its distance from the "
    "root, each level with exactly its edges into the next.",
    SIF, "all directed graphs in any accepted representation, all starting "
    "vertices, consumed in any interleaving, with failures at any point",
    "Tests use a few fixed graphs with one representation and one iteration "
    "order.",
    "dfs bfs",
    [("explicit stack of neighbour iterators", "dfs.py"),
     ("current and next level sets", "bfs.py")],
    ["search", "preorder", "postorder", "reachable", "handler calls",
     "breadth-first levels"])

add("C05", "Components, topological order and reachability match the graph",
    "Strongly connected components partition the vertices into the classes "
    "of mutual reachability, and the condensation has exactly the edges "
    "between classes. A topological order is produced exactly for acyclic "
    "graphs, cyclic ones being refused; it, and any proposed order that is "
    "accepted, lists every vertex once and respects every edge. The "
    "transitive closure and the reachability structure for acyclic graphs "
    "answer every pair correctly.",
    SIF, "all directed graphs, representations, hash orders and "
    "interleavings, with failures at any point",
    "Tests sample a handful of graphs and cannot cover cycle structure or "
    "iteration order.",
    "strong_connectivity partial_order acyclic_reachability",
    [("low-link computation over search events", "strong_connectivity.py"),
     ("postorder reversal verified edge by edge", "partial_order.py"),
     ("bit vectors of reachable sets", "acyclic_reachability.py")],
    ["components", "condensation", "topological order", "acyclicity",
     "closure", "reachability queries"])

add("C06", "Two-satisfiability is decided correctly",
    "A 2-SAT instance given as implications is reported satisfiable exactly "
    "when some assignment satisfies it. For a satisfiable instance the "
    "variables reported as forced, with their values, are exactly those that "
    "have the same value in every satisfying assignment. Completing an "
    "instance with contrapositives does not change its meaning and symbolic "
    "negation is an involution on variables.",
    SIF, "all implication graphs over variables of any hashable kind, all "
    "hash orders and interleavings, with failures at any point",
    "Tests contain a few hand-made instances.",
    "two_satisfiability _not strong_connectivity",
    [("components of the symmetrised implication graph",
      "two_satisfiability.py"), ("negation objects", "_not.py")],
    ["satisfiability", "forced values", "symmetrised instance"])

add("C07", "Biconnectivity, st-orientation and bipartiteness are right",
    "The biconnected components contain every edge exactly once and are the "
    "maximal 2-connected parts; biconnectivity is decided accordingly. An "
    "st-orientation of a biconnected graph is acyclic with one source and one "
    "sink, and other graphs are refused. A two-colouring, "
    "bipartition and orientation are proper exactly for bipartite graphs, "
    "other graphs being refused, and the odd core is exactly the part that "
    "lies on odd cycles.",
    SIF, "all undirected graphs, also disconnected and non-undirected input, "
    "all iteration orders and interleavings, with failures at any point",
    "Tests use small symmetric examples such as cycles and complete graphs.",
    "biconnectivity bipartite",
    [("low numbers over search events", "biconnectivity.py"),
     ("colouring along search edges", "bipartite.py")],
    ["components", "biconnectivity test", "orientation", "colouring",
     "odd core"])

add("C08", "Bipartite matchings, path covers and antichains are optimal",
    "A bipartite matching is a valid matching of maximum size, and comes "
    "with a maximum independent set that certifies it. The edges reported as "
    "unable to take part in a perfect matching are exactly those that cannot. "
    "For acyclic graphs the path and chain decompositions are disjoint, cover "
    "every vertex and are minimum, and the antichain is a maximum one.",
    SIF, "all bipartite graphs and partial orders up to the bounds, all "
    "iteration orders and interleavings, with failures at any point",
    "Optimality over all graphs and all orders of exploration cannot be "
    "settled by the few sampled graphs.",
    "bipartite_matching partial_order",
    [("layered augmentation", "bipartite_matching.py"),
     ("Koenig certificate", "bipartite_matching.py"),
     ("Dilworth decomposition from a matching", "partial_order.py")],
    ["matching, independent set", "imperfections", "path and chain "
     "decompositions", "antichain"])

add("C09", "General matchings are valid and maximum",
    "The matching computed for an undirected graph is symmetric, uses only "
    "edges of the graph and has maximum size, whichever valid partial "
    "matching it starts from. The greedy matching is a valid maximal matching "
    "that keeps nothing the graph does not have. A matching supplied by the "
    "caller to start from is not modified.",
    SIF, "all undirected graphs up to the bounds, all starting matchings, "
    "iteration orders and interleavings, with failures at any point",
    "Blossom handling depends on the order of exploration; tests cover a "
    "few regular graphs.",
    "cardinality_matching union_find",
    [("blossom contraction by union-find", "cardinality_matching.py"),
     ("degree-one and degree-two reductions", "cardinality_matching.py")],
    ["matching", "greedy matching", "the caller's initial matching"])

add("C10", "All Hamiltonian cycles of a cubic graph, each exactly once",
    "For a graph in which every vertex has three neighbours, the stream of "
    "Hamiltonian cycles contains each Hamiltonian cycle exactly once, as a "
    "graph on the same vertices, and nothing else. Other graphs are refused. "
    "Each cycle handed out remains intact while the stream goes on.",
    SIF, "all cubic graphs up to the bounds, all iteration orders and "
    "interleavings, abandonment and failure at any point",
    "The backtracking search undoes its own changes; tests compare only "
    "counts of a few graphs.",
    "cubic_ham",
    [("undo stack of forced and removed edges", "cubic_ham.py"),
     ("triangle contraction and expansion", "cubic_ham.py")],
    ["each cycle yielded"])

add("C11", "Minimum spanning trees span with minimum weight",
    "For an undirected weighted graph the result has only edges of the "
    "graph, connects exactly what the graph connects, contains no cycle and "
    "has minimum total weight, for weights and vertices of any comparable or "
    "hashable kind. Graphs with edges in one direction only are refused.",
    SIF, "all weighted undirected graphs up to the bounds, ties included, "
    "all iteration orders and interleavings, comparisons that fail",
    "Tests use one or two weightings; ties and exotic weights are absent.",
    "minimum_spanning_tree union_find",
    [("Kruskal with union-find", "minimum_spanning_tree.py")],
    ["list of tree edges"])

add("C12", "Degeneracy, cores and triangles match their definitions",
    "The degeneracy order, degeneracy and orientation satisfy their "
    "definition: each vertex has at most that many later neighbours and no "
    "order does better. The k-core is the largest subgraph of minimum degree "
    "at least k, for given and for default k. Every triangle is listed "
    "exactly once.",
    SIF, "all undirected graphs up to the bounds, all k, iteration orders "
    "and interleavings, with failures at any point",
    "Tests check a few graphs, and none where the greedy order has ties.",
    "graphdegeneracy bucketqueue",
    [("bucket queue of remaining degrees", "graphdegeneracy.py")],
    ["degeneracy sequence and number", "orientation", "core", "triangles"])

add("C13", "Lexicographic search and chordality are right",
    "The lexicographic breadth-first order visits every vertex once and at "
    "each step takes a vertex with lexicographically greatest set of visited "
    "neighbours. A perfect elimination order is returned exactly for chordal "
    "graphs and is one; other graphs are refused, and the chordality test "
    "agrees.",
    SIF, "all undirected graphs up to the bounds, all iteration orders and "
    "interleavings, with failures at any point",
    "Correctness depends on how the refined classes are ordered; tests have "
    "a few graphs.",
    "lex_bfs chordal partition_refinement sequence",
    [("partition refinement in a linked sequence", "lex_bfs.py"),
     ("elimination check", "chordal.py")],
    ["order", "elimination order", "chordality"])

add("C14", "Reducible cubic graphs are recognised and reconstructed",
    "Recognition of reducible, Halin, dual-3-tree and wheel graphs accepts "
    "exactly the members of each class. Hooks of the caller are called for "
    "every reduction, with the neighbourhoods as they are at that moment, and "
    "can veto it; reconstruction replays them in reverse order. A Hamiltonian "
    "cycle and the outer leaves reported for an accepted graph are ones of "
    "that graph.",
    SIF, "all graphs built by random expansions or damaged ones, all "
    "reduction orders, with hooks that veto or fail at any call",
    "Tests use a few named graphs with the default hooks.",
    "halin",
    [("triangle and path reductions on a private copy", "halin.py"),
     ("hook lists extended per call", "halin.py")],
    ["recognition", "hook call sequence", "reconstruction results"])

add("C15", "Partial cubes and media are recognised and routed correctly",
    "A graph is accepted as a partial cube exactly when it is one, and its "
    "labelling makes Hamming distance equal graph distance. A medium answers "
    "every token application and reverse as its transition structure says, "
    "routing tables lead from every state to every other by a shortest path, "
    "and the hypercube embedding is isometric. Labelled graphs whose "
    "tokens have no consistent action and reverse are refused.",
    SIF, "all small graphs and media including near misses, all vertex "
    "kinds, iteration orders and interleavings, with failures at any point",
    "Tests use permutation graphs and a hexagon; no near misses.",
    "partial_cube medium",
    [("bit-parallel search and label verification", "partial_cube.py"),
     ("depth-first routing with active tokens", "medium.py")],
    ["labels", "refusal", "state transitions", "routing tables",
     "embedding"])

add("C16", "Regular-language operations preserve and decide languages",
    "Parsing an expression, converting between kinds of automata, minimising, "
    "reversing, complementing, uniting, intersecting and writing out an "
    "expression again all give machines that accept exactly the words they "
    "should. Equality, inclusion and emptiness of languages are decided "
    "correctly, and a minimised machine has the least possible number of "
    "states. Malformed expressions are refused with the documented error.",
    SIF, "all expressions and tables up to the bounds, all plans of "
    "operations, all words up to the bounds, hash orders and interleavings",
    "Tests compare a dozen expressions.",
    "automata partition_refinement",
    [("subset and product constructions", "automata.py"),
     ("Hopcroft refinement", "automata.py"),
     ("state elimination for expressions", "automata.py")],
    ["membership", "comparison operators", "number of states",
     "printed form"])

add("C17", "Reachability by nonrepetitive paths is right",
    "For edges carrying labels, call a walk nonrepetitive if no two "
    "consecutive edges of it carry the same label. Which edges lie on "
    "nonrepetitive cycles, which vertices are reached by nonrepetitive walks, "
    "and the shortest such walk between labelled endpoints agree with what "
    "an exhaustive search over the labelled graph finds, and impossible "
    "requests are refused.",
    SIF, "all small labelled graphs, queries in any order by any number of "
    "callers, with failures at any point",
    "One fixed example in the tests.",
    "repetitivity",
    [("gadgets that join the labels meeting at a vertex",
      "repetitivity.py")],
    ["cyclicity", "reachability", "shortest representation"])

add("C18", "Range minima and lowest common ancestors are right",
    "Every range-minimum structure returns the least element of any "
    "non-empty slice it is asked for, and the lowest-common-ancestor "
    "structures, online and offline, return the deepest shared ancestor of "
    "any two nodes of a forest. Answers do not depend on which structures "
    "were built or queried before, nor on what other callers do. Parent "
    "relations that are not trees are refused.",
    SIF, "all sequences and trees up to the bounds, all queries by several "
    "callers of one or several structures, with failures at any point",
    "Tests query a few fixed arrays and trees from one thread.",
    "lca union_find",
    [("sparse and block tables", "lca.py"),
     ("shared logarithm table", "lca.py"),
     ("Euler tour with range minima", "lca.py")],
    ["slice minima", "pairwise ancestors", "offline answers"])

add("C19", "Cubic graph edge partitions and xyz embeddings are right",
    "The partitions of a cubic graph into three perfect matchings are listed "
    "completely and each once. The xyz embeddings listed are exactly those "
    "partitions in which any two vertices share at most one cycle of two "
    "colours, and graphs that are not cubic or not connected are treated as "
    "documented. A set of points is told to be an xyz graph just when each "
    "axis-parallel line meets it in no point or in two.",
    SIF, "all cubic graphs up to the bounds, iteration orders and "
    "interleavings, abandonment and failures at any point",
    "Tests check two graphs.",
    "xyz_graph cubic_ham",
    [("partitions from matchings complementary to even cycles",
      "xyz_graph.py"), ("cycle grouping", "xyz_graph.py")],
    ["partitions", "embeddings"])

add("C20", "Integer heaps behave as sets of integers with a minimum",
    "After any history of insertions and removals of integers in range, "
    "membership of the heap's minimum, truth value and minimum agree with "
    "those of a set of integers, for every size of heap. Numbers out of range "
    "and the minimum of an empty heap are refused, and neither that nor "
    "removing what is not there changes anything.",
    HIF, "all histories of operations on heaps of all word sizes, with "
    "rejected operations and failures between and within them",
    "Tests run one random history for one size.",
    "integer_heap",
    [("recursive halving of the word", "integer_heap.py"),
     ("lazy insertion of minimum and maximum", "integer_heap.py")],
    ["minimum", "truth value", "refusals"])

add("C21", "Bucket queues deliver items in priority order",
    "After any history of setting, changing and deleting priorities, the "
    "queue contains exactly the items set and not removed, each with its "
    "latest priority. Iterating over it delivers the items in nondecreasing "
    "order of current priority, also when priorities of remaining items "
    "change or items are removed while it is being iterated.",
    HIF, "all histories, including changes during iteration, rejected "
    "operations, keys whose hashing fails and failures at any point",
    "Tests insert once and read once.",
    "bucketqueue",
    [("one set per priority and a running minimum", "bucketqueue.py")],
    ["item lookup", "iteration", "refusals"])

add("C22", "Union-find represents exactly the unions performed",
    "After any history of unions two objects have the same representative "
    "exactly when a chain of unions joins them, for objects of any hashable "
    "kind, comparable or not. Looking an object up never changes the classes, "
    "also when several callers look up at once, and iterating lists every "
    "object seen.",
    HIF, "all histories of unions and lookups, several callers looking up "
    "at once, with failures at any point",
    "Tests do one sequence on integers.",
    "union_find",
    [("path compression and weighted union", "union_find.py")],
    ["representatives", "iteration"])

add("C23", "Linked sequences keep their order through any edits",
    "After any history of appends, insertions before or after a member and "
    "removals, iteration, indexing, successor, predecessor and length agree "
    "with a plain list, for plain and for keyed sequences. Order-maintaining "
    "sequences compare any two members by their current position, however "
    "many insertions fall in one place. Illegal edits and lookups are refused "
    "and change nothing.",
    HIF, "all histories up to the bounds, including renumbering hot spots, "
    "keys that fail or coincide, and failures at any point",
    "Renumbering starts only after dozens of insertions in one place; tests "
    "perform a few.",
    "sequence ordered_sequence",
    [("doubly linked dictionaries", "sequence.py"),
     ("integer tags with local renumbering", "ordered_sequence.py")],
    ["iteration", "indexing", "neighbours", "comparison", "refusals"])

add("C24", "Partition refinement splits exactly as asked",
    "After any history of refinements, additions, removals and freezing, the "
    "classes are those of the corresponding mathematical partition, every "
    "element is found in its class, and each refinement reports exactly the "
    "pairs of classes it split. Operations on frozen or foreign classes are "
    "refused and change nothing.",
    HIF, "all histories of operations, with failing element sources, "
    "rejected operations and failures at any point",
    "Tests refine once or twice.",
    "partition_refinement",
    [("sets keyed by identity", "partition_refinement.py")],
    ["classes", "element lookup", "reported splits", "refusals"])

add("C25", "Sorted sets list their items in order",
    "After any history of additions, removals and changed items announced to "
    "the set, listing it gives exactly its items, each once, in the order of "
    "the items or of the given comparison. Membership and length agree with "
    "a set, and refused operations change nothing.",
    HIF, "all histories, with comparisons that fail and failures between "
    "and within operations",
    "Tests add a few integers.",
    "sorted_set",
    [("stable list plus set of moved items", "sorted_set.py")],
    ["iteration", "membership", "length", "refusals"])

add("C26", "Frequency estimates stay within their guarantee",
    "After any stream, the estimated frequency of every item (its share of "
    "the stream) differs from the true one by no more than the promised "
    "accuracy; the number of items held never exceeds the promised bound. "
    "An item that could not be counted leaves the estimates as if it had not "
    "been there.",
    HIF, "all streams up to the bounds and all accuracies, items whose hash "
    "fails, and failures at any point",
    "One stream in the tests.",
    "frequencyestimator",
    [("Misra-Gries counters", "frequencyestimator.py")],
    ["estimates", "iteration", "total"])

add("C27", "Prime, factorisation and practical-number streams are exact",
    "The streams of primes, factored integers, Moebius values and practical "
    "numbers agree item by item with their definitions for as long as they "
    "are read. Single Moebius values and practicality tests agree with them "
    "in whatever order and from whichever thread they are asked.",
    SIF, "all prefixes, any number of streams read in turns, abandoned and "
    "restarted, values asked in any order by several callers, failures at any "
    "point",
    "Tests read one prefix of one stream.",
    "eratosthenes",
    [("incremental sieve dictionaries", "eratosthenes.py"),
     ("memo of Moebius values", "eratosthenes.py")],
    ["stream items", "single values"])

add("C28", "Permutation and involution streams are complete and adjacent",
    "Each stream of permutations lists every permutation (every involution, "
    "every Stirling permutation, every doubled arrangement) of its size "
    "exactly once, consecutive ones differing by the promised kind of swap, "
    "and the stream of positions describes exactly those swaps.",
    SIF, "all sizes up to the bounds, any number of streams in turns, "
    "abandonment, item sources that fail, failures at any point",
    "Tests check sizes up to four or five read at once.",
    "permutations",
    [("recursive generators driving each other", "permutations.py")],
    ["stream items", "swap positions"])

add("C29", "Integer partition streams are complete and in order",
    "Each stream of partitions lists every partition of the number in its "
    "class (all, fixed length, powers of two) exactly once and in the "
    "documented order, including the degenerate sizes. Conjugation of a "
    "partition is the transposed partition.",
    SIF, "all sizes up to the bounds, any number of streams in turns, "
    "abandonment and failures at any point",
    "Tests count the partitions of a few numbers.",
    "integer_partitions",
    [("in-place modification with copies handed out or documented",
      "integer_partitions.py")],
    ["stream items", "conjugates"])

add("C30", "Lyndon words, factorisations and de Bruijn sequences are right",
    "The streams of Lyndon words list exactly the Lyndon words of the asked "
    "alphabet and lengths, once and in order, and the counts agree. A de "
    "Bruijn sequence contains every word of its length exactly once "
    "cyclically. Factorisation into Lyndon words, least suffix, least "
    "rotation and the Lyndon test agree with their definitions for any "
    "sequence of comparable symbols.",
    SIF, "all small alphabets and lengths, all short sequences, comparisons "
    "that fail, streams in turns, abandonment and failures at any point",
    "Tests sample short binary words.",
    "lyndon eratosthenes",
    [("Duval's algorithms", "lyndon.py")],
    ["stream items", "counts", "factors", "rotations"])

add("C31", "Integer points are enumerated in order of distance",
    "The stream of points of the integer lattice lists every point exactly "
    "once, never a nearer one after a farther one.",
    SIF, "all prefixes up to the bounds, several streams in turns, "
    "abandonment and failures at any point",
    "The test reads one prefix.",
    "integerpoints",
    [("priority queue of convex layers", "integerpoints.py")],
    ["stream items"])

add("C32", "Graph files are read exactly or refused",
    "A graph written in any of the supported text formats (adjacency list, "
    "edge list, node and edge list, GraphML, graph6, sparse6, LEDA) is read "
    "back as the same graph, whether given as text, lines or an open file, "
    "with the format recognised from the contents. Text that breaks the rules "
    "of its format is refused with the documented error, a failing file's "
    "error reaches the caller, and a truncated or damaged text never gives a "
    "graph that its contents do not describe.",
    "inputs fault_sequences crash_points schedules",
    "all small graphs in all formats and spellings, reads that fail or stop "
    "at any line, damaged text, failures at any point",
    "Tests read one sample per format.",
    "read_undirected_graph",
    [("format sniffing on the first lines", "read_undirected_graph.py"),
     ("bit unpacking for the compact formats", "read_undirected_graph.py")],
    ["graph returned", "error raised"])

add("C33", "Drawings are well-formed and show what was drawn",
    "A drawing written to an output is a well-formed document containing "
    "exactly the elements drawn, with their geometry, style and nesting, in "
    "order, and nothing is written after it is closed. When the output fails, "
    "its error reaches the caller, and other drawings are not affected.",
    "inputs histories fault_sequences schedules",
    "all sequences of drawing calls, outputs that fail at any write, several "
    "drawings at once, failures at any point",
    "There are no tests of drawing.",
    "svg",
    [("indentation and open-group state per drawing", "svg.py")],
    ["parsed document text"])

add("C34", "Sudoku deductions are sound and solutions complete",
    "Every deduction step keeps each solution of the puzzle that the rule in "
    "use must keep, a puzzle without solutions is refused rather than "
    "completed, and the listing of solutions gives each solution that "
    "respects the caller's exclusions exactly once. Placing digits by hand is "
    "refused when it contradicts what is there, and the placements and "
    "exclusions described in the log are those made. Permuting a puzzle permutes its solutions.",
    "inputs histories schedules fault_sequences",
    "puzzles with few or many solutions or none, all deduction orders the "
    "engine takes, explanation outputs that fail, several solvers at once",
    "The tests solve one or two puzzles to the end.",
    "sudoku two_satisfiability bipartite_matching strong_connectivity",
    [("bit masks of possible cells per digit", "sudoku.py"),
     ("deduction rules", "sudoku.py"), ("backtracking over copies",
                                        "sudoku.py")],
    ["solutions listed", "cells after each step", "refusals"])

add("C35", "Dynamic minima and line breaking are optimal",
    "A growing table of minima over a concave cost function gives at every "
    "index the true minimum and a place attaining it, whatever order values "
    "are asked in and even if the cost function failed before; the minimum of "
    "every column of a totally monotone matrix is found in its first row "
    "that attains it. Wrapped text keeps its "
    "words in order and has the least total penalty among all ways to break "
    "it under the given widths and penalties.",
    SIF, "all small concave costs, totally monotone matrices, texts and "
    "penalties, failing cost functions, several callers at once",
    "Tests compare a few tables and one paragraph.",
    "smawk wrap",
    [("online column reduction with tentative minima", "smawk.py"),
     ("recursive row reduction", "smawk.py"),
     ("penalty function over the online minima", "wrap.py")],
    ["value", "index", "column minima", "wrapped lines"])

add("C36", "Large and deep inputs do not exhaust the caller's stack",
    "Search, components, orders, reachability, matchings, ancestors, union, "
    "2-SAT, linked sequences, Lyndon factors, subsequences and line breaking "
    "give right answers on long paths, deep trees, deeply nested odd cycles "
    "and long sequences using a bounded number of stack frames, even when the "
    "caller has little stack left.",
    "inputs configurations fault_sequences",
    "paths, cycles, trees, nested odd cycles, chains of unions and "
    "implications and sequences longer than the stack frames left to the library",
    "Test inputs are small, and the default stack hides recursion up to "
    "hundreds of levels.",
    "dfs strong_connectivity biconnectivity partial_order "
    "acyclic_reachability bipartite bipartite_matching cardinality_matching "
    "lca union_find two_satisfiability",
    [("explicit stacks instead of recursion", "dfs.py")],
    ["answers under a limited stack"])

add("C37", "Basic graph functions respect the graph they are given",
    "Copies, unions and induced subgraphs have exactly the vertices and "
    "edges they should, in adjacency collections of the kind asked for, and "
    "share nothing with their source. Undirectedness, degrees and "
    "independence are decided correctly, and picking an arbitrary item gives "
    "one of those there, an empty collection being refused.",
    SIF, "all directed and undirected graphs in all representations, vertex "
    "subsets and factories, including factories that fail, interleavings and "
    "failures at any point",
    "Tests use tiny graphs with the default collection type.",
    "graphs util",
    [("copying by the given factory", "graphs.py")],
    ["resulting graphs", "predicates", "the source graph afterwards"])

add("C38", "Longest common and increasing subsequences are longest",
    "The longest common subsequence returned for two sequences is a "
    "subsequence of both and no common one is longer. The longest increasing "
    "subsequence strictly increases, is as long as possible, and among the "
    "longest ones ends with the smallest value, at its earliest occurrence "
    "that can end one.",
    SIF, "all short sequences of comparable items, given as lists, strings "
    "or one-time iterators, comparisons that fail, interleavings and failures "
    "at any point",
    "Tests use three or four words; ties and items that are equal but "
    "distinct are absent.",
    "lcs longest_increasing_subsequence",
    [("table of prefix lengths with backtracking", "lcs.py"),
     ("heads and linked tails", "longest_increasing_subsequence.py")],
    ["returned sequences"])

add("C39", "Circle packings touch as prescribed",
    "For a triangulated disk the packing gives every outer circle the "
    "prescribed radius, makes all prescribed pairs of circles tangent and lets "
    "the neighbours of every inner circle go round it exactly once. Scaling "
    "and inversion keep tangency; inverting around a circle puts the others "
    "inside it with the smallest radius, or the smallest of chosen circles, "
    "as large as possible. Radii that are "
    "not positive and circles given as both inner and outer are refused.",
    SIF, "all small triangulated disks, outer radii and orientations, "
    "interleavings and failures at any point",
    "There are no tests of circle packings.",
    "circle_pack",
    [("relaxation of radii", "circle_pack.py"),
     ("placement around placed circles", "circle_pack.py")],
    ["centres and radii", "refusals"])

add("C40", "The named example graphs are the graphs they are named after",
    "Every named example graph is undirected, cubic and connected with the "
    "order, girth, diameter and bipartiteness of the graph it is named after, "
    "and stays so whatever the library computes from it. The parametrised "
    "families have exactly the edges of their definitions.",
    SIF, "all example graphs before, during and after use by other parts of "
    "the library, all parameters up to the bounds",
    "Tests use a few of the examples as inputs and never examine them.",
    "graph_examples",
    [("module-level constants shared by all callers", "graph_examples.py")],
    ["edges", "girth", "diameter"])

add("C41", "Sudoku puzzles are read, printed and generated faithfully",
    "A puzzle read from text has the digits of the text in their places, "
    "whatever characters stand for empty cells and whatever other characters "
    "stand between. Each output format shows exactly the digits of the grid in "
    "their places. A generated puzzle has exactly one solution, none of its "
    "clues (of its symmetric pairs of clues) can be left out, and it is "
    "symmetric if asked for.",
    "inputs fault_sequences schedules",
    "all grids, spellings and formats, input and output that fail, failures "
    "at any point",
    "There are no tests of reading, printing or generating.",
    "sudoku svg",
    [("clue removal with uniqueness test", "sudoku.py"),
     ("formatters writing to standard output", "sudoku.py")],
    ["grid read", "printed text", "generated puzzle"])

add("C43", "The puzzle program does what its options say",
    "Run as a program, the puzzle solver reads a puzzle from its input and "
    "prints, in the chosen format, the puzzle, its solution, all its solutions, "
    "a rearranged puzzle or a blank grid as its options ask, with puzzle and "
    "solution set apart. Digits printed belong to the solution, the number of "
    "solutions is right, and the rules named are those used, and a puzzle is rated "
    "impossible just when it was not completed without trial and error. Input and output errors are not hidden, "
    "and usage errors are answered with a message.",
    "inputs fault_sequences",
    "puzzles with one, several or no solutions, all option sets, input and "
    "output that fail at any call, failures at any point",
    "There are no tests of the program.",
    "sudoku",
    [("option handling and main program", "sudoku.py")],
    ["printed text", "exit status"])

add("C42", "Work grows as documented",
    "Searches, components, orders, spanning forests, greedy matchings, range "
    "minima, ancestors and the unions, insertions and stream items do work "
    "that grows nearly in proportion to the size of their input. Queries "
    "documented as constant do not cost more in larger structures, complete "
    "listings cost a bounded average per item, and integer heaps cost in "
    "proportion to the logarithm of the word length.",
    "inputs configurations fault_sequences",
    "families of growing inputs in adversarial and random arrangements, two "
    "sizes each, work counted in interpreter steps of the library or in "
    "calls of the caller's cost function, also after a failure",
    "Tests look only at answers; a lost balance or compression step leaves "
    "every answer right.",
    "union_find lca dfs strong_connectivity biconnectivity lex_bfs "
    "graphdegeneracy ordered_sequence partition_refinement sequence "
    "frequencyestimator smawk integer_heap permutations integer_partitions "
    "eratosthenes integerpoints",
    [("path compression and weighted union", "union_find.py"),
     ("local renumbering", "ordered_sequence.py"),
     ("block decomposition", "lca.py")],
    ["interpreter steps", "calls of caller-supplied functions"])


QUICK = "VERIF_TIER=quick python3 -m sim.run %s"
THOROUGH = "VERIF_TIER=thorough python3 -m sim.run %s"
TECH = ("deterministic simulation: seeded search over inputs, hash orders, "
        "caller interleavings (%s) and injected faults (%s), judged by an "
        "independent oracle in every phase")


def manifest():
    from sim.props import PROPS
    checks = []
    for p in P:
        pr = PROPS[p["id"]]
        modes = "/".join(m for _, m in pr.modes)
        faults = ", ".join(sorted(pr.faults))
        checks.append({
            "property": p["id"],
            "quick_cmd": QUICK % p["id"],
            "thorough_cmd": THOROUGH % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": TECH % (modes, faults),
            "level": "exploration",
            "level_note": "%d simulated runs (quick), %d (thorough); within "
                          "these bounds a sample, not a proof" % pr.runs})
    return {"version": 1, "setup_cmd": "python3 -c 'import sim.props'",
            "checks": checks,
            "not_applicable": [{"property": i, "reason": r} for i, r in NA],
            "notes": "Stdlib-only simulator; needs CPython 3.12 "
                     "(sys.monitoring). No hooks in /repo. A failure's replay "
                     "file is replayed with python3 -m sim.run --replay FILE."}


def main():
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for f in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + f), f
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest(), f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
