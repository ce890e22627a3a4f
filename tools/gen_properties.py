#!/usr/bin/env python3
"""Writes properties.jsonl (kept as data here so that the fields stay uniform)."""
import json, os
P = []
GM = "lib/algorithms/global_mincut/"
MC = "lib/algorithms/multicut/"
PQ = "lib/data_structure/priority_queues/"
T0 = "The only tests that run are five union-find cases; the others need libraries that are absent and sample a few fixed graphs with one seed. "


def p(id, title, st, over, q, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": T0 + why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})


p("P01", "Exact minimum cut value",
  "For every undirected weighted graph with at least two vertices, the exact sequential algorithm reports exactly the weight of a global minimum cut (zero when the graph is disconnected). The answer does not depend on the graph representation, the priority queue, the key limit or the random start vertex.",
  ["inputs", "configurations"], "all graphs, weights, queue kinds, limit settings, random choices",
  "Optimality is a statement about every graph and every weight vector.",
  [GM + "noi_minimum_cut.h", GM + "minimum_cut_helpers.h"],
  [("maximum adjacency scan with limited keys", GM + "noi_minimum_cut.h:modified_capforest"),
   ("contract and re-evaluate minimum degree", GM + "minimum_cut_helpers.h:updateCut")], observe=["perform_minimum_cut return value"])
p("P02", "Saved partition has the reported weight",
  "When an algorithm is asked to save its cut, the per-vertex side marking of the input graph splits the vertices into two non-empty sides, and the weight of the edges between the sides equals the value the algorithm returned.",
  ["inputs", "configurations"], "all graphs and algorithms that can save a cut",
  "The marking is mapped back through every contraction level; only particular weight orders make an inner level the best.",
  [GM + "minimum_cut_helpers.h", GM + "noi_minimum_cut.h", GM + "viecut.h", GM + "matula_approx.h", GM + "padberg_rinaldi.h"],
  [("remember the singleton of the best level and map it back", GM + "minimum_cut_helpers.h:retrieveMinimumCut")],
  observe=["getNodeInCut"])
p("P03", "Heuristics return the weight of a real cut",
  "The heuristic algorithms (label propagation based, local-contraction based, random contraction) always terminate and return the weight of some cut of the input graph, hence never less than the minimum cut; the label propagation and local contraction algorithms never return more than the minimum weighted degree.",
  ["inputs", "configurations"], "all graphs, seeds and random outcomes",
  "The guarantee is over every random outcome.",
  [GM + "viecut.h", GM + "padberg_rinaldi.h", GM + "ks_minimum_cut.h"],
  [("multilevel contraction", GM + "viecut.h"), ("recursive random contraction", GM + "ks_minimum_cut.h")])
p("P04", "Approximation guarantee of the Matula-style algorithm",
  "The approximation algorithm returns the weight of a real cut that is at least the minimum cut and at most (2 + epsilon) times the minimum cut, with epsilon = 0.5.",
  ["inputs"], "all graphs and weights", "A ratio bound is about the worst input.",
  [GM + "matula_approx.h"], [("CAPFOREST with a reduced bound", GM + "matula_approx.h")])
p("P05", "Local contraction tests never lose a minimum cut",
  "Every pair of vertices marked contractible by the local edge and triangle tests with a given upper bound can be merged without losing all cuts lighter than that bound; in the all-minimum-cuts mode no cut of weight equal to the minimum cut is lost at all.",
  ["inputs"], "all graphs, weights and bounds", "The tests compare sums of weights; the failing combinations are boundary equalities.",
  ["lib/coarsening/contraction_tests.h", "lib/parallel/coarsening/contraction_tests.h"],
  [("edge tests", "lib/coarsening/contraction_tests.h:prTests12"), ("triangle tests", "lib/coarsening/contraction_tests.h:prTests34")])
p("P06", "Scan-based contraction never loses a better cut",
  "The vertex merges proposed by the maximum-adjacency scan with bound b never join two vertices that are separated by a cut of weight less than b.",
  ["inputs", "configurations"], "all graphs, bounds, queues and start vertices",
  "The argument rests on the scan order, which differs for each weight vector.",
  [GM + "noi_minimum_cut.h", "lib/parallel/algorithm/exact_parallel_minimum_cut.h"],
  [("scan", GM + "noi_minimum_cut.h:modified_capforest")])
p("P07", "Contraction yields exactly the quotient graph",
  "Contracting a graph by a vertex mapping gives one vertex per block whose edge weights are the sums of the original edge weights between the blocks, without self-loops or duplicate edges, and the original graph records the block of each vertex. All contraction variants (dense, sparse, vertex-set based, edge based, sequential and parallel) agree on this.",
  ["inputs", "schedules"], "all graphs, mappings and thread interleavings",
  "The right result is defined for every mapping; only some mappings and sizes select each variant.",
  ["lib/coarsening/contract_graph.h", "lib/parallel/coarsening/contract_graph.h"],
  [("dense and hash-based aggregation", "lib/coarsening/contract_graph.h"), ("parallel hash aggregation", "lib/parallel/coarsening/contract_graph.h")])
p("P08", "Dynamic graph operations keep a consistent graph",
  "After any sequence of edge insertions, edge deletions, edge contractions, vertex-set contractions, vertex additions and deletions, the dynamic graph equals the one obtained by applying the operations to an abstract weighted graph: adjacency is symmetric, reverse links point back, degrees and edge counts agree, and each original vertex is contained in exactly the vertex it was merged into.",
  ["inputs", "histories"], "all graphs and operation sequences",
  "The links between the two halves of an edge are only wrong after particular sequences.",
  ["lib/data_structure/mutable_graph.h"],
  [("swap-with-last deletion and reverse edge repair", "lib/data_structure/mutable_graph.h:deleteEdge"), ("merge of neighbourhoods", "lib/data_structure/mutable_graph.h:contractEdge")])
p("P09", "Graph conversions and serialisation preserve the graph",
  "Converting between the two graph representations, copying, simplifying, and serialising followed by deserialising yields a graph with the same vertices, the same edge weights (the weights of parallel edges added up) and the same vertex correspondence.",
  ["inputs"], "all graphs and weights", "A round trip must work for every graph shape, including isolated vertices and few edges.",
  ["lib/data_structure/mutable_graph.h"], [("serialize / deserialize", "lib/data_structure/mutable_graph.h"), ("from_graph_access / to_graph_access / simplify", "lib/data_structure/mutable_graph.h")])
p("P10", "Static graph construction and queries",
  "A static graph built vertex by vertex reports exactly the edges it was given: iteration covers each edge once in each direction, and vertex counts, edge counts, weights, degrees and minimum and maximum degree agree with the input.",
  ["inputs"], "all graphs, including isolated vertices anywhere", "Index arithmetic for gaps between vertices depends on where isolated vertices are.",
  ["lib/data_structure/graph_access.h"], [("offset array construction", "lib/data_structure/graph_access.h:new_edge")])
p("P11", "Priority queues return a maximum element",
  "For any sequence of insertions, key changes, deletions and extractions with keys in range, every priority queue holds exactly the inserted, not yet removed elements, reports their current keys, and extracts an element of maximum key.",
  ["inputs", "histories"], "all operation sequences and keys",
  "Wrong positions after a deletion surface only for certain key orders.",
  [PQ + "bucket_pq.h", PQ + "node_bucket_pq.h", PQ + "fifo_node_bucket_pq.h", PQ + "maxNodeHeap.h", PQ + "vecMaxNodeHeap.h"],
  [("binary heap with position index", PQ + "vecMaxNodeHeap.h"), ("bucket queues", PQ + "node_bucket_pq.h")])
p("P12", "Union-find represents exactly the merged partition",
  "After any sequence of unions, two elements have the same representative exactly when a chain of unions connects them, and the number of sets equals the number of elements minus the number of successful unions.",
  ["histories"], "all union sequences", "Five fixed sequences are tested.",
  ["lib/data_structure/union_find.h"], [("path compression and union by rank", "lib/data_structure/union_find.h")])
p("P13", "Concurrent union-find is correct under every interleaving",
  "When threads call union, find and same-set concurrently, under every interleaving all calls terminate, the final partition is exactly the closure of all unions, exactly the reported number of sets remains, and no query reports two elements in one set that no started union connects.",
  ["schedules", "histories"], "all interleavings of up to three threads",
  "The tests run whatever schedule happens; races need a preemption between reading and linking a root.",
  ["lib/parallel/data_structure/union_find.h"], [("compare-and-swap linking of roots", "lib/parallel/data_structure/union_find.h")])
p("P14", "Maximum flow equals the minimum source-sink cut",
  "The flow solvers return the value of a minimum cut between the given source and sinks, the returned source side is a side of such a cut (containing the source and no sink), and reported flows respect capacities and conservation.",
  ["inputs"], "all graphs, capacities and terminals", "Optimality over all capacity vectors.",
  ["lib/algorithms/flow/push_relabel.h", "lib/algorithms/flow/excess_scaling.h", "lib/algorithms/flow/unit_flow.h"],
  [("push-relabel with global relabelling and gap heuristic", "lib/algorithms/flow/push_relabel.h")])
p("P15", "The cactus represents exactly all minimum cuts",
  "The structure returned by the all-minimum-cuts algorithm has each input vertex in exactly one of its nodes, and the cuts of the input graph obtained from minimum cuts of that structure are exactly the minimum cuts of the input graph.",
  ["inputs", "configurations"], "all connected graphs and weights, every edge selection rule",
  "Missing one of exponentially many cuts is invisible to value comparisons.",
  [GM + "cactus/cactus_mincut.h", GM + "cactus/recursive_cactus.h", GM + "cactus/graph_modification.h", GM + "cactus/heavy_edges.h", GM + "cactus/all_cut_local_red.h"],
  [("recursive cactus construction", GM + "cactus/recursive_cactus.h"), ("reductions that keep all minimum cuts", GM + "cactus/all_cut_local_red.h")])
p("P16", "Most balanced minimum cut",
  "The reported most balanced cut is a minimum cut, and no other minimum cut has a smaller side with more vertices.",
  ["inputs"], "all connected graphs", "Requires comparing with all minimum cuts of every graph.",
  [GM + "cactus/most_balanced_minimum_cut.h", GM + "cactus/balanced_cut_dfs.h"], [("traversal of the cactus", GM + "cactus/balanced_cut_dfs.h")])
p("P17", "Dynamic minimum cut equals recomputation",
  "After initialisation and after every edge insertion or deletion the maintained value equals the minimum cut of the current graph.",
  ["inputs", "histories"], "all graphs and update sequences", "Caching makes correctness depend on the whole history.",
  [GM + "dynamic/dynamic_mincut.h", GM + "dynamic/cactus_path.h"], [("cactus maintenance and cached cuts", GM + "dynamic/dynamic_mincut.h")])
p("P18", "Multiterminal cut is optimal",
  "For every weighted graph (connected or not) with two or more terminals, the multiterminal solver returns the minimum total weight of edges whose removal separates all terminals pairwise, and a written solution assigns every vertex a terminal block of exactly that cost.",
  ["inputs", "configurations", "schedules"], "all graphs, terminals, selection rules",
  "Branch and reduce: each pruning rule can lose the optimum on particular weights.",
  [MC + "multiterminal_cut.h", MC + "branch_multicut.h", MC + "edge_selection.h"], [("branch and bound", MC + "branch_multicut.h")])
p("P19", "Multiterminal bounds and kernelisation are safe",
  "For a multiterminal problem, the reported lower and upper bounds enclose the optimum, and applying the reduction rules leaves the optimum of the remaining problem plus the already deleted weight unchanged.",
  ["inputs"], "all graphs and terminals", "Safety of a reduction is a statement about optima of all instances.",
  [MC + "kernelization_criteria.h", MC + "maximum_flow.h", MC + "graph_contraction.h"], [("reduction rules", MC + "kernelization_criteria.h"), ("isolating cuts", MC + "maximum_flow.h")])
p("P20", "Local search never reports a wrong improvement",
  "Local search on a multiterminal solution keeps every terminal in its block, never makes the solution heavier, and reports an improvement equal to the actual change of the cut weight.",
  ["inputs"], "all graphs, solutions", "Incremental gains drift only for specific move orders.",
  [MC + "local_search.h"], [("gain and flow local search", MC + "local_search.h")])
p("P21", "k-core decomposition",
  "The core number computed for each vertex is the largest k for which it belongs to a subgraph of minimum degree k, and extracting the k-core gives exactly the induced subgraph on the vertices of core number at least k.",
  ["inputs"], "all graphs", "Definition quantifies over subgraphs.",
  ["lib/algorithms/misc/core_decomposition.h"], [("bucket peeling", "lib/algorithms/misc/core_decomposition.h")])
p("P22", "Component computations",
  "Connected and strongly connected component routines put two vertices in one component exactly when they are mutually reachable, report the right number of components, and the largest component is extracted with its edges and weights intact.",
  ["inputs"], "all graphs", "Reachability over all graphs.",
  ["lib/algorithms/misc/strongly_connected_components.h"], [("iterative depth-first search", "lib/algorithms/misc/strongly_connected_components.h")])
p("P23", "Bridges and articulation points",
  "The bridge and articulation point routines act exactly on the edges, respectively vertices, whose removal disconnects terminals from the rest as they claim: what they contract or report never lies on a terminal-to-terminal path that has to stay.",
  ["inputs"], "all connected graphs and terminal sets", "Connectivity under removal over all graphs.",
  ["lib/algorithms/misc/find_bridges.h", "lib/algorithms/misc/find_articulation_points.h"], [("low-link numbers", "lib/algorithms/misc/find_articulation_points.h")])
p("P24", "Graph file reading and writing",
  "Reading a well-formed METIS file (with or without weights, comments, isolated vertices and repeated blanks) yields exactly the described graph (self-loops are left out, vertex weights have no effect), and a graph, partition or cut that is written and read again is unchanged.",
  ["inputs"], "all well-formed files up to the size bound", "Parsers fail on unusual but legal spelling.",
  ["lib/io/graph_io.h"], [("line parser", "lib/io/graph_io.h:readGraphWeighted")])
p("P25", "Coarsening mappings are valid",
  "Label propagation, sampling and matching based coarsening map every vertex to exactly one block, the blocks are numbered without gaps, the reverse mapping lists each vertex exactly once under its block, and trivial-cut scanning reports only weights of real cuts.",
  ["inputs", "schedules"], "all graphs, random outcomes and thread interleavings", "Random outcomes and interleavings.",
  ["lib/coarsening/label_propagation.h", "lib/coarsening/sparsify.h", "lib/coarsening/contraction_tests.h", "lib/parallel/coarsening/label_propagation.h", "lib/parallel/coarsening/sparsify.h"],
  [("cluster remapping", "lib/coarsening/label_propagation.h:remap_cluster")])
p("P26", "Parallel exact minimum cut",
  "The shared-memory exact algorithm returns the minimum cut for every graph, every number of threads and every interleaving, and its saved partition has that weight.",
  ["inputs", "schedules"], "all graphs, thread counts and interleavings", "Schedules.",
  ["lib/parallel/algorithm/exact_parallel_minimum_cut.h"], [("concurrent scans with a shared visited array", "lib/parallel/algorithm/exact_parallel_minimum_cut.h")])
p("P27", "Shipping a subproblem between workers preserves it",
  "A multiterminal subproblem that is serialised, sent and received by another worker has the same graph, terminals, bounds, deleted weight and vertex mapping.",
  ["inputs"], "all subproblems", "Only exercised with several processes.",
  [MC + "mpi_communication.h", MC + "multicut_problem.h"], [("flat encoding", MC + "mpi_communication.h")])
p("P28", "Problem queues deliver each subproblem once, best first",
  "A subproblem put into a work queue is handed out exactly once, and under bound ordering a problem with the best bound among those of the queue is handed out first.",
  ["histories", "inputs"], "all sequences of additions and removals", "Order over all bound values.",
  [MC + "problem_queues/per_thread_problem_queue.h", MC + "problem_queues/single_problem_queue.h"], [("heap order", MC + "problem_queues/per_thread_problem_queue.h")])
p("P29", "Extracted subgraphs are induced subgraphs",
  "Extracting a block gives exactly the subgraph induced by its vertices with the edge weights of the original, and the mapping names each vertex correctly.",
  ["inputs"], "all graphs and partitions", "All partitions.",
  ["lib/tools/graph_extractor.h"], [("block extraction", "lib/tools/graph_extractor.h")])
p("P30", "Random helpers stay in their domain",
  "Random integers lie in the requested closed interval, and permutation helpers produce a permutation of the given elements, for every outcome of the generator.",
  ["inputs"], "all generator outcomes", "Tests see one seed.",
  ["lib/tools/random_functions.h"], [("rejection-free ranges, swaps", "lib/tools/random_functions.h")])
p("P31", "Equal neighbourhoods and cliques are what they claim",
  "Vertices reported as having equal neighbourhoods have identical weighted neighbourhoods (apart from each other), and every reported clique is a clique.",
  ["inputs"], "all graphs", "Hash comparisons fail only on colliding inputs.",
  ["lib/algorithms/misc/equal_neighborhood.h", "lib/algorithms/misc/maximal_clique.h"], [("neighbourhood hashes", "lib/algorithms/misc/equal_neighborhood.h")])
p("P32", "Graph utility queries",
  "Breadth-first terminal selection, selection of the top k vertices by degree (k at most the number of vertices) and solution checking return valid results: selected vertices are distinct and of the requested number, reached sets are balls around their centre, and degrees dominate those not selected.",
  ["inputs"], "all graphs", "All graphs.",
  ["lib/algorithms/misc/graph_algorithms.h"], [("selection", "lib/algorithms/misc/graph_algorithms.h")])
p("P33", "Temporal graph files",
  "Reading a stream of edge insertions and deletions yields the same number of vertices and the same sequence of updates as the file describes, ordered by time, updates of equal time in the order of the file.",
  ["inputs"], "all well-formed files", "Spelling and ordering.",
  ["lib/io/graph_io.h"], [("reader", "lib/io/graph_io.h:readTemporalGraph")])
p("P34", "Terminals of a multiterminal problem",
  "The terminals chosen for a multiterminal cut (by identifier, by highest degree, at random, or far from each other) are distinct vertices, as many as asked for where the graph has that many, and each starts an own block. The area grown around a terminal is connected, contains the terminal, is never larger than asked for, is smaller only when it cannot grow, and never takes vertices of another area. A file that gives the assignment is taken over exactly.",
  ["inputs", "configurations"], "all graphs, all ways to choose terminals, all random outcomes",
  "Coinciding choices need particular random draws or graph shapes.",
  [MC + "multiterminal_cut.h"],
  [("choose terminals", MC + "multiterminal_cut.h:setOriginalTerminals")], observe=["terminal list and partition ids handed to the solver"])
p("P35", "Quality metrics match their definition",
  "Edge cut, block weights, boundary counts and balance computed for a partition equal the values obtained from the definition.",
  ["inputs"], "all graphs and partitions", "All partitions.",
  ["lib/tools/quality_metrics.h"], [("edge sums", "lib/tools/quality_metrics.h")])
p("P36", "Command line programs",
  "The programs report what the algorithms guarantee for the graph in the file. mincut prints the minimum cut for the exact algorithms (for the others the weight of a cut, for matula within the factor) in every repetition, uses the chosen priority queue, and the cut it writes has the printed weight (most balanced when asked for); a written cactus holds exactly the minimum cuts. multiterminal_cut prints the optimum, dynamic_mincut the numbers of updates and of changes of the minimum cut (the same in static and dynamic mode), kcore writes the core exactly if its minimum cut is below its minimum degree, largest_cc and temporal_largest_cc write a largest component.",
  ["inputs", "configurations"], "all graph files and combinations of the documented options",
  "Each combination of algorithm, option and graph shape takes other paths.",
  ["app/mincut.cpp", "app/multiterminal_cut.cpp", "app/dynamic_mincut.cpp", "app/kcore.cpp", "app/largest_cc.cpp", "app/temporal_largest_cc.cpp", GM + "algorithms.h"],
  [("choose the algorithm", GM + "algorithms.h:selectMincutAlgorithm"), ("write the cut", "lib/io/graph_io.h:writeCut")],
  observe=["RESULT line", "output files"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
