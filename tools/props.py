G = "dhg/structure/graphs/graph.py"
D = "dhg/structure/graphs/directed_graph.py"
B = "dhg/structure/graphs/bipartite_graph.py"
HG = "dhg/structure/hypergraphs/hypergraph.py"
BASE = "dhg/structure/base.py"

PROPS = []


def P(id, title, statement, over, q, why, files, mech, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, note=note, **kw))


P("P01", "Undirected graph views always equal the history of edits",
  "After any sequence of adding (one or many edges, with or without weights, merge by mean/max/sum), removing, clearing and self-loop edits, every read view of an undirected graph (edge list and counts, both-sided edge list, adjacency, degree matrices and their inverses, degrees, neighbours at any hop count, Laplacians, edge tensors) equals what the surviving weighted edges define from scratch. Edges are unordered pairs, a repeated edge is merged with the current weight by the chosen operation, a self-loop counts once on the diagonal, and the extra self-loop adds one more per vertex. Reading any view at any moment never changes the answer of a later read.",
  ["histories", "inputs"], "all edit histories interleaved with reads, all vertex counts, weights and merge operations",
  "Tests check a few fixed edit sequences and mostly read each view once; a stale cached view or a wrong merge shows only in particular interleavings of reads and edits.",
  [G, BASE], [("edge dictionary, merge and cache invalidation", BASE + ":BaseGraph"), ("cached views", G + ":Graph")],
  "thousands of random edit histories on small graphs plus larger graphs; every view compared with an independent model after random subsets of reads; sampling, not exhaustive")
P("P02", "Directed graph views always equal the history of edits",
  "After any sequence of adding (merge by mean/max/sum), removing, clearing, self-loop edits and direction reversals, every read view of a directed graph (edge list and counts, adjacency and its transpose, in/out degree matrices and their inverses, in/out neighbours, source/destination/weight tensors) equals what the surviving weighted arcs define from scratch. Reversing swaps the ends of every arc and keeps its weight; (u, v) and (v, u) are different arcs. Reading any view at any moment never changes the answer of a later read.",
  ["histories", "inputs"], "all edit histories interleaved with reads, all vertex counts, weights and merge operations",
  "Tests check a few fixed sequences; stale caches after an edit or a reversal need particular read/edit interleavings.",
  [D, BASE], [("edge dictionary, merge and cache invalidation", BASE + ":BaseGraph"), ("cached views, reversal", D + ":DiGraph")],
  "thousands of random edit histories against an independent model; sampling, not exhaustive")
P("P03", "Bipartite graph views always equal the history of edits",
  "After any sequence of adding (merge by mean/max/sum), removing, clearing and swapping the two sides, every read view of a bipartite graph (edge list and counts of both sides, incidence matrix and transpose, full adjacency, degree matrices and inverses of both sides, degrees, neighbours across sides, GCN operator, edge tensors) equals what the surviving weighted edges define from scratch. Swapping the sides yields a new graph whose incidence matrix is the transpose. Reading any view at any moment never changes the answer of a later read.",
  ["histories", "inputs"], "all edit histories interleaved with reads, all side sizes, weights and merge operations",
  "Tests use a handful of fixed graphs; unequal side sizes, empty rows and read/edit interleavings are sampled barely.",
  [B, BASE], [("edge dictionary and merge", B + ":BiGraph._add_edge"), ("cached views, swap", B + ":BiGraph")],
  "thousands of random edit histories against an independent model; sampling, not exhaustive")
P("P04", "Hypergraph views always equal the history of edits, per group and overall",
  "After any sequence of adding hyperedges to named groups (vertex order irrelevant, repeated hyperedge merged by mean/max/sum), removing them from one or all groups, removing groups, clearing and assigning vertex weights, every read view (hyperedges and weights, counts, groups, incidence matrix and transpose, weight matrices, vertex degrees weighted by hyperedge weight, hyperedge sizes, their inverses, neighbours, connection tensors) equals what the surviving hyperedges define from scratch, for each group and for all groups together. Column j of the incidence and weight matrices describes the j-th reported hyperedge. Reading any view at any moment never changes the answer of a later read.",
  ["histories", "inputs"], "all edit histories over several groups interleaved with reads",
  "Tests use fixed hypergraphs with at most two groups; the two-level cache (overall and per group) goes wrong only for particular interleavings.",
  [HG, BASE], [("groups, merge and two-level cache invalidation", BASE + ":BaseHypergraph"), ("cached views", HG + ":Hypergraph")],
  "thousands of random multi-group edit histories against an independent model; sampling, not exhaustive")
P("P05", "Graph Laplacians and GCN smoothing equal their definitions",
  "For every weighted undirected graph the unnormalised, symmetric and random-walk Laplacians (self-loops removed, isolated vertices giving 0, 1 and 1 on the diagonal) and the GCN operator (one extra self-loop per vertex, symmetric normalisation) equal their matrix definitions, and likewise the GCN operator of a bipartite graph over both sides. Smoothing with an operator L returns X + lamb * L X, GCN smoothing returns the operator times X, and with a drop rate each operator entry is kept unscaled or dropped (rate 1 drops all). Computing them leaves the graph and the features unchanged.",
  ["inputs"], "all weighted graphs including self-loops, isolated vertices, empty graphs",
  "Tests compare two or three tiny graphs; self-loops, isolated vertices and weights combine in ways not sampled.",
  [G, B, BASE], [("operators", G + ":Graph.L, L_sym, L_rw, L_GCN"), ("bipartite operator", B + ":BiGraph.L_GCN"), ("smoothing", BASE + ":BaseGraph.smoothing")],
  "dense float64 reference on thousands of random graphs, spectrum and row-sum monitors; float tolerance 2e-4")
P("P06", "Hypergraph Laplacians and HGNN smoothing equal their definitions",
  "For every weighted hypergraph, and for each of its groups alone, the HGNN operator Dv^-1/2 H We De^-1 H^T Dv^-1/2, the symmetric Laplacian (identity minus it) and the random-walk Laplacian I - Dv^-1 H We De^-1 H^T equal their definitions, zero degrees having inverse zero. Smoothing with an operator L returns X + lamb * L X and HGNN smoothing returns the operator times X, where with a drop rate each operator entry is kept unscaled or dropped (rate 1 drops all). This stays true after edits of any group.",
  ["inputs", "histories"], "all weighted multi-group hypergraphs including isolated vertices and empty groups, before and after edits",
  "Tests use one or two hypergraphs with mostly unit weights; weights, isolated vertices and several groups at once are not sampled.",
  [HG, BASE], [("operators", HG + ":Hypergraph.L_HGNN, L_sym, L_rw and *_of_group"), ("smoothing", HG + ":Hypergraph.smoothing_with_HGNN")],
  "dense float64 reference on random hypergraphs, overall and per group; float tolerance 2e-4")
P("P07", "Message passing on graphs computes the documented aggregation",
  "For graphs, directed graphs (both directions) and bipartite graphs (both sides), message passing with sum, mean or softmax-then-sum returns for every receiving vertex exactly the weighted sum, the weighted mean (weights summing to the divisor), or the softmax-weighted sum over its neighbours' features, and zero for a vertex without neighbours. Explicit connection weights, aligned with the edge tensors, replace the stored weights in all three. Gradients flow back to the features and to explicit weights accordingly. A drop rate only removes connections, whatever the aggregation: what is left is aggregated as if the removed ones were not there (an unweighted mean keeps its full divisor; rate 1 removes all). Neither inputs nor graph change.",
  ["inputs"], "all weighted graphs, features, weights, aggregations and directions",
  "Tests check a few graphs and mostly unit weights; combinations of aggregation, direction and explicit weights are sampled sparsely.",
  [G, D, B], [("v2v", G + ":Graph.v2v"), ("v2v with direction", D + ":DiGraph.v2v"), ("u2v / v2u", B + ":BiGraph")],
  "dense per-vertex reference for every aggregation x direction x weighting, plus gradient oracle; float tolerance 2e-4")
P("P08", "Message passing on hypergraphs computes the documented aggregation",
  "Vertex-to-hyperedge and hyperedge-to-vertex passing with sum, mean or softmax-then-sum, overall and for one group, return exactly the documented two-stage result: aggregation over incident connections (explicit connection weights replacing the default ones; an unweighted mean divides by hyperedge size, respectively by weighted vertex degree), then scaling of hyperedge messages by the stored or given hyperedge weights. Vertex-to-vertex passing is the composition of both stages with per-stage aggregation, weights and drop rates, each defaulting to the common value. Gradients follow, to features and explicit weights alike; dropping only removes connections, what is left being aggregated as if the others were not there; inputs and hypergraph stay unchanged.",
  ["inputs"], "all weighted multi-group hypergraphs, features, weights, aggregations",
  "Tests check few hypergraphs and few of the aggregation/weight/stage combinations, and rarely per group.",
  [HG], [("stages", HG + ":Hypergraph.v2e_aggregation, v2e_update, e2v_aggregation"), ("composition", HG + ":Hypergraph.v2v, v2v_of_group")],
  "dense reference for every stage, aggregation and weighting, overall and per group, plus gradient oracle; float tolerance 2e-4")
P("P09", "Copies are independent and arguments are never modified",
  "A clone, a structure restored from a state dictionary, a dropped, swapped, induced or converted structure shares no state with its source: editing either afterwards never shows in any view of the other. Constructors, edits, conversions and sub-structure operations leave the lists and tensors passed to them unmodified, and changing those lists later does not reach the structure. The public functions (splits, list conversions, metrics, losses, transforms, feature generators) leave their arguments as they were, drawing leaves the structure and the style lists alone, and layers and models leave the features and structures they are applied to alone. A clone or restored structure has the same edges in the same order with exactly the same weights. Edge tensors, degree lists and neighbour lists handed out are the caller's own: overwriting them changes no later read. Converting, dropping or cloning never changes the source structure.",
  ["histories"], "all interleaved edit histories of a structure and its copy; all argument shapes",
  "Aliasing is invisible to tests that do not edit both objects, with warm and cold caches, after copying.",
  [G, D, B, HG, BASE], [("clone / from_state_dict deep copies", G + ":Graph.clone"), ("hyperedge formatting", BASE + ":BaseHypergraph._format_e_list")],
  "two independent models follow interleaved edits of the original and the copy; arguments compared with deep copies")
P("P10", "Saving and loading a structure loses nothing",
  "A graph, directed graph, bipartite graph or hypergraph saved to a file and loaded back, by its own class or by the generic loader, is a structure of the same class whose every view equals the saved one (vertices, edges in the same order with exactly the same weights, self-loops, extra self-loops, groups, vertex weights) and which keeps behaving identically under further edits. Edits after saving do not reach the file, a state dictionary restores equally, and repeated round trips are stable. Loading with the wrong class, a missing file and a missing directory are refused.",
  ["histories", "inputs"], "all structure states reachable by edits, both loaders, string and path arguments",
  "Tests save one small structure per class and compare a few fields.",
  [G, D, B, HG, BASE], [("save/load", G + ":Graph.save, load"), ("dispatch", BASE + ":load_structure")],
  "every view of the loaded structure compared with the model of the saved one, then edited further")
P("P11", "Conversions between structures follow their definitions",
  "The star, clique (weight miu times the number of shared hyperedges) and bipartite forms of a hypergraph, and the hypergraphs built from (or added to a chosen group from) graph edges, k-hop neighbourhoods (up to k, or exactly k) and either side of a bipartite graph, contain exactly the vertices, edges and weights their definitions give, with all existing hyperedges kept. The star expansion's mask marks exactly the original vertices. Going from hypergraph to bipartite graph and back returns the same set of hyperedges.",
  ["inputs"], "all source structures and options",
  "Tests convert one or two small structures with default options.",
  [G, B, HG], [("expansions", G + ":Graph.from_hypergraph_star, from_hypergraph_clique"), ("bipartite", B + ":BiGraph.from_hypergraph"), ("constructors", HG + ":Hypergraph.from_graph*, from_bigraph, add_hyperedges_from_*")],
  "set-based reference of every conversion on random sources; result observed through all views")
P("P12", "HyperGCN conversion connects the extreme vertices of each hyperedge",
  "Converting a hypergraph with vertex features for HyperGCN replaces each hyperedge by an edge between its two extreme vertices under one random non-negative projection of the features, with weight 1/|e|; with mediators every other vertex of the hyperedge is also joined to both extremes and each of the 2|e|-3 edges weighs 1/(2|e|-3). Weights of coinciding edges add up, no edge leaves a hyperedge, and self-loops are removed on request. Hypergraph and features stay unchanged.",
  ["inputs"], "all hypergraphs with hyperedges of at least two vertices, all features",
  "Tests check a single example and only that it runs; total weight and mediator edges are not compared.",
  [G], [("conversion", G + ":Graph.from_hypergraph_hypergcn")],
  "exact reference when features fix the order under every non-negative projection; conservation monitors otherwise")
P("P13", "Dropped and induced structures are correct reductions",
  "Randomly dropping edges or hyperedges (of all or one group) returns a new structure on the same vertices whose edges are a subset of the original with unchanged weights, extra self-loops, groups and vertex weights; rate 0 keeps all, rate 1 drops all, survivors follow the rate, and each (hyper)edge is dropped independently of the others (opposite arcs and self-loops included). The sub-hypergraph induced by a vertex subset renumbers the vertices in increasing order and contains, per group, exactly the hyperedges restricted to the subset (those left with one vertex only if asked), with their weights and vertex weights. The source is unchanged, and empty or out-of-range subsets are refused.",
  ["inputs"], "all structures, drop rates, vertex subsets",
  "Tests check only counts for one seed; subset, weights, groups and rates are not compared.",
  [G, D, B, HG, BASE], [("drop_edges", G + ":Graph.drop_edges"), ("drop_hyperedges(_of_group)", HG), ("subgraph", BASE + ":BaseHypergraph.subgraph")],
  "subset/weight monitors on random structures, 7-sigma binomial monitor for the rate, pairwise joint counts over repeated draws for the independence")

RND = "dhg/random/"
P("P14", "Nearest-neighbour constructions connect exactly the k nearest vertices",
  "Building a directed graph or a hypergraph (new, or added to a named group with all existing hyperedges kept) from vertex features connects every vertex with its k nearest vertices and no others, k being the stated number with or without the centre vertex itself. In the digraph, option choices decide whether the centre is source or destination of its arcs, whether it is joined to itself, which p-norm measures distance, and whether an arc weighs 1 or exp(-distance). Hyperedges contain the k nearest including the centre, one per vertex with equal ones merged; duplicate rows, k = 1 and k = number of vertices work; impossible k are refused; features stay unmodified.",
  ["inputs"], "all feature matrices, k, norms and option combinations",
  "Tests compare one tiny matrix for one k; ties, duplicates, extremes of k and option combinations are not sampled.",
  [D, HG], [("digraph", D + ":DiGraph.from_feature_kNN"), ("hypergraph", HG + ":Hypergraph.from_feature_kNN, add_hyperedges_from_feature_kNN")],
  "brute-force float64 distances with a tie band on random matrices of several shapes")
P("P15", "Random structure generators respect their arguments and laws",
  "Every random generator of graphs, directed graphs, bipartite graphs and hypergraphs terminates and returns a well-formed structure: the requested numbers of vertices, exactly the requested number of distinct edges or hyperedges (no self-loops, all in range, unit weights), hyperedge sizes at least two, or exactly k in k-uniform ones. Probability 0 gives no edge and 1 gives every edge, and at any probability each possible edge appears with exactly that frequency, independently of the others, in the plain and the fast generators alike; uniform generators give equally likely results. Impossible counts and probabilities outside [0, 1] are refused, and random normal features have the requested shape.",
  ["inputs"], "all vertex counts, edge counts, probabilities and seeds",
  "Tests check a couple of sizes; distributional laws, boundary probabilities and termination at full density cannot be settled by single runs.",
  [RND + "graphs", RND + "hypergraphs", RND + "feature.py"],
  [("graph generators", "dhg/random/graphs"), ("hypergraph generators", "dhg/random/hypergraphs")],
  "exact well-formedness monitors; laws judged by Chernoff bounds (false alarm < 1e-9 per decision) with a fixed seed")
P("P16", "A fixed seed makes every random outcome reproducible",
  "After setting the seed, any sequence of random operations (generators, drops, splits, samplings, feature generation, layouts, smoothing and message passing with dropping, model initialisation) gives the same results again, whatever was drawn before, in the same process and in another process with another string hash seed. Setting the seed resets all three sources (random, numpy, torch), different seeds give different outcomes, and the current seed is reported back (the current time when none was set).",
  ["histories", "schedules"], "all sequences of random operations and all seeds, across processes",
  "Tests never compare two runs; dependence on hash order or on earlier draws shows only between processes and histories.",
  ["dhg/random/_seed.py", "dhg/random", "dhg/utils/dataset_split.py", BASE], [("seeding", "dhg/random/_seed.py:set_seed, seed")],
  "recorded traces of random operation plans replayed in process and in subprocesses with other PYTHONHASHSEED and compared exactly")
P("P17", "Vertex splits take exactly the requested numbers from each class",
  "Splitting labelled vertices by number or by ratio returns boolean masks over all vertices that are pairwise disjoint. By number, each class gives exactly the requested vertices to train (and validation), the test mask holding the rest or exactly the requested number; by ratio, each class contributes the floor of its share, the test mask holding the rest or the floor of its own share. This holds for labels given as list, array or tensor, starting at 0 or 1 or with gaps, which are not modified; every selection of a class's vertices is equally likely, a class smaller than asked for gives what it has, ratios that leave no room are refused, and vertices without a label are in no part.",
  ["inputs"], "all label vectors, sizes and ratios",
  "Tests use one balanced labelling; class gaps, uneven classes and rounding boundaries are not sampled.",
  ["dhg/utils/dataset_split.py"], [("splits", "dhg/utils/dataset_split.py:split_by_num, split_by_ratio")],
  "exact rational reference for the per-class counts; binomial monitor for fairness")
P("P18", "Splitting a user-item bipartite graph partitions every user's items",
  "Splitting a user-item bipartite graph by number or by ratio gives, for each user, disjoint train and test item lists whose union is exactly that user's items: the requested number of training items (all when the user has fewer), respectively the floor of the ratio's share. Each user with items has one line beginning with the user and holding no item twice; users without items are left out, and splitting by number lists no test line for a user whose items all train. Every selection of a user's items is equally likely to train, and the graph is unchanged.",
  ["inputs"], "all bipartite graphs, sizes and ratios",
  "Tests compare counts on one graph; users with few or no items and rounding boundaries are not sampled.",
  ["dhg/utils/dataset_split.py", B], [("UI splits", "dhg/utils/dataset_split.py:split_by_num_for_UI_bigraph, split_by_ratio_for_UI_bigraph")],
  "set-partition monitor on random bipartite graphs; binomial monitor for fairness")
P("P19", "Edge and adjacency list conversions lose nothing",
  "Converting between edge lists, adjacency lists and adjacency dictionaries keeps every edge with its multiplicity, and converting there and back returns the same edges. Remapping arbitrary vertex markers (strings, numbers, mixed) replaces each in place by its index in the sorted order of the markers as strings, consistently over all lists given together and also for vertices without neighbours, and returns these mappings if asked. Bipartite lists map the two sides separately, and arguments are not modified.",
  ["inputs"], "all edge and adjacency lists and marker types",
  "Tests convert small fixed lists; repeated edges, lone vertices, mixed marker types and several lists at once are not sampled.",
  ["dhg/utils/structure.py"], [("conversion and remapping", "dhg/utils/structure.py")],
  "round-trip and multiset monitors on random lists")
MET = "dhg/metrics/"
P("P20", "Classification metrics equal their definitions",
  "Accuracy, F1 score (micro, macro or weighted) and the confusion matrix equal their textbook definitions for every true labelling and every prediction given as labels or as per-class scores (arg max), including classes absent from the truth or the prediction, one class only, and one sample only. The order of the samples does not matter, perfect predictions score 1, mismatched lengths or dimensions are refused, and inputs are unmodified.",
  ["inputs"], "all label and score vectors",
  "Tests compare with sklearn on a few arrays; absent classes and degenerate sizes are sampled barely.",
  [MET + "classification.py"], [("metrics", MET + "classification.py:accuracy, f1_score, confusion_matrix")],
  "definitions recomputed exactly with rationals on random labels")
P("P21", "Retrieval metrics equal their definitions",
  "Precision, recall, NDCG (binary and graded), MRR, reciprocal rank, average precision (both methods), mean average precision and precision-recall curves equal their definitions for every relevance and score matrix (distinct scores), per query and averaged, and the former ones at every cut-off given as k or as a ratio of the list length; k beyond the list means the whole list. A query without any relevant item scores 0. Ratios outside (0, 1] are refused, the order of presentation of the items does not matter, and the inputs are unmodified.",
  ["inputs"], "all relevance/score matrices and cut-offs",
  "Tests compare one or two examples; cut-offs, ratios, queries without hits and batches combine in unsampled ways.",
  [MET + "retrieval.py"], [("metrics", MET + "retrieval.py")],
  "definitions recomputed on random matrices; permutation metamorphic monitor")
P("P22", "Recommender metrics equal their definitions",
  "Recommender precision, recall and NDCG equal their definitions for every user-item relevance and score matrix at every cut-off given as k or as a ratio, per user and averaged over users. Training items masked with minus infinity never count before any unmasked item, the order of presentation of the items does not matter, and inputs are unmodified.",
  ["inputs"], "all relevance/score matrices and cut-offs",
  "Tests compare one or two examples.",
  [MET + "recommender.py"], [("metrics", MET + "recommender.py")],
  "definitions recomputed on random matrices")
P("P23", "Evaluators aggregate batches and epochs correctly",
  "An evaluator's validation and test results equal the metric over all samples of the epoch, however these are partitioned into batches, and weigh every sample equally; batches of one epoch never leak into another, nor validation into test. Asking for a result twice gives the same answer, results already returned do not change later, and every configured metric with every parameter setting is reported under its documented marker. The validation metric is the one selected by its index, and unknown metrics, bad indices and results without batches are refused.",
  ["histories"], "all metric configurations and interleavings of batches, epochs, validation and testing",
  "Tests feed one fixed batch sequence; leaks need repeated epochs and interleavings.",
  [MET + "base.py", MET + "build_evaluator.py", MET + "graphs", MET + "hypergraphs"], [("evaluator state", MET + "base.py:BaseEvaluator"), ("construction", "dhg.metrics.build_evaluator")],
  "history monitor: random event histories against recomputed epoch metrics")
P("P24", "Cached and downloaded files are intact or refused",
  "A file obtained by downloading equals the published one: its MD5 matches, whatever was cached before (nothing, a truncated, oversized or modified file) and whichever transfers fail, break off, return error statuses or wrong content. A wrong file is removed and downloaded again, in at most three attempts which each ask the primary and, for the project's own files, then the backup server; when all fail an error is raised and no corrupt file stays behind, so the next call on a healthy network succeeds. A valid cached file causes no network request and is not rewritten, the integrity check accepts exactly the files with the stated MD5, and missing directories are created.",
  ["crash_points", "schedules", "inputs"], "all cache states x fault scripts of the transfers",
  "Tests need the network and never inject faults.",
  ["dhg/utils/download.py"], [("download and check", "dhg/utils/download.py:download_file, check_file, download_and_check")],
  "scripted fault-injecting transport below requests; file bytes, return values and request log judged for every script", tech="runtime monitoring with fault injection: scripted transport, trace oracle over requests and files")
P("P25", "Datasets load lazily, check their files and match the published catalogue",
  "Constructing a dataset neither downloads nor reads anything; the first access to an item loads just that item's files, verifies each against its MD5, runs loader and preprocessing once, and every later access returns the same object. Files already there are not fetched again, tampered ones are neither served nor kept, unknown items are refused, and the reported item names are exactly the defined ones. Each shipped dataset provides every documented item: its documented constants (such as numbers of classes, vertices, edges and feature dimensions), and for the others the published file and checksum, loaded and preprocessed into the documented type and value.",
  ["histories", "inputs"], "all shipped dataset definitions and generated definitions x access histories x file states",
  "Tests require downloads and check few constants of the sets that are there.",
  ["dhg/data"], [("lazy loading", "dhg/data/base.py:BaseData"), ("definitions", "dhg/data/*.py")],
  "generated dataset definitions under random access histories with scripted files; shipped definitions compared with a recorded catalogue cross-checked with the documentation")
P("P26", "Feature and tensor transforms equal their definitions",
  "The conversions to float, boolean and long tensors keep every value and shape of lists, arrays, tensors and sparse matrices; feature normalisation divides each row by its p-norm, zero rows staying zero; min-max scaling maps all features affinely onto the requested range, both ends attained, and refuses an empty range; composed pipes apply each step once, left to right, and can be applied repeatedly. Inputs are not modified and share no memory with converted results.",
  ["inputs"], "all shapes, kinds and parameter values",
  "Tests check a couple of arrays.",
  ["dhg/datapipe/common.py", "dhg/datapipe/normalize.py"], [("transforms", "dhg/datapipe/common.py"), ("normalisation", "dhg/datapipe/normalize.py")],
  "float64 reference on random inputs of every supported kind; metamorphic monitors")
P("P27", "File loaders return exactly what the file holds",
  "The loaders for pickle (whole object, one key, several keys), JSON and text (one list of values per line, cast to the requested type or by the given function, split at any of the default separators or the given one, a header of the given length skipped) return exactly the stored content in order, for string and path arguments. Options are passed on, files are closed and unmodified, and missing files, absent keys and unknown types are refused.",
  ["inputs"], "all contents of the supported formats and loader options",
  "Tests load a few fixed files.",
  ["dhg/datapipe/loader.py"], [("loaders", "dhg/datapipe/loader.py")],
  "random contents written independently and compared after loading; open handles monitored")
P("P28", "The user-item dataset samples only valid training triplets",
  "In training, every item of the user-item dataset is a (user, positive, negative) triple whose pair is an observed interaction and whose negative is one the user never interacted with. In strict mode sample i is interaction i, so an epoch visits each interaction exactly once; otherwise users, their positives and negatives are drawn uniformly. For testing, each user gives a mask with minus infinity exactly on the known training items and zero elsewhere, and a 0/1 relevance vector that is 1 exactly on its test items; lengths match, unknown phases are refused, and the given lists are unchanged.",
  ["inputs", "histories"], "all interaction lists, phases and modes, repeated epochs",
  "Tests only construct the dataset on one example.",
  ["dhg/utils/dataset_wrapers.py"], [("dataset", "dhg/utils/dataset_wrapers.py:UserItemDataset")],
  "set-membership monitors on random interactions and a Chernoff bound for negative sampling")

P("P29", "Graph layers and models compute their published formulas",
  "Every graph layer (GCN, GraphSAGE with mean and pooling, GAT, GIN), the MLP, the discriminator and multi-head wrapper (all readouts), the stacked models GCN, GraphSAGE, GAT and GIN, the bipartite recommenders LightGCN and NGCF, and both BGNN variants with cascaded training return exactly what their formulas define for the given graph, features and parameters, in training and evaluation mode, with and without bias, batch normalisation and last-layer treatment, and have the gradients that follow from them. Options not given have their documented defaults. Dropout acts only in training, at the given rate and where documented. Vertices without neighbours and graphs without edges yield finite values, and graph and features are unchanged.",
  ["inputs"], "all layers, models and options x weighted graphs x features x parameters",
  "Tests run forward passes and mostly check shapes; no reference values and no gradients.",
  ["dhg/nn/convs/graphs", "dhg/nn/convs/common.py", "dhg/models/graphs"], [("graph convolutions", "dhg/nn/convs/graphs"), ("multi-head, MLP, discriminator", "dhg/nn/convs/common.py"), ("models", "dhg/models/graphs")],
  "dense float64 reference per layer and model: outputs, input and parameter gradients and normalisation buffers compared on random graphs, features, options and parameters")
P("P30", "Hypergraph layers and models compute their published formulas",
  "Every hypergraph layer (HGNN, HGNN+, HNHN, JH, HyperGCN with and without mediators, UniGCN, UniGAT, UniSAGE, UniGIN) and model (HGNN, HGNN+, HNHN, HyperGCN, UniGCN, UniGAT, UniSAGE, UniGIN, DHCF) returns exactly what its formula defines for the given hypergraph, features and parameters, in training and evaluation mode, with and without bias, batch normalisation and last-layer treatment, and has the gradients that follow. Options not given have their documented defaults. HyperGCN's fast mode uses the graph built at the first call, its slow mode the current one; after an edit of the hypergraph all other layers use the edited structure. Dropout acts only in training, vertices outside all hyperedges and hypergraphs without hyperedges yield finite values, and hypergraph and features are unchanged.",
  ["inputs", "histories"], "all layers, models and options x weighted hypergraphs, before and after edits x features x parameters",
  "Tests run forward passes and mostly check shapes; no reference values and no gradients.",
  ["dhg/nn/convs/hypergraphs", "dhg/models/hypergraphs"], [("hypergraph convolutions", "dhg/nn/convs/hypergraphs"), ("models", "dhg/models/hypergraphs")],
  "dense float64 reference per layer and model: outputs, input and parameter gradients and normalisation buffers compared on random hypergraphs, features, options and parameters")

P("P31", "Models do not depend on vertex names, writing order or unconnected parts",
  "For every layer and model and every structure: renaming the vertices (users, items) renames the outputs and changes nothing else; the order of edges, of the vertices inside an edge and the assignment of hyperedges to groups do not matter; the output on a disjoint union is the outputs on its parts; in evaluation mode the features of a vertex influence only vertices within as many hops as the model has layers; symmetric vertices with equal features get equal outputs. HyperGCN is compared under the same random projection.",
  ["inputs"], "all layers and models x structures x renamings, rewritings, unions and feature changes",
  "Tests run one forward pass on one structure; these relations need pairs of runs.",
  ["dhg/nn", "dhg/models", "dhg/structure"], [("layers", "dhg/nn/convs"), ("models", "dhg/models")],
  "metamorphic monitors on pairs of runs with shared parameters")
P("P32", "Models train, save, restore and share structures without side effects",
  "Every layer and model can be trained: losses and parameters stay finite, gradients reach every parameter its formula uses and the features, the loss can be decreased, a seeded run repeats, and neither structure nor features change. A model restored from its state dictionary, copied or pickled computes the same as the original, and training a copy leaves the original alone. In evaluation mode the result depends only on parameters, the given structure and features, not on earlier calls or on other models using the same structure (except HyperGCN's documented fast mode, which keeps its first structure). Building and resetting a recommender model draw the parameters of all its layers afresh, every layer by the same law.",
  ["histories", "inputs"], "all layers and models x structures x histories of training, saving, copying and sharing",
  "Tests never train, save or reuse models.",
  ["dhg/nn", "dhg/models", "dhg/structure"], [("layers", "dhg/nn/convs"), ("models", "dhg/models")],
  "history monitors with torch anomaly detection, snapshots of parameters and structures")
P("P33", "Experiments train on the training part only and keep the best model",
  "A run performs the asked number of trials (within its built-in time limit of ten minutes); each builds structure, model and training configuration once and in each epoch trains exactly once on the training part (training mode, the trial's structure, one loss and step per batch), validates once on the validation part (evaluation mode, no gradients), reports that score and steps the scheduler. A trial's value is its best epoch, maximal or minimal as asked; best trial, model and structure are those that reached the best value, on disk and in memory, only their files and the log remain in the study directory, and exactly they are finally tested on the test part. Test labels never influence training or selection, validation labels only selection; seeded runs repeat, other studies are left alone, an earlier study of the same name is replaced exactly if asked, and models without structure are supported for recommendation.",
  ["histories", "inputs"], "all tasks, models, data splits, numbers of trials and epochs, directions, builders and schedulers",
  "There are no tests of the experiments.",
  ["dhg/experiments"], [("trial loop, model selection, files", "dhg/experiments/base.py:BaseTask"), ("training, validation, test", "dhg/experiments/vertex_classification.py, recommender.py")],
  "event trace recorded by hooks on models, losses, optimizers, schedulers and evaluators, judged offline per run; label-perturbation twins", tech="runtime monitoring: trace recorded through hooks and judged by an offline checker; twin runs with perturbed labels")

P("P34", "Drawings show exactly the structure, in the style asked for",
  "Drawing a graph, directed graph, bipartite graph or hypergraph shows exactly that structure: one circle per vertex, all apart and within the picture, one straight line per edge from rim to rim (an arrow head at the destination of an arc) or one outline around exactly the vertices of a hyperedge, and each given label below its vertex. Every style option (colours, sizes, line widths, labels, fonts, for all or one each, per side of a bipartite graph) has its documented effect in proportion and no other, each strength option scales only its own force of the layout, and a seeded drawing repeats. Repeated hyperedges, self-loops and single vertices can be drawn; empty graphs, wrong structures, styles and list lengths are refused; structure and lists are unchanged.",
  ["inputs", "configurations"], "all structures with edges x style options",
  "The stable tests do not draw; only looking at figures would tell.",
  ["dhg/visualization/structure"], [("drawing", "dhg/visualization/structure/draw.py"), ("layout", "dhg/visualization/structure/layout.py, simulator.py"), ("defaults", "dhg/visualization/structure/defaults.py")],
  "the artists of every figure are read back and compared with structure and options; layouts run in the real force simulation, whose single steps are compared with a reference", tech="runtime monitoring: figure artists read back and judged against the drawn structure; hooks on the force simulation")
P("P35", "Hyperedge outlines are closed tangent curves kept apart at shared vertices",
  "The outline of a hyperedge is a closed curve of arcs centred at its vertices and straight lines tangent to the circles of two consecutive ones, turning once around and enclosing all of its vertices and keeping off them; a single vertex is encircled, two vertices are joined by a capsule. Where outlines share a vertex they have different radii, smaller hyperedges further in, also for repeated hyperedges. Colours, fills and widths belong to the right hyperedge, and the underlying geometric helpers (angle, length, polar position, common tangent) and incidence matrix equal their definitions.",
  ["inputs"], "all vertex positions, sizes and hyperedges in general position",
  "The stable tests do not draw; the geometry is never checked.",
  ["dhg/visualization/structure"], [("outlines", "dhg/visualization/structure/utils.py:draw_circle_edge, hull_layout"), ("geometry", "dhg/visualization/structure/geometry.py")],
  "geometric oracle on the drawn arcs and lines for thousands of random placements", tech="runtime monitoring: geometric oracle on the drawn artists")

P("P36", "Feature drawings show every row as a point inside the space asked for",
  "The Poincare projection maps every feature row to a finite point strictly inside the ball of curvature 2, its tangent coordinates being the leading principal components of the normalised rows spread over [-2, 2] per axis, and t-SNE variants keep well separated classes separate; features are not changed. Every feature figure and animation shows exactly one point per row, coloured by its label in the colour map asked for, in 2 or 3 dimensions, inside the drawn ball or axes, and an animation turns once around without moving the points. Wrong dimensions, reduction methods and numbers of labels are refused.",
  ["inputs", "configurations"], "all full-rank feature matrices, labels and options",
  "The stable tests never look at a figure or projection.",
  ["dhg/visualization/feature"], [("drawings", "dhg/visualization/feature/visualization.py"), ("projection and animation", "dhg/visualization/feature/utils.py")],
  "figures are read back; projections are compared with an independent numpy reference where it is well conditioned", tech="runtime monitoring: figure artists and projected points judged against an independent reference")

P("P37", "Losses, regularisation, sparse dropout and helpers equal their definitions",
  "BPR loss equals the mean of -log sigmoid(alpha positive - beta negative) in each of its activations, and the embedding regularisation equals weight_decay / p times the sum over the embeddings of their mean row sum of p-th powers, both with the exact gradients. Sparse dropout at rate p keeps the pattern, sets each entry independently with probability p to the fill value without changing the others or its argument, is exact at the extremes and refuses rates that are no probabilities. C(n, m) is the exact binomial, and log helpers write what is printed to both the console and the file.",
  ["inputs", "configurations"], "all scores, embeddings, sparse matrices, rates and integers",
  "Tests sample no gradients, probabilities or extremes of these helpers.",
  ["dhg/nn/loss.py", "dhg/nn/regularization.py", "dhg/utils"], [("BPR loss", "dhg/nn/loss.py:BPRLoss"), ("regularisation", "dhg/nn/regularization.py"), ("sparse dropout", "dhg/utils/sparse.py:sparse_dropout"), ("binomial", "dhg/utils/math.py:C"), ("logging", "dhg/utils/logging.py")],
  "definitions recomputed in float64 with analytic gradients; dropout laws by an exact binomial bound over pooled draws")

P("P38", "A refused operation changes nothing",
  "An operation that raises an error leaves the structure exactly as it was: every view, edge, weight and group keeps its value, and later edits, reads, saves and conversions behave as if the failed call had never been made. This covers edges or hyperedges out of range, wrong numbers or kinds of weights, unknown merge operations, aggregations, groups and orders, mismatching message-passing inputs, unreadable or unwritable files and impossible structure sizes. What an edit refuses, construction refuses too, and the caller's arguments stay as they were.",
  ["histories", "inputs"], "all structures, refused calls at any point of an edit history",
  "Tests hardly call anything that must fail, and never look at the structure afterwards.",
  ["dhg/structure"], [("edits of graphs", "dhg/structure/graphs"), ("edits of hypergraphs", "dhg/structure/hypergraphs/hypergraph.py"), ("shared checks", "dhg/structure/base.py")],
  "reference model left unchanged by refused calls, all views compared afterwards", tech="runtime monitoring: fault injection (invalid calls) into edit histories with an online reference-model monitor")

P("P39", "Concurrent readers, worker processes and pickled copies see what one reader sees",
  "Any number of threads may read views of one structure, pass messages over it and evaluate one model at the same time, on one structure or each on its own: each gets exactly what a lone reader gets, whatever the interleaving, and the structure is left with the right values. Functions of the library (constructors, conversions, metrics, data pipes, layers, gradients) called by several threads on inputs of their own do not disturb each other. Threads that edit their own clones see neither each other's edits nor change the source. A pickled or deeply copied structure equals its original and is independent of it, and a data loader with worker processes delivers exactly the samples of one without.",
  ["schedules", "histories"], "all interleavings of readers at library-line granularity, all structures and models",
  "Tests are single-threaded, and never copy a structure with warm caches to another process.",
  ["dhg/structure", "dhg/models", "dhg/nn", "dhg/utils/dataset_wrapers.py"], [("lazily cached views", "dhg/structure/graphs, dhg/structure/hypergraphs"), ("clones", "clone() in dhg/structure"), ("models", "dhg/models")],
  "delays injected at random library lines through sys.monitoring with a tiny switch interval; distinct interleavings are counted", tech="runtime monitoring: schedule perturbation (injected delays at library lines) with a value oracle, interleavings recorded")

P("P40", "Nothing is kept alive or left behind",
  "A structure, model or evaluator is freed with its last reference (a structure at once, without waiting for the cycle collector), whatever was read from it, derived from it or computed with it, and a model keeps no structure alive (but the one HyperGCN caches by design). Reading, passing messages, editing back and forth, saving, loading, converting, generating, training, evaluating, calling metrics or data pipes and summing up epochs need memory that does not grow with the number of repetitions. No operation, successful or failed, leaves files, threads, temporary files or a changed working directory or standard output behind.",
  ["histories"], "all structures, models, evaluators, files and numbers of repetitions",
  "A leak shows only in long runs; tests run each operation once.",
  ["dhg/structure", "dhg/models", "dhg/metrics", "dhg/datapipe", "dhg/utils"], [("view caches", "dhg/structure"), ("batch lists", "dhg/metrics/base.py"), ("files and downloads", "dhg/datapipe/loader.py, dhg/utils/download.py")],
  "weak references, live tensor counts, open descriptors and threads audited before and after repetitions", tech="runtime monitoring: leak monitor (weak references, live tensors, descriptors, threads, directory contents)")

P("P41", "Structures, layers and models work on the device they are given",
  "A structure made for a device or moved to it, read before, in between or not at all, edited before or after, holds every view there, with the values of the same structure on the CPU, and can be moved back. Clones, dropped and induced structures stay on their source's device; conversions and constructors use the device they are told. Message passing moves the structure to its features and answers there, with the same values and gradients. A layer or model moved to a device computes, learns and answers there as on the CPU, wherever its structure is. Losses, data pipes, sparse dropout, metrics and evaluators accept tensors of any device, and an experiment on a device gives the scores of the same experiment on the CPU.",
  ["histories", "inputs", "configurations"], "all structures, models and functions; all orders of reads, moves and edits",
  "The test machine has one device, so no test ever moves anything; a tensor left behind fails only on a machine with a GPU.",
  ["dhg/structure", "dhg/nn", "dhg/models", "dhg/metrics", "dhg/experiments"], [("moving", "to() in dhg/structure/base.py"), ("views", "dhg/structure/graphs, dhg/structure/hypergraphs"), ("layers and models", "dhg/nn, dhg/models"), ("experiments", "dhg/experiments")],
  "a second device simulated by intercepting every torch call: labels on tensors, mixed-device operations refused as on real hardware, values compared with the CPU", tech="runtime monitoring: device sanitizer (every torch call intercepted, tensors labelled with a simulated device) with a differential oracle")

# END
NOT_APPLICABLE = []
