import json
P=[]
M="src/cognitivefactory/interactive_clustering/"
BIN=M+"constraints/binary.py"
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b} for a,b in state],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":None}})
LED=("explicit constraints","what the annotator added and has not retracted")
CLO=("inferred constraints","transitive knowledge derived from the explicit constraints")
p("C01","Inferred constraints are exactly the logical closure of the added ones",
 "After any history of accepted and rejected operations (adding or deleting constraints and data IDs), the inferred constraint between two managed data IDs is MUST_LINK exactly when a chain of currently added MUST_LINK constraints joins them (or they are the same ID), CANNOT_LINK exactly when a currently added CANNOT_LINK constraint joins their two MUST_LINK groups, and unknown otherwise. The answer is the same in both argument orders and depends only on the constraints currently added, never on the order, the direction or the past in which they were added.",
 ["histories","inputs"],"every sequence of manager operations, every set of data IDs",
 "The tests replay a few hand-written addition sequences; inference is maintained incrementally and rebuilt on deletion, so correctness depends on the whole operation history.",
 [BIN],[("incremental transitivity on addition",BIN+":_add_constraint_transitivity"),("rebuild on deletion",BIN+":_generate_constraints_transitivity"),("query",BIN+":get_inferred_constraint")],[LED,CLO],["get_inferred_constraint"])
p("C02","Contradictory constraints are always rejected and leave no trace",
 "A new constraint is accepted when, and only when, it does not contradict what the current constraints already imply, so the recorded constraints are always satisfiable and every compatible constraint can be added. A refused operation (contradiction, unknown data ID, unknown constraint type, duplicate data ID) raises ValueError and changes nothing that can be observed then or later.",
 ["histories","inputs"],"every operation, valid or invalid, in every reachable state",
 "Tests try a handful of conflicting additions and do not compare the whole state before and after a refusal.",
 [BIN],[("conflict check before insertion",BIN+":add_constraint"),("argument checks",BIN+":delete_constraint")],[LED,CLO],["add_constraint","delete_constraint","add_data_ID","delete_data_ID"])
p("C03","The record of added constraints is exact, symmetric and retractable",
 "The manager reports as added exactly the constraints that were accepted and not since deleted, with their type and a value of 1.0, whichever order the two data IDs are given in; every data ID is always linked to itself. Deleting a constraint retracts that one only (deleting a pair that was never added retracts nothing), and adding a constraint that is already known never alters another one.",
 ["histories","inputs"],"every sequence of additions and deletions",
 "The record is stored in a triangular table keyed by string comparison; tests use one ID alphabet and a few pairs.",
 [BIN],[("triangular table",BIN+":__init__"),("addition",BIN+":add_constraint"),("deletion",BIN+":delete_constraint"),("query",BIN+":get_added_constraint")],[LED],["get_added_constraint"])
p("C04","MUST_LINK groups partition the data, and completeness is exact",
 "The connected components returned at any time form a partition of the managed data IDs in which two IDs share a component exactly when they are inferred MUST_LINK. The completeness check answers true exactly when every pair of managed IDs has an inferred constraint.",
 ["histories","inputs"],"every reachable manager state",
 "Components are de-duplicated by list equality and completeness by counting; both rely on a representation invariant that tests sample on two or three states.",
 [BIN],[("components",BIN+":get_connected_components"),("completeness",BIN+":check_completude_of_constraints")],[CLO],["get_connected_components","check_completude_of_constraints"])
p("C05","The announced range of cluster numbers is achievable",
 "The reported maximum is the number of MUST_LINK groups; the reported minimum is at least 2 and, whenever the range is not empty, every number of clusters from the minimum to the maximum is reached by some partition that violates no constraint. The minimum is never lower than the true minimum number of clusters, and equals it (or 2) whenever there are at most six groups.",
 ["histories","inputs"],"every reachable manager state with at least one data ID, every random draw of the colouring heuristic",
 "Tests check a few constraint graphs; the estimate relies on heuristic graph colouring with random strategies over a filtered graph.",
 [BIN],[("colouring of the CANNOT_LINK graph",BIN+":get_min_and_max_number_of_clusters")],[CLO],["get_min_and_max_number_of_clusters"])
p("C06","Conflict explanations name exactly the groups involved",
 "Asking which data are involved in a conflict returns nothing exactly when the proposed constraint would be accepted; otherwise it returns, without duplicates, exactly the members of the MUST_LINK groups of the two data IDs. The question itself never changes the constraints, and unknown data IDs or constraint types raise ValueError.",
 ["histories","inputs"],"every proposed constraint in every reachable manager state",
 "Tests check two conflicts in one state.",
 [BIN],[("conflict explanation",BIN+":get_list_of_involved_data_IDs_in_a_constraint_conflict")],[CLO],["get_list_of_involved_data_IDs_in_a_constraint_conflict"])
p("C07","Saving and reloading a manager preserves its knowledge and behaviour",
 "A constraints manager written to JSON and loaded back has the same managed data IDs, added constraints, inferred constraints, components and cluster range, for any data IDs (accents, quotes, empty or numeric-looking strings). Every later operation gives the same verdict and the same knowledge on the original and on the reloaded manager, and saving again produces an equivalent file.",
 ["histories","inputs"],"every reachable manager state, every data-ID alphabet, every continuation",
 "One test compares one round trip of one manager.",
 [BIN],[("serialization",BIN+":to_json"),("deserialization",BIN+":load_constraints_manager_from_json")],[LED,CLO],["to_json","load_constraints_manager_from_json"])
p("C08","Queries have no side effect and managers do not share state",
 "Asking any question (inferred or added constraint, components, completeness, cluster range, conflict, managed IDs, save) any number of times and in any order never changes any later answer or verdict. Modifying a returned list, the list given at construction, or another manager built from the same list never changes a manager.",
 ["histories","inputs"],"every reachable state, every order of queries, every mutation of a returned or supplied object",
 "Tests query once after a fixed script; aliasing and stale caches need specific query/update interleavings.",
 [BIN],[("shared transitivity sets",BIN+":_add_constraint_transitivity"),("getters",BIN+":get_connected_components")],[CLO],["all getters"])
p("C09","Data IDs can join and leave at any time without residue",
 "The managed IDs are exactly those given at construction plus those added and minus those deleted since, each exactly once. Deleting an ID retracts exactly the added constraints that involve it (and what was inferred only through it), keeps all others, and re-adding the same ID starts it with no constraint; duplicates and unknown IDs raise ValueError.",
 ["histories","inputs"],"every interleaving of ID additions/deletions with constraint operations",
 "Tests add or delete one ID once; stale entries only show after delete/re-add histories with particular ID orders.",
 [BIN],[("add",BIN+":add_data_ID"),("delete",BIN+":delete_data_ID")],[LED,CLO],["get_list_of_managed_data_IDs","get_added_constraint","get_inferred_constraint"])
C=M+"clustering/"
KM,HI,SP,AP,DB,MP,AB=[C+x for x in ("kmeans.py","hierarchical.py","spectral.py","affinity_propagation.py","dbscan.py","mpckmeans.py","abstract.py")]
ALLC=[KM,HI,SP,AP,DB,MP,AB]
p("C10","Every clustering is total and uses canonical labels",
 "For every consistent constraints manager over at least two data IDs and matching vectors, each algorithm terminates and returns one integer label for each managed data ID and for nothing else. Apart from the distinct negative labels DBSCAN gives to single noise points, labels are 0,1,2,... in the order in which clusters are first met when data IDs are sorted, and renaming any label dictionary that way keeps the partition.",
 ["inputs","configurations"],"every algorithm, dataset (including duplicates and all-identical vectors), constraint state and requested cluster number",
 "Tests run each algorithm on one nine-point dataset.",
 ALLC,[("relabelling",AB+":rename_clusters_by_order"),("dispatch",C+"factory.py:clustering_factory")],(),["cluster","rename_clusters_by_order"])
p("C11","KMeans and hierarchical clusterings never violate a constraint",
 "In the clusters returned by the constrained k-means and by hierarchical clustering (any linkage), two data IDs with an inferred MUST_LINK constraint always share a cluster and two data IDs with an inferred CANNOT_LINK constraint never do. This holds for every requested number of clusters, even when more clusters are needed to respect the constraints.",
 ["inputs","histories","configurations"],"every consistent constraint state, dataset, cluster number, linkage and initial centroid draw",
 "Tests check two constraint sets on one dataset.",
 [KM,HI],[("assignment with conflict check",KM+":_clustering_kmeans_model_COP"),("infinite distance on conflict",HI+":_compute_distance"),("tree cut",HI+":compute_predicted_clusters")],(),["cluster"])
p("C12","Affinity propagation strictly respects MUST_LINK constraints by default",
 "With its default settings, constrained affinity propagation always puts two data IDs with an inferred MUST_LINK constraint in the same cluster, whatever the vectors (including equidistant or identical data), the iteration limits and the convergence outcome.",
 ["inputs","histories","configurations"],"every constraint state, dataset, iteration limit",
 "Tests check one dataset with one constraint set; degenerate similarities and non-convergence are not reached.",
 [AP],[("meta-points",AP+":_affinity_propagation_constrained")],(),["cluster"])
p("C13","DBSCAN respects constraints and accounts for noise",
 "Constrained DBSCAN never puts data with an inferred CANNOT_LINK constraint in the same cluster and puts data with an inferred MUST_LINK constraint in the same cluster. Noise points get distinct negative labels, and the reported numbers of regular, noise and total clusters match the returned labels.",
 ["inputs","histories","configurations"],"every constraint state, dataset, eps and min_samples",
 "Tests check two constraint sets on one dataset.",
 [DB],[("local clusters",DB+":cluster"),("merge under MUST_LINK",DB+":cluster"),("noise labels",DB+":cluster")],(),["cluster","number_of_clusters"])
p("C14","Hierarchical clustering builds a valid greedy constrained dendrogram",
 "The clustering tree starts from the MUST_LINK groups, every node's members are the disjoint union of its children's members, and the root holds all data. Each merge joins a pair of current clusters at minimal linkage distance among the pairs with no CANNOT_LINK between them, until no such pair is left, when the remaining clusters are joined under the root. A node that receives children later (add_new_children) stays consistent: members, inverse depth, centroid, iteration and exported dictionary.",
 ["inputs","histories","configurations"],"every constraint state, dataset and linkage",
 "Tests compare final clusters for each linkage on one dataset, never the merge order against the definition.",
 [HI],[("closest pair",HI+":_get_the_two_clostest_clusters"),("linkage distance",HI+":_compute_distance"),("merge",HI+":_add_new_cluster_by_merging_clusters")],[("clustering tree","clustering_root and its children")],["cluster","clustering_root","to_dict"])
p("C15","Hierarchical cuts honour the requested number of clusters and are nested",
 "Cutting the hierarchical tree for k clusters (by size or by iteration) yields the root alone for k<=1 and otherwise at least min(k, number of MUST_LINK groups) clusters, all of them nodes of the tree; more than k clusters are returned only when no two of them may be merged, and the next cluster to split is the biggest one that can be split (by size) or the latest merge (by iteration). Cuts for increasing k refine one another, depend only on k and the criterion, and do not modify the tree.",
 ["inputs","histories","configurations"],"every constraint state, dataset, linkage, k and criterion",
 "Tests cut two trees at two or three values of k.",
 [HI],[("tree cut",HI+":compute_predicted_clusters")],[("clustering tree","clustering_root and its children")],["compute_predicted_clusters","cluster"])
p("C16","KMeans returns a constrained k-means fixed point with matching centroids",
 "The centroid exposed for each returned cluster label is the mean of the vectors of the data with that label. Unless the iteration limit, or a shift of the centroids below the tolerance, stopped it early, every MUST_LINK group has a member for which no strictly nearer centroid belongs to a cluster free of data that the group cannot be linked with; and every result is one that constrained k-means reaches from initial centroids drawn among the data.",
 ["inputs","histories","configurations"],"every constraint state, dataset, cluster number and initial draw",
 "Tests check labels on one well-separated dataset.",
 [KM],[("initial draw",KM+":initialize_centroids"),("assignment and update loop",KM+":_clustering_kmeans_model_COP"),("means",KM+":compute_centroids")],[("centroids","one vector per cluster label")],["cluster","centroids"])
p("C17","Spectral and affinity propagation apply the constraint-adjusted similarity",
 "Spectral clustering returns the partition that spectral clustering yields on the RBF similarity in which every inferred MUST_LINK pair is set to 1 and every inferred CANNOT_LINK pair to 0, in both directions. Affinity propagation returns, by default, the partition that affinity propagation yields on the MUST_LINK groups, the similarity of two groups being that of their closest members.",
 ["inputs","histories","configurations"],"every constraint state and dataset whose reference partition is unambiguous",
 "Tests check the final labels on one dataset.",
 [SP,AP],[("similarity adjustment",SP+":clustering_spectral_model_SPEC"),("group similarity",AP+":_affinity_propagation_constrained")],(),["cluster"])
p("C18","Clustering is reproducible and independent of irrelevant context",
 "With the same integer random seed, the same data and the same constraints, each algorithm returns the same result whatever the state of the global random generators, whatever clusterings were run before on the same or other instances, and in any interpreter (for spectral clustering, where the adjusted similarity determines the spectral embedding). The result does not depend on the order of the entries of the vectors dictionary nor on extra vectors for data that are not managed.",
 ["histories","inputs","configurations"],"every algorithm, seed, earlier use of the instance, order of the vectors dictionary",
 "Tests never run an algorithm twice on one instance nor permute the dictionary.",
 ALLC,[("seeding",KM+":initialize_centroids"),("row order",HI+":cluster")],(),["cluster"])
p("C19","Clustering and sampling never modify what they are given",
 "Clustering or sampling leaves the constraints manager, the vectors and the previous clustering result exactly as they were, for every algorithm and setting. Results already returned are not altered by later calls.",
 ["histories","inputs","configurations"],"every algorithm, every reachable manager state, every sequence of calls",
 "Tests do not compare the inputs before and after.",
 ALLC+[M+"sampling/clusters_based.py"],[("cluster members taken from the manager",HI+":cluster"),("similarity matrix",SP+":clustering_spectral_model_SPEC")],(),["cluster","sample"])
p("C20","Clustering depends on what constraints mean, not on how they were entered",
 "Two managers over the same data IDs with the same inferred constraints give the same clustering (for k-means, hierarchical, spectral, default affinity propagation and MPCKMeans with a fixed seed, on data without distance ties and, for spectral clustering, with a determined spectral embedding), however redundant, reordered, retracted and re-entered or reloaded from file their constraints were. Renaming data IDs in an order-preserving way renames the result and changes nothing else.",
 ["histories","inputs"],"every pair of histories with the same closure, every order-preserving renaming",
 "Tests use one history per manager.",
 ALLC+[BIN],[("use of inferred constraints",KM+":_clustering_kmeans_model_COP"),("use of components",HI+":cluster")],(),["cluster"])
S=M+"sampling/clusters_based.py"
p("C21","Samplers only propose eligible pairs",
 "Every proposed pair joins two different managed data IDs in increasing order, appears once, satisfies the cluster restriction of the sampler, and is neither already added nor already inferred unless the sampler was told to allow it. This holds for every sampler configuration, including each named one of the factory.",
 ["inputs","histories","configurations"],"every manager state, clustering result, dataset, sampler configuration and requested number",
 "Tests check one nine-point state per sampler.",
 [S,M+"sampling/factory.py"],[("pair filter",S+":sample"),("named samplers",M+"sampling/factory.py:sampling_factory")],(),["sample"])
p("C22","Samplers return as many pairs as asked, or all the eligible ones",
 "A sampler returns exactly the smaller of the requested number and the number of eligible pairs, so it returns nothing only when nothing is asked or no eligible pair is left. Asking for more only adds pairs to what the distance-based samplers already proposed.",
 ["inputs","histories","configurations"],"every manager state, clustering result, dataset, sampler configuration and requested number",
 "Tests check a few requested numbers in one state.",
 [S],[("truncation",S+":sample")],(),["sample"])
p("C23","Distance-based samplers return the best pairs in order",
 "The closest-neighbours sampler returns pairs by non-decreasing Euclidean distance and no eligible pair it leaves out is strictly closer than one it returns; the farthest-neighbours sampler does the opposite. Distances are those of the current vectors of the two data IDs, whatever was sampled before.",
 ["inputs","histories","configurations"],"every manager state, clustering result, dataset and requested number",
 "Tests check one dataset.",
 [S],[("distance table",S+":sample")],(),["sample"])
p("C24","Random sampling is reproducible and can reach every eligible pair",
 "With an integer random seed a sampler returns the same pairs each time for the same inputs, whatever the state of the global generators and whatever it sampled before. Over seeds, every eligible pair can be proposed, in any position.",
 ["inputs","histories","configurations"],"every manager state, sampler configuration, seed and earlier call",
 "Tests check one or two seeds.",
 [S],[("seeding and draw",S+":sample")],(),["sample"])
p("C25","Invalid parameters are refused and valid ones accepted",
 "Every factory, algorithm, sampler, manager and text utility raises ValueError for each parameter outside its documented domain (unknown names, cluster numbers below 2 or given where none is allowed, non-positive limits, wrong types, negative sample sizes), including on the exact boundary, and accepts every documented value. A factory returns an instance of the requested algorithm configured with the parameters it was given.",
 ["inputs","configurations"],"every parameter of every public entry point, at and around each boundary",
 "Tests check one invalid value per parameter, rarely the boundary itself or the pass-through of parameters.",
 ALLC+[C+"factory.py",M+"constraints/factory.py",M+"sampling/factory.py",S],[("parameter checks","__init__ and cluster of each algorithm"),("factories",C+"factory.py:clustering_factory")],(),["constructors","factories","cluster","sample"])
p("C26","Cluster frequencies are exact",
 "The frequencies computed for a clustering result have one entry per label used and no other, each equal to the share of data with that label, whatever the labels (including negative ones) and the data IDs. They are all positive and sum to 1, an empty result gives no entry, and the result is not modified.",
 ["inputs"],"every clustering result",
 "Tests check one result and the empty one.",
 [M+"utils/frequency.py"],[("counting",M+"utils/frequency.py:compute_clusters_frequency")],(),["compute_clusters_frequency"])
p("C27","Vectorization keeps each vector with its data ID",
 "Vectorizing a dictionary of texts returns one row vector per data ID and no other, all of the same width, and the vector of a data ID is that of its own text: for TF-IDF the normalized TF-IDF weights of its word 1- to 3-grams found in at least two texts, for spaCy the vector the language model gives to that text. Reordering the entries or renaming the IDs of the dictionary changes no vector, and the texts are not modified.",
 ["inputs","configurations"],"every dictionary of texts over a small vocabulary, every order of its entries",
 "Tests check one dictionary per vectorizer, and those for spaCy cannot run without an installed model.",
 [M+"utils/vectorization.py"],[("tfidf",M+"utils/vectorization.py:vectorize"),("spacy",M+"utils/vectorization.py:vectorize")],(),["vectorize"])
p("C28","Preprocessing normalizes each text independently and as documented",
 "Preprocessing returns one text per data ID, each depending on its own text only: lower-cased, with punctuation and accents removed and words separated by single spaces, in the original order. Stop words, words deeper than the direct children of a dependency root, and inflected forms are removed or replaced by lemmas exactly when the corresponding option is set; preprocessing a preprocessed text again without options changes nothing.",
 ["inputs","configurations"],"every text over an alphabet of words, accents, punctuation and spaces, every combination of options",
 "The preprocessing tests need an installed language model and sample three sentences.",
 [M+"utils/preprocessing.py"],[("normalization",M+"utils/preprocessing.py:preprocess")],(),["preprocess"])
p("C29","The interactive loop converges to the annotator's clustering",
 "For every target partition in at least two clusters, alternating clustering, sampling and truthful annotation never raises a conflict, always proposes a new informative pair (by the unrestricted sampler, or by the same-cluster or the different-clusters one) until the constraints are complete, and needs at most one annotation per pair of data. Once constraints are complete the samplers propose nothing, the cluster range is the target's number of clusters, and k-means and hierarchical clustering return exactly the target partition.",
 ["histories","inputs","configurations"],"every target partition, every order of truthful annotation, every sampler",
 "The usage test runs one iteration of one dataset.",
 [BIN,S,KM,HI],[("annotation",BIN+":add_constraint"),("sampling",S+":sample"),("clustering",HI+":cluster")],[LED,CLO],["sample","add_constraint","cluster","check_completude_of_constraints"])
p("C30","MPCKMeans returns exactly the requested number of non-empty clusters",
 "Constrained MPCKMeans returns exactly min(k, number of data) non-empty clusters for a request of k, for every dataset and constraint state. Its exposed centers are, for each of those clusters, the mean of the vectors of its data.",
 ["inputs","histories","configurations"],"every constraint state, dataset, cluster number, constraint weight and seed",
 "Tests check one dataset.",
 [MP],[("empty cluster handling",MP+":_assign_clusters"),("means",MP+":_get_cluster_centers")],[("cluster centers","one row per cluster")],["cluster","cluster_centers"])
p("C31","MPCKMeans weighs distances and constraints as announced",
 "Every result of constrained MPCKMeans is one that metric pairwise constrained k-means reaches with the given constraint weight w, by passes that visit the data in some order and send each one to the cluster of least cost: squared distance to the center in the current metric, plus 2w times the squared distance to each MUST_LINK datum already placed elsewhere, plus 2w times the shortfall from the largest squared distance for each CANNOT_LINK datum already placed there. Each pass then fills empty clusters with the data farthest from their center, moves each center to the mean of its cluster and sets each axis of the metric to the number of data divided by the scatter and violated constraints along it, until the centers stop moving or the iteration limit is reached. Initial centers are those of the MUST_LINK groups, completed by data drawn at random or reduced by a weighted farthest-first traversal.",
 ["inputs","histories","configurations"],"every constraint state, dataset, cluster number, constraint weight, iteration limit, visiting order and initial draw",
 "Tests check one dataset, one weight and one seed; dropping or mis-weighting a penalty changes only some datasets.",
 [MP],[("cost",MP+":_objective_fn"),("assignment",MP+":_assign_clusters"),("metric",MP+":_update_metrics"),("initial centers",MP+":_initialize_cluster_centers")],[("metric","diagonal matrix learned at each pass")],["cluster"])
DB=C+"dbscan.py"
p("C32","DBSCAN groups data that are close or linked, and only those",
 "In the clusters returned by constrained DBSCAN, two data share a cluster only when a chain leads from one to the other in which each step is between data at most eps apart or linked by an inferred MUST_LINK. A datum with no MUST_LINK to another one, and with no datum within eps (itself included) that has min_samples data within eps, is always reported as noise; conversely a datum that has such a neighbour is never noise when no CANNOT_LINK involves the data that steps of at most eps lead to. At least min_samples data without constraints, all at most eps apart from each other and farther from all others, form exactly one cluster.",
 ["inputs","histories","configurations"],"every constraint state, dataset, eps and min_samples",
 "Tests check one dataset and one setting, never the exact boundary eps nor min_samples.",
 [DB],[("neighbourhoods",DB+":cluster"),("merging",DB+":cluster")],[("local clusters","eps-neighbourhoods of core data")],["cluster"])
p("C33","Clustering depends on the geometry of the data, not on its unit or frame",
 "Multiplying all coordinates by a power of two changes no result of k-means (its tolerance being multiplied likewise), hierarchical clustering, default affinity propagation, DBSCAN (eps being multiplied likewise) and the distance-based samplers. On data without distance ties, neither does shifting or negating all coordinates, exchanging axes or negating one (for every algorithm, spectral clustering and MPCKMeans included), nor, except for those two, adding a constant axis or spreading each axis evenly over several. For affinity propagation and spectral clustering this holds where the (adjusted) similarity determines the result.",
 ["inputs","histories","configurations"],"every constraint state, dataset, algorithm, exact change of unit or frame",
 "Tests use a few datasets with coordinates of one magnitude; an absolute threshold hidden in the code only shows on another scale.",
 [C+"kmeans.py",C+"hierarchical.py",C+"affinity_propagation.py",DB,MP,S],[("distances",DB+":cluster"),("distances",HI+":cluster"),("distances",KM+":cluster"),("distances",S+":sample")],(),["cluster","sample"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import re
for x in P:
    n=len(re.findall(r'\.(?=\s|$)',x['statement']));
    if n>3: print(x['id'],n)
print(len(P))
