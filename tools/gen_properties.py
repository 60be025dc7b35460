#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
B = "src/cognitivefactory/interactive_clustering/"
BIN, ABS, HIE, KM = B+"constraints/binary.py", B+"clustering/abstract.py", B+"clustering/hierarchical.py", B+"clustering/kmeans.py"
DB, AP, SP, MPC = B+"clustering/dbscan.py", B+"clustering/affinity_propagation.py", B+"clustering/spectral.py", B+"clustering/mpckmeans.py"
SAM, SF, CF, MF = B+"sampling/clusters_based.py", B+"sampling/factory.py", B+"clustering/factory.py", B+"constraints/factory.py"
FR, PRE, VEC = B+"utils/frequency.py", B+"utils/preprocessing.py", B+"utils/vectorization.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

prop("C01", "Inferred constraints are exactly the closure of the added ones",
     "After any sequence of operations on a binary constraints manager, the inferred constraint between two managed data is MUST_LINK exactly when a chain of added MUST_LINK constraints connects them (or they are the same data), CANNOT_LINK exactly when some added CANNOT_LINK constraint joins their two MUST_LINK groups, and nothing otherwise. In particular a deleted constraint or a deleted data leaves no trace in later inferences, and the answer does not depend on the order of the two arguments.",
     ["histories", "inputs"], "every finite history of data additions/deletions and constraint additions/deletions (accepted or rejected), every pair of managed data IDs",
     "The tests replay about ten fixed histories over at most ten IDs; the closure must be right after every history, in every merge order and after every deletion.",
     [BIN], [("incremental merge of MUST_LINK groups and propagation of CANNOT_LINK sets", BIN+": _add_constraint_transitivity"), ("closure rebuilt after deletions", BIN+": _generate_constraints_transitivity")],
     ["get_inferred_constraint"])
prop("C02", "Contradictory or invalid additions are rejected and change nothing",
     "Adding a constraint raises ValueError exactly when a data ID is not managed, the type is not MUST_LINK/CANNOT_LINK, or the type contradicts the currently inferred constraint; otherwise it succeeds and returns True. A rejected addition leaves managed data, added constraints and inferred constraints exactly as they were, so the manager never infers both types for the same pair.",
     ["histories", "inputs"], "every reachable manager state and every argument triple",
     "Tests show a few rejected calls, but never that the state is untouched for every state, nor that rejection is exact.",
     [BIN], [("checks before any write", BIN+": add_constraint")], ["add_constraint", "get_added_constraint", "get_inferred_constraint"])
prop("C03", "Added constraints are stored exactly and symmetrically until deleted",
     "The constraint reported as added between two distinct data is the one most recently added and not deleted since, with value 1.0, whatever the order of the two arguments, and None otherwise. Adding or deleting a constraint for one pair never alters what is stored for any other pair, and re-adding an existing constraint has no effect.",
     ["histories", "inputs"], "every history of operations and every pair of managed data IDs",
     "Tests look at the pairs they have just written; the frame (all other pairs, both argument orders) is quantified over all IDs and histories.",
     [BIN], [("canonical ordering of the pair when reading and writing", BIN+": add_constraint, delete_constraint, get_added_constraint")], ["get_added_constraint", "add_constraint", "delete_constraint"])
prop("C04", "Data IDs are added and removed without disturbing the others",
     "Adding an unmanaged data ID makes it managed with no constraint to any other data; removing one makes it unmanaged and removes exactly the constraints that involve it; constraints between the other data are kept, and the list of managed IDs gains or loses exactly that ID, keeping the order of the others. Adding a managed ID or removing an unmanaged one raises ValueError and changes nothing.",
     ["histories", "inputs"], "every reachable manager state and every data ID",
     "Tests add or delete one or two IDs in small managers; the frame over all other pairs and orders of IDs is not covered.",
     [BIN], [("row and column creation/removal", BIN+": __init__, add_data_ID, delete_data_ID")], ["get_list_of_managed_data_IDs", "get_added_constraint", "get_inferred_constraint"])
prop("C05", "Must-link components partition the managed data",
     "The connected components form a partition of the managed data IDs: every managed ID is in exactly one component, exactly once, no component is empty, and two IDs are in the same component exactly when their inferred constraint is MUST_LINK.",
     ["histories", "inputs"], "every reachable manager state",
     "Tests compare the component list with a literal for a few states; the partition must hold in every reachable state.",
     [BIN], [("components read off the shared MUST_LINK sets and de-duplicated", BIN+": get_connected_components")], ["get_connected_components", "get_inferred_constraint"])
prop("C06", "Completeness is reported exactly when every pair is known",
     "The completeness check answers True exactly when every pair of managed data has an inferred constraint.",
     ["histories", "inputs"], "every reachable manager state",
     "Tests cover three states; the counting argument must agree with the pairwise meaning in all of them.",
     [BIN], [("count of MUST_LINK plus CANNOT_LINK data compared with the number of managed data", BIN+": check_completude_of_constraints")], ["check_completude_of_constraints"])
prop("C07", "Bounds on the number of clusters are consistent with the constraints",
     "For a non-empty manager the reported maximum is exactly the number of MUST_LINK components; the reported minimum is at least 2, and the data can be split into that minimum number of labels (some possibly unused) without violating any inferred constraint.",
     ["histories", "inputs"], "every reachable non-empty manager state, every run of the randomised colouring",
     "Tests compare the pair with literals for a few states; feasibility of the minimum is a statement about all constraint graphs.",
     [BIN], [("greedy colouring of the CANNOT_LINK graph between components", BIN+": get_min_and_max_number_of_clusters")], ["get_min_and_max_number_of_clusters"])
prop("C08", "A conflict report lists exactly the two groups involved",
     "Asking which data are involved in a conflict returns None exactly when the given constraint does not contradict the inferred one; otherwise it returns exactly the data whose inferred constraint with one of the two given data is MUST_LINK, each once. Unknown IDs or types raise ValueError.",
     ["histories", "inputs"], "every reachable manager state and every argument triple",
     "Tests check two literal reports.",
     [BIN], [("selection of components containing one of the two data", BIN+": get_list_of_involved_data_IDs_in_a_constraint_conflict")], ["get_list_of_involved_data_IDs_in_a_constraint_conflict"])
prop("C09", "Saving and loading a constraints manager preserves it",
     "Loading the file written by saving a manager never fails and gives a manager with the same managed IDs in the same order, the same added constraint for every pair of distinct data and the same inferred constraint for every pair; saving does not change the manager.",
     ["histories", "inputs"], "every reachable manager state",
     "One test saves and loads one manager with three constraints.",
     [BIN], [("JSON document of IDs and added constraints, replayed on load", BIN+": to_json, load_constraints_manager_from_json")], ["to_json", "load_constraints_manager_from_json"])
prop("C10", "Sampled pairs are eligible, distinct and as many as possible",
     "A sample contains only pairs of two different managed data, smaller ID first, no pair twice, each satisfying the configured cluster restriction, and (by default, or as configured) neither already annotated nor already inferable. Its size is exactly the smaller of the requested number and the number of eligible pairs.",
     ["inputs", "histories", "configurations"], "every sampler configuration and seed, manager state, clustering result, vectors and requested number",
     "Tests compare a dozen literal samples with one data set and fixed seeds.",
     [SAM, SF], [("enumeration and filtering of ordered pairs, then truncation or random selection without replacement", SAM+": sample")], ["ClustersBasedConstraintsSampling.sample"])
prop("C11", "Distance-based sampling returns the extreme pairs in order",
     "With the closest-neighbours restriction the sampled pairs come in non-decreasing order of the distance between their own two vectors and no eligible pair left out is strictly closer than a sampled one; with the farthest-neighbours restriction the order is non-increasing and no eligible pair left out is strictly farther.",
     ["inputs", "histories", "configurations"], "every configuration with a distance restriction, every manager state, vectors and requested number",
     "Tests compare literal samples on one data set.",
     [SAM, SF], [("sorting of eligible pairs by pairwise distance and truncation", SAM+": sample")], ["ClustersBasedConstraintsSampling.sample"])
prop("C12", "K-means clustering never violates a constraint",
     "Whatever the vectors, constraints, number of clusters, seed, tolerance and iteration limit, COP K-means returns a labelling of all managed data in which any two data with an inferred MUST_LINK have the same label and any two data with an inferred CANNOT_LINK have different labels.",
     ["inputs", "histories", "configurations"], "every non-empty reachable manager, vectors for all managed data, nb_clusters >= 2 and configuration",
     "Tests check five literal clusterings of nine points.",
     [KM, ABS], [("exclusion of clusters holding a CANNOT_LINK data, propagation of the label to MUST_LINK data, opening of a new cluster when none is possible", KM+": _clustering_kmeans_model_COP")], ["KMeansConstrainedClustering.cluster"])
prop("C13", "Hierarchical clustering never violates a constraint",
     "Whatever the vectors, constraints, linkage and number of clusters, hierarchical clustering returns a labelling of all managed data in which any two data with an inferred MUST_LINK have the same label and any two data with an inferred CANNOT_LINK have different labels.",
     ["inputs", "histories", "configurations"], "every non-empty reachable manager, vectors for all managed data, nb_clusters >= 2 and linkage",
     "Tests check literal clusterings of nine points.",
     [HIE, ABS], [("leaves are MUST_LINK components; infinite distance between clusters holding a CANNOT_LINK; the root of unmergeable clusters is always split", HIE+": cluster, _compute_distance, _get_the_two_clostest_clusters, compute_predicted_clusters")], ["HierarchicalConstrainedClustering.cluster"])
prop("C14", "Every algorithm labels all managed data with canonical labels",
     "Whenever any of the six clustering algorithms returns, the result has exactly the managed data IDs as keys, and its non-negative labels are 0..k-1 numbered by first appearance when the IDs are taken in sorted order. Only DBSCAN gives negative labels, one different negative label -1, -2, ... per ignored data, and its counters of regular, ignored and total clusters agree with the returned labels.",
     ["inputs", "histories", "configurations"], "every algorithm and configuration, reachable manager and vectors for exactly the managed data for which the call returns",
     "Tests compare literal results; they never state coverage or numbering over all inputs.",
     [KM, HIE, SP, AP, DB, MPC, ABS], [("renaming of clusters by order and completion with ignored data", ABS+": rename_clusters_by_order; "+DB+": cluster")], ["cluster of the six algorithms"])
prop("C15", "Renaming clusters keeps the partition and numbers it canonically",
     "Renaming clusters returns a labelling of exactly the same data, in sorted order of the IDs, where two data share a label exactly when they did before, and the labels are 0..k-1 in order of first appearance along the sorted IDs; the given labelling is not modified.",
     ["inputs"], "every labelling (any integers, negative included, any number of data)",
     "One test checks one labelling.",
     [ABS], [("map from old to new IDs built along the sorted IDs", ABS+": rename_clusters_by_order")], ["rename_clusters_by_order"])
prop("C16", "Affinity propagation with absolute must-links keeps them together",
     "With absolute must-links (the default), affinity propagation gives the same label to any two data whose inferred constraint is MUST_LINK, for every data set, including degenerate ones such as mutually equidistant data, and whether or not the message passing converges.",
     ["inputs", "histories", "configurations"], "every reachable non-empty manager, vectors and iteration settings",
     "Two tests with constraints on one data set of nine points.",
     [AP], [("clustering of must-link meta-points and expansion of their labels to members", AP+": _affinity_propagation_constrained")], ["AffinityPropagationConstrainedClustering.cluster"])
prop("C17", "Queries, sampling and clustering leave their inputs untouched",
     "Querying a constraints manager, sampling, clustering, renaming clusters, computing frequencies, preprocessing and vectorizing never modify the constraints manager, the vectors, the texts or the clustering result they are given. Lists returned by the manager are fresh: changing them does not change the manager.",
     ["inputs", "histories", "configurations"], "every reachable manager and every argument of these operations",
     "No test compares the inputs before and after.",
     [BIN, SAM, KM, HIE, SP, AP, DB, MPC, ABS, FR, PRE, VEC], [("read-only access and fresh containers", "all listed files")], ["all query, sample and cluster operations"])
prop("C18", "Invalid settings and arguments are rejected, valid ones accepted",
     "Constructors and cluster/sample calls raise ValueError for every documented invalid setting (unknown names, non-positive iteration limits, eps or min_samples, negative tolerance or weight, too few components or clusters, a number of clusters given to DBSCAN or affinity propagation, negative or non-integer sample size, a constraints manager or vectors of the wrong type) and do not raise it for valid settings.",
     ["inputs", "configurations"], "every value of the documented parameters",
     "Tests try one or two bad values per parameter and miss boundaries.",
     [KM, HIE, SP, AP, DB, MPC, SAM, SF, CF, MF], [("parameter checks at the start of constructors and calls", "all listed files")], ["constructors, cluster, sample"])
prop("C19", "A random seed makes sampling and clustering reproducible",
     "With a fixed random seed, repeating a sampling or clustering call of any algorithm on equal inputs gives the same result whatever random numbers were drawn before or between the calls and whatever was computed earlier with the same object.",
     ["histories", "inputs", "configurations"], "every prior state of the global random generators, every seed and input",
     "Tests run each seeded call once, in a fixed order.",
     [SAM, KM, HIE, SP, AP, DB, MPC], [("seeding of the generator with the configured seed before drawing", SAM+": sample; "+KM+": initialize_centroids")], ["sample, cluster"])
prop("C20", "Cluster frequencies are exact proportions",
     "The cluster frequencies have exactly the labels of the given result as keys, in increasing order, each value being the number of data with that label divided by the number of data; an empty result gives an empty answer.",
     ["inputs"], "every labelling",
     "Two tests with literals.",
     [FR], [("counting per label", FR+": compute_clusters_frequency")], ["compute_clusters_frequency"])
prop("C21", "Text utilities keep each result attached to its own text",
     "Preprocessing and vectorization return exactly the IDs they are given, in the same order, and the text or vector of an ID is computed from that ID's own text; unknown vectorizers and uninstalled language models raise ValueError.",
     ["inputs", "configurations"], "every dictionary of texts and option",
     "Tests look at fixed texts given in ID order; no language model is installed in the test environment.",
     [PRE, VEC], [("row i of the vectorization belongs to the i-th ID", VEC+": vectorize"), ("one pass per text", PRE+": preprocess")], ["preprocess, vectorize"])
prop("C22", "Spectral clustering works on the constrained similarity of the data",
     "The similarity matrix handed to the spectral solver is symmetric and indexed by the managed data: 1 for every pair with an inferred MUST_LINK, 0 for every pair with an inferred CANNOT_LINK, and the unmodified RBF similarity of the two vectors for every other pair; the returned label of each data is the solver's label for its row, renamed.",
     ["inputs", "histories", "configurations"], "every reachable manager and vectors",
     "Tests compare final labels on one data set.",
     [SP], [("overwriting of matrix entries for each constrained pair", SP+": clustering_spectral_model_SPEC")], ["SpectralConstrainedClustering.cluster"])
prop("C23", "The hierarchical clustering tree is a consistent merge tree",
     "After hierarchical clustering, the exposed tree has all managed data at its root, each leaf is one MUST_LINK component, each inner node's members are exactly the members of its children without overlap, all node IDs differ, and no node other than possibly the root contains two data with an inferred CANNOT_LINK.",
     ["inputs", "histories", "configurations"], "every reachable non-empty manager, vectors, linkage and number of clusters",
     "Tests check a few literal member lists.",
     [HIE], [("cluster creation and merging", HIE+": cluster, _add_new_cluster_by_setting_members, _add_new_cluster_by_merging_clusters, Cluster")], ["clustering_root, Cluster.to_dict"])
prop("C24", "DBSCAN never groups two data that cannot be linked",
     "Whatever the vectors, constraints, radius and minimum neighbourhood size, two data with an inferred CANNOT_LINK never get the same label from DBSCAN.",
     ["inputs", "histories", "configurations"], "every reachable manager, vectors for all managed data, eps > 0, min_samples >= 1",
     "Two constrained tests on one data set.",
     [DB, ABS], [("conflicting neighbourhoods are broken up; merges with a CANNOT_LINK are refused", DB+": cluster")], ["DBScanConstrainedClustering.cluster"])
prop("C25", "Vectors are matched to data by ID, never by position",
     "Sampling and every clustering algorithm use, for each managed data, the vector stored under its own ID: giving the same vectors in another dictionary order gives the same result, and vectors of IDs that are not managed are ignored.",
     ["inputs", "configurations"], "every order of the vectors dictionary, any extra entries, every manager",
     "All tests list the vectors in the order of the managed IDs and give no extra vectors.",
     [KM, HIE, SP, AP, DB, MPC, SAM], [("lookup of vectors by managed ID", "cluster and sample of the listed files")], ["cluster, sample"])
prop("C26", "Factories build the requested object with the requested settings",
     "Each factory returns an object of the kind named by its argument, configured with exactly the given settings (and, for the named samplers, the cluster and distance restrictions their name says), and raises ValueError for any other name.",
     ["inputs", "configurations"], "every name and settings",
     "Tests check the class for each known name and one unknown name.",
     [CF, SF, MF], [("dispatch on the name", CF+", "+SF+", "+MF)], ["clustering_factory, sampling_factory, managing_factory"])
prop("C27", "DBSCAN keeps must-linked data together",
     "Two data with an inferred MUST_LINK always get the same label from DBSCAN.",
     ["inputs", "histories", "configurations"], "every reachable manager, vectors, eps and min_samples",
     "Two constrained tests on one data set.",
     [DB], [("merging of local clusters under must-link constraints", DB+": cluster")], ["DBScanConstrainedClustering.cluster"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
