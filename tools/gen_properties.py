# writes /verif/properties.jsonl  (one place to edit the statements)
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
V = "nephosem/core/vocab.py"; U = "nephosem/utils.py"; H = "nephosem/core/handler.py"; T = "nephosem/models/typetoken.py"
M = "nephosem/core/matrix.py"; X = "nephosem/specutils/mxutils.py"; C = "nephosem/specutils/mxcalc.py"
B = "nephosem/models/cbc.py"; TE = "nephosem/core/terms.py"; CF = "nephosem/conf.py"
DB = "nephosem/deprel/basic.py"; DH = "nephosem/deprel/dephandler.py"; DM = "nephosem/models/deprel.py"; DU = "nephosem/specutils/deputils.py"; DDU="nephosem/deprel/deputils.py"; G = "nephosem/core/graph.py"

p("P01", "Vocabulary selection returns exactly the items that satisfy the condition",
  "Comparing a vocabulary's frequencies with a number (<, <=, ==, >=, >) lists exactly the items whose frequency satisfies the comparison, and selecting by a list of items, a list of frequencies, several conditions at once, a rank slice, or a base word yields a new vocabulary holding exactly the matching items with their original frequencies. Asking for a sub-vocabulary of given items keeps every requested item, with frequency 0 when it was not there. The source vocabulary is left unchanged.",
  ["inputs"], "every vocabulary (any items, any integer or real frequencies) and every selection argument of the listed kinds",
  "Tests select from one fixed vocabulary of a few items; boundary frequencies, absent items, duplicates and combined conditions over arbitrary vocabularies are not sampled.",
  [V], [("dict comprehensions over frequencies; set membership of requested items", V + ":__lt__ ... subvocab")],
  [("frequency dictionary", "item -> frequency", V)], ["Vocab.freq < n", "Vocab[...]", "Vocab.subvocab", "Vocab.select_items"])

p("P02", "Vocabulary order is by frequency, ties alphabetical, whatever was entered first",
  "The tabular view of a vocabulary lists every item exactly once with its frequency, ordered by descending frequency and, among equal frequencies, by ascending item; rank slices follow that order. Item lists can be asked for in alphabetical or frequency order, ascending or descending, and are then sorted permutations of the items. None of this depends on the order in which the items were entered (except the mutual order of equal frequencies in a frequency-sorted item list).",
  ["inputs", "histories"], "every vocabulary and every insertion order of its items",
  "Tests look at one insertion order; the tie-break across equal frequencies depends on the order in which two stable sorts are applied.",
  [V, U], [("two stable sorts", V + ":dataframe"), ("sort_dict", U)], (), ["Vocab.dataframe", "Vocab.get_item_list", "Vocab[:n]"])

p("P03", "Frequency counting is exact and copies of a vocabulary are independent",
  "Incrementing an item by some amount adds exactly that amount to that item (starting from nothing when it is new) and changes no other item; the size, the total and the membership test always agree with the stored items. Copies, exported dictionaries and vocabularies constructed from a dictionary hold equal contents, and later changes to either side never show up in the other.",
  ["inputs", "histories"], "every vocabulary and every sequence of increments, assignments, copies and exports",
  "Aliasing between a vocabulary and the dictionary it was made from only shows up after a later mutation on one side, which the tests never perform.",
  [V], [("deepcopy on construction, copy and export", V + ":_construct, deepcopy, get_dict")], (), ["Vocab.increment", "Vocab.copy", "Vocab.get_dict", "Vocab.sum"])

p("P04", "Saving and loading a vocabulary gives back the same items and frequencies",
  "A vocabulary saved in the JSON or plain-text format and loaded again with the same format and encoding has exactly the same items with exactly the same frequencies, integers staying integers and reals staying reals. For the plain-text format this is claimed for items that are non-empty and contain no tab or line separator and have no blanks at either end.",
  ["inputs"], "every vocabulary with string items and numeric frequencies, every encoding able to represent it",
  "Tests save one small vocabulary; number formats (exponents, negative, huge integers), non-ASCII items and insertion orders are not covered.",
  [V, U], [("save_dict_json / load_dict_json, save_dict_plain / load_dict_plain", U)], (), ["Vocab.save", "Vocab.load"])

p("P05", "Corpus fields are mapped to the configured type and token strings",
  "A corpus line is split into fields by the configured line pattern, and the type (or collocate) string of a word is made of exactly the fields that the configured type format names, in its order and with its separators, whatever the column order of the line; token strings append the file name and the line position. A word built from named fields gives back those fields, and merging two word records of the same type combines their collocates without losing or mixing either side's.",
  ["inputs", "configurations"], "every well-formed corpus line, line pattern, type format and column order",
  "Tests use the default format with two or three columns; formats that skip, reorder or repeat columns are not covered.",
  [TE, "nephosem/core/terms.py"], [("CorpusFormatter", TE), ("ItemNode / TypeNode / TokenNode", TE)], (), ["CorpusFormatter.get", "get_type", "get_colloc", "TypeNode.merge"])

p("P07", "A frequency list counts every matching corpus line exactly once",
  "The frequency list built from a set of corpus files gives each type exactly the number of corpus lines, over all files, that match the line pattern and have that type; lines that do not match (such as separators) contribute nothing. The result does not depend on how the lines are distributed over the files, on the order of the files, or on the number of worker processes.",
  ["inputs", "configurations"], "every corpus, every distribution of its lines over files, every worker count",
  "Tests count one small corpus with one configuration; first/last lines, empty files and repeated types across files are not varied.",
  [T, H, U], [("ItemFreqHandler.build_item_freq, update_one_file, _worker_loop, _process_results", T), ("Paralleler.process, _job_producer, BaseHandler.prepare_fnames", H), ("read_fnames, read_fnames_of_corpus", U)], (), ["ItemFreqHandler.build_item_freq"])

p("P08", "Co-occurrence counts contain every pair inside the span exactly once",
  "The collocation frequency of a target type and a context type is exactly the number of pairs of positions such that the target occurs at the one and the context at the other within the configured left or right span, in the same segment; pairs across a boundary line (sentence or file, as configured) are never counted and nothing is counted twice or missed at the edges. The result's rows and columns are the selected target and context types.",
  ["inputs", "configurations"], "every corpus, left and right span (including 0 and spans longer than a segment), boundary setting and vocabulary filter",
  "Tests run one corpus with span 4-4 or so; short segments, asymmetric or zero spans and segment edges are where a sliding window loses or double counts.",
  [T, H, TE], [("BaseHandler.update_one_file, Window.update", H + ", " + TE), ("ColFreqHandler.update_one_match, process_right_window, _worker_loop_with_colvocab, _worker_loop_without_colvocab, _process_results, dict2matrix", T)],
  [("window", "left span, centre, right span of matched lines", TE + ":Window")], ["ColFreqHandler.build_col_freq"])

p("P09", "Every selected occurrence yields one token carrying exactly its context words",
  "Token retrieval returns exactly one token per occurrence of each queried type (no occurrence is missed, duplicated or merged with another), identified by type, file and line. Each token carries exactly the context words found within the span of that occurrence and inside the same segment, at their true signed distance and with their true line positions.",
  ["inputs", "configurations"], "every corpus, span, boundary setting and query vocabulary",
  "Tests retrieve tokens from one corpus; tokens near segment edges, several tokens in each other's window and zero spans are not covered.",
  [T, H, TE], [("BaseHandler.update_one_file, Window.update", H + ", " + TE), ("TokenHandler.update_one_match, process_right_window, _worker_loop, _process_results", T), ("TypeNode.merge, TokenNode", TE)], (), ["TokenHandler.retrieve_tokens"])

p("P10", "Parallel processing gives the same result under every schedule and distribution",
  "Results computed by several worker processes are merged into the same totals whichever worker handles which file, in whichever order the workers finish, and however many workers there are: every input file is processed exactly once, every partial result is merged exactly once, and the workers never share mutable state.",
  ["schedules", "inputs"], "every assignment of files to workers, every completion order and every worker count",
  "Tests run with one or two workers under whatever schedule happens; lost or duplicated partial results need particular distributions (more workers than files, empty chunks).",
  [H, T], [("Paralleler.process, _job_producer", H), ("ItemFreqHandler / ColFreqHandler / TokenHandler _worker_loop*, _do_process_job, _process_results", T)], (), ["build_item_freq", "build_col_freq", "retrieve_tokens"])

p("P11", "Selecting, reordering, transposing, concatenating keep cells under their labels",
  "Whenever a matrix is sub-selected, reordered, transposed, sampled, sliced or concatenated, each cell of the result addressed by its row label and column label equals the cell with those labels in the source, the requested labels appear in the requested order (a reordering may also name only some of the labels, which then selects them), and no label is lost, duplicated or invented. The source matrix is left unchanged.",
  ["inputs"], "every matrix (any shape, sparsity, value type), every selection and permutation of its labels",
  "Tests use one or two small matrices and a selection in natural order; a permutation or transposition that mislabels cells shows only on asymmetric data.",
  [M, X], [("TypeTokenMatrix.submatrix, reorder, transpose, sample, concatenate", M)],
  [("row_items / col_items / item2id maps", "label <-> index bijection", M)], ["TypeTokenMatrix.submatrix", "TypeTokenMatrix.reorder", "transpose", "concatenate", "sample", "m[...]"])

p("P12", "Merging matrices adds cells with the same labels and keeps all others",
  "Merging matrices yields a matrix over the union of their labels in which each cell is the sum of the cells that carry the same row and column labels in the inputs, absent cells counting as zero. The inputs are left unchanged and the result does not depend on the internal index order of the inputs.",
  ["inputs"], "every list of matrices with arbitrary overlapping or disjoint labels",
  "Tests merge one pair; overlap on both axes at once with different index orders is not sampled.",
  [X, M], [("merge_matrices / merge_two_matrices", X)], (), ["merge_matrices"])

p("P13", "Nested dictionaries and sparse matrices convert into each other without loss",
  "Converting a nested frequency dictionary to a sparse matrix places every entry at the index of its row and column label and nothing elsewhere, and converting back yields the same entries; an entry whose row label or column label is not in the requested lists is reported by an error, never silently misplaced. Values keep their numeric kind.",
  ["inputs"], "every nested dictionary with numeric values and every list of row and column labels",
  "Tests convert one dictionary; entries outside the label lists, empty rows, label orders and real values are not sampled.",
  [X, U], [("transform_dict_to_spmatrix, spmatrix_to_dict", X)], (), ["transform_dict_to_spmatrix", "spmatrix_to_dict"])

p("P14", "Thresholding, masking and dropping act on exactly the qualifying cells",
  "Comparing a matrix with a number marks exactly the stored cells that satisfy the comparison, multiplying by such a mask keeps exactly the marked cells with their values, and dropping rows or columns removes exactly those that satisfy the stated condition (all zero, or too few/low values) while every other cell stays under its labels. Reports of empty rows or columns name exactly the all-zero ones.",
  ["inputs"], "every sparse matrix and threshold, including negative values, explicitly stored zeros, single rows and columns",
  "Tests use small positive count matrices; sign, equality at the threshold and one-row matrices are not covered.",
  [M], [("__gt__ ... , multiply, drop, drop_zero_rows/cols, empty_rows", M)], (), ["m > x", "m.multiply", "m.drop", "m.empty_rows"])

p("P15", "Marginal sums and non-zero counts equal the sums and counts of the cells",
  "The row sums, column sums and grand total of a matrix, and its per-row and per-column non-zero counts, equal the sums and counts over exactly the cells of that row or column, are keyed by the right label, and are the same for every storage form of the same matrix.",
  ["inputs"], "every matrix of any shape (including a single row or column), storage form and value type",
  "Tests sum one square-ish integer matrix; single rows and columns, reals and stored zeros behave differently inside the sparse library.",
  [M], [("TypeTokenMatrix.sum, count_nonzero", M)], (), ["m.sum(axis)", "m.count_nonzero(axis)"])

p("P16", "Saving and loading a matrix gives back the same cells and labels",
  "A matrix saved to disk and loaded again has the same row labels, column labels, order and cell values, whatever its storage form and whether or not the files are packed into one; and the data frame of a matrix and its CSV export (read back with the first column as row labels) give back the same labels, order and values.",
  ["inputs"], "every matrix of every storage form with string labels, every file name (unpacked saving: not ending in .pac) and encoding; for CSV: labels that do not read as numbers or missing values, values up to the precision of number parsing",
  "Tests save one CSR matrix; other storage forms, empty matrices and non-ASCII labels are not sampled.",
  [M], [("TypeTokenMatrix.save / load, to_csv / read_csv", M)], (), ["save", "load", "to_csv", "read_csv"])

p("P17", "Association measures compute their defining formulas",
  "Each association measure offered (pmi, ppmi, log-likelihood as lik/llik, chisq, zscore, mi, dice, deltap in both directions, log ratio) returns the value of its defining formula on the two-by-two contingency table (joint frequency, row only, column only, neither), with ppmi clipped at zero, and the dispatcher by measure name computes the measure of that name. Expected values are row marginal times column marginal over the total.",
  ["inputs"], "every contingency table of non-negative counts with positive marginals (delta p and log ratio replace a proportion of exactly 0 or 1 by a value next to it)",
  "Tests compare a few numbers of one measure; a swapped marginal or a wrong sign only shows for asymmetric tables.",
  [C], [("Measure functions over the contingency table", C)], (), ["measures applied to a frequency matrix"])

p("P18", "Association matrices use each cell's own row and column marginals",
  "The association matrix of a frequency matrix holds, for each cell with non-zero frequency, exactly the measure computed from that cell's frequency, its own row's marginal, its own column's marginal and the given total, with the same labels as the frequency matrix; cells with zero frequency stay empty. Marginals given by the caller are matched by label, not by position, and default to the matrix's own sums.",
  ["inputs"], "every frequency matrix, marginal tables in any order and over more items, every total",
  "Tests use a matrix whose labels happen to be in the same order as the marginals.",
  [C], [("compute_association, calc_association, compute_ppmi", C)], (), ["compute_association", "compute_ppmi"])

p("P19", "Token weights are the association values of the token's own type",
  "The weight of a context word for a token is the association value between the token's own type and that context word, present for exactly the context words the token has; without the boolean option the weight is multiplied by the recorded position value. The token's type is read off its label (the fields before the file name: the first two when the label has the lemma/pos form, otherwise the first). The labels of tokens and contexts are those of the input, and the inputs are not changed.",
  ["inputs"], "every token-context matrix and every association matrix covering its types and contexts",
  "Tests weight one matrix with aligned labels; type lookup from the token label and label order mismatches are not varied.",
  [C], [("compute_token_weights", C)], (), ["compute_token_weights"])

p("P20", "Token vectors combine exactly the vectors of their own context words",
  "A token's vector is the sum (or product, as requested) over exactly the context words of that token of the context word's own type vector scaled by the weight of that context word in that token, with context words matched by label whatever their order in either matrix. Rows carry the token labels and columns the feature labels.",
  ["inputs"], "every token-context weight matrix and every context-feature matrix, labels in any order and only partly overlapping, every operation offered",
  "Tests use square aligned inputs with one operation.",
  [C], [("compute_token_vectors, addition / multiplication", C)], (), ["compute_token_vectors"])

p("P21", "Similarity ranks and nearest-neighbour lists are exact",
  "Rank matrices give each cell its rank among the values of its row (largest value first, or smallest first when reversed), nearest-neighbour queries return min(k, n-1) other items, none of the items left out being more similar, never the item itself, and the k-largest or k-smallest selection returns min(k, n) distinct indices such that no other element is better.",
  ["inputs"], "every square distance or similarity matrix and every k",
  "Tests rank one matrix; ties, k at the row length and unordered labels are not varied.",
  [C, M], [("compute_simrank, most_similar, get_largest_k / get_smallest_k", M)], (), ["compute_simrank", "most_similar"])

p("P22", "Committee cleaning removes exactly duplicates and supersets, keeping order and scores",
  "Cleaning the candidate clusters orders them from best to worst score (ties in their given order) and, among those with a positive score, keeps a cluster with its score and members exactly when no better placed cluster has the same set of members and no cluster has a proper subset of its members; the kept ones stay in that order. The single elements reported are exactly the first elements of the clusters without positive score that occur in no cluster with positive score. The candidates themselves are unchanged.",
  ["inputs"], "every list of scored clusters, with duplicates at any distance and with members in any order",
  "Tests clean lists whose duplicates are neighbours.",
  [B], [("remove_duplicate, clean_clusters, inverted_index, remove_singleton, remove_superset", B)], (), ["remove_duplicate", "clean_clusters"])

p("P23", "Committees merge with their most similar partner once, and residues are exact",
  "Merging goes through the committees in order: a committee not merged yet is joined with the most similar committee among the later ones that are still unmerged when that similarity reaches the threshold, and stays alone otherwise; every committee is in exactly one result. The residues reported are exactly the elements, in order, whose similarity to every committee is below the residue threshold; each of the other elements is added to the committee it is most similar to (once), and no committee loses a member. Inputs are unchanged.",
  ["inputs"], "every similarity matrix, number of committees and elements, and pair of thresholds",
  "Tests run one data set end to end.",
  [B], [("get_merged_committee, cbc_step2", B), ("cbc_step3", B)], (), ["get_merged_committee", "cbc_step3"])

p("P24", "Cluster scores use the average over exactly the cluster's own pairs",
  "The average similarity of a cluster is the mean over all unordered pairs of its members of that pair's similarity (one for a single member); its score is that average times its size, times the square root of its size, or alone, as the chosen metric says, and -1 for a single member; asking for the highest returns a cluster with its score such that no other scores higher. The address of a pair in the condensed similarity table is the same for both orders of the pair, inside the table, and distinct for distinct pairs. Sub-problem indices map back to the right global elements.",
  ["inputs"], "every number of elements, every pair of indices and every cluster",
  "Tests check a few indices of one size.",
  [B], [("score_cluster, cluster_avgsim, average_similarity, square_to_condensed, sub2glb", B)], (), ["score_cluster", "average_similarity", "square_to_condensed", "sub2glb"])


p("P25", "Dependency templates match exactly the occurrences in the parsed sentence",
  "Matching a dependency template against a parsed sentence returns every assignment of template nodes to distinct words of the sentence that respects the template's edges, edge labels and node patterns, each such occurrence, and nothing else. Target filters restrict the matches to the selected targets, and an empty filter means no restriction.",
  ["inputs"], "every parsed sentence (tree) and every template",
  "Tests match a handful of hand-written sentences with distinct relations; sibling relations with the same label and repeated words are where matching loses occurrences.",
  [DU, G, DM], [("subtree_match, match_level, match_successors, add_match", DU), ("PatternGraph.match_node / match_edge", G)], (), ["dependency feature extraction"])

p("P26", "Dependency frequencies count each match under its own target and feature",
  "The dependency frequency matrix counts every match of a template exactly once under the target string and the feature string that the template's macro describes; the total over cells equals the number of matches whose target and feature are selected.",
  ["inputs"], "every set of parsed sentences, template and macro descriptions",
  "Tests check a handful of cells of one corpus.",
  [DM, G], [("DepRelHandler.update_dep_rel_type, update_dep_rel_token, build_dependency, build_matrix_by_matches, _process_results", DM), ("MacroGraph.target, feature, add_match", G)], (), ["DepRelHandler.build_dependency"])

p("P27", "Settings come from the user over the defaults and never leak between objects",
  "Reading a configuration overlays the user's values over the defaults: every key the user gives has the user's value, with the type the setting calls for, and every other key keeps its default. Reading, updating or using settings in one place never changes the defaults or the settings held elsewhere.",
  ["inputs", "histories"], "every user configuration and every sequence of reads and updates",
  "Tests read one or two configurations; leaking state shows only when two configurations are used one after the other.",
  [CF, H], [("ConfigLoader.__init__, settings, read_params, load_config, update_config", CF), ("Paralleler.__init__ / BaseHandler.__init__ copy the settings", H)], (), ["ConfigLoader", "handler settings"])

p("P28", "Token-context matrices record a true position of each context word",
  "The token-context matrix built from retrieved tokens has one row per token and, for each token, non-empty cells for exactly the selected context words that occur in that token's window; the cell holds the signed distance of an occurrence of that context word (negative to the left, positive to the right), counted over the context words kept in that token's window.",
  ["inputs"], "every list of tokens with their contexts and every context vocabulary",
  "Tests build one matrix without checking positions.",
  [X, TE, T], [("transform_nodes_to_matrix, transform_dict_to_spmatrix", X), ("TokenNode.lspan / rspan / lcollocs / rcollocs", TE), ("TokenHandler.retrieve_tokens", T)], (), ["token-context matrix"])

p("P29", "Distance and similarity matrices relate the right pair of items",
  "The cell of a distance or similarity matrix under two labels is the requested distance or similarity between the two vectors with those labels in the input, the labels on both axes are exactly the input's row labels in the same order, and the input is left unchanged.",
  ["inputs"], "every matrix, every metric offered, dense or sparse, one or two inputs",
  "Tests compute cosine for one matrix.",
  [C], [("compute_distance, compute_cosine", C)], (), ["compute_distance", "compute_cosine"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
