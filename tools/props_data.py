NOT_APPLICABLE = []
NOTES = ("check.py ID runs the generated cases of one property: Hypothesis (python3-vt) "
         "generates and shrinks, persistent Jython workers execute /repo/lib, oracles in "
         "harness/props judge. check.py --replay FILE re-runs a reported case.")
TRUST = ("Assurance is that of generated-input search: the sampled cases of the run "
         "(counts in the evidence file), not all inputs. Trusted: the Python 3 oracle, "
         "Jython 2.7.3, the JSON channel to the worker.")

P("C02", "A corpus behaves as a mutable sequence of graph pairs",
  "Every sequence operation on a parallel graph corpus (append, insert, extend, pop, remove, index, count, membership, simple and extended slicing, concatenation, repetition, sorting, reversal, comparison, copying, purging of duplicate graphbanks) has the effect and result it has on a plain list of the same graph pairs, and slices, sums and products are again corpora with the same relations and meta data. Items that are no graph pairs and corpora with other alignment relations are rejected without changing the corpus; purging the corpus or one graph pair leaves these with one graph bank per file and touches nothing else. A deep copy equals its original but changes to its alignments, relations or meta data leave the original as it was, two corpora are equal exactly when relations, meta data and graph pairs in order are equal, and lists of relations that are handed in stay as they are.",
  ["histories", "inputs"],
  "all sequences of corpus operations with arbitrary indices, slices and argument corpora, including out-of-range and wrong-type arguments and equal-but-distinct graph pairs",
  "The tests exercise a few operations once on one sample corpus; index arithmetic, aliasing and error paths depend on the history and the arguments.",
  ["lib/daeso/pgc/corpus.py", "lib/daeso/pgc/graphpair.py"],
  [("ParallelGraphCorpus", "lib/daeso/pgc/corpus.py"), ("_check_compatibility", "lib/daeso/pgc/corpus.py"), ("purge", "lib/daeso/pgc/corpus.py")],
  ["corpus contents by identity, length, relations, meta data after every operation", "raised exception class"],
  "model-based property testing of operation histories against a list model (Hypothesis)", TRUST)

P("C03", "Alignments form a relation table; one-to-one pairs stay one-to-one",
  "After any history of adding and deleting node alignments, a graph pair reports exactly the alignments of a table mapping (source node, target node) to a relation, where in a one-to-one graph pair a new alignment first frees both nodes of their previous alignments, and only aligned nodes are known to the pair; lookups in both directions, filtering by relation, the number of alignments and the test whether both roots are aligned agree with that table. Deleting an alignment that does not exist is refused. Graph pairs are equal exactly when graphbank paths, graph identifiers, alignments and meta data are equal, inequality is the negation, and a deep copy is equal, keeps its meta data and evolves independently while sharing graphs and banks.",
  ["histories", "inputs"],
  "all histories of alignment operations on one-to-one and many-to-many graph pairs, with node identifiers shared between source and target graph",
  "The tests perform a handful of fixed operations; re-alignment in both directions, identifiers shared by both graphs and node house-keeping interact only in longer histories.",
  ["lib/daeso/pgc/graphpair.py", "lib/daeso/pair.py"],
  [("GraphMatching.add_align", "lib/daeso/pgc/graphpair.py"), ("GraphMapping.del_align", "lib/daeso/pgc/graphpair.py"), ("GraphMapping.__eq__/__deepcopy__", "lib/daeso/pgc/graphpair.py")],
  ["alignments(), get_align(), get_aligned_source_node()/get_aligned_target_node(), len(), ==, !=, copy.deepcopy()"],
  "model-based property testing of operation histories against a relation table (Hypothesis)", TRUST)

P("C17", "Edit distance is the minimal number of edits; median minimises distance",
  "The edit distance of two sequences equals the least number of insertions, deletions and substitutions that turns one into the other, in both argument orders, and is zero exactly for equal sequences; the normalised distance is that number divided by the length of the longer sequence (0 for two empty ones). The set median of a non-empty collection is one of its members and no member has a smaller summed distance to the others.",
  ["inputs"], "all pairs of str, tuple or list sequences; all non-empty collections of strings with any symmetric distance",
  "The tests compare a few word pairs; an error in one border row or one recurrence branch shows only for particular length and edit combinations.",
  ["lib/daeso/string/levenshtein.py", "lib/daeso/string/median.py"],
  [("levenshtein", "lib/daeso/string/levenshtein.py"), ("set_median_string", "lib/daeso/string/median.py")],
  ["return values"], "differential property testing against a reference dynamic program (Hypothesis)", TRUST)

P("C18", "Longest common subsequence is common, maximal and keeps its type",
  "The longest common subsequence returned for two sequences is a subsequence of both and no common subsequence is longer, in either argument order. It is a string for two strings, a tuple for two tuples and a list otherwise. Its normalised length is the length divided by the geometric mean of both lengths, and 0 when a sequence is empty.",
  ["inputs"], "all pairs of str, tuple, list or mixed sequences",
  "The tests sample a few strings; backtracking errors depend on the shape of ties in the length table.",
  ["lib/daeso/string/lcs.py"], [("longest_common_subsequence", "lib/daeso/string/lcs.py")],
  ["return values"], "differential and validity-predicate property testing (Hypothesis)", TRUST)

P("C19", "Global alignment is optimal",
  "Global alignment of two sequences reports for every pair of prefixes the best achievable score under the given similarity and gap cost functions, and an alignment of strictly increasing index pairs whose own score is the best one for the whole sequences.",
  ["inputs"], "all pairs of sequences, similarity functions and negative gap cost functions, including costs that differ per element",
  "The tests use two fixed sequences with uniform gap costs.",
  ["lib/daeso/string/needleman_wunsch.py"], [("needleman_wunsch", "lib/daeso/string/needleman_wunsch.py")],
  ["score table and alignment returned"], "differential property testing against a reference dynamic program plus re-scoring of the returned alignment (Hypothesis)", TRUST)

P("C20", "Local alignment is optimal and successive ones do not intersect",
  "Local alignment reports for every pair of positions the best non-negative score of an alignment ending there, and an alignment of strictly increasing index pairs achieving the best score overall, which is empty when nothing scores positively. Enumerating successive local alignments starts with a best one (ties go to the end position with the least index sum, then the least first index), never exceeds the requested limit, and no alignment shares a pair with an earlier one.",
  ["inputs"], "all pairs of sequences, similarity functions, negative gap costs and limits",
  "The tests fix three sequence pairs; ties, empty results and recalculation after the first alignment depend on the input.",
  ["lib/daeso/string/smith_waterman.py", "lib/daeso/string/waterman_eggert.py"],
  [("smith_waterman", "lib/daeso/string/smith_waterman.py"), ("waterman_eggert", "lib/daeso/string/waterman_eggert.py")],
  ["score tables and alignments returned"], "differential property testing against a reference dynamic program plus re-scoring (Hypothesis)",
  TRUST + " Disjointness is explored for consecutive alignments; the two recorded findings cover overlap with older ones and non-termination without a limit.")

P("C21", "n-grams and skip bigrams are complete, ordered and padded as requested",
  "The n-grams of a token sequence are exactly its contiguous runs of n tokens in order, of the sequence's own type or joined by the separator, taken from the sequence extended on both sides by the requested padding. Skip bigrams are exactly the ordered token pairs with at most the allowed number of tokens between them, in order of first and then second position, for sequences of any length. A table of n-grams for several orders holds for each order what the single-order function gives, with padding of n-1 by default when padding is asked for.",
  ["inputs"], "all str/tuple/list token sequences, orders, paddings, separators and skip distances",
  "The tests cover one short sequence per function; boundary lengths, padding widths and long sequences are not sampled.",
  ["lib/daeso/string/ngram.py", "lib/daeso/string/sgram.py"],
  [("n_gram_slices, n_gram_strings, n_gram_slices_range, pad", "lib/daeso/string/ngram.py"), ("skip_bigram_slices", "lib/daeso/string/sgram.py")],
  ["return values"], "differential property testing against a definition-level reference (Hypothesis)", TRUST)

P("C22", "ROUGE scores follow their definitions on every input",
  "ROUGE-N is the number of candidate n-grams that occur among the reference n-grams divided by the number of reference n-grams. ROUGE-L is the F-measure, weighted by beta, of the longest common subsequence's share of the candidate (precision) and of the reference (recall); ROUGE-S is the same F-measure over distinct skip bigrams in common relative to the skip bigrams of the first (recall) and second (precision) sequence, and ROUGE-SU adds a begin marker to both. Inputs too short to have any n-gram, token or bigram score 0.",
  ["inputs"], "all candidate and reference token sequences, n, beta and skip distances, including empty and one-token sequences",
  "The tests use the four sentences of the original paper with default parameters.",
  ["lib/daeso/string/rouge.py"], [("rouge_n, rouge_l, rouge_s, rouge_su", "lib/daeso/string/rouge.py")],
  ["return values"], "differential property testing against definition-level references (Hypothesis)", TRUST)

P("C23", "Similarity coefficients match their definitions",
  "Type match, token match, symmetric token match, cosine, Tanimoto, Dice, Jaccard and both overlap coefficients of two sequences, and the generalised cosine, Dice and Jaccard coefficients of any number of sequences, equal their defining formulas over the number of shared types and the sequence lengths. All but the token match are symmetric, the coefficients lie between 0 and 1, and they are 0 where the formula would divide by zero.",
  ["inputs"], "all sequences (str, tuple, list, set), with repeated items and empty ones",
  "The tests check one word pair per coefficient and empty strings.",
  ["lib/daeso/string/similar.py"], [("similarity functions", "lib/daeso/string/similar.py")],
  ["return values"], "differential and metamorphic (symmetry, bounds) property testing (Hypothesis)", TRUST)

P("C24", "tf*idf weights match their definition for every collection",
  "For every collection of documents the inverse document frequency and tf*idf functions return the sorted vocabulary and one weight row per document, where the inverse document frequency of a term is the logarithm of the number of documents over the number of documents containing it (divided by the logarithm of the number of documents when normalised), and tf*idf multiplies it by the term's share of the document, or by 0/1 with indicator weights. Collections of none or one document and empty documents get zero weights.",
  ["inputs"], "all collections of documents, including empty collections and empty documents, and all combinations of options",
  "The tests compute a few tiny collections; only one normalised case and no indicator case is covered.",
  ["lib/daeso/string/tf_idf.py"], [("idf, tf_idf", "lib/daeso/string/tf_idf.py")],
  ["return values"], "differential property testing against the defining formula (Hypothesis)", TRUST)

P("C25", "Numbers are spelled out correctly",
  "Every integer from 0 up to 24 digits is spelled in Dutch words such that groups of three digits are expressed by their own words and scale word, zero groups are silent unless the number is zero, 'een' is omitted before honderd and duizend, and four-digit numbers use hundreds when preferred and the hundreds digit is not zero. Hence different numbers get different spellings.",
  ["inputs"], "all integers from 0 to 10**24-1, with and without preference for hundreds",
  "No test covers the function.", ["lib/daeso/string/number.py"], [("spell_out_number", "lib/daeso/string/number.py")],
  ["return value"], "differential property testing against an independent speller (Hypothesis)", TRUST)

P("C01", "A corpus survives writing to and reading from a file",
  "Writing a parallel graph corpus and reading it back, in any of the three graph loading modes and by path, relative path, open file or buffer, yields an equal corpus: the same graph pairs in order with the same graphbank files, graph identifiers, alignments and meta data, the same relations and the same corpus meta data (apart from white space around text). The file lists every graphbank file once, however many graphbank objects or symbolic links name it, as a path relative to the corpus file's real directory or as an absolute path as requested, and numbers the graph pairs from 1. Writing, indented or not, leaves the corpus in memory unchanged, and what was read can be written elsewhere and read again without loss; setting an annotator creates or appends to the corpus meta data.",
  ["inputs", "histories"],
  "all corpora over any graphbank objects, relations, alignments and arbitrary XML meta data with any text; all ways of naming the corpus file; all directories",
  "The tests read and write sample files that share one directory layout and carry hardly any meta data; loss depends on duplicates, links, tags inside meta data, and characters.",
  ["lib/daeso/pgc/corpus.py", "lib/daeso/utils/etree.py"],
  [("PGCWriter, PGCParser", "lib/daeso/pgc/corpus.py"), ("ParallelGraphCorpus.write/read/set_annotator", "lib/daeso/pgc/corpus.py")],
  ["corpus objects read back", "the file written, parsed independently"],
  "round-trip property testing with an independent reader of the written file (Hypothesis)", TRUST)

P("C04", "Ordered graphs keep nodes, edges and edge order through any history",
  "After any history of adding, updating and removing nodes and edges (one by one, in bulk, as paths, with attribute dicts and keywords), the ordered directed graph holds exactly the nodes, edges and attributes of a model in which adding an existing node or edge only updates its attributes and removing a node removes its edges; successors are listed in the order in which their edges were added, predecessors, edges, degrees and counts being in line with them. Each node and edge has its own attributes, and an attribute dict handed in is never changed; removing what is not there, and attributes that are no dict, raise NetworkXError; copies and graphs made from graphs or edge lists are equal and independent; a subgraph keeps the order of nodes and edges, sharing their attributes.",
  ["histories", "inputs"], "all histories of graph operations with attribute dicts reused between calls",
  "The tests check a few fixed graphs; ordering and sharing of attribute dicts depend on the history of insertions, updates and removals.",
  ["lib/daeso/graph/ograph.py"],
  [("ODiGraph", "lib/daeso/graph/ograph.py")],
  ["nodes, edges, successors, predecessors, degrees, attribute dicts, exceptions after every operation"],
  "model-based property testing of operation histories (Hypothesis)", TRUST)

P("C05", "Linguistic graphs report tokens, terminals and yields as built",
  "After any history of building and changing a linguistic graph, its identifier, tokens, token string and root, and the label, tokens and token string of every node and the label of every edge are those last set; a node is empty when it has no tokens, punctuation when it has tokens and all are punctuation symbols, and non-terminal exactly when it has outgoing edges; terminals and non-terminals listed are exactly these nodes, with punctuation and empty terminals left out on request. The terminal yield of a node (by default the root) is the terminals reachable from it, each once, in depth-first order of the edges as they were added, in trees as in re-entrant and cyclic graphs. Edges between nodes that are not in the graph are refused with ValueError.",
  ["histories", "inputs"], "all graphs (trees, re-entrant, cyclic) with any node identifiers, tokens and labels and any combination of filters",
  "The tests use one small tree; re-entrancy, empty and punctuation nodes and identifiers that are false take particular inputs.",
  ["lib/daeso/graph/daesograph.py"],
  [("DaesoGraph", "lib/daeso/graph/daesograph.py")],
  ["accessors of the graph after every operation, terminal yields"],
  "model-based property testing of operation histories (Hypothesis)", TRUST)

P("C06", "GraphML graphbanks are read as their documents say",
  "For every GraphML document the graphs obtained have exactly the identifiers, tokens, root, attributes, nodes and edges that the document states: data belong to the graph, node or edge they are in, keys are resolved for that kind of element (or for all), defaults of keys apply to elements without own data (those for the kind of element over those for all), later data override earlier ones, edges keep document order, and text is taken whole whatever entities, CDATA sections or comments it contains and however the input is cut into chunks. Reading only given graphs yields exactly these, equal to what reading the whole document gives, and asking for graphs that are not there raises an error naming them. Documents whose nodes lack a label or tokens, or whose graphs lack tokens, are refused with DaesoError.",
  ["inputs"], "all GraphML documents with keys, defaults, graphs, nodes, edges and data in any order and notation; all sets of wanted graphs",
  "The tests read one sample graphbank without defaults, entities or chunk boundaries.",
  ["lib/daeso/gb/graphml.py", "lib/daeso/gb/parser.py", "lib/daeso/gb/graphbank.py"],
  [("GraphMLParser", "lib/daeso/gb/graphml.py"), ("GraphBankParser", "lib/daeso/gb/parser.py"), ("GraphBank", "lib/daeso/gb/graphbank.py")],
  ["graphs of the graphbank", "exceptions"],
  "differential property testing against an interpreter of the generated document (Hypothesis)", TRUST)

P("C07", "Corpus loading attaches the right graphs, once, in every mode",
  "Reading a corpus file gives every graph pair the graphbank and graph it names: in full mode all graphs of the graphbanks, in sparse mode exactly those some graph pair refers to, otherwise stubs carrying the identifiers; each listed graphbank and each graph in it is represented by a single object shared by all pairs that refer to it, and the graph found in its bank is that object; graphbanks and, in sparse mode, graphs no graph pair refers to any more are released (garbage collected). Relative graphbank paths are resolved against the directory of the corpus file, whether it is given as path, relative path or open file, and a missing graphbank is looked up next to the corpus file when paths are relaxed. A missing graphbank file, graphbank, graph or attribute raises DaesoError, unknown elements and the deprecated format attribute only warn, and graphbanks compare equal exactly when they are the same file, whatever the path and whether or not it exists, and loading a graphbank in an unknown format is refused.",
  ["inputs", "configurations"], "all corpus files over any graphbanks, with shared graphs, duplicate listings and any defect, in every loading mode and entry point",
  "The tests load sample corpora in one layout; sharing of graphs, duplicate listings, moved banks and defects are combinations they do not sample.",
  ["lib/daeso/pgc/corpus.py", "lib/daeso/gb/graphbank.py", "lib/daeso/gb/graphstub.py"],
  [("PGCParser", "lib/daeso/pgc/corpus.py"), ("GraphBank, SparseGraphBank", "lib/daeso/gb/graphbank.py"), ("GraphStub", "lib/daeso/gb/graphstub.py")],
  ["identity and content of graphbanks and graphs of the pairs", "exceptions and warnings"],
  "differential property testing against an interpreter of generated corpus files and graphbanks (Hypothesis)", TRUST)

P("C08", "Alignment evaluation reports the defined scores",
  "For any number of pairs of true and predicted corpora the evaluation counts, per relation and irrespective of relations, the true, predicted and common alignments of every pair of corpora, and derives precision, recall and F-score (0 where undefined), sums, means, sample variances and standard deviations, macro and micro averages exactly as defined. The overall macro average is the mean over relations of their micro scores and the overall micro average is the score over the summed counts. The evaluated corpora are unchanged, and the written report, whether to a file or an open stream, shows the same figures, with scores as percentages of two decimals, in the order of corpora and relations.",
  ["inputs", "histories"], "all sequences of true and predicted corpora, any relations, re-evaluation after adding more, any names",
  "The tests compare one sample corpus with itself and one altered copy.",
  ["lib/daeso/pgc/evaluate.py"],
  [("AlignEval, AlignCountsTable, AlignCounts", "lib/daeso/pgc/evaluate.py")],
  ["counts, measures and statistics per relation", "the written report, parsed"],
  "differential property testing against the defining formulas (Hypothesis)", TRUST)

P("C09", "Annotator agreement compares every ordered pair of annotators",
  "For two or more annotated corpora, agreement evaluates each annotator as truth against each other one as prediction, in order, optionally after leaving out alignments that involve a non-terminal node. Per relation and measure, the table holds each score at (true annotator, predicted annotator), with means and sample standard deviations of the columns and of all cells, never counting the diagonal. What is pickled, returned by the functions and printed by the command line tool, under the given or default annotator names, are these same figures.",
  ["inputs", "configurations"], "all sets of two or more annotations, names, and options, through functions and command line tool",
  "No test covers it.",
  ["lib/daeso/pgc/agreement.py", "bin/pgc_agreement.py"],
  [("cross_evaluate, tableize, AnalysesTable, run_eval", "lib/daeso/pgc/agreement.py")],
  ["evaluation and tables returned", "pickle files", "printed report, parsed"],
  "differential property testing against a reference computation (Hypothesis)", TRUST)

P("C10", "The corpus difference report is complete and exact",
  "The difference report of two corpora over the same graph pairs shows for every graph pair, in order and under numbered headings, both sentences and exactly the alignments that differ in relation, occur only in the first or only in the second corpus, and on request the identical ones, limited to requested relations (in the first corpus or, if only there, the second) and to alignments involving at least one word when so asked. Alignments are numbered consecutively and listed by source node, each with identifier, label, position if known, and tokens of both nodes and both relations, whatever characters they contain and however nodes are identified. Comments are shown on request, the annotators' names are used throughout, and the corpora are left unchanged.",
  ["inputs", "configurations"], "all pairs of annotations of the same graphs and all combinations of options, through function and command line tool",
  "No test covers it.",
  ["lib/daeso/pgc/diff.py", "bin/pgc_diff.py"],
  [("pgc_diff, print_alignments, print_comments", "lib/daeso/pgc/diff.py")],
  ["the report, parsed"],
  "differential property testing against set operations on both annotations (Hypothesis)", TRUST)

P("C11", "Splitting and joining corpora loses and reorders nothing",
  "Splitting a corpus file yields consecutive parts that together hold every graph pair once and in order, each a corpus with the same relations and meta data, referring to the same graphbank files and only those it needs, named after the range of pairs it holds; their number or size is the one asked for (as far as there are graph pairs; two parts by default). Joining corpus files yields, in the order of their names, the graph pairs of all with the relations and meta data of the first, so joining the parts gives the original; corpora with different relations are not joined. No other file is touched.",
  ["inputs", "configurations"], "all corpora, part numbers and sizes, file names, path styles and argument orders",
  "The tests count the output files for one sample corpus and two settings.",
  ["bin/pgc_split.py", "bin/pgc_join.py", "lib/daeso/pgc/corpus.py"],
  [("pgc_split", "bin/pgc_split.py"), ("pgc_join", "bin/pgc_join.py"), ("slices, +=, purge, write", "lib/daeso/pgc/corpus.py")],
  ["files written, read by an independent reader", "exit status"],
  "round-trip and differential property testing of the command line tools (Hypothesis)", TRUST)

P("C12", "Copying, packing and redirecting corpora keeps their meaning",
  "Copying corpus files makes copies that mean the same (same graphbank files, graph pairs, alignments, relations, meta data) in whatever directory, and skips with one warning each, touching nothing, sources that are missing or invalid and targets that are the source itself or exist without permission to overwrite. Packing puts every corpus and every graphbank it lists byte for byte, once, into one directory of the archive, so that after unpacking elsewhere the corpora can be read with relaxed paths without the originals; different files of the same name are refused. Changing directories replaces exactly the requested prefix of the graphbank paths and nothing else, and a dry run changes nothing.",
  ["inputs", "configurations"], "all corpora, directory layouts, links, sources, targets and options",
  "The tests only run the packing tool once without looking at the result.",
  ["bin/pgc_cp.py", "bin/pgc_zip.py", "bin/pgc_chdir.py", "lib/daeso/pgc/corpus.py"],
  [("pgc_cp", "bin/pgc_cp.py"), ("pgc_zip", "bin/pgc_zip.py"), ("pgc_chdir", "bin/pgc_chdir.py")],
  ["the directory tree afterwards, files read by an independent reader", "archive contents", "corpora read after unpacking", "warnings, exit status"],
  "model-based property testing of the command line tools on generated directory trees (Hypothesis)", TRUST)

P("C13", "Hitaext documents keep their settings and links; links survive conversion",
  "A Hitaext document holds exactly the file names, pseudo roots, render elements, alignment method and links that a history of operations has given it, also after writing it to a file or stream and reading it again; a document without both file names and an unknown alignment method are refused. With searching, the text document is found as named, relative to the Hitaext document, or beside it, in this order. Injecting the links of a document puts exactly those links on both document trees, and extracting them gives the same links in the order of the source document, by number or by identifier, so converting between the methods (also with the tool) keeps every link, and changing directories replaces only the directories of both file names.",
  ["histories", "inputs", "configurations"], "all histories of operations on a document, all pairs of trees and sets of links under both methods, all locations of the files",
  "No test covers it.",
  ["lib/daeso/ptc/document.py", "bin/ptc_n_to_id.py", "bin/ptc_chdir.py"],
  [("HitaextDoc", "lib/daeso/ptc/document.py"), ("inject_alignments, extract_alignments", "lib/daeso/ptc/document.py"), ("ptc_n_to_id, ptc_chdir", "bin/ptc_n_to_id.py, bin/ptc_chdir.py")],
  ["the document through its accessors after every operation", "files written, read by an independent reader", "_alignments of the trees"],
  "model-based property testing of operation histories and round trips (Hypothesis)", TRUST)

P("C14", "Indexing a document gives every element its number, text and position",
  "After indexing a document tree under given render settings, the text of the document is the stripped text of all elements that are not ignored, in document order, with line breaks after newline elements and blank lines after blank line elements; the positions of an element delimit exactly the text it contains. Every element has its rank among the elements of its tag, can be looked up by tag and rank and by tag and identifier, and has no alignments; all elements in an ignored subtree, and only those, are marked as ignored and have no text. The outcome depends on the tree as it is and the latest settings only.",
  ["inputs", "histories"], "all document trees and sequences of render settings",
  "No test covers it.",
  ["lib/daeso/ptc/ielemtree.py"], [("IndexElemTree.update, index_elem", "lib/daeso/ptc/ielemtree.py")],
  ["text, get_elem_text(), _n, _start, _end, _ignore, tagCountTable, tagIdTable"],
  "differential property testing against a reference indexer (Hypothesis)", TRUST)

P("C15", "Text alignment evaluation and comparison report the true differences",
  "For any true and predicted links over the same pair of documents, by number or by identifier, the evaluation counts exactly the true, predicted and common links between elements of the given tag, reports ratio, precision, recall and F-score computed from them (0 where undefined) for every pair of corpora, and overall scores from the summed counts. The comparison lists, consecutively numbered and in document order of the source elements with the given tag, exactly the links found in one corpus only, with identifiers and texts of both elements. The tools report the same.",
  ["inputs", "configurations"], "all pairs of documents, link sets, methods and tags, one or several pairs of corpora",
  "No test covers it.",
  ["lib/daeso/ptc/evaluate.py", "lib/daeso/ptc/diff.py", "bin/ptc_eval.py", "bin/ptc_diff.py"],
  [("eval_alignment, count_alignment, compute_scores", "lib/daeso/ptc/evaluate.py"), ("print_diff", "lib/daeso/ptc/diff.py")],
  ["return values", "printed reports, parsed"],
  "differential property testing against set operations on the generated links (Hypothesis)", TRUST)

P("C16", "Automatic text alignment links what scope, similarity and filter allow",
  "Automatic alignment adds to a document exactly the links between source and target focus elements that lie within aligned scope elements (or anywhere, without scope), are not ignored, and whose similarity under the chosen terms, weights and measure passes the filter; with clearing all earlier links involving focus tags are gone, and all other earlier links stay. A threshold filter keeps what scores above it; the no-crossing filter keeps pairs of at least the threshold without crossings, dropping only pairs that cross a kept pair of at least their score. The outcome is the same whether document trees are read again or reused.",
  ["inputs", "configurations", "histories"], "all pairs of documents with existing links, all aligner settings, and sequences of alignments of one document",
  "No test covers it.",
  ["lib/daeso/ptc/textalign.py", "lib/daeso/ptc/document.py", "lib/daeso/ptc/ielemtree.py"],
  [("TextAlignerBase.align_corpus", "lib/daeso/ptc/textalign.py"), ("no_cross_filter_factory, threshold_filter_factory", "lib/daeso/ptc/textalign.py"), ("term, weighting and similarity functions", "lib/daeso/ptc/textalign.py")],
  ["links of the document after every alignment", "return values of filters and term functions"],
  "differential property testing against a reference aligner, validity predicate for the filter under ties (Hypothesis)", TRUST + " The stop word list of package daeso_nl is not available and replaced by a stand-in.")

P("C26", "Statistics tables keep, total, print and read back what was put in",
  "A statistics table holds exactly the rows put into it, in order, whichever way it was filled. Its totals are the sums of the counts, with percentages and averages recomputed from those sums, and nothing where there is no such total. A written table shows every value right in its column with the column's width and precision, then totals and legend on demand, and reading it (alone or appended to earlier rows) gives the rows back to the printed precision, whatever the file names; a table cut off before its end is reported.",
  ["inputs", "histories"], "all sequences of rows of the three kinds of tables, ways of filling, layouts and points of truncation",
  "No test covers it.",
  ["lib/daeso/stats/table.py", "lib/daeso/pgc/pgcstats.py", "lib/daeso/gb/gbstats.py"],
  [("StatsTable, Column", "lib/daeso/stats/table.py")],
  ["rows, totals, types", "written text, parsed by an independent reader", "tables read back"],
  "round-trip and differential property testing against reference totals (Hypothesis)", TRUST)

P("C27", "Statistics of corpora and graph banks count what the options select",
  "For any corpora over any graph banks, the statistics count exactly the graph pairs, graphs, tokens, nodes, alignments and relations that the options select (failed parses, unaligned roots, unaligned graphs, punctuation), per corpus and per graph bank, flag those that are failed or rootless, and derive percentages and averages from the counts. The tools print the same numbers. Summaries of a directory tree of corpora recompute the chosen parts, keep the others as last computed, drop what is no longer there, and the totals of every level are made of the parts; the working directory is the same afterwards, also when a corpus cannot be read.",
  ["inputs", "configurations", "histories"], "all corpora and graph banks, all options, and sequences of summaries with chosen targets over changing trees",
  "No test covers it.",
  ["lib/daeso/pgc/pgcstats.py", "lib/daeso/gb/gbstats.py", "lib/daeso/stats/corpus.py", "bin/pgc_stats.py", "bin/gb_stats.py"],
  [("pgc_stats", "lib/daeso/pgc/pgcstats.py"), ("gb_stats", "lib/daeso/gb/gbstats.py"), ("corpus_seg_stats", "lib/daeso/stats/corpus.py"), ("main", "bin/pgc_stats.py, bin/gb_stats.py")],
  ["returned tables", "printed tables, parsed", "files written by the summaries"],
  "differential property testing against reference counts over the generated corpora (Hypothesis)", TRUST + " No importable graph bank format knows failed parses; a stand-in reads them from a graph attribute. Whether a graph aligned both as source and as target counts as single or multiple is left open.")

P("C28", "Graph corpora hold the text corpora's links; phrases are extracted",
  "A graph corpus made from a text corpus contains one graph pair without alignments for every link, in order, between elements of the focus tags whose words are few enough and differ enough according to the options, over the graphs of the linked elements from the given graph banks, with the given relations; a graph that is missing is an error, not an omission. The tool writes such a corpus for each text corpus and refuses numbers of files that do not match. Extracting phrases prints for every graph pair of every corpus, in order, exactly its aligned nodes with tokens and relation (and origins on demand), in any characters and with any delimiter.",
  ["inputs", "configurations"], "all text corpora, document pairs, links, graph banks and options",
  "No test covers it.",
  ["lib/daeso/pgc/creation.py", "bin/pgc_from_ptc.py", "bin/pgc_extract_phrases.py"],
  [("pgc_from_ptc", "lib/daeso/pgc/creation.py"), ("main", "bin/pgc_from_ptc.py"), ("pgc_extract_phrases", "bin/pgc_extract_phrases.py")],
  ["created corpora through their accessors", "files written, read by an independent reader", "output and exit status"],
  "differential property testing against a reference over the generated files (Hypothesis)", TRUST)

P("C29", "XML, file and pair helpers do what their users build on",
  "Two elements are equal exactly if tags, attributes, text up to surrounding blanks and all parts are. Indenting changes blanks only, puts every part that is not mixed with text on a line of its own at its depth, and does so the same again; writing to name, file or stream gives a document that reads back as the element. Multiple patterns match the sorted files of all patterns together, making directories succeeds exactly if the directory is there afterwards, pairs equal pairs of the same items only.",
  ["inputs", "configurations"], "all elements, levels and outputs; file trees, patterns and paths; pairs",
  "The tests do not call them directly.",
  ["lib/daeso/utils/etree.py", "lib/daeso/utils/opsys.py", "lib/daeso/utils/report.py", "lib/daeso/pair.py"],
  [("equal_elements, indent, write", "lib/daeso/utils/etree.py"), ("multiglob, makedirs", "lib/daeso/utils/opsys.py"), ("Pair", "lib/daeso/pair.py")],
  ["return values", "files and directories afterwards", "elements afterwards"],
  "metamorphic and differential property testing against reference helpers (Hypothesis)", TRUST)

P("C30", "The object cache returns what was put in, within its limits",
  "After any history of insertions, fetches, removals, generated values, reconfigurations and passing time, a fetch returns the object last put in under that key, unless it was removed, has expired or was evicted, in which case it fails or gives the default as asked; generators run exactly if there is no such object. The cache never holds more than its maximum, and evicts the least recently used object. Every operation ends, and threads working on one cache see no errors and no values of other keys, and their operations come out as if done one after the other; a value is generated once for threads that ask for it at the same time.",
  ["histories", "schedules", "configurations"], "all histories, configurations and sampled schedules of threads",
  "No test covers it.",
  ["lib/daeso/thirdparty/GenericCache/GenericCache.py", "lib/daeso/thirdparty/GenericCache/LRU.py"],
  [("GenericCache", "lib/daeso/thirdparty/GenericCache/GenericCache.py")],
  ["outcomes", "size and keys after every operation", "calls of generators", "exceptions and values in threads"],
  "stateful model-based testing against a reference cache on a simulated clock; real threads for safety (Hypothesis)", TRUST)

P("C31", "The bundled assignment solver is optimal; bundled containers are standard",
  "For any cost matrix, square or not, the assignment solver returns one cell per row and column of the smaller side with the least possible total cost, leaves the matrix as it was, and gives the same cost when reused; cost matrices and padding hold the values they should. The ordered dictionary and the counter behave as those of the standard library under any history of operations.",
  ["inputs", "histories"], "all cost matrices up to 6 x 6, all histories of container operations",
  "No test covers them.",
  ["lib/daeso/thirdparty/munkres.py", "lib/daeso/thirdparty/odict.py", "lib/daeso/thirdparty/counter.py"],
  [("Munkres", "lib/daeso/thirdparty/munkres.py"), ("OrderedDict", "lib/daeso/thirdparty/odict.py"), ("Counter", "lib/daeso/thirdparty/counter.py")],
  ["total cost and validity of the assignment", "outcomes and contents after every operation"],
  "differential property testing against exhaustive search and the standard containers (Hypothesis)", TRUST)

P("C32", "Command lines are parsed into what they say",
  "For any declared options and positional arguments, a command line yields exactly the values it spells out, with defaults for what it leaves out, however it is written: options in any order, abbreviated as far as that is unambiguous, joined to their values, bundled, behind -- or read from a file; and no parse affects a later one. A command line with a mistake (unknown, missing, surplus, ambiguous or ill-typed arguments) ends with status 2 and a message, never with a result. Help describes every argument, with texts wrapped or kept as asked, and the version is shown.",
  ["inputs", "configurations"], "all declarations of the kinds the tools use, and all ways of writing a command line",
  "No test covers it.",
  ["lib/daeso/utils/cli.py", "lib/daeso/thirdparty/argparse.py"],
  [("DaesoArgParser", "lib/daeso/utils/cli.py"), ("ArgumentParser", "lib/daeso/thirdparty/argparse.py")],
  ["parsed values", "exit status and messages", "help text"],
  "round-trip property testing: command lines are written from the values they are to mean (Hypothesis)", TRUST)

P("C33", "Printed scores, alignments, matrices and graph pairs show every value",
  "Printed score tables, alignments and matrices show exactly the elements and (whole) values they are given, for any sizes and lengths, in columns that are aligned, between the header and trailer asked for. The dump of a graph pair has one line per alignment with the identifiers and tokens of both nodes and the relation; the text of a corpus is what it writes to a file.",
  ["inputs"], "all sequences including empty ones, tables of whole numbers, alignments, and token texts",
  "No test looks at the output.",
  ["lib/daeso/string/needleman_wunsch.py", "lib/daeso/thirdparty/munkres.py", "lib/daeso/pgc/graphpair.py", "lib/daeso/pgc/corpus.py"],
  [("print_scores, print_alignment", "lib/daeso/string/needleman_wunsch.py"), ("print_matrix", "lib/daeso/thirdparty/munkres.py"), ("dump_alignments", "lib/daeso/pgc/graphpair.py")],
  ["printed text, parsed by independent readers"],
  "round-trip property testing: what is printed is parsed back (Hypothesis)", TRUST)

P("C34", "A tool that cannot do its work says so and leaves files alone",
  "A command line tool whose input is missing, damaged, or not consistent (corpora of which one names a graphbank, graph, element or method that is not there; parallel graph corpora to compare that do not belong together; elements to be linked by an identifier they lack), or which is asked for something not implemented (the token difference threshold of the statistics), or whose command line is wrong, ends with a non-zero exit status (status 2 and its usage for a wrong command line), prints no result as if it were complete, and leaves every existing file as it was and no new files behind, except for files completed for earlier inputs. Writing a corpus with a value that cannot be stored fails and keeps the file that was to be replaced.",
  ["faults", "inputs"], "all tools; every file they read; every place of damage",
  "Tests run the tools on intact files only.",
  ["bin", "lib/daeso/pgc", "lib/daeso/ptc", "lib/daeso/gb"],
  [("main", "bin"), ("read", "lib/daeso/pgc/corpus.py"), ("open", "lib/daeso/ptc/document.py")],
  ["exit status", "standard output", "contents of all files"],
  "fault injection into generated files with a control run, shrunk (Hypothesis)", TRUST)
