#!/usr/bin/env python3
"""Writes properties.jsonl (the list of properties is kept here so that it stays valid JSON)."""
import json, os
T = "lumberjack/src/tree.rs"; M = "lumberjack/src/tree_modification.rs"; S = "lumberjack/src/span.rs"
N = "lumberjack/src/node.rs"; E = "lumberjack/src/io/encode.rs"; G = "lumberjack/src/io/negra.rs"
P = "lumberjack/src/io/ptb.rs"; PG = "lumberjack/src/io/ptb.pest"; C = "lumberjack/src/io/conllx.rs"
F = "lumberjack/src/features.rs"; U = "lumberjack/src/util.rs"; X = "lumberjack-utils/src/bin/lumberjack-conversion.rs"
ED = "lumberjack/src/edge.rs"
props = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=observe, hook_needed=None)))

TREES = ("all constituency trees with at least one terminal: any branching, unary chains, discontinuous phrases, "
         "any edge labels and node features, built through any reader or editing call, so that storage order and sentence order differ")

p("C01", "Every edit history leaves a well-formed constituency tree",
  "After any sequence of public editing operations, successful or refused, a tree is still one rooted tree: exactly one node has no parent, every other node has exactly one, every node is reachable from the root, terminals are leaves and nonterminals are not. The terminals occupy the positions 0..n-1 exactly once (n being the reported number of terminals), and each nonterminal's span is exactly the set of positions of the terminals below it. The tree reports itself projective exactly when no nonterminal's span skips a position.",
  ["histories", "inputs"], "every finite sequence of calls (push/insert/move/remove terminal, insert unary above/below, remove node, reattach node, add/remove secondary edges, filter, reattach terminals, insert intermediate, collapse/restore unary chains, projectivize, remove dummies, annotations) on " + TREES,
  "The unit tests apply one to four hand-picked calls to a handful of five-word trees and compare rendered strings; stale spans, a wrong discontinuity count or a cycle only show after particular sequences.",
  [T, M, S, N], [("span and discontinuity bookkeeping of the editing calls", T), ("span set operations", S), ("tree-wide operations", M)],
  ["Tree::graph", "Tree::parent", "Tree::children", "Node::span", "Tree::is_projective", "Tree::n_terminals", "Tree::root"])

p("C02", "Word edits change the word sequence exactly as asked",
  "Appending, inserting, moving or removing a terminal acts on the sentence like the corresponding list operation: the word arrives at (or leaves) the requested position, every other word keeps its relative order, and every other node keeps its parent, edge label, label, form, lemma and features; an appended word hangs below the root, an inserted one below the given nonterminal, and a moved one stays below its parent. Removing the only child of a node or the only word of a tree, and appending to a tree whose root is a terminal, is refused with an error that leaves the tree unchanged. Positions beyond the sentence, a nonterminal where a word is asked for and a word as parent make the call panic, as documented.",
  ["histories", "inputs"], "every position and parent, on " + TREES,
  "Tests try a few positions on one tree with in-order storage; they never look at the positions of the remaining words after a removal.",
  [T], [("push_terminal, insert_terminal, move_terminal, remove_node", T)], ["Terminal::idx", "Tree::terminals", "Tree::parent", "Tree::n_terminals"])

p("C03", "Node edits reshape only the nodes they name",
  "Inserting a node above another puts it between that node and its former parent (becoming the root above the root); inserting below a nonterminal takes over all of its children; removing a nonterminal gives its children to its parent (or makes the only child of a removed root the new root); reattaching moves exactly one subtree below the requested nonterminal with an empty edge label and returns the old edge. All other attachments and edge labels, all node labels and features, and the order of words stay as they were. Reattaching below a terminal, below the node itself or one of its own descendants, or taking away the last child of a node, as well as inserting below a terminal and removing a root with several children, is refused with an error that leaves the tree unchanged. Nodes and edges that are not in the tree make removal and reattachment panic, as documented.",
  ["histories", "inputs"], "every choice of nodes, targets and labels, on " + TREES,
  "Tests check each call on one or two trees by rendered string, which hides spans, edge labels and features and cannot render discontinuous trees.",
  [T], [("insert_unary_above, insert_unary_below, remove_node, reattach_node", T)], ["Tree::parent", "Tree::children", "Tree::root", "Tree[edge]", "Tree[node]"])

p("C04", "All navigation queries describe one and the same tree",
  "For every node, the child lists are the inverse of the parent relation, the siblings are the other children of the same parent, two nodes are reported as siblings exactly when they have the same parent, the descendent terminals are exactly the words below the node, and climbing from a node yields its proper ancestors from the nearest to the root, each (where an edge is given) with the edge that leads from it down the path just climbed. Terminal and nonterminal listings partition the nodes of the tree, and each edge returned with a node is the edge that attaches it.",
  ["inputs", "histories"], "every node and pair of nodes of " + TREES,
  "Tests look at the siblings of one node and one climb; the sibling test has no test at all.",
  [T, U], [("parent/children/siblings/are_siblings/descendent_terminals", T), ("Climber", U)], ["Tree::parent", "Tree::children", "Tree::siblings", "Tree::are_siblings", "Tree::descendent_terminals", "Climber"])

p("C05", "Projectivization removes all crossings and nothing else",
  "Projectivizing any tree makes it projective while keeping the word order, the set of nodes with their labels and features, the root, and every edge label. Nodes only move down: each discontinuous node receives the largest subtrees that fill its gaps, so every nonterminal still dominates every word it dominated before, and a node whose parent changed appears in the returned report together with the parent and edge it had before. A tree that is already projective is left unchanged and no report is returned.",
  ["inputs"], TREES + ", including nested and mutually crossing discontinuities",
  "The test compares 500 treebank sentences of one corpus with stored output; nested, overlapping and multi-gap discontinuities and the returned report are hardly sampled.",
  [M, T, S], [("Projectivize::projectivize", M), ("reattach and span merging", T)], ["Projectivize::projectivize", "Tree::is_projective", "Tree::parent", "Node::span"])

p("C06", "Bracketed output reads back as the same tree",
  "Writing a projective tree as Simple, PTB or TüBa brackets and reading the text in the same format gives a tree with the same words, tags, word order, nesting and node labels, in PTB and TüBa also the same node annotations, and in TüBa also the same edge labels below the root; parentheses inside a word or tag come back as LBR and RBR. A non-projective tree is refused with an error and nothing is written.",
  ["inputs"], "all projective trees whose words and labels contain no space, tab or line break (words may contain other Unicode blanks), parentheses (labels) or delimiters of the format ('-' in PTB labels, ':' and '=' in TüBa labels, ':' in TüBa edge labels, '--' as an edge label), and all non-projective trees for the refusal",
  "Tests round-trip one German corpus in the TüBa format plus three literal trees; the PTB format is never read back.",
  [P, PG], [("tree_to_string / string_to_tree / PTBWriter", P), ("bracket grammar", PG)], ["PTBFormat::tree_to_string", "PTBFormat::string_to_tree", "PTBWriter"])

p("C07", "Bracket reading depends on the brackets, not on the layout",
  "A bracketed tree is read into the tree its brackets describe whatever spaces and line breaks separate its tokens, and in multi-line mode wherever the text is broken into lines; labels are taken apart as the format says (PTB: annotation after the first '-' unless the label begins with it, TüBa: edge label after ':' and annotation after '=', '--' meaning no edge label, Simple: not at all). Text in the canonical layout of a format is reproduced character for character when the tree is written again.",
  ["inputs"], "all well-formed bracketed trees of the three formats with labels valid for the format (no inner '-' in PTB tags of words), all placements of spaces and line breaks between tokens",
  "Tests read one multi-line file and a few single lines; they only check that parsing succeeds or the number of words.",
  [P, PG], [("parse_value / process_label", P), ("PTBReader multi-line buffering", P), ("implicit whitespace of the grammar", PG)], ["PTBFormat::string_to_tree", "PTBReader"])

p("C08", "NEGRA output reads back as the same tree",
  "Writing any tree rooted in the virtual root as NEGRA export and reading it back gives the same words, lemmas, morphology, tags, node labels and annotations, the same attachments and edge labels (so the same discontinuities), the same secondary edges (at most one per node), and the same sentence id and metadata. Trees written one after the other to one writer come back in order; trees without a sentence id are numbered 0, 1, 2, ... In the text the words come first, in sentence order, then the nonterminals, numbered from 500 on, each after its children and with `--` for lemma and morphology. A tree consisting of a single terminal without a root node is refused with an error.",
  ["inputs", "histories"], "all trees, projective or not, with root label VROOT whose words and labels are single non-empty tokens without Unicode whitespace (words not starting with '#', secondary edge labels not starting with '%', annotations without '='), with any label length from one character to longer than the column",
  "Tests round-trip one corpus whose trees come from the same reader, so storage order always equals file order and nonterminal numbering is never stressed; secondary edges are never read back.",
  [G], [("NegraWriter numbering and columns", G), ("NegraReader / Builder", G)], ["NegraWriter::write_tree", "NegraReader::next", "Tree::secondary_parent"])

p("C09", "NEGRA reading depends on the content of the lines only",
  "A NEGRA sentence is read into exactly the tree its lines describe, with the spans and projectivity this tree has: the ids chosen for nonterminals, the order of the nonterminal lines (each after at least one of its children), the amount and kind of blank space between columns, trailing comments, and text outside #BOS..#EOS make no difference. The columns become form, lemma, tag, morphology, label with annotation, edge label, parent and optional secondary edge, with '--' meaning absent for lemma, morphology and edge labels.",
  ["inputs"], "all well-formed NEGRA sentences: any tree, any injective id assignment, any admissible line order and spacing",
  "The corpus files list nonterminals bottom-up with consecutive ids and tabs only.",
  [G], [("Builder::process_line / process_edges / try_into_tree", G)], ["NegraReader::next", "Node::span", "Tree::is_projective"])

p("C10", "No input text makes a reader panic or yield a broken tree",
  "Whatever text is given to the NEGRA reader, to the bracket parser and reader in any format and line mode, or as labels on a CoNLL-X sentence to be decoded, every item produced is either an error or a well-formed tree (as in C01), the iteration ends, and nothing panics or hangs.",
  ["inputs"], "all byte strings up to a few kilobytes, concentrated on mutated, truncated, spliced and cyclic variants of valid files; nesting depth and encoded depths up to a few hundred",
  "Tests feed a dozen literal malformed inputs and accept a panic as the expected outcome.",
  [G, P, PG, C, E], [("NEGRA line parsing and tree checks", G), ("grammar and multi-line buffering", P), ("label parsing", C), ("decode", E)], ["NegraReader::next", "PTBReader::next", "PTBFormat::string_to_tree", "TryFromConllx"])

p("C11", "Treebank streams yield each sentence once, in order, independently",
  "Reading a file of several sentences yields one tree per sentence, in file order, each the same as when the sentence is read alone; comment lines starting with '%' between bracketed trees, blank lines between multi-line trees and text between NEGRA sentences are skipped. A sentence that is malformed between its own delimiters produces an error and leaves all other sentences as they are. A NEGRA sentence or multi-line tree cut off by the end of the file is reported as an error and not silently dropped.",
  ["inputs", "fault_sequences"], "all sequences of well-formed and damaged sentences in NEGRA, single-line and multi-line bracket files, with skipped material between them",
  "Tests read whole well-formed files; reading on after an error, or to a truncated end, is never tried.",
  [G, P], [("NegraReader::next", G), ("PTBReader::next", P)], ["NegraReader", "PTBReader"])

p("C12", "Absolute and relative encodings decode to the encoded tree",
  "For every projective tree, collapsing its unary chains, encoding it on the absolute or relative scale, decoding with its own words and restoring the chains gives back the original words, nesting and node labels. Converting between the absolute and relative encoding of a tree loses nothing in either direction, and both describe the same tree.",
  ["inputs"], "all projective trees whose node labels are non-empty and do not contain '_' (the chain delimiter used by the encoder), with any unary chains including a chain over the whole sentence, and any storage order",
  "Tests round-trip one corpus and four literal trees, all built in sentence order.",
  [E, M], [("encode_absolute / encode_relative", E), ("Decode::decode", E), ("try_from_relative / From<AbsoluteEncoding>", E)], ["Encode", "Decode", "AbsoluteEncoding", "RelativeEncoding"])

p("C13", "Encoded labels state the lowest common ancestor of adjacent words",
  "In the absolute encoding, the label of each word but the last is the label of the lowest nonterminal dominating it and the next word (with the node's collapsed chain) together with the number of nonterminals dominating both, and the last word has none; in the relative encoding the number is replaced by the difference to the previous word's, or dropped where the ancestor is the only common one. Each word also carries its own collapsed chain, the annotated feature values spell the same labels, and a non-projective tree is refused with an error.",
  ["inputs"], "all trees without unary chains (as left by collapsing), projective for the labels and non-projective for the refusal",
  "Tests compare with a few hand-written label sequences.",
  [E, U], [("get_common", E), ("annotate_absolute / annotate_relative", E)], ["Encode::encode_absolute", "Encode::encode_relative", "Encode::annotate_absolute", "Encode::annotate_relative"])

p("C14", "Trees survive being stored as labels in CoNLL-X text",
  "Collapsing a projective tree's unary chains, annotating the absolute or relative labels, writing CoNLL-X text, parsing that text and decoding it yields a tree with the same words, tags, word order, nesting and node labels as the original. Both label scales yield the same tree.",
  ["inputs"], "all projective trees whose words, tags and labels are valid CoNLL-X fields without the reserved characters '_', '+', '~', ':', '|' in node labels (and no node labelled NONE), with any additional token features",
  "Tests do it for one corpus, in memory, without going through text and only with trees built in sentence order.",
  [C, E, M], [("TryFromConllx", C), ("From<&Tree> for Sentence", C), ("annotate_*", E)], ["ToConllx", "TryFromConllx", "Encode"])

p("C15", "Any predicted label sequence decodes to a tree over all its words",
  "Decoding any sequence of syntactically valid absolute or relative labels, consistent with a tree or not, yields a well-formed projective tree over exactly the given words and tags in the given order. A relative sequence whose running depth falls below one is repaired by using depth two at that word and continuing from there, giving the same tree as the repaired absolute sequence. Removing dummy nodes leaves no node labelled DUMMY except possibly a root with several children, and keeps all words and all other nodes in place.",
  ["inputs", "fault_sequences"], "all non-empty sequences of labels with depths up to a few hundred, missing labels anywhere, leaf chains anywhere, offsets that run negative anywhere",
  "One test changes one offset of one encoding; decoders are meant for arbitrary model output.",
  [E, C], [("Decode::decode", E), ("RelativeToAbsoluteError::fix", E), ("remove_dummy_nodes", E)], ["TryFromConllx", "Decode::remove_dummy_nodes", "AbsoluteEncoding::try_from_relative"])

p("C16", "Collapsing unary chains is exactly undone by restoring them",
  "Collapsing unary chains leaves no nonterminal with a single child, keeps all branching nodes, words and their order, and records on each lowest node of a chain the labels above it from the inside out; restoring brings back the original nesting and labels. Collapsing a tree without unary chains changes nothing.",
  ["inputs"], "all trees (projective or not) and all delimiters that occur in no node label and run together with none (':' and '::'), labels non-empty",
  "Tests use four projective literal trees and one delimiter.",
  [M], [("UnaryChains::collapse_unary_chains / restore_unary_chains", M)], ["UnaryChains", "Features::get_val"])

p("C17", "Filtering nonterminals keeps exactly the wanted nodes",
  "Filtering keeps the root, all terminals and exactly the nonterminals accepted by the predicate, with their labels, features and spans; every kept node hangs below its nearest kept ancestor, and the words and their order are unchanged.",
  ["inputs"], "all predicates on node labels (positive and negative label sets) and on features, on " + TREES,
  "Two tests on one nonprojective tree.",
  [M, U], [("TreeOps::filter_nonterminals", M), ("LabelSet", U)], ["TreeOps::filter_nonterminals", "LabelSet::matches"])

p("C18", "Reattaching terminals moves the matched words and always finishes",
  "Reattaching terminals puts every matched word directly below the attachment node, removes exactly those nonterminals (other than the root and the attachment node) that are left without words, and keeps every other attachment, all labels and the word order. It finishes for every tree, also when the tree has a single word or all words match; with a word as attachment point and a match it panics, as documented.",
  ["inputs"], "all predicates on words and all attachment nonterminals, on " + TREES,
  "Two tests on projective trees with the root as attachment; one-word sentences never occur.",
  [M, T], [("TreeOps::reattach_terminals", M)], ["TreeOps::reattach_terminals", "Tree::parent"])

p("C19", "Intermediate nodes cover exactly the runs of selected words",
  "Inserting intermediate nodes leaves words whose parent is not selected untouched; below each selected parent, every maximal run of adjacent words attached directly to it is put under exactly one new nonterminal with the label given for that parent. Nothing else moves, and the word order is unchanged.",
  ["inputs"], "all label functions on parents, on " + TREES,
  "One test on one tree in sentence order.",
  [M], [("TreeOps::insert_intermediate", M)], ["TreeOps::insert_intermediate"])

p("C20", "Projected annotations come from the nearest matching ancestor",
  "Projecting tags or ids writes on each word the label or id of its nearest ancestor accepted by the predicate and nothing on words without one; ids are equal exactly for words with the same nearest accepted ancestor; projecting node indices gives one entry per position, the root where no ancestor matches. Annotating parent tags writes each word's immediate parent's label, and annotating parts of speech assigns the i-th tag to the i-th word of the sentence and is refused when the number of tags differs from the number of words. Everything else about the tree is unchanged.",
  ["inputs"], "all predicates on nodes, feature names and tag sequences, on " + TREES,
  "Tests use one or two trees whose storage order is the sentence order.",
  [T, M, U], [("project_tag_set / project_ids / project_nt_indices / map_climber_path", T), ("annotate_parent_tag / annotate_pos", M)], ["Terminal::features", "Tree::project_nt_indices"])

p("C21", "CoNLL-X export lists every word once, in order, with its fields",
  "Exporting a tree to CoNLL-X gives exactly one token per terminal, in sentence order, with the terminal's form, lemma, tag and features (in key order, as key:value or key), whether the tree is borrowed or consumed; written as text it parses back to the same tokens.",
  ["inputs"], "all trees, projective or not, any storage order; for the text form, fields valid in CoNLL-X",
  "Tests look at a handful of tokens from two trees in storage order.",
  [C, F], [("From<&Tree> / From<Tree> for Sentence", C), ("Features::to_string", F)], ["ToConllx::to_conllx", "Sentence::from", "conllx Writer"])

p("C22", "Tree equality means equal content, however the tree was built",
  "Two trees with the same words (form, tag, lemma, features), node labels, features, nesting and edge labels are equal whatever order or route they were built by; two trees differing in any one of these are unequal, in both directions of comparison.",
  ["inputs", "histories"], "all pairs of trees built by different routes, and all single changes (form, tag, lemma, a feature, a node label, an edge label, an attachment, an extra node or word, including in one-word trees)",
  "One test compares two trees and one change; the round-trip tests rely on equality without testing it.",
  [T, N, F, ED], [("PartialEq for Tree / subtree_eq / sort_indices", T), ("PartialEq for Terminal and NonTerminal", N)], ["Tree == Tree", "Terminal == Terminal"])

p("C23", "Features behave as a string map with a lossless text form",
  "Insert, lookup, removal and in-place changes behave as on a map from keys to optional values, and building features from a list keeps the last value per key. Printing gives the entries in key order as key:value or key joined by '|', and parsing that text gives back the same entries, including values that contain ':'.",
  ["inputs", "histories"], "all keys without ':' and '|' (for the text form not empty unless they have a value), all values without '|', all operation sequences",
  "One test with four entries.",
  [F], [("Features map, From<str>, ToString", F)], ["Features"])

p("C24", "Spans behave as the sets of positions they cover",
  "A span's bounds, containment test, count, list of skipped positions and iteration (ascending) all describe the same non-empty set of positions; one span covers another exactly when its set is a superset; a span is continuous exactly when it skips nothing. Spans are ordered by start, then end, then number of covered positions.",
  ["inputs"], "all pairs of position sets that occur as spans of nodes of trees",
  "Tests check about ten literal spans.",
  [S, N], [("Span", S), ("Node::continuity", N)], ["Span::contains", "Span::covers_span", "Span::n_indices", "Span::skips", "Span iteration", "Span ordering", "Node::continuity"])

p("C25", "The converter writes every input tree once, in order, format to format",
  "For every input and output format, the command-line converter writes exactly one sentence per input tree in input order, with the words, tags and everything the output format can express equal to the input; input and output may equally be files or standard streams. With projectivization on, every well-formed NEGRA file converts to every bracket and encoding format; an unreadable tree, or one the output format cannot express, makes it exit with a failure status after writing the trees before it.",
  ["inputs", "configurations"], "all pairs of formats, single-line and multi-line input, files of up to a few trees valid for the formats",
  "One end-to-end test converts one NEGRA file to one bracket format.",
  [X, P, G, C, E], [("get_reader / get_writer / main loop", X)], ["lumberjack-conversion stdout, output file and exit status"])

p("C26", "Converter options apply their edits in the fixed pipeline order",
  "The converter applies to each tree: dummy removal, projectivization (with secondary edges np or np_LABEL from the former parents if asked), part-of-speech tags from the given file sentence by sentence, reattachment of words whose tag starts with the prefix to the root, unique ids of the nearest ancestor in the id set or root, filtering to root and filter set, insertion above words whose parent is not in the insertion set, and parent tags, each exactly when its option is given, with the default label UNK and feature id. A tree whose sentence of tags is missing, unreadable, has another length or lacks a tag stops the run with an error. Options not given change nothing.",
  ["configurations", "inputs"], "all subsets of the options with generated sets, labels and prefixes, on files of up to a few trees",
  "No test uses any of these options except projectivization.",
  [X, M, T], [("main loop of the converter", X), ("label set files", X)], ["lumberjack-conversion output"])

p("C27", "Secondary edges never influence the primary tree",
  "Adding secondary edges to any tree and removing them again leaves every parent, child list, span, projectivity answer, encoding, bracket output, equality and the outcome of every editing operation as it would be without them; adding, finding, re-targeting and removing them returns exactly the edges added, and removing an edge that is primary or absent returns nothing and changes nothing.",
  ["inputs", "histories"], "all sets of secondary edges from nonterminals to any other nodes, including to ancestors and along primary edges, on " + TREES,
  "No test has a secondary edge in a tree that is edited or navigated.",
  [T, G, ED], [("primary/secondary filters in navigation and traversal", T), ("Edge", ED)], ["Tree::secondary_parent", "Tree::secondary_children", "Tree::remove_secondary_edge", "all primary queries"])

p("C28", "Results are reproducible and reading access changes nothing",
  "Repeating any conversion or editing operation on a copy of the same tree, in the same or in another process, gives the same tree, the same text and the same labels. Queries, writing, encoding and exporting leave the tree unchanged.",
  ["inputs", "configurations"], "all trees and operations, across the per-process randomisation of hash tables",
  "Tests run each operation once per process on inputs whose gaps have one or two words, where hash order cannot show.",
  [M, S, G, E, P, C], [("projectivize over hash-set skips", M), ("hash maps in writers and ids", G)], ["all outputs"])

p("C29", "Input and output faults are reported and lose nothing before them",
  "What a reader returns does not depend on how the input is delivered (piece sizes, buffer sizes, interrupted calls), and what a writer produces does not depend on how the output is taken. When the input fails for good, every sentence that ended before the failure is returned as usual and the failure is reported as an error; it never looks like the end of the input. When the output fails, the write call for the first tree that does not fit returns an error, and what was written is a prefix of the full output. The converter exits with a failure status when an input file is missing or unreadable, or its output cannot be written.",
  ["fault_sequences", "inputs"], "all files of a few well-formed or damaged sentences, all piece and buffer sizes, all points of failure, for the NEGRA, single-line and multi-line readers and the NEGRA, bracket and CoNLL-X writers",
  "Every test reads from memory or an ordinary file and writes to memory; no test has a failing or piecemeal device.",
  [G, P, C, X], [("NegraReader / NegraWriter", G), ("PTBReader / PTBWriter", P), ("WriteTree for the CoNLL-X writer", C), ("get_reader / get_writer", X)], ["NegraReader", "PTBReader", "WriteTree::write_tree", "lumberjack-conversion exit status"])

p("C30", "Climbing visits every ancestor of every word, also while editing",
  "Climbing from all words calls the given function for each word with its ancestors from the nearest to the root, one after another, until the function asks to stop for this word; each word is climbed from once. The function may change the tree at the node it is called for (remove it, mark the word, reattach the node or the word further up); climbing then goes on with the former parent of that node, and the tree is exactly what the edits made of it.",
  ["histories", "inputs"], "all functions deciding at each word and ancestor between going on, stopping, removing the ancestor, annotating the word and reattaching one of the two, on " + TREES,
  "No test edits a tree while it is climbed.",
  [T, U], [("Tree::map_climber_path", T), ("Climber", U)], ["Tree::map_climber_path", "Tree::graph"])

p("C31", "Setting a field changes that field and nothing else",
  "Assigning a label, form, lemma, feature, feature set or edge label to any node or edge, through the node, its terminal or nonterminal, or by index, returns the value held before, makes every getter and the displayed text show the new value, and leaves everything else in the tree and every copy of it as it was. Newly made terminals, trees and edges hold exactly the values they were made from.",
  ["inputs", "histories"], "all assignments to any node or edge, one after another, on " + TREES,
  "Tests set one or two fields on one node and never look at the rest of the tree or at copies.",
  [N, ED, T, F], [("setters of Node, Terminal, NonTerminal", N), ("Edge", ED), ("IndexMut for Tree", T)], ["Node", "Terminal", "NonTerminal", "Edge", "Tree[node]", "Tree[edge]", "Display"])

p("C32", "Equal trees behave alike, however they were built",
  "Two trees with equal content, built by different readers or editing calls and so with different node ids and storage order, stay equal under every sequence of the same operations applied at the same places: each call succeeds or is refused on both, returns the same values, and all text, labels and encodings made from them are the same. Only the order of node listings, the numbers given when unique ids are projected and the result of projectivization where it depends on the order in which discontinuous nodes are treated may differ.",
  ["histories", "inputs"], "all pairs of routes of construction and all sequences of editing, tree-wide, projection and annotation operations, on trees as in C01",
  "Tests never run an operation on two differently built copies of a tree.",
  [T, M, E, G, P, C, N], [("node order: sort_indices, terminals, children", T), ("tree-wide operations", M), ("storage-order independent output", G)], ["all operations and outputs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in props:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(props))
