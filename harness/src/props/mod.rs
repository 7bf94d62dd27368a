use crate::engine::Prop;
mod cli;
mod edits;
mod enc;
mod io;
mod meta;
mod more;
mod nav;
mod ops;

const T: &[&str] = &["petgraph's graph storage, the Rust compiler and standard library behave as documented", "generated sizes are bounded as the rule says"];

macro_rules! prop {
    ($id:expr, $quick:expr, $len:expr, $f:expr, $rule:expr) => {
        Prop { id: $id, rule: $rule, quick: $quick, thorough_factor: 25, len: $len, f: $f, probes: &[], assumptions: T }
    };
}

static ALL: &[Prop] = &[
    prop!("C01", 800_000, 330, edits::c01, "Random tree (1-8 words, about one case in twenty 8-40; projective or with random discontinuous groupings, unary chains, edge labels, features, up to 2 secondary edges; built by editing calls in permuted order, by the NEGRA reader or by the bracket reader), then 1-14 random editing calls of 19 kinds with random arguments; after every call the whole tree is checked. Non-trivial: at least two calls succeeded and the tree has at least 4 nodes."),
    prop!("C02", 800_000, 260, edits::c02, "Random tree as in C01, then 1-10 calls, five in six of them push/insert/move/remove of a word with random position and parent, compared after every call with the list model. Non-trivial: at least one word edit was accepted and the tree has at least 3 nodes."),
    prop!("C03", 800_000, 260, edits::c03, "Random tree as in C01, then 1-10 calls, five in six of them insert above/below, remove nonterminal, reattach with random nodes, compared after every call with the model. Non-trivial: at least one node edit was accepted and the tree has at least 3 nodes."),
    prop!("C04", 1_200_000, 260, nav::c04, "Random tree (1-12 words, about one case in twenty 8-40 words; unary chains, edge labels, features; built by editing calls in permuted order, by the NEGRA reader or by the bracket reader, half of them edited by random calls before); every query is compared with the parent relation read from the graph for every node and pair of nodes. Non-trivial: the tree has at least 4 nodes."),
    prop!("C05", 600_000, 260, ops::c05, "Random tree (1-12 words, about one case in twenty 8-40 words; unary chains, edge labels, features; built by editing calls in permuted order, by the NEGRA reader or by the bracket reader, half of them edited by random calls before), mostly with discontinuous groupings; projectivized and compared with the result set of a reference that fills gaps from below in every order (order search capped, counted in a class). Non-trivial: the tree was discontinuous."),
    prop!("C06", 700_000, 330, io::c06, "1-3 random trees per case in the domain of a random bracket format, with parentheses in words and tags, one in five possibly discontinuous; each is written with tree_to_string and into one file, and read back by string_to_tree, the single-line and the multi-line reader. Non-trivial: a tree with more than 2 nodes was written, or one was refused."),
    prop!("C07", 900_000, 330, io::c07, "Random projective tree rendered by an independent printer of the format in canonical layout and with random spaces and line breaks, read by string_to_tree, the single-line and the multi-line reader, and written again. Non-trivial: more than 2 nodes."),
    prop!("C08", 1_000_000, 420, io::c08, "1-4 random NEGRA-domain trees (any discontinuity, tokens of 1-45 characters, metadata, ids, secondary edges) per writer, with single terminals mixed in that must be refused; the text is read back and compared, and its order and numbers checked. Non-trivial: a tree with more than 3 nodes."),
    prop!("C09", 1_800_000, 420, io::c09, "Random NEGRA-domain tree rendered by an independent printer with random injective node ids, random admissible line order, random blank space, comments and text outside the delimiters; the reader's tree is compared with the content. Non-trivial: more than 3 nodes."),
    prop!("C10", 600_000, 330, io::c10, "Random, mutated, truncated, spliced and cyclic variants of NEGRA and bracket text, label sequences on CoNLL-X sentences, and bytes that are not UTF-8, given to every reader; each item must be an error or a well-formed tree, without a panic, within a CPU and memory limit. Non-trivial: the NEGRA text has a #BOS, the bracket text an opening bracket, the label sequence more than one word."),
    prop!("C11", 700_000, 700, io::c11, "1-5 well-formed or damaged sentences with skipped material between them, in one NEGRA, single-line or multi-line file, possibly cut off at the end; compared item by item with the sentences read alone. Non-trivial: more than one sentence."),
    prop!("C12", 800_000, 330, enc::c12, "Random projective tree with unary chains; both scales encoded, converted into each other, decoded and restored, compared with the original. Non-trivial: more than one word and more than 3 nodes."),
    prop!("C13", 1_500_000, 330, enc::c13, "Random tree without unary chains, one part discontinuous; labels and annotated features compared with lowest common ancestors computed by the model. Non-trivial: more than 2 words and 2 nonterminals, or a discontinuous tree was refused."),
    prop!("C14", 700_000, 500, enc::c14, "1-3 random projective trees collapsed, annotated on both scales, written as CoNLL-X text, parsed, decoded and compared. Non-trivial: a tree with more than one word and more than 3 nodes."),
    prop!("C15", 900_000, 120, enc::c15, "Random label sequence (1-9 words, sometimes up to 40; depths 1 to a few hundred, missing labels, leaf chains, negative running depth) in both scales, decoded directly and from CoNLL-X features; compared with a model decoder and with the repaired absolute sequence, then dummies removed. Non-trivial: more than one word."),
    prop!("C16", 1_300_000, 260, ops::c16, "Random tree (1-12 words, about one case in twenty 8-40 words; unary chains, edge labels, features; built by editing calls in permuted order, by the NEGRA reader or by the bracket reader, half of them edited by random calls before) with many unary chains and a delimiter absent from the labels; collapsed, compared with the model, restored, compared with the original. Non-trivial: at least one unary node and more than one word."),
    prop!("C17", 1_600_000, 260, ops::c17, "Random tree (1-12 words, about one case in twenty 8-40 words; unary chains, edge labels, features; built by editing calls in permuted order, by the NEGRA reader or by the bracket reader, half of them edited by random calls before) and a random predicate on labels or features; compared with the model. Non-trivial: at least one node was removed and more than one word."),
    prop!("C18", 1_500_000, 260, ops::c18, "Random tree (1-12 words, about one case in twenty 8-40 words; unary chains, edge labels, features; built by editing calls in permuted order, by the NEGRA reader or by the bracket reader, half of them edited by random calls before), random predicate on words and random attachment node; compared with the model. Non-trivial: at least one word matched and more than one word."),
    prop!("C19", 1_500_000, 260, ops::c19, "Random tree (1-12 words, about one case in twenty 8-40 words; unary chains, edge labels, features; built by editing calls in permuted order, by the NEGRA reader or by the bracket reader, half of them edited by random calls before) and a random label function on parents; new nodes compared with the maximal runs computed by the model. Non-trivial: at least one run and more than 2 words."),
    prop!("C20", 900_000, 260, ops::c20, "Random tree (1-12 words, about one case in twenty 8-40 words; unary chains, edge labels, features; built by editing calls in permuted order, by the NEGRA reader or by the bracket reader, half of them edited by random calls before), random predicates, feature names and tag sequences of right and wrong length; every projection compared with the nearest ancestors in the model. Non-trivial: some word has an accepted ancestor and more than one word."),
    prop!("C21", 1_200_000, 400, enc::c21, "Random tree, projective or not, with lemmas and features in any storage order; tokens of the borrowed and consumed export and of the parsed text compared with the words. Non-trivial: more than one word."),
    prop!("C22", 1_200_000, 260, nav::c22, "Two trees of equal content built by different routes must be equal in both directions; then one of 12 kinds of single change (or several that cancel out) is applied and equality must follow the content. Non-trivial: at least 2 nodes."),
    prop!("C23", 3_000_000, 200, nav::c23, "Random sequence of feature-map operations compared with an ordered map after every call, then printed and parsed. Non-trivial: at least 2 entries at the end."),
    prop!("C24", 900_000, 300, nav::c24, "The spans of all nodes of a random tree (mostly discontinuous, up to 40 words), before and after edits, compared pairwise with position sets. Non-trivial: at least one discontinuous span and more than 5 spans."),
    prop!("C25", 30_000, 420, cli::c25, "Converter process run on a file of 1-4 random trees for a random pair of formats (single-line or multi-line; files or standard streams; possibly projectivized; possibly with an unreadable or inexpressible tree); the output parsed by an independent reader and compared with the expected content, and the exit status checked. Non-trivial: a tree with more than 3 nodes was written or a failure was due."),
    prop!("C26", 30_000, 420, cli::c26, "Converter process run on a file of random trees with a random subset of its options; the output compared with the composition of the models of the options in the fixed order. Non-trivial: at least one option and one tree."),
    prop!("C27", 150_000, 330, meta::c27, "Random tree (1-12 words, about one case in twenty 8-40 words; unary chains, edge labels, features; built by editing calls in permuted order, by the NEGRA reader or by the bracket reader, half of them edited by random calls before) with 1-4 secondary edges added (to ancestors and along primary edges too); queries, encodings, output, equality and every editing operation compared with the tree without them, then lookup, change and removal. Non-trivial: at least one secondary edge and more than 3 nodes."),
    prop!("C28", 90_000, 330, meta::c28, "Random tree (1-12 words, about one case in twenty 8-40 words; unary chains, edge labels, features; built by editing calls in permuted order, by the NEGRA reader or by the bracket reader, half of them edited by random calls before); queries, writers and exports must leave it unchanged, and random operations repeated on a copy must give the same tree and text; one case in 200 runs the converter and a harness process several times and compares the bytes. Non-trivial: more than 3 nodes."),
    prop!("C29", 300_000, 420, more::c29, "Half of the cases: a file of 1-4 sentences (one in four damaged) for a random reader, read whole, through a source that delivers pieces of 1-1000 bytes and is interrupted now and then, and through one that fails for good at a random byte; the other half: 1-3 trees (some refused by the format) given to a random writer whole, in pieces, and into a device with room for a random part; one case in 400 runs the converter process with a missing, unreadable or full file. Non-trivial: more than one item in the file, or more than one tree or 20 bytes written."),
    prop!("C30", 1_000_000, 260, more::c30, "Random tree (as in C04, with more unary chains) climbed by map_climber_path with a closure that at each word and ancestor goes on, stops, removes the ancestor, marks the word, or reattaches the ancestor or the word, by a random table; every visit and the final tree compared with the model. Non-trivial: more than one word and 3 nodes."),
    prop!("C31", 600_000, 300, more::c31, "Random tree (as in C04), then 1-8 assignments to labels, forms, lemmas, features and edge labels of random nodes and edges, through nodes, terminals and nonterminals or by index; after each the whole tree, an earlier copy, the returned old value and what is displayed are compared with the model. Non-trivial: more than 2 nodes."),
    prop!("C32", 250_000, 300, more::c32, "Two trees of equal content built by two random routes (so with different node ids and storage order), then 1-8 of 20 kinds of operations with nodes named by their place in the tree; results, trees and all outputs must stay equal. Non-trivial: at least one operation and more than 3 nodes."),
];

pub fn all() -> &'static [Prop] {
    ALL
}
