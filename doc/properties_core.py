"""The properties of the part of the repository that builds without its git dependency."""
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), hook=None, state=()):
    a = dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
             hook_needed=hook)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why, anchors=a))


p("C01", "Search yields every reached item once, in the order of its strategy",
  "A search over any successor function yields exactly the initial items and the successors of the items it has already yielded, each pushed item exactly once and unaltered, until nothing is waiting. "
  "Depth-first search yields the items pushed last first (the last of a batch of successors is the next one), breadth-first search the ones pushed first, and best-first search always one of the best weight among those waiting. "
  "The successor function is called once for each yielded item, with that item, not before the item is yielded.",
  ["inputs", "histories"], "all successor functions (finite and infinite, cyclic graphs), sets of initial items, weights, and prefixes of the enumeration",
  "the unit tests enumerate four hand-made number ranges; they never have parallel edges, cycles, ties, several initial items or an agenda that was filled before",
  ["search/src/search.rs", "search/src/agenda/mod.rs", "search/src/agenda/binary_heap.rs", "search/src/agenda/weighted.rs"],
  [("Search::next", "search/src/search.rs: pops the agenda, pushes the successors"),
   ("agendas of the strategies", "search/src/search.rs: dfs, bfs, weighted; search/src/agenda")],
  ["the iterator returned by Search::{dfs,bfs,weighted,with_agenda}", "the calls of the successor function"])

p("C02", "Duplicate-free search reaches everything reachable, each item once",
  "A duplicate-free search yields every item reachable from the initial items exactly once, and nothing else, however many paths lead to an item and however often it is initial. "
  "No item is expanded twice. "
  "Best-first search without duplicates yields, at each step, an item of the best weight among the known items not yet yielded, and of equal items of different weights the best; breadth-first search yields the items by their distance from the initial items.",
  ["inputs"], "all finite graphs with cycles, joins and self-loops, all initial sets, all weights given by the item",
  "the tests use graphs in which a second visit never happens in a position where it matters; on the given code the enumeration ended early at such a visit (repaired)",
  ["search/src/search.rs"],
  [("unique::Search::next", "search/src/search.rs: set of found items"), ("Search::uniques", "search/src/search.rs")],
  ["the iterator returned by Search::uniques"],
  state=[("found", "the items already yielded", "search/src/search.rs")])

p("C03", "Bounded agendas never exceed their bound and lose only what it makes them lose",
  "A capacity-limited priority queue never holds more than its capacity; when it is full, a push gives back an item of the worst weight among the held ones and the new one, and nothing else is ever lost. "
  "A beam queue accepts an item exactly if its weight is not worse than the weight of the best held item times the beam factor, and drops nothing that it accepted. "
  "All priority queues pop and peek an item of the best weight, report their number of items, and hand out each item they hold exactly once; a copy of one holds the same items. "
  "A vector used as an agenda is a stack and a double-ended queue a first-in-first-out queue, for what is popped as for what is peeked.",
  ["histories", "configurations"], "all histories of push, pop, peek, length, clear and clone, all capacities from 0, beam factors, and weights with ties",
  "the unit tests push a handful of distinct weights once; ties, interleaved pops, clearing, capacities 0 and 1 are not sampled",
  ["search/src/agenda/limited_heap.rs", "search/src/agenda/beam_heap.rs", "search/src/agenda/binary_heap.rs", "search/src/agenda/mod.rs", "search/src/agenda/weighted.rs"],
  [("LimitedHeap::push", "search/src/agenda/limited_heap.rs: push_pop_min at capacity"),
   ("BeamHeap::push", "search/src/agenda/beam_heap.rs: comparison with the best weight times beta")],
  ["push, pop, peek, len, clear of the queues; searches driven through them"])

p("C04", "The priority queue without duplicates holds each element at most once",
  "A priority queue without duplicates accepts an element exactly if it does not hold an equal one at that time, says which, and keeps the weight of the element it has. "
  "It pops its elements by weight, best first, each held element exactly once; an element that was popped can be pushed again. "
  "Emptiness, length, peeking and the sorted listing agree with the elements held, also for a queue made from a sequence with repeated elements.",
  ["histories", "inputs"], "all histories of push, pop, peek, listing and iteration, all initial sequences with repetitions, elements with colliding hashes",
  "the tests push four elements once; re-insertion after a pop and construction from sequences with repetitions are not covered (the latter was defective; repaired)",
  ["unique-heap/src/lib.rs"],
  [("UniqueHeap::push / pop", "unique-heap/src/lib.rs: set of held elements beside a min-max heap")],
  ["push, pop, peek, is_empty, len, into_sorted_vec, iteration"],
  state=[("set of held elements", "agrees with the heap", "unique-heap/src/lib.rs")])

p("C05", "The growing multimap returns exactly what was stored under an index",
  "Under each index the multimap holds exactly the values stored there, in the order of insertion, and no operation on one index changes what another one holds. "
  "An index nobody used reads as empty, or as absent where the operation says so, and reading it never fails or returns another index's values. "
  "Conversion into nested vectors keeps all values and pads them to the length asked for.",
  ["histories", "inputs"], "all histories of insertion, reading, mutation and conversion with indices below and beyond the present length",
  "two examples with indices in ascending order; growth in the middle of mixed operations is unsampled",
  ["vecmultimap/src/lib.rs"],
  [("VecMultiMap::get_mut and the adapter", "vecmultimap/src/lib.rs: resize_with, then unchecked access")],
  ["push_to, get, get_mut, get_or_fail, index, into"])

p("C06", "A partition maps each element to its one cell and survives persistence",
  "A partition is made from a list of cells exactly if no element is in two of them; otherwise there is no partition. "
  "It finds, for every element, the number of the cell that contains it, and no cell for others; it tells its cells and merges cells without losing or doubling elements. "
  "Writing a partition and reading it back gives an equal one, and reading cells that overlap is an error, not a crash.",
  ["inputs"], "all lists of cells over ordered elements, disjoint or not, with empty cells; all persisted forms",
  "one example of each kind; overlapping persisted cells crashed the reader (repaired)",
  ["src/util/partition.rs"],
  [("Partition::new", "src/util/partition.rs: disjointness check"), ("Deserialize for Partition", "src/util/partition.rs")],
  ["constructor, cell lookup, alphabet, collapsing, serialised form"])

p("C07", "Equivalence classes map members to their class and the rest to the default",
  "An equivalence relation sends every listed member to the name of the class that lists it, and everything else to the default class, and two relations are equal only if they send everything to the same classes. "
  "Reading the documented text format gives the relation written there: quoted and bare names and members, classes over several lines, blank lines, one default class at most, and a missing one reported when asked about an unlisted element. "
  "A text that is not of this format is an error and never a crash.",
  ["inputs"], "all relations and all of their notations, all damaged texts",
  "three well-formed texts; blank lines, classes over several lines and a second default class were mishandled (repaired)",
  ["src/approximation/equivalence_classes.rs", "src/util/parsing.rs"],
  [("FromStr for EquivalenceRelation / EquivalenceClass", "src/approximation/equivalence_classes.rs"),
   ("EquivalenceRelation::project", "src/approximation/equivalence_classes.rs")],
  ["project after construction from a map, from classes and from text"])

p("C08", "Dyck words: exactly the balanced bracket words are accepted",
  "A word over brackets is accepted exactly if it can be reduced to the empty word by repeatedly deleting an opening bracket directly followed by the closing bracket of the same kind. "
  "So the empty word is accepted, and acceptance is closed under concatenation and under wrapping in a matching pair, and under no removal of a single bracket.",
  ["inputs"], "all words over any number of kinds of brackets, all lengths",
  "about ten words of length at most 8",
  ["src/dyck/mod.rs"],
  [("recognize", "src/dyck/mod.rs: stack of open brackets")],
  ["recognize"])

p("C09", "Grammar text notation: what is written is what is read, also after a round trip",
  "Reading a grammar in the documented notation gives exactly the initial nonterminals, rules and weights written there, whatever admissible spacing, quoting, comments, blank lines, or order of lines was chosen; a missing weight is one. "
  "Printing a grammar and reading the output gives an equal grammar, for context-free grammars, parallel multiple context-free grammars and linear context-free rewriting systems, whatever characters the symbols have that the notation admits.",
  ["inputs"], "all grammars with symbols of any admissible characters; all admissible spellings of the text",
  "a dozen fixed lines; indented declarations, blanks lines, tabs after weights, quotes in printed initial symbols, and non-ASCII symbols were misread (repaired)",
  ["src/util/parsing.rs", "src/grammars/pmcfg/from_str.rs", "src/grammars/pmcfg/mod.rs", "src/grammars/cfg/from_str.rs", "src/grammars/cfg/mod.rs", "src/grammars/lcfrs/from_str.rs", "src/grammars/lcfrs/mod.rs"],
  [("nom parsers of tokens, vectors, rules", "src/util/parsing.rs, src/grammars/*/from_str.rs"), ("Display of grammars and rules", "src/grammars/*/mod.rs")],
  ["FromStr and Display of grammars and rules"])

p("C10", "Reading grammar text never crashes and never skips what it cannot read",
  "For every text whatsoever, reading it as a grammar, rule, composition, symbol, lexicon or import file ends with a value or an error, never with a crash. "
  "Every line of the text that is neither blank, a comment, nor a declaration of initial nonterminals gives exactly one rule of the resulting grammar, or the text is rejected. "
  "A rule whose weight is not a number the weight type admits is rejected.",
  ["inputs"], "all texts; in particular admissible texts after a few edits",
  "error paths are not tested; malformed weights, indices too large, and denominators of zero crashed the readers (repaired)",
  ["src/util/parsing.rs", "src/grammars/pmcfg/from_str.rs", "src/grammars/cfg/from_str.rs", "src/grammars/lcfrs/from_str.rs", "src/grammars/lcfrs/from_discodop.rs", "src/grammars/lcfrs/from_rparse.rs"],
  [("error returns of the readers", "src/grammars/*/from_str.rs, src/grammars/lcfrs/from_discodop.rs")],
  ["FromStr of all grammar types"])

p("C11", "Weights and configurations obey the order and algebra the searches rely on",
  "Splitting a weight into any number of factors gives that many factors whose product is the weight, each between the weight and one for weights from zero to one. "
  "The order-reversing wrapper reverses comparison and leaves equality, arithmetic, the units, the text and the persisted form unchanged. "
  "Configurations are totally ordered, by weight first and then with those that have consumed more before the others; the order is antisymmetric and transitive, and equal configurations have equal hashes. "
  "Grammar rules are equal, hash alike, and neither precedes the other in their order exactly if they agree in everything but their weight.",
  ["inputs"], "all weights, numbers of factors, and triples of configurations",
  "a few numbers; the laws quantify over pairs and triples",
  ["src/util/factorizable.rs", "src/util/reverse.rs", "src/recognisable/configuration.rs", "src/grammars/pmcfg/mod.rs", "src/grammars/cfg/mod.rs"],
  [("Factorizable for LogDomain and Reverse", "src/util/factorizable.rs"), ("Reverse", "src/util/reverse.rs"), ("Ord and Hash for Configuration", "src/recognisable/configuration.rs")],
  ["factorize, comparison operators, arithmetic, hash"])

p("C12", "Evaluating a derivation gives the word tuple its rules define",
  "Evaluating a derivation tree replaces each variable by the component of the successor it names and gives exactly the tuple of words the composition functions define, for every tree whose rules fit together, including rules that copy, delete, permute or give empty components. "
  "Evaluating at an inner node gives the tuple of the subtree there. "
  "Splitting a tree of rules into the tree of composition functions and the tree of nonterminals keeps every node.",
  ["inputs"], "all derivations of all grammars, all nodes",
  "two fixed trees; copying, deletion, empty components and fanout over 2 are unsampled",
  ["src/grammars/pmcfg/mod.rs", "src/util/tree.rs"],
  [("evaluate, evaluate_pos, to_term", "src/grammars/pmcfg/mod.rs")],
  ["evaluate, evaluate_pos, to_term"])

p("C13", "Separating terminals from rules keeps the derived words",
  "In the separated tree no rule has a terminal beside another symbol: each terminal is the only symbol of its node. "
  "The tree derives the same tuple of words as before, its nodes fit together, the nonterminals of the original nodes are unchanged, added nodes carry a nonterminal not used by the original tree, and a tree that needs no separation is left as it is. "
  "The separated tree meets the requirements of the treebank export.",
  ["inputs"], "all derivations; terminals that clash with nonterminals, repeat within a rule, or stand before, between or behind variables",
  "one tree in which variables come first; a terminal in front of variables was left in place (repaired)",
  ["src/grammars/pmcfg/mod.rs", "src/grammars/pmcfg/negra.rs"],
  [("separate_terminal_rules", "src/grammars/pmcfg/mod.rs")],
  ["separate_terminal_rules, meets_negra_criteria, evaluate"])

p("C14", "The treebank export encodes exactly the tree",
  "The exported sentence has one row per terminal in the order of the derived word and one row per inner node, each inner node with its own number from 500 on, and the parent column of each row names the node's parent (0 for children of the root). "
  "Reading the rows back gives the labels and the shape of the exported tree, also if it is discontinuous; words handed over beside the parsed tags replace them in the word column. "
  "A failed parse is exported as one node over all words, the requirement on trees is recognised exactly, and a tree that does not meet it is refused.",
  ["inputs"], "all terminal-separated derivations whose root derives more than a terminal, sentence numbers, with and without given words",
  "two fixed trees compared by string",
  ["src/grammars/pmcfg/negra.rs", "src/grammars/pmcfg/mod.rs"],
  [("to_negra, to_negra_vector, noparse, meets_negra_criteria", "src/grammars/pmcfg/negra.rs")],
  ["the exported text"])

p("C15", "Exactly the well-formed rule sets are accepted as LCFRS",
  "A set of rules with an initial nonterminal is accepted exactly if all rules of a nonterminal have the same fanout, the initial one has fanout 1, and each rule uses every component of each of its successors exactly once and no other variable; a successor without rules makes it ill-formed. "
  "The rules and the initial nonterminal come back unchanged. "
  "The normal form is recognised exactly: no empty component, and terminals only as the sole symbol of a rule of fanout 1.",
  ["inputs"], "all rule sets and initial nonterminals",
  "a handful of rule sets; a successor without rules crashed the check (repaired)",
  ["src/grammars/lcfrs/mod.rs"],
  [("Lcfrs::new, read_fanouts, check_composition", "src/grammars/lcfrs/mod.rs"), ("in_normal_form", "src/grammars/lcfrs/mod.rs")],
  ["Lcfrs::new, in_normal_form, destruct"])

p("C16", "Making a grammar non-deleting keeps its weighted derivations",
  "Converting a multiple context-free grammar into a linear context-free rewriting system gives a grammar without deletion and with an initial nonterminal of fanout 1. "
  "Up to any height it has, for each derived word and weight, exactly as many derivations as the original grammar.",
  ["inputs"], "all grammars without copying, deleting or not, with recursion, repeated rules and nonterminals without rules",
  "one grammar with one deletion; a nonterminal without rules crashed the conversion (repaired)",
  ["src/grammars/lcfrs/conversion.rs", "src/grammars/lcfrs/mod.rs", "src/grammars/mcfg/mod.rs"],
  [("From<Mcfg> for Lcfrs", "src/grammars/lcfrs/conversion.rs: search over (nonterminal, deleted components)")],
  ["rules of the converted grammar"])

p("C17", "Converting between grammar formalisms keeps rules, weights and initial symbols",
  "Turning a grammar of fanout 1 that is linear and deletes nothing into a context-free grammar keeps each rule, with its right-hand side in the order of its composition, its weight, and the initial nonterminals; a grammar with a rule of another fanout is refused. "
  "A parallel multiple context-free grammar is accepted as a multiple one exactly if it never copies a component and has one initial nonterminal. "
  "Turning such grammars and rewriting systems into the more general formalism changes nothing.",
  ["inputs"], "all grammars of the respective domains",
  "one example",
  ["src/grammars/cfg/mod.rs", "src/grammars/mcfg/mod.rs", "src/grammars/lcfrs/mod.rs", "src/grammars/pmcfg/mod.rs"],
  [("From<PMCFG> for CFG", "src/grammars/cfg/mod.rs"), ("Mcfg::from_pmcfg", "src/grammars/mcfg/mod.rs")],
  ["the converted grammars"])

p("C18", "Importing a discodop grammar keeps its yield functions and relative frequencies",
  "The import of a discodop grammar with a lexicon has one rule per line and one per word and tag, with the nonterminals, the yield function and the counts written there, weights being the count of the rule over the sum of the counts of its left-hand side. "
  "Without a lexicon, each nonterminal that has no rules derives its own name. "
  "A file or lexicon with a malformed line is rejected as a whole and never cut short, as is a component with more variables than the format provides for.",
  ["inputs"], "all files of the format, counts as integers or fractions, components of up to 64 variables, any malformed line in any position",
  "one small file; malformed lines silently ended the file (repaired)",
  ["src/grammars/lcfrs/from_discodop.rs"],
  [("nom parsers, DiscoDopGrammar::with_lexer", "src/grammars/lcfrs/from_discodop.rs")],
  ["the imported grammar"])

p("C19", "Importing an rparse grammar keeps every clause",
  "Importing a text of rparse clauses gives one rule per clause, in order, with the score as weight, the nonterminals written there and the yield function in which the k-th occurrence of a successor names its k-th component. "
  "A text with a malformed clause anywhere is an error as a whole: neither a panic nor the grammar of the clauses before it.",
  ["inputs"], "all files of the format",
  "one clause",
  ["src/grammars/lcfrs/from_rparse.rs"],
  [("lcfrs_from_rparse", "src/grammars/lcfrs/from_rparse.rs")],
  ["the imported grammar"], hook="cfg(rustomata_verif) exports the importer, which the crate keeps private")

p("C20", "The map from node addresses behaves as an ordered map",
  "A tree map keyed by node addresses holds exactly the nodes inserted and not removed, with their latest values; insertion and removal return what was there before. "
  "It lists nodes, addresses and values in the lexicographic order of addresses, splits at an address into the nodes before and from it on, and appends another map, emptying that one. "
  "Two such maps are equal exactly if they hold equal values at the same addresses.",
  ["histories"], "all histories of operations",
  "a few insertions",
  ["src/util/tree.rs"],
  [("GornTree", "src/util/tree.rs: wrapper of BTreeMap")],
  ["all operations of the tree map"])
