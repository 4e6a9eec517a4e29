"""The properties of the part of the repository that needs the git dependency `integeriser`, which
the harness replaces by a stand-in."""
P = []
NOT_APPLICABLE = {}


def p(id, title, statement, over, text, why, files, mech, observe=(), hook=None, state=()):
    a = dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
             hook_needed=hook)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why, anchors=a))


REC = "src/recognisable/"
AUT = "src/automata/"

p("C21", "A pushdown automaton recognises the weighted derivations of its grammar",
  "The pushdown automaton of a context-free grammar recognises, for each word, exactly the leftmost derivations of the word, each once and with the product of the weights of its rules; a word that is not derived has no result. "
  "A pushdown automaton given by its transitions recognises exactly its accepting runs: their transitions spell the word, lead from the initial storage to the one reported, and their weights multiply to the one reported. "
  "An automaton lists exactly the transitions it was made from (those that differ only in their weights as one with the sum of the weights), and what it lists makes the same automaton again. "
  "If no weight exceeds one, the results come best first.",
  ["inputs"], "all weighted context-free grammars (with left recursion as far as the search is finite), all pushdown automata whose bottom symbol stays, all words",
  "the unit tests ask a handful of words whether there is some run; they are not run at all where the git dependency is missing",
  [AUT + "push_down_automaton/mod.rs", AUT + "push_down_automaton/from_cfg.rs", REC + "mod.rs", REC + "automaton.rs", REC + "int_automaton.rs"],
  [("From<CFG> for PushDownAutomaton", AUT + "push_down_automaton/from_cfg.rs"), ("recognise", REC + "automaton.rs: best-first search over configurations")],
  ["the iterator of recognise", "check_run"])

p("C22", "A tree-stack automaton recognises the weighted derivations of its grammar",
  "The tree-stack automaton of a multiple context-free grammar recognises, for each word, exactly the derivations of the word, each once and with the product of the weights of its rules, and the abstract syntax tree read off the final storage is the derivation. "
  "A tree-stack automaton given by its transitions recognises exactly its accepting runs, whose transitions spell the word, lead to the reported storage and multiply to the reported weight. "
  "An automaton lists exactly the transitions it was made from, and what it lists makes the same automaton again. "
  "If no weight exceeds one, the results come best first.",
  ["inputs"], "all weighted multiple context-free grammars without left recursion in which the components of each successor are entered in the order in which they are written, with several initial nonterminals, rules that differ only in their weights, empty components and nonterminals without rules; all tree-stack automata; all words",
  "one example grammar; terminals behind the last variable of a component were read in part (repaired), a nonterminal without rules crashed (repaired)",
  [AUT + "tree_stack_automaton/mod.rs", AUT + "tree_stack_automaton/from_pmcfg.rs", AUT + "tree_stack_automaton/tree_stack_instruction.rs", REC + "automaton.rs"],
  [("From<PMCFG> for TreeStackAutomaton", AUT + "tree_stack_automaton/from_pmcfg.rs"), ("to_abstract_syntax_tree", AUT + "tree_stack_automaton/from_pmcfg.rs")],
  ["the iterator of recognise", "the storage of each result", "to_abstract_syntax_tree"])

p("C23", "A finite automaton recognises exactly its weighted accepting runs",
  "A finite automaton recognises, for each word, exactly its runs from the initial state to a final state that read the word, each once, with the product of the weights of its transitions, best first if no weight exceeds one. "
  "A transition may read several symbols or none, and the automaton lists exactly the transitions it was made from.",
  ["inputs"], "all finite automata without cycles that read nothing, all words",
  "two words on one automaton, membership only",
  [AUT + "finite_state_automaton/mod.rs", REC + "automaton.rs", REC + "int_automaton.rs"],
  [("recognise", REC + "automaton.rs"), ("FiniteStateInstruction::apply", AUT + "finite_state_automaton/mod.rs")],
  ["the iterator of recognise", "check_run"])

p("C24", "Recognition with a beam reports nothing wrong and everything if wide enough",
  "Recognition with a beam reports only accepting runs of the automaton on the word, each at most as often as recognition without a beam does, with the same weights. "
  "If the beam has room for all configurations that recognition meets, it reports exactly the same runs; with no room it reports none and ends.",
  ["inputs", "configurations"], "all automata and grammars as above, all words, all beam widths from 0",
  "no test uses a beam",
  [REC + "automaton.rs", "search/src/agenda/limited_heap.rs", "search/src/search.rs"],
  [("recognise_beam", REC + "automaton.rs"), ("LimitedHeap::push", "search/src/agenda/limited_heap.rs")],
  ["the iterator of recognise_beam_search"])

p("C25", "An approximation simulates every run of the automaton it was made from",
  "Relabelling a pushdown automaton and turning a tree-stack automaton into a pushdown automaton are sound: each step of the given automaton leads, mapped, to a storage that the mapped instruction reaches as well, and each accepting run is mapped to an accepting run of the approximation that does not weigh less. "
  "Refining a run of the approximation gives only sequences of given transitions that are mapped to it, and the refinements of the image of a run include the run with its weight.",
  ["inputs"], "all pushdown and tree-stack automata, all relabellings that keep the bottom apart, all words",
  "the tests map single instructions and storages; transitions that the approximation merged were never refined (repaired)",
  ["src/approximation/mod.rs", "src/approximation/relabel.rs", "src/approximation/tts.rs"],
  [("approximate_storage, approximate_instruction, approximate_automaton", "src/approximation"), ("unapproximate_run", "src/approximation/mod.rs")],
  ["the approximated automaton and its runs", "unapproximate_run"])

p("C26", "Coarse-to-fine recognition finds exactly the runs of the finest automaton",
  "A coarse-to-fine recogniser with any number of levels reports, for each word, exactly the accepting runs of the finest automaton, each once, with its storage and weight. "
  "With weights that do not exceed one on any level the results come best first. "
  "Recognition with a beam never panics: it reports only runs that are found without a beam, each once and in the same order, none with a beam of 0 and all of them with a beam that is wide enough.",
  ["inputs"], "all pushdown and tree-stack automata and grammars, beams, one to three levels of any approximations, all words",
  "one test with one word; recognition stopped behind the first coarse parse (repaired), and rules that a relabelling made equal but for their weights were lost (repaired); a beam panicked (repaired)",
  [REC + "coarse_to_fine.rs", REC + "mod.rs", "src/approximation/mod.rs", "src/grammars/pmcfg/mod.rs"],
  [("CoarseToFineRecogniser", REC + "coarse_to_fine.rs"), ("check_run", REC + "automaton.rs"), ("ApproximationInstance", "src/approximation/mod.rs")],
  ["the iterator of the recogniser"])

p("C27", "A multiple Dyck language has exactly the congruent words as members",
  "A word of brackets is a member of the multiple Dyck language of a partition exactly if its matching pairs can be put into groups of neighbours, each with every symbol of one cell once, such that the words inside the brackets of each group are, taken together, a member again. "
  "Membership in a language with sorts groups, in addition, only pairs of one sort. "
  "Storing a language and loading it does not change its members.",
  ["inputs"], "all partitions and sorts, all words of brackets",
  "five words of one language",
  ["src/dyck/multiple/mod.rs", "src/dyck/multiple/automaton/mod.rs", "src/dyck/multiple/automaton/instruction.rs"],
  [("MultipleDyckLanguage::recognize", "src/dyck/multiple/mod.rs: search over an automaton with a tree-stack"), ("MDTreeStack", "src/dyck/multiple/automaton")],
  ["recognize, also of the loaded language"])

CS = "src/grammars/lcfrs/csparsing/"
p("C28", "Chomsky-Schützenberger parsing enumerates exactly the derivations, best first",
  "Parsing a word with the Chomsky-Schützenberger representation of a grammar enumerates exactly the derivations of the word, each once, in order of falling weight; there are none for a word that is not derived. "
  "This holds for words of any length, grammars of any size, ambiguous grammars, chain rules (infinitely many derivations are enumerated down to any weight) and equal weights. "
  "Without a pruning setting nothing that exists is left out.",
  ["inputs"], "all grammars in the normal form that extraction asks for with weights in (0, 1], all words",
  "two example words on one grammar; on the given code words of 256 tokens, 65536 states, chain rules of weight one and rounded weights failed (repaired)",
  [CS + "mod.rs", CS + "automaton/mod.rs", CS + "automaton/chart.rs", CS + "automaton/kbest/mod.rs", CS + "automaton/kbest/backtrace.rs", CS + "cowderiv.rs"],
  [("chart of the context-free approximation", CS + "automaton/chart.rs"), ("k best candidates", CS + "automaton/kbest"), ("check and read-off of candidates", CS + "mod.rs, cowderiv.rs")],
  ["the iterator of the generator: abstract syntax trees"])

p("C29", "Pruned, estimated and stored Chomsky-Schützenberger parsing stays sound",
  "Under any beam, threshold, limit of candidates and estimates, parsing reports only derivations of the word, each once, best first; settings that prune nothing, and estimates of any width, lose nothing, and a limit of candidates only cuts the list off. "
  "A representation that was stored and loaded gives the same answers. "
  "A fallback is given whenever there is a result, only for words that the context-free approximation has, and composes exactly the word; the account that debugging gives agrees with the results.",
  ["inputs", "configurations"], "all grammars, words, widths, thresholds, limits and widths of estimates, including 0 and the greatest",
  "no test uses a beam, a threshold, estimates, a stored representation or a fallback",
  [CS + "mod.rs", CS + "automaton/mod.rs", CS + "automaton/chart.rs", CS + "automaton/estimates.rs", CS + "automaton/rulemask.rs", CS + "cowderiv.rs"],
  [("SxOutside estimates", CS + "automaton/estimates.rs"), ("beam and threshold", CS + "automaton/chart.rs"), ("with_fallback, debug", CS + "mod.rs"), ("cow derivations", CS + "cowderiv.rs")],
  ["results, fallback and account of debugging", "stored bytes"])

p("C30", "Storages behave as persistent trees and stacks",
  "After any history of operations a tree stack holds exactly the labels put at each address and its pointer is where the moves led; an operation succeeds exactly if the child to push is new, the child to enter exists, the node to leave is not the root, and an operation that is refused returns the storage unchanged. "
  "No operation on one version is seen in another, and equality and order agree with the contents. "
  "The same holds of pushdowns, including replacement of a prefix by another.",
  ["histories"], "all histories of operations on all versions",
  "the tests run one short chain of operations each and never look at an earlier version",
  [AUT + "tree_stack_automaton/tree_stack.rs", AUT + "tree_stack_automaton/tree_stack_instruction.rs", AUT + "push_down_automaton/mod.rs", "src/util/push_down.rs"],
  [("TreeStack", AUT + "tree_stack_automaton/tree_stack.rs: shared parents"), ("Pushdown", "src/util/push_down.rs: shared tails"), ("PushDown::replace", AUT + "push_down_automaton/mod.rs")],
  ["all operations, iteration, comparison and the printed form"])

p("C31", "Automaton files are read as written, printed automata can be read again",
  "The text of a tree-stack or finite automaton is read as exactly the initial storage, the final states and the transitions written in it, whatever the order of lines, quotation, spacing and comments. "
  "Printing an automaton and reading the result gives the same automaton. "
  "A text without a declaration or with a malformed transition is an error, and no text makes the reader crash.",
  ["inputs"], "all automata, all ways to write them, all damaged texts",
  "one text for each kind; printed automata could not be read again, weights before tabs and empty instructions crashed (repaired)",
  [AUT + "tree_stack_automaton/from_str.rs", AUT + "finite_state_automaton/from_str.rs", REC + "from_str.rs", AUT + "tree_stack_automaton/mod.rs", AUT + "finite_state_automaton/mod.rs"],
  [("nom parsers", REC + "from_str.rs and from_str.rs of each automaton"), ("Display", "mod.rs of each automaton")],
  ["from_str", "to_string"])

p("C32", "The program's subcommands print what the library finds, errors are reported",
  "Each subcommand of the program prints, for each line of its input, in order, exactly as many results as asked for and found, best first, all being derivations or runs of the grammar or automaton in the file for that line, or its mark of failure. "
  "Options change only what they say: representation and grammar formats, compression, number, beam, threshold, fallback, estimates, approximation and coarse-to-fine. "
  "Missing or malformed files and unknown options end with an error message and a status other than zero.",
  ["inputs", "configurations"], "all subcommands, options, grammars, corpora and malformed inputs",
  "no test runs the program",
  ["src/bin/main.rs", "src/bin/csparsing.rs", "src/bin/pmcfg.rs", "src/bin/cfg.rs", "src/bin/tree_stack_automata.rs", "src/bin/approximation.rs", "src/grammars/pmcfg/negra.rs"],
  [("handle_sub_matches", "src/bin/*.rs")],
  ["standard output, standard error and exit status of the process"])

p("C33", "No input leads to undefined behaviour",
  "Whatever sequence of operations, grammar, word or text the library is given, no execution reads or writes memory out of bounds, uses a value that was freed or never initialised, or breaks the aliasing rules.",
  ["inputs", "histories"], "all inputs and histories; the unsafe code is in the growing multimap and in the copy-on-write derivations",
  "the tests run without any instrumentation, and on three indices only",
  ["vecmultimap/src/lib.rs", CS + "cowderiv.rs", CS + "mod.rs"],
  [("get_unchecked behind resize", "vecmultimap/src/lib.rs"), ("transmuted references of derivations", CS + "cowderiv.rs")],
  ["Miri and AddressSanitizer watch every access of the executions"])
