FIXED = [
    ("C22", "a tree-stack automaton reads all terminals", "C22:derivations", "the automaton of a grammar with S -> [[Var 0 0, T a, T b]] (A) read only one of the terminals behind the last variable"),
    ("C22", "a PMCFG with a nonterminal without rules", "panic:C22:from", "making the automaton of S -> [[Var 0 0]] (A) without rules for A panicked"),
    ("C22", "rules of a PMCFG that differ only in their weights", "C22:derivations", "with A -> [[T a]] () given with two weights, each derivation was reported once per pair of copies of its transitions"),
    ("C26", "coarse-to-fine recognition goes on", "C26:pda:runs", "only refinements of the first coarse parse were reported; a word whose first coarse parse has no refinement was rejected"),
    ("C25", "approximated transitions that were merged", "C25:relabel:back", "transitions that the approximated automaton merged (their weights add up) had no refinement"),
    ("C26", "rules of a PMCFG are ordered by what", "C26:mcfg:runs", "relabelling that makes two rules equal but for their weights lost the parses of one (equality ignored the weight, order did not)"),
    ("C31", "blank lines in automaton files", "C31:tsa-rejected", "a line of blanks in an automaton file was an error"),
    ("C31", "an empty tree-stack instruction", "panic:C31:malformed", "a transition with an empty instruction panicked"),
    ("C31", "a transition with a malformed instruction", "panic:C31:malformed", "a malformed instruction or weight panicked instead of being an error"),
    ("C31", "the weight of a transition ends", "C31:tsa-rejected", "'# 0.5<tab>% comment' behind a transition failed"),
    ("C31", "a printed tree-stack automaton names", "C31:tsa-again", "the printed automaton showed the internal number of its initial label"),
    ("C31", "a printed finite automaton names", "C31:fsa-again", "the printed automaton showed internal numbers of states, one final state, and could not be read"),
    ("C31", "terminals of a printed transition", "C31:tsa-again", "terminals with quotes, backslashes, tabs or characters that Rust escapes, and terminals of type char, were printed so that reading gave others or an error"),
    ("C31", "the initial label of a printed tree-stack automaton is quoted", "C31:tsa-again", "an initial label such as `a-b` or `→x` was printed without quotes and read as a shorter one or not at all"),
    ("C28", "the Chomsky-Schützenberger parser uses a terminal rule", "C28:yield", "a derivation of 'a' was reported for the word 'b' where two rules differ in their terminal only"),
    ("C28", "chain rules with weight one", "crash", "chain rules of weight one overflowed the stack"),
    ("C28", "no derivation is enumerated twice", "C28:derivations", "derivations whose weights are equal up to rounding were enumerated twice"),
    ("C29", "a beam of width zero", "panic:parse", "a beam of width 0 panicked"),
    ("C28", "Chomsky-Schützenberger parsing is not limited", "panic:parse-255", "words of 256 tokens panicked or wrapped around; estimates of width 255 panicked"),
    ("C28", "grammars with more than 65535 states", "panic:parse-65535", "grammars with 65536 states panicked without a beam"),
    ("C32", "the coarse-to-fine option of tsa recognise", "C32:wrong-input", "`tsa recognise -c` ignored its value: unknown strategies were accepted and none was used"),
    ("C26", "coarse-to-fine recognition can be used", "panic:C26:pda:beam", "recognition with a beam panicked ('not implemented'), e.g. `tsa recognise -c tts -b 5`"),
]
KNOWN = [
    ("C22", "C22:empty-word", "every tree-stack automaton made from a grammar accepts the empty word with the empty run, also if the grammar does not derive it (the initial storage is a final one)"),
    ("C32", "C32:topk", "`approximation topk parse|automaton` is offered by the help, but not handled: it prints nothing and exits with status 0"),
]
