mod auto;
mod cli;
mod cs;
mod stor;
mod ub;

use kit::Prop;

fn main() {
    let props = [
        Prop {
            id: "C21",
            rule: "random weighted context-free grammars (up to a handful of nonterminals; ambiguous, with empty right-hand sides, duplicate rules, left recursion where the weights fall) and random pushdown automata; each word is recognised by the library and all its derivations or runs are enumerated by a model; non-trivial: words with several derivations or runs",
            quick: 300000,
            thorough: 3000000,
            min_evaluations: 20000,
            run: auto::c21,
            fixed: None,
        },
        Prop {
            id: "C22",
            rule: "random multiple context-free grammars with ordered components (fanout up to 3, empty components, nonterminals without rules, parallel branches) and random tree-stack automata; each word is recognised by the library; derivations, runs and final tree stacks come from a model; non-trivial: words with discontinuous derivations or several runs",
            quick: 300000,
            thorough: 3000000,
            min_evaluations: 20000,
            run: auto::c22_all,
            fixed: None,
        },
        Prop {
            id: "C23",
            rule: "random finite automata with transitions over words of any length, the empty one included, several final states and zero to many runs per word; runs come from a model; non-trivial: words with several runs",
            quick: 80000,
            thorough: 800000,
            min_evaluations: 8000,
            run: auto::c23,
            fixed: None,
        },
        Prop {
            id: "C24",
            rule: "recognition under beam widths from 0 to more than the number of all configurations, on random pushdown, tree-stack and finite automata and on automata made from grammars; the unpruned runs come from a model; non-trivial: words of which the beam lost a run",
            quick: 240000,
            thorough: 2500000,
            min_evaluations: 20000,
            run: auto::c24,
            fixed: None,
        },
        Prop {
            id: "C25",
            rule: "random pushdown and tree-stack automata and automata of grammars, relabelled by random classes or turned from tree stacks to pushdowns; every run of the given automaton is followed step by step in the approximation and looked up among the runs of it and among the refinements of those; non-trivial: words with a run, or with more runs in the approximation",
            quick: 240000,
            thorough: 2500000,
            min_evaluations: 20000,
            run: auto::c25,
            fixed: None,
        },
        Prop {
            id: "C26",
            rule: "recognisers with one and two coarse levels (relabelling, tree stack to pushdown, both) over random automata and automata of grammars; the runs are compared with those of the finest automaton; non-trivial: words with several runs",
            quick: 200000,
            thorough: 2000000,
            min_evaluations: 15000,
            run: auto::c26,
            fixed: None,
        },
        Prop {
            id: "C27",
            rule: "random partitions and sorts of up to 6 symbols, words made as members (nested and interleaved groups) and members damaged by swapping, doubling, replacing or moving brackets, and Dyck words outside the language; judged by a grouping search that follows the definition, also through the stored language; non-trivial: longer than 4 brackets",
            quick: 300000,
            thorough: 3000000,
            min_evaluations: 20000,
            run: stor::c27,
            fixed: None,
        },
        Prop {
            id: "C28",
            rule: "random grammars in normal form (fanout up to 3, ambiguous, with cycles of chain rules, equal and rounded weights) with words inside and outside; derivations are enumerated exhaustively by a model, for cyclic grammars down to a weight; long words by a chart; words of 254 to 300 tokens and a grammar of 70000 states; non-trivial: ambiguous words, words without a derivation that the context-free approximation has",
            quick: 50000,
            thorough: 500000,
            min_evaluations: 8000,
            run: cs::c28,
            fixed: Some(cs::c28_fixed),
        },
        Prop {
            id: "C29",
            rule: "as C28 with random beam widths, thresholds, candidate limits and estimates, the representation stored and loaded between, and the account that the debug mode gives; non-trivial: words with a fallback, several candidates or results cut off",
            quick: 50000,
            thorough: 500000,
            min_evaluations: 8000,
            run: cs::c29,
            fixed: Some(cs::c29_fixed),
        },
        Prop {
            id: "C30",
            rule: "random histories of operations on tree stacks, with all versions kept alive, on pushdowns and on the pushdown of the automata; judged after every step against a map from addresses to values or a vector; rarely histories of hundreds of steps with deep and wide trees and long replacements; non-trivial: every history",
            quick: 300000,
            thorough: 3000000,
            min_evaluations: 15000,
            run: stor::c30,
            fixed: None,
        },
        Prop {
            id: "C31",
            rule: "random tree-stack and finite automata written with varying quotation, spacing, comments, order of lines; names and terminals of unusual characters, weights in several notations, rarely hundreds of lines; also with numbers and characters as types; read and compared, printed and read again, the words of walks recognised; and the texts damaged at random or in a way that leaves no automaton; non-trivial: every text",
            quick: 120000,
            thorough: 1200000,
            min_evaluations: 10000,
            run: stor::c31,
            fixed: None,
        },
        Prop {
            id: "C32",
            rule: "calls of the program as a process on generated grammars, automata, classes and corpora (compressed and plain), with all options in random combinations, and on damaged or missing files and unknown options; what it prints is judged against derivations enumerated by the model; non-trivial: calls that print several trees, coarse-to-fine calls and fallbacks",
            quick: 14000,
            thorough: 140000,
            min_evaluations: 1500,
            run: cli::c32,
            fixed: Some(cli::c32_fixed),
        },
        Prop {
            id: "C33",
            rule: "operation histories on the growing multimap, the agendas and the storages, Chomsky-Schützenberger parsing with fallback trees, recognition and reading of texts, in small sizes; non-trivial: distinct results",
            quick: 60000,
            thorough: 1500000,
            min_evaluations: 30,
            run: ub::c33,
            fixed: None,
        },
    ];
    kit::main(&props);
}
