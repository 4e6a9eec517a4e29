mod conv;
mod heaps;
mod searching;
mod small;
mod text;

use kit::Prop;

fn main() {
    let props = [
        Prop {
            id: "C01",
            rule: "random directed graphs (up to 10 nodes, parallel edges, cycles, several or no initial nodes) explored by depth-first, breadth-first and best-first search and through a handed-in agenda; a model frontier fed by the successor calls judges every yield; non-trivial: more than 3 items were pushed",
            quick: 60000,
            thorough: 1500000,
            min_evaluations: 2_000,
            run: searching::c01,
            fixed: None,
        },
        Prop {
            id: "C02",
            rule: "random graphs (up to 14 nodes) explored without duplicates by all three strategies, compared with independent reachability; non-trivial: some node is reached along more than one edge",
            quick: 1500000,
            thorough: 37500000,
            min_evaluations: 3_000,
            run: searching::c02,
            fixed: None,
        },
        Prop {
            id: "C03",
            rule: "random histories of push/pop/peek/len/clear/clone on capacity-limited, beam and unbounded agendas, items with unique ids, judged per operation against a multiset model and for conservation at the end; plus searches through bounded agendas; non-trivial: at least 5 pushes",
            quick: 800000,
            thorough: 20000000,
            min_evaluations: 20_000,
            run: searching::c03,
            fixed: None,
        },
        Prop {
            id: "C04",
            rule: "random histories of push/pop/peek/len/iterate/clone after construction from nothing, an iterator or a vector with duplicates, elements with colliding hashes, two hashers; judged against a map model; non-trivial: more than 3 operations",
            quick: 800000,
            thorough: 20000000,
            min_evaluations: 20_000,
            run: heaps::c04,
            fixed: None,
        },
        Prop {
            id: "C05",
            rule: "random histories of push_to/get/get_mut/get_or_fail/index/into on the multimap and its adapter with indices around vector growth points, judged against a map model; non-trivial: more than 2 operations",
            quick: 900000,
            thorough: 22500000,
            min_evaluations: 20_000,
            run: heaps::c05,
            fixed: None,
        },
        Prop {
            id: "C06",
            rule: "random families of cells (disjoint or overlapping, with empty cells) over integers, characters, strings and tuples, judged against a map from element to cell, also through the persisted form; non-trivial: at least 2 cells and 2 elements",
            quick: 1500000,
            thorough: 37500000,
            min_evaluations: 5_000,
            run: small::c06,
            fixed: None,
        },
        Prop {
            id: "C07",
            rule: "random equivalence classes built from a map, from classes and from their text format (quoted and bare tokens, odd spacing, blank lines, a class over several lines), a quarter of them flawed; every element and an unseen one is projected; mutated texts must not crash; non-trivial: at least one member",
            quick: 800000,
            thorough: 20000000,
            min_evaluations: 3_000,
            run: small::c07,
            fixed: None,
        },
        Prop {
            id: "C08",
            rule: "random Dyck words over up to 3 kinds of brackets (up to 300 long), damaged in half of the cases, and arbitrary words; oracle: cancellation of adjacent pairs; non-trivial: longer than 2",
            quick: 3000000,
            thorough: 75000000,
            min_evaluations: 10_000,
            run: small::c08,
            fixed: None,
        },
        Prop {
            id: "C11",
            rule: "random pairs of weights, factorisations into 1 to 9 factors of weights from 0 to 2^-400 and above 1, and triples of configurations; order laws, arithmetic laws and hash laws; non-trivial: distinct weights, every factorisation and triple",
            quick: 3000000,
            thorough: 75000000,
            min_evaluations: 5_000,
            run: small::c11,
            fixed: None,
        },
        Prop {
            id: "C20",
            rule: "random histories of all operations on tree maps keyed by node addresses, judged per operation against an ordered map; non-trivial: held more than 3 nodes at some time",
            quick: 500000,
            thorough: 12500000,
            min_evaluations: 5_000,
            run: small::c20,
            fixed: None,
        },
        Prop {
            id: "C09",
            rule: "random grammars (CFG, MCFG with copying and deletion, LCFRS; symbols with spaces, arrows, escapes, non-ASCII letters; text, number and single-character symbols) written in varied admissible notation, read, compared with the model, written and read again; non-trivial: all",
            quick: 600000,
            thorough: 15000000,
            min_evaluations: 3_000,
            run: text::c09,
            fixed: None,
        },
        Prop {
            id: "C10",
            rule: "admissible grammar texts damaged by 1 to 4 edits, unrelated texts, weights that are no numbers, damaged imports; each is read as every kind of grammar; non-trivial: all",
            quick: 600000,
            thorough: 15000000,
            min_evaluations: 4_000,
            run: text::c10,
            fixed: None,
        },
        Prop {
            id: "C12",
            rule: "random derivations (up to some 100 nodes) of random grammars with copying, deletion and empty components; the whole tree and its subtrees are evaluated and compared with the model; non-trivial: more than 2 nodes",
            quick: 500000,
            thorough: 12500000,
            min_evaluations: 3_000,
            run: conv::c12,
            fixed: None,
        },
        Prop {
            id: "C13",
            rule: "random derivations of random grammars over symbols that clash with nonterminals; structure, yield and idempotence of the separated tree; non-trivial: some rule mixes terminals with other symbols",
            quick: 450000,
            thorough: 11250000,
            min_evaluations: 3_000,
            run: conv::c13,
            fixed: None,
        },
        Prop {
            id: "C14",
            rule: "random derivations of terminal-separated grammars (discontinuous, with empty components), exported with their own or given words; the rows are read back into a tree and compared; failed parses; non-trivial: more than one terminal",
            quick: 450000,
            thorough: 11250000,
            min_evaluations: 3_000,
            run: conv::c14,
            fixed: None,
        },
        Prop {
            id: "C15",
            rule: "random rule sets, most of them with up to 2 edits (variables added or dropped, components added, successors exchanged or undefined, initial nonterminal changed), compared with an independent check; non-trivial: all",
            quick: 900000,
            thorough: 22500000,
            min_evaluations: 5_000,
            run: conv::c15,
            fixed: None,
        },
        Prop {
            id: "C16",
            rule: "random MCFGs, most of them deleting; the result is checked for deletion and compared by the multiset of (yield, weight) of all derivations up to height 5; non-trivial: deleting and with derivations of height 2",
            quick: 600000,
            thorough: 15000000,
            min_evaluations: 2_000,
            run: conv::c16,
            fixed: None,
        },
        Prop {
            id: "C17",
            rule: "random PMCFGs turned into CFGs and MCFGs and back, compared rule by rule; non-trivial: all",
            quick: 900000,
            thorough: 22500000,
            min_evaluations: 3_000,
            run: conv::c17,
            fixed: None,
        },
        Prop {
            id: "C18",
            rule: "random binary LCFRS and lexicons written in the discodop format, imported with and without lexicon, compared with yield functions and relative frequencies computed from the text; a malformed line inserted anywhere; non-trivial: all",
            quick: 400000,
            thorough: 10000000,
            min_evaluations: 2_000,
            run: conv::c18,
            fixed: None,
        },
        #[cfg(feature = "rparse")]
        Prop {
            id: "C19",
            rule: "random clauses written in the rparse format, imported and compared; non-trivial: all",
            quick: 900000,
            thorough: 22500000,
            min_evaluations: 2_000,
            run: conv::c19,
            fixed: None,
        },
    ];
    kit::main(&props);
}
