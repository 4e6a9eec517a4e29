#!/usr/bin/env python3
"""Writes known-findings.json: the genuine defects found, repaired or recorded."""
import json
import os
import subprocess

# (property, start of the subject of the fix commit, signature the check reports, what failed)
FIXED = [
    ("C02", "unique search no longer ends", "C02:missing", "duplicate-free search ended when the agenda gave it an item it had already yielded, e.g. nodes 0->1, 0->2, 1->2, 2->3"),
    ("C04", "a UniqueHeap made from a vector", "C04:pop", "a queue made from a vector with a repeated element held and popped it twice"),
    ("C04", "collecting into a UniqueHeap", "panic:lib.rs", "collecting an iterator with a great upper size bound, e.g. (0..usize::MAX).take_while(..), panicked with a capacity overflow"),
    ("C06", "loading a partition with overlapping cells", "C06:load-panics", "deserialising the cells [{1},{1}] panicked"),
    ("C07", "lines of blanks in a file of equivalence classes", "C07:accepts-text", "a line of blanks in a file of classes was rejected"),
    ("C07", "an equivalence class written on several lines", "C07:project-text", "of a class written on several lines only the last line's members were kept"),
    ("C07", "a second default class", "C07:accepts-text", "a second default class silently replaced the first"),
    ("C09", "blank lines and indented initial declarations", "C09:pmcfg-rejected", "an indented declaration of initial nonterminals was read as a rule; lines of blanks were rejected"),
    ("C10", "a PMCFG rule with a malformed weight", "C10:pmcfg", "'S -> [[T a]] () # x' panicked"),
    ("C10", "a variable index that does not fit", "C10:pmcfg", "a variable index beyond usize panicked"),
    ("C09", "the weight of a rule ends at a tab", "C09:pmcfg-rejected", "'S -> [[T a]] () # 0.5<tab>% comment' failed"),
    ("C09", "the initial nonterminal of a printed LCFRS", "C09:lcfrs-round-trip", "initial nonterminals with quotes or backslashes were printed unescaped"),
    ("C09", "tokens without quotes may contain", "C09:cfg-rejected", "an unquoted token with a letter such as é or → bytes was cut inside"),
    ("C10", "a pseudocount with denominator 0", "C10:discodop", "a discodop count '1/0' panicked"),
    ("C10", "a discodop yield component with more", "C10:discodop", "a yield component with 65 variables panicked on a shift overflow"),
    ("C18", "discodop files with malformed lines", "C18:malformed-line", "a malformed line silently ended the grammar or lexicon file"),
    ("C11", "rules of a CFG are ordered", "C11:rule-order", "two rules of a CFG that differ in their weight only are equal, but one preceded the other in their order"),
    ("C13", "a terminal in front of variables", "C13:mixed-rule", "a rule with the composition [T a, Var 0 0] was left unseparated"),
    ("C19", "a malformed rparse clause is an error", "C19:malformed", "a malformed clause in the middle of an rparse text silently ended the grammar; a weight that is no number panicked"),
    ("C15", "rules with a successor that has no rules", "panic:C15:new", "the check of S -> [[Var 0 0]] (A) without rules for A panicked"),
    ("C16", "the conversion of an MCFG skips rules", "panic:C16:convert", "converting a grammar that uses a nonterminal without rules panicked"),
]
# (property, signature, what fails)
KNOWN = []


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    try:
        from findings_full import FIXED as F2, KNOWN as K2
    except ImportError:
        F2, K2 = [], []
    log = [l.split(" ", 1) for l in subprocess.run(
        ["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
    out = []
    for prop, subject, sig, what in FIXED + F2:
        hit = [h for h, s in log if s.startswith("fix: " + subject)]
        assert len(hit) == 1, (subject, hit)
        out.append(dict(property=prop, signature=sig, status="fixed", commit=hit[0], what=what,
                        line=f"fixed: property={prop} {hit[0]} {what}"))
    for prop, sig, what in KNOWN + K2:
        out.append(dict(property=prop, signature=sig, status="known", what=what))
    with open(f"{here}/../known-findings.json", "w") as f:
        json.dump({"findings": out}, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
