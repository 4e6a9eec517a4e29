//! C12 evaluation, C13 terminal separation, C14 NeGra export, C15 well-formed LCFRS, C16 MCFG to
//! LCFRS, C17 other conversions, C18 discodop import, C19 rparse import.
use kit::gram::{derivs_by_height, generate, largest_yield, random_deriv, subst, Deriv, Gram, Nt, Rule, Shape, Sym, Tm};
use kit::{guarded, Ctx, Rng};
use log_domain::LogDomain;
use rustomata::grammars::cfg::{LetterT, CFG};
use rustomata::grammars::lcfrs::from_discodop::{DiscoDopGrammar, DiscoLexer};
#[cfg(feature = "rparse")]
use rustomata::grammars::lcfrs::from_rparse::lcfrs_from_rparse;
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::mcfg::Mcfg;
use rustomata::grammars::pmcfg::negra::{meets_negra_criteria, noparse, to_negra, DumpMode};
use rustomata::grammars::pmcfg::{evaluate, evaluate_pos, separate_terminal_rules, to_term, Composition, PMCFGRule, VarT, PMCFG};
use rustomata::util::tree::GornTree;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

type PRule = PMCFGRule<String, String, f64>;
type Addr = Vec<usize>;

const NTS: [&str; 14] = ["S", "A", "B", "NP", "VP", "x", "a", "D D", "Æ", "aa", "b", "L", "M", "N"];
const TS: [&str; 6] = ["a", "b", "c c", "é", "S", "aa"];

fn comp_of(comps: &[Vec<Sym>]) -> Composition<String> {
    comps
        .iter()
        .map(|c| {
            c.iter()
                .map(|s| match s {
                    Sym::T(t) => VarT::T(TS[*t as usize].to_string()),
                    Sym::V(i, j) => VarT::Var(*i, *j),
                })
                .collect()
        })
        .collect::<Vec<Vec<_>>>()
        .into()
}

fn nt_name(n: Nt) -> String {
    NTS.get(n).map_or_else(|| format!("N{}", n), |s| s.to_string())
}

fn rule_of(r: &Rule) -> PRule {
    PMCFGRule {
        head: nt_name(r.lhs),
        tail: r.tail.iter().map(|n| nt_name(*n)).collect(),
        composition: comp_of(&r.comps),
        weight: r.weight(),
    }
}

fn tree_of(g: &Gram, d: &Deriv) -> GornTree<PRule> {
    d.nodes().into_iter().map(|(a, i)| (a, rule_of(&g.rules[i]))).collect()
}

fn words_of(t: &[Vec<Tm>]) -> Vec<Vec<String>> {
    t.iter().map(|w| w.iter().map(|x| TS[*x as usize].to_string()).collect()).collect()
}

fn strings(c: &Composition<String>) -> Option<Vec<Vec<String>>> {
    c.composition.iter().map(|w| w.iter().map(|v| if let VarT::T(t) = v { Some(t.clone()) } else { None }).collect()).collect()
}

fn tree_shape(r: &mut Rng) -> Shape {
    if r.chance(1, 20) {
        // numbers of two digits
        return Shape {
            nts: r.range(1, 14),
            max_fanout: r.range(1, 13),
            terminals: 6,
            max_rules_per_nt: r.range(1, 4),
            max_tail: r.range(1, 13),
            max_terminals: r.range(1, 12),
            recursive: false,
            epsilon: r.chance(1, 2),
            deleting: r.chance(1, 3),
            copying: r.chance(1, 3),
            ..Shape::default()
        };
    }
    Shape {
        nts: r.range(1, 6),
        max_fanout: r.range(1, 3),
        terminals: r.range(1, 6),
        max_rules_per_nt: r.range(1, 4),
        max_tail: r.range(1, 3),
        recursive: r.chance(1, 2),
        epsilon: r.chance(1, 2),
        deleting: r.chance(1, 3),
        copying: r.chance(1, 3),
        ..Shape::default()
    }
}

/// a tree beyond the usual size: one node with very many successors or a very long chain, every
/// terminal at a node of its own
fn big_tree(r: &mut Rng) -> (Gram, Rc<Deriv>) {
    let n = if r.chance(1, 6) { r.range(500, 1100) } else { r.range(14, 300) };
    let pre = |t: Tm| Rule { lhs: 2, tail: vec![], comps: vec![vec![Sym::T(t)]], exp: 0 };
    let leaf = |rule: usize| Rc::new(Deriv { rule, children: vec![] });
    let mut rules = vec![pre(0), pre(1), pre(2)];
    if r.chance(1, 2) {
        // a chain, with a word at some of its nodes
        rules.push(Rule { lhs: 1, tail: vec![2], comps: vec![vec![Sym::V(0, 0)]], exp: 0 });
        rules.push(Rule { lhs: 0, tail: vec![0], comps: vec![vec![Sym::V(0, 0)]], exp: 0 });
        rules.push(Rule { lhs: 0, tail: vec![1], comps: vec![vec![Sym::V(0, 0)]], exp: 0 });
        rules.push(Rule { lhs: 0, tail: vec![2, 0], comps: vec![vec![Sym::V(0, 0), Sym::V(1, 0)]], exp: 0 });
        rules.push(Rule { lhs: 0, tail: vec![0, 2], comps: vec![vec![Sym::V(1, 0), Sym::V(0, 0)]], exp: 0 });
        let mut d = Rc::new(Deriv { rule: 5, children: vec![Rc::new(Deriv { rule: 3, children: vec![leaf(r.below(3))] })] });
        for _ in 0..n {
            d = Rc::new(match r.below(12) {
                0 => Deriv { rule: 6, children: vec![leaf(r.below(3)), d] },
                1 => Deriv { rule: 7, children: vec![d, leaf(r.below(3))] },
                _ => Deriv { rule: 4, children: vec![d] },
            });
        }
        (Gram { fanout: vec![1, 1, 1], rules, init: 0 }, d)
    } else {
        // a node with n successors, in any order
        let mut order: Vec<usize> = (0..n).collect();
        if r.chance(1, 2) {
            r.shuffle(&mut order);
        }
        rules.push(Rule { lhs: 1, tail: vec![2], comps: vec![vec![Sym::V(0, 0)]], exp: 0 });
        let inner = r.chance(3, 4);
        rules.push(Rule { lhs: 0, tail: vec![if inner { 1 } else { 2 }; n], comps: vec![order.iter().map(|i| Sym::V(*i, 0)).collect()], exp: 0 });
        let children = (0..n)
            .map(|_| {
                let l = leaf(r.below(3));
                if inner {
                    Rc::new(Deriv { rule: 3, children: vec![l] })
                } else {
                    l
                }
            })
            .collect();
        (Gram { fanout: vec![1, 1, 1], rules, init: 0 }, Rc::new(Deriv { rule: 4, children }))
    }
}

/// a random derivation of a random grammar, preferably one with some structure
fn some_tree(r: &mut Rng, sh: &Shape) -> Option<(Gram, Rc<Deriv>)> {
    if r.chance(1, 600) {
        return Some(big_tree(r));
    }
    let mut last = None;
    for _ in 0..4 {
        let g = generate(r, sh);
        let nt = if r.chance(1, 5) { r.below(g.fanout.len()) } else { g.init };
        let budget = if r.chance(1, 60) { r.range(50, 250) } else { r.range(1, 25) };
        if let Some(d) = random_deriv(r, &g, nt, budget) {
            if largest_yield(&g, &d) > 400 {
                continue;
            }
            let enough = d.size() > 2;
            last = Some((g, d));
            if enough {
                break;
            }
        }
    }
    last
}

// ------------------------------------------------------------------ C12

pub fn c12(ctx: &mut Ctx, r: &mut Rng) {
    let sh = tree_shape(r);
    let (g, d) = match some_tree(r, &sh) {
        Some(x) => x,
        None => return,
    };
    let tree = tree_of(&g, &d);
    ctx.eval();
    if d.size() > 2 {
        ctx.nontrivial(&(&g.rules, &d));
    }
    ctx.sample(|| format!("{:?}", tree));
    let (terms, heads) = to_term(&tree);
    let dd = || format!("{:?}", tree);
    let nodes = d.nodes();
    ctx.check(terms.len() == nodes.len() && heads.len() == nodes.len(), "C12:to_term-size", dd);
    for (a, i) in &nodes {
        ctx.check(heads.get(a) == Some(&nt_name(g.rules[*i].lhs)) && terms.get(a) == Some(&comp_of(&g.rules[*i].comps)), "C12:to_term", dd);
    }
    let whole = words_of(&d.eval(&g));
    if let Some(got) = ctx.call("C12:evaluate", || evaluate(&terms), dd) {
        ctx.ev("derivations evaluated");
        ctx.check(strings(&got).as_ref() == Some(&whole), "C12:evaluate", || format!("{:?}, expected {:?}, for {:?}", got, whole, tree));
    }
    // every subtree
    fn at<'a>(d: &'a Deriv, a: &[usize]) -> &'a Deriv {
        a.iter().fold(d, |d, i| &d.children[*i])
    }
    for (a, _) in nodes.iter().take(8) {
        let want = words_of(&at(&d, a).eval(&g));
        ctx.ev("subtrees evaluated");
        if let Some(got) = ctx.call("C12:evaluate_pos", || evaluate_pos(&terms, a.clone()), dd) {
            ctx.check(strings(&got).as_ref() == Some(&want), "C12:evaluate_pos", || format!("at {:?}: {:?}, expected {:?}, for {:?}", a, got, want, tree));
        }
    }
    // a rule under renaming of its nonterminals
    for (_, i) in nodes.iter().take(3) {
        let rule = rule_of(&g.rules[*i]);
        let m = rule.map_nonterminals(|n| n.len());
        ctx.check(m.head == rule.head.len() && m.tail == rule.tail.iter().map(|n| n.len()).collect::<Vec<_>>() && m.composition == rule.composition && m.weight == rule.weight, "C12:map_nonterminals", || format!("{:?}", rule));
        // what a rule's symbols say about themselves
        for (component, want) in rule.composition.iter().zip(&g.rules[*i].comps) {
            ctx.check(component.len() == want.len(), "C12:symbols", || format!("{:?}", rule));
            for (s, w) in component.iter().zip(want) {
                let ok = match w {
                    Sym::V(i, j) => s.is_var() && !s.is_t() && s.unwrap_var() == (*i, *j),
                    Sym::T(t) => s.is_t() && !s.is_var() && s.unwrap_t() == TS[*t as usize],
                };
                ctx.check(ok, "C12:symbols", || format!("{:?} of {:?}", s, rule));
            }
        }
    }
}

// ------------------------------------------------------------------ C13

pub fn c13(ctx: &mut Ctx, r: &mut Rng) {
    let sh = tree_shape(r);
    let (g, d) = match some_tree(r, &sh) {
        Some(x) => x,
        None => return,
    };
    let mut tree = tree_of(&g, &d);
    if r.chance(1, 2) {
        // nonterminals that look like the ones a separation would make up
        let mut pool = ["a", "aa", "aaa", "aaaa", "b", "bb", "aaaaaa", "éé", "é", "c c"];
        r.shuffle(&mut pool);
        let mut names: BTreeMap<String, String> = BTreeMap::new();
        for rule in tree.values() {
            let k = names.len();
            names.entry(rule.head.clone()).or_insert_with(|| pool.get(k).map_or_else(|| format!("N{}", k), |n| n.to_string()));
        }
        tree = (&tree).into_iter().map(|(a, rule)| (a.clone(), rule.map_nonterminals(|n| names[n].clone()))).collect();
        if tree.values().any(|x| names.values().any(|n| *n == format!("{}{}", x.head, x.head)) && TS.contains(&x.head.as_str())) {
            ctx.ev("trees with a terminal and its repetition as nonterminals");
        }
    }
    ctx.eval();
    if d.nodes().iter().any(|(_, i)| g.rules[*i].terminals() > 0 && g.rules[*i].comps.iter().flatten().count() > 1) {
        ctx.nontrivial(&(&g.rules, &d));
    }
    ctx.sample(|| format!("{:?}", tree));
    let dd = || format!("{:?}", tree);
    let sep = match ctx.call("C13", || separate_terminal_rules(&tree), dd) {
        Some(s) => s,
        None => return,
    };
    ctx.ev("trees separated");
    let both = || format!("{:?} became {:?}", tree, sep);
    let old_heads: BTreeSet<&String> = tree.values().map(|r| &r.head).collect();
    for (a, rule) in &sep {
        let ts = rule.composition.iter().flatten().filter(|s| s.is_t()).count();
        let vs = rule.composition.iter().flatten().filter(|s| s.is_var()).count();
        ctx.check(ts == 0 || (ts == 1 && vs == 0), "C13:mixed-rule", both);
        // the rules still fit together
        for (i, n) in rule.tail.iter().enumerate() {
            let mut b = a.clone();
            b.push(i);
            if let Some(c) = sep.get(&b) {
                ctx.check(&c.head == n, "C13:head-mismatch", both);
            } else {
                ctx.violation("C13:missing-child", both());
            }
        }
        if let Some((last, up)) = a.split_last() {
            ctx.check(sep.get(&up.to_vec()).map_or(false, |p| *last < p.tail.len()), "C13:stray-node", both);
        }
        if tree.get(a).is_none() {
            ctx.ev("terminal nodes added");
            ctx.check(ts == 1 && rule.tail.is_empty(), "C13:added-node", both);
            ctx.check(!old_heads.contains(&rule.head), "C13:nonterminal-clash", both);
        }
    }
    for (a, rule) in &tree {
        ctx.check(sep.get(a).map_or(false, |s| s.head == rule.head && s.weight == rule.weight && s.tail.starts_with(&rule.tail)), "C13:node-lost", both);
    }
    let want = words_of(&d.eval(&g));
    if let Some(got) = ctx.call("C13:evaluate", || evaluate(&to_term(&sep).0), both) {
        ctx.check(strings(&got).as_ref() == Some(&want), "C13:yield", || format!("yield {:?}, expected {:?}: {}", got, want, both()));
    }
    ctx.check(meets_negra_criteria(&sep), "C13:negra-criteria", both);
    if let Some(again) = ctx.call("C13:again", || separate_terminal_rules(&sep), both) {
        ctx.check(again == sep, "C13:idempotent", || format!("{:?} becomes {:?}", sep, again));
    }
}

// ------------------------------------------------------------------ C14

/// the yield with the node and the symbol of each terminal
fn eval_addr(g: &Gram, d: &Deriv, a: &mut Addr) -> Vec<Vec<(Addr, Tm)>> {
    let args: Vec<Vec<Vec<(Addr, Tm)>>> = d
        .children
        .iter()
        .enumerate()
        .map(|(i, c)| {
            a.push(i);
            let x = eval_addr(g, c, a);
            a.pop();
            x
        })
        .collect();
    g.rules[d.rule]
        .comps
        .iter()
        .map(|c| {
            let mut w = Vec::new();
            for s in c {
                match *s {
                    Sym::T(t) => w.push((a.clone(), t)),
                    Sym::V(i, j) => w.extend(args[i][j].iter().cloned()),
                }
            }
            w
        })
        .collect()
}

pub fn c14(ctx: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 12) {
        c14_noparse(ctx, r);
        return;
    }
    let mut sh = tree_shape(r);
    sh.normal_form = true;
    sh.max_tail = r.range(1, 3);
    let (g, d) = match some_tree(r, &sh) {
        Some(x) => x,
        None => return,
    };
    let tree = tree_of(&g, &d);
    // the criteria, judged independently
    let fits = d.nodes().iter().all(|(_, i)| {
        let rule = &g.rules[*i];
        let vs = rule.comps.iter().flatten().count() - rule.terminals();
        rule.terminals() == 0 || (rule.terminals() == 1 && vs == 0)
    });
    let dd = || format!("{:?}", tree);
    ctx.eval();
    ctx.check(meets_negra_criteria(&tree) == fits, "C14:criteria", dd);
    {
        // a tree that was not separated
        let mut sh = tree_shape(r);
        sh.max_terminals = 2;
        if let Some((g, d)) = some_tree(r, &sh) {
            let t = tree_of(&g, &d);
            let fits = d.nodes().iter().all(|(_, i)| {
                let rule = &g.rules[*i];
                let vs = rule.comps.iter().flatten().count() - rule.terminals();
                rule.terminals() == 0 || (rule.terminals() == 1 && vs == 0)
            });
            ctx.ev(if fits { "criteria met" } else { "criteria not met" });
            ctx.check(meets_negra_criteria(&t) == fits, "C14:criteria", || format!("{:?}", t));
            if !fits {
                // it has no line of its own for each terminal: nothing may be written for it
                let out = guarded(|| to_negra(&t, 1, DumpMode::Default));
                ctx.check(out.is_err(), "C14:refuses", || format!("{:?} was written as {:?}", t, out));
            }
        }
    }
    if !fits || g.rules[d.rule].terminals() > 0 {
        return;
    }
    let id = r.below(5000);
    let leaves: Vec<(Addr, Tm)> = eval_addr(&g, &d, &mut vec![]).into_iter().flatten().collect();
    let own_words = r.chance(1, 2);
    let words: Vec<String> = if own_words { leaves.iter().enumerate().map(|(i, _)| format!("word{}", i)).collect() } else { leaves.iter().map(|(_, t)| TS[*t as usize].to_string()).collect() };
    let mode = if own_words { DumpMode::FromPos(words.clone()) } else { DumpMode::Default };
    let out = match ctx.call("C14", || to_negra(&tree, id, mode), dd) {
        Some(o) => o,
        None => return,
    };
    ctx.ev("trees exported");
    if leaves.len() > 1 {
        ctx.nontrivial(&(&g.rules, &d));
    }
    ctx.sample(|| out.clone());
    let bad = |what: &str| format!("{}: {} for {:?}", what, out, tree);
    let lines: Vec<&str> = out.split('\n').collect();
    if !ctx.check(lines.len() >= 2 && lines[0] == format!("#BOS {}", id) && lines[lines.len() - 1] == format!("#EOS {}", id), "C14:frame", || bad("frame")) {
        return;
    }
    let mut rows: Vec<(String, String, usize)> = Vec::new();
    for l in &lines[1..lines.len() - 1] {
        let f: Vec<&str> = l.split('\t').collect();
        let n = f.get(4).and_then(|s| s.parse::<usize>().ok());
        if !ctx.check(f.len() == 5 && f[2] == "--" && f[3] == "--" && n.is_some(), "C14:row", || bad(l)) {
            return;
        }
        rows.push((f[0].to_string(), f[1].to_string(), n.unwrap()));
    }
    if !ctx.check(rows.len() >= leaves.len(), "C14:rows", || bad("too few rows")) {
        return;
    }
    let label: HashMap<Addr, String> = d.nodes().into_iter().map(|(a, i)| (a, nt_name(g.rules[i].lhs))).collect();
    // which node does a number stand for?
    let mut node: BTreeMap<usize, Addr> = BTreeMap::new();
    node.insert(0, vec![]);
    let mut work: Vec<(usize, Addr)> = Vec::new();
    for (row, ((a, _), w)) in rows.iter().zip(leaves.iter().zip(&words)) {
        ctx.check(row.0 == *w && row.1 == label[a], "C14:leaf", || bad(&format!("leaf {:?} at {:?}", row, a)));
        work.push((row.2, a[..a.len() - 1].to_vec()));
    }
    let mut inner: BTreeMap<usize, (String, usize)> = BTreeMap::new();
    for row in &rows[leaves.len()..] {
        match row.0.strip_prefix('#').and_then(|s| s.parse::<usize>().ok()) {
            Some(n) => {
                ctx.check(inner.insert(n, (row.1.clone(), row.2)).is_none(), "C14:node-twice", || bad(&format!("node {}", n)));
            }
            None => ctx.violation("C14:row", bad(&row.0)),
        }
    }
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    let mut of_addr: BTreeMap<Addr, usize> = BTreeMap::new();
    of_addr.insert(vec![], 0);
    while let Some((n, a)) = work.pop() {
        if !ctx.check(node.entry(n).or_insert_with(|| a.clone()) == &a && of_addr.entry(a.clone()).or_insert(n) == &n, "C14:structure", || bad(&format!("number {} and node {:?}", n, a))) {
            return;
        }
        if n == 0 || !seen.insert(n) {
            continue;
        }
        match inner.get(&n) {
            None => {
                ctx.violation("C14:missing-node", bad(&format!("#{}", n)));
                return;
            }
            Some((l, p)) => {
                ctx.check(*l == label[&a], "C14:label", || bad(&format!("#{}", n)));
                work.push((*p, a[..a.len() - 1].to_vec()));
            }
        }
    }
    ctx.check(seen.len() == inner.len(), "C14:stray-node", || bad("unreferenced node"));
    ctx.check(seen.iter().cloned().eq(500..500 + seen.len()), "C14:numbering", || bad("numbers"));
}

fn c14_noparse(ctx: &mut Ctx, r: &mut Rng) {
    let n = r.below(6);
    // what was parsed: words, or tags with the words they stand for handed over beside them
    let sent: Vec<String> = (0..n).map(|i| format!("s{}", i)).collect();
    let given: Vec<String> = (0..n).map(|i| format!("w{}", i)).collect();
    let id = r.below(100);
    let with_pos = r.chance(1, 2);
    ctx.eval();
    ctx.ev("failed parses exported");
    let mode = if with_pos { DumpMode::FromPos(given.clone()) } else { DumpMode::Default };
    if let Some(out) = ctx.call("C14:noparse", || noparse(&sent, id, mode), || format!("{:?}", sent)) {
        let mut want = format!("#BOS {}\n", id);
        for i in 0..n {
            // the words and tags in the order of the sentence, below the one node
            let cols = if with_pos { (given[i].clone(), sent[i].clone()) } else { (sent[i].clone(), "--".to_string()) };
            want.push_str(&format!("{}\t{}\t--\t--\t500\n", cols.0, cols.1));
        }
        want.push_str(&format!("#500\tNOPARSE\t--\t--\t0\n#EOS {}", id));
        ctx.check(out == want, "C14:noparse", || format!("{:?}, expected {:?}", out, want));
    }
}

// ------------------------------------------------------------------ C15

/// linear, non-deleting, consistent fanouts, initial fanout 1, every used nonterminal has rules
fn well_formed(rules: &[Rule], init: Nt) -> bool {
    let mut fan: HashMap<Nt, usize> = HashMap::new();
    for r in rules {
        if *fan.entry(r.lhs).or_insert(r.comps.len()) != r.comps.len() {
            return false;
        }
    }
    if fan.get(&init) != Some(&1) {
        return false;
    }
    rules.iter().all(|r| {
        let mut want: Vec<(usize, usize)> = Vec::new();
        for (i, n) in r.tail.iter().enumerate() {
            match fan.get(n) {
                None => return false,
                Some(f) => want.extend((0..*f).map(|j| (i, j))),
            }
        }
        let mut have: Vec<(usize, usize)> = r.comps.iter().flatten().filter_map(|s| if let Sym::V(i, j) = s { Some((*i, *j)) } else { None }).collect();
        have.sort();
        want.sort();
        have == want
    })
}

pub fn c15(ctx: &mut Ctx, r: &mut Rng) {
    let mut sh = tree_shape(r);
    sh.deleting = r.chance(1, 6);
    sh.copying = r.chance(1, 6);
    sh.normal_form = r.chance(1, 3);
    let mut g = generate(r, &sh);
    let edits = *r.pick(&[0, 0, 1, 1, 1, 2]);
    for _ in 0..edits {
        if g.rules.is_empty() {
            break;
        }
        let i = r.below(g.rules.len());
        let nts = g.fanout.len();
        match r.below(8) {
            0 => {
                g.rules.remove(i);
            }
            1 => {
                let k = r.below(g.rules[i].comps.len());
                g.rules[i].comps[k].push(Sym::V(r.below(3), r.below(3)));
            }
            2 => {
                let k = r.below(g.rules[i].comps.len());
                g.rules[i].comps[k].pop();
            }
            3 => g.rules[i].comps.push(vec![Sym::T(0)]),
            4 => g.init = r.below(nts),
            5 => {
                let t = r.below(nts + 1);
                g.rules[i].tail.push(t);
            }
            6 => {
                if !g.rules[i].tail.is_empty() {
                    let k = r.below(g.rules[i].tail.len());
                    g.rules[i].tail[k] = r.below(nts + 1);
                }
            }
            _ => {
                let l = r.below(nts);
                g.rules[i].lhs = l;
            }
        }
    }
    if g.rules.iter().any(|r| r.comps.is_empty()) {
        return;
    }
    let want = well_formed(&g.rules, g.init);
    let rules: Vec<PRule> = g.rules.iter().map(rule_of).collect();
    ctx.eval();
    ctx.nontrivial(&(&g.rules, g.init));
    ctx.ev(if want { "well-formed" } else { "ill-formed" });
    ctx.sample(|| format!("{:?} initial {}: {}", rules, g.init, want));
    let dd = || format!("rules {:?}, initial {}", rules, nt_name(g.init));
    if let Some(l) = ctx.call("C15:new", || Lcfrs::new(rules.clone(), nt_name(g.init)), dd) {
        ctx.check(l.is_some() == want, "C15:accepts", || format!("{} were {}", dd(), if want { "refused" } else { "accepted" }));
        if let Some(l) = l {
            let nf = g.rules.iter().all(|r| {
                let syms: Vec<&Sym> = r.comps.iter().flatten().collect();
                r.comps.iter().all(|c| !c.is_empty()) && (r.terminals() == 0 || (syms.len() == 1 && r.comps.len() == 1))
            });
            ctx.ev(if nf { "in normal form" } else { "not in normal form" });
            ctx.check(l.in_normal_form() == nf, "C15:normal-form", dd);
            let (rs, i) = l.destruct();
            ctx.check(i == nt_name(g.init) && rs == rules && rs.iter().zip(&rules).all(|(a, b)| a.weight == b.weight), "C15:destruct", dd);
        }
    }
}

// ------------------------------------------------------------------ C16

/// (yield, weights) of all derivations up to a height, as a multiset
fn bag(g: &Gram, nt: Nt, h: usize, cap: usize) -> Option<BTreeMap<(Vec<Vec<Tm>>, u32), usize>> {
    let mut over = false;
    let ds = derivs_by_height(g, nt, h, cap, &mut over);
    if over {
        return None;
    }
    let mut m = BTreeMap::new();
    for d in ds {
        *m.entry((d.eval(g), d.exp(g))).or_insert(0) += 1;
    }
    Some(m)
}

pub fn c16(ctx: &mut Ctx, r: &mut Rng) {
    let mut sh = tree_shape(r);
    sh.copying = false;
    sh.deleting = r.chance(4, 5);
    sh.nts = r.range(1, 4);
    sh.max_rules_per_nt = r.range(1, 3);
    sh.max_tail = r.range(1, 2);
    let mut g = generate(r, &sh);
    if r.chance(1, 3) && sh.deleting && g.rules.len() > 1 {
        // deletion below recursion
        let i = r.below(g.rules.len());
        for c in g.rules[i].comps.iter_mut() {
            if r.chance(1, 2) {
                c.retain(|s| matches!(s, Sym::T(_)));
            }
        }
    }
    if r.chance(1, 8) {
        // a nonterminal without rules, first or last
        let n = g.fanout.len();
        g.fanout.push(1);
        g.rules.push(Rule { lhs: r.below(n), tail: vec![n], comps: vec![], exp: 1 });
        let l = g.rules.len() - 1;
        let f = g.fanout[g.rules[l].lhs];
        g.rules[l].comps = (0..f).map(|k| if k == 0 { vec![Sym::V(0, 0)] } else { vec![Sym::T(0)] }).collect();
        ctx.ev("grammars using a nonterminal without rules");
    }
    let dup = {
        // duplicates of a rule keep their own derivations
        if r.chance(1, 10) {
            let i = r.below(g.rules.len());
            let x = g.rules[i].clone();
            g.rules.push(x);
            true
        } else {
            false
        }
    };
    let rules: Vec<PRule> = g.rules.iter().map(rule_of).collect();
    let dd = || format!("{:?}", rules);
    ctx.eval();
    let pm = PMCFG { initial: vec![nt_name(g.init)], rules: rules.clone() };
    let mcfg = match ctx.call("C16:mcfg", || Mcfg::from_pmcfg(pm.clone()), dd) {
        Some(Some(m)) => m,
        Some(None) => {
            ctx.violation("C16:refused", dd());
            return;
        }
        None => return,
    };
    let lcfrs: Lcfrs<(String, BTreeSet<usize>), String, f64> = match ctx.call("C16:convert", || mcfg.into(), dd) {
        Some(l) => l,
        None => return,
    };
    let (rs, init) = lcfrs.destruct();
    ctx.ev("grammars converted");
    if rs.len() != rules.len() {
        ctx.ev("conversions that split nonterminals");
    }
    // read it back into the model
    let mut ids: BTreeMap<(String, BTreeSet<usize>), Nt> = BTreeMap::new();
    let id = |n: &(String, BTreeSet<usize>), ids: &mut BTreeMap<(String, BTreeSet<usize>), Nt>| {
        let k = ids.len();
        *ids.entry(n.clone()).or_insert(k)
    };
    let start = id(&init, &mut ids);
    let mut out: Vec<Rule> = Vec::new();
    for x in &rs {
        let lhs = id(&x.head, &mut ids);
        let tail = x.tail.iter().map(|n| id(n, &mut ids)).collect();
        let comps: Vec<Vec<Sym>> = x
            .composition
            .iter()
            .map(|c| {
                c.iter()
                    .map(|s| match s {
                        VarT::T(t) => Sym::T(TS.iter().position(|u| u == t).unwrap() as Tm),
                        VarT::Var(i, j) => Sym::V(*i, *j),
                    })
                    .collect()
            })
            .collect();
        out.push(Rule { lhs, tail, comps, exp: (-x.weight.log2()).round() as u32 });
    }
    let shown = || format!("{:?} became {:?}", rules, rs);
    let mut fan: HashMap<Nt, usize> = HashMap::new();
    for r in &out {
        ctx.check(*fan.entry(r.lhs).or_insert(r.comps.len()) == r.comps.len(), "C16:fanout", shown);
    }
    if !out.is_empty() {
        ctx.check(fan.get(&start).map_or(true, |f| *f == 1), "C16:initial-fanout", shown);
    }
    // linear and non-deleting: every component of every successor occurs exactly once
    for r in &out {
        let mut have: Vec<(usize, usize)> = r.comps.iter().flatten().filter_map(|s| if let Sym::V(i, j) = s { Some((*i, *j)) } else { None }).collect();
        have.sort();
        let mut want = Vec::new();
        let mut known = true;
        for (i, n) in r.tail.iter().enumerate() {
            match fan.get(n) {
                Some(f) => want.extend((0..*f).map(|j| (i, j))),
                None => known = false,
            }
        }
        // a successor whose rules are all of no use has none and no fanout
        ctx.check(!known || have == want, "C16:deletes", shown);
    }
    let ga = Gram { fanout: g.fanout.clone(), rules: g.rules.clone(), init: g.init };
    let gb = Gram { fanout: (0..ids.len()).map(|n| fan.get(&n).cloned().unwrap_or(0)).collect(), rules: out, init: start };
    let mut height = 0;
    for h in 1..=5 {
        match (bag(&ga, ga.init, h, 400), bag(&gb, gb.init, h, 400)) {
            (Some(a), Some(b)) => {
                height = h;
                ctx.ev_n("derivations compared", a.values().map(|n| *n as u64).sum());
                if !ctx.check(a == b, "C16:derivations", || format!("derivations of height {}: {:?} versus {:?}: {}", h, a, b, shown())) {
                    return;
                }
            }
            _ => break,
        }
    }
    let deletes = g.rules.iter().any(|r| {
        let vs = r.comps.iter().flatten().count() - r.terminals();
        vs < r.tail.iter().map(|n| g.fanout[*n]).sum::<usize>()
    });
    if deletes && height > 1 {
        ctx.nontrivial(&(&g.rules, dup));
    }
    ctx.sample(shown);
}

// ------------------------------------------------------------------ C17

pub fn c17(ctx: &mut Ctx, r: &mut Rng) {
    // ---- to a context-free grammar
    let mut sh = tree_shape(r);
    sh.max_fanout = 1;
    sh.copying = false;
    sh.deleting = false;
    let g = generate(r, &sh);
    let mut inits = vec![nt_name(g.init)];
    if r.chance(1, 4) {
        inits.push(nt_name(r.below(g.fanout.len())));
    }
    if r.chance(1, 5) {
        // one that has no rules
        let at = r.below(inits.len() + 1);
        inits.insert(at, "unused".to_string());
    }
    type L = LogDomain<f64>;
    let rules: Vec<PMCFGRule<String, String, L>> = g
        .rules
        .iter()
        .map(|x| {
            let y = rule_of(x);
            PMCFGRule { head: y.head, tail: y.tail, composition: y.composition, weight: L::new(y.weight).unwrap() }
        })
        .collect();
    ctx.eval();
    ctx.nontrivial(&g.rules);
    ctx.sample(|| format!("{:?}", rules));
    let dd = || format!("{:?}", rules);
    let pm = PMCFG { initial: inits.clone(), rules: rules.clone() };
    if let Some(c) = ctx.call("C17:cfg", || CFG::from(pm.clone()), dd) {
        ctx.ev("grammars turned context-free");
        // the same rules as a multiset
        let mut a: Vec<(String, Vec<(bool, String)>, u64)> = c
            .rules
            .iter()
            .map(|x| {
                (
                    x.head.clone(),
                    x.composition
                        .composition
                        .iter()
                        .map(|l| match l {
                            LetterT::Value(t) => (true, t.clone()),
                            LetterT::Label(n) => (false, n.clone()),
                        })
                        .collect(),
                    x.weight.value().to_bits(),
                )
            })
            .collect();
        let mut b: Vec<(String, Vec<(bool, String)>, u64)> = rules
            .iter()
            .map(|x| {
                (
                    x.head.clone(),
                    x.composition[0]
                        .iter()
                        .map(|v| match v {
                            VarT::T(t) => (true, t.clone()),
                            VarT::Var(i, _) => (false, x.tail[*i].clone()),
                        })
                        .collect(),
                    x.weight.value().to_bits(),
                )
            })
            .collect();
        a.sort();
        b.sort();
        ctx.check(a == b && c.initial == inits, "C17:cfg", || format!("{:?} became {:?}", rules, c));
    }
    // ---- a rule of another fan-out has no context-free counterpart: the conversion must not invent one
    if r.chance(1, 3) && !rules.is_empty() {
        let mut bad = rules.clone();
        let at = r.below(bad.len());
        if r.chance(1, 4) {
            bad[at].composition = Composition { composition: vec![] };
        } else {
            let extra = if r.chance(1, 3) { vec![] } else { vec![VarT::T("a".to_string())] };
            bad[at].composition.composition.push(extra);
        }
        let pm = PMCFG { initial: inits.clone(), rules: bad.clone() };
        ctx.eval();
        ctx.ev("rules of another fan-out");
        let got = guarded(|| CFG::from(pm.clone()));
        ctx.check(got.is_err(), "C17:cfg-fan-out", || format!("{:?} became {:?}", bad, got));
    }
    // ---- to an MCFG: exactly the grammars without copying and with one initial nonterminal
    let mut sh = tree_shape(r);
    sh.copying = r.chance(1, 2);
    let g = generate(r, &sh);
    let rules: Vec<PRule> = g.rules.iter().map(rule_of).collect();
    let inits: Vec<String> = match r.below(5) {
        0 => vec![],
        1 => vec![nt_name(0), nt_name(1)],
        _ => vec![nt_name(0)],
    };
    let copies = g.rules.iter().any(|r| {
        let v: Vec<&Sym> = r.comps.iter().flatten().filter(|s| matches!(s, Sym::V(..))).collect();
        let s: BTreeSet<&&Sym> = v.iter().collect();
        s.len() < v.len()
    });
    let want = !copies && inits.len() == 1;
    ctx.eval();
    let dd = || format!("{:?} initial {:?}", rules, inits);
    if let Some(m) = ctx.call("C17:mcfg", || Mcfg::from_pmcfg(PMCFG { initial: inits.clone(), rules: rules.clone() }), dd) {
        ctx.ev(if want { "MCFGs" } else { "no MCFGs" });
        ctx.check(m.is_some() == want, "C17:mcfg", || format!("{}: {}", dd(), m.is_some()));
        if let Some(m) = m {
            let back: PMCFG<String, String, f64> = m.clone().into();
            let same = |rs: &[PRule]| rs == &rules[..] && rs.iter().zip(&rules).all(|(a, b)| a.weight == b.weight);
            ctx.check(back.initial == inits && same(&back.rules), "C17:mcfg-to-pmcfg", dd);
            let (rs, i) = m.destruct();
            ctx.check(i == inits[0] && same(&rs), "C17:mcfg-parts", dd);
            if let Some(l) = guarded(|| Lcfrs::new(rules.clone(), inits[0].clone())).ok().and_then(|x| x) {
                ctx.ev("LCFRS turned into MCFGs");
                let m: Mcfg<String, String, f64> = l.into();
                let (rs, i) = m.destruct();
                ctx.check(i == inits[0] && same(&rs), "C17:lcfrs-to-mcfg", dd);
            }
        }
    }
}

// ------------------------------------------------------------------ C18

/// a binary, ordered rule over variables only: per component the successor of each variable
fn yield_fn(r: &mut Rng, f: usize, fans: &[usize]) -> Option<Vec<Vec<usize>>> {
    let mut vs: Vec<usize> = Vec::new();
    for (i, n) in fans.iter().enumerate() {
        vs.extend(std::iter::repeat(i).take(*n));
    }
    if vs.len() < f {
        return None;
    }
    r.shuffle(&mut vs);
    let mut comps: Vec<Vec<usize>> = vec![Vec::new(); f];
    for (k, v) in vs.into_iter().enumerate() {
        let c = if k < f { k } else { r.below(f) };
        comps[c].push(v);
    }
    Some(comps)
}

fn composition_of(y: &[Vec<usize>]) -> Vec<Vec<Sym>> {
    let mut next = [0, 0];
    y.iter()
        .map(|c| {
            c.iter()
                .map(|i| {
                    next[*i] += 1;
                    Sym::V(*i, next[*i] - 1)
                })
                .collect()
        })
        .collect()
}

type Wanted = (String, Vec<String>, Vec<Vec<VarT<String>>>, f64);

fn compare(ctx: &mut Ctx, sig: &str, rules: Vec<PRule>, mut want: Vec<Wanted>, dd: &dyn Fn() -> String) {
    let mut got: Vec<Wanted> = rules.into_iter().map(|r| (r.head, r.tail, r.composition.composition, r.weight)).collect();
    let key = |x: &Wanted| format!("{:?} {:?} {:?} {:.9}", x.0, x.1, x.2, x.3);
    got.sort_by_key(key);
    want.sort_by_key(key);
    let same = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && a.2 == b.2 && (a.3 - b.3).abs() < 1e-9);
    ctx.check(same, sig, || format!("read {:?}, expected {:?}, from {}", got, want, dd()));
}

pub fn c18(ctx: &mut Ctx, r: &mut Rng) {
    let names = ["ROOT", "S", "NP", "VP_2", "VP|<NP,VB>_2", "ADJ^<S>", "Äpfel", "$,", "PN"];
    let n = r.range(2, names.len());
    let mut fan: Vec<usize> = (0..n).map(|_| r.range(1, 3)).collect();
    fan[0] = 1;
    let pre = ["NN", "VB", "JJ"]; // preterminals
    let mut lines: Vec<String> = Vec::new();
    let mut want: Vec<(String, Vec<String>, Vec<Vec<VarT<String>>>, f64)> = Vec::new();
    let count = |r: &mut Rng| -> (String, f64) {
        if r.chance(1, 2) {
            let k = r.range(1, 400);
            (format!("{}", k), k as f64)
        } else {
            let (a, b) = (r.range(1, 60), r.range(1, 64));
            (format!("{}/{}", a, b), a as f64 / b as f64)
        }
    };
    let all: Vec<String> = names[..n].iter().map(|s| s.to_string()).chain(pre.iter().map(|s| s.to_string())).collect();
    let fan_of = |i: usize| if i < n { fan[i] } else { 1 };
    for _ in 0..r.range(1, 9) {
        let lhs = r.below(n);
        let mut tail = vec![r.below(all.len())];
        if r.chance(2, 3) {
            tail.push(r.below(all.len()));
        }
        let fans: Vec<usize> = tail.iter().map(|t| fan_of(*t)).collect();
        let y = match yield_fn(r, fan[lhs], &fans) {
            Some(y) => y,
            None => continue,
        };
        let (wt, w) = count(r);
        let ys: Vec<String> = y.iter().map(|c| c.iter().map(|i| i.to_string()).collect::<String>()).collect();
        let sep = if r.chance(1, 6) { " " } else { "\t" };
        let mut fields = vec![all[lhs].clone()];
        fields.extend(tail.iter().map(|t| all[*t].clone()));
        fields.push(ys.join(","));
        fields.push(wt);
        lines.push(fields.join(sep));
        let comps: Vec<Vec<VarT<String>>> = composition_of(&y).into_iter().map(|c| c.into_iter().map(|s| if let Sym::V(i, j) = s { VarT::Var(i, j) } else { unreachable!() }).collect()).collect();
        want.push((all[lhs].clone(), tail.iter().map(|t| all[*t].clone()).collect(), comps, w));
    }
    if want.is_empty() {
        return;
    }
    if r.chance(1, 60) {
        // a long component, up to the 64 variables its bit mask has room for
        let k = *r.pick(&[8, 31, 32, 33, 63, 64]);
        let bits: Vec<usize> = (0..k).map(|_| r.below(2)).collect();
        let ys: String = bits.iter().map(|b| b.to_string()).collect();
        lines.push(format!("LONG\tL1\tL2\t{}\t2", ys));
        let comp: Vec<VarT<String>> = composition_of(&[bits]).remove(0).into_iter().map(|s| if let Sym::V(i, j) = s { VarT::Var(i, j) } else { unreachable!() }).collect();
        want.push(("LONG".into(), vec!["L1".into(), "L2".into()], vec![comp], 2.0));
        ctx.ev("long components");
    }
    if r.chance(1, 60) {
        // one that is longer than that is refused, never cut short
        let k = *r.pick(&[65usize, 66, 127, 128, 129, 200, 255, 256, 257, 300, 320, 512]);
        let ys: String = (0..k).map(|_| if r.chance(1, 2) { '0' } else { '1' }).collect();
        let far = format!("LONG\tL1\tL2\t{}\t2\n", ys);
        ctx.ev("components that are too long");
        if let Some(x) = ctx.call("C18:too-long", || far.parse::<DiscoDopGrammar<String, (), LogDomain<f64>>>().is_ok(), || far.clone()) {
            ctx.check(!x, "C18:too-long", || far.clone());
        }
    }
    let mut text = lines.join("\n");
    if r.chance(1, 2) {
        text.push('\n');
    }
    // lexicon
    let mut lex_lines: Vec<String> = Vec::new();
    let mut lex: Vec<(String, String, f64)> = Vec::new();
    for i in 0..r.range(0, 4) {
        let word = format!("{}{}", r.pick(&["Haus", "über", "is", "$", "'s"]), i);
        let mut l = word.clone();
        let mut tags: Vec<&str> = pre.to_vec();
        r.shuffle(&mut tags);
        for t in &tags[..r.range(1, 3)] {
            let (wt, w) = count(r);
            l.push_str(&format!("\t{}\t{}", t, wt));
            lex.push((word.clone(), t.to_string(), w));
        }
        lex_lines.push(l);
    }
    let mut lex_text = lex_lines.join("\n");
    if !lex_lines.is_empty() && r.chance(1, 2) {
        lex_text.push('\n');
    }
    ctx.eval();
    ctx.nontrivial(&(&text, &lex_text));
    ctx.sample(|| format!("{} / {}", text, lex_text));
    let dd = || format!("{:?} with lexicon {:?}", text, lex_text);
    let gr = match ctx.call("C18:rules", || text.parse::<DiscoDopGrammar<String, (), f64>>(), dd) {
        None => return,
        Some(Err(e)) => {
            ctx.violation("C18:rejected", format!("{:?}: {}", e, dd()));
            return;
        }
        Some(Ok(g)) => g,
    };
    let mut total: BTreeMap<String, f64> = BTreeMap::new();
    let use_lexer = r.chance(2, 3);
    if use_lexer {
        let lx = match ctx.call("C18:lexer", || lex_text.parse::<DiscoLexer<String, String, f64>>(), dd) {
            None => return,
            Some(Err(e)) => {
                ctx.violation("C18:lexicon-rejected", format!("{:?}: {}", e, dd()));
                return;
            }
            Some(Ok(l)) => l,
        };
        ctx.ev("imports with a lexicon");
        for (w, t, c) in &lex {
            want.push((t.clone(), vec![], vec![vec![VarT::T(w.clone())]], *c));
        }
        for x in &want {
            *total.entry(x.0.clone()).or_insert(0.0) += x.3;
        }
        for x in &mut want {
            x.3 /= total[&x.0];
        }
        if let Some(l) = ctx.call("C18:convert", || Lcfrs::from(gr.with_lexer(lx)), dd) {
            let (rules, init) = l.destruct();
            ctx.check(init == "ROOT", "C18:initial", dd);
            compare(ctx, "C18:rules", rules, want, &dd);
        }
    } else {
        // without a lexicon the tags stand for the words
        ctx.ev("imports without a lexicon");
        let lhss: BTreeSet<String> = want.iter().map(|x| x.0.clone()).collect();
        let only: BTreeSet<String> = want.iter().flat_map(|x| x.1.clone()).filter(|t| !lhss.contains(t)).collect();
        for t in only {
            want.push((t.clone(), vec![], vec![vec![VarT::T(t)]], 1.0));
        }
        for x in &want {
            *total.entry(x.0.clone()).or_insert(0.0) += x.3;
        }
        for x in &mut want {
            x.3 /= total[&x.0];
        }
        if let Some(l) = ctx.call("C18:convert", || Lcfrs::from(gr.with_default_lexer()), dd) {
            let (rules, init) = l.destruct();
            ctx.check(init == "ROOT", "C18:initial", dd);
            compare(ctx, "C18:default-lexicon", rules, want, &dd);
        }
    }
    // ---- a line that is no rule makes the import fail instead of ending the file early
    let mut bad = lines.clone();
    let at = r.below(bad.len() + 1);
    let junk = *r.pick(&["S\tNP", "S\tNP\tVP\t01\t1\textra", "S\tNP\t02\t1", "S\tNP\tVP\t01\t0.5", "S\tNP\tVP\t01\tx", "S\tNP\t0x\t1", "S", "S\tNP\tVP\t01\t1/0", "S\tNP\t0\t7/00", "S\tNP\tVP\t01\t1/", "S\tNP\tVP\t01\t/2", "S\tNP\tVP\t01\t1/x", "S\tNP\tVP\t01\t-1", "S\tNP\tVP\t01\t1 1"]);
    bad.insert(at, junk.to_string());
    let bad = bad.join("\n");
    ctx.ev("files with a malformed line");
    if let Some(x) = ctx.call("C18:malformed", || bad.parse::<DiscoDopGrammar<String, (), f64>>(), || format!("{:?}", bad)) {
        ctx.check(x.is_err(), "C18:malformed-line", || format!("{:?} was accepted", bad));
    }
    if !lex_lines.is_empty() {
        let mut bad = lex_lines.clone();
        let at = r.below(bad.len() + 1);
        bad.insert(at, r.pick(&["word", "word\tNN", "word\tNN\tx", "word\tNN\t1\tVB", "word\tNN\t0.5", "word\tNN\t1/0", "word\tNN\t1\tVB\t12/0", "word\tNN\t1/", "word\tNN\t/2", "word\tNN\t-1", "word\tNN\t1\tVB\t"]).to_string());
        let bad = bad.join("\n");
        ctx.ev("lexicons with a malformed line");
        if let Some(x) = ctx.call("C18:malformed-lexicon", || bad.parse::<DiscoLexer<String, String, f64>>(), || format!("{:?}", bad)) {
            ctx.check(x.is_err(), "C18:malformed-lexicon", || format!("{:?} was accepted", bad));
        }
    }
}

// ------------------------------------------------------------------ C19

#[cfg(feature = "rparse")]
pub fn c19(ctx: &mut Ctx, r: &mut Rng) {
    let names = ["VROOT1", "S1", "$.1", "$(1", "PP2", "@^PP2^VP3-APPRART1X2", "ADV1", "Ä1", "[x1"];
    let mut lines = Vec::new();
    let mut want = Vec::new();
    let wide = if r.chance(1, 10) { 20 } else { 3 };
    for _ in 0..if r.chance(1, 50) { r.range(20, 100) } else { r.range(1, 7) } {
        let f = r.range(1, wide);
        let mut fans = vec![r.range(1, wide)];
        if r.chance(2, 3) {
            fans.push(r.range(1, wide));
        }
        let y = match yield_fn(r, f, &fans) {
            Some(y) => y,
            None => continue,
        };
        let lhs = r.pick(&names).to_string();
        let tail: Vec<String> = fans.iter().map(|_| r.pick(&names).to_string()).collect();
        let w = if r.chance(1, 3) { format!("{}.0{}E-{}", r.range(1, 9), r.range(1, 99), r.range(1, 6)) } else { format!("0.{}", r.range(1, 999)) };
        let ys: Vec<String> = y.iter().map(|c| format!("[{}]", c.iter().map(|i| if *i == 1 { "true" } else { "false" }).collect::<Vec<_>>().join(", "))).collect();
        let gap = if fans.len() == 1 { *r.pick(&[" ", "  "]) } else { " " };
        lines.push(format!("{} {}:{} --> {}{}[[{}]]", r.range(1, 20000), w, lhs, tail.join(" "), gap, ys.join(", ")));
        let comps: Vec<Vec<VarT<()>>> = composition_of(&y).into_iter().map(|c| c.into_iter().map(|s| if let Sym::V(i, j) = s { VarT::Var(i, j) } else { unreachable!() }).collect()).collect();
        want.push((lhs, tail, comps, w.parse::<f64>().unwrap()));
    }
    if lines.is_empty() {
        return;
    }
    let mut text = lines.join("\n");
    if r.chance(1, 2) {
        text.push('\n');
    }
    ctx.eval();
    ctx.nontrivial(&text);
    ctx.sample(|| text.clone());
    match ctx.call("C19", || lcfrs_from_rparse::<String, f64>(&text), || format!("{:?}", text)) {
        None => {}
        Some(Err(())) => ctx.violation("C19:rejected", format!("{:?}", text)),
        Some(Ok(l)) => {
            let (rules, init) = l.destruct();
            ctx.ev_n("clauses read", rules.len() as u64);
            let got: Vec<_> = rules.into_iter().map(|r| (r.head, r.tail, r.composition.composition, r.weight)).collect();
            ctx.check(init == "VROOT1" && got == want, "C19:rules", || format!("read {:?}, expected {:?}, from {:?}", got, want, text));
        }
    }
    // ---- a line that is no clause makes the import fail instead of ending the grammar early
    let at = r.below(lines.len() + 1);
    let junk = *r.pick(&[
        "17 0.5:S1 --> NP1 VP1 [[[false, true]",
        "17 0.5:S1 -> NP1 VP1 [[[false, true]]]",
        "17 x:S1 --> NP1 VP1 [[[false, true]]]",
        "17 :S1 --> NP1 VP1 [[[false, true]]]",
        "0.5:S1 --> NP1 VP1 [[[false, true]]]",
        "17 0.5:S1 --> NP1 VP1 [[[false, maybe]]]",
        "17 0.5:S1 --> NP1 VP1 XP1 [[[false, true]]]",
        "17 0.5:S1 --> NP1 VP1",
        "17 0.5",
        "nonsense",
        "",
    ]);
    // blank lines are none at the ends of the text
    if junk.is_empty() && (at == 0 || at == lines.len()) {
        return;
    }
    lines.insert(at, junk.to_string());
    let bad = lines.join("\n");
    ctx.eval();
    ctx.ev("files with a malformed clause");
    if let Some(x) = ctx.call("C19:malformed", || lcfrs_from_rparse::<String, f64>(&bad).map(|l| l.destruct().0.len()), || format!("{:?}", bad)) {
        // where the separation of clauses by blank lines is allowed, none is lost
        let fine = x.is_err() || (junk.is_empty() && x == Ok(want.len()));
        ctx.check(fine, "C19:malformed-clause", || format!("{:?} was accepted with {:?} clauses", bad, x));
    }
}

#[allow(dead_code)]
fn unused() {
    let _ = subst(&[], &[]);
}
