//! C28 Chomsky-Schützenberger parsing is exact, C29 it stays sound under beams, thresholds,
//! candidate limits, estimates and when its representation is stored and loaded.
use crate::auto::{weight, words_of, LN2, W};
use kit::gram::{generate, random_deriv, Deriv, Gram, Rule, Shape, Sym, Tm};
use kit::{guarded, Ctx, Rng};
use rustomata::grammars::lcfrs::csparsing::{CSRepresentation, DebugResult};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT};
use rustomata::util::tree::GornTree;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub type R = PMCFGRule<String, String, W>;
pub type Rep = CSRepresentation<String, String, W>;

pub fn tok(t: Tm) -> String {
    format!("t{}", t)
}
pub fn toks(w: &[Tm]) -> Vec<String> {
    w.iter().map(|t| tok(*t)).collect()
}
pub fn nt(n: usize) -> String {
    format!("N{}", n)
}

pub fn comp_of(r: &Rule) -> Vec<Vec<VarT<String>>> {
    r.comps
        .iter()
        .map(|c| {
            c.iter()
                .map(|s| match *s {
                    Sym::T(t) => VarT::T(tok(t)),
                    Sym::V(i, j) => VarT::Var(i, j),
                })
                .collect()
        })
        .collect()
}

pub fn rule_of(r: &Rule) -> R {
    PMCFGRule {
        head: nt(r.lhs),
        tail: r.tail.iter().map(|n| nt(*n)).collect(),
        composition: Composition { composition: comp_of(r) },
        weight: weight(r.exp),
    }
}

pub fn lcfrs_of(g: &Gram) -> Option<Lcfrs<String, String, W>> {
    Lcfrs::new(g.rules.iter().map(rule_of).collect(), nt(g.init))
}

/// identifies the rules of a grammar by their content (the weight included)
struct Index {
    by: HashMap<(String, Vec<String>, Vec<Vec<VarT<String>>>, i64), usize>,
}
fn wkey(w: &W) -> i64 {
    (w.ln() / LN2 * -16.0).round() as i64
}
impl Index {
    fn new(g: &Gram) -> Self {
        let mut by = HashMap::new();
        for (i, r) in g.rules.iter().enumerate() {
            let x = rule_of(r);
            by.entry((x.head, x.tail, x.composition.composition, wkey(&x.weight))).or_insert(i);
        }
        Index { by }
    }
    fn get(&self, x: &R) -> Option<usize> {
        self.by
            .get(&(x.head.clone(), x.tail.clone(), x.composition.composition.clone(), wkey(&x.weight)))
            .cloned()
    }
}

/// Reads a tree of rules as a derivation of the model.
fn read(g: &Gram, ix: &Index, t: &GornTree<&R>) -> Result<Rc<Deriv>, String> {
    let mut rules: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
    for (pos, r) in t {
        match ix.get(r) {
            Some(i) => {
                rules.insert(pos.clone(), i);
            }
            None => return Err(format!("{:?} is no rule", r)),
        }
    }
    fn go(g: &Gram, rules: &BTreeMap<Vec<usize>, usize>, pos: &mut Vec<usize>, used: &mut usize) -> Result<Rc<Deriv>, String> {
        let ri = *rules.get(pos).ok_or_else(|| format!("no rule at {:?}", pos))?;
        *used += 1;
        let mut children = vec![];
        for (i, b) in g.rules[ri].tail.iter().enumerate() {
            pos.push(i);
            let c = go(g, rules, pos, used)?;
            pos.pop();
            if g.rules[c.rule].lhs != *b {
                return Err(format!("rule {} at successor {} of {:?}, where N{} is needed", c.rule, i, pos, b));
            }
            children.push(c);
        }
        Ok(Rc::new(Deriv { rule: ri, children }))
    }
    let mut used = 0;
    let d = go(g, &rules, &mut vec![], &mut used)?;
    if used != rules.len() {
        return Err(format!("{} rules, of which {} are reachable", rules.len(), used));
    }
    if g.rules[d.rule].lhs != g.init {
        return Err("the root is not initial".into());
    }
    Ok(d)
}

fn shown(g: &Gram, d: &Deriv) -> String {
    fn go(d: &Deriv, out: &mut String) {
        out.push_str(&d.rule.to_string());
        if !d.children.is_empty() {
            out.push('(');
            for (i, c) in d.children.iter().enumerate() {
                if i > 0 {
                    out.push(' ');
                }
                go(c, out);
            }
            out.push(')');
        }
    }
    let mut s = String::new();
    go(d, &mut s);
    format!("{} [2^-{}]", s, d.exp(g))
}

/// a rule whose equal twin (weight included) is counted once: derivations are compared by the
/// index of the first equal rule
fn canon(g: &Gram, ix: &Index, d: &Deriv) -> Rc<Deriv> {
    Rc::new(Deriv {
        rule: ix.get(&rule_of(&g.rules[d.rule])).unwrap(),
        children: d.children.iter().map(|c| canon(g, ix, c)).collect(),
    })
}

/// Validates each result: it is a derivation of the word, none comes twice more than `want`
/// allows, and the weights do not rise.
fn judge_list(ctx: &mut Ctx, sig: &str, g: &Gram, ix: &Index, word: &[Tm], got: &[GornTree<&R>], descr: &dyn Fn() -> String) -> Option<Vec<Rc<Deriv>>> {
    let mut out: Vec<Rc<Deriv>> = vec![];
    for (i, t) in got.iter().enumerate() {
        match read(g, ix, t) {
            Ok(d) => {
                let y = d.eval(g);
                if y != vec![word.to_vec()] {
                    ctx.violation(&format!("{}:yield", sig), format!("result {} = {} derives {:?}; {}", i, shown(g, &d), y, descr()));
                    return None;
                }
                if let Some(p) = out.last() {
                    if p.exp(g) > d.exp(g) {
                        ctx.violation(&format!("{}:order", sig), format!("result {} = {} after {}; {}", i, shown(g, &d), shown(g, p), descr()));
                        return None;
                    }
                }
                out.push(d);
            }
            Err(e) => {
                ctx.violation(&format!("{}:tree", sig), format!("result {}: {}; {}", i, e, descr()));
                return None;
            }
        }
    }
    Some(out)
}

fn multiset(v: &[Rc<Deriv>]) -> BTreeMap<Rc<Deriv>, usize> {
    let mut m = BTreeMap::new();
    for d in v {
        *m.entry(d.clone()).or_insert(0) += 1;
    }
    m
}

fn judge_sub(ctx: &mut Ctx, sig: &str, g: &Gram, got: &[Rc<Deriv>], want: &[Rc<Deriv>], descr: &dyn Fn() -> String) -> bool {
    let w = multiset(want);
    for (d, n) in multiset(got) {
        let m = w.get(&d).cloned().unwrap_or(0);
        if n > m {
            ctx.violation(sig, format!("{} is given {} times, {} expected; {}", shown(g, &d), n, m, descr()));
            return false;
        }
    }
    true
}

fn judge_same(ctx: &mut Ctx, sig: &str, g: &Gram, got: &[Rc<Deriv>], want: &[Rc<Deriv>], descr: &dyn Fn() -> String) -> bool {
    if !judge_sub(ctx, sig, g, got, want, descr) {
        return false;
    }
    let have = multiset(got);
    for (d, n) in multiset(want) {
        if have.get(&d).cloned().unwrap_or(0) != n {
            ctx.violation(sig, format!("{} is missing, {} of {} results; {}", shown(g, &d), got.len(), want.len(), descr()));
            return false;
        }
    }
    true
}

// ------------------------------------------------------------------ the context-free approximation

/// Number of derivations of the context-free approximation (each component on its own), and the
/// greatest weight of one.  `None` if there may be infinitely many.
pub struct Approx<'a> {
    g: &'a Gram,
    word: &'a [Tm],
    memo: HashMap<(usize, usize, usize, usize), (f64, f64)>,
    busy: HashSet<(usize, usize, usize, usize)>,
    pub cyclic: bool,
}
impl<'a> Approx<'a> {
    pub fn new(g: &'a Gram, word: &'a [Tm]) -> Self {
        Approx { g, word, memo: HashMap::new(), busy: HashSet::new(), cyclic: false }
    }
    /// (number, least exponent)
    pub fn of(&mut self, a: usize, c: usize, i: usize, j: usize) -> (f64, f64) {
        if i >= j {
            return (0.0, f64::INFINITY);
        }
        let key = (a, c, i, j);
        if let Some(x) = self.memo.get(&key) {
            return *x;
        }
        if !self.busy.insert(key) {
            self.cyclic = true;
            return (0.0, f64::INFINITY);
        }
        let g = self.g;
        let mut n = 0.0;
        let mut best = f64::INFINITY;
        for r in g.rules.iter().filter(|r| r.lhs == a && c < r.comps.len()) {
            let w = r.exp as f64 / r.comps.len() as f64;
            let (m, b) = self.seq(r, &r.comps[c], i, j);
            n += m;
            best = best.min(w + b);
        }
        self.busy.remove(&key);
        self.memo.insert(key, (n, best));
        (n, best)
    }
    fn seq(&mut self, r: &Rule, syms: &[Sym], i: usize, j: usize) -> (f64, f64) {
        match syms {
            [] => {
                if i == j {
                    (1.0, 0.0)
                } else {
                    (0.0, f64::INFINITY)
                }
            }
            [Sym::T(t), rest @ ..] => {
                if i < j && self.word[i] == *t {
                    self.seq(r, rest, i + 1, j)
                } else {
                    (0.0, f64::INFINITY)
                }
            }
            [Sym::V(x, y), rest @ ..] => {
                let mut n = 0.0;
                let mut best = f64::INFINITY;
                let lo = if rest.is_empty() { j } else { i + 1 };
                for m in lo..=j {
                    if j - m < rest.len() {
                        break;
                    }
                    let (a, wa) = self.of(r.tail[*x], *y, i, m);
                    if a == 0.0 {
                        continue;
                    }
                    let (b, wb) = self.seq(r, rest, m, j);
                    n += a * b;
                    best = best.min(wa + wb);
                }
                (n, best)
            }
        }
    }
}

/// Has the context-free approximation a derivation of the word?  A fixed point, so that cycles do
/// not matter.
pub fn approximated(g: &Gram, word: &[Tm]) -> bool {
    fn fits(r: &Rule, syms: &[Sym], i: usize, j: usize, word: &[Tm], have: &HashSet<(usize, usize, usize, usize)>) -> bool {
        match syms {
            [] => i == j,
            [Sym::T(t), rest @ ..] => i < j && word[i] == *t && fits(r, rest, i + 1, j, word, have),
            [Sym::V(x, y), rest @ ..] => {
                (i..=j).any(|m| have.contains(&(r.tail[*x], *y, i, m)) && fits(r, rest, m, j, word, have))
            }
        }
    }
    let mut have: HashSet<(usize, usize, usize, usize)> = HashSet::new();
    loop {
        let mut new = Vec::new();
        for r in &g.rules {
            for (c, syms) in r.comps.iter().enumerate() {
                for i in 0..=word.len() {
                    for j in i..=word.len() {
                        if !have.contains(&(r.lhs, c, i, j)) && fits(r, syms, i, j, word, &have) {
                            new.push((r.lhs, c, i, j));
                        }
                    }
                }
            }
        }
        if new.is_empty() {
            return have.contains(&(g.init, 0, 0, word.len()));
        }
        have.extend(new);
    }
}

// ------------------------------------------------------------------ generators

fn shape(r: &mut Rng) -> Shape {
    if r.chance(1, 8) {
        // long rules: many components and successors
        return Shape {
            nts: r.range(1, 3),
            max_fanout: r.range(2, 5),
            terminals: r.range(1, 3),
            max_rules_per_nt: r.range(2, 3),
            max_tail: r.range(2, 5),
            max_terminals: r.range(1, 5),
            max_exp: r.range(0, 5) as u32,
            normal_form: true,
            ..Shape::default()
        };
    }
    if r.chance(1, 3) {
        // few terminals and several rules of fanout 2: many candidates that are no derivation
        return Shape {
            nts: r.range(2, 4),
            max_fanout: r.range(2, 3),
            terminals: r.range(1, 2),
            max_rules_per_nt: r.range(3, 5),
            max_tail: r.range(1, 2),
            max_terminals: r.range(1, 3),
            max_exp: r.range(1, 6) as u32,
            normal_form: true,
            ..Shape::default()
        };
    }
    let mut sh = Shape {
        nts: r.range(1, 5),
        max_fanout: *r.pick(&[1, 2, 2, 2, 3]),
        terminals: r.range(1, 3),
        max_rules_per_nt: r.range(1, 4),
        max_tail: r.range(1, 3),
        max_terminals: r.range(1, 3),
        max_exp: r.range(0, 5) as u32,
        normal_form: true,
        ordered: r.chance(1, 4),
        ..Shape::default()
    };
    sh.distinct_rules = r.chance(4, 5);
    sh
}

fn long_rules(g: &Gram) -> bool {
    g.rules.iter().any(|x| x.tail.len() > 3 || x.comps.len() > 3 || x.comps.iter().any(|c| c.len() > 4))
}

fn uses_long(g: &Gram, d: &Deriv) -> bool {
    let x = &g.rules[d.rule];
    x.tail.len() > 3 || x.comps.len() > 3 || x.comps.iter().any(|c| c.len() > 4) || d.children.iter().any(|c| uses_long(g, c))
}

fn permute_rules(r: &mut Rng, g: &mut Gram) {
    if r.chance(1, 2) {
        r.shuffle(&mut g.rules);
    }
}

/// all derivations of at most the given exponent, where every rule has a positive one
fn derivs_by_exp(g: &Gram, max: u32, cap: usize) -> Option<Vec<Rc<Deriv>>> {
    fn cell(g: &Gram, a: usize, e: u32, memo: &mut HashMap<(usize, u32), Rc<Vec<Rc<Deriv>>>>, cap: usize, total: &mut usize) -> Option<Rc<Vec<Rc<Deriv>>>> {
        if let Some(v) = memo.get(&(a, e)) {
            return Some(v.clone());
        }
        let mut out = vec![];
        for (ri, r) in g.rules.iter().enumerate().filter(|(_, r)| r.lhs == a && r.exp <= e) {
            let mut acc: Vec<(Vec<Rc<Deriv>>, u32)> = vec![(vec![], e - r.exp)];
            for (k, b) in r.tail.iter().enumerate() {
                let mut next = vec![];
                for (ds, left) in acc {
                    for x in 1..=left {
                        if k + 1 == r.tail.len() && x != left {
                            continue;
                        }
                        for d in cell(g, *b, x, memo, cap, total)?.iter() {
                            let mut ds = ds.clone();
                            ds.push(d.clone());
                            next.push((ds, left - x));
                            if next.len() > cap {
                                return None;
                            }
                        }
                    }
                }
                acc = next;
            }
            for (children, left) in acc {
                if left == 0 {
                    out.push(Rc::new(Deriv { rule: ri, children }));
                }
            }
        }
        *total += out.len();
        if *total > cap {
            return None;
        }
        let rc = Rc::new(out);
        memo.insert((a, e), rc.clone());
        Some(rc)
    }
    let mut memo = HashMap::new();
    let mut total = 0;
    let mut out = vec![];
    for e in 1..=max {
        out.extend(cell(g, g.init, e, &mut memo, cap, &mut total)?.iter().cloned());
    }
    Some(out)
}

fn rep(ctx: &mut Ctx, g: &Gram, width: usize) -> Option<Rep> {
    if std::env::var("VERIF_SHOW").is_ok() {
        eprintln!("width {}, {:?}", width, g);
    }
    let l = match guarded(|| lcfrs_of(g)) {
        Ok(Some(l)) => l,
        Ok(None) => {
            ctx.ev("the grammar is no LCFRS");
            return None;
        }
        Err(e) => {
            ctx.violation("panic:lcfrs", format!("{}; {:?}", e, g));
            return None;
        }
    };
    ctx.call("representation", || CSRepresentation::new(l, width), || format!("width {}, {:?}", width, g))
}

// ------------------------------------------------------------------ C28

pub fn c28(ctx: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 400) {
        return c28_deep(ctx, r);
    }
    match r.below(8) {
        0 => c28_cyclic(ctx, r),
        1 => c28_long(ctx, r),
        _ => c28_exact(ctx, r),
    }
}

/// Chain rules without a cycle between nonterminals of the same fanout, and weights that are all
/// the same: a chain rule, and what it leads to, have the same weight.
fn with_ties(r: &mut Rng, g: &mut Gram) {
    for rule in g.rules.iter_mut() {
        rule.exp = 0;
    }
    let mut order: Vec<usize> = (0..g.fanout.len()).collect();
    r.shuffle(&mut order);
    for i in 0..order.len() {
        for j in i + 1..order.len() {
            let (a, b) = (order[i], order[j]);
            // nothing that leads back to `a` already
            let mut from = vec![b];
            let mut n = 0;
            while n < from.len() {
                let x = from[n];
                for y in g.rules.iter().filter(|y| y.lhs == x && y.tail.len() == 1) {
                    if !from.contains(&y.tail[0]) {
                        from.push(y.tail[0]);
                    }
                }
                n += 1;
            }
            if g.fanout[a] == g.fanout[b] && !from.contains(&a) && r.chance(2, 3) {
                let rule = Rule { lhs: a, tail: vec![b], comps: (0..g.fanout[a]).map(|j| vec![Sym::V(0, j)]).collect(), exp: 0 };
                if !g.rules.iter().any(|x| x.lhs == rule.lhs && x.tail == rule.tail && x.comps == rule.comps) {
                    g.rules.push(rule);
                }
            }
        }
    }
}

/// Some hundred rules that no word needs, between those there are.
fn with_others(r: &mut Rng, g: &mut Gram) {
    for _ in 0..r.range(100, 250) {
        let a = g.fanout.len();
        g.fanout.push(1);
        let at = r.below(g.rules.len() + 1);
        g.rules.insert(at, Rule { lhs: a, tail: vec![], comps: vec![vec![Sym::T(50 + r.below(4) as Tm)]], exp: r.below(3) as u32 });
        if r.chance(2, 3) {
            let b = r.range(a.saturating_sub(5), a);
            if g.fanout[b] == 1 && b != g.init {
                let at = r.below(g.rules.len() + 1);
                g.rules.insert(at, Rule { lhs: a, tail: vec![b, a], comps: vec![vec![Sym::V(1, 0), Sym::V(0, 0)]], exp: 1 });
            }
        }
    }
}

/// Thousands of derivations of one word, of which the weights are known without a search:
/// two constituents that each have one derivation for every number.
fn c28_deep(ctx: &mut Ctx, r: &mut Rng) {
    let (p, q) = (r.range(1, 4) as u32, *r.pick(&[7u32, 50, 150, 300, 600]));
    let mut rules = vec![
        Rule { lhs: 0, tail: vec![1, 2], comps: vec![if r.chance(1, 2) { vec![Sym::V(0, 0), Sym::V(1, 0)] } else { vec![Sym::V(1, 0), Sym::V(0, 0)] }], exp: 0 },
        Rule { lhs: 1, tail: vec![], comps: vec![vec![Sym::T(0)]], exp: 0 },
        Rule { lhs: 1, tail: vec![1], comps: vec![vec![Sym::V(0, 0)]], exp: p },
        Rule { lhs: 2, tail: vec![], comps: vec![vec![Sym::T(0)]], exp: 0 },
        Rule { lhs: 2, tail: vec![2], comps: vec![vec![Sym::V(0, 0)]], exp: q },
    ];
    r.shuffle(&mut rules);
    let g = Gram { fanout: vec![1, 1, 1], init: 0, rules };
    let k = r.range(500, 2500);
    // the exponents i p + j q, the least k of them
    let mut want: Vec<u32> = vec![];
    let mut top = 0;
    while want.len() < k {
        let n = (0..=top / q).filter(|j| (top - j * q) % p == 0).count();
        want.extend(std::iter::repeat(top).take(n));
        top += 1;
    }
    want.truncate(k);
    let rep = match rep(ctx, &g, r.below(3)) {
        Some(p) => p,
        None => return,
    };
    let word = toks(&[0, 0]);
    let descr = || format!("{} derivations, {:?}", k, g);
    let rep = &rep;
    // a derivation is told by its numbers of chain rules
    let numbers = |t: GornTree<&R>| {
        let (mut i, mut j) = (0u32, 0u32);
        for (_, rule) in &t {
            if rule.tail.len() == 1 {
                if rule.head == nt(1) {
                    i += 1;
                } else {
                    j += 1;
                }
            }
        }
        (t.len(), i, j)
    };
    if let Some(got) = ctx.call("parse-deep", || rep.build_generator().with_fallback(&word).0.take(k).map(numbers).collect::<Vec<_>>(), descr) {
        ctx.eval();
        let mut seen = std::collections::BTreeSet::new();
        let mut exps = vec![];
        for (nodes, i, j) in got {
            ctx.check(nodes == (i + j) as usize + 3, "C28:deep:tree", || format!("{} nodes with {} and {} chain rules; {}", nodes, i, j, descr()));
            ctx.check(seen.insert((i, j)), "C28:deep:twice", || format!("result {} with {} and {} chain rules was there before; {}", exps.len(), i, j, descr()));
            exps.push(i * p + j * q);
        }
        let at = exps.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(exps.len().min(want.len()));
        ctx.check(exps == want, "C28:deep:derivations", || {
            format!("{} of {} results; number {} has the weight 2^-{:?}, it should be 2^-{:?}; {}", exps.len(), k, at, exps.get(at), want.get(at), descr())
        });
        ctx.ev("words with 500 to 2500 derivations");
        ctx.nontrivial(&(&g, k));
    }
}

const MANY: f64 = 1500.0;

fn c28_exact(ctx: &mut Ctx, r: &mut Rng) {
    let sh = shape(r);
    let mut g = generate(r, &sh);
    match r.below(16) {
        0 | 1 => with_ties(r, &mut g),
        2 => with_others(r, &mut g),
        _ => (),
    }
    permute_rules(r, &mut g);
    let p = match rep(ctx, &g, 0) {
        Some(p) => p,
        None => return,
    };
    if g.rules.len() > 100 {
        ctx.ev("grammars with hundreds of rules that no word needs");
    }
    let ix = Index::new(&g);
    let max = if long_rules(&g) { r.range(6, 11) } else { r.range(3, 6) };
    let (n_in, n_out) = (r.range(2, 4), r.range(1, 2));
    for (w, ds) in words_of(r, &g, max, n_in, n_out) {
        let want: Vec<Rc<Deriv>> = ds.iter().map(|d| canon(&g, &ix, d)).collect();
        let mut a = Approx::new(&g, &w);
        let (n, _) = a.of(g.init, 0, 0, w.len());
        let finite = !a.cyclic && n <= MANY;
        let descr = || format!("word {:?}, {:?}", w, g);
        let word = toks(&w);
        let p = &p;
        let got = ctx.call(
            "parse",
            || {
                let mut b = p.build_generator();
                if !finite {
                    b.set_candidates(300);
                }
                let (it, fb) = b.with_fallback(&word);
                (it.collect::<Vec<_>>(), fb)
            },
            descr,
        );
        let (got, fb) = match got {
            Some(x) => x,
            None => continue,
        };
        ctx.eval();
        let list = match judge_list(ctx, "C28", &g, &ix, &w, &got, &descr) {
            Some(l) => l,
            None => continue,
        };
        if finite {
            judge_same(ctx, "C28:derivations", &g, &list, &want, &descr);
            ctx.ev(if want.is_empty() { "words without a derivation" } else { "words with all derivations" });
            ctx.check(fb.is_none() || n > 0.0 || approximated(&g, &w), "C28:fallback", || format!("a fallback, and the context-free approximation has no derivation; {}", descr()));
        } else {
            ctx.ev("words with derivations up to a number of candidates");
            if judge_sub(ctx, "C28:derivations", &g, &list, &want, &descr) {
                // what is missing is not heavier than what is there
                if let Some(last) = list.last() {
                    let have = multiset(&list);
                    for (d, k) in multiset(&want) {
                        if have.get(&d).cloned().unwrap_or(0) < k && d.exp(&g) < last.exp(&g) {
                            ctx.violation("C28:best", format!("{} is missing, {} is there; {}", shown(&g, &d), shown(&g, last), descr()));
                        }
                    }
                }
            }
        }
        ctx.ev_n("derivations compared", list.len() as u64);
        if g.fanout.iter().any(|f| *f > 1) {
            ctx.ev("words of a grammar with fanout 2 or more");
        }
        if n > want.len() as f64 && finite {
            ctx.ev_n("candidates that are no derivation", (n - want.len() as f64) as u64);
        }
        if want.len() > 1 {
            ctx.nontrivial(&(&g, &w));
            ctx.ev("ambiguous words");
        }
        if want.iter().any(|d| uses_long(&g, d)) {
            ctx.ev("words derived with long rules");
        }
        ctx.sample(|| format!("{} derivations, {}", list.len(), descr()));
    }
}

/// unary cycles: infinitely many derivations, of which all down to a weight are compared
fn c28_cyclic(ctx: &mut Ctx, r: &mut Rng) {
    let mut sh = shape(r);
    sh.max_exp = 2;
    sh.nts = sh.nts.min(3);
    sh.max_rules_per_nt = sh.max_rules_per_nt.min(3);
    let mut g = generate(r, &sh);
    for rule in g.rules.iter_mut() {
        rule.exp = rule.exp.max(1);
    }
    // chain rules between nonterminals of the same fanout, identities or permutations of it
    for _ in 0..r.range(1, 3) {
        let a = r.below(g.fanout.len());
        let same: Vec<usize> = (0..g.fanout.len()).filter(|b| g.fanout[*b] == g.fanout[a]).collect();
        let b = *r.pick(&same);
        let mut js: Vec<usize> = (0..g.fanout[a]).collect();
        if r.chance(1, 3) {
            r.shuffle(&mut js);
        }
        let exp = r.range(1, 2) as u32;
        let rule = Rule { lhs: a, tail: vec![b], comps: js.iter().map(|j| vec![Sym::V(0, *j)]).collect(), exp };
        if !g.rules.iter().any(|x| x.lhs == rule.lhs && x.tail == rule.tail && x.comps == rule.comps) {
            g.rules.push(rule);
        }
    }
    permute_rules(r, &mut g);
    let p = match rep(ctx, &g, 0) {
        Some(p) => p,
        None => return,
    };
    let ix = Index::new(&g);
    let (mut all, mut max) = (None, 0);
    for e in [14, 11, 8] {
        all = derivs_by_exp(&g, e, 4000);
        max = e;
        if all.is_some() {
            break;
        }
    }
    let all = match all {
        Some(a) => a,
        None => {
            ctx.ev("too many derivations");
            return;
        }
    };
    let mut by: BTreeMap<Vec<Tm>, Vec<Rc<Deriv>>> = BTreeMap::new();
    for d in all {
        by.entry(d.eval(&g)[0].clone()).or_default().push(canon(&g, &ix, &d));
    }
    let words: Vec<Vec<Tm>> = by.keys().filter(|w| w.len() <= 7).cloned().collect();
    if words.is_empty() {
        return;
    }
    let plain = g.fanout.iter().all(|f| *f == 1);
    for _ in 0..3 {
        let w = r.pick(&words).clone();
        let want = &by[&w];
        let descr = || format!("word {:?}, {:?}", w, g);
        let word = toks(&w);
        let p = &p;
        let k = want.len() + 1;
        let got = ctx.call(
            "parse-cyclic",
            || {
                let mut b = p.build_generator();
                b.set_candidates(if plain { k } else { 400 });
                b.with_fallback(&word).0.take(k).collect::<Vec<_>>()
            },
            descr,
        );
        let got = match got {
            Some(x) => x,
            None => continue,
        };
        ctx.eval();
        let list = match judge_list(ctx, "C28:cyclic", &g, &ix, &w, &got, &descr) {
            Some(l) => l,
            None => continue,
        };
        let heavy: Vec<Rc<Deriv>> = list.iter().filter(|d| d.exp(&g) <= max).cloned().collect();
        if plain {
            judge_same(ctx, "C28:cyclic:derivations", &g, &heavy, want, &descr);
        } else {
            judge_sub(ctx, "C28:cyclic:derivations", &g, &heavy, want, &descr);
            if let Some(last) = heavy.last() {
                let have = multiset(&heavy);
                for (d, n) in multiset(want) {
                    if have.get(&d).cloned().unwrap_or(0) < n && d.exp(&g) < last.exp(&g) {
                        ctx.violation("C28:cyclic:best", format!("{} is missing, {} is there; {}", shown(&g, &d), shown(&g, last), descr()));
                    }
                }
            }
        }
        let mut a = Approx::new(&g, &w);
        a.of(g.init, 0, 0, w.len());
        if a.cyclic {
            ctx.ev("words with a cycle of chain rules in their chart");
            ctx.nontrivial(&(&g, &w));
        }
        ctx.ev_n("derivations compared", list.len() as u64);
    }
}

/// longer words of context-free grammars: the first result is the best one
fn c28_long(ctx: &mut Ctx, r: &mut Rng) {
    let mut sh = shape(r);
    sh.max_fanout = if r.chance(3, 4) { 1 } else { 2 };
    let g = generate(r, &sh);
    let p = match rep(ctx, &g, 0) {
        Some(p) => p,
        None => return,
    };
    let ix = Index::new(&g);
    let budget = r.range(10, 60);
    let d = match random_deriv(r, &g, g.init, budget) {
        Some(d) => d,
        None => return,
    };
    let w = d.eval(&g)[0].clone();
    if w.len() > 60 {
        return;
    }
    let plain = g.fanout.iter().all(|f| *f == 1);
    let mut a = Approx::new(&g, &w);
    let (_, best) = a.of(g.init, 0, 0, w.len());
    if a.cyclic {
        // the least exponent is not computed right
        ctx.ev("long words left out");
        return;
    }
    let descr = || format!("word {:?}, {:?}", w, g);
    let word = toks(&w);
    let p = &p;
    let got = ctx.call(
        "parse-long",
        || {
            let mut b = p.build_generator();
            b.set_candidates(300);
            b.with_fallback(&word).0.take(40).collect::<Vec<_>>()
        },
        descr,
    );
    let got = match got {
        Some(x) => x,
        None => return,
    };
    ctx.eval();
    let list = match judge_list(ctx, "C28:long", &g, &ix, &w, &got, &descr) {
        Some(l) => l,
        None => return,
    };
    ctx.check(!got.is_empty() || !plain, "C28:long:none", || format!("no result; {} derives the word; {}", shown(&g, &d), descr()));
    if plain {
        if let Some(f) = list.first() {
            ctx.check((f.exp(&g) as f64 - best).abs() < 1e-6, "C28:long:best", || {
                format!("the first result is {}, the best derivation has 2^-{}; {}", shown(&g, f), best, descr())
            });
        }
    }
    let n = multiset(&list).len();
    ctx.check(n == list.len() || !sh.distinct_rules, "C28:long:twice", || format!("{} results, {} different; {}", list.len(), n, descr()));
    ctx.ev("long words");
    ctx.ev_n("tokens of long words", w.len() as u64);
    if w.len() >= 10 && list.len() > 1 {
        ctx.nontrivial(&(&g, &w));
    }
}

// ------------------------------------------------------------------ C29

/// what a tree of rules says about itself: root fanout 1, successors of the right nonterminal,
/// and the word it composes
fn compose(t: &GornTree<R>, pos: &[usize]) -> Result<(String, Vec<Vec<String>>), String> {
    let r = t.get(&pos.to_vec()).ok_or_else(|| format!("no rule at {:?}", pos))?;
    let mut args = vec![];
    for (i, b) in r.tail.iter().enumerate() {
        let mut p = pos.to_vec();
        p.push(i);
        let (head, a) = compose(t, &p)?;
        if head != *b {
            return Err(format!("{} at {:?}, where {} is needed", head, p, b));
        }
        args.push(a);
    }
    let mut used: HashSet<(usize, usize)> = HashSet::new();
    let mut out = vec![];
    for c in &r.composition.composition {
        let mut w = vec![];
        for s in c {
            match s {
                VarT::T(t) => w.push(t.clone()),
                VarT::Var(i, j) => {
                    if !used.insert((*i, *j)) {
                        return Err(format!("variable {} {} twice at {:?}", i, j, pos));
                    }
                    let a = args.get(*i).and_then(|a| a.get(*j)).ok_or_else(|| format!("variable {} {} has no value at {:?}", i, j, pos))?;
                    w.extend(a.iter().cloned());
                }
            }
        }
        out.push(w);
    }
    Ok((r.head.clone(), out))
}

fn judge_fallback(ctx: &mut Ctx, sig: &str, g: &Gram, word: &[String], t: &GornTree<R>, descr: &dyn Fn() -> String) {
    match compose(t, &[]) {
        Err(e) => ctx.violation(sig, format!("{}; fallback {:?}; {}", e, t, descr())),
        Ok((head, y)) => {
            ctx.check(head == nt(g.init) && y == vec![word.to_vec()], sig, || format!("the fallback {:?} of {} derives {:?}; {}", t, head, y, descr()));
        }
    }
    let known: HashSet<String> = (0..g.fanout.len()).map(nt).collect();
    for (_, r) in t {
        ctx.check(known.contains(&r.head), sig, || format!("unknown nonterminal {}; {}", r.head, descr()));
    }
}

pub fn c29(ctx: &mut Ctx, r: &mut Rng) {
    match r.below(8) {
        0 => return c29_reuse(ctx, r),
        1 => return c29_long(ctx, r),
        _ => (),
    }
    let sh = shape(r);
    let mut g = generate(r, &sh);
    match r.below(16) {
        0 => with_ties(r, &mut g),
        1 => with_others(r, &mut g),
        _ => (),
    }
    permute_rules(r, &mut g);
    let even = g.rules.iter().all(|x| x.exp == 0);
    let width = if r.chance(1, 3) { 0 } else { r.range(1, 8) };
    let p = match rep(ctx, &g, width) {
        Some(p) => p,
        None => return,
    };
    // stored and loaded
    let stored = ctx.call("store", || bincode::serialize(&p, bincode::Infinite).map_err(|e| e.to_string()), || format!("{:?}", g));
    let loaded: Option<Rep> = match stored {
        Some(Ok(bytes)) => {
            ctx.ev_n("bytes stored", bytes.len() as u64);
            match ctx.call("load", || bincode::deserialize::<Rep>(&bytes).map_err(|e| e.to_string()), || format!("{:?}", g)) {
                Some(Ok(l)) => Some(l),
                Some(Err(e)) => {
                    ctx.violation("C29:load", format!("{}; {:?}", e, g));
                    None
                }
                None => None,
            }
        }
        Some(Err(e)) => {
            ctx.violation("C29:store", format!("{}; {:?}", e, g));
            None
        }
        None => None,
    };
    let loaded = match loaded {
        Some(l) => l,
        None => return,
    };
    let ix = Index::new(&g);
    let max = if long_rules(&g) { r.range(6, 11) } else { r.range(3, 6) };
    let (n_in, n_out) = (r.range(1, 3), r.range(1, 2));
    for (w, ds) in words_of(r, &g, max, n_in, n_out) {
        let want: Vec<Rc<Deriv>> = ds.iter().map(|d| canon(&g, &ix, d)).collect();
        let mut a = Approx::new(&g, &w);
        let (n, _) = a.of(g.init, 0, 0, w.len());
        let finite = !a.cyclic && n <= 400.0;
        let states = g.rules.iter().map(|x| x.comps.len() * (x.tail.len() + 2)).sum::<usize>() + 5;
        let open = r.chance(1, 3);
        let beam = match r.below(4) {
            _ if open => *r.pick(&[None, Some(states)]),
            0 => None,
            1 => Some(states),
            2 => Some(r.below(4)),
            _ => Some(r.range(1, 12)),
        };
        let delta = match r.below(5) {
            _ if open => *r.pick(&[None, Some(600)]),
            0 => None,
            3 => Some(0u32),
            1 => Some(600),
            _ => Some(r.below(12) as u32),
        };
        let candidates = match r.below(3) {
            _ if open && finite => None,
            0 if finite => None,
            1 => Some(r.below(6)),
            _ => Some(400),
        };
        let descr = || format!("width {}, beam {:?}, delta 2^-{:?}, candidates {:?}, word {:?}, {:?}", width, beam, delta, candidates, w, g);
        let word = toks(&w);
        let run = |p: &Rep, beam: Option<usize>, delta: Option<u32>, candidates: Option<usize>| {
            let mut b = p.build_generator();
            if let Some(x) = beam {
                b.set_beam(x);
            }
            if let Some(x) = delta {
                b.set_delta(weight(x));
            }
            if let Some(x) = candidates {
                b.set_candidates(x);
            }
            let (it, fb) = b.with_fallback(&word);
            let v: Vec<GornTree<R>> = it.map(|t| t.cloned()).collect();
            (v, fb, b.debug(&word))
        };
        let one = ctx.call("parse", || run(&p, beam, delta, candidates), descr);
        let (got, fb, dbg) = match one {
            Some(x) => x,
            None => continue,
        };
        ctx.eval();
        let refs: Vec<GornTree<&R>> = got.iter().map(|t| t.into_iter().map(|(k, v)| (k.clone(), v)).collect()).collect();
        let list = match judge_list(ctx, "C29", &g, &ix, &w, &refs, &descr) {
            Some(l) => l,
            None => continue,
        };
        judge_sub(ctx, "C29:derivations", &g, &list, &want, &descr);
        if let Some(c) = candidates {
            ctx.check(list.len() <= c, "C29:candidates", || format!("{} results; {}", list.len(), descr()));
        }
        if let Some(t) = &fb {
            judge_fallback(ctx, "C29:fallback", &g, &word, t, &descr);
            ctx.ev("fallback trees judged");
        }
        ctx.check(fb.is_some() || list.is_empty(), "C29:fallback", || format!("{} results and no fallback; {}", list.len(), descr()));
        ctx.check(fb.is_none() || n > 0.0 || approximated(&g, &w), "C29:fallback", || format!("a fallback, and no derivation of the approximation; {}", descr()));
        // where everything weighs one, a threshold leaves everything there
        let narrow = beam.map_or(false, |b| b < states) || delta.map_or(false, |d| d < 600 && !even);
        if even && delta.is_some() {
            ctx.ev("thresholds with equal weights");
        }
        // the estimates must not cost a result
        if !narrow && candidates.is_none() {
            judge_same(ctx, "C29:exact", &g, &list, &want, &descr);
            ctx.ev("exact results with estimates");
            if width > w.len() && w.len() > 1 {
                ctx.ev("words shorter than the width of the estimates");
            } else if width > 1 && w.len() > width {
                ctx.ev("words longer than the width of the estimates");
            }
        }
        // a limit on the candidates cuts the list off
        if candidates.is_some() && finite {
            if let Some((all, _, _)) = ctx.call("parse", || run(&p, beam, delta, None), descr) {
                ctx.check(all.len() >= got.len() && all[..got.len()] == got[..], "C29:prefix", || format!("{} of {} results are no prefix; {}", got.len(), all.len(), descr()));
                if candidates.unwrap() as f64 >= n {
                    ctx.check(all.len() == got.len(), "C29:prefix", || format!("{} of {} results; {}", got.len(), all.len(), descr()));
                }
                ctx.ev("limits on the candidates judged");
            }
        }
        // the stored representation answers the same
        if let Some((got2, fb2, _)) = ctx.call("parse-loaded", || run(&loaded, beam, delta, candidates), descr) {
            ctx.check(got == got2 && fb == fb2, "C29:loaded", || format!("{:?} and {:?} differ; {}", got, got2, descr()));
            ctx.ev("answers of loaded representations");
        }
        // the account of the debug mode
        ctx.check(dbg.0 == g.rules.len() && dbg.1 == w.len(), "C29:debug", || format!("{} rules, {} tokens; {}", dbg.0, dbg.1, descr()));
        match (&dbg.3, got.first()) {
            (DebugResult::Parse(t, k), Some(f)) => {
                ctx.check(t == f && *k >= 1 && candidates.map_or(true, |c| *k <= c), "C29:debug", || format!("candidate {} is {:?}, the first result {:?}; {}", k, t, f, descr()));
                // the candidates before it are not results
                if candidates.is_none() && *k > 1 {
                    if let Some((less, _, _)) = ctx.call("parse", || run(&p, beam, delta, Some(*k - 1)), descr) {
                        ctx.check(less.is_empty(), "C29:debug", || format!("candidate {} is said to be the first result; {}", k, descr()));
                        ctx.ev("first results behind other candidates");
                    }
                }
            }
            (DebugResult::Fallback(t, k), None) => {
                ctx.check(Some(t) == fb.as_ref() && candidates.map_or(true, |c| *k <= c), "C29:debug", || format!("fallback {:?} of {} candidates, not {:?}; {}", t, k, fb, descr()));
                ctx.ev("words with a fallback only");
            }
            (DebugResult::Noparse, None) => {
                ctx.check(fb.is_none() || candidates == Some(0), "C29:debug", || format!("no parse, but a fallback; {}", descr()));
            }
            _ => ctx.violation("C29:debug", format!("the debug mode and the results disagree; {}", descr())),
        }
        if list.len() > 1 && narrow {
            ctx.ev("several results in a narrow search");
        }
        if narrow && list.len() < want.len() {
            ctx.ev("results cut off by a narrow search");
        }
        if !want.is_empty() {
            ctx.nontrivial(&(&g, &w, beam, delta, candidates, width));
        }
        ctx.sample(|| format!("{} of {} derivations, {}", list.len(), want.len(), descr()));
    }
}

/// One generator for several words, with settings that are changed in between, and several lists
/// that are read in turn: each answer is the one that a generator of its own gives.
fn c29_reuse(ctx: &mut Ctx, r: &mut Rng) {
    let sh = shape(r);
    let mut g = generate(r, &sh);
    permute_rules(r, &mut g);
    let width = r.below(4);
    let p = match rep(ctx, &g, width) {
        Some(p) => p,
        None => return,
    };
    let (max, n_in, n_out) = (r.range(3, 6), r.range(2, 4), r.range(1, 2));
    let words: Vec<Vec<String>> = words_of(r, &g, max, n_in, n_out).into_iter().map(|(w, _)| toks(&w)).collect();
    if words.is_empty() {
        return;
    }
    // the settings are kept; without a limit there may be no end
    let mut set: (Option<usize>, Option<u32>, usize) = (None, None, r.range(0, 40));
    let mut steps: Vec<(usize, (Option<usize>, Option<u32>, usize))> = vec![];
    for _ in 0..r.range(2, 6) {
        match r.below(5) {
            0 => set.0 = Some(r.below(12)),
            1 => set.1 = Some(r.below(20) as u32),
            2 => set.2 = r.range(0, 40),
            _ => (),
        }
        steps.push((r.below(words.len()), set));
    }
    let descr = || format!("width {}, words and settings {:?} of {:?}, {:?}", width, steps, words, g);
    let shared = ctx.call(
        "reuse",
        || {
            let mut b = p.build_generator();
            let mut its = vec![];
            for (k, (beam, delta, c)) in &steps {
                if let Some(x) = beam {
                    b.set_beam(*x);
                }
                if let Some(x) = delta {
                    b.set_delta(weight(*x));
                }
                b.set_candidates(*c);
                let (it, fb) = b.with_fallback(&words[*k]);
                its.push((it, fb, vec![], true));
            }
            // in turn
            while its.iter().any(|x| x.3) {
                for x in its.iter_mut().filter(|x| x.3) {
                    match x.0.next() {
                        Some(t) => x.2.push(t.cloned()),
                        None => x.3 = false,
                    }
                }
            }
            its.into_iter().map(|x| (x.2, x.1)).collect::<Vec<_>>()
        },
        descr,
    );
    let alone = ctx.call(
        "alone",
        || {
            steps
                .iter()
                .map(|(k, (beam, delta, c))| {
                    let mut b = p.build_generator();
                    b.set_candidates(*c);
                    if let Some(x) = delta {
                        b.set_delta(weight(*x));
                    }
                    if let Some(x) = beam {
                        b.set_beam(*x);
                    }
                    let (it, fb) = b.with_fallback(&words[*k]);
                    (it.map(|t| t.cloned()).collect::<Vec<GornTree<R>>>(), fb)
                })
                .collect::<Vec<_>>()
        },
        descr,
    );
    if let (Some(a), Some(b)) = (shared, alone) {
        ctx.eval();
        for (i, (x, y)) in a.iter().zip(&b).enumerate() {
            ctx.check(x == y, "C29:reuse", || format!("step {}: {} results {:?} with fallback {:?}, alone {:?} with {:?}; {}", i, x.0.len(), x.0, x.1, y.0, y.1, descr()));
        }
        ctx.ev_n("answers of a generator used again", a.len() as u64);
        if a.iter().any(|x| x.0.len() > 1) {
            ctx.nontrivial(&(&g, &steps));
        }
    }
}

/// longer words of context-free grammars: estimates of any width leave the weights of the results
/// as they are
fn c29_long(ctx: &mut Ctx, r: &mut Rng) {
    let mut sh = shape(r);
    sh.max_fanout = if r.chance(3, 4) { 1 } else { 2 };
    let g = generate(r, &sh);
    let budget = r.range(8, 40);
    let d = match random_deriv(r, &g, g.init, budget) {
        Some(d) => d,
        None => return,
    };
    let w = d.eval(&g)[0].clone();
    let n = w.len();
    if n > 40 {
        return;
    }
    let mut widths = vec![0, r.range(1, 8), n.saturating_sub(1), n, n + 1, r.range(n, 2 * n + 2)];
    widths.sort();
    widths.dedup();
    let ix = Index::new(&g);
    let word = toks(&w);
    let mut first: Option<(Vec<u32>, BTreeMap<Rc<Deriv>, usize>)> = None;
    for width in widths {
        let descr = || format!("width {}, word {:?}, {:?}", width, w, g);
        let p = match rep(ctx, &g, width) {
            Some(p) => p,
            None => return,
        };
        let p = &p;
        let got = ctx.call(
            "parse-long",
            || {
                let mut b = p.build_generator();
                b.set_candidates(60);
                b.with_fallback(&word).0.collect::<Vec<_>>()
            },
            descr,
        );
        let got = match got {
            Some(x) => x,
            None => return,
        };
        ctx.eval();
        let list = match judge_list(ctx, "C29:long", &g, &ix, &w, &got, &descr) {
            Some(l) => l,
            None => return,
        };
        let exps: Vec<u32> = list.iter().map(|d| d.exp(&g)).collect();
        let set = multiset(&list);
        match &first {
            None => {
                ctx.check(!list.is_empty() || g.fanout.iter().any(|f| *f > 1), "C29:long:none", || format!("no result; {}", descr()));
                first = Some((exps, set));
            }
            Some((e, s)) => {
                if g.fanout.iter().all(|f| *f == 1) {
                    // among equal weights at the limit others may be there
                    ctx.check(*e == exps, "C29:long:estimates", || format!("weights {:?} without estimates, {:?} with; {}", e, exps, descr()));
                    if exps.len() < 60 {
                        ctx.check(*s == set, "C29:long:estimates", || format!("other derivations with estimates; {}", descr()));
                    }
                    ctx.ev("long words with estimates");
                }
            }
        }
    }
    ctx.nontrivial(&(&g, &w));
}

/// words longer than an octet counts, and grammars with more states than two octets count
pub fn c28_fixed(ctx: &mut Ctx) {
    let rule = |lhs: usize, tail: Vec<usize>, comps: Vec<Vec<Sym>>| Rule { lhs, tail, comps, exp: 1 };
    let g = Gram {
        fanout: vec![1, 1],
        init: 0,
        rules: vec![
            rule(0, vec![1, 0], vec![vec![Sym::V(0, 0), Sym::V(1, 0)]]),
            rule(0, vec![], vec![vec![Sym::T(0)]]),
            rule(1, vec![], vec![vec![Sym::T(0)]]),
            rule(1, vec![], vec![vec![Sym::T(1)]]),
        ],
    };
    let ix = Index::new(&g);
    if let Some(p) = rep(ctx, &g, 0) {
        for n in [254usize, 255, 256, 257, 300] {
            for last in [0, 1] {
                let mut w: Vec<Tm> = (0..n).map(|i| (i % 3 % 2) as Tm).collect();
                w[n - 1] = last;
                let word = toks(&w);
                let p = &p;
                let descr = || format!("{} tokens, last {}", n, last);
                let got = ctx.call("parse-255", || p.build_generator().with_fallback(&word).0.take(2).collect::<Vec<_>>(), descr);
                if let Some(got) = got {
                    ctx.eval();
                    if let Some(l) = judge_list(ctx, "C28:255", &g, &ix, &w, &got, &descr) {
                        ctx.check(l.len() == usize::from(last == 0), "C28:255:number", || format!("{} results; {}", l.len(), descr()));
                        ctx.ev("words of 254 to 300 tokens");
                    }
                }
            }
        }
    }
    // rules with as many successors, components and symbols as an octet counts
    for k in [5usize, 16, 17, 127, 128, 129, 255] {
        // 0 -> (1, 2, 2, .., 2); 1 has k components, each successor of 2 a token
        let mut fanout = vec![1, k];
        let mut rules = vec![];
        fanout.push(1);
        rules.push(Rule { lhs: 2, tail: vec![], comps: vec![vec![Sym::T(0)]], exp: 1 });
        rules.push(Rule { lhs: 2, tail: vec![], comps: vec![vec![Sym::T(1)]], exp: 2 });
        rules.push(Rule { lhs: 1, tail: vec![2; k], comps: (0..k).map(|i| vec![Sym::V(i, 0)]).collect(), exp: 1 });
        rules.push(Rule { lhs: 1, tail: vec![2; k], comps: (0..k).map(|i| vec![Sym::V(k - 1 - i, 0)]).collect(), exp: 2 });
        rules.push(Rule { lhs: 0, tail: vec![1], comps: vec![(0..k).map(|i| Sym::V(0, i)).collect()], exp: 1 });
        rules.push(Rule { lhs: 0, tail: vec![2; k], comps: vec![(0..k).map(|i| Sym::V(i, 0)).collect()], exp: 3 });
        let g = Gram { fanout, init: 0, rules };
        let ix = Index::new(&g);
        if let Some(p) = rep(ctx, &g, 0) {
            let w: Vec<Tm> = (0..k).map(|i| (i % 5 % 2) as Tm).collect();
            let word = toks(&w);
            let p = &p;
            let descr = || format!("rules with {} successors and components", k);
            let got = ctx.call("parse-broad", || { let mut b = p.build_generator(); b.set_candidates(4); b.with_fallback(&word).0.collect::<Vec<_>>() }, descr);
            if let Some(got) = got {
                ctx.eval();
                // the two rules with many components only weigh different from each other
                if let Some(l) = judge_list(ctx, "C28:broad", &g, &ix, &w, &got, &descr) {
                    let best = 2 + w.iter().map(|t| *t as u32 + 1).sum::<u32>();
                    ctx.check(l.first().map(|d| d.exp(&g)) == Some(best), "C28:broad:best", || {
                        format!("{} results of weights {:?}, the best is {}; {}", l.len(), l.iter().map(|d| d.exp(&g)).collect::<Vec<_>>(), best, descr())
                    });
                    ctx.ev("rules with 5 to 255 successors and components");
                }
            }
        }
    }
    // 70000 nonterminals, each with a rule
    let n = 70_000;
    let mut rules = vec![];
    for i in 0..n {
        rules.push(rule(i, vec![], vec![vec![Sym::T((i % 100) as Tm)]]));
        if i > 0 && i % 1000 == 0 {
            rules.push(rule(0, vec![i, n - i], vec![vec![Sym::V(0, 0), Sym::V(1, 0)]]));
        }
    }
    rules.push(rule(0, vec![n - 1, n - 2], vec![vec![Sym::V(0, 0), Sym::V(1, 0)]]));
    let g = Gram { fanout: vec![1; n], rules, init: 0 };
    let ix = Index::new(&g);
    if let Some(p) = rep(ctx, &g, 0) {
        let w: Vec<Tm> = vec![99, 98];
        let word = toks(&w);
        let descr = || "70000 nonterminals".to_string();
        let p = &p;
        if let Some(got) = ctx.call("parse-65535", || p.build_generator().with_fallback(&word).0.take(3).collect::<Vec<_>>(), descr) {
            ctx.eval();
            if let Some(l) = judge_list(ctx, "C28:65535", &g, &ix, &w, &got, &descr) {
                ctx.check(l.len() == 1, "C28:65535:number", || format!("{} results", l.len()));
                ctx.ev("grammars with 70000 states");
            }
        }
    }
}

/// the greatest widths of the estimates
pub fn c29_fixed(ctx: &mut Ctx) {
    let rule = |lhs: usize, tail: Vec<usize>, comps: Vec<Vec<Sym>>| Rule { lhs, tail, comps, exp: 1 };
    let g = Gram {
        fanout: vec![1, 1],
        init: 0,
        rules: vec![rule(0, vec![1, 0], vec![vec![Sym::V(0, 0), Sym::V(1, 0)]]), rule(0, vec![], vec![vec![Sym::T(0)]]), rule(1, vec![], vec![vec![Sym::T(1)]])],
    };
    let ix = Index::new(&g);
    for width in [253usize, 254, 255] {
        if let Some(p) = rep(ctx, &g, width) {
            for n in [1usize, 2, 5, 100, 254, 255] {
                let mut w: Vec<Tm> = vec![1; n];
                w[n - 1] = 0;
                let word = toks(&w);
                let p = &p;
                let descr = || format!("{} tokens, width {}", n, width);
                if let Some(got) = ctx.call("parse-width", || p.build_generator().with_fallback(&word).0.take(2).collect::<Vec<_>>(), descr) {
                    ctx.eval();
                    if let Some(l) = judge_list(ctx, "C29:width", &g, &ix, &w, &got, &descr) {
                        ctx.check(l.len() == 1, "C29:width:number", || format!("{} results; {}", l.len(), descr()));
                        ctx.ev("words with estimates of width 253 to 255");
                    }
                }
            }
        }
    }
}
