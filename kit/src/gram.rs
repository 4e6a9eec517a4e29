//! An independent, deliberately naive model of weighted multiple context-free grammars: terms,
//! their evaluation, and exhaustive enumeration of derivations up to a yield length.
use crate::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type Tm = u8; // terminal id
pub type Nt = usize;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sym {
    T(Tm),
    V(usize, usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Rule {
    pub lhs: Nt,
    pub tail: Vec<Nt>,
    pub comps: Vec<Vec<Sym>>,
    /// the weight is 2^-exp
    pub exp: u32,
}

impl Rule {
    pub fn terminals(&self) -> usize {
        self.comps.iter().flatten().filter(|s| matches!(s, Sym::T(_))).count()
    }
    pub fn weight(&self) -> f64 {
        (2.0f64).powi(-(self.exp as i32))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Gram {
    pub fanout: Vec<usize>,
    pub rules: Vec<Rule>,
    pub init: Nt,
}

pub type Tuple = Vec<Vec<Tm>>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Deriv {
    pub rule: usize,
    pub children: Vec<Rc<Deriv>>,
}

impl Deriv {
    pub fn size(&self) -> usize {
        1 + self.children.iter().map(|c| c.size()).sum::<usize>()
    }
    pub fn exp(&self, g: &Gram) -> u32 {
        g.rules[self.rule].exp + self.children.iter().map(|c| c.exp(g)).sum::<u32>()
    }
    /// (Gorn address, rule) in preorder
    pub fn nodes(&self) -> Vec<(Vec<usize>, usize)> {
        fn go(d: &Deriv, pos: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, usize)>) {
            out.push((pos.clone(), d.rule));
            for (i, c) in d.children.iter().enumerate() {
                pos.push(i);
                go(c, pos, out);
                pos.pop();
            }
        }
        let mut out = Vec::new();
        go(self, &mut Vec::new(), &mut out);
        out
    }
    pub fn eval(&self, g: &Gram) -> Tuple {
        let args: Vec<Tuple> = self.children.iter().map(|c| c.eval(g)).collect();
        subst(&g.rules[self.rule].comps, &args)
    }
}

pub fn subst(comps: &[Vec<Sym>], args: &[Tuple]) -> Tuple {
    comps
        .iter()
        .map(|c| {
            let mut w = Vec::new();
            for s in c {
                match *s {
                    Sym::T(t) => w.push(t),
                    Sym::V(i, j) => w.extend_from_slice(&args[i][j]),
                }
            }
            w
        })
        .collect()
}

/// What the generator may produce.
#[derive(Clone, Debug)]
pub struct Shape {
    pub nts: usize,
    pub max_fanout: usize,
    pub terminals: usize,
    pub max_rules_per_nt: usize,
    pub max_tail: usize,
    pub recursive: bool,
    /// empty components (only without recursion)
    pub epsilon: bool,
    pub deleting: bool,
    pub copying: bool,
    /// within a rule, the components of each successor occur in order
    pub ordered: bool,
    /// terminals only in rules `A -> [[T a]] ()`
    pub normal_form: bool,
    /// at most this many terminals in a rule
    pub max_terminals: usize,
    pub max_exp: u32,
    /// the weights of two rules of the same shape differ, or all are different rules
    pub distinct_rules: bool,
    /// each component has at most this many symbols, 0 for no bound
    pub max_comp: usize,
}

impl Default for Shape {
    fn default() -> Self {
        Shape {
            nts: 4,
            max_fanout: 2,
            terminals: 3,
            max_rules_per_nt: 3,
            max_tail: 2,
            recursive: true,
            epsilon: false,
            deleting: false,
            copying: false,
            ordered: false,
            normal_form: false,
            max_terminals: 3,
            max_exp: 4,
            distinct_rules: true,
            max_comp: 0,
        }
    }
}

/// A random grammar.  The generated grammars have no ε-cycles and no chain cycles: chain rules
/// (and, without recursion, all rules) only lead to larger nonterminals, and with recursion
/// no component is empty.  So every word has finitely many derivations.
pub fn generate(r: &mut Rng, sh: &Shape) -> Gram {
    let n = r.range(1, sh.nts);
    let mut fanout: Vec<usize> = (0..n).map(|_| r.range(1, sh.max_fanout)).collect();
    fanout[0] = 1;
    let mut rules: Vec<Rule> = Vec::new();
    for a in 0..n {
        let lo = if sh.max_rules_per_nt > 1 && r.chance(2, 3) { 2 } else { 1 };
        let k = r.range(lo, sh.max_rules_per_nt);
        for ri in 0..k {
            // the last rule of a nonterminal is terminating, so that every one is productive
            let last = ri + 1 == k;
            for _attempt in 0..20 {
                let rule = gen_rule(r, sh, n, &fanout, a, last);
                if let Some(rule) = rule {
                    let dup = rules
                        .iter()
                        .any(|x| x.lhs == rule.lhs && x.tail == rule.tail && x.comps == rule.comps);
                    if !(sh.distinct_rules && dup) {
                        rules.push(rule);
                        break;
                    }
                }
            }
        }
    }
    if r.chance(1, 2) {
        r.shuffle(&mut rules);
    }
    if sh.normal_form {
        normalise(r, &mut rules, &mut fanout, sh);
    }
    Gram {
        fanout,
        rules,
        init: 0,
    }
}

fn gen_rule(
    r: &mut Rng,
    sh: &Shape,
    n: usize,
    fanout: &[usize],
    a: Nt,
    terminating: bool,
) -> Option<Rule> {
    let f = fanout[a];
    let mut tail: Vec<Nt> = Vec::new();
    if !terminating {
        let lo = if sh.max_tail > 0 && r.chance(4, 5) { 1 } else { 0 };
        let k = r.range(lo, sh.max_tail);
        for _ in 0..k {
            let lo = if sh.recursive { 0 } else { a + 1 };
            if lo < n {
                tail.push(r.range(lo, n - 1));
            }
        }
    }
    let mut syms: Vec<Sym> = Vec::new();
    for (i, b) in tail.iter().enumerate() {
        for j in 0..fanout[*b] {
            if sh.deleting && r.chance(1, 6) {
                continue;
            }
            syms.push(Sym::V(i, j));
            if sh.copying && r.chance(1, 8) {
                syms.push(Sym::V(i, j));
            }
        }
    }
    let need = if sh.epsilon || syms.len() >= f { 0 } else { f - syms.len() };
    let maxt = sh.max_terminals.max(need);
    let t = if tail.is_empty() && !sh.epsilon {
        r.range(need.max(1), maxt.max(1))
    } else if r.chance(1, 3) {
        need
    } else {
        r.range(need, maxt)
    };
    for _ in 0..t {
        syms.push(Sym::T(r.below(sh.terminals) as Tm));
    }
    // chain rules and rules that do not consume: only upwards
    if t == 0 && tail.len() == 1 && tail[0] <= a {
        return None;
    }
    if sh.deleting && sh.recursive && tail.iter().any(|b| *b <= a) {
        return None;
    }
    r.shuffle(&mut syms);
    // cut into f components
    let mut comps: Vec<Vec<Sym>> = vec![Vec::new(); f];
    if sh.epsilon {
        for s in syms {
            let i = r.below(f);
            comps[i].push(s);
        }
    } else {
        if syms.len() < f {
            return None;
        }
        for (i, s) in syms.into_iter().enumerate() {
            let c = if i < f { i } else { r.below(f) };
            comps[c].push(s);
        }
        for c in comps.iter_mut() {
            r.shuffle(c);
        }
    }
    if sh.ordered {
        // rename the components of each successor in order of occurrence
        let mut next = vec![0usize; tail.len()];
        for c in comps.iter_mut() {
            for s in c.iter_mut() {
                if let Sym::V(i, j) = s {
                    *j = next[*i];
                    next[*i] += 1;
                }
            }
        }
    }
    if sh.max_comp > 0 && comps.iter().any(|c| c.len() > sh.max_comp) {
        return None;
    }
    Some(Rule {
        lhs: a,
        tail,
        comps,
        exp: r.below(sh.max_exp as usize + 1) as u32,
    })
}

/// Moves terminals of mixed rules into preterminals.
fn normalise(r: &mut Rng, rules: &mut Vec<Rule>, fanout: &mut Vec<usize>, _sh: &Shape) {
    let mut pre: BTreeMap<Tm, Nt> = BTreeMap::new();
    for rule in rules.iter_mut() {
        let lone = rule.tail.is_empty()
            && rule.comps.len() == 1
            && rule.comps[0].len() == 1;
        if lone {
            continue;
        }
        let Rule { tail, comps, .. } = rule;
        for c in comps.iter_mut() {
            for s in c.iter_mut() {
                if let Sym::T(t) = *s {
                    let len = fanout.len();
                    let nt = *pre.entry(t).or_insert_with(|| {
                        fanout.push(1);
                        len
                    });
                    *s = Sym::V(tail.len(), 0);
                    tail.push(nt);
                }
            }
        }
    }
    for (t, nt) in pre {
        rules.push(Rule {
            lhs: nt,
            tail: vec![],
            comps: vec![vec![Sym::T(t)]],
            exp: r.below(3) as u32,
        });
    }
}

/// All derivations of each nonterminal by total yield length, at most `cap` per cell.
pub struct Enum<'a> {
    g: &'a Gram,
    memo: HashMap<(Nt, usize), Rc<Vec<(Rc<Deriv>, Tuple)>>>,
    pub cap: usize,
    pub overflow: bool,
    by_lhs: Vec<Vec<usize>>,
    busy: BTreeSet<(Nt, usize)>,
}

impl<'a> Enum<'a> {
    pub fn new(g: &'a Gram, cap: usize) -> Self {
        let n = g
            .rules
            .iter()
            .flat_map(|r| r.tail.iter().cloned().chain(vec![r.lhs]))
            .chain(vec![g.init])
            .max()
            .unwrap_or(0)
            + 1;
        let mut by_lhs = vec![Vec::new(); n];
        for (i, r) in g.rules.iter().enumerate() {
            by_lhs[r.lhs].push(i);
        }
        Enum {
            g,
            memo: HashMap::new(),
            cap,
            overflow: false,
            by_lhs,
            busy: BTreeSet::new(),
        }
    }

    /// derivations of `nt` whose components have total length `len` (for linear, non-deleting rules)
    pub fn derivs(&mut self, nt: Nt, len: usize) -> Rc<Vec<(Rc<Deriv>, Tuple)>> {
        if let Some(v) = self.memo.get(&(nt, len)) {
            return v.clone();
        }
        if !self.busy.insert((nt, len)) {
            panic!("/verif/ kit: the grammar has a cycle that consumes nothing: {:?}", self.g);
        }
        let g = self.g;
        let mut out = Vec::new();
        for ri in self.by_lhs[nt].clone() {
            let rule = &g.rules[ri];
            let t = rule.terminals();
            if t > len {
                continue;
            }
            let mut acc: Vec<(Vec<Rc<Deriv>>, Vec<Tuple>, usize)> = vec![(vec![], vec![], len - t)];
            let eps = g.rules.iter().any(|r| r.comps.iter().any(|c| c.is_empty()));
            let k = rule.tail.len();
            for (i, b) in rule.tail.iter().enumerate() {
                let mut next = Vec::new();
                for (ds, ts, rest) in acc {
                    let remaining = k - i - 1;
                    let lo = if eps { 0 } else { 1 };
                    for l in lo..=rest {
                        if i + 1 == k && l != rest {
                            continue;
                        }
                        if !eps && rest - l < remaining {
                            break;
                        }
                        for (d, tu) in self.derivs(*b, l).iter() {
                            if next.len() > self.cap {
                                self.overflow = true;
                                break;
                            }
                            let mut ds = ds.clone();
                            let mut ts = ts.clone();
                            ds.push(d.clone());
                            ts.push(tu.clone());
                            next.push((ds, ts, rest - l));
                        }
                    }
                }
                acc = next;
            }
            for (ds, ts, rest) in acc {
                if rest != 0 {
                    continue;
                }
                if out.len() > self.cap {
                    self.overflow = true;
                    break;
                }
                let tuple = subst(&rule.comps, &ts);
                out.push((
                    Rc::new(Deriv {
                        rule: ri,
                        children: ds,
                    }),
                    tuple,
                ));
            }
        }
        self.busy.remove(&(nt, len));
        let rc = Rc::new(out);
        self.memo.insert((nt, len), rc.clone());
        rc
    }

    /// word -> derivations, for all words of length at most `max`
    pub fn language(&mut self, max: usize) -> BTreeMap<Vec<Tm>, Vec<Rc<Deriv>>> {
        let mut m: BTreeMap<Vec<Tm>, Vec<Rc<Deriv>>> = BTreeMap::new();
        for l in 0..=max {
            for (d, t) in self.derivs(self.g.init, l).iter() {
                m.entry(t[0].clone()).or_default().push(d.clone());
            }
        }
        m
    }
}

/// All derivations of an acyclic grammar (any composition), at most `cap` per nonterminal.
pub fn all_derivs(g: &Gram, nt: Nt, cap: usize, overflow: &mut bool) -> Vec<(Rc<Deriv>, Tuple)> {
    fn go(
        g: &Gram,
        nt: Nt,
        cap: usize,
        overflow: &mut bool,
        memo: &mut HashMap<Nt, Rc<Vec<(Rc<Deriv>, Tuple)>>>,
    ) -> Rc<Vec<(Rc<Deriv>, Tuple)>> {
        if let Some(v) = memo.get(&nt) {
            return v.clone();
        }
        let mut out = Vec::new();
        for (ri, rule) in g.rules.iter().enumerate().filter(|(_, r)| r.lhs == nt) {
            let mut acc: Vec<(Vec<Rc<Deriv>>, Vec<Tuple>)> = vec![(vec![], vec![])];
            for b in &rule.tail {
                let sub = go(g, *b, cap, overflow, memo);
                let mut next = Vec::new();
                'o: for (ds, ts) in &acc {
                    for (d, t) in sub.iter() {
                        if next.len() >= cap {
                            *overflow = true;
                            break 'o;
                        }
                        let mut ds = ds.clone();
                        let mut ts = ts.clone();
                        ds.push(d.clone());
                        ts.push(t.clone());
                        next.push((ds, ts));
                    }
                }
                acc = next;
            }
            for (ds, ts) in acc {
                if out.len() >= cap {
                    *overflow = true;
                    break;
                }
                let t = subst(&rule.comps, &ts);
                out.push((
                    Rc::new(Deriv {
                        rule: ri,
                        children: ds,
                    }),
                    t,
                ));
            }
        }
        let rc = Rc::new(out);
        memo.insert(nt, rc.clone());
        rc
    }
    let mut memo = HashMap::new();
    let r = go(g, nt, cap, overflow, &mut memo);
    (*r).clone()
}

/// all words over `0..k` of length at most `n`
pub fn words(k: usize, n: usize) -> Vec<Vec<Tm>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<Tm>> = vec![vec![]];
    for _ in 0..n {
        let mut next = Vec::new();
        for w in &last {
            for t in 0..k {
                let mut v = w.clone();
                v.push(t as Tm);
                next.push(v);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// A random derivation of `nt`; once `budget` nodes are used, terminating rules are preferred.
/// `None` if the grammar offers no way to end (or the derivation grows too large).
pub fn random_deriv(r: &mut Rng, g: &Gram, nt: Nt, budget: usize) -> Option<Rc<Deriv>> {
    fn go(r: &mut Rng, g: &Gram, nt: Nt, left: &mut isize, depth: usize) -> Option<Rc<Deriv>> {
        *left -= 1;
        if *left < -400 || depth > 60 {
            return None;
        }
        let all: Vec<usize> = (0..g.rules.len()).filter(|i| g.rules[*i].lhs == nt).collect();
        if all.is_empty() {
            return None;
        }
        let ends: Vec<usize> = all.iter().cloned().filter(|i| g.rules[*i].tail.is_empty()).collect();
        let inner: Vec<usize> = all.iter().cloned().filter(|i| !g.rules[*i].tail.is_empty()).collect();
        let ri = if *left <= 0 && !ends.is_empty() {
            *r.pick(&ends)
        } else if !inner.is_empty() && r.chance(3, 4) {
            *r.pick(&inner)
        } else {
            *r.pick(&all)
        };
        let mut children = Vec::new();
        for b in &g.rules[ri].tail {
            children.push(go(r, g, *b, left, depth + 1)?);
        }
        Some(Rc::new(Deriv { rule: ri, children }))
    }
    let mut left = budget as isize;
    go(r, g, nt, &mut left, 0)
}

/// The greatest total length of the tuple at any node, without building the tuples.
pub fn largest_yield(g: &Gram, d: &Deriv) -> usize {
    fn go(g: &Gram, d: &Deriv, max: &mut usize) -> Vec<usize> {
        let args: Vec<Vec<usize>> = d.children.iter().map(|c| go(g, c, max)).collect();
        let v: Vec<usize> = g.rules[d.rule]
            .comps
            .iter()
            .map(|c| {
                c.iter()
                    .map(|s| match *s {
                        Sym::T(_) => 1,
                        Sym::V(i, j) => args[i][j],
                    })
                    .fold(0, |a: usize, b| a.saturating_add(b))
            })
            .collect();
        *max = (*max).max(v.iter().fold(0, |a: usize, b| a.saturating_add(*b)));
        v
    }
    let mut m = 0;
    go(g, d, &mut m);
    m
}

/// All derivations of height at most `h`, at most `cap` per cell.
pub fn derivs_by_height(g: &Gram, nt: Nt, h: usize, cap: usize, overflow: &mut bool) -> Vec<Rc<Deriv>> {
    if h == 0 {
        return vec![];
    }
    let mut out = Vec::new();
    for (ri, rule) in g.rules.iter().enumerate().filter(|(_, r)| r.lhs == nt) {
        let mut acc: Vec<Vec<Rc<Deriv>>> = vec![vec![]];
        for b in &rule.tail {
            let sub = derivs_by_height(g, *b, h - 1, cap, overflow);
            let mut next = Vec::new();
            'o: for ds in &acc {
                for d in &sub {
                    if next.len() >= cap {
                        *overflow = true;
                        break 'o;
                    }
                    let mut ds = ds.clone();
                    ds.push(d.clone());
                    next.push(ds);
                }
            }
            acc = next;
        }
        for ds in acc {
            if out.len() >= cap {
                *overflow = true;
                break;
            }
            out.push(Rc::new(Deriv { rule: ri, children: ds }));
        }
    }
    out
}
