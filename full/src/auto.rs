//! C21 pushdown automata, C22 tree-stack automata, C23 finite automata, C24 beams,
//! C25 approximations, C26 coarse-to-fine recognition.
use kit::gram::{generate, Deriv, Enum, Gram, Rule, Shape, Sym, Tm};
use kit::{guarded, Ctx, Rng};
use log_domain::LogDomain;
use rustomata::approximation::relabel::RlbElement;
use rustomata::approximation::tts::TTSElement;
use rustomata::approximation::ApproximationStrategy;
use rustomata::automata::finite_state_automaton::{FiniteStateAutomaton, FiniteStateInstruction};
use rustomata::automata::push_down_automaton::{PushDown, PushDownAutomaton, PushDownInstruction, PushState};
use rustomata::automata::tree_stack_automaton::{
    to_abstract_syntax_tree, PosState, TreeStack, TreeStackAutomaton, TreeStackInstruction,
};
use rustomata::coarse_to_fine_recogniser;
use rustomata::grammars::cfg::{CFGComposition, CFGRule, LetterT, CFG};
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT, PMCFG};
use rustomata::recognisable::automaton::{recognise, recognise_beam, Automaton};
use rustomata::recognisable::coarse_to_fine::CoarseToFineRecogniser;
use rustomata::recognisable::{Instruction, Item, Recognisable, Transition};
use rustomata::util::push_down::Pushdown;
use rustomata::util::tree::GornTree;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use std::rc::Rc;

pub type W = LogDomain<f64>;

pub fn weight(exp: u32) -> W {
    LogDomain::new((2.0f64).powi(-(exp as i32))).unwrap()
}
pub const LN2: f64 = std::f64::consts::LN_2;

fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() < 1e-9
}

fn letter(t: Tm) -> char {
    (b'a' + t) as char
}
fn text(w: &[Tm]) -> Vec<char> {
    w.iter().map(|t| letter(*t)).collect()
}
fn show(w: &[Tm]) -> String {
    text(w).into_iter().collect()
}

// ------------------------------------------------------------------ judging a list of runs

/// a run as the sequence of its transitions (without weights), and the logarithm of its weight
pub type Runs<K> = Vec<(Vec<K>, f64)>;

fn sort_runs<K: Ord>(v: &mut Runs<K>) {
    v.sort_by(|a, b| a.0.cmp(&b.0).then(a.1.partial_cmp(&b.1).unwrap()));
}

/// `got` and `want` are the same multisets of runs
fn same_runs<K: Ord + Debug + Clone>(ctx: &mut Ctx, sig: &str, got: &Runs<K>, want: &Runs<K>, detail: &dyn Fn() -> String) -> bool {
    let (mut g, mut w) = (got.clone(), want.clone());
    sort_runs(&mut g);
    sort_runs(&mut w);
    let ok = g.len() == w.len() && g.iter().zip(&w).all(|(a, b)| a.0 == b.0 && close(a.1, b.1));
    ctx.check(ok, sig, || {
        let missing: Vec<_> = w.iter().filter(|x| !g.iter().any(|y| y.0 == x.0 && close(x.1, y.1))).take(3).collect();
        let extra: Vec<_> = g.iter().filter(|x| !w.iter().any(|y| y.0 == x.0 && close(x.1, y.1))).take(3).collect();
        format!("{} results, {} expected; missing {:?}; not expected {:?}; {}", g.len(), w.len(), missing, extra, detail())
    })
}

/// each result is one of the expected ones, none occurs more often
fn sub_runs<K: Ord + Debug + Clone>(ctx: &mut Ctx, sig: &str, got: &Runs<K>, want: &Runs<K>, detail: &dyn Fn() -> String) -> bool {
    let mut left = want.clone();
    for r in got {
        match left.iter().position(|x| x.0 == r.0 && close(x.1, r.1)) {
            Some(i) => {
                left.swap_remove(i);
            }
            None => {
                ctx.violation(sig, format!("result {:?} is no run or is given too often; {}", r, detail()));
                return false;
            }
        }
    }
    true
}

fn falling<K: Debug>(ctx: &mut Ctx, sig: &str, got: &Runs<K>, detail: &dyn Fn() -> String) -> bool {
    let bad = got.windows(2).position(|p| p[1].1 > p[0].1 + 1e-9);
    ctx.check(bad.is_none(), sig, || {
        let i = bad.unwrap();
        format!("result {} has weight {} after {}; {}", i + 1, got[i + 1].1.exp(), got[i].1.exp(), detail())
    })
}

// ------------------------------------------------------------------ model automata

pub type PKey = (Vec<char>, Vec<u32>, Vec<u32>);
#[derive(Clone, Debug)]
pub struct PModel {
    pub init: Vec<u32>,
    pub ts: Vec<(PKey, f64)>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum TIns {
    Up(usize, u32, u32, u32),
    Push(usize, u32, u32),
    Down(u32, u32, u32),
}
pub type TKey = (Vec<char>, TIns);
#[derive(Clone, Debug)]
pub struct TModel {
    pub init: u32,
    pub ts: Vec<(TKey, f64)>,
}
pub type FKey = (Vec<char>, u32, u32);
#[derive(Clone, Debug)]
pub struct FModel {
    pub init: u32,
    pub fin: Vec<u32>,
    pub ts: Vec<(FKey, f64)>,
}

/// All accepting runs of a transition system by exhaustive search, `None` beyond `cap`
/// configurations.  The second part is the number of configurations.
fn model_runs<S: Clone, K: Clone>(
    init: S,
    word: &[char],
    ts: &[(K, f64)],
    reads: impl Fn(&K) -> &[char],
    apply: impl Fn(&K, &S) -> Option<S>,
    accepts: impl Fn(&S) -> bool,
    cap: usize,
) -> Option<(Runs<K>, usize)> {
    let mut out = Vec::new();
    let mut n = 0;
    let mut agenda: Vec<(S, usize, Vec<usize>)> = vec![(init, 0, vec![])];
    while let Some((s, pos, run)) = agenda.pop() {
        n += 1;
        if n > cap {
            return None;
        }
        if pos == word.len() && accepts(&s) {
            out.push((run.iter().map(|i| ts[*i].0.clone()).collect(), run.iter().map(|i| ts[*i].1).sum::<f64>()));
        }
        for (i, (k, _)) in ts.iter().enumerate() {
            let w = reads(k);
            if word[pos..].starts_with(w) {
                if let Some(s2) = apply(k, &s) {
                    let mut run2 = run.clone();
                    run2.push(i);
                    agenda.push((s2, pos + w.len(), run2));
                }
            }
        }
    }
    Some((out, n))
}

impl PModel {
    /// transitions that differ in nothing but their weight are one
    pub fn merged(&self) -> PModel {
        let mut m: BTreeMap<PKey, f64> = BTreeMap::new();
        for (k, w) in &self.ts {
            let e = m.entry(k.clone()).or_insert(f64::NEG_INFINITY);
            *e = (e.exp() + w.exp()).ln();
        }
        PModel { init: self.init.clone(), ts: m.into_iter().collect() }
    }
    pub fn runs(&self, word: &[char], cap: usize) -> Option<(Runs<PKey>, usize)> {
        model_runs(
            self.init.clone(),
            word,
            &self.ts,
            |k| &k.0,
            |k, s: &Vec<u32>| {
                let n = s.len();
                if k.1.len() > n || !k.1.iter().enumerate().all(|(i, x)| s[n - 1 - i] == *x) {
                    return None;
                }
                let mut t = s[..n - k.1.len()].to_vec();
                t.extend(&k.2);
                Some(t)
            },
            |s| s.len() == 1,
            cap,
        )
    }
    fn map(&self, f: &dyn Fn(u32) -> u32) -> PModel {
        PModel {
            init: self.init.iter().map(|x| f(*x)).collect(),
            ts: self
                .ts
                .iter()
                .map(|((w, c, n), x)| ((w.clone(), c.iter().map(|y| f(*y)).collect(), n.iter().map(|y| f(*y)).collect()), *x))
                .collect(),
        }
    }
}

/// a tree stack as a map from addresses to labels, with the position of the pointer
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TStore<A> {
    pub tree: BTreeMap<Vec<usize>, A>,
    pub at: Vec<usize>,
}
impl<A: Clone + PartialEq> TStore<A> {
    pub fn new(a: A) -> Self {
        TStore { tree: vec![(vec![], a)].into_iter().collect(), at: vec![] }
    }
    pub fn up(&self, n: usize, cur: &A, old: &A, new: &A) -> Option<Self> {
        let mut to = self.at.clone();
        to.push(n);
        if self.tree[&self.at] != *cur || self.tree.get(&to) != Some(old) {
            return None;
        }
        let mut s = self.clone();
        s.tree.insert(to.clone(), new.clone());
        s.at = to;
        Some(s)
    }
    pub fn push(&self, n: usize, cur: &A, new: &A) -> Option<Self> {
        let mut to = self.at.clone();
        to.push(n);
        if self.tree[&self.at] != *cur || self.tree.contains_key(&to) {
            return None;
        }
        let mut s = self.clone();
        s.tree.insert(to.clone(), new.clone());
        s.at = to;
        Some(s)
    }
    pub fn down(&self, cur: &A, old: &A, new: &A) -> Option<Self> {
        let mut to = self.at.clone();
        to.pop()?;
        if self.tree[&self.at] != *cur || self.tree[&to] != *old {
            return None;
        }
        let mut s = self.clone();
        s.tree.insert(to.clone(), new.clone());
        s.at = to;
        Some(s)
    }
}
fn tins(k: &TIns, s: &TStore<u32>) -> Option<TStore<u32>> {
    match k {
        TIns::Up(n, a, b, c) => s.up(*n, a, b, c),
        TIns::Push(n, a, c) => s.push(*n, a, c),
        TIns::Down(a, b, c) => s.down(a, b, c),
    }
}
impl TModel {
    pub fn runs(&self, word: &[char], cap: usize) -> Option<(Runs<TKey>, usize)> {
        model_runs(TStore::new(self.init), word, &self.ts, |k| &k.0, |k, s| tins(&k.1, s), |s| s.at.is_empty(), cap)
    }
}
impl FModel {
    pub fn runs(&self, word: &[char], cap: usize) -> Option<(Runs<FKey>, usize)> {
        model_runs(
            self.init,
            word,
            &self.ts,
            |k| &k.0,
            |k, s| if k.1 == *s { Some(k.2) } else { None },
            |s| self.fin.contains(s),
            cap,
        )
    }
}

// ------------------------------------------------------------------ random automata

fn some_word(r: &mut Rng, least: usize) -> Vec<char> {
    let n = match r.below(6) {
        0 => 2,
        1 => 0.max(least),
        _ => 1,
    }
    .max(least);
    (0..n).map(|_| letter(r.below(2) as Tm)).collect()
}

/// the logarithm of a weight, rarely zero
fn light(r: &mut Rng) -> f64 {
    if r.chance(1, 60) {
        f64::NEG_INFINITY
    } else {
        -(r.below(4) as f64) * LN2
    }
}

/// stack symbol 0 is the bottom and stays there; every transition reads something
pub fn random_pda(r: &mut Rng) -> PModel {
    let syms = r.range(1, 3);
    let sym = |r: &mut Rng| 1 + r.below(syms) as u32;
    let mut ts = Vec::new();
    for _ in 0..r.range(2, 10) {
        let w = some_word(r, 1);
        let (c, n) = match r.below(8) {
            0 => (vec![0], vec![0, sym(r)]),
            1 => (vec![sym(r), 0], if r.chance(1, 2) { vec![0] } else { vec![0, sym(r)] }),
            2 => (vec![sym(r), sym(r)], vec![sym(r)]),
            3 => (vec![sym(r), sym(r)], vec![]),
            4 => (vec![sym(r)], vec![sym(r), sym(r)]),
            5 => (vec![sym(r)], vec![sym(r)]),
            6 => (vec![sym(r), sym(r)], vec![sym(r), sym(r), sym(r)]),
            _ => (vec![sym(r)], vec![]),
        };
        ts.push(((w, c, n), light(r)));
    }
    for _ in 0..r.below(3) {
        let (mut k, _) = r.pick(&ts).clone();
        if r.chance(1, 3) {
            k.0 = some_word(r, 1);
        }
        let w = light(r);
        ts.push((k, w));
    }
    let init = if r.chance(3, 4) { vec![0, sym(r)] } else { vec![0, sym(r), sym(r)] };
    PModel { init, ts }
}

pub fn random_tsa(r: &mut Rng) -> TModel {
    let syms = r.range(1, 4);
    let sym = |r: &mut Rng| r.below(syms) as u32;
    let mut ts = Vec::new();
    for _ in 0..r.range(3, 12) {
        let w = some_word(r, 1);
        let i = match r.below(5) {
            0 | 1 => TIns::Push(r.below(3), sym(r), sym(r)),
            2 | 3 => TIns::Down(sym(r), sym(r), sym(r)),
            _ => TIns::Up(r.below(3), sym(r), sym(r), sym(r)),
        };
        ts.push(((w, i), light(r)));
    }
    // pairs that a coarser view takes for one
    for _ in 0..r.below(3) {
        let (k, _) = r.pick(&ts).clone();
        let w = light(r);
        let i = match k.1 {
            TIns::Push(_, a, c) if r.chance(1, 2) => TIns::Push(r.below(3), a, c),
            TIns::Push(n, a, c) => TIns::Up(n, a, sym(r), c),
            TIns::Up(n, a, _, c) => TIns::Up(n, a, sym(r), c),
            x => x,
        };
        ts.push(((k.0, i), w));
    }
    // children with other numbers, in the same order or not
    if r.chance(1, 4) {
        let far = r.chance(1, 50);
        let to = if far { [254, 255, 256] } else { *r.pick(&[[0, 1, 2], [1, 0, 2], [5, 6, 7], [9, 10, 11], [2, 1, 0], [0, 16, 33]]) };
        for t in ts.iter_mut() {
            match &mut (t.0).1 {
                TIns::Up(n, ..) | TIns::Push(n, ..) => *n = to[*n],
                _ => (),
            }
        }
    }
    TModel { init: sym(r), ts }
}

pub fn random_fsa(r: &mut Rng) -> FModel {
    let n = r.range(1, 5);
    let mut ts = Vec::new();
    for _ in 0..r.range(1, 12) {
        let (a, b) = (r.below(n) as u32, r.below(n) as u32);
        // reading nothing only upwards, so that there is no cycle
        let w = some_word(r, if b > a { 0 } else { 1 });
        ts.push(((w, a, b), light(r)));
    }
    if r.chance(1, 4) {
        let mut t = r.pick(&ts).clone();
        t.1 = light(r);
        ts.push(t);
    }
    let fin: Vec<u32> = (0..n as u32).filter(|_| r.chance(1, 2)).collect();
    FModel { init: 0, fin: if fin.is_empty() { vec![r.below(n) as u32] } else { fin }, ts }
}

fn size(r: &mut Rng) -> usize {
    *r.pick(&[30, 63, 64, 65, 127, 130, 255, 256, 257, 300, 400])
}
fn many(r: &mut Rng) -> usize {
    *r.pick(&[100, 257, 513, 1025, 1100, 2049, 4200])
}
fn loss(r: &mut Rng) -> f64 {
    -(r.below(9) as f64) * LN2
}

/// pushdown automata with deep stacks, many transitions or long replacements, and words for them
pub fn big_pda(r: &mut Rng) -> (PModel, Vec<Vec<char>>) {
    match r.below(3) {
        0 => {
            // w | w mirrored
            let syms = r.range(1, 4) as u32;
            let mut ts = vec![((vec!['|'], vec![99], vec![]), 0.0)];
            for s in 1..=syms {
                ts.push(((vec![letter(s as Tm)], vec![99], vec![s, 99]), loss(r)));
                ts.push(((vec![(b'A' + s as u8) as char], vec![s], vec![]), loss(r)));
                if r.chance(1, 2) {
                    let t = 1 + r.below(syms as usize) as u32;
                    ts.push(((vec!['='], vec![s, t], vec![t]), loss(r)));
                }
            }
            let n = size(r);
            let half: Vec<u32> = (0..n).map(|_| 1 + r.below(syms as usize) as u32).collect();
            let mut w: Vec<char> = half.iter().map(|s| letter(*s as Tm)).collect();
            w.push('|');
            w.extend(half.iter().rev().map(|s| (b'A' + *s as u8) as char));
            let mut v = w.clone();
            let i = r.range(n + 1, 2 * n);
            v[i] = if v[i] == 'B' { 'C' } else { 'B' };
            let mut u = w.clone();
            u[n + 1] = '=';
            let mut short = w.clone();
            short.pop();
            (PModel { init: vec![0, 99], ts }, vec![w, v, u, short])
        }
        1 => {
            let k = many(r);
            let mut ts = vec![];
            for i in 0..k as u32 {
                ts.push(((vec!['a'], vec![1], vec![10 + i]), loss(r)));
                if i % 7 != 3 {
                    ts.push(((vec!['b'], vec![10 + i], vec![]), loss(r)));
                }
            }
            (PModel { init: vec![0, 1], ts }, vec![vec!['a', 'b'], vec!['a']])
        }
        _ => {
            // one transition that writes many symbols, one that takes many away
            let k = size(r);
            let new: Vec<u32> = (0..k).map(|_| 1 + r.below(3) as u32).collect();
            let take = r.range(1, k);
            let mut top: Vec<u32> = new[k - take..].to_vec();
            top.reverse();
            let mut ts = vec![((vec!['a'], vec![99], new), loss(r)), ((vec!['b'], top.clone(), vec![]), loss(r))];
            let mut no = top.clone();
            no[take - 1] = 77;
            ts.push(((vec!['b'], no, vec![]), loss(r)));
            for s in 1..4 {
                ts.push(((vec!['c'], vec![s], vec![]), loss(r)));
            }
            let mut w = vec!['a', 'b'];
            w.extend(vec!['c'; k - take]);
            let mut v = vec!['a'];
            v.extend(vec!['c'; k]);
            (PModel { init: vec![0, 99], ts }, vec![w.clone(), v, w[..w.len() - 1].to_vec()])
        }
    }
}

/// tree-stack automata with deep or wide trees or many transitions, and words for them
pub fn big_tsa(r: &mut Rng) -> (TModel, Vec<Vec<char>>) {
    match r.below(3) {
        0 => {
            let n = size(r);
            let child = *r.pick(&[0, 1, 2, 255, 256, 1000]);
            let mut ts = vec![((vec!['a'], TIns::Push(child, 0, 1)), loss(r))];
            for s in 1..4 {
                ts.push(((vec!['a'], TIns::Push(child, s, s % 3 + 1)), loss(r)));
                for t in 0..4 {
                    ts.push(((vec!['b'], TIns::Down(s, t, t)), loss(r)));
                }
                ts.push(((vec!['c'], TIns::Up(child, s % 3, s, s)), loss(r)));
            }
            ts.push(((vec!['c'], TIns::Up(child, 3, 1, 1)), loss(r)));
            let mut w = vec!['a'; n];
            w.extend(vec!['b'; n]);
            let mut v = w.clone();
            v.push('c');
            v.push('b');
            (TModel { init: 0, ts }, vec![w.clone(), v, w[1..].to_vec()])
        }
        1 => {
            let n = size(r);
            let mut kids: Vec<usize> = (0..n).collect();
            if r.chance(1, 2) {
                r.shuffle(&mut kids);
            }
            let mut ts = vec![];
            for (i, k) in kids.iter().enumerate() {
                ts.push(((vec!['a'], TIns::Push(*k, i as u32, 5000)), loss(r)));
                ts.push(((vec!['b'], TIns::Down(5000, i as u32, i as u32 + 1)), loss(r)));
            }
            let back = *r.pick(&kids);
            ts.push(((vec!['c'], TIns::Up(back, n as u32, 5000, 5001)), loss(r)));
            ts.push(((vec!['b'], TIns::Down(5001, n as u32, n as u32)), loss(r)));
            let mut w = vec![];
            for _ in 0..n {
                w.push('a');
                w.push('b');
            }
            let mut v = w.clone();
            v.extend(vec!['c', 'b']);
            (TModel { init: 0, ts }, vec![w, v])
        }
        _ => {
            let k = many(r);
            let mut ts = vec![];
            for i in 0..k as u32 {
                ts.push(((vec!['a'], TIns::Push(if i % 2 == 0 { 1 } else { i as usize }, 0, 10 + i)), loss(r)));
                if i % 7 != 3 {
                    ts.push(((vec!['b'], TIns::Down(10 + i, 0, i)), loss(r)));
                }
            }
            (TModel { init: 0, ts }, vec![vec!['a', 'b'], vec!['a']])
        }
    }
}

/// finite automata with many states, many transitions or transitions that read a lot
pub fn big_fsa(r: &mut Rng) -> (FModel, Vec<Vec<char>>) {
    match r.below(3) {
        0 => {
            let n = many(r).min(2100);
            let mut ts: Vec<(FKey, f64)> = (0..n as u32).map(|i| ((vec![letter((i % 3) as Tm)], i, i + 1), loss(r))).collect();
            for _ in 0..5 {
                // a way around
                let i = r.below(n - 2) as u32;
                ts.push(((vec![letter((i % 3) as Tm), letter(((i + 1) % 3) as Tm)], i, i + 2), loss(r)));
            }
            let w: Vec<char> = (0..n).map(|i| letter((i % 3) as Tm)).collect();
            let k = r.range(1, n - 1);
            (FModel { init: 0, fin: vec![n as u32, k as u32], ts }, vec![w.clone(), w[..k].to_vec(), w[..n - 1].to_vec()])
        }
        1 => {
            let k = many(r);
            let ts = (0..k as u32).map(|i| ((vec!['a'], 0, i), loss(r))).collect();
            let fin = (0..k as u32).filter(|i| i % 7 != 3).collect();
            (FModel { init: 0, fin, ts }, vec![vec!['a'], vec![], vec!['a', 'a']])
        }
        _ => {
            let n = size(r);
            let w: Vec<char> = (0..n).map(|_| letter(r.below(2) as Tm)).collect();
            let mut v = w.clone();
            v[n - 1] = 'z';
            let i = r.below(n);
            let ts = vec![
                ((w.clone(), 0, 1), loss(r)),
                ((v.clone(), 0, 1), loss(r)),
                ((w[..i].to_vec(), 0, 2), loss(r)),
                ((w[i..].to_vec(), 2, 1), loss(r)),
                ((vec![w[0]], 0, 3), loss(r)),
                ((w[1..].to_vec(), 3, 1), loss(r)),
            ];
            let mut ww = w.clone();
            ww.push('a');
            (FModel { init: 0, fin: vec![1], ts }, vec![w.clone(), v, w[..n - 1].to_vec(), ww])
        }
    }
}

const BIG: usize = 20000;

fn big_automaton(ctx: &mut Ctx, r: &mut Rng, sig: &str, kind: usize, beams: bool) {
    ctx.ev("big automata");
    match kind {
        0 => {
            let (m, words) = big_pda(r);
            let m = m.merged();
            let descr = format!("big pushdown automaton: {} transitions, {:?} ...", m.ts.len(), &m.ts[..m.ts.len().min(4)]);
            if let Some(a) = ctx.call(sig, || real_pda(&m), || descr.clone()) {
                automaton_case(ctx, r, sig, &a, &words, &|w| m.runs(w, BIG), &pkey, true, beams, &descr);
            }
        }
        1 => {
            let (m, words) = big_tsa(r);
            let descr = format!("big tree-stack automaton: {} transitions, {:?} ...", m.ts.len(), &m.ts[..m.ts.len().min(4)]);
            if let Some(a) = ctx.call(sig, || real_tsa(&m), || descr.clone()) {
                automaton_case(ctx, r, sig, &a, &words, &|w| m.runs(w, BIG), &tkey, true, beams, &descr);
            }
        }
        _ => {
            let (m, words) = big_fsa(r);
            let descr = format!("big finite automaton: {} transitions, {:?} ...", m.ts.len(), &m.ts[..m.ts.len().min(4)]);
            if let Some(a) = ctx.call(sig, || real_fsa(&m), || descr.clone()) {
                automaton_case(ctx, r, sig, &a, &words, &|w| m.runs(w, BIG), &fkey, true, beams, &descr);
            }
        }
    }
}

/// words that the automaton has a chance to accept: concatenations of what its transitions read
pub fn automaton_words<K>(r: &mut Rng, ts: &[(K, f64)], reads: impl Fn(&K) -> &[char], n: usize) -> Vec<Vec<char>> {
    let mut v = Vec::new();
    for _ in 0..n {
        let mut w = Vec::new();
        for _ in 0..r.below(7) {
            w.extend_from_slice(reads(&r.pick(ts).0));
        }
        w.truncate(7);
        if r.chance(1, 12) {
            let i = r.below(w.len() + 1);
            w.insert(i, 'z');
        }
        v.push(w);
    }
    v
}

// ------------------------------------------------------------------ real automata and their items

pub type RP = PushDownAutomaton<u32, char, W>;
pub type RT = TreeStackAutomaton<u32, char, W>;
pub type RF = FiniteStateAutomaton<u32, char, W>;

fn real_weight(ln: f64) -> W {
    LogDomain::new(ln.exp()).unwrap()
}

pub fn real_pda(m: &PModel) -> RP {
    PushDownAutomaton::new(
        m.ts.iter().map(|((w, c, n), x)| Transition {
            word: w.clone(),
            weight: real_weight(*x),
            instruction: PushDownInstruction::Replace { current_val: c.clone(), new_val: n.clone() },
        }),
        PushDown::from(m.init.clone()),
    )
}
pub fn real_tins(i: &TIns) -> TreeStackInstruction<u32> {
    match *i {
        TIns::Up(n, a, b, c) => TreeStackInstruction::Up { n, current_val: a, old_val: b, new_val: c },
        TIns::Push(n, a, c) => TreeStackInstruction::Push { n, current_val: a, new_val: c },
        TIns::Down(a, b, c) => TreeStackInstruction::Down { current_val: a, old_val: b, new_val: c },
    }
}
pub fn real_tsa(m: &TModel) -> RT {
    TreeStackAutomaton::new(
        m.ts.iter().map(|((w, i), x)| Transition { word: w.clone(), weight: real_weight(*x), instruction: real_tins(i) }),
        TreeStack::new(m.init),
    )
}
pub fn real_fsa(m: &FModel) -> RF {
    let ts: Vec<Transition<FiniteStateInstruction<u32>, char, W>> = m
        .ts
        .iter()
        .map(|((w, a, b), x)| Transition {
            word: w.clone(),
            weight: real_weight(*x),
            instruction: format!("{} → {}", a, b).parse().unwrap(),
        })
        .collect();
    FiniteStateAutomaton::new(ts, m.init, m.fin.clone())
}

fn pkey(t: &Transition<PushDownInstruction<u32>, char, W>) -> PKey {
    let PushDownInstruction::Replace { current_val, new_val } = &t.instruction;
    (t.word.clone(), current_val.clone(), new_val.clone())
}
fn tkey(t: &Transition<TreeStackInstruction<u32>, char, W>) -> TKey {
    (
        t.word.clone(),
        match t.instruction {
            TreeStackInstruction::Up { n, current_val, old_val, new_val } => TIns::Up(n, current_val, old_val, new_val),
            TreeStackInstruction::Push { n, current_val, new_val } => TIns::Push(n, current_val, new_val),
            TreeStackInstruction::Down { current_val, old_val, new_val } => TIns::Down(current_val, old_val, new_val),
        },
    )
}
fn fkey(t: &Transition<FiniteStateInstruction<u32>, char, W>) -> FKey {
    let s = t.instruction.to_string();
    let mut it = s.trim_matches(|c| c == '(' || c == ')').split(" → ").map(|x| x.parse().unwrap());
    (t.word.clone(), it.next().unwrap(), it.next().unwrap())
}

/// What every recognised item must satisfy on its own: the transitions spell the word, their
/// weights multiply to the weight, the instructions lead from the initial storage to the one shown.
fn item_ok<I, A>(a: &A, word: &[char], item: &Item<I::Storage, I, char, W>) -> Result<f64, String>
where
    I: Instruction + Clone + Debug,
    I::Storage: Clone + Debug + PartialEq,
    A: Automaton<char, W, I = I>,
{
    let Item(conf, run) = item;
    let run = run.to_vec();
    let spelled: Vec<char> = run.iter().flat_map(|t| t.word.iter().cloned()).collect();
    if spelled != word {
        return Err(format!("the transitions read {:?}", spelled));
    }
    if !conf.word.is_empty() {
        return Err(format!("a part of the word is left: {:?}", conf.word));
    }
    let w: f64 = run.iter().map(|t| t.weight.ln()).sum();
    if !close(w, conf.weight.ln()) {
        return Err(format!("weight {} but the transitions multiply to {}", conf.weight.ln().exp(), w.exp()));
    }
    let mut s = vec![a.initial()];
    for t in &run {
        s = s.into_iter().flat_map(|x| t.instruction.apply(x)).collect();
    }
    if !s.contains(&conf.storage) {
        return Err(format!("the instructions lead to {:?}, shown is {:?}", s, conf.storage));
    }
    Ok(w)
}

fn judge_items<I, A, K>(
    ctx: &mut Ctx,
    sig: &str,
    a: &A,
    word: &[char],
    items: &[Item<I::Storage, I, char, W>],
    key: impl Fn(&Transition<I, char, W>) -> K,
    detail: &dyn Fn() -> String,
) -> Option<Runs<K>>
where
    I: Instruction + Clone + Debug,
    I::Storage: Clone + Debug + PartialEq,
    A: Automaton<char, W, I = I>,
{
    let mut out = Vec::new();
    for it in items {
        match item_ok(a, word, it) {
            Ok(w) => out.push((it.1.to_vec().iter().map(&key).collect(), w)),
            Err(m) => {
                ctx.violation(&format!("{}:item", sig), format!("{}; {:?}; {}", m, it, detail()));
                return None;
            }
        }
        // following the run again gives the same storage and weight
        let again = a.check_run(it.1.clone());
        ctx.ev("runs followed again");
        if !again.iter().any(|x| x.0.storage == it.0.storage && close(x.0.weight.ln(), it.0.weight.ln()) && x.0.word.is_empty()) {
            ctx.violation(&format!("{}:check-run", sig), format!("check_run gives {:?} for {:?}; {}", again, it, detail()));
            return None;
        }
    }
    Some(out)
}

const CAP: usize = 3000;

fn automaton_case<I, A, K>(
    ctx: &mut Ctx,
    r: &mut Rng,
    sig: &str,
    a: &A,
    words: &[Vec<char>],
    want: &dyn Fn(&[char]) -> Option<(Runs<K>, usize)>,
    key: &dyn Fn(&Transition<I, char, W>) -> K,
    best_first: bool,
    beams: bool,
    descr: &str,
) where
    I: Instruction + Clone + Debug + Eq + 'static,
    I::Storage: Clone + Debug + PartialEq + Eq,
    A: Automaton<char, W, I = I>,
    A::IInt: Ord,
    <A::IInt as Instruction>::Storage: Clone + Eq + Ord,
    A::TInt: Clone + Eq + Ord,
    K: Ord + Debug + Clone + std::hash::Hash,
{
    let mut judged: Vec<Vec<char>> = vec![];
    for word in words {
        let (want, confs) = match want(word) {
            Some(x) => x,
            None => {
                ctx.ev("skipped: too many configurations");
                continue;
            }
        };
        let shown: String = word.iter().take(100).collect();
        let detail = || format!("word {:?}, {}", shown, descr);
        if !beams {
            // another recognition, on a word met before, may go on at the same time
            let other = if judged.is_empty() || r.chance(2, 3) { None } else { Some(r.pick(&judged).clone()) };
            let items = match ctx.call(
                sig,
                || {
                    let mut other = other.as_ref().map(|w| recognise(a, w.clone()));
                    let mut it = recognise(a, word.clone());
                    let mut v = vec![];
                    while v.len() < want.len() + 50 {
                        if let Some(o) = &mut other {
                            o.next();
                        }
                        match it.next() {
                            Some(x) => v.push(x),
                            None => break,
                        }
                    }
                    v.extend(it.take(1));
                    v
                },
                detail,
            ) {
                Some(x) => x,
                None => continue,
            };
            if other.is_some() {
                ctx.ev("recognitions with another one at the same time");
            }
            judged.push(word.clone());
            ctx.eval();
            ctx.ev_n("runs recognised", items.len() as u64);
            ctx.ev(if want.is_empty() { "words rejected" } else { "words accepted" });
            if want.len() > 1 {
                ctx.ev("words with several runs");
                ctx.nontrivial(&(word, descr));
            }
            if let Some(got) = judge_items(ctx, sig, a, word, &items, key, &detail) {
                same_runs(ctx, &format!("{}:runs", sig), &got, &want, &detail);
                if best_first {
                    falling(ctx, &format!("{}:order", sig), &got, &detail);
                }
            }
            ctx.sample(|| format!("{}: {} runs, {} configurations; {}", word.iter().collect::<String>(), want.len(), confs, descr));
        } else {
            let beam = match r.below(6) {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => r.range(1, 10),
                4 => r.range(1, confs.max(2)),
                _ => confs,
            };
            let detail = || format!("beam {}, word {:?}, {}", beam, word.iter().collect::<String>(), descr);
            let items = match ctx.call(sig, || recognise_beam(a, beam, word.clone()).take(want.len() + 50).collect::<Vec<_>>(), detail) {
                Some(x) => x,
                None => continue,
            };
            ctx.eval();
            ctx.ev_n("runs recognised", items.len() as u64);
            if items.len() < want.len() {
                ctx.ev("runs lost to the beam");
                ctx.nontrivial(&(word, descr, beam));
            }
            if let Some(got) = judge_items(ctx, sig, a, word, &items, key, &detail) {
                if beam >= confs {
                    ctx.ev("beam wide enough for all");
                    same_runs(ctx, &format!("{}:wide", sig), &got, &want, &detail);
                } else {
                    sub_runs(ctx, &format!("{}:sound", sig), &got, &want, &detail);
                }
                if beam == 0 {
                    ctx.check(got.is_empty(), &format!("{}:zero", sig), || format!("results with no room; {}", detail()));
                }
                if best_first {
                    falling(ctx, &format!("{}:order", sig), &got, &detail);
                }
            }
            ctx.sample(|| format!("beam {}: {} of {} runs", beam, items.len(), want.len()));
        }
    }
}

/// the automaton lists its transitions, each as often as it has it
fn listed<I, A, K>(ctx: &mut Ctx, sig: &str, a: &A, ts: &[(K, f64)], key: &dyn Fn(&Transition<I, char, W>) -> K, descr: &str) -> bool
where
    I: Instruction + Clone + Debug,
    A: Automaton<char, W, I = I>,
    K: Ord + Debug + Clone,
{
    let got: Runs<K> = a.transitions().map(|t| (vec![key(&t)], t.weight.ln())).collect();
    let want: Runs<K> = ts.iter().map(|t| (vec![t.0.clone()], t.1)).collect();
    ctx.ev_n("transitions listed", got.len() as u64);
    same_runs(ctx, &format!("{}:listed", sig), &got, &want, &|| descr.to_string())
}

fn random_automaton(ctx: &mut Ctx, r: &mut Rng, sig: &str, kind: usize, beams: bool) {
    match kind {
        0 => {
            let m = random_pda(r);
            let words = automaton_words(r, &m.ts, |k| &k.0, 4);
            let mm = m.merged();
            let falls = mm.ts.iter().all(|t| t.1 <= 1e-12);
            let descr = format!("pushdown automaton {:?}", m);
            if let Some(mut a) = ctx.call(sig, || real_pda(&m), || descr.clone()) {
                if !beams {
                    listed(ctx, sig, &a, &mm.ts, &pkey, &descr);
                }
                if !beams && r.chance(1, 3) {
                    // what it lists makes the same automaton again
                    a = <RP as Automaton<char, W>>::from_transitions(a.transitions().collect::<Vec<_>>(), a.initial());
                }
                automaton_case(ctx, r, sig, &a, &words, &|w| mm.runs(w, CAP), &pkey, falls, beams, &descr);
            }
        }
        1 => {
            let m = random_tsa(r);
            let words = automaton_words(r, &m.ts, |k| &k.0, 4);
            let descr = format!("tree-stack automaton {:?}", m);
            if let Some(mut a) = ctx.call(sig, || real_tsa(&m), || descr.clone()) {
                if !beams {
                    listed(ctx, sig, &a, &m.ts, &tkey, &descr);
                }
                if !beams && r.chance(1, 3) {
                    let by_label = RT::transitions(&a);
                    let wrong = by_label.iter().any(|(l, ts)| {
                        ts.iter().any(|t| match t.instruction {
                            TreeStackInstruction::Up { current_val, .. }
                            | TreeStackInstruction::Push { current_val, .. }
                            | TreeStackInstruction::Down { current_val, .. } => current_val != *l,
                        })
                    });
                    ctx.check(!wrong, &format!("{}:by-label", sig), || format!("transitions under a wrong label; {}", descr));
                    let ts: Vec<_> = if r.chance(1, 2) {
                        by_label.into_iter().flat_map(|x| x.1.into_vec()).collect()
                    } else {
                        Automaton::transitions(&a).collect()
                    };
                    a = <RT as Automaton<char, W>>::from_transitions(ts, RT::initial(&a));
                }
                automaton_case(ctx, r, sig, &a, &words, &|w| m.runs(w, CAP), &tkey, true, beams, &descr);
            }
        }
        _ => {
            let m = random_fsa(r);
            let words = automaton_words(r, &m.ts, |k| &k.0, 4);
            let descr = format!("finite automaton {:?}", m);
            if let Some(a) = ctx.call(sig, || real_fsa(&m), || descr.clone()) {
                if !beams {
                    listed(ctx, sig, &a, &m.ts, &fkey, &descr);
                }
                automaton_case(ctx, r, sig, &a, &words, &|w| m.runs(w, CAP), &fkey, true, beams, &descr);
            }
        }
    }
}

// ------------------------------------------------------------------ grammars

pub fn rule_of(r: &Rule) -> PMCFGRule<usize, char, W> {
    PMCFGRule {
        head: r.lhs,
        tail: r.tail.clone(),
        composition: Composition {
            composition: r
                .comps
                .iter()
                .map(|c| {
                    c.iter()
                        .map(|s| match *s {
                            Sym::T(t) => VarT::T(letter(t)),
                            Sym::V(i, j) => VarT::Var(i, j),
                        })
                        .collect()
                })
                .collect(),
        },
        weight: weight(r.exp),
    }
}
pub fn pmcfg_of(g: &Gram) -> PMCFG<usize, char, W> {
    pmcfg_from(g, &[g.init])
}
fn pmcfg_from(g: &Gram, inits: &[usize]) -> PMCFG<usize, char, W> {
    PMCFG { initial: inits.to_vec(), rules: g.rules.iter().map(rule_of).collect() }
}

pub type Rhs = Vec<LetterT<usize, char>>;
fn rhs_of(r: &Rule) -> Rhs {
    r.comps[0]
        .iter()
        .map(|s| match *s {
            Sym::T(t) => LetterT::Value(letter(t)),
            Sym::V(i, _) => LetterT::Label(r.tail[i]),
        })
        .collect()
}
pub fn cfg_of(g: &Gram) -> CFG<usize, char, W> {
    cfg_from(g, &[g.init])
}
fn cfg_from(g: &Gram, inits: &[usize]) -> CFG<usize, char, W> {
    CFG {
        initial: inits.to_vec(),
        rules: g
            .rules
            .iter()
            .map(|r| CFGRule { head: r.lhs, composition: CFGComposition { composition: rhs_of(r) }, weight: weight(r.exp) })
            .collect(),
    }
}

/// no chain of component calls that reads nothing leads back to where it started
pub fn left_acyclic(g: &Gram) -> bool {
    let mut edges: BTreeMap<(usize, usize), BTreeSet<(usize, usize)>> = BTreeMap::new();
    for r in &g.rules {
        for (j, c) in r.comps.iter().enumerate() {
            if let Some(Sym::V(i, k)) = c.first() {
                edges.entry((r.lhs, j)).or_default().insert((r.tail[*i], *k));
            }
        }
    }
    fn visit(n: (usize, usize), e: &BTreeMap<(usize, usize), BTreeSet<(usize, usize)>>, st: &mut HashMap<(usize, usize), u8>) -> bool {
        match st.get(&n) {
            Some(1) => return false,
            Some(_) => return true,
            None => {}
        }
        st.insert(n, 1);
        if let Some(v) = e.get(&n) {
            for m in v {
                if !visit(*m, e, st) {
                    return false;
                }
            }
        }
        st.insert(n, 2);
        true
    }
    let mut st = HashMap::new();
    edges.keys().all(|k| visit(*k, &edges, &mut st))
}

/// Number of configurations a top-down recogniser meets on the word, `None` beyond `cap`.
/// A configuration is the tree of rule instances built so far and the stack of positions.
pub fn top_down_size(g: &Gram, word: &[Tm], cap: usize) -> Option<usize> {
    #[derive(Clone)]
    struct C {
        nodes: Vec<(usize, Vec<Option<usize>>)>, // rule, children
        stack: Vec<(usize, usize, usize)>,       // node, component, position
        pos: usize,
    }
    let mut agenda = Vec::new();
    let mut n = 0;
    for (i, r) in g.rules.iter().enumerate().filter(|(_, r)| r.lhs == g.init) {
        agenda.push(C { nodes: vec![(i, vec![None; r.tail.len()])], stack: vec![(0, 0, 0)], pos: 0 });
    }
    while let Some(mut c) = agenda.pop() {
        n += 1;
        if n > cap {
            return None;
        }
        let (node, comp, p) = match c.stack.pop() {
            None => continue,
            Some(x) => x,
        };
        let rule = &g.rules[c.nodes[node].0];
        match rule.comps.get(comp).and_then(|x| x.get(p)) {
            None => {
                agenda.push(c);
            }
            Some(Sym::T(t)) => {
                if word.get(c.pos) == Some(t) {
                    c.pos += 1;
                    c.stack.push((node, comp, p + 1));
                    agenda.push(c);
                }
            }
            Some(Sym::V(i, j)) => {
                c.stack.push((node, comp, p + 1));
                match c.nodes[node].1[*i] {
                    Some(child) => {
                        c.stack.push((child, *j, 0));
                        agenda.push(c);
                    }
                    None => {
                        for (ri, rr) in g.rules.iter().enumerate().filter(|(_, x)| x.lhs == rule.tail[*i]) {
                            let mut d = c.clone();
                            let id = d.nodes.len();
                            d.nodes.push((ri, vec![None; rr.tail.len()]));
                            d.nodes[node].1[*i] = Some(id);
                            d.stack.push((id, *j, 0));
                            agenda.push(d);
                        }
                    }
                }
            }
        }
    }
    Some(n)
}

pub fn cfg_shape(r: &mut Rng) -> Shape {
    Shape {
        nts: if r.chance(1, 6) { 7 } else { r.range(1, 4) },
        max_fanout: 1,
        terminals: r.range(1, 2),
        max_rules_per_nt: r.range(1, 3),
        max_tail: r.range(1, 3),
        max_terminals: r.range(1, 3),
        distinct_rules: r.chance(3, 4),
        ..Shape::default()
    }
}

pub fn mcfg_shape(r: &mut Rng) -> Shape {
    Shape {
        nts: r.range(1, 4),
        max_fanout: r.range(1, 3),
        terminals: r.range(1, 3),
        max_rules_per_nt: r.range(1, 3),
        max_tail: r.range(1, 3),
        max_terminals: r.range(1, 4),
        ordered: true,
        ..Shape::default()
    }
}

/// the initial nonterminals of a grammar: now and then several
fn some_inits(r: &mut Rng, g: &Gram) -> Vec<usize> {
    let mut v = vec![g.init];
    if r.chance(1, 4) {
        v.extend((0..g.fanout.len()).filter(|n| g.fanout[*n] == 1 && *n != g.init));
        r.shuffle(&mut v);
        if r.chance(1, 2) {
            v.truncate(r.range(1, v.len()));
        }
    }
    v
}
fn starting(g: &Gram, init: usize) -> Gram {
    Gram { init, ..g.clone() }
}
/// configurations met with several initial nonterminals
fn top_down_sum(g: &Gram, inits: &[usize], word: &[Tm], cap: usize) -> Option<usize> {
    let mut n = 0;
    for i in inits {
        n += top_down_size(&starting(g, *i), word, cap)?;
    }
    if n > cap {
        None
    } else {
        Some(n)
    }
}

/// Words of the language up to a length, and others; each with its derivations.
pub fn words_of(r: &mut Rng, g: &Gram, max: usize, n_in: usize, n_out: usize) -> Vec<(Vec<Tm>, Vec<Rc<Deriv>>)> {
    words_from(r, g, &[g.init], max, n_in, n_out)
}
fn words_from(r: &mut Rng, g: &Gram, inits: &[usize], max: usize, n_in: usize, n_out: usize) -> Vec<(Vec<Tm>, Vec<Rc<Deriv>>)> {
    let mut lang: BTreeMap<Vec<Tm>, Vec<Rc<Deriv>>> = BTreeMap::new();
    for i in inits {
        let h = starting(g, *i);
        let mut en = Enum::new(&h, 3000);
        for (w, ds) in en.language(max) {
            lang.entry(w).or_default().extend(ds);
        }
        if en.overflow {
            return vec![];
        }
    }
    let mut keys: Vec<&Vec<Tm>> = lang.keys().collect();
    keys.sort_by_key(|w| (usize::from(lang[*w].len() > 1), w.len()));
    let mut out = Vec::new();
    for k in 0..n_in.min(keys.len()) {
        // ambiguous and long ones first, the others at random
        let w = if k < n_in / 2 { keys[keys.len() - 1 - k] } else { *r.pick(&keys) };
        out.push((w.clone(), lang[w].clone()));
    }
    for _ in 0..n_out {
        let w: Vec<Tm> = match (keys.is_empty(), r.below(4)) {
            (false, 0) => {
                let mut w = (*r.pick(&keys)).clone();
                if !w.is_empty() {
                    let i = r.below(w.len());
                    if r.chance(1, 2) {
                        w.remove(i);
                    } else {
                        w[i] = r.below(3) as Tm;
                    }
                }
                w
            }
            (false, 1) => {
                let mut w = (*r.pick(&keys)).clone();
                w.push(r.below(4) as Tm);
                w
            }
            _ => (0..r.range(0, max)).map(|_| r.below(3) as Tm).collect(),
        };
        if w.len() > max {
            continue;
        }
        let d = lang.get(&w).cloned().unwrap_or_default();
        out.push((w, d));
    }
    out
}

/// rules applied in a leftmost derivation, in the order of their application
fn leftmost(g: &Gram, d: &Deriv, out: &mut Vec<(usize, Rhs)>) {
    let r = &g.rules[d.rule];
    out.push((r.lhs, rhs_of(r)));
    for s in &r.comps[0] {
        if let Sym::V(i, _) = s {
            leftmost(g, &d.children[*i], out);
        }
    }
}

pub fn merged_weights(g: &Gram) -> BTreeMap<(usize, Rhs), f64> {
    let mut m = BTreeMap::new();
    for r in &g.rules {
        *m.entry((r.lhs, rhs_of(r))).or_insert(0.0) += r.weight();
    }
    m
}

/// Number of leftmost sentential forms that weigh at least `min` and agree with the word, `None`
/// beyond `cap`.  A search for the heaviest derivations sees no others before it has found all
/// that weigh `min`.
fn heavy_size(g: &Gram, word: &[Tm], min: f64, cap: usize) -> Option<usize> {
    let rules: Vec<((usize, Vec<Sym2>), f64)> = merged_weights(g)
        .into_iter()
        .map(|((n, rhs), w)| {
            let rhs = rhs
                .into_iter()
                .rev()
                .map(|l| match l {
                    LetterT::Label(n) => Sym2::N(n),
                    LetterT::Value(t) => Sym2::T(t),
                })
                .collect();
            ((n, rhs), w.ln())
        })
        .collect();
    let word = text(word);
    let mut n = 0;
    let mut agenda = vec![(vec![Sym2::N(g.init)], 0usize, 0.0f64)];
    while let Some((mut st, mut pos, w)) = agenda.pop() {
        n += 1;
        if n > cap {
            return None;
        }
        let mut dead = false;
        while let Some(Sym2::T(t)) = st.last() {
            if word.get(pos) != Some(t) {
                dead = true;
                break;
            }
            pos += 1;
            st.pop();
            n += 1;
        }
        if dead {
            continue;
        }
        if let Some(Sym2::N(x)) = st.pop() {
            for ((lhs, rhs), v) in &rules {
                if *lhs == x && w + v >= min - 1e-9 {
                    let mut s2 = st.clone();
                    s2.extend(rhs.iter().cloned());
                    agenda.push((s2, pos, w + v));
                }
            }
        }
    }
    Some(n)
}
#[derive(Clone)]
enum Sym2 {
    N(usize),
    T(char),
}

/// the leftmost derivation told by a run of the automaton made from a CFG
fn told(run: &[Transition<PushDownInstruction<PushState<usize, char>>, char, W>]) -> Vec<(usize, Rhs)> {
    let mut v = Vec::new();
    for t in run {
        let PushDownInstruction::Replace { current_val, new_val } = &t.instruction;
        if let (Some(PushState::Nt(a)), 1) = (current_val.first(), current_val.len()) {
            let rhs = new_val
                .iter()
                .rev()
                .filter_map(|s| match s {
                    PushState::Nt(n) => Some(LetterT::Label(*n)),
                    PushState::T(t) => Some(LetterT::Value(*t)),
                    _ => None,
                })
                .collect();
            v.push((*a, rhs));
        }
    }
    v
}

pub type DRuns = Runs<(usize, Rhs)>;

pub fn cfg_want(g: &Gram, ds: &[Rc<Deriv>]) -> DRuns {
    let m = merged_weights(g);
    // rules that differ in nothing but their weight are one
    let mut set: BTreeMap<Vec<(usize, Rhs)>, f64> = BTreeMap::new();
    for d in ds {
        let mut v = Vec::new();
        leftmost(g, d, &mut v);
        let w = v.iter().map(|x| m[x].ln()).sum();
        set.insert(v, w);
    }
    set.into_iter().collect()
}

pub fn c21(ctx: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 1000) {
        return big_automaton(ctx, r, "C21:big", 0, false);
    }
    if r.chance(1, 3) {
        return random_automaton(ctx, r, "C21:pda", 0, false);
    }
    let sh = cfg_shape(r);
    let g = generate(r, &sh);
    let complete = left_acyclic(&g);
    let strict = complete || merged_weights(&g).values().all(|w| *w < 0.9);
    if !complete && !strict {
        ctx.ev("skipped: left recursion without loss");
        return;
    }
    let falls = merged_weights(&g).values().all(|w| *w <= 1.0 + 1e-12);
    let max = if ctx.tier_thorough { 7 } else { 6 };
    let inits = some_inits(r, &g);
    if inits.len() > 1 {
        ctx.ev("grammars with several initial nonterminals");
    }
    let words = words_from(r, &g, &inits, max, 4, 3);
    let descr = format!("initial {:?}, grammar {:?}", inits, g);
    let a = match ctx.call("C21:from", || PushDownAutomaton::from(cfg_from(&g, &inits)), || descr.clone()) {
        Some(a) => a,
        None => return,
    };
    for (w, ds) in words {
        if complete {
            if top_down_sum(&g, &inits, &w, CAP).is_none() {
                ctx.ev("skipped: too many configurations");
                continue;
            }
        }
        let want = cfg_want(&g, &ds);
        if !complete {
            let min = want.iter().fold(0.0f64, |m, x| m.min(x.1));
            if want.is_empty() || !falls || inits.iter().any(|i| heavy_size(&starting(&g, *i), &w, min, CAP / inits.len()).is_none()) {
                ctx.ev("skipped: left recursion");
                continue;
            }
        }
        let word = text(&w);
        let detail = || format!("word {:?}, {}", show(&w), descr);
        // with left recursion the search has no end, but it finds what there is
        let limit = if complete { want.len() + 20 } else { want.len() };
        let items: Vec<_> = match ctx.call("C21:recognise", || a.recognise(word.clone()).take(limit).collect(), detail) {
            Some(v) => v,
            None => continue,
        };
        ctx.eval();
        ctx.ev_n("derivations recognised", items.len() as u64);
        ctx.ev(if want.is_empty() { "words rejected" } else { "words accepted" });
        if !complete {
            ctx.ev("words of left-recursive grammars");
        }
        if want.len() > 1 {
            ctx.ev("ambiguous words");
            ctx.nontrivial(&(&w, &g));
        }
        let mut got: DRuns = Vec::new();
        let mut ok = true;
        for it in &items {
            match item_ok(&a, &word, it) {
                Ok(x) => got.push((told(&it.1.to_vec()), x)),
                Err(m) => {
                    ctx.violation("C21:item", format!("{}; {:?}; {}", m, it, detail()));
                    ok = false;
                    break;
                }
            }
        }
        if ok {
            same_runs(ctx, "C21:derivations", &got, &want, &detail);
            if falls {
                falling(ctx, "C21:order", &got, &detail);
            }
        }
        ctx.sample(|| format!("{}: {} derivations of {}", show(&w), want.len(), descr));
    }
}

type PosT = PosState<PMCFGRule<usize, char, W>>;

fn ast_nodes(g: &[PMCFGRule<usize, char, W>], t: &GornTree<PMCFGRule<usize, char, W>>) -> Vec<(Vec<usize>, usize)> {
    t.into_iter().map(|(a, r)| (a.clone(), g.iter().position(|x| x == r).unwrap_or(usize::MAX))).collect()
}

/// the derivations; rules that differ only in their weights are told apart by them alone
fn tsa_want(g: &Gram, ds: &[Rc<Deriv>]) -> Runs<(Vec<usize>, usize)> {
    let same = |a: &Rule, b: &Rule| a.lhs == b.lhs && a.tail == b.tail && a.comps == b.comps;
    let first = |i: usize| g.rules.iter().position(|x| same(x, &g.rules[i])).unwrap();
    ds.iter().map(|d| (d.nodes().into_iter().map(|(a, i)| (a, first(i))).collect(), -f64::from(d.exp(g)) * LN2)).collect()
}

/// now and then, rules once more, with other weights or the same
fn with_twins(ctx: &mut Ctx, r: &mut Rng, g: &mut Gram) {
    if r.chance(1, 5) {
        for _ in 0..r.range(1, 2) {
            let mut x = r.pick(&g.rules).clone();
            x.exp = r.below(4) as u32;
            let at = r.below(g.rules.len() + 1);
            g.rules.insert(at, x);
        }
    }
    if !distinct(g) {
        ctx.ev("grammars with a rule in two weights");
    }
}

/// the final tree stack by the model
fn follow(init: PosT, run: &[Transition<TreeStackInstruction<PosT>, char, W>]) -> Option<TStore<PosT>> {
    let mut s = TStore::new(init);
    for t in run {
        s = match &t.instruction {
            TreeStackInstruction::Up { n, current_val, old_val, new_val } => s.up(*n, current_val, old_val, new_val)?,
            TreeStackInstruction::Push { n, current_val, new_val } => s.push(*n, current_val, new_val)?,
            TreeStackInstruction::Down { current_val, old_val, new_val } => s.down(current_val, old_val, new_val)?,
        };
    }
    Some(s)
}

pub fn distinct(g: &Gram) -> bool {
    let s: BTreeSet<_> = g.rules.iter().map(|r| (r.lhs, &r.tail, &r.comps)).collect();
    s.len() == g.rules.len()
}

/// In whatever order the components of a nonterminal are asked for, those of its successors are
/// to be asked for in the order in which they are written: the construction relies on that.
/// Where that is not so, the components are asked for from the first to the last.
fn in_written_order(g: &mut Gram) {
    // components of successor i, visiting the components of the rule in an order
    fn visits(r: &Rule, order: &[usize], i: usize) -> Vec<usize> {
        let mut v = Vec::new();
        for c in order {
            if let Some(c) = r.comps.get(*c) {
                v.extend(c.iter().filter_map(|s| match s {
                    Sym::V(k, j) if *k == i => Some(*j),
                    _ => None,
                }));
            }
        }
        v
    }
    let straight = |r: &Rule| (0..r.comps.len()).collect::<Vec<_>>();
    for x in 0..g.rules.len() {
        for i in 0..g.rules[x].tail.len() {
            let order = visits(&g.rules[x], &straight(&g.rules[x]), i);
            let ok = g
                .rules
                .iter()
                .filter(|y| y.lhs == g.rules[x].tail[i])
                .all(|y| (0..y.tail.len()).all(|k| visits(y, &order, k) == visits(y, &straight(y), k)));
            if !ok {
                let mut next = 0;
                for s in g.rules[x].comps.iter_mut().flatten() {
                    if let Sym::V(k, j) = s {
                        if *k == i {
                            *j = next;
                            next += 1;
                        }
                    }
                }
            }
        }
    }
}

pub fn c22(ctx: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 3) {
        return random_automaton(ctx, r, "C22:tsa", 1, false);
    }
    let mut sh = mcfg_shape(r);
    let free = r.chance(1, 3);
    if free {
        // components asked for in any order
        sh.ordered = false;
        sh.max_fanout = r.range(2, 5);
    }
    if r.chance(1, 6) {
        sh.max_tail = 5;
        sh.max_fanout = if free { 5 } else { r.range(1, 5) };
        sh.nts = 6;
        sh.recursive = false;
    }
    let mut g = generate(r, &sh);
    if free {
        in_written_order(&mut g);
    }
    with_twins(ctx, r, &mut g);
    let sorted = |r: &Rule| {
        (0..r.tail.len()).all(|i| {
            let v: Vec<usize> = r.comps.iter().flatten().filter_map(|s| if let Sym::V(k, j) = s { Some((*k, *j)) } else { None }).filter(|x| x.0 == i).map(|x| x.1).collect();
            v.windows(2).all(|p| p[0] < p[1])
        })
    };
    if !g.rules.iter().all(sorted) {
        ctx.ev("grammars with components out of order");
    }
    let inits = some_inits(r, &g);
    if inits.len() > 1 {
        ctx.ev("grammars with several initial nonterminals");
    }
    if r.chance(1, 6) {
        // a nonterminal without rules
        let i = r.below(g.fanout.len());
        g.rules.retain(|x| x.lhs != i);
        ctx.ev("grammars with a nonterminal without rules");
    }
    if !left_acyclic(&g) {
        ctx.ev("skipped: left recursion");
        return;
    }
    let max = if sh.max_fanout > 3 || sh.max_tail > 3 {
        9
    } else if ctx.tier_thorough {
        7
    } else {
        6
    };
    let words = words_from(r, &g, &inits, max, 4, 3);
    judge_mcfg(ctx, &g, &inits, words);
}

/// ε-derivations included
pub fn c22_eps(ctx: &mut Ctx, r: &mut Rng) {
    let sh = Shape { epsilon: true, recursive: false, ordered: true, max_terminals: 4, terminals: 2, max_fanout: 3, ..Shape::default() };
    let mut g = generate(r, &sh);
    with_twins(ctx, r, &mut g);
    let mut over = false;
    let all = kit::gram::all_derivs(&g, g.init, 300, &mut over);
    if over {
        return;
    }
    let mut lang: BTreeMap<Vec<Tm>, Vec<Rc<Deriv>>> = BTreeMap::new();
    for (d, t) in all {
        lang.entry(t[0].clone()).or_default().push(d);
    }
    let mut words: Vec<(Vec<Tm>, Vec<Rc<Deriv>>)> = lang.iter().filter(|(k, _)| k.len() < 12).take(6).map(|(k, v)| (k.clone(), v.clone())).collect();
    for _ in 0..3 {
        let n = r.below(6);
        let w: Vec<Tm> = (0..n).map(|_| r.below(2) as Tm).collect();
        let d = lang.get(&w).cloned().unwrap_or_default();
        words.push((w, d));
    }
    ctx.ev("grammars with empty components");
    judge_mcfg(ctx, &g, &[g.init], words);
}

fn judge_mcfg(ctx: &mut Ctx, g: &Gram, inits: &[usize], words: Vec<(Vec<Tm>, Vec<Rc<Deriv>>)>) {
    let descr = format!("initial {:?}, grammar {:?}", inits, g);
    let rules: Vec<_> = g.rules.iter().map(rule_of).collect();
    let a = match ctx.call("C22:from", || TreeStackAutomaton::from(pmcfg_from(g, inits)), || descr.clone()) {
        Some(a) => a,
        None => return,
    };
    for (w, ds) in words {
        if top_down_sum(g, inits, &w, CAP).is_none() {
            ctx.ev("skipped: too many configurations");
            continue;
        }
        let want = tsa_want(g, &ds);
        let word = text(&w);
        let detail = || format!("word {:?}, {}", show(&w), descr);
        let mut items: Vec<_> = match ctx.call("C22:recognise", || a.recognise(word.clone()).take(want.len() + 20).collect(), detail) {
            Some(v) => v,
            None => continue,
        };
        ctx.eval();
        ctx.ev_n("derivations recognised", items.len() as u64);
        ctx.ev(if want.is_empty() { "words rejected" } else { "words accepted" });
        if want.len() > 1 {
            ctx.ev("ambiguous words");
        }
        if ds.iter().any(|d| d.nodes().iter().any(|n| g.rules[n.1].tail.len() > 3)) {
            ctx.ev("derivations with four or more successors");
        }
        if ds.iter().any(|d| d.nodes().iter().any(|n| g.rules[n.1].comps.len() > 3)) {
            ctx.ev("derivations with four or more components");
        }
        if ds.iter().any(|d| d.nodes().iter().any(|n| g.rules[n.1].comps.len() > 1)) {
            ctx.ev("discontinuous derivations");
            ctx.nontrivial(&(&w, &g));
        }
        // the empty run is no derivation
        if w.is_empty() {
            let n = items.len();
            items.retain(|it| !it.1.is_empty());
            if items.len() != n {
                ctx.violation("C22:empty-word", format!("the empty word is accepted without reading anything; {}", detail()));
            }
        }
        let mut got = Vec::new();
        let mut ok = true;
        for it in &items {
            let x = match item_ok(&a, &word, it) {
                Ok(x) => x,
                Err(m) => {
                    ctx.violation("C22:item", format!("{}; {:?}; {}", m, it, detail()));
                    ok = false;
                    break;
                }
            };
            let (tree, at) = it.0.storage.to_tree();
            let model = follow(PosState::Initial, &it.1.to_vec());
            let shown = TStore { tree: (&tree).into_iter().map(|(k, v)| (k.clone(), v.clone())).collect(), at };
            if model.as_ref() != Some(&shown) {
                ctx.violation("C22:storage", format!("storage {:?}, by the model {:?}; {}", shown, model, detail()));
                ok = false;
                break;
            }
            match guarded(|| to_abstract_syntax_tree(it.0.storage.to_tree())) {
                Ok(t) => got.push((ast_nodes(&rules, &t), x)),
                Err(m) => {
                    ctx.violation("C22:ast", format!("{}; {}", m, detail()));
                    ok = false;
                    break;
                }
            }
        }
        if ok {
            same_runs(ctx, "C22:derivations", &got, &want, &detail);
            falling(ctx, "C22:order", &got, &detail);
        }
        ctx.sample(|| format!("{}: {} derivations of {}", show(&w), want.len(), descr));
    }
}

pub fn c22_all(ctx: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 1000) {
        return big_automaton(ctx, r, "C22:big", 1, false);
    }
    if r.chance(1, 4) {
        c22_eps(ctx, r)
    } else {
        c22(ctx, r)
    }
}

pub fn c23(ctx: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 1000) {
        return big_automaton(ctx, r, "C23:big", 2, false);
    }
    random_automaton(ctx, r, "C23:fsa", 2, false)
}

// ------------------------------------------------------------------ beams

pub fn c24(ctx: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 1000) {
        let k = r.below(3);
        return big_automaton(ctx, r, "C24:big", k, true);
    }
    match r.below(6) {
        k @ 0..=2 => random_automaton(ctx, r, "C24:beam", k, true),
        3 | 4 => {
            let sh = mcfg_shape(r);
            let g = generate(r, &sh);
            if !distinct(&g) || !left_acyclic(&g) {
                return;
            }
            let words = words_of(r, &g, 6, 4, 1);
            let rules: Vec<_> = g.rules.iter().map(rule_of).collect();
            let a = TreeStackAutomaton::from(pmcfg_of(&g));
            for (w, ds) in words {
                let n = match top_down_size(&g, &w, CAP) {
                    Some(n) if !w.is_empty() => n,
                    _ => continue,
                };
                let beam = *r.pick(&[0, 1, 2, 3, 5, 8, 20, 2 * n + 10]);
                let descr = format!("beam {}, word {:?}, grammar {:?}", beam, show(&w), g);
                let items: Vec<_> = match ctx.call("C24:tsa", || a.recognise_beam_search(beam, text(&w)).take(ds.len() + 20).collect(), || descr.clone()) {
                    Some(v) => v,
                    None => continue,
                };
                ctx.eval();
                let mut got = Vec::new();
                for it in &items {
                    if let Err(m) = item_ok(&a, &text(&w), it) {
                        ctx.violation("C24:item", format!("{}; {}", m, descr));
                        return;
                    }
                    got.push((ast_nodes(&rules, &to_abstract_syntax_tree(it.0.storage.to_tree())), it.0.weight.ln()));
                }
                judge_beam(ctx, beam > 2 * n, beam, &got, &tsa_want(&g, &ds), &descr);
            }
        }
        _ => {
            let sh = cfg_shape(r);
            let g = generate(r, &sh);
            if !left_acyclic(&g) {
                return;
            }
            let words = words_of(r, &g, 6, 4, 1);
            let a = PushDownAutomaton::from(cfg_of(&g));
            for (w, ds) in words {
                let n = match top_down_size(&g, &w, CAP) {
                    Some(n) => n,
                    _ => continue,
                };
                let beam = *r.pick(&[0, 1, 2, 3, 5, 8, 20, 2 * n + 10]);
                let descr = format!("beam {}, word {:?}, grammar {:?}", beam, show(&w), g);
                let items: Vec<_> = match ctx.call("C24:pda", || a.recognise_beam_search(beam, text(&w)).take(ds.len() + 20).collect(), || descr.clone()) {
                    Some(v) => v,
                    None => continue,
                };
                ctx.eval();
                let mut got = Vec::new();
                for it in &items {
                    if let Err(m) = item_ok(&a, &text(&w), it) {
                        ctx.violation("C24:item", format!("{}; {}", m, descr));
                        return;
                    }
                    got.push((told(&it.1.to_vec()), it.0.weight.ln()));
                }
                judge_beam(ctx, beam > 2 * n, beam, &got, &cfg_want(&g, &ds), &descr);
            }
        }
    }
}

fn judge_beam<K: Ord + Debug + Clone>(ctx: &mut Ctx, wide: bool, beam: usize, got: &Runs<K>, want: &Runs<K>, descr: &str) {
    let detail = || descr.to_string();
    ctx.ev_n("runs recognised", got.len() as u64);
    if got.len() < want.len() {
        ctx.ev("runs lost to the beam");
        ctx.nontrivial(descr);
    }
    if wide {
        ctx.ev("beam wide enough for all");
        same_runs(ctx, "C24:wide", got, want, &detail);
    } else {
        sub_runs(ctx, "C24:sound", got, want, &detail);
    }
    if beam == 0 {
        ctx.check(got.is_empty(), "C24:zero", || format!("results with no room; {}", descr));
    }
}

// ------------------------------------------------------------------ approximations

/// Runs of an automaton and of its approximation on one word, with how one relates to the other.
fn judge_approx<S, A1, A2, I1, I2>(
    ctx: &mut Ctx,
    sig: &str,
    strat: S,
    a: &A1,
    words: &[Vec<char>],
    fine: &dyn Fn(&[char]) -> Option<usize>,
    coarse_size: &dyn Fn(&[char]) -> Option<usize>,
    descr: &str,
) where
    S: ApproximationStrategy<char, W, I1 = I1, I2 = I2, A1 = A1, A2 = A2>,
    A1: Automaton<char, W, I = I1>,
    A2: Automaton<char, W, I = I2>,
    I1: Instruction + Clone + Debug + Eq + Ord,
    I2: Instruction + Clone + Debug + Eq + Ord,
    I1::Storage: Clone + Debug + PartialEq + Eq,
    I2::Storage: Clone + Debug + PartialEq + Eq,
    A1::IInt: Ord,
    <A1::IInt as Instruction>::Storage: Clone + Eq + Ord,
    A1::TInt: Clone + Eq + Ord,
    A2::IInt: Ord,
    <A2::IInt as Instruction>::Storage: Clone + Eq + Ord,
    A2::TInt: Clone + Eq + Ord,
{
    let d0 = || descr.to_string();
    let (b, inst) = match ctx.call(&format!("{}:approximate", sig), || strat.approximate_automaton(a), d0) {
        Some(x) => x,
        None => return,
    };
    for word in words {
        let shown: String = word.iter().take(100).collect();
        let detail = || format!("word {:?}, {}", shown, descr);
        let (nf, nc) = match (fine(word), coarse_size(word)) {
            (Some(x), Some(y)) => (x, y),
            _ => {
                ctx.ev("skipped: too many configurations");
                continue;
            }
        };
        let runs1 = match ctx.call(&format!("{}:fine", sig), || recognise(a, word.clone()).take(nf + 20).collect::<Vec<_>>(), detail) {
            Some(x) => x,
            None => continue,
        };
        let runs2 = match ctx.call(&format!("{}:coarse", sig), || recognise(&b, word.clone()).take(nc + 20).collect::<Vec<_>>(), detail) {
            Some(x) => x,
            None => continue,
        };
        ctx.eval();
        ctx.ev_n("fine runs", runs1.len() as u64);
        ctx.ev_n("coarse runs", runs2.len() as u64);
        if runs2.len() > runs1.len() || !runs1.is_empty() {
            ctx.nontrivial(&(word, descr));
        }
        let mut refined: Vec<Vec<Vec<Transition<I1, char, W>>>> = Vec::new();
        for it in &runs2 {
            if let Err(m) = item_ok(&b, word, it) {
                ctx.violation(&format!("{}:coarse-item", sig), format!("{}; {:?}; {}", m, it, detail()));
                return;
            }
            let back = inst.unapproximate_run(it.1.clone());
            let t2 = it.1.to_vec();
            let back: Vec<Vec<_>> = back.into_iter().map(|x| x.to_vec()).collect();
            ctx.ev_n("runs refined", back.len() as u64);
            for x in &back {
                let same = x.len() == t2.len()
                    && x.iter().zip(&t2).all(|(f, c)| f.word == c.word && inst.approximate_instruction(&f.instruction) == c.instruction);
                if !ctx.check(same, &format!("{}:refined", sig), || format!("refining {:?} gives {:?}; {}", t2, x, detail())) {
                    return;
                }
            }
            refined.push(back);
        }
        for it in &runs1 {
            let t1 = it.1.to_vec();
            // storage along the run: what the fine instruction does, the coarse one can do as well
            let mut s = vec![a.initial()];
            for t in &t1 {
                let mut next = Vec::new();
                for x in s {
                    let cx = inst.approximate_storage(x.clone());
                    let reach = inst.approximate_instruction(&t.instruction).apply(cx);
                    for y in t.instruction.apply(x) {
                        let cy = inst.approximate_storage(y.clone());
                        ctx.ev("steps simulated");
                        if !ctx.check(reach.contains(&cy), &format!("{}:step", sig), || {
                            format!("{:?} leads to {:?} which the approximation does not reach; {}", t.instruction, y, detail())
                        }) {
                            return;
                        }
                        next.push(y);
                    }
                }
                s = next;
            }
            // the image of the run is a run of the approximation, not lighter, and leads back
            let image: Vec<(Vec<char>, I2)> = t1.iter().map(|t| (t.word.clone(), inst.approximate_instruction(&t.instruction))).collect();
            let hit = runs2.iter().position(|c| {
                let v = c.1.to_vec();
                v.len() == image.len() && v.iter().zip(&image).all(|(x, y)| x.word == y.0 && x.instruction == y.1)
            });
            match hit {
                None => {
                    ctx.violation(&format!("{}:lost", sig), format!("the approximation has no run for {:?}; {}", t1, detail()));
                    return;
                }
                Some(i) => {
                    let wc = runs2[i].0.weight.ln();
                    ctx.check(wc >= it.0.weight.ln() - 1e-9, &format!("{}:weight", sig), || {
                        format!("coarse weight {} below the weight {} of {:?}; {}", wc.exp(), it.0.weight.ln().exp(), t1, detail())
                    });
                    let found = refined[i].iter().any(|x| {
                        x.len() == t1.len() && x.iter().zip(&t1).all(|(p, q)| p == q && close(p.weight.ln(), q.weight.ln()))
                    });
                    ctx.check(found, &format!("{}:back", sig), || {
                        format!("refining its approximation does not give {:?} back; {}", t1, detail())
                    });
                }
            }
        }
        ctx.sample(|| format!("{:?}: {} fine, {} coarse runs; {}", word, runs1.len(), runs2.len(), descr));
    }
}

pub fn tsa_to_pda(m: &TModel) -> PModel {
    PModel {
        init: vec![m.init],
        ts: m
            .ts
            .iter()
            .map(|((w, i), x)| {
                let (c, n) = match *i {
                    TIns::Up(_, a, _, c) | TIns::Push(_, a, c) => (vec![a], vec![a, c]),
                    TIns::Down(a, b, c) => (vec![a, b], vec![c]),
                };
                ((w.clone(), c, n), *x)
            })
            .collect(),
    }
}

/// how many runs refine the runs of a coarse automaton
pub fn cross(coarse: &Runs<PKey>, mult: &dyn Fn(&PKey) -> usize) -> usize {
    coarse.iter().map(|(ks, _)| ks.iter().fold(1usize, |a, k| a.saturating_mul(mult(k)))).fold(0, |a: usize, b| a.saturating_add(b))
}

fn classes_for(r: &mut Rng, n: usize) -> Vec<u32> {
    let k = r.range(1, n.max(1));
    (0..n).map(|_| 100 + r.below(k) as u32).collect()
}

pub fn coarse_gram(g: &Gram, cls: &[usize]) -> Gram {
    let k = cls.iter().max().unwrap() + 1;
    let mut seen = BTreeSet::new();
    let mut rules = Vec::new();
    for r in &g.rules {
        // the variables in the order in which they occur: that is what the right side shows
        let order: Vec<usize> = r.comps[0].iter().filter_map(|s| if let Sym::V(i, _) = s { Some(*i) } else { None }).collect();
        let tail: Vec<usize> = order.iter().map(|i| cls[r.tail[*i]]).collect();
        let mut n = 0;
        let comp: Vec<Sym> = r.comps[0]
            .iter()
            .map(|s| match s {
                Sym::V(_, _) => {
                    n += 1;
                    Sym::V(n - 1, 0)
                }
                t => t.clone(),
            })
            .collect();
        if seen.insert((cls[r.lhs], tail.clone(), comp.clone())) {
            rules.push(Rule { lhs: cls[r.lhs], tail, comps: vec![comp], exp: 0 });
        }
    }
    Gram { fanout: vec![1; k], rules, init: cls[g.init] }
}

/// number of coarse derivations of the word and an upper bound of the runs that refine them
pub fn coarse_cost(g: &Gram, cls: &[usize], w: &[Tm], cap: usize) -> Option<(usize, usize)> {
    let c = coarse_gram(g, cls);
    if !left_acyclic(&c) {
        return None;
    }
    top_down_size(&c, w, cap)?;
    let mut en = Enum::new(&c, cap);
    let ds: Vec<Rc<Deriv>> = en.derivs(c.init, w.len()).iter().filter(|(_, t)| t[0] == w).map(|(d, _)| d.clone()).collect();
    if en.overflow {
        return None;
    }
    let rhs = |r: &Rule| -> (usize, Vec<LetterT<usize, char>>) { (r.lhs, rhs_of(r)) };
    let mut mult: BTreeMap<(usize, Rhs), usize> = BTreeMap::new();
    let mut fine: BTreeSet<(usize, Rhs)> = BTreeSet::new();
    for r in &g.rules {
        if fine.insert(rhs(r)) {
            let key = (
                cls[r.lhs],
                rhs_of(r)
                    .into_iter()
                    .map(|l| match l {
                        LetterT::Label(n) => LetterT::Label(cls[n]),
                        x => x,
                    })
                    .collect(),
            );
            *mult.entry(key).or_insert(0) += 1;
        }
    }
    let mut total = 0usize;
    for d in &ds {
        let mut v = Vec::new();
        leftmost(&c, d, &mut v);
        total = total.saturating_add(v.iter().fold(1usize, |a, k| a.saturating_mul(mult[k])));
    }
    if total > cap {
        return None;
    }
    Some((ds.len(), total))
}

/// pushdown automata with deep stacks, long replacements or many transitions, and classes of their symbols
fn big_classes(r: &mut Rng) -> (PModel, Vec<Vec<char>>, BTreeMap<u32, u32>) {
    if r.chance(1, 2) {
        let k = *r.pick(&[100, 257, 300, 520]);
        let c = k / r.range(2, 4);
        let mut ts = vec![];
        let mut cls = BTreeMap::new();
        for i in 0..k as u32 {
            let s = 10 + i;
            cls.insert(s, 1000 + r.below(c) as u32);
            ts.push(((vec!['a'], vec![1], vec![s]), loss(r)));
            if i % 7 != 3 {
                ts.push(((vec!['b'], vec![s], vec![]), loss(r)));
            }
        }
        return (PModel { init: vec![0, 1], ts }, vec![vec!['a', 'b'], vec!['a']], cls);
    }
    let (m, words) = loop {
        let x = big_pda(r);
        if x.0.ts.len() < 50 {
            break x;
        }
    };
    let c = r.range(1, 3);
    let cls = (1..99).map(|x| (x, 1000 + r.below(c) as u32)).collect();
    (m, words, cls)
}

fn big_approx(ctx: &mut Ctx, r: &mut Rng, ctf: bool) {
    if r.chance(1, 2) {
        let (m, words, cls) = big_classes(r);
        let f = |x: &u32| cls.get(x).cloned().unwrap_or(*x);
        let mm = m.merged();
        let all = mm.map(&|x| f(&x));
        let mc = all.merged();
        let mult: BTreeMap<PKey, usize> = all.ts.iter().fold(BTreeMap::new(), |mut b, t| {
            *b.entry(t.0.clone()).or_insert(0) += 1;
            b
        });
        let many = |k: &PKey| mult[k];
        let descr = format!("big pushdown automaton of {} transitions, {} after relabelling", m.ts.len(), mc.ts.len());
        let coarse = |w: &[char]| mc.runs(w, BIG).and_then(|x| if cross(&x.0, &many) > BIG { None } else { Some(x.0.len()) });
        let fine = |w: &[char]| mm.runs(w, BIG).map(|x| x.0.len());
        ctx.ev("big automata");
        let s = RlbElement::new(&f);
        if ctf {
            let falls = mc.ts.iter().all(|t| t.1 <= 1e-12);
            let rec = coarse_to_fine_recogniser!(real_pda(&m); s);
            judge_ctf(ctx, "C26:big", &rec, &real_pda(&m), &words, &|w| coarse(w).is_some() && fine(w).is_some(), falls, &descr);
        } else {
            judge_approx(ctx, "C25:big", s, &real_pda(&m), &words, &fine, &coarse, &descr);
        }
    } else {
        let (m, words) = big_tsa(r);
        let mp = tsa_to_pda(&m);
        let mc = mp.merged();
        let mult: BTreeMap<PKey, usize> = mp.ts.iter().fold(BTreeMap::new(), |mut b, t| {
            *b.entry(t.0.clone()).or_insert(0) += 1;
            b
        });
        let many = |k: &PKey| mult[k];
        let descr = format!("big tree-stack automaton of {} transitions", m.ts.len());
        let coarse = |w: &[char]| mc.runs(w, BIG).and_then(|x| if cross(&x.0, &many) > BIG { None } else { Some(x.0.len()) });
        let fine = |w: &[char]| m.runs(w, BIG).map(|x| x.0.len());
        ctx.ev("big automata");
        let s = TTSElement::new();
        if ctf {
            let falls = mc.ts.iter().all(|t| t.1 <= 1e-12);
            let rec = coarse_to_fine_recogniser!(real_tsa(&m); s);
            judge_ctf(ctx, "C26:big", &rec, &real_tsa(&m), &words, &|w| coarse(w).is_some() && fine(w).is_some(), falls, &descr);
        } else {
            judge_approx(ctx, "C25:big", s, &real_tsa(&m), &words, &fine, &coarse, &descr);
        }
    }
}

pub fn c25(ctx: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 1500) {
        return big_approx(ctx, r, false);
    }
    match r.below(4) {
        0 => {
            let m = random_pda(r);
            let cls = classes_for(r, 5);
            let f = |x: &u32| if *x == 0 { 0 } else { cls[*x as usize] };
            let words = automaton_words(r, &m.ts, |k| &k.0, 3);
            let mm = m.merged();
            let mc = mm.map(&|x| f(&x)).merged();
            let mult = |k: &PKey| mm.map(&|x| f(&x)).ts.iter().filter(|t| t.0 == *k).count();
            let descr = format!("classes {:?}, pushdown automaton {:?}", cls, m);
            judge_approx(
                ctx,
                "C25:relabel",
                RlbElement::new(&f),
                &real_pda(&m),
                &words,
                &|w| mm.runs(w, CAP).map(|x| x.0.len()),
                &|w| mc.runs(w, CAP).and_then(|x| if cross(&x.0, &mult) > CAP { None } else { Some(x.0.len()) }),
                &descr,
            );
        }
        1 => {
            let m = random_tsa(r);
            let words = automaton_words(r, &m.ts, |k| &k.0, 3);
            let mp = tsa_to_pda(&m);
            let mc = mp.merged();
            let mult = |k: &PKey| mp.ts.iter().filter(|t| t.0 == *k).count();
            let descr = format!("tree-stack automaton {:?}", m);
            judge_approx(
                ctx,
                "C25:tts",
                TTSElement::new(),
                &real_tsa(&m),
                &words,
                &|w| m.runs(w, CAP).map(|x| x.0.len()),
                &|w| mc.runs(w, CAP).and_then(|x| if cross(&x.0, &mult) > CAP { None } else { Some(x.0.len()) }),
                &descr,
            );
        }
        2 => {
            let sh = cfg_shape(r);
            let g = generate(r, &sh);
            if !left_acyclic(&g) {
                return;
            }
            let k = r.range(1, g.fanout.len());
            let cls: Vec<usize> = (0..g.fanout.len()).map(|_| r.below(k)).collect();
            if !left_acyclic(&coarse_gram(&g, &cls)) {
                ctx.ev("skipped: coarse left recursion");
                return;
            }
            let words = words_of(r, &g, 6, 3, 2);
            let ws: Vec<Vec<char>> = words.iter().map(|w| text(&w.0)).collect();
            let back = |w: &[char]| -> Vec<Tm> { w.iter().map(|c| *c as u8 - b'a').collect() };
            let f = |ps: &PushState<usize, char>| ps.map(|n| cls[*n]);
            let descr = format!("classes {:?}, grammar {:?}", cls, g);
            let nf = |w: &[char]| -> Option<usize> {
                let w = back(w);
                top_down_size(&g, &w, CAP)?;
                words.iter().find(|x| x.0 == w).map(|x| x.1.len())
            };
            judge_approx(
                ctx,
                "C25:relabel",
                RlbElement::new(&f),
                &PushDownAutomaton::from(cfg_of(&g)),
                &ws,
                &nf,
                &|w| coarse_cost(&g, &cls, &back(w), CAP).map(|x| x.0),
                &descr,
            );
        }
        _ => {
            let sh = mcfg_shape(r);
            let mut g = generate(r, &sh);
            with_twins(ctx, r, &mut g);
            if !left_acyclic(&g) {
                return;
            }
            let words = words_of(r, &g, 5, 3, 2);
            let ws: Vec<Vec<char>> = words.iter().map(|w| text(&w.0)).filter(|w| !w.is_empty()).collect();
            let back = |w: &[char]| -> Vec<Tm> { w.iter().map(|c| *c as u8 - b'a').collect() };
            let descr = format!("grammar {:?}", g);
            let nf = |w: &[char]| -> Option<usize> {
                let w = back(w);
                top_down_size(&g, &w, CAP)?;
                words.iter().find(|x| x.0 == w).map(|x| x.1.len())
            };
            judge_approx(
                ctx,
                "C25:tts",
                TTSElement::new(),
                &TreeStackAutomaton::from(pmcfg_of(&g)),
                &ws,
                &nf,
                &|w| tts_cost(&g, &back(w), CAP),
                &descr,
            );
        }
    }
}

/// Number of coarse runs of the word: derivations in which each component of a successor is made
/// by a rule of its own.
fn tts_gram(g: &Gram) -> Gram {
    // nonterminal (A, j); a rule for each rule of A and component j
    let mut ids: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut id = |k: (usize, usize)| -> usize {
        let n = ids.len();
        *ids.entry(k).or_insert(n)
    };
    let init = id((g.init, 0));
    let mut rules = Vec::new();
    for r in &g.rules {
        for (j, c) in r.comps.iter().enumerate() {
            let mut tail = Vec::new();
            let comp = c
                .iter()
                .map(|s| match s {
                    Sym::V(i, k) => {
                        tail.push(id((r.tail[*i], *k)));
                        Sym::V(tail.len() - 1, 0)
                    }
                    t => t.clone(),
                })
                .collect();
            rules.push(Rule { lhs: id((r.lhs, j)), tail, comps: vec![comp], exp: 0 });
        }
    }
    let n = ids.len();
    Gram { fanout: vec![1; n], rules, init }
}

pub fn tts_cost(g: &Gram, w: &[Tm], cap: usize) -> Option<usize> {
    let c = tts_gram(g);
    if !left_acyclic(&c) {
        return None;
    }
    // an entry into a component and the way back are two steps, and every rule is tried
    top_down_size(&c, w, cap)?;
    let mut en = Enum::new(&c, cap);
    let n = en.derivs(c.init, w.len()).iter().filter(|(_, t)| t[0] == w).count();
    if en.overflow {
        None
    } else {
        Some(n)
    }
}

// ------------------------------------------------------------------ coarse-to-fine

/// the refined recogniser gives the runs of the finest automaton
fn judge_ctf<I, A, R>(
    ctx: &mut Ctx,
    sig: &str,
    rec: &R,
    a: &A,
    words: &[Vec<char>],
    affordable: &dyn Fn(&[char]) -> bool,
    ordered: bool,
    descr: &str,
) where
    I: Instruction + Clone + Debug + Eq + Ord,
    I::Storage: Clone + Debug + PartialEq + Eq,
    A: Automaton<char, W, I = I>,
    A::IInt: Ord,
    <A::IInt as Instruction>::Storage: Clone + Eq + Ord,
    A::TInt: Clone + Eq + Ord,
    R: Recognisable<char, W, Parse = Item<I::Storage, I, char, W>>,
{
    let mut met: Option<Vec<char>> = None;
    for word in words {
        if !affordable(word) {
            ctx.ev("skipped: too many runs");
            continue;
        }
        let detail = || format!("word {:?}, {}", word.iter().collect::<String>(), descr);
        let want = match ctx.call(&format!("{}:fine", sig), || recognise(a, word.clone()).collect::<Vec<_>>(), detail) {
            Some(x) => x,
            None => continue,
        };
        // while another recognition, of a word that was met before, goes on
        let got = match ctx.call(
            &format!("{}:recognise", sig),
            || {
                let mut other = met.as_ref().map(|w: &Vec<char>| rec.recognise(w.clone()));
                let mut it = rec.recognise(word.clone());
                let mut v = vec![];
                while v.len() < want.len() + 20 {
                    if let Some(o) = &mut other {
                        o.next();
                    }
                    match it.next() {
                        Some(x) => v.push(x),
                        None => break,
                    }
                }
                v
            },
            detail,
        ) {
            Some(x) => x,
            None => continue,
        };
        if met.is_some() {
            ctx.ev("recognitions with another one at the same time");
        }
        met = Some(word.clone());
        ctx.eval();
        ctx.ev_n("runs recognised", got.len() as u64);
        if want.len() > 1 {
            ctx.ev("words with several runs");
            ctx.nontrivial(&(word, descr));
        }
        let mut runs: Runs<(Vec<char>, I)> = Vec::new();
        for it in &got {
            match item_ok(a, word, it) {
                Ok(w) => runs.push((it.1.to_vec().into_iter().map(|t| (t.word, t.instruction)).collect(), w)),
                Err(m) => {
                    ctx.violation(&format!("{}:item", sig), format!("{}; {:?}; {}", m, it, detail()));
                    return;
                }
            }
        }
        let wanted: Runs<_> = want
            .iter()
            .map(|it| (it.1.to_vec().into_iter().map(|t| (t.word, t.instruction)).collect::<Vec<_>>(), it.0.weight.ln()))
            .collect();
        same_runs(ctx, &format!("{}:runs", sig), &runs, &wanted, &detail);
        if ordered {
            ctx.ev("orders judged");
            falling(ctx, &format!("{}:order", sig), &runs, &detail);
        }
        // a beam for the coarsest automaton
        for beam in [0, 1 + (word.len() * 7 + want.len()) % 5, 50_000] {
            let detail = || format!("beam {}, {}", beam, detail());
            let got = match ctx.call(&format!("{}:beam", sig), || rec.recognise_beam_search(beam, word.clone()).take(want.len() + 20).collect::<Vec<_>>(), &detail) {
                Some(x) => x,
                None => continue,
            };
            let mut runs: Runs<(Vec<char>, I)> = Vec::new();
            for it in &got {
                match item_ok(a, word, it) {
                    Ok(w) => runs.push((it.1.to_vec().into_iter().map(|t| (t.word, t.instruction)).collect(), w)),
                    Err(m) => {
                        ctx.violation(&format!("{}:beam-item", sig), format!("{}; {:?}; {}", m, it, detail()));
                        return;
                    }
                }
            }
            ctx.ev_n("runs under a beam", runs.len() as u64);
            if beam == 0 {
                ctx.check(runs.is_empty(), &format!("{}:beam-zero", sig), &detail);
            } else if beam > 1000 {
                same_runs(ctx, &format!("{}:beam-wide", sig), &runs, &wanted, &detail);
            } else {
                sub_runs(ctx, &format!("{}:beam-runs", sig), &runs, &wanted, &detail);
            }
            if ordered {
                falling(ctx, &format!("{}:beam-order", sig), &runs, &detail);
            }
        }
        ctx.sample(|| format!("{:?}: {} runs; {}", word, got.len(), descr));
    }
}

fn clone_run<I: Clone>(r: &Pushdown<Transition<I, char, W>>) -> Pushdown<Transition<I, char, W>> {
    r.clone()
}

pub fn c26(ctx: &mut Ctx, r: &mut Rng) {
    let _ = clone_run::<u32>;
    if r.chance(1, 1500) {
        return big_approx(ctx, r, true);
    }
    match r.below(6) {
        0 => {
            // random automaton, relabelled up to three times
            let m = random_pda(r);
            let levels = r.range(1, 3);
            let cls: Vec<Vec<u32>> = (0..levels).map(|i| if i > 0 && i + 1 == levels { vec![1; 5] } else { classes_for(r, 5) }).collect();
            let at = |i: usize, x: &u32| if *x == 0 { 0 } else { cls[i][*x as usize % 100] };
            let (f, f2, f3) = (|x: &u32| at(0, x), |x: &u32| at(1, x), |x: &u32| at(2, x));
            let words = automaton_words(r, &m.ts, |k| &k.0, 3);
            let mut steps = vec![m.merged()];
            let mut costs = vec![];
            for i in 0..levels {
                let all = steps[i].map(&|x| at(i, &x));
                steps.push(all.merged());
                costs.push(all);
            }
            let falls = steps.iter().all(|m| m.ts.iter().all(|t| t.1 <= 1e-12));
            let affordable = |w: &[char]| {
                steps[0].runs(w, CAP).is_some()
                    && (0..levels).all(|i| {
                        let mult = |k: &PKey| costs[i].ts.iter().filter(|t| t.0 == *k).count();
                        steps[i + 1].runs(w, CAP).map_or(false, |x| cross(&x.0, &mult) <= CAP)
                    })
            };
            let descr = format!("{} levels, classes {:?}, pushdown automaton {:?}", levels, cls, m);
            let a = real_pda(&m);
            let a2 = real_pda(&m);
            let s1 = RlbElement::new(&f);
            match levels {
                1 => {
                    let rec = coarse_to_fine_recogniser!(a2; s1);
                    judge_ctf(ctx, "C26:pda", &rec, &a, &words, &affordable, falls, &descr);
                }
                2 => {
                    let s2 = RlbElement::new(&f2);
                    let rec = coarse_to_fine_recogniser!(a2; s1, s2);
                    judge_ctf(ctx, "C26:pda", &rec, &a, &words, &affordable, falls, &descr);
                }
                _ => {
                    let (s2, s3) = (RlbElement::new(&f2), RlbElement::new(&f3));
                    let rec = coarse_to_fine_recogniser!(a2; s1, s2, s3);
                    ctx.ev("recognisers of three levels");
                    judge_ctf(ctx, "C26:pda", &rec, &a, &words, &affordable, falls, &descr);
                }
            }
        }
        1 | 2 => {
            // random tree-stack automaton, to pushdown, relabelled or not
            let m = random_tsa(r);
            let words = automaton_words(r, &m.ts, |k| &k.0, 3);
            let mp = tsa_to_pda(&m);
            let mc = mp.merged();
            // the bottom label must stay what it is, so here all labels are kept apart from it
            let f = |x: &u32| if *x == m.init { *x } else { 77 };
            let once = r.chance(1, 2);
            let thrice = !once && r.chance(1, 2);
            // labels apart from the bottom, in two classes before all are one
            let half = |x: &u32| if *x == m.init || !thrice { *x } else { 70 + x % 2 };
            let mh = mc.map(&|x| half(&x)).merged();
            let allh = mc.map(&|x| half(&x));
            let mc2 = mh.map(&|x| f(&x)).merged();
            let all2 = mh.map(&|x| f(&x));
            let mid = |k: &PKey| allh.ts.iter().filter(|t| t.0 == *k).count();
            let m1 = |k: &PKey| mp.ts.iter().filter(|t| t.0 == *k).count();
            let m2 = |k: &PKey| all2.ts.iter().filter(|t| t.0 == *k).count();
            let affordable = |w: &[char]| {
                m.runs(w, CAP).is_some()
                    && mc.runs(w, CAP).map_or(false, |x| cross(&x.0, &m1) <= CAP)
                    && (!thrice || mh.runs(w, CAP).map_or(false, |x| cross(&x.0, &mid) <= CAP))
                    && (once || mc2.runs(w, CAP).map_or(false, |x| cross(&x.0, &m2) <= CAP))
            };
            let falls = [&mc, &mh].iter().all(|m| m.ts.iter().all(|t| t.1 <= 1e-12)) && (once || mc2.ts.iter().all(|t| t.1 <= 1e-12));
            let descr = format!("{} levels, tree-stack automaton {:?}", if once { 1 } else if thrice { 3 } else { 2 }, m);
            let a = real_tsa(&m);
            let a2 = real_tsa(&m);
            let tts = TTSElement::new();
            if once {
                let rec = coarse_to_fine_recogniser!(a2; tts);
                judge_ctf(ctx, "C26:tsa", &rec, &a, &words, &affordable, falls, &descr);
            } else if thrice {
                let (s2, s3) = (RlbElement::new(&half), RlbElement::new(&f));
                let rec = coarse_to_fine_recogniser!(a2; tts, s2, s3);
                ctx.ev("recognisers of three levels");
                judge_ctf(ctx, "C26:tsa", &rec, &a, &words, &affordable, falls, &descr);
            } else {
                let s2 = RlbElement::new(&f);
                let rec = coarse_to_fine_recogniser!(a2; tts, s2);
                judge_ctf(ctx, "C26:tsa", &rec, &a, &words, &affordable, falls, &descr);
            }
        }
        3 => {
            let sh = cfg_shape(r);
            let g = generate(r, &sh);
            let k = r.range(1, g.fanout.len());
            let cls: Vec<usize> = (0..g.fanout.len()).map(|_| r.below(k)).collect();
            let cg = coarse_gram(&g, &cls);
            if !left_acyclic(&g) || !left_acyclic(&cg) {
                ctx.ev("skipped: left recursion");
                return;
            }
            let words = words_of(r, &g, 6, 3, 1);
            let ws: Vec<Vec<char>> = words.iter().map(|w| text(&w.0)).collect();
            let back = |w: &[char]| -> Vec<Tm> { w.iter().map(|c| *c as u8 - b'a').collect() };
            let f = |ps: &PushState<usize, char>| ps.map(|n| cls[*n]);
            let a = PushDownAutomaton::from(cfg_of(&g));
            let a2 = PushDownAutomaton::from(cfg_of(&g));
            let mut sums: BTreeMap<(usize, Rhs), f64> = BTreeMap::new();
            for ((n, rhs), w) in merged_weights(&g) {
                let rhs = rhs
                    .into_iter()
                    .map(|l| match l {
                        LetterT::Label(n) => LetterT::Label(cls[n]),
                        x => x,
                    })
                    .collect();
                *sums.entry((cls[n], rhs)).or_insert(0.0) += w;
            }
            let falls = sums.values().all(|w| *w <= 1.0 + 1e-12);
            let descr = format!("classes {:?}, grammar {:?}", cls, g);
            let s = RlbElement::new(&f);
            let rec = coarse_to_fine_recogniser!(a2; s);
            let affordable = |w: &[char]| {
                let w = back(w);
                top_down_size(&g, &w, CAP).is_some() && coarse_cost(&g, &cls, &w, CAP).is_some()
            };
            judge_ctf(ctx, "C26:cfg", &rec, &a, &ws, &affordable, falls, &descr);
        }
        _ => {
            // a grammar, tree-stack automaton, pushdown automaton, relabelled by nonterminals
            let sh = mcfg_shape(r);
            let mut g = generate(r, &sh);
            with_twins(ctx, r, &mut g);
            if !left_acyclic(&g) {
                return;
            }
            let mut cls: Vec<usize> = (0..g.fanout.len()).collect();
            // only nonterminals of one fanout are put together
            for i in 1..g.fanout.len() {
                let same: Vec<usize> = (0..i).filter(|j| g.fanout[*j] == g.fanout[i]).collect();
                if !same.is_empty() && r.chance(1, 2) {
                    cls[i] = cls[*r.pick(&same)];
                }
            }
            let mut merged = g.clone();
            for x in merged.rules.iter_mut() {
                x.lhs = cls[x.lhs];
                for t in x.tail.iter_mut() {
                    *t = cls[*t];
                }
            }
            merged.init = cls[merged.init];
            let mut mult: BTreeMap<(usize, Vec<usize>, Vec<Vec<Sym>>), usize> = BTreeMap::new();
            for x in &merged.rules {
                *mult.entry((x.lhs, x.tail.clone(), x.comps.clone())).or_insert(0) += 1;
            }
            let most = mult.values().cloned().max().unwrap();
            let collapses = most > 1;
            merged.rules.sort_by(|a, b| (a.lhs, &a.tail, &a.comps).cmp(&(b.lhs, &b.tail, &b.comps)));
            merged.rules.dedup_by(|a, b| a.lhs == b.lhs && a.tail == b.tail && a.comps == b.comps);
            if !left_acyclic(&merged) || !left_acyclic(&tts_gram(&merged)) {
                ctx.ev("skipped: left recursion");
                return;
            }
            let words = words_of(r, &g, 5, 3, 1);
            let ws: Vec<Vec<char>> = words.iter().map(|w| text(&w.0)).collect();
            let back = |w: &[char]| -> Vec<Tm> { w.iter().map(|c| *c as u8 - b'a').collect() };
            let f = |ps: &PosT| ps.map(|x| x.map_nonterminals(|n| cls[*n]));
            let a = TreeStackAutomaton::from(pmcfg_of(&g));
            let a2 = TreeStackAutomaton::from(pmcfg_of(&g));
            let levels = r.range(1, 2);
            let descr = format!("{} levels, classes {:?}, grammar {:?}", levels, cls, g);
            // each step of a coarse run has at most most^3 refinements
            let cap = 2000usize;
            let affordable = |w: &[char]| {
                let w = back(w);
                let small = top_down_size(&g, &w, CAP).is_some() && tts_cost(&g, &w, CAP).is_some();
                small
                    && (levels == 1 || {
                        match tts_cost(&merged, &w, 800) {
                            None => false,
                            // derivations of the coarse grammar have about 2·|w| nodes
                            Some(n) if collapses => {
                                (n as f64) * (most as f64).powi(5 * w.len() as i32) < 60_000.0
                            }
                            Some(n) => n < cap,
                        }
                    })
            };
            let tts = TTSElement::new();
            if levels == 1 {
                let rec = coarse_to_fine_recogniser!(a2; tts);
                judge_ctf(ctx, "C26:mcfg", &rec, &a, &ws, &affordable, true, &descr);
            } else {
                let s = RlbElement::new(&f);
                let rec = coarse_to_fine_recogniser!(a2; tts, s);
                judge_ctf(ctx, "C26:mcfg", &rec, &a, &ws, &affordable, false, &descr);
            }
        }
    }
}
