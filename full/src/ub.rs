//! C33: workloads for Miri and AddressSanitizer.  Nothing is judged here but that values which were
//! stored are still there; the deciding monitor is the interpreter or the sanitizer.
use crate::auto::{self, *};
use crate::cs;
use kit::gram::{generate, random_deriv, Gram, Rule, Shape, Sym, Tm};
use kit::{guarded, Ctx, Rng};
use rustomata::automata::push_down_automaton::{PushDown, PushDownAutomaton};
use rustomata::automata::tree_stack_automaton::{to_abstract_syntax_tree, TreeStack, TreeStackAutomaton};
use rustomata::grammars::lcfrs::csparsing::CSRepresentation;
use rustomata::grammars::pmcfg::PMCFG;
use rustomata::recognisable::Recognisable;
use search::agenda::{beam_heap, limited_heap};
use unique_heap::UniqueHeap;
use vecmultimap::{VecMultiMap, VecMultiMapAdapter};

/// under the interpreter everything is small
fn small() -> bool {
    std::env::var("VERIF_SMALL").is_ok()
}

fn panicked(ctx: &mut Ctx, r: Result<(), String>) {
    if r.is_err() {
        // a panic is defined behaviour; other properties judge it
        ctx.ev("cases that end with a panic");
    }
}

fn maps(ctx: &mut Ctx, r: &mut Rng) {
    let steps = if small() { 12 } else { r.range(5, 200) };
    let top = *r.pick(&[2usize, 5, 9, 17, 70]);
    let mut base: Vec<Vec<Box<u32>>> = Vec::new();
    let mut own: VecMultiMap<Box<u32>> = VecMultiMap::new();
    let mut sum = 0u64;
    for s in 0..steps {
        let i = r.below(top);
        match r.below(8) {
            0 | 1 => own.push_to(i, Box::new(s as u32)),
            2 => VecMultiMapAdapter(&mut base).push_to(i, Box::new(s as u32)),
            3 => sum += own.get(i).iter().map(|x| u64::from(**x)).sum::<u64>(),
            4 => own.get_mut(i).push(Box::new(7)),
            5 => {
                let mut a = VecMultiMapAdapter(&mut base);
                sum += a.get(i).len() as u64;
                a.get_mut(i).push(Box::new(9));
                a[i].push(Box::new(1));
                sum += *a[i][0] as u64;
            }
            6 => sum += own.get_or_fail(i).map_or(0, |v| v.len() as u64),
            _ => {
                // the greatest index so far, one less and one more
                let n = base.len();
                for k in [n.saturating_sub(1), n, n + 1] {
                    sum += VecMultiMapAdapter(&mut base).get(k).len() as u64;
                    sum += VecMultiMapAdapter(&mut base).get_mut(k).len() as u64;
                }
            }
        }
    }
    let v: Vec<Vec<Box<u32>>> = if r.chance(1, 2) { own.into() } else { own.into_vec_with_size(r.below(top + 3)) };
    sum += v.iter().flatten().map(|x| u64::from(**x)).sum::<u64>();
    ctx.ev_n("multimap operations", steps as u64);
    ctx.nontrivial(&(1u8, sum, top));
}

fn heaps(ctx: &mut Ctx, r: &mut Rng) {
    let steps = if small() { 15 } else { r.range(5, 200) };
    let mut u: UniqueHeap<Box<u32>, u32> = UniqueHeap::default();
    let mut l: limited_heap::LimitedHeap<Box<u32>, u32> = limited_heap::LimitedHeap::with_capacity(r.below(6));
    let mut b: beam_heap::BeamHeap<Box<u32>, i64> = beam_heap::BeamHeap::new(-(r.below(4) as i64));
    let mut sum = 0u64;
    for _ in 0..steps {
        let (x, w) = (r.below(9) as u32, r.below(9) as u32);
        match r.below(6) {
            0 => {
                u.push(Box::new(x), w);
            }
            1 => sum += u.pop().map_or(0, |x| u64::from(*x.0)),
            2 => {
                l.push(Box::new(x), w);
            }
            3 => sum += l.pop().map_or(0, |x| u64::from(*x)),
            4 => {
                b.push(Box::new(x), i64::from(w));
            }
            _ => sum += b.pop().map_or(0, |x| u64::from(*x)),
        }
    }
    ctx.ev_n("agenda operations", steps as u64);
    ctx.nontrivial(&(2u8, sum));
}

/// { aⁿ bᵐ cⁿ dᵐ }, or a small grammar
fn gram(r: &mut Rng) -> (Gram, Vec<Vec<Tm>>) {
    if r.chance(2, 3) {
        let t = |lhs: usize, t: Tm| Rule { lhs, tail: vec![], comps: vec![vec![Sym::T(t)]], exp: 0 };
        let mut rules = vec![
            Rule { lhs: 0, tail: vec![1, 2], comps: vec![vec![Sym::V(0, 0), Sym::V(1, 0), Sym::V(0, 1), Sym::V(1, 1)]], exp: 1 },
            t(3, 0),
            t(4, 1),
            t(5, 2),
            t(6, 3),
        ];
        for (a, x, y) in [(1, 3, 5), (2, 4, 6)] {
            rules.push(Rule { lhs: a, tail: vec![x, y, a], comps: vec![vec![Sym::V(0, 0), Sym::V(2, 0)], vec![Sym::V(1, 0), Sym::V(2, 1)]], exp: 1 });
            rules.push(Rule { lhs: a, tail: vec![x, y], comps: vec![vec![Sym::V(0, 0)], vec![Sym::V(1, 0)]], exp: r.range(1, 3) as u32 });
        }
        let g = Gram { fanout: vec![1, 2, 2, 1, 1, 1, 1], rules, init: 0 };
        let most = if small() { 2 } else { 4 };
        let ws = (0..if small() { 1 } else { 4 })
            .map(|_| (0..4).flat_map(|t| vec![t as Tm; r.range(1, most)]).collect())
            .collect();
        (g, ws)
    } else {
        let sh = Shape {
            nts: r.range(2, 3),
            max_fanout: 2,
            terminals: r.range(1, 2),
            max_rules_per_nt: if small() { 2 } else { 4 },
            max_tail: 2,
            normal_form: true,
            max_exp: 3,
            ..Shape::default()
        };
        let g = generate(r, &sh);
        let mut ws = vec![];
        for _ in 0..if small() { 1 } else { 4 } {
            if let Some(d) = random_deriv(r, &g, g.init, if small() { 4 } else { 12 }) {
                let mut w = d.eval(&g)[0].clone();
                if r.chance(1, 3) {
                    let i = r.below(w.len());
                    w[i] = r.below(2) as Tm;
                }
                if w.len() <= if small() { 4 } else { 10 } {
                    ws.push(w);
                }
            }
        }
        (g, ws)
    }
}

fn chomsky(ctx: &mut Ctx, r: &mut Rng, stored: bool) {
    let (g, ws) = gram(r);
    let width = if r.chance(1, 2) { 0 } else { r.range(1, 4) };
    let l = match guarded(|| cs::lcfrs_of(&g)) {
        Ok(Some(l)) => l,
        _ => return,
    };
    let mut rep: cs::Rep = CSRepresentation::new(l, width);
    if stored {
        let bytes = bincode::serialize(&rep, bincode::Infinite).unwrap();
        rep = bincode::deserialize(&bytes).unwrap();
        ctx.ev("representations stored and loaded");
    }
    let (beam, cand) = (r.chance(1, 3), r.range(1, if small() { 4 } else { 60 }));
    for w in ws {
        let word = cs::toks(&w);
        let res = guarded(|| {
            let mut b = rep.build_generator();
            if beam {
                b.set_beam(2);
            }
            b.set_candidates(cand);
            let (it, fb) = b.with_fallback(&word);
            let n: Vec<usize> = it.take(3).map(|t| (&t).into_iter().map(|(_, r)| r.head.len()).sum()).collect();
            (n, fb.map(|t| (&t).into_iter().map(|(_, r)| r.tail.len() + r.head.len()).sum::<usize>()))
        });
        match res {
            Ok((n, fb)) => {
                ctx.ev("words parsed");
                if !n.is_empty() {
                    ctx.ev("words with a derivation");
                }
                if let Some(x) = fb {
                    ctx.ev("fallback trees read");
                    ctx.nontrivial(&(3u8, &g, &w, x));
                } else {
                    ctx.nontrivial(&(4u8, &g, &w, n));
                }
            }
            Err(_) => ctx.ev("cases that end with a panic"),
        }
    }
}

fn storages(ctx: &mut Ctx, r: &mut Rng) {
    let steps = if small() { 12 } else { r.range(5, 100) };
    let mut pool: Vec<TreeStack<Box<u32>>> = vec![TreeStack::new(Box::new(0))];
    let mut stacks: Vec<PushDown<Box<u32>>> = vec![PushDown::new(Box::new(1), Box::new(0))];
    let mut sum = 0u64;
    for s in 0..steps {
        let x = r.pick(&pool).clone();
        let a = Box::new(s as u32);
        let y = match r.below(4) {
            0 => x.push(r.below(3), a),
            1 => Ok(x.push_next(a)),
            2 => x.up(r.below(3)),
            _ => x.down(),
        };
        match y {
            Ok(t) | Err(t) => {
                sum += u64::from(**t.current_symbol());
                pool.push(t);
            }
        }
        let p = r.pick(&stacks).clone();
        stacks.push(PushDown::from(p.iter().cloned().chain(vec![Box::new(s as u32)]).collect::<Vec<_>>()));
        if r.chance(1, 3) {
            let i = r.below(pool.len());
            pool.swap_remove(i);
            if pool.is_empty() {
                pool.push(TreeStack::new(Box::new(1)));
            }
        }
    }
    sum += pool.iter().map(|t| t.to_tree().0.into_iter().map(|(_, b)| u64::from(*b)).sum::<u64>()).sum::<u64>();
    ctx.ev_n("storage operations", steps as u64);
    ctx.nontrivial(&(5u8, sum));
}

fn recognisers(ctx: &mut Ctx, r: &mut Rng) {
    let sh = Shape { nts: r.range(1, 3), max_fanout: 2, terminals: 2, max_rules_per_nt: 2, max_tail: 2, max_terminals: 2, ordered: true, ..Shape::default() };
    let g = generate(r, &sh);
    if !left_acyclic(&g) {
        return;
    }
    let w = match random_deriv(r, &g, g.init, if small() { 3 } else { 10 }) {
        Some(d) => d.eval(&g)[0].clone(),
        None => return,
    };
    if w.len() > if small() { 4 } else { 8 } || top_down_size(&g, &w, if small() { 60 } else { 2000 }).is_none() {
        return;
    }
    let word: Vec<char> = w.iter().map(|t| (b'a' + *t as u8) as char).collect();
    let res = guarded(|| {
        let n = if g.fanout.iter().all(|f| *f == 1) {
            let a = PushDownAutomaton::from(auto::cfg_of(&g));
            a.recognise(word.clone()).take(3).map(|i| i.1.to_vec().len()).sum::<usize>()
        } else {
            0
        };
        let a = TreeStackAutomaton::from(auto::pmcfg_of(&g));
        n + a
            .recognise(word.clone())
            .take(3)
            .filter(|i| !i.1.is_empty())
            .map(|i| to_abstract_syntax_tree(i.0.storage.to_tree()).len())
            .sum::<usize>()
    });
    ctx.ev("words recognised by automata");
    match res {
        Ok(n) => ctx.nontrivial(&(6u8, &g, &w, n)),
        Err(e) => panicked(ctx, Err(e)),
    }
}

fn texts(ctx: &mut Ctx, r: &mut Rng) {
    let mut t: Vec<char> = "initial: [S]\nS → [[Var 0 0, T a]] (A) # 0.5\nA → [[T \"ä\"]] () % c\n".chars().collect();
    for _ in 0..r.below(3) {
        let i = r.below(t.len());
        match r.below(3) {
            0 => {
                t.remove(i);
            }
            1 => t.insert(i, *r.pick(&['→', '[', '"', 'ü', '\u{1F600}', ' '])),
            _ => t.truncate(i + 1),
        }
    }
    let s: String = t.into_iter().collect();
    let res = guarded(|| s.parse::<PMCFG<String, String, auto::W>>().map(|g| g.rules.len()).ok());
    ctx.ev("texts read");
    match res {
        Ok(n) => ctx.nontrivial(&(7u8, &s, n)),
        Err(e) => panicked(ctx, Err(e)),
    }
}

pub fn c33(ctx: &mut Ctx, r: &mut Rng) {
    ctx.eval();
    match r.below(12) {
        0 | 1 => maps(ctx, r),
        2 => heaps(ctx, r),
        3..=6 => chomsky(ctx, r, false),
        7 => chomsky(ctx, r, true),
        8 => storages(ctx, r),
        9 | 10 => recognisers(ctx, r),
        _ => texts(ctx, r),
    }
}
