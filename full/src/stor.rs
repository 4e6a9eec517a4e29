//! C27 multiple Dyck languages, C30 storages, C31 the text form of automata.
use crate::auto::{random_fsa, random_tsa, real_tins, FKey, FModel, TIns, TModel, TStore, W};
use kit::{Ctx, Rng};
use rustomata::automata::finite_state_automaton::FiniteStateAutomaton;
use rustomata::automata::push_down_automaton::{PushDown, PushDownInstruction};
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackAutomaton, TreeStackInstruction};
use rustomata::dyck::multiple::MultipleDyckLanguage;
use rustomata::dyck::Bracket;
use rustomata::recognisable::automaton::Automaton;
use rustomata::recognisable::{Instruction, Transition};
use rustomata::util::integerisable::Integerisable1;
use rustomata::util::partition::Partition;
use rustomata::util::push_down::Pushdown;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ multiple Dyck languages

/// a pair of matching brackets with what is between them
#[derive(Clone, Debug)]
struct Pair {
    sym: u8,
    inner: Vec<Pair>,
}

fn forest(word: &[Bracket<u8>]) -> Option<Vec<Pair>> {
    let mut stack: Vec<(Option<u8>, Vec<Pair>)> = vec![(None, vec![])];
    for b in word {
        match b {
            Bracket::Open(x) => stack.push((Some(*x), vec![])),
            Bracket::Close(x) => {
                let (y, inner) = stack.pop().unwrap();
                if y != Some(*x) {
                    return None;
                }
                stack.last_mut().unwrap().1.push(Pair { sym: *x, inner });
            }
        }
    }
    if stack.len() == 1 {
        stack.pop().map(|x| x.1)
    } else {
        None
    }
}
fn spell(f: &[Pair], out: &mut Vec<Bracket<u8>>) {
    for p in f {
        out.push(Bracket::Open(p.sym));
        spell(&p.inner, out);
        out.push(Bracket::Close(p.sym));
    }
}

/// Can the pairs be put into groups, each with every symbol of one cell once, such that the same
/// holds for what is between the brackets of each group?
fn grouped(ps: &[&Pair], cells: &[BTreeSet<u8>]) -> bool {
    let first = match ps.first() {
        None => return true,
        Some(p) => p,
    };
    let cell = match cells.iter().find(|c| c.contains(&first.sym)) {
        None => return false,
        Some(c) => c,
    };
    fn choose(left: &[u8], chosen: &mut Vec<usize>, ps: &[&Pair], cells: &[BTreeSet<u8>]) -> bool {
        match left.split_first() {
            None => {
                let inner: Vec<&Pair> = chosen.iter().flat_map(|i| ps[*i].inner.iter()).collect();
                let rest: Vec<&Pair> = (0..ps.len()).filter(|i| !chosen.contains(i)).map(|i| ps[i]).collect();
                grouped(&inner, cells) && grouped(&rest, cells)
            }
            Some((s, left)) => (0..ps.len()).filter(|i| ps[*i].sym == *s).any(|i| {
                chosen.push(i);
                let ok = choose(left, chosen, ps, cells);
                chosen.pop();
                ok
            }),
        }
    }
    let left: Vec<u8> = cell.iter().cloned().filter(|s| *s != first.sym).collect();
    choose(&left, &mut vec![0], ps, cells)
}

/// The same where the pairs of one group are those whose symbols have one sort.
fn grouped_by(ps: &[&Pair], cells: &[BTreeSet<u8>], sort: &dyn Fn(&u8) -> usize) -> bool {
    let mut groups: BTreeMap<usize, Vec<&Pair>> = BTreeMap::new();
    for p in ps {
        groups.entry(sort(&p.sym)).or_default().push(p);
    }
    groups.values().all(|g| {
        let mut syms: Vec<u8> = g.iter().map(|p| p.sym).collect();
        syms.sort();
        let inner: Vec<&Pair> = g.iter().flat_map(|p| p.inner.iter()).collect();
        cells.iter().any(|c| c.iter().cloned().collect::<Vec<_>>() == syms) && grouped_by(&inner, cells, sort)
    })
}

/// sibling pairs made of whole groups, whose insides are spread over the members at random
fn some_member(r: &mut Rng, cells: &[BTreeSet<u8>], budget: &mut usize, sort: Option<&dyn Fn(&u8) -> usize>, depth: usize) -> Vec<Pair> {
    let mut out: Vec<Pair> = Vec::new();
    let mut used = BTreeSet::new();
    let groups = if depth == 0 { r.range(1, 3) } else { r.below(3) };
    for _ in 0..groups {
        let c = r.pick(cells).clone();
        if c.len() > *budget {
            continue;
        }
        if let Some(f) = sort {
            let s: BTreeSet<usize> = c.iter().map(f).collect();
            if s.len() > 1 || !used.insert(*s.iter().next().unwrap()) {
                continue;
            }
        }
        *budget -= c.len();
        let inner = if r.chance(2, 3) { some_member(r, cells, budget, sort, depth + 1) } else { vec![] };
        let mut members: Vec<Pair> = c.iter().map(|s| Pair { sym: *s, inner: vec![] }).collect();
        for p in inner {
            let i = r.below(members.len());
            members[i].inner.push(p);
        }
        out.extend(members);
    }
    r.shuffle(&mut out);
    out
}

/// long, deep and wide words; members by construction, others by counting
fn c27_big(ctx: &mut Ctx, r: &mut Rng) {
    let k = r.range(1, 12);
    let single = r.chance(1, 3);
    let sorted = !single || r.chance(1, 2);
    let mut cells: Vec<BTreeSet<u8>> = vec![];
    let mut next = 0u8;
    for _ in 0..k {
        let n = if single { 1 } else { *r.pick(&[1, 2, 3, 5, 8, 17]) };
        cells.push((next..next + n).collect());
        next += n;
    }
    let n = next as usize;
    let of: Vec<usize> = (0..n).map(|s| cells.iter().position(|c| c.contains(&(s as u8))).unwrap()).collect();
    // one position for each cell; positions may be far apart
    let step = *r.pick(&[1, 1, 2, 30]);
    let sort = {
        let of = of.clone();
        move |s: &u8| of.get(*s as usize).map_or(0, |c| c * step)
    };
    let depth = *r.pick(&[10, 40, 64, 100, 130, 260]);
    let mut inner: Vec<Pair> = vec![];
    let mut size = 0;
    for _ in 0..depth {
        let mut level: Vec<Pair> = vec![];
        let mut order: Vec<usize> = (0..k).collect();
        r.shuffle(&mut order);
        let groups = if r.chance(4, 5) { 1 } else { r.range(1, k) };
        let mut put = Some(inner);
        for c in order.into_iter().take(groups) {
            let mut g: Vec<Pair> = cells[c].iter().map(|s| Pair { sym: *s, inner: vec![] }).collect();
            size += g.len();
            if let Some(x) = put.take() {
                // what is a group inside may be spread over all members of this one
                if r.chance(1, 2) {
                    let i = r.below(g.len());
                    g[i].inner = x;
                } else {
                    for p in x {
                        let i = r.below(g.len());
                        g[i].inner.push(p);
                    }
                }
            }
            level.extend(g);
        }
        r.shuffle(&mut level);
        inner = level;
        if size > 700 {
            break;
        }
    }
    let mut w = Vec::new();
    spell(&inner, &mut w);
    let p = Partition::new(cells.clone()).unwrap();
    let descr = format!("cells {:?}, sorts {}, word of {} brackets", cells, sorted, w.len());
    let mdl = if sorted { MultipleDyckLanguage::sorted(p, &sort) } else { MultipleDyckLanguage::new(p) };
    let mut judge = |ctx: &mut Ctx, w: &[Bracket<u8>], want: bool| {
        if let Some(got) = ctx.call("C27:recognize", || mdl.recognize(w), || descr.clone()) {
            ctx.eval();
            ctx.ev("long words");
            ctx.ev_n("brackets of long words", w.len() as u64);
            ctx.check(got == want, "C27:long", || format!("recognize says {}; {}; {:?} ...", got, descr, &w[..w.len().min(40)]));
        }
    };
    judge(ctx, &w, true);
    // a pair with another symbol: not as many of each symbol of its cell, or no symbol at all
    let i = r.below(w.len());
    let (open, sym) = match &w[i] {
        Bracket::Open(s) => (true, *s),
        Bracket::Close(s) => (false, *s),
    };
    let mut level = 0i32;
    let mut j = i;
    loop {
        let o = match &w[j] {
            Bracket::Open(_) => true,
            Bracket::Close(_) => false,
        };
        level += if o == open { 1 } else { -1 };
        if level == 0 {
            break;
        }
        j = if open { j + 1 } else { j - 1 };
    }
    let other = r.below(n + 1) as u8;
    if other != sym && (other as usize == n || of[other as usize] != of[sym as usize] && cells[of[sym as usize]].len() > 1) {
        let mut v = w.clone();
        let (a, b) = (i.min(j), i.max(j));
        v[a] = Bracket::Open(other);
        v[b] = Bracket::Close(other);
        judge(ctx, &v, false);
    }
    let mut v = w.clone();
    v.remove(i);
    judge(ctx, &v, false);
    let mut v = w.clone();
    v.push(Bracket::Open(sym));
    judge(ctx, &v, false);
    let mut v = w.clone();
    v.push(Bracket::Close(sym));
    judge(ctx, &v, false);
    ctx.nontrivial(&format!("{:?}", w));
}

/// many pairs with the same symbols side by side, of which only some go together
fn c27_wide(ctx: &mut Ctx, r: &mut Rng) {
    let width = if r.chance(1, 4) { 3 } else { 2 };
    let kinds = r.range(2, 5);
    let mut names: Vec<u8> = (0..(width * (kinds + 1)) as u8).collect();
    r.shuffle(&mut names);
    let cells: Vec<BTreeSet<u8>> = names.chunks(width).map(|c| c.iter().cloned().collect()).collect();
    let most = match (width, r.chance(1, 20)) {
        (2, true) => 6,
        (2, false) => 5,
        _ => 3,
    };
    let n = r.range(2, most);
    // member i of a group has one symbol of the cell that stands for the group
    let mut level = Vec::new();
    for _ in 0..n {
        let inner: Vec<u8> = names.chunks(width).nth(r.range(1, kinds)).unwrap().to_vec();
        let shift = if r.chance(1, 6) { r.below(width) } else { 0 };
        for (i, s) in names[..width].iter().enumerate() {
            level.push(Pair { sym: *s, inner: vec![Pair { sym: inner[(i + shift) % width], inner: vec![] }] });
        }
    }
    if r.chance(1, 3) {
        // another symbol inside, mostly without a partner
        let i = r.below(level.len());
        level[i].inner[0].sym = *r.pick(&names[width..]);
    }
    r.shuffle(&mut level);
    let ps: Vec<&Pair> = level.iter().collect();
    let want = grouped(&ps, &cells);
    let mut w = Vec::new();
    spell(&level, &mut w);
    let descr = format!("cells {:?}, word {:?}", cells, w);
    let mdl = MultipleDyckLanguage::new(Partition::new(cells).unwrap());
    if let Some(got) = ctx.call("C27:recognize", || mdl.recognize(&w), || descr.clone()) {
        ctx.eval();
        ctx.ev(if want { "members with many like pairs" } else { "words outside with many like pairs" });
        ctx.nontrivial(&descr);
        ctx.check(got == want, "C27:wide", || format!("recognize says {}; {}", got, descr));
    }
}

pub fn c27(ctx: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 400) {
        return c27_big(ctx, r);
    }
    if r.chance(1, 25) {
        return c27_wide(ctx, r);
    }
    let n = r.range(1, 6) as u8;
    let mut syms: Vec<u8> = (0..n).collect();
    r.shuffle(&mut syms);
    let k = r.range(1, n as usize);
    let mut cells: Vec<BTreeSet<u8>> = vec![BTreeSet::new(); k];
    for (i, s) in syms.iter().enumerate() {
        let c = if i < k { i } else { r.below(k) };
        cells[c].insert(*s);
    }
    // sorts: of the cell, mostly; now and then of the symbol
    let by_symbol = r.chance(1, 10);
    let m = r.range(1, 4);
    let sorts: Vec<usize> = (0..n)
        .map(|s| if by_symbol { r.below(m) } else { cells.iter().position(|c| c.contains(&s)).unwrap() })
        .collect();
    let shift = if by_symbol || r.chance(1, 3) { 0 } else { r.below(3) };
    let merge = !by_symbol && r.chance(1, 4);
    let sort = move |s: &u8| sorts.get(*s as usize).map_or(0, |x| if merge { *x / 2 } else { *x }) + shift;
    let sorted = r.chance(1, 2);
    let p = || Partition::new(cells.clone()).unwrap();
    let descr = format!(
        "cells {:?}, {}",
        cells,
        if sorted { format!("sorts {:?}", (0..n).map(|s| sort(&s)).collect::<Vec<_>>()) } else { "no sorts".into() }
    );
    let made = ctx.call("C27:new", || if sorted { MultipleDyckLanguage::sorted(p(), &sort) } else { MultipleDyckLanguage::new(p()) }, || descr.clone());
    let mdl = match made {
        Some(l) => l,
        None => return,
    };
    // the language written to bytes and read back
    let kept: Option<MultipleDyckLanguage<u8>> = ctx
        .call("C27:serde", || bincode::serialize(&mdl, bincode::Infinite).and_then(|b| bincode::deserialize(&b[..])), || descr.clone())
        .and_then(|x| match x {
            Ok(l) => Some(l),
            Err(e) => {
                ctx.violation("C27:serde", format!("{}; {}", e, descr));
                None
            }
        });
    let size = if ctx.tier_thorough { 9 } else { 8 };
    for i in 0..6 {
        let mut budget = r.range(0, size);
        let f = some_member(r, &cells, &mut budget, if sorted { Some(&sort) } else { None }, 0);
        let mut w = Vec::new();
        spell(&f, &mut w);
        if i == 0 {
            w.clear();
        }
        let changes = if i > 2 { r.below(3) } else { 0 };
        for _ in 0..changes {
            match r.below(6) {
                0 if !w.is_empty() => {
                    let j = r.below(w.len());
                    w.remove(j);
                }
                1 if w.len() > 1 => {
                    let (a, b) = (r.below(w.len()), r.below(w.len()));
                    w.swap(a, b);
                }
                2 if w.len() > 1 => {
                    let a = r.below(w.len() - 1);
                    w.swap(a, a + 1);
                }
                3 => {
                    // a pair more
                    let s = r.below(n as usize + 1) as u8;
                    let a = r.below(w.len() + 1);
                    w.insert(a, Bracket::Open(s));
                    let b = r.range(a + 1, w.len());
                    w.insert(b, Bracket::Close(s));
                }
                _ => {
                    // another symbol for a matching pair
                    if let Some(mut f) = forest(&w) {
                        let s = r.below(n as usize + 1) as u8;
                        let mut left = r.below(8);
                        fn rename(f: &mut Vec<Pair>, left: &mut usize, s: u8) -> bool {
                            for p in f.iter_mut() {
                                if *left == 0 {
                                    p.sym = s;
                                    return true;
                                }
                                *left -= 1;
                                if rename(&mut p.inner, left, s) {
                                    return true;
                                }
                            }
                            false
                        }
                        rename(&mut f, &mut left, s);
                        w.clear();
                        spell(&f, &mut w);
                    }
                }
            }
        }
        if w.len() > 2 * size + 2 {
            continue;
        }
        let want = match forest(&w) {
            None => false,
            Some(f) => {
                let ps: Vec<&Pair> = f.iter().collect();
                if sorted {
                    grouped_by(&ps, &cells, &sort)
                } else {
                    grouped(&ps, &cells)
                }
            }
        };
        let detail = || format!("word {:?}; {}", w, descr);
        if let Some(got) = ctx.call("C27:recognize", || mdl.recognize(&w), detail) {
            ctx.eval();
            ctx.ev(match (want, sorted) {
                (true, false) => "members",
                (false, false) => "words outside",
                (true, true) => "members, sorted",
                (false, true) => "words outside, sorted",
            });
            if forest(&w).is_some() && !want {
                ctx.ev("Dyck words outside");
            }
            if w.len() > 4 {
                ctx.nontrivial(&(format!("{:?}", w), &descr));
            }
            ctx.check(got == want, "C27:member", || format!("recognize says {}; {}", got, detail()));
        }
        if let Some(l) = &kept {
            if let Some(got) = ctx.call("C27:kept", || l.recognize(&w), detail) {
                ctx.ev("words judged by a stored language");
                ctx.check(got == want, "C27:kept", || format!("stored language says {}; {}", got, detail()));
            }
        }
        ctx.sample(|| format!("{} {}", want, detail()));
    }
}

// ------------------------------------------------------------------ storages

/// the table of codes that the storages use
type Codes = <TreeStack<u32> as Integerisable1>::I;

fn tree_of(s: &TreeStack<u32>) -> TStore<u32> {
    let (t, at) = s.to_tree();
    TStore { tree: t.into_iter().map(|(a, x)| (a, x)).collect(), at }
}

fn stacks(ctx: &mut Ctx, r: &mut Rng) {
    let steps = r.range(5, 40);
    let syms = r.range(1, 4);
    let a0 = r.below(syms) as u32;
    // all versions stay alive, since they share structure
    let mut pool: Vec<(TreeStack<u32>, TStore<u32>)> = vec![(TreeStack::new(a0), TStore::new(a0))];
    let mut log: Vec<String> = vec![format!("new({})", a0)];
    for _ in 0..steps {
        let from = if r.chance(2, 3) { pool.len() - 1 } else { r.below(pool.len()) };
        let (s, m) = pool[from].clone();
        let kids: Vec<usize> = m.tree.keys().filter(|k| k.len() == m.at.len() + 1 && k.starts_with(&m.at)).map(|k| *k.last().unwrap()).collect();
        let occupied = r.chance(1, 2);
        let n = if !kids.is_empty() && occupied {
            *r.pick(&kids)
        } else if r.chance(1, 60) {
            *r.pick(&[9usize, 31, 32, 63, 64, 65, 127, 255, 256, 257])
        } else {
            r.below(5)
        };
        let a = r.below(syms) as u32;
        let to = |n: usize| {
            let mut x = m.at.clone();
            x.push(n);
            x
        };
        let put = |n: usize, a: u32| {
            let mut x = m.clone();
            x.at = to(n);
            x.tree.insert(x.at.clone(), a);
            x
        };
        let op = r.below(9);
        log.push(format!("{} <- #{}: op {} n {} a {}", log.len(), from, op, n, a));
        let detail = || log.join("; ");
        let free = !kids.contains(&n);
        // expected: (is it Ok, the resulting content)
        let got: Option<Result<TreeStack<u32>, TreeStack<u32>>>;
        let want: (bool, TStore<u32>);
        match op {
            0 => {
                got = ctx.call("C30:tree", || s.clone().push(n, a), detail);
                want = if free { (true, put(n, a)) } else { (false, m.clone()) };
            }
            1 => {
                let asked = Cell::new(0);
                got = ctx.call(
                    "C30:tree",
                    || {
                        s.clone().push_with(n, || {
                            asked.set(asked.get() + 1);
                            a
                        })
                    },
                    detail,
                );
                want = if free { (true, put(n, a)) } else { (false, m.clone()) };
                ctx.check(asked.get() == usize::from(free), "C30:push-with", || format!("asked {} times; {}", asked.get(), detail()));
            }
            2 => {
                let first = (0..).find(|i| !kids.contains(i)).unwrap();
                got = ctx.call("C30:tree", || s.clone().push_next(a), detail).map(Ok);
                want = (true, put(first, a));
            }
            3 | 4 => {
                got = ctx.call("C30:tree", || s.clone().up(n), detail);
                want = if free {
                    (false, m.clone())
                } else {
                    let mut x = m.clone();
                    x.at = to(n);
                    (true, x)
                };
            }
            5 | 6 => {
                got = ctx.call("C30:tree", || s.clone().down(), detail);
                want = if m.at.is_empty() {
                    (false, m.clone())
                } else {
                    let mut x = m.clone();
                    x.at.pop();
                    (true, x)
                };
            }
            7 => {
                got = ctx.call("C30:tree", || s.clone().set(a), detail).map(Ok);
                let mut x = m.clone();
                x.tree.insert(x.at.clone(), a);
                want = (true, x);
            }
            _ => {
                // all children
                if let Some(ups) = ctx.call("C30:tree", || s.clone().ups(), detail) {
                    let got: Vec<TStore<u32>> = ups.iter().map(tree_of).collect();
                    let want: Vec<TStore<u32>> = kids
                        .iter()
                        .map(|k| {
                            let mut x = m.clone();
                            x.at = to(*k);
                            x
                        })
                        .collect();
                    ctx.check(got == want, "C30:ups", || format!("{:?} instead of {:?}; {}", got, want, detail()));
                }
                let mut int = Codes::new();
                let coded = s.integerise(&mut int);
                let back = TreeStack::un_integerise(&coded, &int);
                ctx.check(back == s, "C30:coded", || format!("{} from {}; {}", back, s, detail()));
                got = Some(Ok(back.map(&mut |x| x + 1).map(&mut |x| x - 1)));
                want = (true, m.clone());
            }
        }
        let got = match got {
            None => return,
            Some(g) => g,
        };
        ctx.ev("tree stack operations");
        let ok = ctx.check(got.is_ok() == want.0, "C30:refusal", || format!("Ok is {}; {}", got.is_ok(), detail()));
        if !ok {
            return;
        }
        if got.is_err() {
            ctx.ev("operations refused");
        }
        let new = got.unwrap_or_else(|e| e);
        let t = tree_of(&new);
        if !ctx.check(t == want.1, "C30:content", || format!("{:?} instead of {:?}; {}", t, want.1, detail())) {
            return;
        }
        ctx.check(
            new.is_at_bottom() == t.at.is_empty() && *new.current_symbol() == t.tree[&t.at],
            "C30:view",
            || format!("bottom {}, symbol {}, but {:?}; {}", new.is_at_bottom(), new.current_symbol(), t, detail()),
        );
        let x = r.below(syms) as u32;
        let all = t.tree.iter().filter(|(k, _)| k.starts_with(&t.at)).all(|(_, v)| *v <= x);
        ctx.check(new.all(&|v| *v <= x) == all, "C30:all", || format!("all(<= {}) is not {}; {:?}; {}", x, all, t, detail()));
        pool.push((new, want.1));
    }
    // nothing that happened to one version is seen in another, and equality is that of contents
    for (i, (s, m)) in pool.iter().enumerate() {
        let t = tree_of(s);
        ctx.check(t == *m, "C30:version", || format!("version {} has become {:?} from {:?}; {}", i, t, m, log.join("; ")));
        for (s2, m2) in &pool[..i] {
            let eq = s == s2;
            let ord = s.cmp(s2);
            let back = s2.cmp(s);
            ctx.check(eq == (m == m2), "C30:equal", || format!("== is {}; {:?} and {:?}; {}", eq, m, m2, log.join("; ")));
            ctx.check((ord == std::cmp::Ordering::Equal) == eq && ord == back.reverse(), "C30:order", || {
                format!("{:?} and {:?} compare {:?} and {:?}; {}", m, m2, ord, back, log.join("; "))
            });
        }
    }
    let (s, m) = &pool[pool.len() - 1];
    // the picture has one line per node, with the pointer at the right one
    let text = s.to_string();
    let lines: Vec<&str> = text.lines().skip(1).step_by(2).collect();
    let good = lines.len() == m.tree.len()
        && lines.iter().zip(m.tree.iter()).all(|(l, (k, v))| {
            l.starts_with('*') == (*k == m.at)
                && match k.last() {
                    None => l[1..] == v.to_string(),
                    Some(c) => l[1..] == format!("{}+-{}: {}", "| ".repeat(k.len() - 1), c, v),
                }
        });
    ctx.check(good, "C30:picture", || format!("{}\nfor {:?}; {}", text, m, log.join("; ")));
    ctx.eval();
    ctx.nontrivial(&log.join(";"));

    // instructions
    for _ in 0..6 {
        let (s, m) = r.pick(&pool);
        let sym = |r: &mut Rng| r.below(syms) as u32;
        let cur = m.tree[&m.at];
        let cur = if r.chance(3, 4) { cur } else { sym(r) };
        let kids: Vec<usize> = m.tree.keys().filter(|k| k.len() == m.at.len() + 1 && k.starts_with(&m.at)).map(|k| *k.last().unwrap()).collect();
        let i = match r.below(3) {
            0 => TIns::Push(r.below(4), cur, sym(r)),
            1 => {
                let n = if kids.is_empty() || r.chance(1, 4) { r.below(4) } else { *r.pick(&kids) };
                let mut to = m.at.clone();
                to.push(n);
                let old = m.tree.get(&to).cloned().unwrap_or(0);
                let old = if r.chance(3, 4) { old } else { sym(r) };
                TIns::Up(n, cur, old, sym(r))
            }
            _ => {
                let old = if m.at.is_empty() { 0 } else { m.tree[&m.at[..m.at.len() - 1]] };
                let old = if r.chance(3, 4) { old } else { sym(r) };
                TIns::Down(cur, old, sym(r))
            }
        };
        let want = match &i {
            TIns::Up(n, a, b, c) => m.up(*n, a, b, c),
            TIns::Push(n, a, c) => m.push(*n, a, c),
            TIns::Down(a, b, c) => m.down(a, b, c),
        };
        let detail = || format!("{:?} on {:?}; {}", i, m, log.join("; "));
        let mut int = Codes::new();
        let coded = real_tins(&i).integerise(&mut int);
        let back: TreeStackInstruction<u32> = TreeStackInstruction::un_integerise(&coded, &int);
        ctx.check(back == real_tins(&i), "C30:instruction-coded", || format!("{:?} from {:?}", back, i));
        if let Some(got) = ctx.call("C30:instruction", || real_tins(&i).apply(s.clone()), detail) {
            let got: Vec<TStore<u32>> = got.iter().map(tree_of).collect();
            ctx.ev(if want.is_some() { "instructions applied" } else { "instructions not applicable" });
            ctx.check(got == want.into_iter().collect::<Vec<_>>(), "C30:instruction", || format!("{:?}; {}", got, detail()));
        }
    }
}

fn pushdowns(ctx: &mut Ctx, r: &mut Rng) {
    let mut pool: Vec<(Pushdown<u32>, Vec<u32>)> = vec![(Pushdown::new(), vec![])];
    let mut log = String::new();
    for _ in 0..r.range(5, 30) {
        let from = if r.chance(2, 3) { pool.len() - 1 } else { r.below(pool.len()) };
        let (s, mut m) = pool[from].clone();
        let a = r.below(3) as u32;
        let op = r.below(7);
        log.push_str(&format!("#{} op {} a {}; ", from, op, a));
        let detail = || log.clone();
        let new = match op {
            0 | 1 | 2 => {
                m.push(a);
                s.push(a)
            }
            3 => {
                let res = s.set(a);
                ctx.check(res.is_ok() == !m.is_empty(), "C30:set", detail);
                if let Some(x) = m.last_mut() {
                    *x = a;
                }
                res.unwrap_or_else(|e| e)
            }
            4 => match s.pop() {
                Ok((t, x)) => {
                    let y = m.pop();
                    ctx.check(y == Some(x), "C30:pop", || format!("popped {} instead of {:?}; {}", x, y, log));
                    t
                }
                Err(t) => {
                    ctx.check(m.is_empty(), "C30:pop", detail);
                    t
                }
            },
            5 => {
                m = m.into_iter().map(|x| x + 1).collect();
                s.map(&mut |x| x + 1)
            }
            _ => {
                let mut int = Codes::new();
                let coded = s.integerise(&mut int);
                let back = Pushdown::un_integerise(&coded, &int);
                ctx.check(back == s, "C30:pushdown-coded", || format!("{:?} from {:?}; {}", back, s, log));
                if r.chance(1, 2) {
                    back
                } else {
                    Pushdown::from(&m[..])
                }
            }
        };
        ctx.ev("pushdown operations");
        let ok = new.to_vec() == m
            && new.iter().collect::<Vec<_>>() == m
            && Into::<Vec<u32>>::into(new.clone()) == m
            && new.is_empty() == m.is_empty()
            && new.peek() == m.last().cloned()
            && new.peek_ref() == m.last();
        ctx.check(ok, "C30:pushdown", || format!("{:?} instead of {:?}; {}", new, m, log));
        pool.push((new, m));
    }
    for (i, (s, m)) in pool.iter().enumerate() {
        ctx.check(s.to_vec() == *m, "C30:pushdown-version", || format!("version {} is {:?} instead of {:?}; {}", i, s, m, log));
        for (s2, m2) in &pool[..i] {
            let (eq, ord) = (s == s2, s.cmp(s2));
            ctx.check(eq == (m == m2) && (ord == std::cmp::Ordering::Equal) == eq && ord == s2.cmp(s).reverse(), "C30:pushdown-equal", || {
                format!("{:?} and {:?}: == is {}, cmp {:?}; {}", m, m2, eq, ord, log)
            });
        }
    }
    ctx.eval();
    ctx.nontrivial(&log);

    // the pushdown of the automata
    let mut m: Vec<u32> = (0..r.range(1, 4)).map(|_| r.below(3) as u32).collect();
    let mut p = if m.len() == 2 && r.chance(1, 2) { PushDown::new(m[0], m[1]) } else { PushDown::from(m.clone()) };
    for _ in 0..10 {
        let k = r.below(4);
        let cur: Vec<u32> = (0..k)
            .map(|i| if i < m.len() && r.chance(5, 6) { m[m.len() - 1 - i] } else { r.below(3) as u32 })
            .collect();
        let new: Vec<u32> = (0..r.below(3)).map(|_| r.below(3) as u32).collect();
        let fits = k <= m.len() && cur.iter().enumerate().all(|(i, x)| m[m.len() - 1 - i] == *x);
        let mut m2 = m.clone();
        if fits {
            m2.truncate(m.len() - k);
            m2.extend(&new);
        }
        let detail = || format!("replace {:?} by {:?} on {:?}", cur, new, m);
        ctx.ev("replacements");
        let res = match ctx.call("C30:replace", || p.clone().replace(&cur, &new), detail) {
            None => return,
            Some(x) => x,
        };
        let ok = res.is_ok() == fits && res.as_ref().unwrap_or_else(|e| e).iter().cloned().collect::<Vec<_>>() == m2;
        ctx.check(ok, "C30:replace", || format!("gives {:?}; {}", res, detail()));
        let ins = PushDownInstruction::Replace { current_val: cur.clone(), new_val: new.clone() };
        let applied = ins.apply(p.clone());
        ctx.check(
            applied.len() == usize::from(fits) && applied.iter().all(|x| x.iter().cloned().collect::<Vec<_>>() == m2),
            "C30:apply",
            || format!("gives {:?}; {}", applied, detail()),
        );
        let mut int = Codes::new();
        let coded = ins.integerise(&mut int);
        let back: PushDownInstruction<u32> = PushDownInstruction::un_integerise(&coded, &int);
        ctx.check(back == ins, "C30:instruction-coded", || format!("{:?} from {:?}", back, ins));
        if fits && !m2.is_empty() {
            p = applied.into_iter().next().unwrap();
            m = m2;
            let ok = p.is_bottom() == (m.len() == 1) && p.current_symbol() == m.last().unwrap() && p.empty() == &m[0];
            ctx.check(ok, "C30:replaced", || format!("{:?} instead of {:?}", p, m));
            let up = p.map(&|x| x + 1);
            ctx.check(up.iter().cloned().eq(m.iter().map(|x| x + 1)), "C30:mapped", || format!("{:?} from {:?}", up, m));
        }
    }
}

/// long histories: deep trees, nodes with many children, and both
fn big_stacks(ctx: &mut Ctx, r: &mut Rng) {
    let mode = r.below(3);
    let steps = r.range(300, 900);
    let syms = *r.pick(&[2usize, 300]);
    let mut m: TStore<u32> = TStore::new(0);
    let mut s = TreeStack::new(0u32);
    let mut old: Vec<(TreeStack<u32>, TStore<u32>)> = vec![];
    let mut log = String::new();
    let mut deepest = 0;
    let mut widest = 0;
    for step in 0..steps {
        let kids: Vec<usize> = m.tree.keys().filter(|k| k.len() == m.at.len() + 1 && k.starts_with(&m.at)).map(|k| *k.last().unwrap()).collect();
        widest = widest.max(kids.len());
        deepest = deepest.max(m.at.len());
        let a = r.below(syms) as u32;
        // which operation
        let climb = if step < steps / 2 { 8 } else { 4 };
        let op = match mode {
            0 => {
                if r.below(10) < climb {
                    if !kids.is_empty() && r.chance(3, 4) {
                        1
                    } else {
                        0
                    }
                } else {
                    2
                }
            }
            1 => {
                if m.at.is_empty() {
                    if r.chance(9, 10) {
                        0
                    } else {
                        1
                    }
                } else if r.chance(1, 20) {
                    0
                } else {
                    2
                }
            }
            _ => r.below(4),
        };
        let first = (0..).find(|i| !kids.contains(i)).unwrap();
        let detail = |log: &str| format!("step {}; {}", step, log);
        match op {
            0 => {
                let n = if r.chance(1, 10) { first + r.below(3) } else { first };
                let free = !kids.contains(&n);
                log.push_str(&format!("push {} {};", n, a));
                let t = s.clone();
                let got = if n == first && r.chance(1, 2) {
                    ctx.call("C30:big", || Ok(t.push_next(a)), || detail(&log))
                } else if r.chance(1, 2) {
                    ctx.call("C30:big", || t.push_with(n, || a), || detail(&log))
                } else {
                    ctx.call("C30:big", || t.push(n, a), || detail(&log))
                };
                let got = match got {
                    None => return,
                    Some(g) => g,
                };
                if !ctx.check(got.is_ok() == free, "C30:big:refusal", || detail(&log)) {
                    return;
                }
                s = got.unwrap_or_else(|e| e);
                if free {
                    m.at.push(n);
                    m.tree.insert(m.at.clone(), a);
                }
            }
            1 => {
                let n = if kids.is_empty() || r.chance(1, 20) { r.below(widest + 2) } else { *r.pick(&kids) };
                log.push_str(&format!("up {};", n));
                let t = s.clone();
                let got = match ctx.call("C30:big", || t.up(n), || detail(&log)) {
                    None => return,
                    Some(g) => g,
                };
                if !ctx.check(got.is_ok() == kids.contains(&n), "C30:big:refusal", || detail(&log)) {
                    return;
                }
                if got.is_ok() {
                    m.at.push(n);
                }
                s = got.unwrap_or_else(|e| e);
            }
            2 => {
                log.push_str("down;");
                let t = s.clone();
                let got = match ctx.call("C30:big", || t.down(), || detail(&log)) {
                    None => return,
                    Some(g) => g,
                };
                if !ctx.check(got.is_ok() != m.at.is_empty(), "C30:big:refusal", || detail(&log)) {
                    return;
                }
                m.at.pop();
                s = got.unwrap_or_else(|e| e);
            }
            _ => {
                log.push_str(&format!("set {};", a));
                s = s.set(a);
                m.tree.insert(m.at.clone(), a);
            }
        }
        ctx.ev("tree stack operations");
        let ok = s.is_at_bottom() == m.at.is_empty() && *s.current_symbol() == m.tree[&m.at];
        if !ctx.check(ok, "C30:big:view", || detail(&log)) {
            return;
        }
        if step % 60 == 59 || step + 1 == steps {
            old.push((s.clone(), m.clone()));
            let t = tree_of(&s);
            if !ctx.check(t == m, "C30:big:content", || format!("{} nodes instead of {}, at {:?}; {}", t.tree.len(), m.tree.len(), t.at, detail(&log))) {
                return;
            }
            let ups: Vec<TStore<u32>> = s.clone().ups().iter().map(tree_of).collect();
            let want: Vec<TStore<u32>> = m
                .tree
                .keys()
                .filter(|k| k.len() == m.at.len() + 1 && k.starts_with(&m.at))
                .map(|k| TStore { tree: m.tree.clone(), at: k.clone() })
                .collect();
            ctx.check(ups == want, "C30:big:ups", || detail(&log));
        }
    }
    for (i, (s, m)) in old.iter().enumerate() {
        ctx.check(tree_of(s) == *m, "C30:big:version", || format!("version {}; {}", i, log));
        for (s2, m2) in &old[..i] {
            ctx.check((s == s2) == (m == m2) && s.cmp(s2) == s2.cmp(s).reverse(), "C30:big:equal", || format!("version {}; {}", i, log));
        }
    }
    // coding the values and back
    let mut int = Codes::new();
    let coded = s.integerise(&mut int);
    ctx.check(TreeStack::un_integerise(&coded, &int) == s, "C30:big:coded", || log.clone());
    if deepest >= 100 {
        ctx.ev("trees of 100 levels and more");
    }
    if widest >= 100 {
        ctx.ev("nodes with 100 children and more");
    }
    ctx.eval();
    ctx.nontrivial(&log);
}

/// pushdowns with many symbols, long replacements
fn big_pushdowns(ctx: &mut Ctx, r: &mut Rng) {
    let n = r.range(200, 1500);
    let syms = *r.pick(&[2usize, 300]);
    let start: Vec<u32> = (0..n).map(|_| r.below(syms) as u32).collect();
    let mut m = start.clone();
    let mut p = PushDown::from(m.clone());
    let mut q = Pushdown::from(&m[..]);
    for step in 0..r.range(5, 30) {
        let k = r.below(m.len().min(600) + 1);
        let mut cur: Vec<u32> = m.iter().rev().take(k).cloned().collect();
        let damaged = k > 0 && r.chance(1, 4);
        if damaged {
            // one wrong symbol anywhere, most often deep down
            let at = if r.chance(1, 2) { k - 1 } else { r.below(k) };
            cur[at] = cur[at] + 1;
        } else if r.chance(1, 10) && m.len() < 600 {
            cur = m.iter().rev().cloned().collect();
            cur.push(0);
        }
        let new: Vec<u32> = (0..*r.pick(&[0usize, 1, 3, 200, 400])).map(|_| r.below(syms) as u32).collect();
        let fits = cur.len() <= m.len() && !damaged;
        let mut m2 = m.clone();
        if fits {
            m2.truncate(m.len() - cur.len());
            m2.extend(&new);
        }
        let before = m.clone();
        let detail = || {
            format!(
                "step {}: replace {} by {} symbols of {} (damaged: {}): cur {:?}, new {:?}, on {:?}",
                step,
                cur.len(),
                new.len(),
                before.len(),
                damaged,
                cur,
                new,
                before
            )
        };
        ctx.ev("replacements");
        ctx.ev("long replacements");
        let res = match ctx.call("C30:replace", || p.clone().replace(&cur, &new), detail) {
            None => return,
            Some(x) => x,
        };
        let ok = res.is_ok() == fits && res.as_ref().unwrap_or_else(|e| e).iter().cloned().collect::<Vec<_>>() == m2;
        if !ctx.check(ok, "C30:replace", detail) {
            return;
        }
        let ins = PushDownInstruction::Replace { current_val: cur.clone(), new_val: new.clone() };
        let applied = ins.apply(p.clone());
        let ok = applied.len() == usize::from(fits) && applied.iter().all(|x| x.iter().cloned().collect::<Vec<_>>() == m2);
        ctx.check(ok, "C30:apply", detail);
        if fits && !m2.is_empty() {
            // the same with single steps
            for x in &cur {
                match q.pop() {
                    Ok((t, y)) => {
                        ctx.check(*x == y, "C30:big:pop", detail);
                        q = t;
                    }
                    Err(_) => {
                        ctx.check(false, "C30:big:pop", detail);
                        return;
                    }
                }
            }
            for x in &new {
                q = q.push(*x);
            }
            ctx.check(q.to_vec() == m2 && q == Pushdown::from(&m2[..]), "C30:big:pushdown", detail);
            p = res.unwrap();
            m = m2;
            let ok = p.is_bottom() == (m.len() == 1) && p.current_symbol() == m.last().unwrap() && p.empty() == &m[0] && p == PushDown::from(m.clone());
            ctx.check(ok, "C30:replaced", detail);
        }
    }
    let mut int = Codes::new();
    let coded = q.integerise(&mut int);
    ctx.check(Pushdown::un_integerise(&coded, &int) == q, "C30:big:coded", || format!("{:?}", m));
    let mut int = Codes::new();
    let coded = p.integerise(&mut int);
    ctx.check(PushDown::un_integerise(&coded, &int) == p, "C30:big:coded", || format!("{:?}", m));
    ctx.eval();
    ctx.nontrivial(&m);
}

pub fn c30(ctx: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 600) {
        if r.chance(1, 2) {
            return big_stacks(ctx, r);
        }
        return big_pushdowns(ctx, r);
    }
    if r.chance(2, 3) {
        stacks(ctx, r)
    } else {
        pushdowns(ctx, r)
    }
}

// ------------------------------------------------------------------ text

fn token(r: &mut Rng, s: &str) -> String {
    if r.chance(1, 3) {
        format!("\"{}\"", s)
    } else {
        s.to_string()
    }
}
fn blanks(r: &mut Rng) -> &'static str {
    r.pick(&["", " ", "  ", "\t", " "])
}
/// behind a token without quotes, to which a tab would belong
fn spaces(r: &mut Rng) -> &'static str {
    r.pick(&["", " ", "  "])
}
fn some_blanks(r: &mut Rng) -> &'static str {
    r.pick(&[" ", "  ", "\t", " "])
}
fn comment(r: &mut Rng) -> &'static str {
    r.pick(&["", "", "", " % note", "%", "\t% # 0.5", " % Transition [a] (x)"])
}

/// may a token be written without quotes?
fn bare(s: &str) -> bool {
    !s.is_empty() && !s.contains(|c: char| " \t\\\"-,;)]%#→".contains(c) || c.is_whitespace() || c.is_control())
}
/// a token, with quotes unless it stands without
fn written(r: &mut Rng, s: &str) -> String {
    if bare(s) {
        token(r, s)
    } else {
        format!("\"{}\"", s)
    }
}

/// names of states and labels: no blanks and no closing bracket in them
fn some_names(ctx: &mut Ctx, r: &mut Rng, n: usize) -> Vec<String> {
    let mut pool: Vec<String> = ["q", "p0", "é", "→x", "a_b", "Z'"].iter().map(|x| x.to_string()).collect();
    if r.chance(1, 3) {
        ctx.ev("texts with unusual names");
        for x in ["a-b", "x,y;z", "50%", "#1", "S|<x>", "(", "[k]", "a\\\"b", "\\\\", "0", "-1", "→", "->", "initial:", "final:", "Transition", "%", "日本", "\u{200b}", "1e5", "ü→", "[", "''"] {
            pool.push(x.to_string());
        }
    }
    if r.chance(1, 20) {
        pool.push("NP_SBJ|<x>".repeat(r.range(2, 60)));
        pool.push("é→".repeat(r.range(20, 200)));
    }
    r.shuffle(&mut pool);
    if n > pool.len() {
        let base = pool[0].clone();
        pool = (0..n).map(|i| format!("{}{}", base, i)).collect();
    }
    pool
}
/// terminals: any characters but line ends
fn some_words(ctx: &mut Ctx, r: &mut Rng) -> Vec<String> {
    let mut pool: Vec<String> = ["a", "b", "der", "ü", "x y", "%"].iter().map(|x| x.to_string()).collect();
    if r.chance(1, 3) {
        ctx.ev("texts with unusual terminals");
        for x in ["", " ", "\t", "a\tb", "\\\"", "a\\\\", "]", "[", "(", ")", ",", ";", "→", "-", "#", "# 0.5", "'", "日本 語", "\u{200b}", "\u{301}e", "\u{a0}", "\r", "\u{0}", "\u{1b}", "\u{fffd}", "0", "Transition", "%x"] {
            pool.push(x.to_string());
        }
    }
    if r.chance(1, 20) {
        pool.push("Donaudampfschiff".repeat(r.range(2, 60)));
        pool.push("é \\\" ".repeat(r.range(20, 200)));
    }
    r.shuffle(&mut pool);
    pool.truncate(6);
    pool
}

/// the weight with this logarithm, in one of its spellings
fn spelling(r: &mut Rng, ln: f64) -> String {
    let x = ln.exp();
    match r.below(8) {
        0 => format!("{:e}", x),
        1 => format!("{:E}", x),
        2 if x >= 0.125 => format!("{:.3}", x),
        3 => format!("+{}", x),
        4 if x > 0.0 => format!("{}", x).trim_start_matches('0').to_string(),
        _ => format!("{}", x),
    }
}

fn line(r: &mut Rng, table: &[String], word: &[char], ins: &str, ln: f64) -> String {
    let mut s = format!("{}Transition{}[", blanks(r), blanks(r));
    for (i, c) in word.iter().enumerate() {
        if i > 0 {
            s.push_str(&format!("{},", spaces(r)));
        }
        let t = written(r, &table[(*c as u8 - b'a') as usize]);
        s.push_str(&format!("{}{}", blanks(r), t));
    }
    s.push_str(&format!("{}]{}({})", spaces(r), blanks(r), ins));
    let one = ln == 0.0;
    if !one || r.chance(1, 2) {
        s.push_str(&format!("{}#{}{}", blanks(r), blanks(r), spelling(r, ln)));
    }
    s.push_str(comment(r));
    s
}

fn in_blanks(r: &mut Rng, v: &[String]) -> String {
    let mut s = blanks(r).to_string();
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push_str(some_blanks(r));
        }
        s.push_str(x);
    }
    s.push_str(blanks(r));
    s
}

/// lines in any order, with empty lines and comment lines between them
fn file(r: &mut Rng, mut lines: Vec<String>) -> String {
    if r.chance(1, 2) {
        r.shuffle(&mut lines);
    }
    let mut s = String::new();
    for l in lines {
        if r.chance(1, 4) {
            s.push_str(r.pick(&["", "  ", "\t", "% note", "  % initial: x", "%"]));
            s.push_str("\n");
        }
        s.push_str(&l);
        s.push_str(r.pick(&["\n", "\n", "\r\n", "\n\n"]));
    }
    s
}

type ST = Transition<TreeStackInstruction<String>, String, W>;

fn word_names(table: &[String], w: &[char]) -> Vec<String> {
    w.iter().map(|c| table[(*c as u8 - b'a') as usize].to_string()).collect()
}

fn same_ts<K: Ord + Clone + std::fmt::Debug>(ctx: &mut Ctx, sig: &str, mut got: Vec<(K, f64)>, mut want: Vec<(K, f64)>, detail: &dyn Fn() -> String) {
    let by = |a: &(K, f64), b: &(K, f64)| a.0.cmp(&b.0).then(a.1.partial_cmp(&b.1).unwrap());
    got.sort_by(by);
    want.sort_by(by);
    let ok = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.0 == b.0 && (a.1 == b.1 || (a.1 - b.1).abs() < 1e-9));
    ctx.check(ok, sig, || format!("{:?} instead of {:?}; {}", got, want, detail()));
}

type SIns = (u8, usize, Vec<String>);
fn sins(i: &TreeStackInstruction<String>) -> SIns {
    match i {
        TreeStackInstruction::Up { n, current_val, old_val, new_val } => (0, *n, vec![current_val.clone(), old_val.clone(), new_val.clone()]),
        TreeStackInstruction::Push { n, current_val, new_val } => (1, *n, vec![current_val.clone(), new_val.clone()]),
        TreeStackInstruction::Down { current_val, old_val, new_val } => (2, 0, vec![current_val.clone(), old_val.clone(), new_val.clone()]),
    }
}

/// the highest label
fn symbols(m: &TModel) -> u32 {
    m.ts.iter()
        .flat_map(|t| match &(t.0).1 {
            TIns::Up(_, a, b, c) | TIns::Down(a, b, c) => vec![*a, *b, *c],
            TIns::Push(_, a, c) => vec![*a, *c],
        })
        .max()
        .unwrap_or(0)
        .max(m.init)
}

/// many lines, many names, long words
fn long_word(r: &mut Rng) -> Vec<char> {
    let n = *r.pick(&[0usize, 1, 2, 5, 40, 300]);
    (0..n).map(|_| (b'a' + r.below(6) as u8) as char).collect()
}
fn big_weight(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => -300.0 * std::f64::consts::LN_10,
        1 => 9.0 * std::f64::consts::LN_2,
        _ => -(r.below(4) as f64) * std::f64::consts::LN_2,
    }
}
fn big_tsa_text(ctx: &mut Ctx, r: &mut Rng) -> TModel {
    ctx.ev("texts with hundreds of lines");
    let syms = *r.pick(&[3usize, 300, 1000]);
    let sym = |r: &mut Rng| r.below(syms) as u32;
    let ts = (0..r.range(200, 1500))
        .map(|_| {
            let w = long_word(r);
            let i = match r.below(3) {
                0 => TIns::Push(r.below(300), sym(r), sym(r)),
                1 => TIns::Down(sym(r), sym(r), sym(r)),
                _ => TIns::Up(r.below(300), sym(r), sym(r), sym(r)),
            };
            ((w, i), big_weight(r))
        })
        .collect();
    TModel { init: sym(r), ts }
}
fn big_fsa_text(ctx: &mut Ctx, r: &mut Rng) -> FModel {
    ctx.ev("texts with hundreds of lines");
    let n = *r.pick(&[3usize, 300, 1000]);
    let st = |r: &mut Rng| r.below(n) as u32;
    let ts = (0..r.range(200, 1500)).map(|_| ((long_word(r), st(r), st(r)), big_weight(r))).collect();
    let fin: BTreeSet<u32> = (0..1 + r.below(n)).map(|_| st(r)).collect();
    FModel { init: st(r), fin: fin.into_iter().collect(), ts }
}

fn tsa_text(ctx: &mut Ctx, r: &mut Rng) {
    let mut m = if r.chance(1, 1500) { big_tsa_text(ctx, r) } else { random_tsa(r) };
    for t in m.ts.iter_mut() {
        for c in (t.0).0.iter_mut() {
            if r.chance(1, 3) {
                *c = (b'a' + r.below(6) as u8) as char;
            }
        }
        if r.chance(1, 6) {
            (t.0).0.clear();
        }
    }
    let names = some_names(ctx, r, 1 + symbols(&m) as usize);
    let table = some_words(ctx, r);
    let nm = |x: u32| names[x as usize].to_string();
    // now and then positions that do not fit the narrower integers
    let far = if r.chance(1, 6) { *r.pick(&[6usize, 126, 254, 32_766, 65_534, u32::MAX as usize - 1, usize::MAX - 9]) } else { 0 };
    let highest = m.ts.iter().map(|t| if let TIns::Up(n, ..) | TIns::Push(n, ..) = (t.0).1 { n } else { 0 }).max().unwrap_or(0);
    let far = far.min(usize::MAX - highest);
    if far > 0 {
        ctx.ev("automata with high positions");
    }
    let of = |i: &TIns| -> SIns {
        match i {
            TIns::Up(n, a, b, c) => (0, *n + far, vec![nm(*a), nm(*b), nm(*c)]),
            TIns::Push(n, a, c) => (1, *n + far, vec![nm(*a), nm(*c)]),
            TIns::Down(a, b, c) => (2, 0, vec![nm(*a), nm(*b), nm(*c)]),
        }
    };
    let mut lines = Vec::new();
    for ((w, i), x) in &m.ts {
        let (k, n, v) = of(i);
        let mut parts = vec![["Up", "Push", "Down"][k as usize].to_string()];
        if k < 2 {
            parts.push(n.to_string());
        }
        parts.extend(v);
        let ins = in_blanks(r, &parts);
        lines.push(line(r, &table, w, &ins, *x));
    }
    let i0 = written(r, &nm(m.init));
    lines.push(format!("{}initial:{}{}{}{}", blanks(r), blanks(r), i0, spaces(r), comment(r).trim_start()));
    let text = file(r, lines);
    let want: Vec<((Vec<String>, SIns), f64)> = m.ts.iter().map(|((w, i), x)| ((word_names(&table, w), of(i)), *x)).collect();
    let detail = || format!("{:?}", text);
    let read = |ctx: &mut Ctx, sig: &str, s: &str| -> Option<TreeStackAutomaton<String, String, W>> {
        match ctx.call(sig, || s.parse(), || format!("{:?}", s)) {
            Some(Ok(a)) => Some(a),
            Some(Err(e)) => {
                ctx.violation(sig, format!("{}; {:?}", e, s));
                None
            }
            None => None,
        }
    };
    let a = match read(ctx, "C31:tsa", &text) {
        Some(a) => a,
        None => return,
    };
    ctx.eval();
    ctx.ev("tree-stack automata read");
    ctx.nontrivial(&text);
    ctx.sample(|| text.clone());
    let list = |a: &TreeStackAutomaton<String, String, W>| -> Vec<((Vec<String>, SIns), f64)> {
        a.list_transitions().map(|t: ST| ((t.word.clone(), sins(&t.instruction)), t.weight.ln())).collect()
    };
    same_ts(ctx, "C31:tsa-transitions", list(&a), want.clone(), &detail);
    let init = a.initial();
    ctx.check(init == TreeStack::new(nm(m.init)), "C31:tsa-initial", || format!("{:?}; {}", init, detail()));
    // printed and read again
    {
        let printed = a.to_string();
        if let Some(b) = read(ctx, "C31:tsa-again", &printed) {
            ctx.ev("automata printed and read again");
            same_ts(ctx, "C31:tsa-again", list(&b), want, &|| printed.clone());
            let init = b.initial();
            ctx.check(init == TreeStack::new(nm(m.init)), "C31:tsa-again", || format!("initial {:?}; {}", init, printed));
        }
    }
    wrong(ctx, r, &text, &|s| s.parse::<TreeStackAutomaton<String, String, W>>().is_ok(), false);
}

fn fsa_text(ctx: &mut Ctx, r: &mut Rng) {
    let big = r.chance(1, 1500);
    let m = if big { big_fsa_text(ctx, r) } else { random_fsa(r) };
    let states = m.ts.iter().map(|t| (t.0).1.max((t.0).2)).chain(m.fin.iter().cloned()).max().unwrap_or(0).max(m.init);
    let names = some_names(ctx, r, 1 + states as usize);
    let table = some_words(ctx, r);
    let nm = |x: u32| names[x as usize].to_string();
    let quoted = |r: &mut Rng, x: u32| written(r, &nm(x));
    let mut lines = Vec::new();
    for ((w, a, b), x) in &m.ts {
        let arrow = r.pick(&["→", "->"]).to_string();
        let ins = in_blanks(r, &[nm(*a), arrow, nm(*b)]);
        lines.push(line(r, &table, w, &ins, *x));
    }
    let i0 = quoted(r, m.init);
    lines.push(format!("{}initial:{}{}{}{}", blanks(r), blanks(r), i0, spaces(r), comment(r).trim_start()));
    let mut fin = String::new();
    for (i, q) in m.fin.iter().enumerate() {
        if i > 0 {
            fin.push_str(",");
        }
        fin.push_str(blanks(r));
        fin.push_str(&quoted(r, *q));
        fin.push_str(spaces(r));
    }
    let fin = format!("final:{}[{}]{}", blanks(r), fin, comment(r));
    lines.push(fin);
    let text = file(r, lines);
    let read = |ctx: &mut Ctx, sig: &str, s: &str| -> Option<FiniteStateAutomaton<String, String, W>> {
        match ctx.call(sig, || s.parse(), || format!("{:?}", s)) {
            Some(Ok(a)) => Some(a),
            Some(Err(e)) => {
                ctx.violation(sig, format!("{}; {:?}", e, s));
                None
            }
            None => None,
        }
    };
    let a = match read(ctx, "C31:fsa", &text) {
        Some(a) => a,
        None => return,
    };
    ctx.eval();
    ctx.ev("finite automata read");
    ctx.nontrivial(&text);
    type SK = (Vec<String>, String);
    let want: Vec<(SK, f64)> = m.ts.iter().map(|((w, a, b), x)| ((word_names(&table, w), format!("{} → {}", nm(*a), nm(*b))), *x)).collect();
    let list = |a: &FiniteStateAutomaton<String, String, W>| -> Vec<(SK, f64)> {
        a.list_transitions()
            .map(|t| ((t.word.clone(), {
                let i = t.instruction.to_string();
                i[1..i.len() - 1].to_string()
            }), t.weight.ln()))
            .collect()
    };
    let check = |ctx: &mut Ctx, r: &mut Rng, sig: &str, a: &FiniteStateAutomaton<String, String, W>, text: &str| {
        same_ts(ctx, sig, list(a), want.clone(), &|| text.to_string());
        let init = Automaton::<String, W>::initial(a);
        ctx.check(init == nm(m.init), sig, || format!("initial {:?}; {}", init, text));
        for _ in 0..3 {
            if big {
                break;
            }
            // a walk from the initial state
            let (mut q, mut w) = (m.init, vec![]);
            for _ in 0..r.below(5) {
                let next: Vec<&(FKey, f64)> = m.ts.iter().filter(|t| (t.0).1 == q).collect();
                if next.is_empty() {
                    break;
                }
                let t = *r.pick(&next);
                q = (t.0).2;
                w.extend((t.0).0.iter().cloned());
            }
            if let Some((runs, _)) = m.runs(&w, 2000) {
                let names = word_names(&table, &w);
                let b = a;
                if let Some(items) = ctx.call(sig, || rustomata::recognisable::automaton::recognise(b, names.clone()).count(), || text.to_string()) {
                    ctx.ev(if runs.is_empty() { "words rejected" } else { "words accepted" });
                    ctx.check(items == runs.len(), sig, || format!("word {:?}: {} runs instead of {}; {}", names, items, runs.len(), text));
                }
            }
        }
    };
    check(ctx, r, "C31:fsa-automaton", &a, &text);
    let printed = a.to_string();
    if let Some(b) = read(ctx, "C31:fsa-again", &printed) {
        ctx.ev("automata printed and read again");
        check(ctx, r, "C31:fsa-again", &b, &printed);
    }
    wrong(ctx, r, &text, &|s| s.parse::<FiniteStateAutomaton<String, String, W>>().is_ok(), true);
}

/// What is no automaton is an error; no text makes the reader panic.
fn wrong(ctx: &mut Ctx, r: &mut Rng, text: &str, reads: &dyn Fn(&str) -> bool, fsa: bool) {
    // damage anywhere
    let cs: Vec<char> = text.chars().collect();
    for _ in 0..3 {
        let mut v = cs.clone();
        for _ in 0..r.range(1, 3) {
            let i = r.below(v.len());
            match r.below(4) {
                0 => {
                    v.remove(i);
                }
                1 => v.insert(i, *r.pick(&['"', '\\', '(', ')', '[', ']', '#', '%', ',', '→', ' ', '9', '-', '\n', 'é'])),
                2 => v[i] = *r.pick(&['"', '\\', '(', ')', '[', ']', '#', '%', ',', '→', ' ', '9', '-', '\n', 'é']),
                _ => v.truncate(i),
            }
            if v.is_empty() {
                v.push(' ');
            }
        }
        let s: String = v.into_iter().collect();
        ctx.ev("damaged texts");
        ctx.call("C31:panic", || reads(&s), || format!("{:?}", s));
    }
    // damage that leaves no automaton
    let bad: Vec<&str> = if fsa {
        vec![
            "Transition [a] (q → ) # 1", "Transition [a] (q p) # 1", "Transition [a] () # 1", "Transition [a] (q => p) # 1",
            "Transition [a (q → p) # 1", "Transition a] (q → p) # 1", "Transition [a] (q → p # 1", "Transition [a] q → p # 1",
            "Transition [a] (q → p) # x", "Transition [a] (q → p) # 0.5x", "Transition [a] (q → p) # -1", "Transition [a] (q → p) # 1 1",
            "Transition [a] (q → p) #", "[a] (q → p) # 1", "Transition (q → p) # 1", "Transition", "Transition [a]", "x", "Transition [a] (q → p r) # 1",
        ]
    } else {
        vec![
            "Transition [a] (Up 0 q q) # 1", "Transition [a] (Up x q q q) # 1", "Transition [a] (Push 0 q) # 1", "Transition [a] (Push -1 q q) # 1",
            "Transition [a] (Down q q) # 1", "Transition [a] (Down 0 q q q) # 1", "Transition [a] () # 1", "Transition [a] (  ) # 1",
            "Transition [a] (Left 0 q q) # 1", "Transition [a (Down q q q) # 1", "Transition [a] (Down q q q # 1", "Transition [a] Down q q q # 1",
            "Transition [a] (Down q q q) # x", "Transition [a] (Down q q q) # 1e", "Transition [a] (Down q q q) # -1",
            "Transition [a] (Down q q q) # 1 1", "Transition [a] (Down q q q) #", "Transition [a] (Push 99999999999999999999 q q) # 1", "y", "Transition",
            "Transition [a] (Push 1.0 q q)", "Transition [a] (up 0 q q q)",
        ]
    };
    let line = *r.pick(&bad);
    let mut ls: Vec<&str> = text.lines().collect();
    let at = r.below(ls.len() + 1);
    ls.insert(at, line);
    let s = ls.join("\n");
    ctx.ev("texts with a malformed transition");
    if let Some(ok) = ctx.call("C31:malformed", || reads(&s), || format!("{:?}", s)) {
        ctx.check(!ok, "C31:malformed", || format!("{:?} was read, in {:?}", line, s));
    }
    // without its declaration
    let without: &str = if fsa && r.chance(1, 2) { "final:" } else { "initial:" };
    let s: Vec<&str> = text.lines().filter(|l| !l.trim_start().starts_with(without)).collect();
    let s = s.join("\n");
    ctx.ev("texts without a declaration");
    if let Some(ok) = ctx.call("C31:undeclared", || reads(&s), || format!("{:?}", s)) {
        ctx.check(!ok, "C31:undeclared", || format!("read without {} : {:?}", without, s));
    }
    // a declaration that declares nothing
    let empty: &str = if without == "final:" { *r.pick(&["final:", "final: [", "final: [q", "final: [q,", "final: q", "final: q]", "final: []"]) } else { *r.pick(&["initial:", "initial: ", "initial: \"q"]) };
    let s: Vec<&str> = text.lines().map(|l| if l.trim_start().starts_with(without) { empty } else { l }).collect();
    let s = s.join("\n");
    ctx.ev("texts with a declaration of nothing");
    if let Some(ok) = ctx.call("C31:undeclared", || reads(&s), || format!("{:?}", s)) {
        ctx.check(!ok, "C31:undeclared", || format!("read with {:?}: {:?}", empty, s));
    }
}

/// states that are numbers, terminals that are characters, weights that are numbers: what is no
/// number or no single character is an error
fn typed_text(ctx: &mut Ctx, r: &mut Rng) {
    let fsa = r.chance(1, 2);
    let number = |r: &mut Rng| *r.pick(&[0usize, 1, 2, 9, 10, 255, 256, 65_535, 65_536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX - 1, usize::MAX]);
    let chars: Vec<char> = "ab,]\"%→é日 #0".chars().filter(|c| *c != '"').collect();
    type Key = (Vec<char>, Vec<usize>, usize);
    let mut want: Vec<Key> = vec![];
    let mut lines = vec![];
    // at most one thing that is wrong
    let damage = if r.chance(1, 3) { 1 + r.below(3) } else { 0 };
    let n = r.range(1, 6);
    let bad = r.below(n);
    for k in 0..n {
        let w: Vec<char> = (0..r.below(4)).map(|_| *r.pick(&chars)).collect();
        let (a, b, c) = (number(r), number(r), number(r));
        let x = r.below(4);
        let mut toks: Vec<String> = w.iter().map(|c| written(r, &c.to_string())).collect();
        let (mut parts, key) = if fsa {
            (vec![a.to_string(), r.pick(&["→", "->"]).to_string(), b.to_string()], vec![a, b])
        } else {
            (vec!["Down".to_string(), a.to_string(), b.to_string(), c.to_string()], vec![a, b, c])
        };
        let mut weight = x.to_string();
        if damage > 0 && k == bad {
            match damage {
                1 => {
                    let t = *r.pick(&["ab", "éé", "", "\\\\"]);
                    toks.push(written(r, t));
                }
                2 => {
                    let i = parts.len() - 1;
                    parts[i] = r.pick(&["q", "-1", "18446744073709551616", "1.0", "0x1", "\"1\"", "é", "1,"]).to_string();
                }
                _ => weight = r.pick(&["0.5", "-1", "x", "1e0", "18446744073709551616", "\"1\"", "1,"]).to_string(),
            }
        }
        let mut l = format!("{}Transition{}[", blanks(r), blanks(r));
        for (i, t) in toks.iter().enumerate() {
            if i > 0 {
                l.push_str(&format!("{},", spaces(r)));
            }
            l.push_str(&format!("{}{}", blanks(r), t));
        }
        let ins = in_blanks(r, &parts);
        l.push_str(&format!("{}]{}({}){}#{}{}{}", spaces(r), blanks(r), ins, blanks(r), blanks(r), weight, comment(r)));
        lines.push(l);
        want.push((w, key, x));
    }
    let (q, f) = (number(r), number(r));
    let i0 = token(r, &q.to_string());
    lines.push(format!("initial:{}{}", blanks(r), i0));
    if fsa {
        let f0 = token(r, &f.to_string());
        lines.push(format!("final:{}[{}]", blanks(r), f0));
    }
    let text = file(r, lines);
    want.sort();
    let detail = || format!("{:?}", text);
    ctx.eval();
    ctx.nontrivial(&text);
    ctx.ev(if damage > 0 { "typed texts with a mistake" } else { "typed texts" });
    let mut texts = vec![text.clone()];
    while let Some(text) = texts.pop() {
        let got: Option<Result<(Vec<Key>, Vec<usize>, String), String>> = if fsa {
            ctx.call(
                "C31:typed",
                || {
                    text.parse::<FiniteStateAutomaton<usize, char, usize>>().map(|a| {
                        let v = a
                            .list_transitions()
                            .map(|t| {
                                let i: Vec<usize> = t.instruction.to_string().trim_matches(|c| c == '(' || c == ')').split(" → ").map(|x| x.parse().unwrap()).collect();
                                (t.word.clone(), i, t.weight)
                            })
                            .collect();
                        (v, vec![Automaton::<char, usize>::initial(&a)], a.to_string())
                    })
                },
                detail,
            )
        } else {
            ctx.call(
                "C31:typed",
                || {
                    text.parse::<TreeStackAutomaton<usize, char, usize>>().map(|a| {
                        let v = a
                            .list_transitions()
                            .map(|t: Transition<TreeStackInstruction<usize>, char, usize>| match t.instruction {
                                TreeStackInstruction::Down { current_val, old_val, new_val } => (t.word.clone(), vec![current_val, old_val, new_val], t.weight),
                                _ => (t.word.clone(), vec![], t.weight),
                            })
                            .collect();
                        (v, vec![*a.initial().current_symbol()], a.to_string())
                    })
                },
                detail,
            )
        };
        match got {
            None => (),
            Some(Err(e)) => {
                ctx.check(damage > 0, "C31:typed:rejected", || format!("{}; {:?}; first {}", e, text, detail()));
            }
            Some(Ok((mut v, init, printed))) => {
                if !ctx.check(damage == 0, "C31:typed:accepted", detail) {
                    return;
                }
                v.sort();
                ctx.check(v == want, "C31:typed:transitions", || format!("{:?} instead of {:?}; {:?}; first {}", v, want, text, detail()));
                ctx.check(init == vec![q], "C31:typed:initial", || format!("{:?}; {:?}; first {}", init, text, detail()));
                // the printed one once
                if printed != text && texts.is_empty() && !text.starts_with("initial: \"") {
                    texts.push(printed);
                }
            }
        }
    }
}

pub fn c31(ctx: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 8) {
        return typed_text(ctx, r);
    }
    if r.chance(1, 2) {
        tsa_text(ctx, r)
    } else {
        fsa_text(ctx, r)
    }
}
