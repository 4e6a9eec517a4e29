//! C01-C03: search and agendas.  The monitor keeps a model of the frontier, fed by the calls of the
//! successor function, and judges every item the iterator yields against it.
use kit::{Ctx, Rng};
use search::agenda::weighted::Weighted;
use search::agenda::{beam_heap, binary_heap, limited_heap, Agenda};
use search::{BeamHeap, LimitedHeap, Search};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::ops::Mul;

/// a weight with exact arithmetic: the product adds exponents
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Tw(pub i64);
impl Mul for Tw {
    type Output = Tw;
    fn mul(self, o: Tw) -> Tw {
        Tw(self.0 + o.0)
    }
}

/// every pushed item carries a unique id, so that a yield identifies the push it answers
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct It {
    node: usize,
    uid: usize,
    w: Tw,
}
impl Weighted for It {
    type Weight = Tw;
    fn get_weight(&self) -> Tw {
        self.w
    }
}

#[derive(Clone, Debug, Hash)]
struct Graph {
    edges: Vec<Vec<(usize, i64)>>,
    init: Vec<(usize, i64)>,
}

fn graph(r: &mut Rng, acyclic: bool, max_nodes: usize) -> Graph {
    if r.chance(1, 3000) {
        // one node with very many successors, or very many initial nodes
        let n = *r.pick(&[1100usize, 2100, 4200]);
        let first = r.chance(1, 4);
        let mut edges = vec![Vec::new(); n];
        let all: Vec<(usize, i64)> = (1..n).map(|i| (i, -((i * 7 % 11) as i64))).collect();
        let init = if first {
            all
        } else {
            edges[0] = all;
            vec![(0, 0)]
        };
        return Graph { edges, init };
    }
    let big = r.chance(1, 150);
    let n = if big { r.range(200, 800) } else { r.range(1, max_nodes) };
    let wr = r.range(1, 6);
    // how much better than the item a successor may be
    let better = if r.chance(1, 3) { r.range(1, 4) as i64 } else { 0 };
    let mut edges = vec![Vec::new(); n];
    let dens = r.range(0, 4);
    for (a, es) in edges.iter_mut().enumerate() {
        for _ in 0..r.range(0, dens) {
            let lo = if acyclic { a + 1 } else { 0 };
            if lo < n {
                es.push((r.range(lo, n - 1), better - r.below(wr) as i64));
            }
        }
    }
    let mut init = Vec::new();
    for _ in 0..r.range(0, if big { 300 } else { 3 }) {
        init.push((r.below(n), better - r.below(wr) as i64));
    }
    if init.is_empty() && r.chance(9, 10) {
        init.push((0, 0));
    }
    Graph { edges, init }
}

#[derive(Default)]
struct Log {
    next_uid: usize,
    batch: usize,
    /// uid -> (node, weight, batch, depth)
    frontier: BTreeMap<usize, (usize, Tw, usize, usize)>,
    depth: BTreeMap<usize, usize>,
    calls: Vec<usize>,
    pushes: usize,
}

impl Log {
    fn batch(&mut self, g: &Graph, from: Option<&It>) -> Vec<It> {
        self.batch += 1;
        let (list, depth, base) = match from {
            None => (&g.init, 0, Tw(0)),
            Some(i) => {
                self.calls.push(i.uid);
                (&g.edges[i.node], self.depth[&i.uid] + 1, i.w)
            }
        };
        list.iter()
            .map(|&(node, w)| {
                let uid = self.next_uid;
                self.next_uid += 1;
                self.pushes += 1;
                let it = It {
                    node,
                    uid,
                    w: base * Tw(w),
                };
                self.depth.insert(uid, depth);
                self.frontier.insert(uid, (node, it.w, self.batch, depth));
                it
            })
            .collect()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Dfs,
    Bfs,
    Weighted,
}

fn drive<I: Iterator<Item = It>>(
    ctx: &mut Ctx,
    g: &Graph,
    kind: Kind,
    log: &RefCell<Log>,
    mut it: I,
    limit: usize,
    // whether the initial items are also to come in the order of pushing
    ordered_initials: bool,
) {
    let mut yielded = 0;
    let d = |l: &Log| format!("{:?} search on {:?}; pushes {}, model frontier {:?}", kind, g, l.pushes, l.frontier);
    loop {
        let calls_before = log.borrow().calls.len();
        // the discipline is judged on the frontier as it was before this step
        let expect: Option<(Tw, usize, usize, usize, usize)> = {
            let l = log.borrow();
            // batches are numbered like the pushes, so the ends of the frontier hold the newest and the oldest
            let best = if kind == Kind::Weighted { l.frontier.values().map(|f| f.1).max() } else { l.frontier.values().next().map(|f| f.1) };
            let newest = l.frontier.values().next_back().map(|f| f.2);
            let oldest = l.frontier.values().next().map(|f| f.2);
            let last = l.frontier.keys().next_back().cloned();
            let first = l.frontier.keys().next().cloned();
            best.map(|b| (b, newest.unwrap(), oldest.unwrap(), last.unwrap(), first.unwrap()))
        };
        let next = match kit::guarded(|| it.next()) {
            Ok(n) => n,
            Err(e) => {
                ctx.violation("C01:panic", format!("{}; {}", e, d(&log.borrow())));
                return;
            }
        };
        match next {
            None => {
                let l = log.borrow();
                ctx.check(l.frontier.is_empty(), "C01:ended-early", || {
                    format!("the search ended while items were waiting: {}", d(&l))
                });
                ctx.check(l.calls.len() == calls_before, "C01:spurious-expansion", || d(&l));
                ctx.ev("searches run to the end");
                // asked again, it stays at its end
                drop(l);
                for _ in 0..2 {
                    if let Ok(n) = kit::guarded(|| it.next()) {
                        ctx.check(n.is_none() && log.borrow().calls.len() == calls_before, "C01:restarted", || format!("yielded {:?} after its end", n));
                    }
                }
                break;
            }
            Some(item) => {
                yielded += 1;
                let mut l = log.borrow_mut();
                // only the step's own expansion may have happened
                if !ctx.check(l.calls.len() == calls_before + 1 && l.calls[calls_before] == item.uid, "C01:expansion", || {
                    format!("item {:?} was yielded, but the successor function was called on {:?}", item, &l.calls[calls_before..])
                }) {
                    return;
                }
                match l.frontier.remove(&item.uid) {
                    None => {
                        ctx.violation("C01:not-waiting", format!("yielded {:?}, which was not waiting (never pushed, or yielded before); {}", item, d(&l)));
                        return;
                    }
                    Some((node, w, batch, _depth)) => {
                        ctx.check((node, w) == (item.node, item.w), "C01:altered", || format!("{:?} {:?}", item, (node, w)));
                        let (best, newest, oldest, last, first) = expect.unwrap();
                        let ordered = batch > 1 || ordered_initials;
                        match kind {
                            Kind::Weighted => {
                                ctx.check(w == best, "C01:not-best-first", || {
                                    format!("yielded {:?} although an item of weight {:?} was waiting; {}", item, best, d(&l))
                                });
                            }
                            Kind::Dfs => {
                                ctx.check(batch == newest, "C01:not-depth-first", || {
                                    format!("yielded {:?} of expansion {} while items of the later expansion {} were waiting; {}", item, batch, newest, d(&l))
                                });
                                ctx.check(!ordered || item.uid == last, "C01:not-last-first", || {
                                    format!("yielded {:?} while #{} of the same batch, pushed later, was waiting; {}", item, last, d(&l))
                                });
                            }
                            Kind::Bfs => {
                                ctx.check(batch == oldest, "C01:not-breadth-first", || {
                                    format!("yielded {:?} of expansion {} while items of the earlier expansion {} were waiting; {}", item, batch, oldest, d(&l))
                                });
                                ctx.check(!ordered || item.uid == first, "C01:not-first-first", || {
                                    format!("yielded {:?} while #{} of the same batch, pushed earlier, was waiting; {}", item, first, d(&l))
                                });
                            }
                        }
                    }
                }
                ctx.ev("items yielded");
            }
        }
        if yielded >= limit {
            ctx.ev("searches cut off at the step limit");
            break;
        }
    }
    ctx.ev_n("items pushed", log.borrow().pushes as u64);
}

pub fn c01(ctx: &mut Ctx, r: &mut Rng) {
    let acyclic = r.chance(2, 3);
    let g = graph(r, acyclic, 10);
    let limit = if g.edges.len() > 1000 { 5000 } else if g.edges.len() > 100 { 1200 } else { 400 };
    if g.edges.len() > 1000 {
        ctx.ev("graphs with more than 1000 successors of a node");
    }
    for kind in [Kind::Dfs, Kind::Bfs, Kind::Weighted] {
        ctx.eval();
        let log = RefCell::new(Log::default());
        let init = log.borrow_mut().batch(&g, None);
        let succ = |i: &It| log.borrow_mut().batch(&g, Some(i));
        match kind {
            Kind::Dfs => drive(ctx, &g, kind, &log, Search::dfs(init, succ), limit, false),
            Kind::Bfs => drive(ctx, &g, kind, &log, Search::bfs(init, succ), limit, false),
            Kind::Weighted => drive(ctx, &g, kind, &log, Search::weighted(init, succ), limit, false),
        }
        if log.borrow().pushes > 3 {
            ctx.nontrivial(&(kind as u8, &g));
        }
    }
    // the same with an agenda handed in, already filled through its interface
    ctx.eval();
    let log = RefCell::new(Log::default());
    let init = log.borrow_mut().batch(&g, None);
    let succ = |i: &It| log.borrow_mut().batch(&g, Some(i));
    match r.below(3) {
        0 => {
            let mut a: Vec<It> = Vec::new();
            Agenda::extend(&mut a, init);
            drive(ctx, &g, Kind::Dfs, &log, Search::with_agenda(a, succ), limit, true)
        }
        1 => {
            let mut a: VecDeque<It> = VecDeque::new();
            Agenda::extend(&mut a, init);
            drive(ctx, &g, Kind::Bfs, &log, Search::with_agenda(a, succ), limit, true)
        }
        _ => {
            let mut a = binary_heap::weighted::BinaryHeap::new();
            for i in init {
                a.push(i);
            }
            drive(ctx, &g, Kind::Weighted, &log, Search::with_agenda(a, succ), limit, true)
        }
    }
    ctx.sample(|| format!("{:?}", g));
}

// ------------------------------------------------------------------ C02

/// a node with a weight that is a function of the node
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Nd(usize, i64);
impl Weighted for Nd {
    type Weight = i64;
    fn get_weight(&self) -> i64 {
        self.1
    }
}

/// a node with the weight of the path it was reached on; the same node is the same item, however it was reached
#[derive(Clone, Debug)]
struct Reached(usize, i64);
impl PartialEq for Reached {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Reached {}
impl PartialOrd for Reached {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Reached {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl Weighted for Reached {
    type Weight = i64;
    fn get_weight(&self) -> i64 {
        self.1
    }
}

/// weights of paths: the search for the best paths
fn best_paths(ctx: &mut Ctx, r: &mut Rng, g: &Graph) {
    let n = g.edges.len();
    let cost: Vec<Vec<(usize, i64)>> = g.edges.iter().map(|es| es.iter().map(|(b, _)| (*b, -(r.below(7) as i64))).collect()).collect();
    let init: Vec<Reached> = g.init.iter().map(|(i, _)| Reached(*i, -(r.below(5) as i64))).collect();
    let mut best: BTreeMap<usize, i64> = BTreeMap::new();
    let mut todo: VecDeque<(usize, i64)> = init.iter().map(|i| (i.0, i.1)).collect();
    while let Some((a, w)) = todo.pop_front() {
        if best.get(&a).map_or(true, |b| w > *b) {
            best.insert(a, w);
            for (b, c) in &cost[a] {
                todo.push_back((*b, w + c));
            }
        }
    }
    ctx.eval();
    let succ = |i: &Reached| -> Vec<Reached> { cost[i.0].iter().map(|(b, c)| Reached(*b, i.1 + c)).collect() };
    let d = || format!("costs {:?}, initial {:?}", cost, init);
    if let Some(got) = ctx.call("unique best paths", || Search::weighted(init.clone(), succ).uniques().take(n + 2).collect::<Vec<_>>(), d) {
        ctx.ev_n("nodes reached on best paths", got.len() as u64);
        let ok = got.len() == best.len() && got.windows(2).all(|p| p[0].1 >= p[1].1) && got.iter().all(|i| best.get(&i.0) == Some(&i.1));
        ctx.check(ok, "C02:best-path", || format!("{}: {:?}, expected {:?}", d(), got, best));
    }
}

pub fn c02(ctx: &mut Ctx, r: &mut Rng) {
    let g = graph(r, r.clone().chance(1, 4), 14);
    let n = g.edges.len();
    let weights: Vec<i64> = (0..n).map(|_| r.below(5) as i64 - 2).collect();
    // distance from the initial nodes
    let mut dist: BTreeMap<usize, usize> = BTreeMap::new();
    let mut queue: VecDeque<usize> = VecDeque::new();
    for (i, _) in &g.init {
        if dist.insert(*i, 0).is_none() {
            queue.push_back(*i);
        }
    }
    while let Some(a) = queue.pop_front() {
        let d = dist[&a];
        for (b, _) in &g.edges[a] {
            if !dist.contains_key(b) {
                dist.insert(*b, d + 1);
                queue.push_back(*b);
            }
        }
    }
    for kind in [Kind::Dfs, Kind::Bfs, Kind::Weighted] {
        ctx.eval();
        let calls: RefCell<Vec<usize>> = RefCell::new(Vec::new());
        let node = |i: usize| Nd(i, weights[i]);
        let init: Vec<Nd> = g.init.iter().map(|(i, _)| node(*i)).collect();
        let succ = |i: &Nd| -> Vec<Nd> {
            calls.borrow_mut().push(i.0);
            g.edges[i.0].iter().map(|(b, _)| node(*b)).collect()
        };
        // at most one more than there can be; an iterator may also be asked again after its end
        let bound = n + 2;
        let got = match kind {
            Kind::Dfs => ctx.call("unique dfs", || Search::dfs(init, succ).uniques().take(bound).collect::<Vec<_>>(), || format!("{:?}", g)),
            Kind::Bfs => ctx.call("unique bfs", || Search::bfs(init, succ).uniques().take(bound).collect::<Vec<_>>(), || format!("{:?}", g)),
            Kind::Weighted => ctx.call("unique weighted", || Search::weighted(init, succ).uniques().take(bound).collect::<Vec<_>>(), || format!("{:?}", g)),
        };
        let got = match got {
            Some(g) => g,
            None => continue,
        };
        let ids: Vec<usize> = got.iter().map(|n| n.0).collect();
        let set: BTreeSet<usize> = ids.iter().cloned().collect();
        let detail = || format!("{:?} on {:?}: enumerated {:?}, reachable {:?}", kind, g, ids, dist.keys().collect::<Vec<_>>());
        ctx.check(set.len() == ids.len(), "C02:duplicate", detail);
        ctx.check(dist.keys().all(|k| set.contains(k)), "C02:missing", detail);
        ctx.check(set.iter().all(|k| dist.contains_key(k)), "C02:unreachable", detail);
        let mut c = calls.borrow().clone();
        c.sort();
        let expanded_once = c.windows(2).all(|w| w[0] != w[1]);
        ctx.check(expanded_once, "C02:expanded-twice", detail);
        match kind {
            Kind::Bfs => {
                let ds: Vec<usize> = ids.iter().filter_map(|i| dist.get(i).cloned()).collect();
                ctx.check(ds.windows(2).all(|w| w[0] <= w[1]), "C02:not-by-distance", || format!("{}; distances {:?}", detail(), ds));
            }
            Kind::Weighted => {
                // replay: every yielded node is of greatest weight among those reachable in one step and not yielded
                let mut seen: BTreeSet<usize> = BTreeSet::new();
                let mut frontier: BTreeSet<usize> = g.init.iter().map(|(i, _)| *i).collect();
                for i in &ids {
                    let best = frontier.iter().map(|f| weights[*f]).max();
                    if !ctx.check(best == Some(weights[*i]) && frontier.contains(i), "C02:not-best-first", || {
                        format!("{}; weights {:?}: yielded {} while {:?} were waiting", detail(), weights, i, frontier)
                    }) {
                        break;
                    }
                    seen.insert(*i);
                    frontier.remove(i);
                    for (b, _) in &g.edges[*i] {
                        if !seen.contains(b) {
                            frontier.insert(*b);
                        }
                    }
                }
            }
            Kind::Dfs => {
                // each node is a successor of a node enumerated before, or initial
                for (k, i) in ids.iter().enumerate() {
                    let ok = g.init.iter().any(|(x, _)| x == i)
                        || ids[..k].iter().any(|p| g.edges[*p].iter().any(|(b, _)| b == i));
                    ctx.check(ok, "C02:out-of-order", detail);
                }
            }
        }
        ctx.ev_n("nodes enumerated", ids.len() as u64);
        let pushes: usize = g.init.len() + ids.iter().map(|i| g.edges[*i].len()).sum::<usize>();
        if pushes > ids.len() {
            ctx.ev("graphs with a node reached more than once");
            ctx.nontrivial(&(kind as u8, &g));
        }
    }
    if n <= 100 {
        best_paths(ctx, r, &g);
    }
    // with a bounded agenda some may be lost, but what comes is reachable, and comes and is expanded once
    ctx.eval();
    let calls: RefCell<Vec<usize>> = RefCell::new(Vec::new());
    let node = |i: usize| Nd(i, weights[i]);
    let succ = |i: &Nd| -> Vec<Nd> {
        calls.borrow_mut().push(i.0);
        g.edges[i.0].iter().map(|(b, _)| node(*b)).collect()
    };
    let mut a = limited_heap::weighted::LimitedHeap::with_capacity(r.range(1, 8));
    for (i, _) in &g.init {
        a.push(node(*i));
    }
    if let Some(got) = ctx.call("unique bounded", || Search::with_agenda(a, succ).uniques().take(n + 2).collect::<Vec<_>>(), || format!("{:?}", g)) {
        let set: BTreeSet<usize> = got.iter().map(|n| n.0).collect();
        let calls: Vec<usize> = calls.borrow().clone();
        ctx.ev_n("nodes enumerated with a bounded agenda", got.len() as u64);
        ctx.check(
            set.len() == got.len() && set.iter().all(|k| dist.contains_key(k)) && calls == got.iter().map(|n| n.0).collect::<Vec<_>>() && (got.is_empty() == g.init.is_empty()),
            "C02:bounded",
            || format!("{:?}: enumerated {:?}, expanded {:?}", g, got, calls),
        );
    }
    ctx.sample(|| format!("{:?}", g));
}

// ------------------------------------------------------------------ C03

#[derive(Clone, Debug)]
struct E {
    uid: usize,
    w: Tw,
}
impl Weighted for E {
    type Weight = Tw;
    fn get_weight(&self) -> Tw {
        self.w
    }
}

/// one interface over the heaps, with and without the weighted adapter
enum H {
    Lim(LimitedHeap<usize, Tw>),
    LimW(limited_heap::weighted::LimitedHeap<E>),
    Beam(BeamHeap<usize, Tw>),
    BeamW(beam_heap::weighted::BeamHeap<E>),
    Bin(binary_heap::weighted::BinaryHeap<E>),
    AgLim(limited_heap::weighted::LimitedHeap<E>),
    AgBeam(beam_heap::weighted::BeamHeap<E>),
    AgBin(binary_heap::weighted::BinaryHeap<E>),
}

enum Pushed {
    /// nothing is told
    Quiet,
    Accepted(bool),
    Evicted(Option<usize>),
}

impl H {
    fn push(&mut self, uid: usize, w: Tw) -> Pushed {
        match self {
            H::Lim(h) => Pushed::Evicted(h.push(uid, w)),
            H::LimW(h) => Pushed::Evicted(h.push(E { uid, w }).map(|e| e.uid)),
            H::Beam(h) => Pushed::Accepted(h.push(uid, w)),
            H::BeamW(h) => Pushed::Accepted(h.push(E { uid, w })),
            H::Bin(h) => {
                h.push(E { uid, w });
                Pushed::Quiet
            }
            H::AgLim(h) => {
                Agenda::push(h, E { uid, w });
                Pushed::Quiet
            }
            H::AgBeam(h) => {
                Agenda::push(h, E { uid, w });
                Pushed::Quiet
            }
            H::AgBin(h) => {
                Agenda::extend(h, vec![E { uid, w }]);
                Pushed::Quiet
            }
        }
    }
    fn pop(&mut self) -> Option<usize> {
        match self {
            H::Lim(h) => h.pop(),
            H::LimW(h) => h.pop().map(|e| e.uid),
            H::Beam(h) => h.pop(),
            H::BeamW(h) => h.pop().map(|e| e.uid),
            H::Bin(h) => h.pop().map(|e| e.uid),
            H::AgLim(h) => Agenda::pop(h).map(|e| e.uid),
            H::AgBeam(h) => Agenda::pop(h).map(|e| e.uid),
            H::AgBin(h) => Agenda::pop(h).map(|e| e.uid),
        }
    }
    fn peek(&self) -> Option<usize> {
        match self {
            H::Lim(h) => h.peek().cloned(),
            H::LimW(h) => h.peek().map(|e| e.uid),
            H::Beam(h) => h.peek().cloned(),
            H::BeamW(h) => h.peek().map(|e| e.uid),
            H::Bin(h) => h.peek().map(|e| e.uid),
            H::AgLim(h) => Agenda::peek(h).map(|e| e.uid),
            H::AgBeam(h) => Agenda::peek(h).map(|e| e.uid),
            H::AgBin(h) => Agenda::peek(h).map(|e| e.uid),
        }
    }
    fn len(&self) -> usize {
        match self {
            H::Lim(h) => h.len(),
            H::LimW(h) => h.len(),
            H::Beam(h) => h.len(),
            H::BeamW(h) => h.len(),
            H::Bin(h) => h.len(),
            H::AgLim(h) => {
                let l = Agenda::len(h);
                assert_eq!(Agenda::is_empty(h), l == 0, "is_empty disagrees with len");
                l
            }
            H::AgBeam(h) => Agenda::len(h),
            H::AgBin(h) => Agenda::len(h),
        }
    }
    fn clear(&mut self) {
        match self {
            H::Lim(h) => h.clear(),
            H::LimW(h) | H::AgLim(h) => h.clear(),
            H::Beam(h) => h.clear(),
            H::BeamW(h) | H::AgBeam(h) => h.clear(),
            H::Bin(h) | H::AgBin(h) => h.clear(),
        }
    }
    fn clone_(&self) -> Option<H> {
        match self {
            H::Lim(h) => Some(H::Lim(h.clone())),
            H::Beam(h) => Some(H::Beam(h.clone())),
            _ => None,
        }
    }
    fn drain(self) -> Vec<usize> {
        match self {
            H::Lim(h) => h.into_iter().collect(),
            H::LimW(h) | H::AgLim(h) => h.into_iter().map(|e| e.uid).collect(),
            H::Beam(h) => h.into_iter().collect(),
            H::BeamW(h) | H::AgBeam(h) => h.into_iter().map(|e| e.uid).collect(),
            H::Bin(h) | H::AgBin(h) => h.into_iter().map(|e| e.uid).collect(),
        }
    }
}

pub fn c03(ctx: &mut Ctx, r: &mut Rng) {
    let long = r.chance(1, 100);
    let cap = if long { r.range(20, 200) } else { *r.pick(&[0usize, 1, 1, 2, 3, 5, 8, 16]) };
    let beta = Tw(-(r.below(6) as i64));
    let which = r.below(8);
    let mut h = match which {
        0 => H::Lim(LimitedHeap::with_capacity(cap)),
        1 => H::LimW(limited_heap::weighted::LimitedHeap::with_capacity(cap)),
        2 => H::Beam(BeamHeap::new(beta)),
        3 => H::BeamW(beam_heap::weighted::BeamHeap::new(beta)),
        4 => H::Bin(binary_heap::weighted::BinaryHeap::new()),
        5 => H::AgLim(limited_heap::weighted::LimitedHeap::with_capacity(cap)),
        6 => H::AgBeam(beam_heap::weighted::BeamHeap::new(beta)),
        _ => {
            let mut init = Vec::new();
            for uid in 0..r.below(2) {
                init.push(E { uid, w: Tw(0) });
            }
            let b: binary_heap::weighted::BinaryHeap<E> = init.into_iter().collect();
            if b.len() == 1 {
                H::Bin(b)
            } else {
                H::AgBin(b)
            }
        }
    };
    let limited = matches!(h, H::Lim(_) | H::LimW(_) | H::AgLim(_));
    let beam = matches!(h, H::Beam(_) | H::BeamW(_) | H::AgBeam(_));
    // the model: how many items of each weight are held; and the weights of all pushed ids
    let mut weight: Vec<Tw> = Vec::new();
    let mut gone: BTreeSet<usize> = BTreeSet::new();
    let mut held: BTreeMap<Tw, usize> = BTreeMap::new();
    let mut unknown_eviction: BTreeMap<Tw, usize> = BTreeMap::new();
    let _ = &mut unknown_eviction;
    if h.len() == 1 {
        weight.push(Tw(0));
        held.insert(Tw(0), 1);
    }
    let wr = *r.pick(&[2usize, 4, 10, 1000]);
    let steps = if long { r.range(500, 1500) } else { r.range(1, 80) };
    let push_bias = r.range(3, 8);
    let mut trace: Vec<String> = Vec::new();
    fn dec(held: &mut BTreeMap<Tw, usize>, w: Tw) -> bool {
        match held.get_mut(&w) {
            Some(c) => {
                *c -= 1;
                if *c == 0 {
                    held.remove(&w);
                }
                true
            }
            None => false,
        }
    }
    let describe = |t: &Vec<String>| format!("heap kind {}, capacity {}, beta {:?}: {}", which, cap, beta, t.join(" "));
    for _ in 0..steps {
        ctx.eval();
        let op = r.below(10);
        if op < push_bias {
            let uid = weight.len();
            let w = Tw(r.below(wr) as i64 - 3);
            weight.push(w);
            trace.push(format!("push(#{},{})", uid, w.0));
            let res = match ctx.call("heap push", || h.push(uid, w), || describe(&trace)) {
                Some(r) => r,
                None => return,
            };
            // what must have happened
            let total: usize = held.values().sum();
            let mut evict: Option<Tw> = None;
            let mut accept = true;
            if limited {
                *held.entry(w).or_insert(0) += 1;
                if total >= cap {
                    let min = *held.keys().next().unwrap();
                    evict = Some(min);
                    dec(&mut held, min);
                }
            } else if beam {
                if let Some(max) = held.keys().next_back() {
                    accept = w >= *max * beta;
                }
                if accept {
                    *held.entry(w).or_insert(0) += 1;
                } else {
                    gone.insert(uid);
                }
            } else {
                *held.entry(w).or_insert(0) += 1;
            }
            match res {
                Pushed::Quiet => {}
                Pushed::Accepted(a) => {
                    ctx.check(a == accept, "C03:beam-acceptance", || {
                        format!("push returned {}, expected {}: {}", a, accept, describe(&trace))
                    });
                    ctx.ev(if a { "beam: accepted" } else { "beam: rejected" });
                }
                Pushed::Evicted(e) => {
                    let ok = match (e, evict) {
                        (None, None) => true,
                        (Some(u), Some(w)) => u < weight.len() && !gone.contains(&u) && weight[u] == w,
                        _ => false,
                    };
                    ctx.check(ok, "C03:eviction", || {
                        format!("push returned {:?}, expected an item of weight {:?}: {}", e, evict, describe(&trace))
                    });
                    if let Some(u) = e {
                        gone.insert(u);
                        ctx.ev("limited: evicted");
                    }
                }
            }
        } else if op < 9 {
            let peeked = h.peek();
            trace.push("pop".into());
            let p = match ctx.call("heap pop", || h.pop(), || describe(&trace)) {
                Some(p) => p,
                None => return,
            };
            let best = held.keys().next_back().cloned();
            let pw = peeked.map(|u| weight.get(u).cloned().unwrap_or(Tw(i64::MIN)));
            ctx.check(pw == best, "C03:peek", || {
                format!("peek showed {:?} of weight {:?}, greatest held is {:?}: {}", peeked, pw, best, describe(&trace))
            });
            match (p, best) {
                (None, None) => ctx.ev("pop of an empty agenda"),
                (Some(u), Some(b)) => {
                    let ok = u < weight.len() && !gone.contains(&u) && weight[u] == b;
                    ctx.check(ok, "C03:pop", || {
                        format!("pop gave #{} ({:?}, gone before: {}), greatest weight held is {:?}: {}", u, weight.get(u), gone.contains(&u), b, describe(&trace))
                    });
                    if !ok {
                        return;
                    }
                    gone.insert(u);
                    dec(&mut held, b);
                    ctx.ev("pops");
                }
                _ => {
                    ctx.violation("C03:pop-presence", format!("pop gave {:?}, greatest weight held is {:?}: {}", p, best, describe(&trace)));
                    return;
                }
            }
        } else if r.chance(1, 4) {
            trace.push("clear".into());
            h.clear();
            held.clear();
            for u in 0..weight.len() {
                gone.insert(u);
            }
        } else if let Some(c) = h.clone_() {
            // work on the clone must not show in the original
            trace.push("clone".into());
            let mut c = c;
            let mut copied: BTreeMap<Tw, usize> = BTreeMap::new();
            while let Some(u) = c.pop() {
                *copied.entry(weight.get(u).cloned().unwrap_or(Tw(i64::MIN))).or_insert(0) += 1;
            }
            ctx.ev("copies of agendas");
            ctx.check(copied == held, "C03:copy", || format!("a copy holds the weights {:?}, the original {:?}: {}", copied, held, describe(&trace)));
            c.push(0, Tw(99));
        }
        let total: usize = held.values().sum();
        let len = match ctx.call("heap len", || h.len(), || describe(&trace)) {
            Some(l) => l,
            None => return,
        };
        if !ctx.check(len == total, "C03:length", || {
            format!("len() is {}, {} are held: {}", len, total, describe(&trace))
        }) {
            return;
        }
        if limited {
            ctx.check(len <= cap, "C03:capacity", || format!("len() is {}: {}", len, describe(&trace)));
            if len == cap {
                ctx.ev("limited: full");
            }
        }
    }
    // conservation at the end: what is left is exactly what the model holds
    let rest = h.drain();
    let mut left: BTreeMap<Tw, usize> = BTreeMap::new();
    let mut ids = BTreeSet::new();
    for u in &rest {
        if !ctx.check(*u < weight.len() && !gone.contains(u) && ids.insert(*u), "C03:drain", || {
            format!("left over: {:?}, already gone: {:?}: {}", rest, gone, describe(&trace))
        }) {
            return;
        }
        *left.entry(weight[*u]).or_insert(0) += 1;
    }
    ctx.check(left == held, "C03:conservation", || {
        format!("left over by weight {:?}, expected {:?}: {}", left, held, describe(&trace))
    });
    if weight.len() > 4 {
        ctx.nontrivial(&(which, cap, trace.len(), trace.join(" ")));
    }
    ctx.sample(|| describe(&trace));

    // a search through a bounded agenda yields what a model of the bound leaves
    bounded_search(ctx, r);
    plain_agendas(ctx, r);
}

/// stacks and queues behind the same interface: the last or the first one in comes out first
fn plain_agendas(ctx: &mut Ctx, r: &mut Rng) {
    fn history<A: Agenda<Item = u32>>(ctx: &mut Ctx, r: &mut Rng, mut a: A, stack: bool) {
        let mut model: std::collections::VecDeque<u32> = Default::default();
        let mut trace = Vec::new();
        let mut next = 0;
        for _ in 0..r.range(1, 24) {
            match r.below(5) {
                0 | 1 => {
                    trace.push(format!("push({})", next));
                    a.push(next);
                    model.push_back(next);
                    next += 1;
                }
                2 => {
                    let k = r.below(4) as u32;
                    trace.push(format!("extend({}..{})", next, next + k));
                    a.extend(next..next + k);
                    Extend::extend(&mut model, next..next + k);
                    next += k;
                }
                _ => {
                    trace.push("pop".into());
                    let want = if stack { model.pop_back() } else { model.pop_front() };
                    let got = a.pop();
                    ctx.ev("stack or queue: pops");
                    ctx.check(got == want, "C03:order-of-insertion", || format!("{} gave {:?}, expected {:?}: {:?}", if stack { "stack" } else { "queue" }, got, want, trace));
                }
            }
            let front = if stack { model.back() } else { model.front() };
            ctx.check(a.peek() == front && a.len() == model.len() && a.is_empty() == model.is_empty(), "C03:peek", || {
                format!("{} shows {:?} and a length of {} (empty: {}), expected {:?} and {}: {:?}", if stack { "stack" } else { "queue" }, a.peek(), a.len(), a.is_empty(), front, model.len(), trace)
            });
        }
    }
    if r.chance(1, 2) {
        history(ctx, r, Vec::new(), true)
    } else {
        history(ctx, r, std::collections::VecDeque::new(), false)
    }
}

fn bounded_search(ctx: &mut Ctx, r: &mut Rng) {
    let acyclic = r.chance(2, 3);
    let g = graph(r, acyclic, 10);
    let cap = r.range(1, 6);
    let limited = r.chance(1, 2);
    let beta = Tw(-(r.below(4) as i64));
    let held: RefCell<Vec<(Tw, usize)>> = RefCell::new(Vec::new());
    let uid = RefCell::new(0usize);
    let admit = |held: &mut Vec<(Tw, usize)>, w: Tw, u: usize| {
        if limited {
            held.push((w, u));
            held.sort();
            held.reverse();
            held.truncate(cap);
        } else {
            let max = held.iter().map(|h| h.0).max();
            if max.map_or(true, |m| w >= m * beta) {
                held.push((w, u));
            }
        }
    };
    let mk = |list: &Vec<(usize, i64)>, base: Tw| -> Vec<It> {
        list.iter()
            .map(|&(node, w)| {
                *uid.borrow_mut() += 1;
                It {
                    node,
                    uid: *uid.borrow(),
                    w: base * Tw(w),
                }
            })
            .collect()
    };
    let init = mk(&g.init, Tw(0));
    for i in &init {
        admit(&mut held.borrow_mut(), i.w, i.uid);
    }
    let succ = |i: &It| {
        let v = mk(&g.edges[i.node], i.w);
        // the yielded item has left the agenda
        {
            let mut h = held.borrow_mut();
            if let Some(p) = h.iter().position(|x| x.0 == i.w) {
                h.remove(p);
            }
            for x in &v {
                admit(&mut h, x.w, x.uid);
            }
        }
        v
    };
    fn go<I: Iterator<Item = It>>(ctx: &mut Ctx, g: &Graph, held: &RefCell<Vec<(Tw, usize)>>, mut it: I, what: &str) {
        let mut seen = BTreeSet::new();
        for _ in 0..300 {
            let best = held.borrow().iter().map(|h| h.0).max();
            match it.next() {
                None => {
                    ctx.check(best.is_none(), "C03:search-ended-early", || format!("{} on {:?}: ended while {:?} were waiting", what, g, held.borrow()));
                    break;
                }
                Some(i) => {
                    ctx.ev("items yielded by bounded searches");
                    if !ctx.check(best == Some(i.w) && seen.insert(i.uid), "C03:search-order", || format!("{} on {:?}: yielded {:?}, best waiting {:?}", what, g, i, best)) {
                        break;
                    }
                }
            }
        }
    }
    ctx.eval();
    if limited {
        let mut a = limited_heap::weighted::LimitedHeap::with_capacity(cap);
        for i in init {
            a.push(i);
        }
        go(ctx, &g, &held, Search::with_agenda(a, succ), &format!("search with at most {} waiting", cap));
    } else {
        let mut a = beam_heap::weighted::BeamHeap::new(beta);
        for i in init {
            a.push(i);
        }
        go(ctx, &g, &held, Search::with_agenda(a, succ), &format!("search with a beam of {:?}", beta));
    }
}
