//! C04 (priority queue without duplicates) and C05 (multimap over indices).
use kit::{Ctx, Rng};
use std::collections::hash_map::RandomState;
use std::collections::BTreeMap;
use std::hash::{BuildHasher, Hash, Hasher};
use unique_heap::UniqueHeap;
use vecmultimap::{VecMultiMap, VecMultiMapAdapter};

/// an element whose hash collides often
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Bad(u8, String);
impl Hash for Bad {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.0 % 2).hash(h)
    }
}

fn c04_with<B: BuildHasher + Default + Clone>(ctx: &mut Ctx, r: &mut Rng, hasher: &str) {
    let big = r.chance(1, 12);
    let huge = big && r.chance(1, 30);
    let universe: Vec<Bad> = (0..if huge { r.range(200, 256) } else if big { r.range(10, 120) } else { r.range(1, 9) }).map(|i| Bad(i as u8, format!("e{}", r.below(100)))).collect();
    let wr = if big { r.range(1, 60) } else { r.range(1, 6) };
    let mut model: BTreeMap<Bad, i32> = BTreeMap::new();
    let mut trace: Vec<String> = Vec::new();
    let mut start: Vec<(Bad, i32)> = Vec::new();
    for _ in 0..r.below(if big { 150 } else { 8 }) {
        start.push((r.pick(&universe).clone(), r.below(wr) as i32));
    }
    let how = r.below(4);
    let mut heap: UniqueHeap<Bad, i32, B> = match how {
        0 => UniqueHeap::default(),
        1 => start.clone().into_iter().collect(),
        // an iterator that tells far more than it yields
        2 => {
            let mut i = 0;
            let all = start.clone();
            (0..usize::max_value())
                .map(move |k| {
                    i = k;
                    all.get(i).cloned()
                })
                .take_while(|x| x.is_some())
                .map(|x| x.unwrap())
                .collect()
        }
        _ => start.iter().map(|(i, w)| (*w, i.clone())).collect::<Vec<_>>().into(),
    };
    if how != 0 {
        for (i, w) in &start {
            model.entry(i.clone()).or_insert(*w);
        }
    }
    trace.push(format!("{} {:?} [{}]", ["empty", "from_iter", "from_lazy_iter", "from_vec"][how], if how == 0 { vec![] } else { start.clone() }, hasher));
    let steps = r.range(1, if huge { 1500 } else if big { 250 } else { 60 });
    let (mut pushes, mut pops) = (6, 4);
    for _ in 0..steps {
        ctx.eval();
        if big && r.chance(1, 40) {
            // phases in which the queue grows or drains
            pushes = r.range(1, 9);
            pops = 10 - pushes;
        }
        let roll = r.below(12);
        let op = if roll < pushes { 0 } else if roll < pushes + pops { 6 } else { roll };
        match op {
            0..=5 => {
                let (i, w) = (r.pick(&universe).clone(), r.below(wr) as i32);
                trace.push(format!("push({:?},{})", i, w));
                let got = heap.push(i.clone(), w);
                let want = !model.contains_key(&i);
                model.entry(i).or_insert(w);
                ctx.ev(if want { "push: new element" } else { "push: element present" });
                ctx.check(got == want, "C04:push-result", || format!("push returned {}: {}", got, trace.join(" ")));
            }
            6..=9 => {
                trace.push("pop".into());
                let got = heap.pop();
                let best = model.values().max().cloned();
                ctx.ev("pop");
                // any of the elements of the best weight
                let ok = match &got {
                    None => model.is_empty(),
                    Some((i, w)) => Some(*w) == best && model.get(i) == Some(w),
                };
                if !ctx.check(ok, "C04:pop", || format!("pop gave {:?}, held were {:?}: {}", got, model, trace.join(" "))) {
                    return;
                }
                if let Some((i, _)) = got {
                    model.remove(&i);
                }
            }
            10 => {
                let mut c = heap.clone();
                let mut n = 0;
                while c.pop().is_some() {
                    n += 1;
                }
                let again = universe.first().map(|u| c.push(u.clone(), 77));
                ctx.check(n == model.len() && again != Some(false), "C04:clone", || {
                    format!("a copy of {:?} gave {} elements, and then a push gave {:?}: {}", model, n, again, trace.join(" "))
                });
                trace.push("clone".into());
            }
            _ => {
                let mut v: Vec<(i32, Bad)> = (&heap).into_iter().cloned().collect();
                v.sort();
                let mut want: Vec<(i32, Bad)> = model.iter().map(|(i, w)| (*w, i.clone())).collect();
                want.sort();
                ctx.check(v == want, "C04:content", || format!("holds {:?}, expected {:?}: {}", v, want, trace.join(" ")));
            }
        }
        let best = model.values().max().cloned();
        let ok = match heap.peek() {
            None => model.is_empty(),
            Some((w, i)) => Some(*w) == best && model.get(i) == Some(w),
        };
        ctx.check(ok, "C04:peek", || format!("peek gave {:?}, held are {:?}: {}", heap.peek(), model, trace.join(" ")));
        if !ctx.check(heap.len() == model.len() && heap.is_empty() == model.is_empty(), "C04:length", || {
            format!("len {} is_empty {}, {} elements expected: {}", heap.len(), heap.is_empty(), model.len(), trace.join(" "))
        }) {
            return;
        }
    }
    let mut want: Vec<(i32, Bad)> = model.iter().map(|(i, w)| (*w, i.clone())).collect();
    want.sort();
    if r.chance(1, 2) {
        let mut v = heap.into_sorted_vec();
        let ascending = v.windows(2).all(|p| p[0].0 <= p[1].0);
        let text = format!("{:?}", v);
        v.sort();
        ctx.check(ascending && v == want, "C04:sorted", || format!("into_sorted_vec gave {}, expected {:?}: {}", text, want, trace.join(" ")));
    } else {
        let mut v: Vec<(i32, Bad)> = heap.into_iter().collect();
        v.sort();
        ctx.check(v == want, "C04:content", || format!("holds {:?}, expected {:?}: {}", v, want, trace.join(" ")));
    }
    if trace.len() > 4 {
        ctx.nontrivial(&trace.join(" "));
    }
    ctx.sample(|| trace.join(" "));
}

pub fn c04(ctx: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 2) {
        c04_with::<RandomState>(ctx, r, "RandomState")
    } else {
        c04_with::<fnv::FnvBuildHasher>(ctx, r, "Fnv")
    }
}

// ------------------------------------------------------------------ C05

pub fn c05(ctx: &mut Ctx, r: &mut Rng) {
    // indices around the powers of two at which vectors grow
    let mut pool = vec![0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100];
    let mut steps = r.range(1, 40);
    if r.chance(1, 30) {
        pool.extend(&[127, 128, 255, 256, 300, 511, 1000, 1023, 1024, 1025, 2100, 4096]);
    }
    if r.chance(1, 40) {
        // few indices with many values
        r.shuffle(&mut pool);
        pool.truncate(r.clone().range(1, 4));
        steps = r.range(100, 600);
    }
    let mut model: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    let mut trace: Vec<String> = Vec::new();
    let adapter = r.chance(1, 2);
    let mut base: Vec<Vec<String>> = Vec::new();
    if adapter {
        for i in 0..r.below(4) {
            base.push((0..r.below(3)).map(|j| format!("base{}.{}", i, j)).collect());
        }
        for (i, v) in base.iter().enumerate() {
            model.insert(i, v.clone());
        }
        trace.push(format!("adapter over {:?}", base));
    }
    let mut own: VecMultiMap<String> = VecMultiMap::new();
    let empty: Vec<String> = Vec::new();
    let mut touched: usize = base.len(); // indices below are certainly present
    for s in 0..steps {
        ctx.eval();
        let i = *r.pick(&pool);
        let want = model.get(&i).unwrap_or(&empty).clone();
        match r.below(6) {
            0 | 1 => {
                let v = format!("v{}", s);
                trace.push(format!("push_to({},{})", i, v));
                if adapter {
                    VecMultiMapAdapter(&mut base).push_to(i, v.clone());
                } else {
                    own.push_to(i, v.clone());
                }
                model.entry(i).or_default().push(v);
                touched = touched.max(i + 1);
                ctx.ev("push_to");
            }
            2 => {
                trace.push(format!("get({})", i));
                let got = if adapter { VecMultiMapAdapter(&mut base).get(i).clone() } else { own.get(i).clone() };
                ctx.check(got == want, "C05:get", || format!("get gave {:?}, expected {:?}: {}", got, want, trace.join(" ")));
                touched = touched.max(i + 1);
                ctx.ev("get");
            }
            3 => {
                trace.push(format!("get_or_fail({})", i));
                let got = if adapter {
                    VecMultiMapAdapter::from(&mut base).get_or_fail(i).cloned()
                } else {
                    own.get_or_fail(i).cloned()
                };
                let ok = match &got {
                    Some(v) => *v == want,
                    None => want.is_empty() && i >= touched,
                };
                ctx.check(ok, "C05:get_or_fail", || format!("gave {:?}, expected {:?}: {}", got, want, trace.join(" ")));
                ctx.ev(if got.is_some() { "get_or_fail: some" } else { "get_or_fail: none" });
            }
            4 => {
                trace.push(format!("get_mut({}).push", i));
                let v = format!("m{}", s);
                let m: &mut Vec<String> = if adapter {
                    // the reference must not outlive the adapter
                    let mut a = VecMultiMapAdapter(&mut base);
                    let x = a.get_mut(i);
                    let before = x.clone();
                    x.push(v.clone());
                    ctx.check(before == want, "C05:get_mut", || format!("gave {:?}, expected {:?}: {}", before, want, trace.join(" ")));
                    model.entry(i).or_default().push(v);
                    touched = touched.max(i + 1);
                    continue;
                } else {
                    own.get_mut(i)
                };
                let before = m.clone();
                m.push(v.clone());
                ctx.check(before == want, "C05:get_mut", || format!("gave {:?}, expected {:?}: {}", before, want, trace.join(" ")));
                model.entry(i).or_default().push(v);
                touched = touched.max(i + 1);
                ctx.ev("get_mut");
            }
            _ => {
                if adapter {
                    if i < touched {
                        trace.push(format!("[{}]", i));
                        let got = VecMultiMapAdapter(&mut base)[i].clone();
                        ctx.check(got == want, "C05:index", || format!("gave {:?}, expected {:?}: {}", got, want, trace.join(" ")));
                    }
                    if r.chance(1, 3) {
                        let v = format!("x{}", s);
                        trace.push(format!("[{}].push", i));
                        VecMultiMapAdapter(&mut base)[i].push(v.clone());
                        model.entry(i).or_default().push(v);
                        touched = touched.max(i + 1);
                    }
                    ctx.ev("index");
                }
            }
        }
    }
    let last = model.iter().filter(|(_, v)| !v.is_empty()).map(|(i, _)| *i + 1).max().unwrap_or(0);
    let expect = |n: usize| -> Vec<Vec<String>> { (0..n).map(|i| model.get(&i).cloned().unwrap_or_default()).collect() };
    if adapter {
        ctx.check(base.len() >= last, "C05:adapter", || format!("lost entries: {:?}: {}", base, trace.join(" ")));
        let want = expect(base.len());
        ctx.check(base == want, "C05:adapter", || format!("the vector is {:?}, expected {:?}: {}", base, want, trace.join(" ")));
    } else if r.chance(1, 2) {
        let size = last + r.below(4);
        trace.push(format!("into_vec_with_size({})", size));
        let got = own.into_vec_with_size(size);
        let want = expect(size);
        ctx.check(got == want, "C05:into_vec_with_size", || format!("gave {:?}, expected {:?}: {}", got, want, trace.join(" ")));
    } else {
        trace.push("into".into());
        let got: Vec<Vec<String>> = own.into();
        let want = expect(last);
        ctx.check(got == want, "C05:into_vec", || format!("gave {:?}, expected {:?}: {}", got, want, trace.join(" ")));
    }
    if trace.len() > 3 {
        ctx.nontrivial(&trace.join(" "));
    }
    ctx.sample(|| trace.join(" "));
}
