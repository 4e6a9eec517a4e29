//! C06 partitions, C07 equivalence relations, C08 Dyck words, C11 weights and configurations,
//! C20 Gorn trees.
use kit::{guarded, Ctx, Rng};
use log_domain::LogDomain;
use num_traits::{One, Zero};
use rustomata::approximation::equivalence_classes::{EquivalenceClass, EquivalenceRelation};
use rustomata::dyck::{recognize, Bracket};
use rustomata::recognisable::configuration::Configuration;
use rustomata::util::factorizable::Factorizable;
use rustomata::util::partition::Partition;
use rustomata::util::reverse::Reverse;
use rustomata::util::tree::GornTree;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

// ------------------------------------------------------------------ C06

fn c06_with<T>(ctx: &mut Ctx, r: &mut Rng, universe: &[T])
where
    T: Ord + Clone + Debug + Hash + serde::Serialize + for<'d> serde::Deserialize<'d>,
{
    let overlap = r.chance(1, 3);
    let mut cells: Vec<BTreeSet<T>> = vec![BTreeSet::new(); r.range(0, if universe.len() > 20 { 60 } else { 5 })];
    if !cells.is_empty() {
        for x in universe {
            if r.chance(3, 4) {
                let k = r.below(cells.len());
                cells[k].insert(x.clone());
            }
            if overlap && universe.len() < 20 && r.chance(1, 5) {
                let k = r.below(cells.len());
                cells[k].insert(x.clone());
            }
        }
        if overlap && universe.len() >= 20 {
            // one element among many is in two cells
            let k = r.below(cells.len());
            cells[k].insert(r.pick(universe).clone());
        }
    }
    let mut owner: BTreeMap<T, usize> = BTreeMap::new();
    let mut disjoint = true;
    for (k, c) in cells.iter().enumerate() {
        for x in c {
            disjoint &= owner.insert(x.clone(), k).is_none();
        }
    }
    ctx.eval();
    if cells.len() > 1 && owner.len() > 1 {
        ctx.nontrivial(&(format!("{:?}", cells)));
    }
    ctx.sample(|| format!("{:?}", cells));
    let made = match ctx.call("C06:new", || Partition::new(cells.clone()), || format!("{:?}", cells)) {
        Some(m) => m,
        None => return,
    };
    ctx.ev(if disjoint { "disjoint cells" } else { "overlapping cells" });
    if !ctx.check(made.is_some() == disjoint, "C06:accepts", || {
        format!("cells {:?} are{} disjoint, construction gave {}", cells, if disjoint { "" } else { " not" }, if made.is_some() { "a partition" } else { "nothing" })
    }) {
        return;
    }
    // the persisted form is the list of cells; one with an element in two cells is no partition
    let raw = bincode::serialize(&cells, bincode::Infinite).expect("cells serialise");
    let loaded = guarded(|| bincode::deserialize::<Partition<T>>(&raw));
    match loaded {
        Err(m) => {
            ctx.violation("C06:load-panics", format!("loading {:?} {}", cells, m));
        }
        Ok(l) => {
            ctx.ev("load from cells");
            if ctx.check(l.is_ok() == disjoint, "C06:load", || format!("loading {:?} gave {:?}", cells, l.as_ref().map(|_| "a partition"))) && disjoint {
                ctx.check(Some(l.unwrap()) == made, "C06:load-differs", || format!("{:?}", cells));
            }
        }
    }
    let p = match made {
        Some(p) => p,
        None => return,
    };
    for x in universe {
        let got = p.get_cell(x).cloned();
        let want = owner.get(x).map(|k| cells[*k].clone());
        ctx.ev("cell lookup");
        ctx.check(got == want, "C06:get_cell", || format!("{:?} in {:?}: {:?}, expected {:?}", x, cells, got, want));
    }
    // moving one element to another cell makes another partition
    if cells.len() > 1 && !owner.is_empty() {
        let (x, k) = owner.iter().nth(r.below(owner.len())).map(|(x, k)| (x.clone(), *k)).unwrap();
        if cells[k].len() > 1 || cells.iter().enumerate().any(|(l, c)| l != k && !c.is_empty()) {
            let l = (k + 1 + r.below(cells.len() - 1)) % cells.len();
            if cells[k].len() > 1 || !cells[l].is_empty() {
                let mut other = cells.clone();
                other[k].remove(&x);
                other[l].insert(x.clone());
                ctx.ev("partitions that differ in the place of one element");
                let q = Partition::new(other);
                ctx.check(q.is_some() && q.as_ref() != Some(&p), "C06:equality", || format!("{:?} in cell {} or {} of {:?}", x, k, l, cells));
            }
        }
    }
    let alphabet: Vec<T> = p.alphabet().cloned().collect();
    ctx.check(alphabet == owner.keys().cloned().collect::<Vec<_>>(), "C06:alphabet", || format!("{:?} of {:?}", alphabet, cells));
    let mut collapsed: Vec<BTreeSet<T>> = p.collapse().into_iter().cloned().collect();
    let mut want: Vec<BTreeSet<T>> = cells.iter().filter(|c| !c.is_empty()).cloned().collect();
    collapsed.sort();
    want.sort();
    ctx.check(collapsed == want, "C06:collapse", || format!("{:?}, expected {:?}", collapsed, want));
    let bytes = bincode::serialize(&p, bincode::Infinite);
    if let Some(Ok(b)) = Some(bytes) {
        let back = guarded(|| bincode::deserialize::<Partition<T>>(&b));
        ctx.ev("round trip");
        ctx.check(matches!(&back, Ok(Ok(q)) if *q == p), "C06:round-trip", || format!("{:?}", cells));
        // bytes that end too early are an error; changed ones an error or another partition
        let cut = &b[..r.below(b.len())];
        let back = guarded(|| bincode::deserialize::<Partition<T>>(cut).is_err());
        ctx.ev("persisted forms cut short");
        ctx.check(matches!(back, Ok(true)), "C06:cut-short", || format!("{:?}: {:?} was read from {} of {} bytes", cells, back, cut.len(), b.len()));
    } else {
        ctx.violation("C06:serialise", format!("{:?}", cells));
    }
}

pub fn c06(ctx: &mut Ctx, r: &mut Rng) {
    match r.below(4) {
        0 => c06_with(ctx, r, &(0..9i32).map(|i| i * 7 - 20).collect::<Vec<_>>()),
        1 => c06_with(ctx, r, &"äabcd→😀\0z".chars().collect::<Vec<_>>()),
        2 => c06_with(ctx, r, &(0..7u64).map(|i| (i % 3, vec![i as u8; i as usize])).collect::<Vec<_>>()),
        _ => {
            let n = if r.chance(1, 20) { r.range(50, 300) } else { r.range(1, 9) };
            let u: Vec<String> = (0..n).map(|i| format!("{}{}", "x".repeat(i % 3), i)).collect();
            c06_with(ctx, r, &u)
        }
    }
}

// ------------------------------------------------------------------ C07

/// a token and how it is written
fn token(r: &mut Rng, name: &str) -> String {
    if r.chance(1, 3) {
        format!("\"{}\"", name)
    } else {
        name.to_string()
    }
}

fn elements_text(r: &mut Rng, els: &[String]) -> String {
    let mut s = String::from("[");
    if r.chance(1, 4) {
        s.push_str("  ");
    }
    for (i, e) in els.iter().enumerate() {
        if i > 0 {
            s.push_str(r.pick::<&str>(&[",", ", ", " ,", " , "]));
        }
        s.push_str(&token(r, e));
    }
    if r.chance(1, 4) {
        s.push(' ');
    }
    s.push(']');
    s
}

pub fn c07(ctx: &mut Ctx, r: &mut Rng) {
    let universe: Vec<String> = ["S", "NP", "VP", "äb", "x1", "42", "a_b", "S|<x>", "$.", "0"].iter().map(|s| s.to_string()).collect();
    let labels: Vec<String> = ["S", "N", "R", "cls", "é", "7", "Z9"].iter().map(|s| s.to_string()).collect();
    let n = r.range(0, 4);
    let mut used = labels.clone();
    r.shuffle(&mut used);
    let default = used.pop().unwrap();
    let mut classes: Vec<(String, Vec<String>)> = Vec::new();
    for k in 0..n {
        classes.push((used[k].clone(), vec![]));
    }
    if n > 0 {
        for x in &universe {
            if r.chance(2, 3) {
                let k = r.below(n);
                classes[k].1.push(x.clone());
                if r.chance(1, 6) {
                    // listing a member twice changes nothing
                    classes[k].1.push(x.clone());
                }
            }
        }
    }
    for c in &mut classes {
        r.shuffle(&mut c.1);
    }
    let mut owner: BTreeMap<String, String> = BTreeMap::new();
    for (l, els) in &classes {
        for e in els {
            owner.insert(e.clone(), l.clone());
        }
    }
    let want = |x: &String| owner.get(x).cloned().unwrap_or_else(|| default.clone());
    // damage
    let flaw = r.below(8);
    let mut broken = None;
    let mut extra_default: Option<String> = None;
    match flaw {
        0 if n > 1 && !owner.is_empty() => {
            let x = owner.keys().next().unwrap().clone();
            let l = owner[&x].clone();
            let k = classes.iter().position(|c| c.0 != l).unwrap();
            classes[k].1.push(x);
            broken = Some("overlap");
        }
        1 if n > 0 => {
            let k = r.below(n);
            classes[k].0 = default.clone();
            broken = Some("default label reused");
        }
        2 => {
            extra_default = Some(used[4].clone());
            broken = Some("two defaults");
        }
        3 => broken = Some("no default"),
        _ => {}
    }
    ctx.eval();
    // ---- construction from a map
    if flaw != 2 && flaw != 3 {
        let mut map: HashMap<String, HashSet<String>> = HashMap::new();
        for (l, els) in &classes {
            map.entry(l.clone()).or_default().extend(els.iter().cloned());
        }
        match guarded(|| EquivalenceRelation::new_safe(map.clone(), default.clone())) {
            Err(m) => ctx.violation("panic:C07:new", format!("{}; {:?} default {}", m, classes, default)),
            Ok(rel) => {
                // the other constructor has no other way to refuse
                let other = guarded(|| EquivalenceRelation::new(map.clone(), default.clone()));
                ctx.check(
                    match (&other, &rel) {
                        (Ok(a), Ok(b)) => a == b,
                        (Err(_), Err(_)) => true,
                        _ => false,
                    },
                    "C07:constructors-differ",
                    || format!("{:?} default {}: {}, safely {}", classes, default, other.is_ok(), rel.is_ok()),
                );
                ctx.ev(if broken.is_some() { "map: flawed classes" } else { "map: sound classes" });
                if ctx.check(rel.is_ok() == broken.is_none(), "C07:accepts-map", || format!("{:?} default {} ({:?}): {:?}", classes, default, broken, rel.is_ok())) {
                    if let Ok(rel) = rel {
                        for x in universe.iter().chain(Some(&"unseen".to_string())) {
                            ctx.ev("projection");
                            let got = rel.project(x);
                            ctx.check(got == want(x), "C07:project-map", || format!("{} ↦ {}, expected {} in {:?} default {}", x, got, want(x), classes, default));
                        }
                        // the default may stand anywhere among the classes
                        let at = r.range(0, classes.len());
                        let viavec: Result<EquivalenceRelation<String, String>, String> = guarded(|| {
                            let mut v: Vec<EquivalenceClass<String, String>> = classes.iter().map(|(l, e)| EquivalenceClass::from((l.clone(), Some(e.clone())))).collect();
                            v.insert(at, EquivalenceClass::from((default.clone(), None)));
                            EquivalenceRelation::from(v)
                        });
                        if at < classes.len() && classes[at..].iter().any(|c| c.1.is_empty()) {
                            ctx.ev("classes: an empty class behind the default");
                        }
                        ctx.check(matches!(&viavec, Ok(v) if *v == rel), "C07:from-classes", || format!("{:?} default {}", classes, default));
                        // equal exactly when they project alike
                        let other: HashMap<String, HashSet<String>> = map.clone();
                        if let Ok(Ok(o)) = guarded(|| EquivalenceRelation::new_safe(other, "other default".to_string())) {
                            ctx.check(o != rel, "C07:equality", || format!("{:?}: equal with default {} and another", classes, default));
                        }
                        if let Some(x) = owner.keys().next() {
                            let mut other = map.clone();
                            for m in other.values_mut() {
                                m.remove(x);
                            }
                            if let Ok(Ok(o)) = guarded(|| EquivalenceRelation::new_safe(other, default.clone())) {
                                ctx.check(o != rel, "C07:equality", || format!("{:?}: equal with and without {}", classes, x));
                            }
                        }
                    }
                }
            }
        }
    }
    // ---- the text format
    let mut lines: Vec<String> = Vec::new();
    let mut split = false;
    for (l, els) in &classes {
        if broken.is_none() && els.len() > 1 && r.chance(1, 5) {
            // the same class written on two lines
            split = true;
            let m = r.range(1, els.len() - 1);
            lines.push(format!("{}{}{}", token(r, l), " ".repeat(r.range(1, 2)), elements_text(r, &els[..m])));
            lines.push(format!("{}{}{}", token(r, l), " ".repeat(r.range(1, 2)), elements_text(r, &els[m..])));
        } else {
            lines.push(format!("{}{}{}", token(r, l), " ".repeat(r.range(1, 3)), elements_text(r, els)));
        }
    }
    if broken != Some("no default") {
        lines.push(format!("{} *", token(r, &default)));
    }
    if let Some(d) = extra_default {
        lines.push(format!("{} *", d));
    }
    r.shuffle(&mut lines);
    let mut text = String::new();
    for l in &lines {
        match r.below(8) {
            0 => text.push('\n'),
            1 => text.push_str("   \n"),
            2 => text.push_str("  "),
            _ => {}
        }
        text.push_str(l);
        if r.chance(1, 4) {
            text.push_str("  ");
        }
        text.push_str(if r.chance(1, 10) { "\r\n" } else { "\n" });
    }
    if r.chance(1, 4) {
        text.push_str("  \n");
    }
    if n > 0 && !owner.is_empty() {
        ctx.nontrivial(&text);
    }
    ctx.sample(|| format!("{:?} (flaw: {:?})", text, broken));
    match guarded(|| text.parse::<EquivalenceRelation<String, String>>()) {
        Err(m) => ctx.violation("panic:C07:from_str", format!("{}; {:?}", m, text)),
        Ok(rel) => {
            ctx.ev(match broken {
                None if split => "text: class over several lines",
                None => "text: sound",
                Some("overlap") => "text: overlapping classes",
                Some("two defaults") => "text: two defaults",
                Some("no default") => "text: no default",
                Some(_) => "text: default label reused",
            });
            if ctx.check(rel.is_ok() == broken.is_none(), &format!("C07:accepts-text{}", if broken.is_none() { "" } else { ":flawed" }), || {
                format!("{:?} ({:?}) was {}", text, broken, if rel.is_ok() { "accepted" } else { "rejected" })
            }) {
                if let Ok(rel) = rel {
                    for x in universe.iter().chain(Some(&"unseen".to_string())) {
                        let got = rel.project(x);
                        ctx.ev("projection");
                        ctx.check(got == want(x), "C07:project-text", || format!("{} ↦ {}, expected {} in {:?}", x, got, want(x), text));
                    }
                }
            }
        }
    }
    // ---- malformed text is reported, never a crash
    let mut chars: Vec<char> = text.chars().collect();
    for _ in 0..r.range(1, 4) {
        if chars.is_empty() {
            break;
        }
        let i = r.below(chars.len());
        match r.below(3) {
            0 => {
                chars.remove(i);
            }
            1 => chars[i] = *r.pick(&['[', ']', '*', '"', '\\', '\n', ' ', '→', 'é', ',', '%']),
            _ => chars.insert(i, *r.pick(&['[', ']', '*', '"', '\\', '\n', ' ', '→', 'é', ',', '%'])),
        }
    }
    let bad: String = chars.into_iter().collect();
    ctx.ev("mutated text");
    ctx.call("C07:mutated", || bad.parse::<EquivalenceRelation<String, u8>>().is_ok(), || format!("{:?}", bad));
    ctx.call("C07:mutated", || bad.parse::<EquivalenceRelation<String, String>>().is_ok(), || format!("{:?}", bad));
}

// ------------------------------------------------------------------ C08

/// oracle: cancel adjacent matching pairs until nothing changes
fn dyck_by_cancellation(w: &[(bool, u8)]) -> bool {
    let mut v = w.to_vec();
    loop {
        match (1..v.len()).find(|i| v[i - 1].0 && !v[*i].0 && v[i - 1].1 == v[*i].1) {
            None => return v.is_empty(),
            Some(i) => {
                v.drain(i - 1..=i);
            }
        }
    }
}

pub fn c08(ctx: &mut Ctx, r: &mut Rng) {
    let kinds = if r.chance(1, 10) { r.range(4, 20) as u8 } else { r.range(1, 3) as u8 };
    let mut w: Vec<(bool, u8)> = Vec::new();
    if r.chance(1, 4) {
        // arbitrary word
        for _ in 0..r.below(9) {
            w.push((r.chance(1, 2), r.below(kinds as usize) as u8));
        }
    } else {
        // a Dyck word
        let most = if r.chance(1, 500) { 1500 } else if r.chance(1, 20) { 300 } else { 14 };
        let n = r.below(most);
        let mut open: Vec<u8> = vec![];
        // how likely the next bracket opens: deep nests and flat sequences
        let deep = *r.pick(&[1, 2, 2, 2, 3, 4]);
        for _ in 0..n {
            if open.is_empty() || r.chance(deep, 4) {
                let k = r.below(kinds as usize) as u8;
                open.push(k);
                w.push((true, k));
            } else {
                w.push((false, open.pop().unwrap()));
            }
        }
        while let Some(k) = open.pop() {
            w.push((false, k));
        }
        // damage it
        if r.chance(1, 2) && !w.is_empty() {
            let i = r.below(w.len());
            match r.below(5) {
                0 => {
                    w.remove(i);
                }
                1 => w[i].1 = (w[i].1 + 1) % (kinds + 1),
                2 => w[i].0 = !w[i].0,
                3 => {
                    let j = r.below(w.len());
                    w.swap(i, j);
                }
                _ => w.insert(i, (r.chance(1, 2), r.below(kinds as usize) as u8)),
            }
        }
    }
    if r.chance(1, 400) {
        // numbers of open brackets that are left over, around powers of two
        let n = (*r.pick(&[8usize, 16, 32, 64, 128, 256, 256, 512, 1024, 4096, 65536]) + r.below(3)).saturating_sub(1);
        let k = r.below(kinds as usize) as u8;
        let open = r.chance(1, 2);
        let many = vec![(open, k); n];
        if open && r.chance(1, 2) {
            w.splice(0..0, many);
        } else {
            w.extend(many);
        }
    }
    let want = dyck_by_cancellation(&w);
    let word: Vec<Bracket<String>> = w.iter().map(|(o, k)| if *o { Bracket::Open(format!("b{}", k)) } else { Bracket::Close(format!("b{}", k)) }).collect();
    ctx.eval();
    if w.len() > 2 {
        ctx.nontrivial(&w);
    }
    ctx.sample(|| format!("{:?} in the language: {}", w, want));
    ctx.ev(if want { "words in the language" } else { "words outside the language" });
    if let Some(got) = ctx.call("C08", || recognize(&word), || format!("{:?}", w)) {
        ctx.check(got == want, "C08:recognize", || format!("{:?}: {}, expected {}", w, got, want));
    }
    if r.chance(1, 8) {
        // closure under concatenation, nesting; symbols of a type with partial equality only
        let f: Vec<Bracket<f64>> = w.iter().map(|(o, k)| if *o { Bracket::Open(*k as f64 / 2.0) } else { Bracket::Close(*k as f64 / 2.0) }).collect();
        let mut twice = f.clone();
        twice.extend(f.clone());
        let mut nested = vec![Bracket::Open(0.25)];
        nested.extend(f.clone());
        nested.push(Bracket::Close(0.25));
        ctx.ev("closure properties");
        ctx.check(recognize(&nested) == want && (!want || recognize(&twice)), "C08:closure", || format!("{:?}", w));
        let bytes = bincode::serialize(&word, bincode::Infinite).unwrap();
        let back: Vec<Bracket<String>> = bincode::deserialize(&bytes).unwrap();
        ctx.check(back == word, "C08:serde", || format!("{:?}", w));
    }
}

// ------------------------------------------------------------------ C11

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

type Conf = Configuration<Vec<u8>, u8, Reverse<i64>>;

/// mostly below n, sometimes up to eight
fn few(r: &mut Rng, n: usize) -> usize {
    let most = if r.chance(1, 6) { 9 } else { n };
    r.below(most)
}

pub fn c11(ctx: &mut Ctx, r: &mut Rng) {
    // ---- reversed weights: same arithmetic, opposite order
    let int = |r: &mut Rng| r.below(41) as i64 - 20;
    let (a, b) = (int(r), int(r));
    let (ra, rb): (Reverse<i64>, Reverse<i64>) = (a.into(), b.into());
    ctx.eval();
    ctx.ev("reversed integer weights");
    if a != b {
        ctx.nontrivial(&(a, b));
    }
    let pair = || format!("a={}, b={}", a, b);
    ctx.check(ra.cmp(&rb) == b.cmp(&a) && ra.partial_cmp(&rb) == Some(b.cmp(&a)), "C11:reverse-order", pair);
    ctx.check((ra < rb) == (b < a) && (ra > rb) == (b > a) && (ra <= rb) == (b <= a), "C11:reverse-order", pair);
    ctx.check((ra == rb) == (a == b), "C11:reverse-eq", pair);
    ctx.check((ra + rb).unwrap() == a + b && (ra - rb).unwrap() == a - b && (ra * rb).unwrap() == a * b, "C11:reverse-arith", pair);
    if b != 0 {
        ctx.check((ra / rb).unwrap() == a / b && (ra % rb).unwrap() == a % b, "C11:reverse-arith", pair);
        let (mut x, mut y) = (ra, ra);
        x /= rb;
        y %= rb;
        ctx.check(*x.inner() == a / b && *y.inner() == a % b, "C11:reverse-assign", pair);
    }
    let (mut x, mut y, mut z) = (ra, ra, ra);
    x += rb;
    y -= rb;
    z *= rb;
    ctx.check(*x.inner() == a + b && *y.inner() == a - b && *z.inner() == a * b, "C11:reverse-assign", pair);
    ctx.check(ra.to_string() == a.to_string() && ra.to_string().parse::<Reverse<i64>>().ok() == Some(ra), "C11:reverse-text", pair);
    ctx.check(Reverse::<i64>::zero().unwrap() == 0 && Reverse::<i64>::one().unwrap() == 1 && ra.is_zero() == (a == 0), "C11:reverse-units", pair);
    let bytes = bincode::serialize(&ra, bincode::Infinite).unwrap();
    ctx.check(bincode::deserialize::<Reverse<i64>>(&bytes).unwrap() == ra, "C11:reverse-serde", pair);
    ctx.check("x".parse::<Reverse<i64>>().is_err(), "C11:reverse-text", pair);

    // ---- factors multiply to what they were taken from
    let p = match r.below(6) {
        0 => 0.0,
        1 => 1.0,
        2 => 2.0f64.powi(-(r.below(400) as i32)),
        3 => 1.0 + r.below(1000) as f64,
        _ => r.range(1, 999) as f64 / 1000.0,
    };
    let mut w = LogDomain::new(p).unwrap();
    if r.chance(1, 4) && p != 0.0 {
        // weights that a double cannot hold
        w = w.pow(r.range(1, 3000) as f64);
    }
    let n = if r.chance(1, 20) { r.range(10, 300) } else { r.range(1, 9) };
    ctx.eval();
    ctx.nontrivial(&(w.ln().to_bits(), n));
    let dw = || format!("exp({}) into {}", w.ln(), n);
    if let Some(fs) = ctx.call("C11:factorize", || w.factorize(n), dw) {
        ctx.ev("factorisations");
        if w.ln() < -745.0 {
            ctx.ev("factorisations of weights below the range of doubles");
        }
        let prod = fs.iter().fold(LogDomain::one(), |x: LogDomain<f64>, y| x * *y);
        let close = if p == 0.0 { prod.value() == 0.0 } else { (prod.ln() - w.ln()).abs() <= 1e-9 * (1.0 + w.ln().abs()) };
        ctx.check(fs.len() == n && close, "C11:factorize", || format!("{}: {:?}", dw(), fs));
        // no factor overshoots: each of them lies between the weight and 1
        let slack = 1e-9 * (1.0 + w.ln().abs());
        let (lo, hi) = if w.ln() <= 0.0 { (w.ln(), 0.0) } else { (0.0, w.ln()) };
        ctx.check(p == 0.0 || fs.iter().all(|f| f.ln() >= lo - slack && f.ln() <= hi + slack), "C11:factor-range", || format!("{}: {:?}", dw(), fs));
        let rf = Reverse::from(w).factorize(n);
        ctx.check(rf.len() == n && rf.iter().map(|x| x.unwrap()).collect::<Vec<_>>() == fs, "C11:factorize-reverse", dw);
        ctx.check(().factorize(n).len() == n, "C11:factorize-unit", || format!("{}", n));
    }

    // ---- configurations: a total order, heaviest first, then the one with less left to read
    let conf = |r: &mut Rng| -> Conf {
        let len = if r.chance(1, 10) { r.range(4, 12) } else { r.below(4) };
        Configuration {
            word: (0..len).map(|_| r.below(2) as u8).collect(),
            storage: (0..r.below(3)).map(|_| r.below(2) as u8).collect(),
            weight: Reverse::from(r.below(3) as i64),
        }
    };
    let mut cs: Vec<Conf> = (0..3).map(|_| conf(r)).collect();
    if r.chance(1, 3) {
        // one that differs from another in a single place
        let mut t = cs[0].clone();
        match r.below(4) {
            0 if !t.word.is_empty() => {
                let i = r.below(t.word.len());
                t.word[i] ^= 1;
            }
            1 if !t.storage.is_empty() => {
                let i = r.below(t.storage.len());
                t.storage[i] ^= 1;
            }
            2 => t.weight = Reverse::from(r.below(3) as i64),
            _ => {
                t.word.pop();
            }
        }
        cs[1] = t;
    }
    ctx.eval();
    ctx.ev("configuration triples");
    ctx.nontrivial(&format!("{:?}", cs));
    ctx.sample(|| format!("configurations {:?}", cs));
    let d = || format!("{:?}", cs);
    use std::cmp::Ordering::*;
    for x in &cs {
        for y in &cs {
            ctx.check(x.cmp(y) == y.cmp(x).reverse(), "C11:conf-antisymmetric", d);
            ctx.check(x.partial_cmp(y) == Some(x.cmp(y)), "C11:conf-partial", d);
            let same = x.word == y.word && x.storage == y.storage;
            ctx.check((x == y) == same, "C11:conf-eq", d);
            if x == y {
                ctx.check(h(x) == h(y), "C11:conf-hash", d);
            }
            ctx.check((x.cmp(y) == Equal) == (same && x.weight == y.weight), "C11:conf-equal", d);
            if x.weight != y.weight {
                ctx.check(x.cmp(y) == x.weight.cmp(&y.weight), "C11:conf-weight-first", d);
            } else if x.word.len() != y.word.len() {
                ctx.check((x.cmp(y) == Greater) == (x.word.len() < y.word.len()), "C11:conf-shorter-first", d);
            }
            for z in &cs {
                ctx.check(!(x <= y && y <= z) || x <= z, "C11:conf-transitive", d);
            }
        }
    }

    // ---- grammar rules: the same apart from the weight
    use rustomata::grammars::cfg::{CFGComposition, CFGRule, LetterT};
    use rustomata::grammars::pmcfg::{PMCFGRule, VarT};
    let prule = |r: &mut Rng| PMCFGRule {
        head: r.below(2),
        tail: (0..few(r, 3)).map(|_| r.below(2)).collect::<Vec<_>>(),
        composition: (0..1 + few(r, 2))
            .map(|_| (0..few(r, 3)).map(|_| if r.chance(1, 2) { VarT::T(r.below(2)) } else { VarT::Var(r.below(2), r.below(2)) }).collect::<Vec<_>>())
            .collect::<Vec<_>>()
            .into(),
        weight: r.below(3) as i64,
    };
    let crule = |r: &mut Rng| CFGRule {
        head: r.below(2),
        composition: CFGComposition::from((0..few(r, 4)).map(|_| if r.chance(1, 2) { LetterT::Value(r.below(2)) } else { LetterT::Label(r.below(2)) }).collect::<Vec<_>>()),
        weight: r.below(3) as i64,
    };
    ctx.eval();
    ctx.ev("rules compared");
    let mut ps: Vec<_> = (0..2).map(|_| prule(r)).collect();
    let mut cs: Vec<_> = (0..2).map(|_| crule(r)).collect();
    // a twin of another weight, and one that differs in one place
    let (mut a, mut b) = (ps[0].clone(), ps[0].clone());
    a.weight += 1;
    match r.below(7) {
        0 => b.head += 1,
        1 => b.tail.push(0),
        2 if !b.tail.is_empty() => {
            let i = r.below(b.tail.len());
            b.tail[i] += 1
        }
        3 => b.composition.composition.push(vec![]),
        4 => b.composition.composition.last_mut().unwrap().push(VarT::T(0)),
        _ => {
            let comps = &mut b.composition.composition;
            let k = r.below(comps.len());
            if comps[k].is_empty() {
                comps[k].push(VarT::Var(0, 0));
            } else {
                let i = r.below(comps[k].len());
                comps[k][i] = match comps[k][i].clone() {
                    VarT::T(t) => r.pick(&[VarT::T(t + 1), VarT::Var(t, 0)]).clone(),
                    VarT::Var(i, j) => r.pick(&[VarT::Var(i + 1, j), VarT::Var(i, j + 1), VarT::T(i)]).clone(),
                };
            }
        }
    }
    ps.extend(vec![a, b]);
    let (mut a, mut b) = (cs[0].clone(), cs[0].clone());
    a.weight += 1;
    match r.below(3) {
        0 => b.head += 1,
        1 if !b.composition.composition.is_empty() => {
            let i = r.below(b.composition.composition.len());
            let l = match b.composition.composition[i].clone() {
                LetterT::Value(v) => r.pick(&[LetterT::Value(v + 1), LetterT::Label(v)]).clone(),
                LetterT::Label(v) => r.pick(&[LetterT::Label(v + 1), LetterT::Value(v)]).clone(),
            };
            b.composition.composition[i] = l;
        }
        _ => b.composition.composition.push(LetterT::Value(0)),
    }
    cs.extend(vec![a, b]);
    let d = || format!("{:?} {:?}", ps, cs);
    for x in &ps {
        for y in &ps {
            let same = (x.head, &x.tail, &x.composition.composition) == (y.head, &y.tail, &y.composition.composition);
            ctx.check((x == y) == same && (x != y) != same, "C11:rule-eq", d);
            ctx.check(!same || h(x) == h(y), "C11:rule-hash", d);
            ctx.check((x.cmp(y) == Equal) == same && x.cmp(y) == y.cmp(x).reverse() && x.partial_cmp(y) == Some(x.cmp(y)), "C11:rule-order", d);
            for z in &ps {
                ctx.check(!(x <= y && y <= z) || x <= z, "C11:rule-order", d);
            }
        }
    }
    for x in &cs {
        for y in &cs {
            let same = (x.head, &x.composition.composition) == (y.head, &y.composition.composition);
            ctx.check((x == y) == same && (x != y) != same, "C11:rule-eq", d);
            ctx.check(!same || h(x) == h(y), "C11:rule-hash", d);
            ctx.check((x.cmp(y) == Equal) == same && x.cmp(y) == y.cmp(x).reverse() && x.partial_cmp(y) == Some(x.cmp(y)), "C11:rule-order", d);
            for z in &cs {
                ctx.check(!(x <= y && y <= z) || x <= z, "C11:rule-order", d);
            }
        }
    }
}

// ------------------------------------------------------------------ C20

pub fn c20(ctx: &mut Ctx, r: &mut Rng) {
    let mut m: BTreeMap<Vec<usize>, u32> = BTreeMap::new();
    let mut t: GornTree<u32> = GornTree::new();
    let wild = r.chance(1, 8);
    let large = r.chance(1, 200);
    let key = |r: &mut Rng| -> Vec<usize> {
        let len = if wild && r.chance(1, 3) { r.range(4, 12) } else { r.below(4) };
        (0..len)
            .map(|_| {
                if wild && r.chance(1, 6) {
                    *r.pick(&[9, 10, 64, 255, 256, 65_536, usize::max_value()])
                } else if r.chance(1, 12) {
                    11
                } else {
                    r.below(if large { 9 } else { 3 })
                }
            })
            .collect()
    };
    let mut trace: Vec<String> = vec![];
    let steps = if large { r.range(200, 500) } else { r.range(1, 40) };
    let mut most = 0;
    for s in 0..steps {
        ctx.eval();
        let k = key(r);
        let v = s as u32;
        macro_rules! same {
            ($got:expr, $want:expr, $sig:expr) => {{
                let (g, w) = ($got, $want);
                if !ctx.check(g == w, $sig, || format!("{:?}, expected {:?} after {}", g, w, trace.join(" "))) {
                    return;
                }
            }};
        }
        match r.below(13) {
            0..=4 => {
                trace.push(format!("insert({:?},{})", k, v));
                same!(t.insert(k.clone(), v), m.insert(k, v), "C20:insert");
            }
            5 => {
                trace.push(format!("remove({:?})", k));
                same!(t.remove(&k), m.remove(&k), "C20:remove");
            }
            6 => {
                same!(t.get(&k), m.get(&k), "C20:get");
                same!(t.contains_key(&k), m.contains_key(&k), "C20:contains_key");
            }
            7 => {
                trace.push(format!("get_mut({:?})+=100", k));
                if let Some(x) = t.get_mut(&k) {
                    *x += 100;
                }
                if let Some(x) = m.get_mut(&k) {
                    *x += 100;
                }
            }
            8 => {
                trace.push(format!("entry({:?})", k));
                *t.entry(k.clone()).or_insert(v) += 7;
                *m.entry(k).or_insert(v) += 7;
            }
            9 => {
                let other: Vec<(Vec<usize>, u32)> = (0..r.below(4)).map(|i| (key(r), 1000 + i as u32)).collect();
                trace.push(format!("append({:?})", other));
                let mut ot: GornTree<u32> = other.iter().cloned().collect();
                let mut om: BTreeMap<Vec<usize>, u32> = other.into_iter().collect();
                t.append(&mut ot);
                m.append(&mut om);
                same!(ot.is_empty(), true, "C20:append-empties");
            }
            10 if r.chance(1, 3) => {
                trace.push(format!("split_off({:?})", k));
                let right = t.split_off(&k);
                let mright = m.split_off(&k);
                same!(right.into_iter().collect::<Vec<_>>(), mright.into_iter().collect::<Vec<_>>(), "C20:split_off");
            }
            11 => {
                trace.push("each+=1".into());
                if r.chance(1, 2) {
                    for x in t.values_mut() {
                        *x += 1;
                    }
                } else {
                    for (_, x) in &mut t {
                        *x += 1;
                    }
                }
                for x in m.values_mut() {
                    *x += 1;
                }
            }
            12 if r.chance(1, 6) => {
                trace.push("clear".into());
                t.clear();
                m.clear();
            }
            _ => {
                let c: GornTree<u32> = (&t).into_iter().map(|(k, v)| (k.clone(), v)).collect::<GornTree<&u32>>().cloned();
                same!(c == t, true, "C20:equal-to-copy");
                let mut d = t.clone();
                d.insert(k.clone(), 424_242);
                same!(d == t, m.get(&k) == Some(&424_242), "C20:not-equal");
                // the same value somewhere else
                if let Some((a, v)) = m.iter().nth(r.below(m.len() + 1)).map(|(a, v)| (a.clone(), *v)) {
                    let mut b = a.clone();
                    match b.pop() {
                        Some(x) if r.chance(1, 2) => b.push(x ^ 1),
                        Some(x) if r.chance(1, 2) => b.extend(vec![x, 0]),
                        Some(_) => {}
                        None => b.push(0),
                    }
                    if !m.contains_key(&b) {
                        let mut d = t.clone();
                        d.remove(&a);
                        d.insert(b, v);
                        same!(d == t || t == d, false, "C20:not-equal");
                    }
                }
            }
        }
        same!(t.len(), m.len(), "C20:len");
        same!(t.is_empty(), m.is_empty(), "C20:is_empty");
        // iteration visits a node before its children and siblings from left to right
        same!((&t).into_iter().map(|(k, v)| (k.clone(), *v)).collect::<Vec<_>>(), m.iter().map(|(k, v)| (k.clone(), *v)).collect::<Vec<_>>(), "C20:iterate");
        same!(t.keys().cloned().collect::<Vec<_>>(), m.keys().cloned().collect::<Vec<_>>(), "C20:keys");
        same!(t.values().cloned().collect::<Vec<_>>(), m.values().cloned().collect::<Vec<_>>(), "C20:values");
        most = most.max(m.len());
        ctx.ev("operations");
    }
    if most > 3 {
        ctx.nontrivial(&trace);
    }
    ctx.sample(|| trace.join(" "));
}
