//! C09 and C10: the text notation of grammars.
use kit::gram::{generate, Gram, Shape, Sym};
use kit::{guarded, Ctx, Rng};
use log_domain::LogDomain;
use num_traits::One;
use rustomata::grammars::cfg::{CFGRule, LetterT, CFG};
use rustomata::grammars::lcfrs::from_discodop::{DiscoDopGrammar, DiscoLexer};
#[cfg(feature = "rparse")]
use rustomata::grammars::lcfrs::from_rparse::lcfrs_from_rparse;
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::{PMCFGRule, VarT, PMCFG};
use std::fmt::{Debug, Display};
use std::str::FromStr;

/// a symbol and whether it may be written without quotes
fn names(r: &mut Rng, n: usize, numeric: bool, single: bool) -> Vec<(String, bool)> {
    let bare = ["S", "A", "NP", "x_1", "ä", "Æ", "–", "„", "$.", "<e>", "a'b", "VROOT|<x>", "σ", "日本", "😀", "a:b", "(", "T", "Var", "Nt", "_", "@^PP2^VP3", ".", "?", "B2", "Ӓ"];
    let quoted = ["", "a b", " lead", "trail ", "a,b", "a → b", "x]", "(y)", "50%", "#1", "a;b", "a-b", "[[", "\\\"", "a\\\\b", "% no comment", "->", "ü-ö", "initial:"];
    let mut pool: Vec<(String, bool)> = if numeric {
        (0..30).map(|i| (format!("{}", i * i), true)).collect()
    } else {
        bare.iter().map(|s| (s.to_string(), true)).chain(quoted.iter().map(|s| (s.to_string(), false))).collect()
    };
    if !numeric && r.chance(1, 8) {
        let long = r.range(20, 600);
        pool.push(("NP_SBJ|<x>".repeat(long / 10), true));
        pool.push((format!("{} {}", "é".repeat(long), "→ [[".repeat(long / 5)), false));
    }
    if single {
        pool.retain(|(s, _)| s.chars().count() == 1);
        pool.extend("bcdefghijklmno".chars().map(|c| (c.to_string(), true)));
        pool.extend(" ,→-])#%;".chars().map(|c| (c.to_string(), false)));
    }
    r.shuffle(&mut pool);
    pool.truncate(n);
    pool
}

struct Pen<'a> {
    r: &'a mut Rng,
}
impl<'a> Pen<'a> {
    fn tok(&mut self, t: &(String, bool)) -> String {
        if t.1 && self.r.chance(2, 3) {
            t.0.clone()
        } else {
            format!("\"{}\"", t.0)
        }
    }
    fn sp(&mut self) -> String {
        " ".repeat(*self.r.pick(&[0, 0, 1, 1, 2]))
    }
    fn sp1(&mut self) -> String {
        self.r.pick::<&str>(&[" ", " ", "  ", "   "]).to_string()
    }
    fn arrow(&mut self) -> String {
        let a = *self.r.pick::<&str>(&["→", "→", "->", "=>"]);
        let before = if a == "=>" { self.sp1() } else { self.sp() };
        format!("{}{}{}", before, a, self.sp())
    }
    fn list(&mut self, items: Vec<String>, open: &str, close: &str) -> String {
        let mut s = format!("{}{}", open, self.sp());
        let n = items.len();
        for (i, x) in items.into_iter().enumerate() {
            s.push_str(&x);
            s.push_str(&self.sp());
            if i + 1 < n {
                s.push(',');
                s.push_str(&self.sp());
            }
        }
        s.push_str(close);
        s
    }
    fn ending(&mut self, weight: &Option<String>) -> String {
        let mut s = String::new();
        if let Some(w) = weight {
            s.push_str(&format!("{}#{}{}", self.sp(), self.sp(), w));
        }
        match self.r.below(6) {
            0 => s.push_str(" % a comment, with [brackets] # 7"),
            1 => s.push_str("  %"),
            2 => s.push_str("  "),
            3 => s.push_str("% directly"),
            4 => s.push_str("\t% after a tab"),
            _ => {}
        }
        s
    }
    fn frame(&mut self, lines: Vec<String>) -> String {
        let mut s = String::new();
        for l in lines {
            match self.r.below(9) {
                0 => s.push('\n'),
                1 => s.push_str("   \n"),
                2 => s.push_str("% S → [[T a]] ()\n"),
                3 => s.push_str("  % comment → [\n"),
                _ => {}
            }
            if self.r.chance(1, 6) {
                s.push_str("  ");
            }
            s.push_str(&l);
            s.push_str(if self.r.chance(1, 10) { "\r\n" } else { "\n" });
        }
        match self.r.below(5) {
            0 => s.push_str("\t\n"),
            1 => {
                s.pop();
            }
            2 => s.push_str("% end"),
            _ => {}
        }
        s
    }
}

fn weight_text(r: &mut Rng) -> Option<String> {
    match r.below(9) {
        0 => None,
        // all digits a double has, and very small ones
        6 => Some(format!("{}", (r.next() >> 11) as f64 / (1u64 << 53) as f64)),
        7 => Some(format!("{}", r.range(1, 1 << 40) as f64 * 2.0f64.powi(-(r.range(40, 400) as i32)))),
        8 => Some(format!("{}.{}e-{}", r.range(1, 9), r.range(0, 99999), r.range(1, 200))),
        1 => Some("1".into()),
        2 => Some(format!("0.{}", r.range(1, 999))),
        3 => Some(format!("{}e-{}", r.range(1, 9), r.range(1, 9))),
        4 => Some(format!("{}", r.range(0, 40))),
        _ => Some(format!("{}.{}", r.range(0, 3), r.range(0, 99))),
    }
}

pub fn shape(r: &mut Rng) -> Shape {
    if r.chance(1, 12) {
        // numbers of two digits, long lists
        return Shape {
            nts: r.range(1, 15),
            max_fanout: r.range(1, 14),
            terminals: r.range(1, 12),
            max_rules_per_nt: r.range(1, 6),
            max_tail: r.range(0, 14),
            max_terminals: 12,
            recursive: r.chance(1, 2),
            epsilon: r.chance(1, 2),
            deleting: r.chance(1, 3),
            copying: r.chance(1, 3),
            ..Shape::default()
        };
    }
    Shape {
        nts: r.range(1, 5),
        max_fanout: r.range(1, 3),
        terminals: r.range(1, 4),
        max_rules_per_nt: r.range(1, 3),
        max_tail: r.range(0, 3),
        recursive: r.chance(1, 2),
        epsilon: r.chance(1, 2),
        deleting: r.chance(1, 3),
        copying: r.chance(1, 3),
        ..Shape::default()
    }
}

pub struct Doc {
    pub text: String,
    pub weights: Vec<Option<String>>,
    pub nts: Vec<(String, bool)>,
    pub ts: Vec<(String, bool)>,
    pub initials: Vec<usize>,
}

/// writes a grammar of the model in the documented notation
fn write_doc(r: &mut Rng, g: &Gram, cfg: bool, one_initial: bool, nts: Vec<(String, bool)>, ts: Vec<(String, bool)>) -> Doc {
    let weights: Vec<Option<String>> = g.rules.iter().map(|_| weight_text(r)).collect();
    let mut initials = vec![g.init];
    if !one_initial {
        for n in 0..g.fanout.len() {
            if n != g.init && r.chance(1, 5) {
                initials.push(n);
            }
        }
        if r.chance(1, 10) {
            initials.clear();
        }
    }
    let mut p = Pen { r };
    let mut lines = Vec::new();
    for (rule, w) in g.rules.iter().zip(&weights) {
        let head = p.tok(&nts[rule.lhs]);
        let arrow = p.arrow();
        let comps: Vec<Vec<String>> = rule
            .comps
            .iter()
            .map(|c| {
                c.iter()
                    .map(|s| match s {
                        Sym::T(t) => format!("T{}{}", p.sp1(), p.tok(&ts[*t as usize])),
                        Sym::V(i, _) if cfg => format!("Nt{}{}", p.sp1(), p.tok(&nts[rule.tail[*i]])),
                        Sym::V(i, j) => format!("Var{}{}{}{}", p.sp1(), i, p.sp1(), j),
                    })
                    .collect()
            })
            .collect();
        let mut l = format!("{}{}", head, arrow);
        if cfg {
            let c = comps.into_iter().next().unwrap();
            l.push_str(&p.list(c, "[", "]"));
        } else {
            let cs: Vec<String> = comps.into_iter().map(|c| p.list(c, "[", "]")).collect();
            l.push_str(&p.list(cs, "[", "]"));
            l.push_str(&p.sp());
            let tail: Vec<String> = rule.tail.iter().map(|n| p.tok(&nts[*n])).collect();
            l.push_str(&p.list(tail, "(", ")"));
        }
        l.push_str(&p.ending(w));
        lines.push(l);
    }
    let ini: Vec<String> = initials.iter().map(|n| p.tok(&nts[*n])).collect();
    let mut heads = vec![ini];
    if heads[0].len() > 1 && p.r.chance(1, 2) {
        // the declarations of several lines are united
        let m = p.r.range(1, heads[0].len() - 1);
        let rest = heads[0].split_off(m);
        heads.push(rest);
    }
    let mut decl: Vec<String> = Vec::new();
    for ini in heads {
        let head = format!("initial:{}", p.sp());
        let mut head = head + &p.list(ini, "[", "]");
        if p.r.chance(1, 5) {
            head.push_str(" % S is initial");
        }
        decl.push(head);
    }
    let first = decl.remove(0);
    let mut at = if p.r.chance(1, 4) { p.r.below(lines.len() + 1) } else { 0 };
    lines.insert(at, first);
    for d in decl {
        at += 1 + p.r.below(lines.len() - at);
        lines.insert(at, d);
    }
    let text = p.frame(lines);
    Doc { text, weights, nts, ts, initials }
}

trait Weight: FromStr + One + Clone + Display + Debug {
    fn of(s: &Option<String>) -> Self;
    fn same(&self, o: &Self) -> bool;
}
impl Weight for f64 {
    fn of(s: &Option<String>) -> f64 {
        s.as_ref().map_or(1.0, |s| s.parse().unwrap())
    }
    fn same(&self, o: &f64) -> bool {
        self == o
    }
}
impl Weight for LogDomain<f64> {
    fn of(s: &Option<String>) -> Self {
        LogDomain::new(f64::of(s)).unwrap()
    }
    fn same(&self, o: &Self) -> bool {
        self.value() == o.value() || (self.ln() - o.ln()).abs() < 1e-9
    }
}

type Vt<T> = VarT<T>;

fn want_pmcfg<N: FromStr, T: FromStr, W: Weight>(g: &Gram, d: &Doc) -> Vec<PMCFGRule<N, T, W>>
where
    N::Err: Debug,
    T::Err: Debug,
{
    g.rules
        .iter()
        .zip(&d.weights)
        .map(|(rule, w)| PMCFGRule {
            head: d.nts[rule.lhs].0.parse().unwrap(),
            tail: rule.tail.iter().map(|n| d.nts[*n].0.parse().unwrap()).collect(),
            composition: rule
                .comps
                .iter()
                .map(|c| {
                    c.iter()
                        .map(|s| match s {
                            Sym::T(t) => Vt::T(d.ts[*t as usize].0.parse().unwrap()),
                            Sym::V(i, j) => Vt::Var(*i, *j),
                        })
                        .collect()
                })
                .collect::<Vec<Vec<Vt<T>>>>()
                .into(),
            weight: W::of(w),
        })
        .collect()
}

fn same_rules<N: PartialEq, T: PartialEq, W: Weight>(a: &[PMCFGRule<N, T, W>], b: &[PMCFGRule<N, T, W>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y && x.weight.same(&y.weight))
}

fn pmcfg_case<N, T, W>(ctx: &mut Ctx, g: &Gram, d: &Doc)
where
    N: FromStr + PartialEq + Debug + Display + Clone,
    N::Err: Debug,
    T: FromStr + PartialEq + Debug + Display + Clone,
    T::Err: Debug,
    W: Weight,
    W::Err: Debug,
{
    let want: Vec<PMCFGRule<N, T, W>> = want_pmcfg(g, d);
    let inits: Vec<N> = d.initials.iter().map(|n| d.nts[*n].0.parse().unwrap()).collect();
    let parsed = match ctx.call("C09:pmcfg", || d.text.parse::<PMCFG<N, T, W>>(), || format!("{:?}", d.text)) {
        Some(p) => p,
        None => return,
    };
    ctx.ev("MCFG texts read");
    match parsed {
        Err(e) => ctx.violation("C09:pmcfg-rejected", format!("{} for {:?}", e, d.text)),
        Ok(gr) => {
            if !ctx.check(gr.initial == inits && same_rules(&gr.rules, &want), "C09:pmcfg-read", || {
                format!("{:?} was read as {:?} / {:?}", d.text, gr.initial, gr.rules)
            }) {
                return;
            }
            let shown = gr.to_string();
            ctx.ev("MCFGs written and read again");
            match guarded(|| shown.parse::<PMCFG<N, T, W>>()) {
                Ok(Ok(again)) => {
                    ctx.check(again.initial == gr.initial && same_rules(&again.rules, &gr.rules), "C09:pmcfg-round-trip", || format!("{:?} reads as {:?}", shown, again));
                }
                e => ctx.violation("C09:pmcfg-round-trip", format!("{:?}: {:?}", shown, e.map(|x| x.is_ok()))),
            }
            for rule in &gr.rules {
                ctx.ev("rules written and read again");
                let one = guarded(|| rule.to_string().parse::<PMCFGRule<N, T, W>>());
                ctx.check(matches!(&one, Ok(Ok(x)) if x == rule && x.weight.same(&rule.weight)), "C09:pmcfg-rule", || format!("{}", rule));
            }
        }
    }
}

fn cfg_case<N, T, W>(ctx: &mut Ctx, g: &Gram, d: &Doc)
where
    N: FromStr + PartialEq + Debug + Display + Clone,
    N::Err: Debug,
    T: FromStr + PartialEq + Debug + Display + Clone,
    T::Err: Debug,
    W: Weight,
    W::Err: Debug,
{
    let want: Vec<CFGRule<N, T, W>> = want_pmcfg::<N, T, W>(g, d)
        .into_iter()
        .map(|r| {
            let tail = r.tail.clone();
            CFGRule {
                head: r.head,
                composition: r
                    .composition
                    .into_iter()
                    .next()
                    .unwrap()
                    .into_iter()
                    .map(|v| match v {
                        VarT::T(t) => LetterT::Value(t),
                        VarT::Var(i, _) => LetterT::Label(tail[i].clone()),
                    })
                    .collect::<Vec<_>>()
                    .into(),
                weight: r.weight,
            }
        })
        .collect();
    let same = |a: &[CFGRule<N, T, W>], b: &[CFGRule<N, T, W>]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y && x.weight.same(&y.weight));
    let inits: Vec<N> = d.initials.iter().map(|n| d.nts[*n].0.parse().unwrap()).collect();
    let parsed = match ctx.call("C09:cfg", || d.text.parse::<CFG<N, T, W>>(), || format!("{:?}", d.text)) {
        Some(p) => p,
        None => return,
    };
    ctx.ev("CFG texts read");
    match parsed {
        Err(e) => ctx.violation("C09:cfg-rejected", format!("{} for {:?}", e, d.text)),
        Ok(gr) => {
            ctx.check(gr.initial == inits && same(&gr.rules, &want), "C09:cfg-read", || format!("{:?} was read as {:?} / {:?}", d.text, gr.initial, gr.rules));
            for rule in &gr.rules {
                ctx.ev("rules written and read again");
                let one = guarded(|| rule.to_string().parse::<CFGRule<N, T, W>>());
                ctx.check(matches!(&one, Ok(Ok(x)) if x == rule && x.weight.same(&rule.weight)), "C09:cfg-rule", || format!("{}", rule));
            }
        }
    }
}

pub fn c09(ctx: &mut Ctx, r: &mut Rng) {
    let kind = r.below(3);
    let mut sh = shape(r);
    if kind == 0 {
        sh.max_fanout = 1;
        sh.copying = false;
        sh.deleting = false;
    }
    if kind == 2 {
        sh.copying = false;
        sh.deleting = false;
    }
    let g = generate(r, &sh);
    let variant = r.below(5);
    let (num_n, single_n) = (variant == 1, variant == 2);
    let (num_t, single_t) = (variant == 3, variant == 4);
    let nts = names(r, g.fanout.len(), num_n, single_n);
    let ts = names(r, sh.terminals, num_t, single_t);
    let d = write_doc(r, &g, kind == 0, kind == 2, nts, ts);
    ctx.eval();
    ctx.nontrivial(&d.text);
    ctx.sample(|| d.text.clone());
    type L = LogDomain<f64>;
    match (kind, variant) {
        (0, 1) => cfg_case::<usize, String, f64>(ctx, &g, &d),
        (0, 2) => cfg_case::<char, String, L>(ctx, &g, &d),
        (0, 3) => cfg_case::<String, u32, L>(ctx, &g, &d),
        (0, 4) => cfg_case::<String, char, f64>(ctx, &g, &d),
        (0, _) => cfg_case::<String, String, L>(ctx, &g, &d),
        (1, 1) => pmcfg_case::<usize, String, f64>(ctx, &g, &d),
        (1, 2) => pmcfg_case::<char, String, L>(ctx, &g, &d),
        (1, 3) => pmcfg_case::<String, u32, L>(ctx, &g, &d),
        (1, 4) => pmcfg_case::<String, char, f64>(ctx, &g, &d),
        (1, _) => pmcfg_case::<String, String, L>(ctx, &g, &d),
        _ => {
            if num_n || single_n || num_t || single_t {
                return;
            }
            // LCFRS: one initial nonterminal
            let want: Vec<PMCFGRule<String, String, f64>> = want_pmcfg(&g, &d);
            match ctx.call("C09:lcfrs", || d.text.parse::<Lcfrs<String, String, f64>>(), || format!("{:?}", d.text)) {
                None => {}
                Some(Err(e)) => ctx.violation("C09:lcfrs-rejected", format!("{} for {:?}", e, d.text)),
                Some(Ok(l)) => {
                    ctx.ev("LCFRS texts read");
                    let shown = l.to_string();
                    let (rules, init) = l.destruct();
                    ctx.check(init == d.nts[g.init].0 && same_rules(&rules, &want), "C09:lcfrs-read", || format!("{:?} was read as {:?} / {:?}", d.text, init, rules));
                    match guarded(|| shown.parse::<Lcfrs<String, String, f64>>()) {
                        Ok(Ok(again)) => {
                            let (rules2, init2) = again.destruct();
                            ctx.check(init2 == init && same_rules(&rules2, &rules), "C09:lcfrs-round-trip", || format!("{:?}", shown));
                        }
                        e => ctx.violation("C09:lcfrs-round-trip", format!("{:?}: {:?}", shown, e.map(|x| x.map(|_| "read").map_err(|e| e)))),
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C10

/// the lines that must each give a production
fn production_lines(t: &str) -> usize {
    t.lines().filter(|l| {
        let l = l.trim();
        !l.is_empty() && !l.starts_with('%') && !l.starts_with("initial:")
    }).count()
}

fn mutate(r: &mut Rng, text: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    let frag = ["→", "[", "]", "(", ")", "\"", "\\", "#", "%", "\n", " ", "\t", "T ", "Nt ", "Var ", "Var 0 99999999999999999999999", ",", "->", "# abc", "# -1", "# 1e", "# NaN", "initial:", "initial: [", "é", "Æ", "\u{0}", "\u{7f}", "1/", "0", "99999999999999999999", "01"];
    for _ in 0..r.range(1, 4) {
        let i = r.below(c.len() + 1);
        match r.below(6) {
            0 if i < c.len() => {
                c.remove(i);
            }
            1 => {
                let f: Vec<char> = r.pick(&frag).chars().collect();
                c.splice(i..i, f);
            }
            2 if i < c.len() => c[i] = r.pick(&frag).chars().next().unwrap(),
            3 if !c.is_empty() => {
                let j = r.below(c.len());
                let i = i.min(c.len() - 1);
                c.swap(i, j);
            }
            4 => c.truncate(i),
            _ => {
                // drop or double a line
                let t: String = c.iter().collect();
                let mut ls: Vec<&str> = t.split('\n').collect();
                let k = r.below(ls.len());
                if r.chance(1, 2) {
                    ls.remove(k);
                } else {
                    ls.insert(k, ls[k]);
                }
                c = ls.join("\n").chars().collect();
            }
        }
    }
    c.into_iter().collect()
}

pub fn c10(ctx: &mut Ctx, r: &mut Rng) {
    let mut sh = shape(r);
    let cfg = r.chance(1, 2);
    if cfg {
        sh.max_fanout = 1;
        sh.copying = false;
        sh.deleting = false;
    }
    let g = generate(r, &sh);
    let nts = names(r, g.fanout.len(), false, false);
    let ts = names(r, sh.terminals, false, false);
    let d = write_doc(r, &g, cfg, false, nts, ts);
    let text = if r.chance(1, 12) {
        // unrelated text
        let n = r.below(60);
        (0..n).map(|_| *r.pick(&['[', ']', '(', ')', '"', '\\', '#', '%', '\n', ' ', 'T', 'N', 't', 'a', '0', '→', ',', '-', '>'])).collect()
    } else {
        mutate(r, &d.text)
    };
    ctx.eval();
    ctx.nontrivial(&text);
    ctx.sample(|| text.clone());
    let want = production_lines(&text);
    macro_rules! read {
        ($what:expr, $t:ty, $n:expr) => {
            if let Some(res) = ctx.call(&format!("C10:{}", $what), || text.parse::<$t>(), || format!("{:?}", text)) {
                match res {
                    Err(_) => ctx.ev("rejected"),
                    Ok(g) => {
                        ctx.ev("accepted");
                        let n: usize = $n(g);
                        ctx.check(n == want, &format!("C10:{}-lines", $what), || format!("{} productions from {} lines: {:?}", n, want, text));
                    }
                }
            }
        };
    }
    read!("cfg", CFG<String, String, LogDomain<f64>>, |g: CFG<String, String, LogDomain<f64>>| g.rules.len());
    read!("cfg-typed", CFG<char, u8, f64>, |g: CFG<char, u8, f64>| g.rules.len());
    read!("pmcfg", PMCFG<String, String, LogDomain<f64>>, |g: PMCFG<String, String, LogDomain<f64>>| g.rules.len());
    read!("pmcfg-typed", PMCFG<u32, char, f64>, |g: PMCFG<u32, char, f64>| g.rules.len());
    read!("lcfrs", Lcfrs<String, String, LogDomain<f64>>, |g: Lcfrs<String, String, LogDomain<f64>>| g.destruct().0.len());
    // a weight that is no number never passes for one
    if let Some(Some(w)) = d.weights.first() {
        let line = if cfg { format!("S → [T a] # {}x", w) } else { format!("S → [[T a]] () # {}x", w) };
        ctx.ev("malformed weights");
        if cfg {
            if let Some(x) = ctx.call("C10:weight", || line.parse::<CFGRule<String, String, f64>>(), || line.clone()) {
                ctx.check(x.is_err(), "C10:weight-accepted", || line.clone());
            }
        } else if let Some(x) = ctx.call("C10:weight", || line.parse::<PMCFGRule<String, String, f64>>(), || line.clone()) {
            ctx.check(x.is_err(), "C10:weight-accepted", || line.clone());
        }
    }
    if r.chance(1, 3) {
        let t = mutate(r, "ROOT\tS\tNP\t01\t1/2\nS\tVP\t0\t3\nVP_2\tNP\tVB\t0,1\t7\nNP\tNN\t0\t1");
        ctx.ev("imported texts");
        ctx.call("C10:discodop", || t.parse::<DiscoDopGrammar<String, (), LogDomain<f64>>>().is_ok(), || format!("{:?}", t));
        let l = mutate(r, "is\tVB\t1/2\nJohn\tNN\t1\nrich\tJJ\t1/4\nstain\tNN\t2/8\tVP\t3");
        #[cfg(feature = "rparse")]
        {
        let t = mutate(r, "1 0.5:S1 --> NP1 VP2 [[[false, true], [true]]]\n22 1.0E-4:NP1 --> NN1  [[[false]]]\n3 1:VROOT1 --> S1 [[[false]]]");
        ctx.call("C10:rparse", || lcfrs_from_rparse::<String, f64>(&t).is_ok(), || format!("{:?}", t));
        ctx.call("C10:rparse", || lcfrs_from_rparse::<String, u8>(&t).is_ok(), || format!("{:?}", t));
        }
        ctx.call("C10:lexer", || l.parse::<DiscoLexer<String, String, LogDomain<f64>>>().is_ok(), || format!("{:?}", l));
    }
}
