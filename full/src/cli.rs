//! C32: the command line program, run as a process on files.  What it prints is judged against
//! derivations and runs that are enumerated without it.
use crate::auto::{self, *};
use crate::cs::{self, Approx};
use kit::gram::{generate, Deriv, Gram, Rule, Shape, Sym, Tm};
use kit::{Ctx, Rng};
use rustomata::grammars::pmcfg::negra::{noparse, to_negra, DumpMode};
use rustomata::util::tree::GornTree;
use rustomata::approximation::equivalence_classes::EquivalenceRelation;
use rustomata::approximation::relabel::RlbElement;
use rustomata::approximation::tts::TTSElement;
use rustomata::approximation::ApproximationStrategy;
use rustomata::automata::push_down_automaton::{PushDownAutomaton, PushState};
use rustomata::automata::tree_stack_automaton::TreeStackAutomaton;
use rustomata::grammars::cfg::CFG;
use rustomata::grammars::pmcfg::PMCFG;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::rc::Rc;

// ------------------------------------------------------------------ the process

struct Cli {
    exe: String,
    dir: PathBuf,
}

struct Output {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}
impl Output {
    fn text(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
}

impl Cli {
    fn new() -> Option<Self> {
        let exe = std::env::var("RUSTOMATA_CLI").ok()?;
        let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".into());
        let dir = PathBuf::from(base).join(format!("cli-{}", std::process::id()));
        std::fs::create_dir_all(&dir).ok()?;
        Some(Cli { exe, dir })
    }
    fn file(&self, name: &str, content: &[u8]) -> String {
        let p = self.dir.join(name);
        std::fs::write(&p, content).expect("scratch file");
        p.to_string_lossy().into_owned()
    }
    /// 60 CPU seconds at most
    fn run(&self, args: &[&str], input: &[u8]) -> Output {
        let mut c = Command::new("/bin/sh")
            .args(["-c", "ulimit -t 60; exec \"$0\" \"$@\"", &self.exe])
            .args(args)
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("the program starts");
        let mut stdin = c.stdin.take().unwrap();
        let data = input.to_vec();
        let t = std::thread::spawn(move || {
            let _ = stdin.write_all(&data);
        });
        let o = c.wait_with_output().expect("the program ends");
        let _ = t.join();
        Output { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
    }
}
impl Drop for Cli {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn gz(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::default());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

/// the call succeeded
fn fine(ctx: &mut Ctx, sig: &str, o: &Output, detail: &dyn Fn() -> String) -> bool {
    ctx.ev("calls of the program");
    let err: String = o.err.chars().take(400).collect();
    ctx.check(o.code == Some(0), &format!("{}:exit", sig), || format!("exit {:?}: {}; {}", o.code, err, detail()))
}

// ------------------------------------------------------------------ grammars as text

fn pmcfg_text(r: &mut Rng, g: &Gram) -> String {
    let mut s = format!("initial: [N{}]\n\n", g.init);
    for x in &g.rules {
        let comps: Vec<String> = x
            .comps
            .iter()
            .map(|c| {
                let v: Vec<String> = c
                    .iter()
                    .map(|s| match s {
                        Sym::T(t) => format!("T t{}", t),
                        Sym::V(i, j) => format!("Var {} {}", i, j),
                    })
                    .collect();
                format!("[{}]", v.join(", "))
            })
            .collect();
        let tail: Vec<String> = x.tail.iter().map(|n| format!("N{}", n)).collect();
        s.push_str(&format!("N{} {} [{}] ({})", x.lhs, r.pick(&["→", "->"]), comps.join(", "), tail.join(", ")));
        if x.exp != 0 || r.chance(1, 2) {
            s.push_str(&format!("  # {}", x.weight()));
        }
        s.push('\n');
        if r.chance(1, 12) {
            s.push_str("% N0 → [[T t9]] ()\n\n");
        }
    }
    s
}

fn cfg_text(r: &mut Rng, g: &Gram) -> String {
    let mut s = format!("initial: [N{}]\n", g.init);
    for x in &g.rules {
        let v: Vec<String> = x.comps[0]
            .iter()
            .map(|s| match s {
                Sym::T(t) => format!("T t{}", t),
                Sym::V(i, _) => format!("Nt N{}", x.tail[*i]),
            })
            .collect();
        s.push_str(&format!("N{} → [{}]", x.lhs, v.join(", ")));
        if x.exp != 0 || r.chance(1, 2) {
            s.push_str(&format!("  # {}", x.weight()));
        }
        s.push('\n');
    }
    s
}

fn sentence(w: &[Tm]) -> String {
    cs::toks(w).join(" ")
}

fn corpus(r: &mut Rng, lines: &[String]) -> String {
    let mut s = lines.join("\n");
    if r.chance(3, 4) {
        s.push('\n');
    }
    s
}

// ------------------------------------------------------------------ blocks of trees

type PR = cs::R;

fn gorn(g: &Gram, d: &Deriv, names: &dyn Fn(&PR) -> PR) -> GornTree<PR> {
    d.nodes().into_iter().map(|(a, i)| (a, names(&cs::rule_of(&g.rules[i])))).collect()
}

/// what the program may print for a sentence: blocks, each with the costs of the derivations
/// that it shows
struct Expected {
    blocks: BTreeMap<String, Vec<f64>>,
    costs: Vec<f64>,
}
impl Expected {
    fn new(g: &Gram, ds: &[Rc<Deriv>], cost: &dyn Fn(&Deriv) -> f64, names: &dyn Fn(&PR) -> PR, id: usize, mode: &DumpMode<String>) -> Self {
        let mut blocks: BTreeMap<String, Vec<f64>> = BTreeMap::new();
        let mut costs = Vec::new();
        for d in ds {
            let c = cost(d);
            blocks.entry(to_negra(&gorn(g, d, names), id, mode.clone())).or_default().push(c);
            costs.push(c);
        }
        costs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        Expected { blocks, costs }
    }
    /// the blocks are trees of the sentence, none too often, the best first
    fn judge(&self, ctx: &mut Ctx, sig: &str, got: &[String], exact: Option<usize>, detail: &dyn Fn() -> String) {
        let mut seen: HashMap<&String, usize> = HashMap::new();
        for b in got {
            let k = seen.entry(b).or_insert(0);
            *k += 1;
            let max = self.blocks.get(b).map_or(0, |v| v.len());
            if *k > max {
                ctx.violation(&format!("{}:trees", sig), format!("{:?} is printed {} times, expected {}; {}", b, k, max, detail()));
                return;
            }
        }
        // the least cost each could stand for must not be beaten by a later one
        let cheap = |b: &String| self.blocks[b].iter().cloned().fold(f64::INFINITY, f64::min);
        let dear = |b: &String| self.blocks[b].iter().cloned().fold(0.0, f64::max);
        for p in got.windows(2) {
            if cheap(&p[0]) > dear(&p[1]) + 1e-6 {
                ctx.violation(&format!("{}:order", sig), format!("{:?} before {:?}; {}", p[0], p[1], detail()));
                return;
            }
        }
        if let Some(k) = exact {
            let n = k.min(self.costs.len());
            if got.len() != n {
                ctx.violation(&format!("{}:number", sig), format!("{} trees, expected {}; {}", got.len(), n, detail()));
                return;
            }
            for (i, b) in got.iter().enumerate() {
                let want = self.costs[i];
                if !self.blocks[b].iter().any(|c| (c - want).abs() < 1e-6) {
                    ctx.violation(&format!("{}:best", sig), format!("tree {} is {:?}, and there is a better one; {}", i, b, detail()));
                    return;
                }
            }
        }
    }
}

/// splits the output in blocks `#BOS … #EOS id`
fn blocks(out: &str) -> Option<Vec<String>> {
    let mut v = Vec::new();
    let mut cur: Option<Vec<&str>> = None;
    for l in out.lines() {
        if l.starts_with("#BOS ") {
            if cur.is_some() {
                return None;
            }
            cur = Some(vec![l]);
        } else if let Some(c) = &mut cur {
            c.push(l);
            if l.starts_with("#EOS ") {
                v.push(c.join("\n"));
                cur = None;
            }
        } else if !l.trim().is_empty() {
            return None;
        }
    }
    if cur.is_some() {
        return None;
    }
    Some(v)
}

fn block_id(b: &str) -> Option<usize> {
    let first = b.lines().next()?.strip_prefix("#BOS ")?.parse().ok()?;
    let last: usize = b.lines().last()?.strip_prefix("#EOS ")?.parse().ok()?;
    if first == last {
        Some(first)
    } else {
        None
    }
}

/// the words of a block in the order of the rows
fn block_words(b: &str) -> Vec<String> {
    b.lines().filter(|l| !l.starts_with('#')).map(|l| l.split('\t').next().unwrap_or("").to_string()).collect()
}

// ------------------------------------------------------------------ csparsing

fn nf_shape(r: &mut Rng) -> Shape {
    if r.chance(1, 3) {
        // many derivations, and candidates that are none
        return Shape {
            nts: r.range(2, 4),
            max_fanout: r.range(2, 3),
            terminals: r.range(1, 2),
            max_rules_per_nt: r.range(3, 4),
            max_tail: 2,
            max_exp: r.range(1, 5) as u32,
            normal_form: true,
            ..Shape::default()
        };
    }
    Shape {
        nts: r.range(1, 4),
        max_fanout: *r.pick(&[1, 2, 2, 3]),
        terminals: r.range(1, 3),
        max_rules_per_nt: r.range(1, 3),
        max_tail: r.range(1, 3),
        max_exp: r.range(0, 5) as u32,
        normal_form: true,
        ..Shape::default()
    }
}

/// The NeGra format has no node for a terminal rule at the root, so a new nonterminal becomes the
/// root if necessary.
fn rooted(r: &mut Rng, sh: &Shape) -> Gram {
    let mut g = generate(r, sh);
    if g.rules.iter().any(|x| x.lhs == g.init && x.tail.is_empty()) {
        let n = g.fanout.len();
        g.fanout.push(1);
        g.rules.push(Rule { lhs: n, tail: vec![g.init], comps: vec![vec![Sym::V(0, 0)]], exp: r.below(3) as u32 });
        if r.chance(1, 2) {
            let i = r.below(n);
            if g.fanout[i] == 1 {
                g.rules.push(Rule { lhs: n, tail: vec![g.init, i], comps: vec![vec![Sym::V(0, 0), Sym::V(1, 0)]], exp: r.below(3) as u32 });
            }
        }
        g.init = n;
    }
    g
}

/// { aⁿ bᵐ cⁿ dᵐ }
fn crossed(r: &mut Rng) -> Gram {
    let t = |lhs: usize, t: Tm| Rule { lhs, tail: vec![], comps: vec![vec![Sym::T(t)]], exp: 0 };
    let mut rules = vec![
        Rule { lhs: 0, tail: vec![1, 2], comps: vec![vec![Sym::V(0, 0), Sym::V(1, 0), Sym::V(0, 1), Sym::V(1, 1)]], exp: r.below(3) as u32 },
        t(3, 0),
        t(4, 1),
        t(5, 2),
        t(6, 3),
    ];
    for (a, x, y) in [(1, 3, 5), (2, 4, 6)] {
        rules.push(Rule { lhs: a, tail: vec![x, y, a], comps: vec![vec![Sym::V(0, 0), Sym::V(2, 0)], vec![Sym::V(1, 0), Sym::V(2, 1)]], exp: r.range(1, 3) as u32 });
        rules.push(Rule { lhs: a, tail: vec![x, y], comps: vec![vec![Sym::V(0, 0)], vec![Sym::V(1, 0)]], exp: r.range(1, 3) as u32 });
        if r.chance(1, 2) {
            rules.push(Rule { lhs: a, tail: vec![y, x], comps: vec![vec![Sym::V(1, 0)], vec![Sym::V(0, 0)]], exp: r.range(1, 3) as u32 });
        }
    }
    r.shuffle(&mut rules);
    Gram { fanout: vec![1, 2, 2, 1, 1, 1, 1], rules, init: 0 }
}

fn csparsing(ctx: &mut Ctx, r: &mut Rng, cli: &Cli) {
    let disco = r.chance(1, 3);
    let mut sh = nf_shape(r);
    if disco {
        sh.ordered = true;
        sh.max_tail = r.range(1, 2);
    }
    let crossing = !disco && r.chance(1, 6);
    let mut g = if crossing { crossed(r) } else { rooted(r, &sh) };
    if disco && g.rules.iter().any(|x| x.tail.len() > 2) {
        return;
    }
    // without a lexicon, nonterminals without rules read their own name
    let bare = disco && r.chance(1, 3);
    let first_pos = g.fanout.len();
    if bare {
        if g.rules.iter().flat_map(|x| &x.tail).any(|n| g.rules.iter().all(|y| y.lhs != *n)) {
            return;
        }
        let mut pos: BTreeMap<Tm, usize> = BTreeMap::new();
        for x in &mut g.rules {
            if let Some(Sym::T(t)) = x.comps[0].first().cloned() {
                let next = first_pos + pos.len();
                x.tail = vec![*pos.entry(t).or_insert(next)];
                x.comps = vec![vec![Sym::V(0, 0)]];
            }
        }
        for (t, n) in pos {
            if g.fanout.len() <= n {
                g.fanout.resize(n + 1, 1);
            }
            g.rules.push(Rule { lhs: n, tail: vec![], comps: vec![vec![Sym::T(t)]], exp: 0 });
        }
        ctx.ev("discodop grammars without a lexicon");
    }
    let pos_name: BTreeMap<String, String> = g.rules.iter().filter(|x| x.lhs >= first_pos).filter_map(|x| if let Some(Sym::T(t)) = x.comps[0].first() { Some((cs::nt(x.lhs), cs::tok(*t))) } else { None }).collect();
    let all = g.rules.len();
    let (n_in, n_out) = (r.range(1, 3), r.range(0, 2));
    let mut sentences: Vec<(Vec<Tm>, Vec<Rc<Deriv>>)> = words_of(r, &g, if crossing { 8 } else { 5 }, n_in, n_out).into_iter().filter(|x| !x.0.is_empty()).collect();
    if crossing {
        // words that only the context-free approximation has
        for _ in 0..2 {
            let n: Vec<usize> = (0..4).map(|_| r.range(1, 3)).collect();
            if n[0] != n[2] || n[1] != n[3] {
                sentences.push(((0..4).flat_map(|t| vec![t as Tm; n[t]]).collect(), vec![]));
            }
        }
    }
    if sentences.is_empty() {
        return;
    }
    if r.chance(1, 5) {
        // a sentence without words before another one
        let i = r.below(sentences.len());
        sentences.insert(i, (vec![], vec![]));
        ctx.ev("sentences without words");
    }
    // ---- the grammar
    let mut args: Vec<String> = vec!["csparsing".into(), "extract".into()];
    let costs: Vec<f64>;
    let mut input: Vec<u8> = vec![];
    let text;
    let mut lexicon = String::new();
    if disco {
        let counts: Vec<usize> = (0..all).map(|_| r.range(1, 20)).collect();
        let mut total: BTreeMap<usize, usize> = BTreeMap::new();
        for (i, x) in g.rules.iter().enumerate() {
            *total.entry(x.lhs).or_insert(0) += counts[i];
        }
        costs = g.rules.iter().enumerate().map(|(i, x)| -(counts[i] as f64 / total[&x.lhs] as f64).ln()).collect();
        let name = |n: usize| if n == g.init { "ROOT".to_string() } else { pos_name.get(&cs::nt(n)).cloned().unwrap_or_else(|| cs::nt(n)) };
        let mut lines = vec![];
        let mut lex: BTreeMap<Tm, Vec<String>> = BTreeMap::new();
        for (i, x) in g.rules.iter().enumerate() {
            if let Some(Sym::T(t)) = x.comps[0].first() {
                lex.entry(*t).or_default().push(format!("{}\t{}", name(x.lhs), counts[i]));
                continue;
            }
            let mut f = vec![name(x.lhs)];
            f.extend(x.tail.iter().map(|n| name(*n)));
            let ys: Vec<String> = x
                .comps
                .iter()
                .map(|c| c.iter().map(|s| if let Sym::V(i, _) = s { i.to_string() } else { "?".into() }).collect::<String>())
                .collect();
            f.push(ys.join(","));
            f.push(counts[i].to_string());
            lines.push(f.join("\t"));
        }
        if lines.is_empty() || lex.is_empty() {
            return;
        }
        text = lines.join("\n") + "\n";
        lexicon = lex.iter().map(|(t, v)| format!("{}\t{}\n", cs::tok(*t), v.join("\t"))).collect();
        args.push((*r.pick(&["-d", "--disco"])).into());
        let plain = r.chance(1, 2);
        if plain {
            args.push("--unzipped".into());
        }
        let pack = |s: &str| if plain { s.as_bytes().to_vec() } else { gz(s.as_bytes()) };
        if bare {
            lexicon.clear();
        } else {
            args.push((*r.pick(&["-l", "--lexer"])).into());
            args.push(cli.file("lexicon", &pack(&lexicon)));
        }
        if r.chance(1, 4) {
            input = pack(&text);
        } else {
            args.push(cli.file("rules", &pack(&text)));
        }
        ctx.ev("discodop grammars");
    } else {
        costs = g.rules.iter().map(|x| f64::from(x.exp) * LN2).collect();
        text = pmcfg_text(r, &g);
        let zipped = r.chance(1, 3);
        if zipped {
            args.push((*r.pick(&["-z", "--zipped"])).into());
        }
        let data = if zipped { gz(text.as_bytes()) } else { text.as_bytes().to_vec() };
        if r.chance(1, 3) {
            input = data;
        } else {
            args.push(cli.file("grammar", &data));
        }
    }
    let sx = if r.chance(1, 3) { Some(r.range(1, 8)) } else { None };
    if let Some(w) = sx {
        args.push("-s".into());
        args.push(w.to_string());
        ctx.ev("representations with estimates");
    }
    let init = g.init;
    let to_root = move |x: &PR| -> PR {
        if !disco {
            return x.clone();
        }
        let f = |n: &String| if *n == cs::nt(init) { "ROOT".to_string() } else { pos_name.get(n).unwrap_or(n).clone() };
        PR { head: f(&x.head), tail: x.tail.iter().map(f).collect(), composition: x.composition.clone(), weight: x.weight }
    };
    let descr0 = format!("{:?} on\n{}{}", args, text, lexicon);
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let o = cli.run(&a, &input);
    if !fine(ctx, "C32:extract", &o, &|| descr0.clone()) {
        return;
    }
    let rep = cli.file("representation", &o.out);
    // ---- sentences
    for _ in 0..r.range(1, 3) {
        let mut finite = true;
        for (w, _) in &sentences {
            let mut ap = Approx::new(&g, w);
            let (n, _) = ap.of(g.init, 0, 0, w.len());
            finite = finite && !ap.cyclic && n < 1000.0;
        }
        let mut args: Vec<String> = vec!["csparsing".into(), "parse".into(), rep.clone()];
        let mut exact = finite && sx.map_or(true, |s| sentences.iter().all(|x| x.0.len() <= s));
        let k = if r.chance(1, 3) { 1 } else { r.range(1, 12) };
        if k != 1 || r.chance(1, 2) {
            args.push("-k".into());
            args.push(k.to_string());
        }
        if !finite {
            args.push("-c".into());
            args.push("200".into());
        } else if r.chance(1, 5) {
            let n = r.range(1, 30);
            args.push((*r.pick(&["-c", "--candidates"])).into());
            args.push(n.to_string());
            exact = false;
        }
        match r.below(6) {
            0 => {
                args.push((*r.pick(&["-b", "--beam"])).into());
                args.push(r.range(1, 3).to_string());
                exact = false;
            }
            1 => args.extend(["-b".into(), "1000".into()]),
            2 => {
                args.push((*r.pick(&["-t", "--threshold"])).into());
                args.push((*r.pick(&["0.5", "0.1", "0.01"])).into());
                exact = false;
            }
            _ => {}
        }
        let lines = r.chance(1, 3);
        let pos = r.chance(1, 3);
        let fallback = r.chance(1, 3);
        let debug = r.chance(1, 6);
        for (b, s, l) in [(lines, "-l", "--with-lines"), (pos, "-p", "--with-pos"), (fallback, "-f", "--with-fallback"), (debug, "-d", "--debug")] {
            if b {
                let i = r.below(2);
                args.push([s, l][i].into());
            }
        }
        let ids: Vec<usize> = (0..sentences.len()).map(|i| if lines { 10 * r.below(100) + i % 10 } else { i }).collect();
        let forms: Vec<Vec<String>> = sentences.iter().map(|x| (0..x.0.len()).map(|i| format!("w{}{}", i, r.pick(&["", "/x", "é"]))).collect()).collect();
        let text_lines: Vec<String> = sentences
            .iter()
            .enumerate()
            .map(|(i, (w, _))| {
                let toks: Vec<String> = cs::toks(w).iter().zip(&forms[i]).map(|(t, f)| if pos { format!("{}/{}", f, t) } else { t.clone() }).collect();
                let body = toks.join(*r.pick(&[" ", "  ", "\t"]));
                if lines {
                    format!("{} {}", ids[i], body)
                } else {
                    body
                }
            })
            .collect();
        let stdin = corpus(r, &text_lines);
        let descr = || format!("{:?} with {:?} after {}", args, stdin, descr0);
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let o = cli.run(&a, stdin.as_bytes());
        if !fine(ctx, "C32:csparsing", &o, &descr) {
            continue;
        }
        ctx.eval();
        let out = o.text();
        let mut bs = match blocks(&out) {
            Some(b) => b.into_iter().peekable(),
            None => {
                ctx.violation("C32:csparsing:blocks", format!("output {:?}; {}", out, descr()));
                continue;
            }
        };
        let mut several = false;
        let stats: Vec<&str> = o.err.lines().collect();
        if debug {
            ctx.check(stats.len() == sentences.len(), "C32:csparsing:debug", || format!("{:?}; {}", o.err, descr()));
        }
        for (i, (w, ds)) in sentences.iter().enumerate() {
            let mode = if pos { DumpMode::FromPos(forms[i].clone()) } else { DumpMode::Default };
            let cost = |d: &Deriv| d.nodes().iter().map(|n| costs[n.1]).sum::<f64>();
            let ex = Expected::new(&g, ds, &cost, &to_root, ids[i], &mode);
            // the blocks of this sentence: all until the number of the next one, or as many as asked for
            let mut mine = vec![];
            let failed = noparse(&cs::toks(w), ids[i], mode.clone());
            while let Some(b) = bs.peek() {
                if block_id(b) != Some(ids[i]) || mine.len() >= k.max(1) {
                    break;
                }
                // a failed parse and a fallback stand alone
                let alone = !ex.blocks.contains_key(b);
                if alone && !mine.is_empty() {
                    break;
                }
                mine.push(bs.next().unwrap());
                if alone {
                    break;
                }
            }
            let detail = || format!("sentence {}: {:?}, {} derivations; output {:?}; {}", i, sentence(w), ds.len(), out, descr());
            if mine.is_empty() {
                ctx.violation("C32:csparsing:missing", detail());
                break;
            }
            several = several || mine.len() > 1;
            if !ex.blocks.contains_key(&mine[0]) {
                // no tree: a failed parse or a fallback
                if mine[0] == failed {
                    ctx.ev("sentences without a tree");
                } else if fallback || debug {
                    let want: Vec<String> = if pos { forms[i].clone() } else { cs::toks(w) };
                    ctx.check(block_words(&mine[0]) == want, "C32:csparsing:fallback", || format!("{:?}; {}", mine[0], detail()));
                    ctx.ev("fallback trees");
                } else {
                    ctx.violation("C32:csparsing:trees", format!("{:?}; {}", mine[0], detail()));
                    break;
                }
                if exact && !ds.is_empty() {
                    ctx.violation("C32:csparsing:number", format!("no tree; {}", detail()));
                }
                if debug {
                    let kind = stats.get(i).map_or("", |l| if l.contains("noparse") { "noparse" } else if l.contains("fallback") { "fallback" } else { "parse" });
                    ctx.check(kind == if mine[0] == failed { "noparse" } else { "fallback" }, "C32:csparsing:debug", || format!("{:?}; {}", o.err, detail()));
                }
            } else {
                ex.judge(ctx, "C32:csparsing", &mine, if exact { Some(if debug { 1 } else { k }) } else { None }, &detail);
                ctx.ev_n("trees compared", mine.len() as u64);
                if debug {
                    // a fallback may look like the tree of a derivation
                    let ok = |l: &&str| l.contains(" parse ") || (!exact && l.contains(" fallback "));
                    ctx.check(stats.get(i).map_or(false, ok), "C32:csparsing:debug", || format!("{:?}; {}", o.err, detail()));
                }
            }
        }
        if let Some(b) = bs.next() {
            ctx.violation("C32:csparsing:more", format!("{:?} too much; {:?}; {}", b, out, descr()));
        }
        if several {
            ctx.nontrivial(&(&text, &stdin, k));
            ctx.ev("calls that print several trees of a sentence");
        }
        ctx.sample(|| format!("{:?} with {:?}", args, stdin));
    }
}

// ------------------------------------------------------------------ mcfg

fn mcfg(ctx: &mut Ctx, r: &mut Rng, cli: &Cli) {
    let negra = r.chance(1, 2);
    let sh = if negra { Shape { ordered: true, ..nf_shape(r) } } else { mcfg_shape(r) };
    let g = if negra { rooted(r, &sh) } else { generate(r, &sh) };
    if !distinct(&g) || !left_acyclic(&g) {
        return;
    }
    let (n_in, n_out) = (r.range(1, 3), r.range(0, 2));
    let sentences: Vec<_> = words_of(r, &g, 5, n_in, n_out)
        .into_iter()
        .filter(|x| !x.0.is_empty() && top_down_size(&g, &x.0, 2000).is_some())
        .collect();
    if sentences.is_empty() {
        return;
    }
    let text = pmcfg_text(r, &g);
    let file = cli.file("grammar", text.as_bytes());
    let mut args: Vec<String> = vec!["mcfg".into(), "parse".into(), file];
    let n = if r.chance(1, 4) { 1 } else { r.range(1, 10) };
    if n != 1 || r.chance(1, 2) {
        args.extend([(*r.pick(&["-n", "--number"])).into(), n.to_string()]);
    }
    let beam = match r.below(4) {
        0 => Some(r.range(1, 4)),
        1 => Some(100_000),
        _ => None,
    };
    if let Some(b) = beam {
        args.extend([(*r.pick(&["-b", "--beam"])).into(), b.to_string()]);
    }
    if negra {
        args.push("--negra".into());
    }
    let exact = beam.map_or(true, |b| b > 1000);
    let lines: Vec<String> = sentences.iter().map(|x| sentence(&x.0)).collect();
    let stdin = corpus(r, &lines);
    let descr = || format!("{:?} with {:?} on\n{}", args, stdin, text);
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let o = cli.run(&a, stdin.as_bytes());
    if !fine(ctx, "C32:mcfg", &o, &descr) {
        return;
    }
    ctx.eval();
    let out = o.text();
    ctx.sample(|| format!("{:?} with {:?}", args, stdin));
    if negra {
        let bs = match blocks(&out) {
            Some(b) => b,
            None => {
                ctx.violation("C32:mcfg:blocks", format!("output {:?}; {}", out, descr()));
                return;
            }
        };
        let mut used = 0;
        for (i, (w, ds)) in sentences.iter().enumerate() {
            let ex = Expected::new(&g, ds, &|d| f64::from(d.exp(&g)) * LN2, &|x| x.clone(), i + 1, &DumpMode::Default);
            let mine: Vec<String> = bs.iter().filter(|b| block_id(b) == Some(i + 1)).cloned().collect();
            used += mine.len();
            let detail = || format!("sentence {}: {:?}; output {:?}; {}", i + 1, sentence(w), out, descr());
            ctx.check(mine.len() <= n, "C32:mcfg:number", || format!("{} trees; {}", mine.len(), detail()));
            ex.judge(ctx, "C32:mcfg", &mine, if exact { Some(n) } else { None }, &detail);
            ctx.ev_n("trees compared", mine.len() as u64);
            if ds.len() > 1 {
                ctx.nontrivial(&(&text, &stdin, n));
            }
        }
        ctx.check(used == bs.len(), "C32:mcfg:more", || format!("{} of {} trees belong to sentences; {:?}; {}", used, bs.len(), out, descr()));
    } else {
        // configurations, in the order of the sentences
        let ws: Option<Vec<f64>> = out.lines().filter_map(|l| l.strip_prefix("weight:")).map(|x| x.parse().ok()).collect();
        let ws = match ws {
            Some(v) => v,
            None => {
                ctx.violation("C32:mcfg:weights", format!("output {:?}; {}", out, descr()));
                return;
            }
        };
        let wants: Vec<Vec<f64>> = sentences
            .iter()
            .map(|(_, ds)| {
                let mut v: Vec<f64> = ds.iter().map(|d| 2f64.powi(-(d.exp(&g) as i32))).collect();
                v.sort_by(|a, b| b.partial_cmp(a).unwrap());
                v.truncate(n);
                v
            })
            .collect();
        if exact {
            let want: Vec<f64> = wants.concat();
            let same = want.len() == ws.len() && want.iter().zip(&ws).all(|(a, b)| (a - b).abs() <= 1e-9 * a);
            ctx.check(same, "C32:mcfg:weights", || format!("weights {:?}, expected {:?}; {}", ws, want, descr()));
        } else {
            ctx.check(ws.len() <= wants.iter().map(|v| v.len()).sum(), "C32:mcfg:number", || format!("weights {:?}, expected {:?}; {}", ws, wants, descr()));
        }
        if sentences.iter().any(|x| x.1.len() > 1) {
            ctx.nontrivial(&(&text, &stdin, n));
        }
        ctx.ev_n("configurations compared", ws.len() as u64);
    }
}

// ------------------------------------------------------------------ cfg

fn cfg(ctx: &mut Ctx, r: &mut Rng, cli: &Cli) {
    let sh = cfg_shape(r);
    let g = generate(r, &sh);
    if !left_acyclic(&g) {
        return;
    }
    let (n_in, n_out) = (r.range(1, 3), r.range(0, 2));
    let sentences: Vec<_> = words_of(r, &g, 5, n_in, n_out).into_iter().filter(|x| !x.0.is_empty() && top_down_size(&g, &x.0, 2000).is_some()).collect();
    if sentences.is_empty() {
        return;
    }
    let text = cfg_text(r, &g);
    let file = cli.file("grammar", text.as_bytes());
    let mut args: Vec<String> = vec!["cfg".into(), "parse".into(), file];
    let n = if r.chance(1, 4) { 1 } else { r.range(1, 10) };
    if n != 1 || r.chance(1, 2) {
        args.extend([(*r.pick(&["-n", "--number"])).into(), n.to_string()]);
    }
    let beam = match r.below(4) {
        0 => Some(r.range(1, 4)),
        1 => Some(100_000),
        _ => None,
    };
    if let Some(b) = beam {
        args.extend([(*r.pick(&["-b", "--beam"])).into(), b.to_string()]);
    }
    let exact = beam.map_or(true, |b| b > 1000);
    let lines: Vec<String> = sentences.iter().map(|x| sentence(&x.0)).collect();
    let stdin = corpus(r, &lines);
    let descr = || format!("{:?} with {:?} on\n{}", args, stdin, text);
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let o = cli.run(&a, stdin.as_bytes());
    if !fine(ctx, "C32:cfg", &o, &descr) {
        return;
    }
    ctx.eval();
    ctx.sample(|| format!("{:?} with {:?}", args, stdin));
    let out = o.text();
    // one group of lines for each sentence, with an empty line behind it
    let groups: Vec<&str> = out.split("\n\n").collect();
    let mut groups: Vec<Vec<&str>> = groups.iter().map(|g| g.lines().filter(|l| !l.is_empty()).collect()).collect();
    // sentences without a parse leave only their empty line, which the split may have merged
    let lines_out: Vec<&str> = out.lines().collect();
    let empties = lines_out.iter().filter(|l| l.is_empty()).count();
    ctx.check(empties == sentences.len(), "C32:cfg:groups", || format!("{} groups; output {:?}; {}", empties, out, descr()));
    groups.clear();
    let mut cur = vec![];
    for l in lines_out {
        if l.is_empty() {
            groups.push(std::mem::take(&mut cur));
        } else {
            cur.push(l);
        }
    }
    for (i, (w, ds)) in sentences.iter().enumerate() {
        let want = cfg_want(&g, ds);
        let mut want: Vec<f64> = want.into_iter().map(|x| x.1).collect();
        want.sort_by(|a, b| b.partial_cmp(a).unwrap());
        want.truncate(n);
        let falls = merged_weights(&g).values().all(|w| *w <= 1.0 + 1e-12);
        let got: Option<Vec<f64>> = groups
            .get(i)
            .map_or(Some(vec![]), |g| g.iter().map(|l| l.split("weight: LogDomain(").nth(1)?.split(')').next()?.parse().ok()).collect());
        let detail = || format!("sentence {}: {:?}; output {:?}; {}", i, sentence(w), out, descr());
        let got = match got {
            Some(v) => v,
            None => {
                ctx.violation("C32:cfg:weights", detail());
                continue;
            }
        };
        if exact && falls {
            let same = want.len() == got.len() && want.iter().zip(&got).all(|(a, b)| (a - b).abs() < 1e-6);
            ctx.check(same, "C32:cfg:weights", || format!("weights {:?}, expected {:?}; {}", got, want, detail()));
        } else {
            ctx.check(got.len() <= want.len() && (!exact || got.len() == want.len()), "C32:cfg:number", || format!("{} parses, expected {}; {}", got.len(), want.len(), detail()));
        }
        ctx.ev_n("configurations compared", got.len() as u64);
        if ds.len() > 1 {
            ctx.nontrivial(&(&text, &stdin, n));
        }
    }
}

// ------------------------------------------------------------------ tsa

fn tsa(ctx: &mut Ctx, r: &mut Rng, cli: &Cli) {
    let m = random_tsa(r);
    let ctf = r.chance(1, 3);
    let mp = tsa_to_pda(&m);
    let mc = mp.merged();
    let mult = |k: &auto::PKey| mp.ts.iter().filter(|t| t.0 == *k).count();
    let words: Vec<Vec<char>> = automaton_words(r, &m.ts, |k| &k.0, 3)
        .into_iter()
        .filter(|w| !w.is_empty() && m.runs(w, 2000).is_some() && (!ctf || mc.runs(w, 2000).map_or(false, |x| cross(&x.0, &mult) <= 2000)))
        .collect();
    if words.is_empty() {
        return;
    }
    let mut text = format!("initial: s{}\n", m.init);
    for ((w, i), x) in &m.ts {
        let w: Vec<String> = w.iter().map(|c| format!("t{}", c)).collect();
        let i = match i {
            TIns::Up(n, a, b, c) => format!("Up {} s{} s{} s{}", n, a, b, c),
            TIns::Push(n, a, c) => format!("Push {} s{} s{}", n, a, c),
            TIns::Down(a, b, c) => format!("Down s{} s{} s{}", a, b, c),
        };
        text.push_str(&format!("Transition [{}] ({})  # {}\n", w.join(", "), i, x.exp()));
    }
    let file = cli.file("automaton", text.as_bytes());
    let mut args: Vec<String> = vec!["tsa".into(), "recognise".into(), file];
    let n = if r.chance(1, 4) { 1 } else { r.range(1, 20) };
    if n != 1 || r.chance(1, 2) {
        args.extend([(*r.pick(&["-n", "--number"])).into(), n.to_string()]);
    }
    let beam = match r.below(4) {
        0 => Some(r.range(1, 4)),
        1 => Some(100_000),
        _ => None,
    };
    if let Some(b) = beam {
        args.extend([(*r.pick(&["-b", "--beam"])).into(), b.to_string()]);
    }
    if ctf {
        args.extend([(*r.pick(&["-c", "--coarse-to-fine"])).into(), "tts".into()]);
        ctx.ev("coarse-to-fine calls");
    }
    let exact = beam.map_or(true, |b| b > 1000);
    let lines: Vec<String> = words.iter().map(|w| w.iter().map(|c| format!("t{}", c)).collect::<Vec<_>>().join(" ")).collect();
    let stdin = corpus(r, &lines);
    let descr = || format!("{:?} with {:?} on\n{}", args, stdin, text);
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let o = cli.run(&a, stdin.as_bytes());
    if !fine(ctx, "C32:tsa", &o, &descr) {
        return;
    }
    ctx.eval();
    ctx.sample(|| format!("{:?} with {:?}", args, stdin));
    let out = o.text();
    let mut lines_out = out.lines().peekable();
    for (i, w) in words.iter().enumerate() {
        let detail = || format!("sentence {}: {:?}; output {:?}; {}", i, lines[i], out, descr());
        let toks: Vec<String> = w.iter().map(|c| format!("t{}", c)).collect();
        if lines_out.next() != Some(&format!("{:?}:", toks)) {
            ctx.violation("C32:tsa:sentence", detail());
            return;
        }
        let mut got = 0;
        while lines_out.peek().map_or(false, |l| l.starts_with("  ")) {
            lines_out.next();
            got += 1;
        }
        if lines_out.next() != Some("") {
            ctx.violation("C32:tsa:sentence", detail());
            return;
        }
        let all = m.runs(w, 2000).unwrap().0.len();
        let ok = if exact { got == all.min(n) } else { got <= all.min(n) };
        ctx.check(ok, if ctf { "C32:tsa:ctf-number" } else { "C32:tsa:number" }, || format!("{} runs of {}; {}", got, all, detail()));
        ctx.ev_n("runs counted", got as u64);
        if all > 1 {
            ctx.nontrivial(&(&text, &stdin, n));
        }
    }
    ctx.check(lines_out.next().is_none(), "C32:tsa:more", || format!("output {:?}; {}", out, descr()));
}

// ------------------------------------------------------------------ approximation

fn approximation(ctx: &mut Ctx, r: &mut Rng, cli: &Cli) {
    let relabel = r.chance(1, 2);
    let sh = if relabel { cfg_shape(r) } else { mcfg_shape(r) };
    let g = generate(r, &sh);
    if !left_acyclic(&g) || (!relabel && !distinct(&g)) {
        return;
    }
    let k = r.range(1, g.fanout.len());
    let cls: Vec<usize> = (0..g.fanout.len()).map(|_| r.below(k)).collect();
    if relabel && !left_acyclic(&coarse_gram(&g, &cls)) {
        return;
    }
    let sentences: Vec<_> = words_of(r, &g, 5, 3, 1)
        .into_iter()
        .filter(|x| {
            !x.0.is_empty()
                && top_down_size(&g, &x.0, 2000).is_some()
                && if relabel { coarse_cost(&g, &cls, &x.0, 2000).is_some() } else { tts_cost(&g, &x.0, 2000).is_some() }
        })
        .collect();
    if sentences.is_empty() {
        return;
    }
    let text = if relabel { cfg_text(r, &g) } else { pmcfg_text(r, &g) };
    let file = cli.file("grammar", text.as_bytes());
    let mut args: Vec<String> = vec!["approximation".into(), (if relabel { "relabel" } else { "tts" }).into(), "parse".into()];
    let mut classes = String::new();
    if relabel {
        let rest = r.below(k);
        for c in 0..k {
            let v: Vec<String> = (0..cls.len()).filter(|i| cls[*i] == c).map(|i| format!("N{}", i)).collect();
            if c != rest && !v.is_empty() {
                classes.push_str(&format!("C{} [{}]\n", c, v.join(", ")));
            }
        }
        classes.push_str(&format!("C{} *\n", rest));
        args.push(cli.file("classes", classes.as_bytes()));
    }
    args.push(file);
    let lines: Vec<String> = sentences.iter().map(|x| sentence(&x.0)).collect();
    let stdin = corpus(r, &lines);
    let descr = || format!("{:?} with {:?} on\n{}{}", args, stdin, classes, text);
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let o = cli.run(&a, stdin.as_bytes());
    if !fine(ctx, "C32:approximation", &o, &descr) {
        return;
    }
    ctx.eval();
    ctx.sample(|| format!("{:?} with {:?}", args, stdin));
    let out = o.text();
    let got: Vec<&str> = out.lines().collect();
    if !ctx.check(got.len() == sentences.len(), "C32:approximation:lines", || format!("output {:?}; {}", out, descr())) {
        return;
    }
    for (i, (w, ds)) in sentences.iter().enumerate() {
        let short: String = got[i].chars().take(300).collect();
        let detail = || format!("sentence {}: {:?}; line {:?}; {}", i, lines[i], short, descr());
        let some = got[i].starts_with("Some(");
        ctx.check((some || got[i].starts_with("None:")) && got[i].ends_with(&format!(": {}", lines[i])), "C32:approximation:line", detail);
        if !ds.is_empty() {
            ctx.check(some, "C32:approximation:complete", detail);
            ctx.ev("sentences the approximation must accept");
            ctx.nontrivial(&(&text, w));
        }
        if relabel {
            // the approximation by classes is the grammar with the classes for nonterminals
            if let Some((n, _)) = coarse_cost(&g, &cls, w, 2000) {
                ctx.check(some == (n > 0), "C32:approximation:exact", detail);
                ctx.ev(if some { "sentences accepted" } else { "sentences rejected" });
            }
        }
    }
}

// ------------------------------------------------------------------ printed automata

fn automata(ctx: &mut Ctx, r: &mut Rng, cli: &Cli) {
    let which = r.below(4);
    let sh = if which % 2 == 0 { cfg_shape(r) } else { mcfg_shape(r) };
    let g = generate(r, &sh);
    let text = if which % 2 == 0 { cfg_text(r, &g) } else { pmcfg_text(r, &g) };
    let file = cli.file("grammar", text.as_bytes());
    let classes = "C [N0, N2]\nR *\n";
    let cf = cli.file("classes", classes.as_bytes());
    let (args, lib): (Vec<&str>, String) = match which {
        0 => (vec!["cfg", "automaton", &file], {
            let c: CFG<String, String, W> = text.parse().unwrap();
            format!("{}", PushDownAutomaton::from(c))
        }),
        1 => (vec!["mcfg", "automaton", &file], {
            let c: PMCFG<String, String, W> = text.parse().unwrap();
            format!("{}", TreeStackAutomaton::from(c))
        }),
        2 => (vec!["approximation", "relabel", "automaton", &cf, &file], {
            let c: CFG<String, String, W> = text.parse().unwrap();
            let e: EquivalenceRelation<String, String> = classes.parse().unwrap();
            let f = |ps: &PushState<_, _>| ps.map(|nt| e.project(nt));
            format!("{}", RlbElement::new(&f).approximate_automaton(&PushDownAutomaton::from(c)).0)
        }),
        _ => (vec!["approximation", "tts", "automaton", &file], {
            let c: PMCFG<String, String, W> = text.parse().unwrap();
            format!("{}", TTSElement::new().approximate_automaton(&TreeStackAutomaton::from(c)).0)
        }),
    };
    let o = cli.run(&args, b"");
    let descr = || format!("{:?} on\n{}", args, text);
    if !fine(ctx, "C32:automaton", &o, &descr) {
        return;
    }
    ctx.eval();
    ctx.ev("printed automata");
    let out = o.text();
    // weights of equal transitions are added up in any order, so their last digits may differ
    let sorted = |s: &str| {
        let mut v: Vec<(String, f64)> = s
            .lines()
            .filter(|l| !l.is_empty())
            .map(|l| match l.rfind("# ") {
                Some(i) => match l[i + 2..].parse() {
                    Ok(w) => (l[..i].to_string(), w),
                    Err(_) => (l.to_string(), 0.0),
                },
                None => (l.to_string(), 0.0),
            })
            .collect();
        v.sort_by(|a, b| a.0.cmp(&b.0).then(a.1.partial_cmp(&b.1).unwrap()));
        v
    };
    let same = |a: &str, b: &str| {
        let (a, b) = (sorted(a), sorted(b));
        a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.0 == y.0 && (x.1 - y.1).abs() <= 1e-9 * x.1.abs().max(y.1.abs()))
    };
    ctx.check(same(&out, &lib), "C32:automaton:text", || format!("printed {}, expected {}; {}", out, lib, descr()));
    if which == 0 {
        // one transition for the start, one for each rule and one for each terminal
        let ts: BTreeSet<Tm> = g.rules.iter().flat_map(|x| x.comps[0].iter().filter_map(|s| if let Sym::T(t) = s { Some(*t) } else { None })).collect();
        let n = 1 + merged_weights(&g).len() + ts.len();
        let got = out.lines().filter(|l| l.starts_with("Transition ")).count();
        ctx.check(got == n, "C32:automaton:transitions", || format!("{} transitions, expected {}; {}; {}", got, n, out, descr()));
    }
}

// ------------------------------------------------------------------ wrong input

fn wrong(ctx: &mut Ctx, r: &mut Rng, cli: &Cli) {
    let good_m = "initial: [S]\nS → [[T a]] ()  # 0.5\n";
    let good_c = "initial: [S]\nS → [T a]  # 0.5\n";
    let good_t = "initial: a\nTransition [x] (Push 0 a b)  # 1\n";
    let junk = *r.pick(&["S → [[T a]]\n", "initial [S]\n", "S → [[T a]] ()  # x\n", "Transition [x] (Push a b)  # 1\n", "S → [T a\n", "\u{1}\n", "S [[T a]] ()\n"]);
    let missing = cli.dir.join("no-such-file").to_string_lossy().into_owned();
    let bad = |good: &str| format!("{}{}", good, junk);
    let (m, c, t) = (cli.file("bad-m", bad(good_m).as_bytes()), cli.file("bad-c", bad(good_c).as_bytes()), cli.file("bad-t", bad(good_t).as_bytes()));
    let okt = cli.file("good-t", good_t.as_bytes());
    let okc = cli.file("good-c", good_c.as_bytes());
    let okm = cli.file("good-m", good_m.as_bytes());
    let badcls = cli.file("bad-classes", "A [S\nB\n".as_bytes());
    let cut = cli.file("cut", &gz(b"rubbish")[..8]);
    let args: Vec<&str> = match r.below(16) {
        0 => vec!["mcfg", "parse", &m],
        1 => vec!["mcfg", "automaton", &m],
        2 => vec!["cfg", "parse", &c],
        3 => vec!["cfg", "automaton", &c],
        4 => vec!["tsa", "recognise", &t],
        5 => vec!["csparsing", "extract", &m],
        6 => vec!["csparsing", "parse", &m],
        7 => vec!["csparsing", "parse", &missing],
        8 => vec!["mcfg", "parse", &missing],
        9 => vec!["approximation", "tts", "parse", &m],
        10 => vec!["approximation", "relabel", "parse", &badcls, &okc],
        11 => vec!["tsa", "recognise", "-c", "nonsense", &okt],
        12 => vec!["csparsing", "extract", "-z", &okm],
        13 => vec!["csparsing", "parse", &cut],
        14 => vec!["mcfg", "parse", "-n", "many", &okm],
        _ => vec!["csparsing", "extract", "--disco", "--unzipped", &okm],
    };
    let o = cli.run(&args, b"a\n");
    ctx.eval();
    ctx.ev("calls with wrong input");
    let descr = || format!("{:?} with {:?}: exit {:?}, output {:?}", args, junk, o.code, o.text().chars().take(200).collect::<String>());
    ctx.check(o.code.map_or(false, |c| c != 0), "C32:wrong-input", descr);
    ctx.check(!o.err.is_empty(), "C32:wrong-input:silent", descr);
}

pub fn c32(ctx: &mut Ctx, r: &mut Rng) {
    let cli = match Cli::new() {
        Some(c) => c,
        None => panic!("RUSTOMATA_CLI is not set"),
    };
    match r.below(13) {
        12 => automata(ctx, r, &cli),
        0..=4 => csparsing(ctx, r, &cli),
        5 | 6 => mcfg(ctx, r, &cli),
        7 | 8 => cfg(ctx, r, &cli),
        9 => tsa(ctx, r, &cli),
        10 => approximation(ctx, r, &cli),
        _ => wrong(ctx, r, &cli),
    }
}

/// every subcommand that the help names does something
pub fn c32_fixed(ctx: &mut Ctx) {
    let cli = match Cli::new() {
        Some(c) => c,
        None => panic!("RUSTOMATA_CLI is not set"),
    };
    let g = cli.file("g", "initial: [S]\nS → [T a, Nt S, T b]  # 0.5\nS → []  # 0.5\n".as_bytes());
    let m = cli.file("m", "initial: [S]\nS → [[T a, Var 0 0, T b]] (S)  # 0.5\nS → [[T a, T b]] ()  # 0.5\n".as_bytes());
    let t = cli.file("t", "initial: a\nTransition [a] (Push 0 a b)  # 1\nTransition [b] (Down b a a)  # 1\n".as_bytes());
    let c = cli.file("c", "S [S]\nR *\n".as_bytes());
    let n = cli.file("n", "initial: [S]\nS → [[Var 0 0, Var 1 0]] (A, B)  # 0.5\nA → [[T a]] ()  # 0.5\nB → [[T b]] ()  # 0.5\n".as_bytes());
    let e = cli.run(&["csparsing", "extract", &n], b"");
    let cs = cli.file("cs", &e.out);
    let calls: Vec<(&str, Vec<&str>)> = vec![
        ("mcfg-parse", vec!["mcfg", "parse", &m]),
        ("mcfg-automaton", vec!["mcfg", "automaton", &m]),
        ("cfg-parse", vec!["cfg", "parse", &g]),
        ("cfg-automaton", vec!["cfg", "automaton", &g]),
        ("tsa", vec!["tsa", "recognise", &t]),
        ("relabel-parse", vec!["approximation", "relabel", "parse", &c, &g]),
        ("relabel-automaton", vec!["approximation", "relabel", "automaton", &c, &g]),
        ("tts-parse", vec!["approximation", "tts", "parse", &m]),
        ("tts-automaton", vec!["approximation", "tts", "automaton", &m]),
        ("topk", vec!["approximation", "topk", "parse", &g, "2"]),
        ("topk", vec!["approximation", "topk", "automaton", &g, "2"]),
        ("csparsing-extract", vec!["csparsing", "extract", &n]),
        ("csparsing-parse", vec!["csparsing", "parse", &cs]),
    ];
    for (name, args) in calls {
        let o = cli.run(&args, b"a b\n");
        ctx.eval();
        ctx.ev("subcommands called");
        let d = || format!("{:?}: exit {:?}, no output", args, o.code);
        ctx.check(o.code == Some(0), &format!("C32:{}:exit", name), d);
        ctx.check(o.out.iter().any(|b| !b.is_ascii_whitespace()), &format!("C32:{}", name), d);
    }
}
