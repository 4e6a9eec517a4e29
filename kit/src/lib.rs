//! Shared machinery of the monitors: a deterministic random source, the verdict context, and the
//! driver loop.  Nothing in here depends on the code under test.
pub mod gram;

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

// ------------------------------------------------------------------ random source

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.next() % n as u64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// FNV-1a, so that hashes do not depend on the toolchain.
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= u64::from(*b);
            self.0 = self.0.wrapping_mul(0x0100_0000_01b3);
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------------ panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
    static IN_CALL: Cell<bool> = Cell::new(false);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string payload>".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        // the library's own checks for undefined behaviour end the process: leave their word behind
        if msg.starts_with("unsafe precondition") || info.to_string().contains("unsafe precondition") {
            eprintln!("{} at {}", info, loc);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

fn take_panic() -> (String, String) {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| ("?".into(), "?".into()))
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{}…[{} chars]", t, s.chars().count())
    }
}

/// Runs a piece of code under test; a panic becomes `Err(message @ location)`.
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    let before = IN_CALL.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CALL.with(|c| c.set(before));
    r.map_err(|_| {
        let (m, l) = take_panic();
        format!("panicked: {} (at {})", clip(&m, 300), l)
    })
}

// ------------------------------------------------------------------ verdicts

#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub detail: String,
    pub case: u64,
}

pub struct Ctx {
    pub tier_thorough: bool,
    pub case: u64,
    pub verbose: bool,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub events: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub harness_errors: Vec<String>,
    per_sig: BTreeMap<String, u64>,
}

impl Ctx {
    pub fn new(thorough: bool, verbose: bool) -> Self {
        Ctx {
            tier_thorough: thorough,
            case: 0,
            verbose,
            evaluations: 0,
            distinct: HashSet::new(),
            events: BTreeMap::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            harness_errors: Vec::new(),
            per_sig: BTreeMap::new(),
        }
    }
    /// counts `n` observations of the named event
    pub fn ev_n(&mut self, name: &str, n: u64) {
        if let Some(c) = self.events.get_mut(name) {
            *c += n;
        } else {
            self.events.insert(name.to_string(), n);
        }
    }
    pub fn ev(&mut self, name: &str) {
        self.ev_n(name, 1)
    }
    /// one execution judged by the oracle
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }
    /// one judged execution that was non-trivial; `key` tells the distinct ones apart
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, key: &T) {
        if self.distinct.len() < 400_000 {
            self.distinct.insert(hash_of(key));
        }
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.samples.len() < 4 {
            let s = f();
            self.samples.push(clip(&s, 600));
        }
    }
    pub fn violation(&mut self, sig: &str, detail: String) {
        let n = self.per_sig.entry(sig.to_string()).or_insert(0);
        *n += 1;
        if *n <= 3 {
            let d = clip(&detail, 4000);
            if self.verbose {
                eprintln!("violated [{}]: {}", sig, d);
            }
            self.violations.push(Violation {
                sig: sig.to_string(),
                detail: d,
                case: self.case,
            });
        }
    }
    pub fn check<F: FnOnce() -> String>(&mut self, ok: bool, sig: &str, detail: F) -> bool {
        if !ok {
            self.violation(sig, detail());
        }
        ok
    }
    /// Calls the code under test; a panic is a violation with signature `panic:<what>`.
    pub fn call<T, F: FnOnce() -> T, D: FnOnce() -> String>(
        &mut self,
        what: &str,
        f: F,
        detail: D,
    ) -> Option<T> {
        match guarded(f) {
            Ok(t) => Some(t),
            Err(m) => {
                self.violation(&format!("panic:{}", what), format!("{}; input: {}", m, detail()));
                None
            }
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// least number of evaluations (over all shards) without which the run is inconclusive
    pub min_evaluations: u64,
    pub run: fn(&mut Ctx, &mut Rng),
    /// deterministic demonstrations of listed findings and boundary inputs, run once (shard 0)
    pub fixed: Option<fn(&mut Ctx)>,
}

// ------------------------------------------------------------------ output

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report(prop: &Prop, ctx: &Ctx, done: u64, finished: bool, path: &str) {
    let mut s = String::new();
    s.push_str(&format!(
        "{{\"property\":{},\"rule\":{},\"cases\":{},\"finished\":{},\"evaluations\":{},\"min_evaluations\":{},\n",
        json_str(prop.id),
        json_str(prop.rule),
        done,
        finished,
        ctx.evaluations,
        prop.min_evaluations
    ));
    s.push_str("\"events\":{");
    s.push_str(
        &ctx.events
            .iter()
            .map(|(k, v)| format!("{}:{}", json_str(k), v))
            .collect::<Vec<_>>()
            .join(","),
    );
    s.push_str("},\n\"samples\":[");
    s.push_str(&ctx.samples.iter().map(|v| json_str(v)).collect::<Vec<_>>().join(","));
    s.push_str("],\n\"harness_errors\":[");
    s.push_str(&ctx.harness_errors.iter().map(|v| json_str(v)).collect::<Vec<_>>().join(","));
    s.push_str("],\n\"violations\":[");
    s.push_str(
        &ctx.violations
            .iter()
            .map(|v| {
                format!(
                    "{{\"sig\":{},\"detail\":{},\"case\":{}}}",
                    json_str(&v.sig),
                    json_str(&v.detail),
                    v.case
                )
            })
            .collect::<Vec<_>>()
            .join(",\n"),
    );
    s.push_str("],\n\"distinct\":[");
    let mut d: Vec<u64> = ctx.distinct.iter().cloned().collect();
    d.sort();
    s.push_str(&d.iter().map(|v| format!("\"{:x}\"", v)).collect::<Vec<_>>().join(","));
    s.push_str("]}\n");
    let mut f = std::fs::File::create(path).expect("cannot write the report");
    f.write_all(s.as_bytes()).expect("cannot write the report");
}

/// case number of the deterministic demonstrations
pub const FIXED_CASE: u64 = u64::MAX;

fn run_case(prop: &Prop, ctx: &mut Ctx, seed: u64, case: u64) {
    ctx.case = case;
    let r = catch_unwind(AssertUnwindSafe(|| {
        if case == FIXED_CASE {
            if let Some(f) = prop.fixed {
                f(ctx);
            }
        } else {
            let mut rng = Rng::new(hash_of(&(seed, prop.id, case)));
            (prop.run)(ctx, &mut rng);
        }
    }));
    IN_CALL.with(|c| c.set(false));
    if r.is_err() {
        let (m, l) = take_panic();
        // A panic outside `guarded`: if it was raised in the harness, the harness is at fault.
        let in_harness = l.contains("/verif/") && !l.contains("/verif/build/") || l.starts_with("src/");
        let text = format!("case {}: panicked: {} (at {})", case as i64, clip(&m, 300), l);
        if in_harness {
            ctx.harness_errors.push(text);
        } else {
            let file = l.rsplit('/').next().unwrap_or("?").split(':').next().unwrap_or("?").to_string();
            ctx.violation(&format!("panic:{}", file), text);
        }
    }
}

/// `harness PROP --seed S --tier quick --shard K --of N --cases M --deadline SECS --out F --progress F`
/// or `harness PROP --seed S --case C`
pub fn main(props: &[Prop]) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() || args[0] == "list" {
        for p in props {
            println!("{} {} {}", p.id, p.quick, p.thorough);
        }
        return;
    }
    let get = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
    };
    let num = |k: &str, d: u64| -> u64 {
        get(k).map_or(d, |s| s.parse().expect("number expected"))
    };
    let prop = props
        .iter()
        .find(|p| p.id == args[0])
        .unwrap_or_else(|| panic!("no such property: {}", args[0]));
    let seed = num("--seed", 1);
    let thorough = get("--tier").map_or(false, |t| t == "thorough");
    install_panic_hook();

    // a generous stack: recursion depth is bounded by the size of the generated cases
    let stack = 256 << 20;
    if let Some(c) = get("--case") {
        let case: u64 = if c == "fixed" { FIXED_CASE } else { c.parse().unwrap() };
        let mut ctx = Ctx::new(thorough, get("--quiet").is_none());
        let out = get("--out");
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn_scoped(s, || {
                    run_case(prop, &mut ctx, seed, case);
                    if let Some(o) = out {
                        report(prop, &ctx, 1, true, &o);
                    }
                    for s in &ctx.samples {
                        println!("sample: {}", s);
                    }
                    for v in &ctx.violations {
                        println!("violated [{}]: {}", v.sig, v.detail);
                    }
                    for e in &ctx.harness_errors {
                        println!("harness error: {}", e);
                    }
                    println!("events: {:?}", ctx.events);
                })
                .unwrap()
                .join()
                .unwrap();
        });
        return;
    }

    let (k, n) = (num("--shard", 0), num("--of", 1));
    let cases = num("--cases", if thorough { prop.thorough } else { prop.quick });
    let deadline = num("--deadline", 600);
    let out = get("--out").unwrap_or_else(|| "/dev/stdout".into());
    let progress = get("--progress").map(|p| std::fs::File::create(p).unwrap());
    let start = Instant::now();
    let mut ctx = Ctx::new(thorough, false);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn_scoped(s, || {
                let mark = |c: u64| {
                    if let Some(f) = &progress {
                        let _ = f.write_at(format!("{:<24}", if c == FIXED_CASE { "fixed".to_string() } else { c.to_string() }).as_bytes(), 0);
                    }
                };
                let mut done = 0;
                let mut finished = true;
                if k == 0 && prop.fixed.is_some() && !args.iter().any(|a| a == "--no-fixed") {
                    mark(FIXED_CASE);
                    run_case(prop, &mut ctx, seed, FIXED_CASE);
                }
                let mut c = k;
                while c < cases {
                    if start.elapsed().as_secs() >= deadline {
                        finished = false;
                        break;
                    }
                    mark(c);
                    run_case(prop, &mut ctx, seed, c);
                    done += 1;
                    // enough distinct violations: no point in going on for long
                    if ctx.violations.len() > 60 {
                        break;
                    }
                    c += n;
                }
                report(prop, &ctx, done, finished, &out);
            })
            .unwrap()
            .join()
            .unwrap();
    });
}
