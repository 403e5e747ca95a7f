mod agent;
mod cover;
mod fips;
mod gadget;
mod gen;
mod op;
#[path = "../../agent/src/proto.rs"]
mod proto;
mod shrink;
mod trace;

use agent::{Agent, Backend, Fail, Reply};
use gadget::{Check, Gadget};
use gen::rand::Rng;
use op::{hex, Op};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use proto::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use shrink::{Program, ProgramTree, Programs};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Deserialize, Clone)]
struct Job {
    property: String,
    seed: u64,
    /// check, cover, coverdiff, diff, history or trace
    mode: String,
    backends: Vec<Backend>,
    /// programs (check, diff) or sessions (history)
    programs: usize,
    /// gadgets per program
    min: usize,
    max: usize,
    dict: Vec<String>,
    /// where results go
    out: String,
    #[serde(default)]
    repeat: usize,
    #[serde(default)]
    repeats: usize,
    #[serde(default)]
    concurrent: usize,
    #[serde(default)]
    concurrents: usize,
    #[serde(default = "threads")]
    threads: usize,
    #[serde(default)]
    shrink_seconds: Option<u64>,
    /// programs per process
    #[serde(default = "chunk")]
    chunk: usize,
    /// generator, if not the property's own
    #[serde(default)]
    generator: Option<String>,
    /// trace: other sets of secrets per program
    #[serde(default)]
    variants: usize,
    /// trace: only ciphers (C21)
    #[serde(default)]
    crypt_only: bool,
    /// trace: only addresses that depend on secrets count (C21)
    #[serde(default)]
    lookups: bool,
    /// trace: instrumented configurations, executions of each, programs kept of them
    #[serde(default)]
    cover: Vec<Backend>,
    #[serde(default)]
    cover_programs: usize,
    #[serde(default)]
    cover_keep: usize,
    /// directory for temporary files
    #[serde(default)]
    scratch: String,
}
fn chunk() -> usize {
    160
}
fn threads() -> usize {
    8
}

/// What a replay file holds.
#[derive(Serialize, Deserialize, Clone)]
struct Replay {
    property: String,
    mode: String,
    backend: String,
    other: Option<String>,
    detail: String,
    gadgets: Program,
    also_failing: Vec<String>,
    seed: u64,
    #[serde(default)]
    reproduced: bool,
    /// trace mode: the same program with other secrets
    #[serde(default)]
    gadgets_b: Option<Program>,
}

enum Verdict {
    Good,
    /// the program is not meaningful (a command without its cipher): never a verdict on the library
    Invalid(String),
    Bad(String),
}

fn st(s: u8) -> &'static str {
    match s {
        ST_OK => "ok",
        ST_PANIC => "panic",
        _ => "malformed",
    }
}

fn op_text(o: &Op) -> String {
    let s = format!("{o:?}");
    if s.len() > 300 {
        format!("{}...", &s[..300])
    } else {
        s
    }
}

/// A command without its cipher, which no panic explains?
fn malformed<'a>(r: impl Iterator<Item = &'a Reply>) -> bool {
    r.take_while(|r| r.st != ST_PANIC).any(|r| r.st == ST_BAD)
}

fn judge(ops: &[Op], checks: &[Check], r: &[Reply]) -> Verdict {
    let makes = |o: &Op| matches!(o, Op::Key { .. } | Op::Switch { .. } | Op::CloneKey { .. });
    if let Some(i) = (0..r.len()).find(|i| r[*i].st == ST_PANIC && makes(&ops[*i])) {
        return Verdict::Bad(format!("panic of {}", op_text(&ops[i])));
    }
    if let Some(i) = r.iter().position(|x| x.st == ST_BAD) {
        return Verdict::Invalid(format!("{:?}", ops[i]));
    }
    let short = op_text;
    for c in checks {
        let e = match c {
            Check::Threads(i, each) => {
                if r[*i].st != ST_OK {
                    format!("threads: answer {}", st(r[*i].st))
                } else {
                    match judge_threads(&r[*i].data, each) {
                        Some(e) => e,
                        None => continue,
                    }
                }
            }
            Check::Is(i, want, what) => {
                if r[*i].st == ST_OK && r[*i].data == *want {
                    continue;
                }
                format!("{what}: {} answered {} {} instead of {}", short(&ops[*i]), st(r[*i].st), hex(&r[*i].data), hex(want))
            }
            Check::Ok(i) => {
                if r[*i].st == ST_OK {
                    continue;
                }
                format!("unexpected {} of {}", st(r[*i].st), short(&ops[*i]))
            }
            Check::Ends(i, want, what) => {
                if r[*i].st == ST_OK && r[*i].data.ends_with(want) {
                    continue;
                }
                format!("{what}: {} answered {} {} instead of ...{}", short(&ops[*i]), st(r[*i].st), hex(&r[*i].data), hex(want))
            }
            Check::Starts(i, want, what) => {
                if r[*i].st == ST_OK && r[*i].data.starts_with(want) {
                    continue;
                }
                format!("{what}: {} answered {} {} instead of {}...", short(&ops[*i]), st(r[*i].st), hex(&r[*i].data), hex(want))
            }
            Check::Panics(i, what) => {
                if r[*i].st == ST_PANIC {
                    continue;
                }
                format!("{what}: no panic of {}, answer {}", short(&ops[*i]), hex(&r[*i].data))
            }
            Check::IsOr(i, want, other, what) => {
                if r[*i].st == ST_OK && (r[*i].data == *want || r[*i].data == *other) {
                    continue;
                }
                format!("{what}: {} answered {} {} instead of {}", short(&ops[*i]), st(r[*i].st), hex(&r[*i].data), hex(want))
            }
            Check::Eq(i, a, j, b, n, what) => {
                let (x, y) = (&r[*i], &r[*j]);
                if x.st == y.st && (x.st != ST_OK || (x.data.len() >= a + n && y.data.len() >= b + n && x.data[*a..a + n] == y.data[*b..b + n])) {
                    continue;
                }
                format!("{what}: {} {} (from byte {a}) vs {} {} (from byte {b}); {} vs {}", st(x.st), hex(&x.data), st(y.st), hex(&y.data), short(&ops[*i]), short(&ops[*j]))
            }
            Check::Same(i, j, what) => {
                let (x, y) = (&r[*i], &r[*j]);
                if x == y {
                    continue;
                }
                format!("{what}: {} {} vs {} {}; {} vs {}", st(x.st), hex(&x.data), st(y.st), hex(&y.data), short(&ops[*i]), short(&ops[*j]))
            }
        };
        return Verdict::Bad(e);
    }
    Verdict::Good
}

/// What is wrong with the answers of threads?
fn judge_threads(mut data: &[u8], each: &[Vec<(Vec<Op>, Vec<Check>)>]) -> Option<String> {
    let word = |d: &mut &[u8]| {
        let n = u16::from_le_bytes([d[0], d[1]]) as usize;
        *d = &d[2..];
        n
    };
    for (k, gs) in each.iter().enumerate() {
        let n = word(&mut data);
        let (mut mine, rest) = data.split_at(n);
        data = rest;
        for (ops, checks) in gs {
            let mut rs = vec![];
            for _ in ops {
                let n = word(&mut mine);
                rs.push(Reply { st: mine[0], data: mine[1..1 + n].to_vec() });
                mine = &mine[1 + n..];
            }
            if let Verdict::Bad(e) = judge(ops, checks, &rs) {
                return Some(format!("in thread {k} of {} that started at once: {e}", each.len()));
            }
        }
    }
    None
}

/// Runs programs in one process, each after a reset. Returns the answers per program and gadget.
fn run_many(a: &mut Agent, ps: &[&Program]) -> Result<Vec<Vec<Vec<Reply>>>, Fail> {
    let mut ops = vec![];
    let mut shape = vec![];
    for p in ps {
        ops.push(Op::Reset);
        let mut s = vec![];
        for g in p.iter() {
            let (o, _) = g.expand();
            s.push(o.len());
            ops.extend(o);
        }
        shape.push(s);
    }
    let mut it = a.exec(ops.iter())?.into_iter();
    Ok(shape
        .into_iter()
        .map(|s| {
            it.next();
            s.into_iter().map(|n| it.by_ref().take(n).collect()).collect()
        })
        .collect())
}

fn judge_program(p: &Program, r: &[Vec<Reply>]) -> Verdict {
    for (g, r) in p.iter().zip(r) {
        let (ops, checks) = g.expand();
        match judge(&ops, &checks, r) {
            Verdict::Good => {}
            v => return v,
        }
    }
    Verdict::Good
}

fn hash_of(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

#[derive(Clone)]
struct Failure {
    backend: usize,
    other: Option<usize>,
    /// programs (or gadgets) executed before in the same process
    before: Vec<Program>,
    program: Program,
    detail: String,
}

enum Outcome {
    Pass,
    Violation(Replay),
    Error(String),
}

struct Ctx<'a> {
    job: &'a Job,
    stop: AtomicBool,
    failure: Mutex<Option<Failure>>,
    error: Mutex<Option<String>>,
    evals: AtomicUsize,
    per_backend: Mutex<BTreeMap<String, usize>>,
    unsupported: Mutex<BTreeMap<String, String>>,
}

/// What a search without conditions may end with: nothing, or trouble.
fn conclude_none(ctx: &Ctx) -> Option<Outcome> {
    if let Some(f) = ctx.failure.lock().unwrap().take() {
        return Some(Outcome::Error(f.detail));
    }
    ctx.error.lock().unwrap().take().map(Outcome::Error)
}

impl<'a> Ctx<'a> {
    fn new(job: &'a Job) -> Self {
        Ctx { job, stop: AtomicBool::new(false), failure: Mutex::new(None), error: Mutex::new(None), evals: AtomicUsize::new(0), per_backend: Mutex::new(BTreeMap::new()), unsupported: Mutex::new(BTreeMap::new()) }
    }
    fn fail(&self, f: Failure) {
        let mut s = self.failure.lock().unwrap();
        if s.is_none() {
            *s = Some(f);
        }
        self.stop.store(true, Ordering::SeqCst);
    }
    fn err(&self, e: String) {
        let mut s = self.error.lock().unwrap();
        if s.is_none() {
            *s = Some(e);
        }
        self.stop.store(true, Ordering::SeqCst);
    }
    fn count(&self, b: &Backend, n: usize) {
        self.evals.fetch_add(n, Ordering::Relaxed);
        *self.per_backend.lock().unwrap().entry(b.name.clone()).or_default() += n;
    }
}

/// Runs one program in a fresh process: Some(detail) if it fails.
fn fails_alone(b: &Backend, before: &[Program], p: &Program) -> Result<Option<String>, String> {
    // what depends on the schedule is tried several times
    let t0 = Instant::now();
    let tries = if p.iter().any(|g| matches!(g, Gadget::Race { .. } | Gadget::Concurrent { .. })) { 400 } else { 1 };
    for _ in 0..tries {
        let r = fails_once(b, before, p);
        if !matches!(r, Ok(None)) || t0.elapsed() > Duration::from_secs(3) {
            return r;
        }
    }
    Ok(None)
}

fn fails_once(b: &Backend, before: &[Program], p: &Program) -> Result<Option<String>, String> {
    let mut a = match Agent::start(b) {
        Ok(a) => a,
        Err(Fail::Error(e) | Fail::Crash(e)) => return Err(e),
    };
    let mut ps: Vec<&Program> = before.iter().collect();
    ps.push(p);
    match run_many(&mut a, &ps) {
        Ok(r) => match judge_program(p, r.last().unwrap()) {
            Verdict::Bad(e) => Ok(Some(e)),
            _ => Ok(None),
        },
        Err(Fail::Crash(e)) => Ok(Some(format!("crash: {e}"))),
        Err(Fail::Error(e)) => Err(e),
    }
}

/// proptest-style shrinking loop over a ValueTree.
fn shrink(tree: &mut ProgramTree, limit: Duration, mut bad: impl FnMut(&Program) -> Option<String>) -> (Program, Option<String>) {
    let t0 = Instant::now();
    let mut best = tree.current();
    let mut detail = None;
    let mut more = tree.simplify();
    let mut steps = 0;
    while more && t0.elapsed() < limit && steps < 3000 {
        steps += 1;
        let c = tree.current();
        match bad(&c) {
            Some(d) => {
                best = c;
                detail = Some(d);
                more = tree.simplify();
            }
            None => more = tree.complicate(),
        }
    }
    (best, detail)
}

fn flatten(ps: &[Program]) -> Program {
    ps.iter().flatten().cloned().collect()
}

fn finish_check(job: &Job, f: Failure) -> Outcome {
    let b = &job.backends[f.backend];
    let limit = Duration::from_secs(job.shrink_seconds.unwrap_or(60));
    let mk = |gadgets: Program, detail: String, also: Vec<String>, reproduced: bool| {
        Outcome::Violation(Replay { property: job.property.clone(), mode: "check".into(), backend: b.name.clone(), other: None, detail, gadgets, also_failing: also, seed: job.seed, reproduced, gadgets_b: None })
    };
    match fails_alone(b, &[], &f.program) {
        Err(e) => Outcome::Error(e),
        Ok(Some(d)) => {
            let mut t = ProgramTree::new(f.program.clone());
            let (p, d2) = shrink(&mut t, limit, |c| fails_alone(b, &[], c).ok().flatten());
            let also = job.backends.iter().filter(|o| o.name != b.name && matches!(fails_alone(o, &[], &p), Ok(Some(_)))).map(|o| o.name.clone()).collect();
            mk(p, d2.unwrap_or(d), also, true)
        }
        Ok(None) => {
            // only after a history: one long program whose last gadgets are the failing program
            let mut all = f.before.clone();
            all.push(f.program.clone());
            let flat = flatten(&all);
            let again = (0..3).find_map(|_| match fails_alone(b, &f.before, &f.program) {
                Ok(Some(d)) => Some(d),
                _ => None,
            });
            match again {
                None => mk(flat, format!("{} (seen once; did not recur when the same history was run again)", f.detail), vec![], false),
                Some(d) => {
                    // without the resets the gadgets still are self-contained
                    if fails_alone(b, &[], &flat).ok().flatten().is_none() {
                        return mk(flat, d, vec![], true);
                    }
                    let mut t = ProgramTree::new(flat);
                    let (p, d2) = shrink(&mut t, limit, |c| fails_alone(b, &[], c).ok().flatten());
                    mk(p, d2.unwrap_or(d), vec![], true)
                }
            }
        }
    }
}

fn rng_for(seed: u64, tag: &str) -> TestRng {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    for (i, c) in tag.bytes().enumerate() {
        s[8 + i % 24] ^= c.rotate_left((i / 24) as u32);
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &s)
}

fn runner(seed: u64, tag: &str) -> TestRunner {
    let cfg = Config { failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(cfg, rng_for(seed, tag))
}

fn generate(job: &Job, prop: &str, n: usize, min: usize, max: usize) -> Vec<Program> {
    let dict: Vec<Vec<u8>> = job.dict.iter().map(|s| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
    let s = Programs { prop: prop.into(), dict, min, max };
    let mut r = runner(job.seed, &format!("{}/{}", job.property, prop));
    (0..n).map(|_| s.new_tree(&mut r).unwrap().current()).collect()
}

fn pick(i: usize, b: &Backend) -> bool {
    // a fixed, spread-out choice of programs per weight
    (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 58 < b.weight as u64
}

/// Splits the work into tasks and runs them on a pool; tasks are (backend, indices).
fn pool<T: Sync + Send>(tasks: Vec<T>, threads: usize, f: impl Fn(&T) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                match tasks.get(i) {
                    Some(t) => f(t),
                    None => return,
                }
            });
        }
    });
}

/// Finds the program of a chunk that makes the process die.
fn locate_crash(b: &Backend, ps: &[&Program]) -> Result<Option<(usize, String)>, String> {
    // growing prefixes, one process each, by bisection on "prefix up to i crashes"
    let crashes = |n: usize| -> Result<Option<String>, String> {
        let mut a = match Agent::start(b) {
            Ok(a) => a,
            Err(Fail::Error(e) | Fail::Crash(e)) => return Err(e),
        };
        match run_many(&mut a, &ps[..n]) {
            Ok(_) => Ok(None),
            Err(Fail::Crash(e)) => Ok(Some(e)),
            Err(Fail::Error(e)) => Err(e),
        }
    };
    let Some(mut how) = crashes(ps.len())? else { return Ok(None) };
    let (mut lo, mut hi) = (0, ps.len()); // prefix lo is fine, prefix hi crashes
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        match crashes(mid)? {
            Some(h) => {
                hi = mid;
                how = h;
            }
            None => lo = mid,
        }
    }
    Ok(Some((hi - 1, how)))
}

fn run_check(job: &Job, programs: &[Program], ctx: &Ctx) {
    let mut tasks = vec![];
    for (bi, b) in job.backends.iter().enumerate() {
        let idx: Vec<usize> = (0..programs.len()).filter(|i| pick(*i, b)).collect();
        for c in idx.chunks(job.chunk) {
            tasks.push((bi, c.to_vec()));
        }
    }
    // slow backends first would be ideal; a fixed interleaving spreads them well enough
    tasks.sort_by_key(|t| t.1[0]);
    pool(tasks, job.threads, |(bi, idx)| {
        if ctx.stop.load(Ordering::SeqCst) {
            return;
        }
        let b = &job.backends[*bi];
        if ctx.unsupported.lock().unwrap().contains_key(&b.name) {
            return;
        }
        let ps: Vec<&Program> = idx.iter().map(|i| &programs[*i]).collect();
        let mut a = match Agent::start(b) {
            Ok(a) => a,
            Err(Fail::Error(e) | Fail::Crash(e)) => return ctx.err(format!("{}: {e}", b.name)),
        };
        match run_many(&mut a, &ps) {
            Err(Fail::Error(e)) if e.starts_with(agent::UNSUPPORTED) => {
                ctx.unsupported.lock().unwrap().insert(b.name.clone(), e.chars().take(400).collect());
            }
            Err(Fail::Error(e)) => ctx.err(format!("{}: {e}", b.name)),
            Err(Fail::Crash(how)) => match locate_crash(b, &ps) {
                Err(e) => ctx.err(format!("{}: {e}", b.name)),
                Ok(Some((k, how))) => ctx.fail(Failure {
                    backend: *bi,
                    other: None,
                    before: ps[..k].iter().map(|p| (*p).clone()).collect(),
                    program: ps[k].clone(),
                    detail: format!("crash: {how}"),
                }),
                Ok(None) => ctx.fail(Failure { backend: *bi, other: None, before: ps[..ps.len() - 1].iter().map(|p| (*p).clone()).collect(), program: ps[ps.len() - 1].clone(), detail: format!("crash: {how}") }),
            },
            Ok(rs) => {
                for (k, (p, r)) in ps.iter().zip(&rs).enumerate() {
                    match judge_program(p, r) {
                        Verdict::Good => ctx.count(b, p.len()),
                        Verdict::Invalid(e) => return ctx.err(format!("{}: generated command was malformed: {e}", b.name)),
                        Verdict::Bad(d) => {
                            ctx.count(b, p.len());
                            return ctx.fail(Failure { backend: *bi, other: None, before: ps[..k].iter().map(|p| (*p).clone()).collect(), program: (*p).clone(), detail: d });
                        }
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------ differential

fn answers_of(b: &Backend, p: &Program) -> Result<Vec<Reply>, Fail> {
    let mut a = Agent::start(b)?;
    Ok(run_many(&mut a, &[p])?.remove(0).into_iter().flatten().collect())
}

fn comparable(r: &[Reply]) -> Vec<Reply> {
    r.to_vec()
}

fn differ(a: &Backend, b: &Backend, p: &Program) -> Result<Option<String>, String> {
    let ops: Vec<Op> = p.iter().flat_map(|g| g.expand().0).collect();
    match (answers_of(a, p), answers_of(b, p)) {
        (Err(Fail::Error(e)), _) | (_, Err(Fail::Error(e))) => Err(e),
        (Err(Fail::Crash(x)), Err(Fail::Crash(_))) => Ok(Some(format!("both crash: {x}"))),
        (Err(Fail::Crash(x)), Ok(_)) => Ok(Some(format!("{} crashes ({x}), {} does not", a.name, b.name))),
        (Ok(_), Err(Fail::Crash(x))) => Ok(Some(format!("{} crashes ({x}), {} does not", b.name, a.name))),
        (Ok(x), Ok(y)) => {
            if malformed(x.iter()) || malformed(y.iter()) {
                return Ok(None);
            }
            let (x, y) = (comparable(&x), comparable(&y));
            Ok(x.iter().zip(&y).position(|(p, q)| p != q).map(|i| {
                format!("{:?}: {} answers {} {}, {} answers {} {}", ops[i], a.name, st(x[i].st), hex(&x[i].data), b.name, st(y[i].st), hex(&y[i].data))
            }))
        }
    }
}

fn run_diff(job: &Job, programs: &[Program], ctx: &Ctx) {
    // hashes of the answers, per backend
    let seen: Vec<Mutex<BTreeMap<usize, u64>>> = job.backends.iter().map(|_| Mutex::new(BTreeMap::new())).collect();
    let mut tasks = vec![];
    for (bi, b) in job.backends.iter().enumerate() {
        let idx: Vec<usize> = (0..programs.len()).filter(|i| bi == 0 || pick(*i, b)).collect();
        for c in idx.chunks(job.chunk) {
            tasks.push((bi, c.to_vec()));
        }
    }
    tasks.sort_by_key(|t| t.1[0]);
    pool(tasks, job.threads, |(bi, idx)| {
        if ctx.stop.load(Ordering::SeqCst) {
            return;
        }
        let b = &job.backends[*bi];
        if ctx.unsupported.lock().unwrap().contains_key(&b.name) {
            return;
        }
        let ps: Vec<&Program> = idx.iter().map(|i| &programs[*i]).collect();
        let mut a = match Agent::start(b) {
            Ok(a) => a,
            Err(Fail::Error(e) | Fail::Crash(e)) => return ctx.err(format!("{}: {e}", b.name)),
        };
        match run_many(&mut a, &ps) {
            Err(Fail::Error(e)) if e.starts_with(agent::UNSUPPORTED) => {
                ctx.unsupported.lock().unwrap().insert(b.name.clone(), e.chars().take(400).collect());
            }
            Err(Fail::Error(e)) => ctx.err(format!("{}: {e}", b.name)),
            Err(Fail::Crash(how)) => match locate_crash(b, &ps) {
                Err(e) => ctx.err(format!("{}: {e}", b.name)),
                Ok(k) => {
                    let k = k.map_or(ps.len() - 1, |x| x.0);
                    let other = if *bi == 0 { 1.min(job.backends.len() - 1) } else { 0 };
                    ctx.fail(Failure { backend: *bi, other: Some(other), before: ps[..k].iter().map(|p| (*p).clone()).collect(), program: ps[k].clone(), detail: format!("crash of {}: {how}", b.name) })
                }
            },
            Ok(rs) => {
                let mut m = seen[*bi].lock().unwrap();
                for (i, r) in idx.iter().zip(rs) {
                    let flat: Vec<Reply> = r.into_iter().flatten().collect();
                    if malformed(flat.iter()) {
                        return ctx.err(format!("{}: a generated command was malformed", b.name));
                    }
                    ctx.count(b, programs[*i].len());
                    m.insert(*i, hash_of(&comparable(&flat).iter().map(|r| (r.st, r.data.clone())).collect::<Vec<_>>()));
                }
            }
        }
    });
    if ctx.stop.load(Ordering::SeqCst) {
        return;
    }
    let base = seen[0].lock().unwrap();
    for (bi, m) in seen.iter().enumerate().skip(1) {
        let m = m.lock().unwrap();
        for (i, h) in m.iter() {
            if base.get(i) != Some(h) {
                let before = (0..*i).filter(|k| i / job.chunk == k / job.chunk).map(|k| programs[k].clone()).collect();
                return ctx.fail(Failure { backend: bi, other: Some(0), before, program: programs[*i].clone(), detail: "answers differ".into() });
            }
        }
    }
}

fn finish_diff(job: &Job, f: Failure) -> Outcome {
    let (a, b) = (&job.backends[f.other.unwrap()], &job.backends[f.backend]);
    let limit = Duration::from_secs(job.shrink_seconds.unwrap_or(60));
    let mk = |gadgets: Program, detail: String, also: Vec<String>, reproduced: bool| {
        Outcome::Violation(Replay { property: job.property.clone(), mode: "diff".into(), backend: b.name.clone(), other: Some(a.name.clone()), detail, gadgets, also_failing: also, seed: job.seed, reproduced, gadgets_b: None })
    };
    match differ(a, b, &f.program) {
        Err(e) => Outcome::Error(e),
        Ok(None) => {
            let mut all = f.before.clone();
            all.push(f.program.clone());
            let flat = flatten(&all);
            match differ(a, b, &flat) {
                Ok(Some(d)) => {
                    let (p, d2) = shrink(&mut ProgramTree::new(flat), limit, |c| differ(a, b, c).ok().flatten());
                    mk(p, d2.unwrap_or(d), vec![], true)
                }
                _ => mk(flat, format!("{} (only within its session)", f.detail), vec![], false),
            }
        }
        Ok(Some(d)) => {
            let (p, d2) = shrink(&mut ProgramTree::new(f.program.clone()), limit, |c| differ(a, b, c).ok().flatten());
            let also = job.backends.iter().filter(|o| o.name != b.name && o.name != a.name && matches!(differ(a, o, &p), Ok(Some(_)))).map(|o| o.name.clone()).collect();
            mk(p, d2.unwrap_or(d), also, true)
        }
    }
}

// ------------------------------------------------------------------------------------------------ history

/// Runs gadgets, each after a reset, in one process.
fn run_gadgets(b: &Backend, gs: &[&Gadget]) -> Result<Vec<Vec<Reply>>, Fail> {
    let mut a = Agent::start(b)?;
    let ps: Vec<Program> = gs.iter().map(|g| vec![(*g).clone()]).collect();
    let refs: Vec<&Program> = ps.iter().collect();
    Ok(run_many(&mut a, &refs)?.into_iter().map(|mut r| r.remove(0)).collect())
}

/// Does the last gadget answer differently after the others than in a fresh process?
fn history_matters(b: &Backend, p: &Program) -> Result<Option<String>, String> {
    let gs: Vec<&Gadget> = p.iter().collect();
    let Some(last) = gs.last() else { return Ok(None) };
    let conv = |r: Result<Vec<Vec<Reply>>, Fail>| match r {
        Ok(v) => Ok(Ok(v)),
        Err(Fail::Crash(e)) => Ok(Err(e)),
        Err(Fail::Error(e)) => Err(e),
    };
    let alone = conv(run_gadgets(b, &[last]))?;
    let after = conv(run_gadgets(b, &gs))?;
    let (ops, checks) = last.expand();
    Ok(match (alone, after) {
        (Err(x), _) => Some(format!("crash: {x}")),
        (_, Err(x)) => Some(format!("crash after the history: {x}")),
        (Ok(mut x), Ok(mut y)) => {
            let (x, y) = (x.remove(0), y.pop().unwrap());
            if malformed(x.iter()) || malformed(y.iter()) {
                return Ok(None);
            }
            if let Some(i) = x.iter().zip(&y).position(|(p, q)| p != q) {
                Some(format!("{:?}: alone {} {}, after the history {} {}", ops[i], st(x[i].st), hex(&x[i].data), st(y[i].st), hex(&y[i].data)))
            } else if relative(last) {
                match judge(&ops, &checks, &x) {
                    Verdict::Bad(e) => Some(e),
                    _ => None,
                }
            } else {
                None
            }
        }
    })
}

/// Gadgets whose own conditions are about history or threads.
fn relative(g: &Gadget) -> bool {
    matches!(g, Gadget::Concurrent { .. } | Gadget::Repeat { .. } | Gadget::Interleave { .. })
}

fn run_history(job: &Job, sessions: &[Program], extra: &[Program], conc: &[Program], ctx: &Ctx) {
    enum T {
        Session(usize, usize),
        Single(usize, usize, bool),
    }
    let mut tasks = vec![];
    let n = sessions.len().max(extra.len()).max(conc.len());
    for i in 0..n {
        for (bi, b) in job.backends.iter().enumerate() {
            if b.threads {
                if i < conc.len() {
                    tasks.push(T::Single(bi, i, true));
                }
                continue;
            }
            if i < sessions.len() && (i == 0 || pick(i, b)) {
                tasks.push(T::Session(bi, i));
            }
            if i < extra.len() && (i == 0 || pick(i, b)) {
                tasks.push(T::Single(bi, i, false));
            }
        }
    }
    pool(tasks, job.threads, |t| {
        if ctx.stop.load(Ordering::SeqCst) {
            return;
        }
        let (bi, p) = match t {
            T::Session(bi, i) => (*bi, &sessions[*i]),
            T::Single(bi, i, c) => (*bi, if *c { &conc[*i] } else { &extra[*i] }),
        };
        let b = &job.backends[bi];
        let fail = |before: Vec<&Gadget>, g: &Gadget, d: String| ctx.fail(Failure { backend: bi, other: None, before: before.into_iter().map(|g| vec![g.clone()]).collect(), program: vec![g.clone()], detail: d });
        let crash = |gs: &[&Gadget], how: String| {
            let ps: Vec<Program> = gs.iter().map(|g| vec![(*g).clone()]).collect();
            let refs: Vec<&Program> = ps.iter().collect();
            match locate_crash(b, &refs) {
                Ok(k) => {
                    let k = k.map_or(gs.len() - 1, |x| x.0);
                    fail(gs[..k].to_vec(), gs[k], format!("crash: {how}"));
                }
                Err(e) => ctx.err(format!("{}: {e}", b.name)),
            }
        };
        let gs: Vec<&Gadget> = p.iter().collect();
        let x = match run_gadgets(b, &gs) {
            Ok(x) => x,
            Err(Fail::Crash(h)) => return crash(&gs, h),
            Err(Fail::Error(e)) => return ctx.err(format!("{}: {e}", b.name)),
        };
        ctx.count(b, gs.len());
        for (k, (g, r)) in gs.iter().zip(&x).enumerate() {
            if malformed(r.iter()) {
                return ctx.err(format!("{}: generated command was malformed in {g:?}", b.name));
            }
            if relative(g) {
                let (ops, checks) = g.expand();
                if let Verdict::Bad(d) = judge(&ops, &checks, r) {
                    return fail(gs[..k].to_vec(), g, d);
                }
            }
        }
        if let T::Session(_, i) = t {
            // the same gadgets in another order, in a new process
            let mut order: Vec<usize> = (0..gs.len()).collect();
            let mut r = rng_for(job.seed, &format!("order{i}"));
            for k in (1..order.len()).rev() {
                order.swap(k, r.below(k + 1));
            }
            let gs2: Vec<&Gadget> = order.iter().map(|k| gs[*k]).collect();
            let y = match run_gadgets(b, &gs2) {
                Ok(y) => y,
                Err(Fail::Crash(h)) => return crash(&gs2, h),
                Err(Fail::Error(e)) => return ctx.err(format!("{}: {e}", b.name)),
            };
            ctx.count(b, gs.len());
            for (pos, k) in order.iter().enumerate() {
                if x[*k] != y[pos] {
                    // which of the two runs is off?
                    let alone = match run_gadgets(b, &[gs[*k]]) {
                        Ok(mut z) => z.remove(0),
                        Err(Fail::Crash(h)) => return crash(&[gs[*k]], h),
                        Err(Fail::Error(e)) => return ctx.err(format!("{}: {e}", b.name)),
                    };
                    if alone != x[*k] {
                        return fail(gs[..*k].to_vec(), gs[*k], "answer depends on the history".into());
                    }
                    return fail(gs2[..pos].to_vec(), gs[*k], "answer depends on the history".into());
                }
            }
            // a few gadgets in a process of their own, so that a history that is the same in both orders shows as well
            for k in [gs.len() - 1, gs.len() / 2, gs.len() / 3] {
                match run_gadgets(b, &[gs[k]]) {
                    Ok(z) => {
                        ctx.count(b, 1);
                        if z[0] != x[k] {
                            return fail(gs[..k].to_vec(), gs[k], "answer depends on the history".into());
                        }
                    }
                    Err(Fail::Crash(h)) => return crash(&[gs[k]], h),
                    Err(Fail::Error(e)) => return ctx.err(format!("{}: {e}", b.name)),
                }
            }
        }
    });
}

fn finish_history(job: &Job, f: Failure) -> Outcome {
    let b = &job.backends[f.backend];
    let limit = Duration::from_secs(job.shrink_seconds.unwrap_or(60));
    let mut flat = flatten(&f.before);
    flat.extend(f.program.clone());
    let mk = |gadgets: Program, detail: String, reproduced: bool| {
        Outcome::Violation(Replay { property: job.property.clone(), mode: "history".into(), backend: b.name.clone(), other: None, detail, gadgets, also_failing: vec![], seed: job.seed, reproduced, gadgets_b: None })
    };
    let mut first = None;
    for _ in 0..5 {
        match history_matters(b, &flat) {
            Ok(Some(d)) => {
                first = Some(d);
                break;
            }
            Ok(None) => {}
            Err(e) => return Outcome::Error(e),
        }
    }
    match first {
        None => mk(flat, format!("{} (did not recur in five runs: timing dependent)", f.detail), false),
        Some(d) => {
            let mut t = ProgramTree::new(flat);
            t.keep_last = 1;
            let (p, d2) = shrink(&mut t, limit, |c| history_matters(b, c).ok().flatten());
            mk(p, d2.unwrap_or(d), true)
        }
    }
}

// ------------------------------------------------------------------------------------------------ traces

fn tables(job: &Job) -> Result<Vec<Option<trace::Table>>, String> {
    job.backends.iter().map(|b| b.trace.as_ref().map(|t| trace::Table::load(&t.table)).transpose()).collect()
}

fn target<'a>(job: &'a Job, b: &'a Backend, t: &'a Option<trace::Table>) -> trace::Target<'a> {
    trace::Target { cmd: &b.cmd, info: b.trace.as_ref().expect("trace"), table: t.as_ref().expect("table"), scratch: &job.scratch }
}

/// Programs of one chunk: per program the public shape's name and its sets of secrets, the first being the baseline.
fn trace_chunk(job: &Job, backend: usize, chunk: usize) -> Vec<Vec<Vec<Op>>> {
    let dict: Vec<Vec<u8>> = job.dict.iter().map(|s| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
    let mut r = rng_for(job.seed, &format!("{}/{}/{chunk}", job.property, job.backends[backend].name));
    let mut g = gen::Gen::new(&mut r, &dict);
    (0..job.chunk)
        .map(|_| {
            let n = g.r.range(job.min, job.max);
            let shape = trace::shape(&mut g, n, job.crypt_only);
            (0..=job.variants).map(|_| trace::fill(&shape, &mut g)).collect()
        })
        .collect()
}

fn run_trace(job: &Job) -> (Outcome, Value) {
    let t0 = Instant::now();
    let tables = match tables(job) {
        Ok(t) => t,
        Err(e) => return (Outcome::Error(e), Value::Null),
    };
    let cpus = trace::cpus();
    let next_cpu = AtomicUsize::new(0);
    thread_local!(static CPU: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) });
    let stop = AtomicBool::new(false);
    let bad: Mutex<Option<(usize, Vec<Vec<Op>>, Vec<Vec<Op>>, String)>> = Mutex::new(None);
    let error: Mutex<Option<String>> = Mutex::new(None);
    let seen = Mutex::new(HashSet::new());
    let classes = Mutex::new(BTreeMap::<String, usize>::new());
    let per: Mutex<BTreeMap<String, [usize; 2]>> = Mutex::new(BTreeMap::new());
    // programs that coverage-guided search kept: what it takes to reach the rarest parts of the code
    let mut given: Vec<Vec<Program>> = vec![vec![]; job.backends.len()];
    let mut guided = Value::Null;
    if !job.cover.is_empty() {
        let sub = Job { backends: job.cover.clone(), programs: job.cover_programs, min: 1, max: 1, repeat: 1, ..job.clone() };
        let ctx = Ctx::new(&sub);
        let (v, kept) = cover::run(&sub, &ctx, cover::Rule::None);
        match (conclude_none(&ctx), &v) {
            (Some(o), _) => return (o, Value::Null),
            (None, v) => guided = v["coverage_guided"].clone(),
        }
        for (bi, b) in job.backends.iter().enumerate() {
            let seeds = &b.trace.as_ref().expect("trace").seeds;
            if let Some(k) = sub.backends.iter().position(|c| c.name == *seeds) {
                let mut ps = kept[k].clone();
                ps.reverse();
                ps.truncate((job.cover_keep * (b.weight as usize).min(320)).div_ceil(320));
                given[bi] = ps;
            }
        }
    }
    let mut tasks = vec![];
    for (i, b) in job.backends.iter().enumerate() {
        let n = (job.programs * b.weight as usize).div_ceil(64 * job.chunk).max(1);
        tasks.extend((0..n).map(|c| (c * 1000 / n, i, c, false)));
        let n = given[i].len().div_ceil(job.chunk);
        tasks.extend((0..n).map(|c| (c * 1000 / n, i, c, true)));
    }
    tasks.sort();
    pool(tasks, job.threads, |&(_, bi, chunk, kept)| {
        if stop.load(Ordering::SeqCst) {
            return;
        }
        let b = &job.backends[bi];
        if b.cmd.len() == 1 && !cpus.is_empty() {
            // tracer and traced process take turns: on one processor that is fastest
            let c = CPU.with(|c| match c.get() {
                Some(x) => x,
                None => {
                    let x = next_cpu.fetch_add(1, Ordering::SeqCst) % cpus.len();
                    c.set(Some(x));
                    x
                }
            });
            trace::pin(&cpus[c..=c]);
        } else {
            trace::pin(&cpus);
        }
        let t = target(job, b, &tables[bi]);
        let sets = if kept {
            let mut r = rng_for(job.seed, &format!("kept/{}/{chunk}", b.name));
            let mut g = gen::Gen::new(&mut r, &[]);
            given[bi].chunks(job.chunk).nth(chunk).unwrap().iter().map(|p| trace::pair_of(p, &mut g)).map(|(a, b)| vec![b, a]).collect()
        } else {
            trace_chunk(job, bi, chunk)
        };
        let variants = if kept { 1 } else { job.variants };
        let take = |v: usize| -> Vec<Vec<Op>> { sets.iter().map(|p| p[v].clone()).collect() };
        let fail = |e: String| {
            error.lock().unwrap().get_or_insert(format!("{}: {e}", b.name));
            stop.store(true, Ordering::SeqCst);
        };
        let found = |a: Vec<Vec<Op>>, c: Vec<Vec<Op>>, why: String| {
            bad.lock().unwrap().get_or_insert((bi, a, c, why));
            stop.store(true, Ordering::SeqCst);
        };
        let base = take(0);
        let x = match trace::run(&t, &base, None) {
            Ok(x) => x,
            Err(e) => return fail(e),
        };
        let mut instructions = 0;
        let mut cases = 0;
        let judge_aes = |ps: &[Vec<Op>], x: &[Vec<trace::OpTrace>]| -> Option<(usize, String)> {
            ps.iter().zip(x).enumerate().find_map(|(i, (p, q))| p.iter().zip(q).find_map(|(o, r)| trace::aes_ok(t.info, o, r).err()).map(|e| (i, e)))
        };
        for v in 0..=variants {
            if stop.load(Ordering::SeqCst) {
                return;
            }
            let var = take(v);
            let y = if v == 0 {
                x.clone()
            } else if t.info.constant || v <= 1 {
                match trace::run(&t, &var, None) {
                    Ok(y) => y,
                    Err(e) => return fail(e),
                }
            } else {
                break;
            };
            if let Some((i, e)) = judge_aes(&var, &y) {
                return found(vec![var[i].clone()], vec![], e);
            }
            for (p, q) in var.iter().zip(&y) {
                for (o, r) in p.iter().zip(q) {
                    instructions += r.len as usize;
                    if trace::selected(o) && (v > 0 || !t.info.constant) {
                        cases += 1;
                    }
                }
            }
            if v > 0 && t.info.constant {
                if let Some(i) = x.iter().zip(&y).position(|(p, q)| p.iter().zip(q).any(|(s, r)| trace::differs(job.lookups, s, r))) {
                    return found(base[..=i].to_vec(), var[..=i].to_vec(), "traces differ".into());
                }
            }
            let mut s = seen.lock().unwrap();
            let mut cl = classes.lock().unwrap();
            for (p, q) in base.iter().zip(&var) {
                let mut secrets = vec![];
                for (o, o2) in p.iter().zip(q) {
                    secrets.extend(Gadget::Raw(o2.clone()).datas().iter().map(|d| d.0.clone()));
                    if trace::selected(o) {
                        if v > 0 || !t.info.constant {
                            *cl.entry(o.name().to_string()).or_default() += 1;
                        }
                        if v > 0 && !secrets.is_empty() {
                            s.insert(hash_of(&(&b.name, o.name(), &secrets)));
                        }
                    }
                }
            }
        }
        let mut p = per.lock().unwrap();
        let e = p.entry(b.name.clone()).or_default();
        e[0] += cases;
        e[1] += instructions;
    });
    let per = per.into_inner().unwrap();
    let sample: Vec<Value> = trace_chunk(job, 0, 0).into_iter().take(3).map(|p| json!({"baseline": trace::to_gadgets(&p[0][..p[0].len().min(8)]), "variant": p.get(1).map(|v| trace::to_gadgets(&v[..v.len().min(8)]))})).collect();
    let info = json!({
        "evaluations": per.values().map(|x| x[0]).sum::<usize>(),
        "instructions_traced": per.values().map(|x| x[1]).sum::<usize>(),
        "distinct_nontrivial": seen.into_inner().unwrap().len(),
        "classes": classes.into_inner().unwrap(),
        "situations_per_configuration": per.iter().map(|(k, v)| (k.clone(), v[0])).collect::<BTreeMap<_, _>>(),
        "samples": sample,
        "coverage_guided": guided,
        "kept_programs_traced": given.iter().map(|g| g.len()).sum::<usize>(),
        "search_s": t0.elapsed().as_secs_f64(),
    });
    let (f, e) = (bad.into_inner().unwrap(), error.into_inner().unwrap());
    let outcome = match (f, e) {
        (Some((bi, a, c, why)), _) => finish_trace(job, &tables, bi, a, c, why),
        (None, Some(e)) => Outcome::Error(e),
        (None, None) => Outcome::Pass,
    };
    (outcome, info)
}

/// Some(what) if the replayed run breaks the property.
fn trace_fails(t: &trace::Target, lookups: bool, a: &[Vec<Op>], b: &[Vec<Op>]) -> Result<Option<String>, String> {
    if b.is_empty() {
        let x = trace::run(t, a, None)?;
        return Ok(a.iter().zip(&x).find_map(|(p, q)| p.iter().zip(q).find_map(|(o, r)| trace::aes_ok(t.info, o, r).err())));
    }
    trace::difference(t, lookups, a, b)
}

fn finish_trace(job: &Job, tables: &[Option<trace::Table>], bi: usize, a: Vec<Vec<Op>>, b: Vec<Vec<Op>>, why: String) -> Outcome {
    let back = &job.backends[bi];
    let t = target(job, back, &tables[bi]);
    let limit = Duration::from_secs(job.shrink_seconds.unwrap_or(40));
    let mk = |a: &[Op], b: Option<&[Op]>, detail: String| {
        Outcome::Violation(Replay {
            property: job.property.clone(),
            mode: "trace".into(),
            backend: back.name.clone(),
            other: None,
            detail,
            gadgets: trace::to_gadgets(a),
            also_failing: vec![],
            seed: job.seed,
            reproduced: true,
            gadgets_b: b.map(trace::to_gadgets),
        })
    };
    if b.is_empty() {
        // fewer commands: the last cipher command that falls short, with what it needs
        let mut p = a[0].clone();
        let bad = |p: &Vec<Op>| trace_fails(&t, job.lookups, &[p.clone()], &[]).ok().flatten();
        let mut detail = why;
        let mut size = p.len();
        while size > 0 {
            let mut at = 0;
            while at < p.len() {
                let end = (at + size).min(p.len());
                let q = [&p[..at], &p[end..]].concat();
                match if q.is_empty() { None } else { bad(&q) } {
                    Some(d) => {
                        p = q;
                        detail = d;
                    }
                    None => at = end,
                }
            }
            size /= 2;
        }
        return mk(&p, None, detail);
    }
    let last = (vec![a[a.len() - 1].clone()], vec![b[b.len() - 1].clone()]);
    let flat = (vec![a.concat()], vec![b.concat()]);
    for (x, y) in [last, flat] {
        match trace::difference(&t, job.lookups, &x, &y) {
            Ok(Some(d)) => {
                let (p, q, d2) = trace::shrink_pair(x[0].clone(), y[0].clone(), limit, |p, q| trace::difference(&t, job.lookups, &[p.to_vec()], &[q.to_vec()]).ok().flatten());
                return mk(&p, Some(&q), d2.unwrap_or(d));
            }
            Ok(None) => {}
            Err(e) => return Outcome::Error(e),
        }
    }
    Outcome::Error(format!("{}: traces differed once and did not again", back.name))
}

// ------------------------------------------------------------------------------------------------ main

fn stats(all: &[&Program]) -> (usize, usize, BTreeMap<String, usize>, Vec<Value>) {
    let mut seen = HashSet::new();
    let (mut gadgets, mut classes) = (0, BTreeMap::<String, usize>::new());
    for p in all {
        for g in p.iter() {
            gadgets += 1;
            *classes.entry(g.class()).or_default() += 1;
            if g.nontrivial() {
                seen.insert(hash_of(g));
            }
        }
    }
    let mut samples = vec![];
    let mut kinds = HashSet::new();
    for g in all.iter().flat_map(|p| p.iter()) {
        if g.nontrivial() && kinds.insert(g.class()) && samples.len() < 8 {
            let v = serde_json::to_value(g).unwrap();
            if v.to_string().len() < 1200 {
                samples.push(v);
            }
        }
    }
    (gadgets, seen.len(), classes, samples)
}

fn run_job(job: &Job) -> (Outcome, Value) {
    if job.mode == "trace" {
        return run_trace(job);
    }
    let t0 = Instant::now();
    let ctx = Ctx::new(job);
    if job.mode == "cover" || job.mode == "coverdiff" {
        let rule = if job.mode == "cover" { cover::Rule::Conditions } else { cover::Rule::Same };
        let (mut info, _) = cover::run(job, &ctx, rule);
        info["evaluations"] = json!(ctx.evals.load(Ordering::SeqCst));
        info["situations_per_configuration"] = json!(*ctx.per_backend.lock().unwrap());
        info["not_supported"] = json!(*ctx.unsupported.lock().unwrap());
        info["search_s"] = json!(t0.elapsed().as_secs_f64());
        return (conclude(job, &ctx), info);
    }
    let programs = generate(job, job.generator.as_ref().unwrap_or(&job.property), job.programs, job.min, job.max);
    let extra = if job.repeats > 0 { generate(job, &format!("repeat{}", job.repeat), job.repeats, 1, 1) } else { vec![] };
    let conc = if job.concurrents > 0 { generate(job, &format!("concurrent{}", job.concurrent), job.concurrents, 1, 1) } else { vec![] };
    let gen_s = t0.elapsed().as_secs_f64();
    match job.mode.as_str() {
        "check" => run_check(job, &programs, &ctx),
        "diff" => run_diff(job, &programs, &ctx),
        "history" => run_history(job, &programs, &extra, &conc, &ctx),
        m => return (Outcome::Error(format!("unknown mode {m}")), Value::Null),
    }
    let all: Vec<&Program> = programs.iter().chain(&extra).chain(&conc).collect();
    let (gadgets, distinct, classes, samples) = stats(&all);
    let info = json!({
        "evaluations": ctx.evals.load(Ordering::SeqCst),
        "programs_generated": all.len(),
        "situations_generated": gadgets,
        "distinct_nontrivial": distinct,
        "classes": classes,
        "samples": samples,
        "situations_per_configuration": *ctx.per_backend.lock().unwrap(),
        "not_supported": *ctx.unsupported.lock().unwrap(),
        "generation_s": gen_s,
        "search_s": t0.elapsed().as_secs_f64(),
    });
    let _ = ctx.job;
    (conclude(job, &ctx), info)
}

fn conclude(job: &Job, ctx: &Ctx) -> Outcome {
    let f = ctx.failure.lock().unwrap().take();
    let e = ctx.error.lock().unwrap().take();
    match (f, e) {
        (Some(f), _) => match job.mode.as_str() {
            "check" | "cover" => finish_check(job, f),
            "diff" | "coverdiff" => finish_diff(job, f),
            _ => finish_history(job, f),
        },
        (None, Some(e)) => Outcome::Error(e),
        (None, None) => Outcome::Pass,
    }
}

fn replay(job: &Job, path: &str) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let find = |n: &str| job.backends.iter().find(|b| b.name == n).unwrap_or_else(|| panic!("no configuration {n}"));
    let b = find(&r.backend);
    let res = match r.mode.as_str() {
        "check" => fails_alone(b, &[], &r.gadgets),
        "trace" => {
            let tables = tables(job).unwrap_or_else(|e| panic!("{e}"));
            let i = job.backends.iter().position(|x| x.name == b.name).unwrap();
            let second: Vec<Vec<Op>> = r.gadgets_b.iter().map(trace::to_ops).collect();
            trace_fails(&target(job, b, &tables[i]), job.lookups, &[trace::to_ops(&r.gadgets)], &second)
        }
        "diff" => differ(find(r.other.as_deref().unwrap()), b, &r.gadgets),
        _ => (0..5).map(|_| history_matters(b, &r.gadgets)).find(|x| !matches!(x, Ok(None))).unwrap_or(Ok(None)),
    };
    match res {
        Ok(Some(d)) => {
            println!("fails: {d}");
            1
        }
        Ok(None) => {
            println!("holds");
            0
        }
        Err(e) => {
            println!("error: {e}");
            2
        }
    }
}

fn main() {
    if let Err(e) = fips::self_test() {
        eprintln!("self test: {e}");
        std::process::exit(2);
    }
    let args: Vec<String> = std::env::args().collect();
    let job: Job = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("job")).expect("job");
    if let Some(p) = args.get(2) {
        std::process::exit(replay(&job, p));
    }
    let (o, info) = run_job(&job);
    let (verdict, extra) = match o {
        Outcome::Pass => ("pass", Value::Null),
        Outcome::Violation(r) => ("violation", serde_json::to_value(r).unwrap()),
        Outcome::Error(e) => ("error", json!(e)),
    };
    std::fs::write(&job.out, json!({"verdict": verdict, "detail": extra, "info": info}).to_string()).expect("out");
}
