//! Coverage-guided search: situations that reached something new of the library (an edge, or compared values closer to each
//! other than before) are kept and mutated. The judgement of every execution is the property's own, as elsewhere.
use crate::agent::{self, Agent, Fail};
use crate::fips;
use crate::gadget::Gadget;
use crate::gen::rand::Rng;
use crate::op::{Hx, Op};
use crate::proto::*;
use crate::shrink::{Program, Programs};
use crate::{hash_of, judge_program, locate_crash, malformed, pool, rng_for, runner, Ctx, Failure, Job, Verdict};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::TestRng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::sync::atomic::Ordering;
use std::sync::Mutex;

/// Programs between two looks at the coverage.
const BATCH: usize = 24;
/// Programs of the process that a failure is reported with.
const BEFORE: usize = 200;
/// Programs per process, so that a failure's history stays short.
const LIFE: usize = 20_000;

type Pair = (u64, u64, usize);

struct Entry {
    program: Program,
    pairs: Vec<Pair>,
}

struct Mutator<'a> {
    r: &'a mut TestRng,
    dict: &'a [Vec<u8>],
}

impl Mutator<'_> {
    /// One to four changes of the bytes of a program; sometimes of its other parts.
    fn mutate(&mut self, e: &Entry, other: &Program, fresh: &mut dyn FnMut() -> Program) -> Program {
        let mut p = e.program.clone();
        for _ in 0..[1, 1, 1, 2, 2, 3, 4][self.r.below(7)] {
            if self.r.pct(8) {
                self.structure(&mut p, other, fresh);
            } else {
                let g = self.r.below(p.len());
                self.bytes(&mut p[g], &e.pairs);
            }
        }
        p
    }

    fn structure(&mut self, p: &mut Program, other: &Program, fresh: &mut dyn FnMut() -> Program) {
        let i = self.r.below(p.len());
        match self.r.below(4) {
            // other parameters, the same bytes where they fit; or the reverse
            0 | 1 => {
                let src = if self.r.pct(70) { fresh() } else { other.clone() };
                let mut g = src[self.r.below(src.len())].clone();
                if std::mem::discriminant(&g) == std::mem::discriminant(&p[i]) {
                    let old: Vec<Hx> = p[i].datas().into_iter().map(|d| d.clone()).collect();
                    for (d, o) in g.datas().into_iter().zip(old) {
                        let n = d.0.len().min(o.0.len());
                        d.0[..n].copy_from_slice(&o.0[..n]);
                    }
                    p[i] = g;
                }
            }
            2 => {
                let v = p[i].smaller();
                if !v.is_empty() {
                    p[i] = v[self.r.below(v.len())].clone();
                }
            }
            _ => {
                // the bytes of another situation
                let j = self.r.below(other.len());
                let mut o = other[j].clone();
                let theirs: Vec<Hx> = o.datas().into_iter().map(|d| d.clone()).collect();
                let keep = self.r.below(1 << 32) as u32;
                for (k, (d, t)) in p[i].datas().into_iter().zip(theirs).enumerate() {
                    if keep >> (k % 32) & 1 != 0 {
                        let n = d.0.len().min(t.0.len());
                        d.0[..n].copy_from_slice(&t.0[..n]);
                    }
                }
            }
        }
    }

    fn bytes(&mut self, g: &mut Gadget, pairs: &[Pair]) {
        if self.r.pct(30) && self.inside(g, pairs) {
            return;
        }
        self.fields(&mut g.datas(), pairs);
    }

    /// Changes a value between the steps of a cipher: some words of the key schedule, or the state between two rounds.
    fn inside(&mut self, g: &mut Gadget, pairs: &[Pair]) -> bool {
        let both = [0, 1][self.r.below(2)];
        if let Gadget::Chain { dir, state, keys, .. } | Gadget::WideRound { op: dir, state, keys, .. } | Gadget::Round { op: dir, state, key: keys } = g {
            // a value between two rounds, changed by the round key that is added there
            let dec = if *dir < 2 { *dir == 1 } else { *dir == BI_DEC || *dir == BI_DEC_LAST };
            let w = state.0.len();
            if pairs.is_empty() || *dir >= 2 && *dir < BI_ENC || keys.0.len() % w != 0 {
                return false;
            }
            let chain = *dir < 2;
            let last = *dir == BI_ENC_LAST || *dir == BI_DEC_LAST;
            let mut acc = state.0.clone();
            let mut all = vec![];
            for (i, k) in keys.0.chunks(w).enumerate() {
                for (a, k) in acc.chunks_exact_mut(16).zip(k.chunks_exact(16)) {
                    let (x, k): (fips::B16, fips::B16) = ((&*a).try_into().unwrap(), k.try_into().unwrap());
                    a.copy_from_slice(&match (chain && i == 0, dec, last) {
                        (true, ..) => fips::xor(x, k),
                        (_, false, false) => fips::enc(x, k),
                        (_, true, false) => fips::dec(x, k),
                        (_, false, true) => fips::enc_last(x, k),
                        (_, true, true) => fips::dec_last(x, k),
                    });
                }
                all.extend_from_slice(&acc);
            }
            for _ in 0..8 {
                let (x, y) = self.pair(pairs);
                if all.is_empty() {
                    return false;
                }
                let from = self.r.below(all.len());
                if let Some(q) = (0..all.len()).map(|i| (i + from) % all.len()).find(|i| all[*i..].starts_with(&x)) {
                    for (i, (a, b)) in x.iter().zip(&y).enumerate() {
                        keys.0[q + i] ^= a ^ b;
                    }
                    return true;
                }
            }
            return false;
        }
        let (role, key, data) = match g {
            Gadget::Cipher { role, key, blocks, .. } => (*role, key, blocks),
            Gadget::Wide { role, key, data, .. } | Gadget::Repeat { role, key, data, .. } | Gadget::Interleave { role, key, data, .. } => (*role, key, data),
            Gadget::RoundTrip { key, data, .. } => (both, key, data),
            Gadget::Roles { a, b, data, .. } => (both, if self.r.pct(50) { a } else { b }, data),
            _ => return false,
        };
        let n = key.0.len();
        let rk = fips::key_expansion(&key.0);
        let blocks = data.0.len() / 16;
        // the value that an implementation keeps before round r (counted from the plaintext): decryption's are transformed
        let state = |rk: &[fips::B16], block: &[u8], r: usize| -> fips::B16 {
            let block = block.try_into().unwrap();
            let mut st = fips::xor(if role == 1 { fips::decrypt(rk, block) } else { block }, rk[0]);
            for k in &rk[1..r] {
                st = fips::enc(st, *k);
            }
            if role == 1 { fips::shift_rows(fips::sub_bytes(st)) } else { st }
        };
        let block_with = |rk: &[fips::B16], st: fips::B16, r: usize| -> fips::B16 {
            let st = if role == 1 { fips::inv_sub_bytes(fips::inv_shift_rows(st)) } else { st };
            let p = fips::plaintext_for_state(rk, st, r);
            if role == 1 { fips::encrypt(rk, p) } else { p }
        };
        let turned = role == 1 && self.r.pct(60);
        let last = rk.len() - 1;
        let schedule: Vec<u8> = rk.iter().enumerate().flat_map(|(i, k)| if turned && i > 0 && i < last { fips::inv_mix_columns(*k) } else { *k }).collect();
        // a compared value that occurs there is replaced where it is
        if !pairs.is_empty() && self.r.pct(60) {
            for _ in 0..16 {
                let (x, y) = self.pair(pairs);
                let find = |v: &[u8], from: usize| (0..v.len()).map(|i| (i + from) % v.len()).find(|i| v[*i..].starts_with(&x));
                if x.len() < 2 && self.r.pct(50) {
                    continue;
                }
                if self.r.pct(50) {
                    let from = self.r.below(schedule.len());
                    if let Some(q) = find(&schedule, from) {
                        let mut to = schedule.clone();
                        to[q..q + y.len()].copy_from_slice(&y);
                        let (w, nk) = (q / 4, n / 4);
                        let at = if turned { w & !3 } else { w - self.r.below(nk.min(w + 1)) };
                        let at = at.min(schedule.len() / 4 - nk);
                        let mut win = to[4 * at..4 * at + n].to_vec();
                        if turned {
                            if at / 4 == 0 || at / 4 == last {
                                continue;
                            }
                            let k = fips::mix_columns(win[..16].try_into().unwrap());
                            win = rk.concat()[4 * at..4 * at + n].to_vec();
                            win[..16].copy_from_slice(&k);
                        }
                        self.rekey(key, data, &rk, fips::key_with_words(&win, at), &state, &block_with);
                        return true;
                    }
                } else if blocks > 0 {
                    let b = 16 * self.r.below(blocks);
                    let r0 = self.r.below(last);
                    for r in (0..last).map(|i| (i + r0) % last + 1) {
                        let st = state(&rk, &data.0[b..b + 16], r);
                        if let Some(q) = find(&st, 0) {
                            let mut st = st;
                            st[q..q + y.len()].copy_from_slice(&y);
                            data.0[b..b + 16].copy_from_slice(&block_with(&rk, st, r));
                            return true;
                        }
                    }
                }
            }
        }
        if self.r.pct(50) || blocks == 0 {
            let words = 4 * rk.len();
            let at = self.r.range(1, words - n / 4);
            let at = if turned { at & !3 } else { at };
            let mut win = Hx(rk.concat()[4 * at..4 * at + n].to_vec());
            let turn = |w: &mut Hx, f: fn(fips::B16) -> fips::B16| {
                if turned {
                    let x = f(w.0[..16].try_into().unwrap());
                    w.0[..16].copy_from_slice(&x);
                }
            };
            turn(&mut win, fips::inv_mix_columns);
            self.fields(&mut vec![&mut win], pairs);
            turn(&mut win, fips::mix_columns);
            self.rekey(key, data, &rk, fips::key_with_words(&win.0, at), &state, &block_with);
            return true;
        }
        let at = 16 * self.r.below(blocks);
        let r = self.r.range(1, last);
        let mut v = Hx(state(&rk, &data.0[at..at + 16], r).to_vec());
        self.fields(&mut vec![&mut v], pairs);
        data.0[at..at + 16].copy_from_slice(&block_with(&rk, v.0.try_into().unwrap(), r));
        true
    }

    /// Another key; often with blocks such that the states before one round stay what they are.
    #[allow(clippy::type_complexity)]
    fn rekey(&mut self, key: &mut Hx, data: &mut Hx, old: &[fips::B16], new: Vec<u8>, state: &dyn Fn(&[fips::B16], &[u8], usize) -> fips::B16, block: &dyn Fn(&[fips::B16], fips::B16, usize) -> fips::B16) {
        key.0 = new;
        if self.r.pct(50) {
            let r = self.r.range(1, old.len() - 1);
            let rk = fips::key_expansion(&key.0);
            for c in data.0.chunks_exact_mut(16) {
                let st = state(old, c, r);
                c.copy_from_slice(&block(&rk, st, r));
            }
        }
    }

    /// A compared value and what it was compared with, one way or the other, as bytes in some order.
    fn pair(&mut self, pairs: &[Pair]) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b, len) = pairs[self.r.below(pairs.len())];
        if self.r.pct(50) {
            std::mem::swap(&mut a, &mut b);
        }
        if self.r.pct(10) {
            b = b.wrapping_add(if self.r.pct(50) { 1 } else { u64::MAX });
        }
        let short = [len, len, len, 1, 2, 4][self.r.below(6)].min(len);
        let (mut x, mut y) = (a.to_le_bytes()[..short].to_vec(), b.to_le_bytes()[..short].to_vec());
        if self.r.pct(50) {
            x.reverse();
            y.reverse();
        }
        (x, y)
    }

    fn fields(&mut self, ds: &mut Vec<&mut Hx>, pairs: &[Pair]) {
        ds.retain(|d| !d.0.is_empty());
        if ds.is_empty() {
            return;
        }
        let k = self.r.below(ds.len());
        let n = ds[k].0.len();
        let at = self.r.below(n);
        match self.r.below(14) {
            0 | 1 => ds[k].0[at] ^= 1 << self.r.below(8),
            2 => ds[k].0[at] = self.r.byte(),
            3 => ds[k].0[at] = [0, 1, 0x7f, 0x80, 0xff, 0x63, 0x52, 0x1b][self.r.below(8)],
            4 | 5 => {
                // a piece of a field elsewhere
                let len = [1, 2, 4, 8, 16][self.r.below(5)];
                let j = self.r.below(ds.len());
                let m = ds[j].0.len();
                if len <= n && len <= m {
                    let unit = if self.r.pct(70) { len } else { 1 };
                    let (s, d) = (self.r.below((m - len) / unit + 1) * unit, self.r.below((n - len) / unit + 1) * unit);
                    let piece = ds[j].0[s..s + len].to_vec();
                    ds[k].0[d..d + len].copy_from_slice(&piece);
                }
            }
            6 | 7 => {
                // the same difference in two places: what depends on their exclusive or stays as it is
                let j = self.r.below(ds.len());
                let b = self.r.below(ds[j].0.len());
                let x = if self.r.pct(50) { 1 << self.r.below(8) } else { self.r.byte() };
                ds[k].0[at] ^= x;
                ds[j].0[b] ^= x;
            }
            8 => {
                // a little more or less, as a number of some width
                let len = [1, 2, 4, 8][self.r.below(4)];
                if len <= n {
                    let at = self.r.below(n / len) * len;
                    let by = self.r.range(1, 16) as u64;
                    let by = if self.r.pct(50) { by } else { by.wrapping_neg() };
                    let mut w = [0; 8];
                    let big = self.r.pct(50);
                    let f = &mut ds[k].0[at..at + len];
                    if big {
                        f.reverse();
                    }
                    w[..len].copy_from_slice(f);
                    w = u64::from_le_bytes(w).wrapping_add(by).to_le_bytes();
                    f.copy_from_slice(&w[..len]);
                    if big {
                        f.reverse();
                    }
                }
            }
            9 => {
                if !self.dict.is_empty() {
                    let v = &self.dict[self.r.below(self.dict.len())];
                    if v.len() <= n {
                        let at = self.r.below(n - v.len() + 1);
                        ds[k].0[at..at + v.len()].copy_from_slice(v);
                    }
                }
            }
            _ => {
                // a value that was compared becomes the one it was compared with
                if pairs.is_empty() {
                    ds[k].0[at] ^= 1 << self.r.below(8);
                    return;
                }
                let mut places = vec![];
                let (mut x, mut y) = self.pair(pairs);
                for _ in 0..12 {
                    for (i, d) in ds.iter().enumerate() {
                        places.extend(d.0.windows(x.len()).enumerate().filter(|(_, w)| *w == x).map(|(j, _)| (i, j)));
                    }
                    if !places.is_empty() {
                        break;
                    }
                    (x, y) = self.pair(pairs);
                }
                let short = x.len();
                if !places.is_empty() {
                    let (i, j) = places[self.r.below(places.len())];
                    ds[i].0[j..j + short].copy_from_slice(&y);
                } else if short <= n {
                    let at = self.r.below(n - short + 1);
                    ds[k].0[at..at + short].copy_from_slice(&y);
                }
            }
        }
    }
}

fn decode(data: &[u8]) -> Option<(u32, Vec<Pair>)> {
    let fresh = u32::from_le_bytes(data.get(..4)?.try_into().ok()?);
    let pairs = data[4..].chunks_exact(17).map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..16].try_into().unwrap()), c[16] as usize)).collect();
    Some((fresh, pairs))
}

/// What decides an execution.
#[derive(Clone, Copy, PartialEq)]
pub enum Rule {
    /// the situation's own conditions
    Conditions,
    /// the answers are those of another configuration
    Same,
    /// nothing: the kept programs are wanted
    None,
}

/// Kept programs per backend.
pub type Kept = Vec<Vec<Program>>;

pub fn run(job: &Job, ctx: &Ctx, rule: Rule) -> (Value, Kept) {
    let dict: Vec<Vec<u8>> = job.dict.iter().map(|s| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
    let prop = job.generator.as_ref().unwrap_or(&job.property);
    let lanes = job.repeat.max(1);
    let tasks: Vec<(usize, usize)> = (0..lanes).flat_map(|l| (0..job.backends.len()).map(move |b| (b, l))).collect();
    let seen = Mutex::new(HashSet::new());
    let stats = Mutex::new(BTreeMap::<String, usize>::new());
    let classes = Mutex::new(BTreeMap::<String, usize>::new());
    let samples = Mutex::new(vec![]);
    let kept: Mutex<Kept> = Mutex::new(vec![vec![]; job.backends.len()]);
    pool(tasks, job.threads, |&(bi, lane)| {
        let b = &job.backends[bi];
        let mut r = rng_for(job.seed, &format!("cover/{}/{prop}/{}/{lane}", job.property, b.name));
        let s = Programs { prop: prop.clone(), dict: dict.clone(), min: job.min, max: job.max };
        let mut source = runner(job.seed, &format!("source/{}/{prop}/{}/{lane}", job.property, b.name));
        let mut fresh = || s.new_tree(&mut source).unwrap().current();
        let mut corpus: Vec<Entry> = vec![];
        let mut features = 0;
        let mut mine = HashSet::new();
        let mut kinds = BTreeMap::<String, usize>::new();
        let mut done = 0;
        let mut process: Option<Agent> = None;
        let partner = if bi == 0 { job.backends.len() - 1 } else { 0 };
        let mut second: Option<Agent> = None;
        let mut age = 0;
        let mut before: VecDeque<Program> = VecDeque::new();
        while done < job.programs {
            if ctx.stop.load(Ordering::SeqCst) {
                return;
            }
            let batch: Vec<Program> = (0..BATCH)
                .map(|_| {
                    if corpus.len() < 16 || done < job.programs / 20 || r.pct(4) {
                        return fresh();
                    }
                    let k = corpus.len();
                    let e = if r.pct(50) { k - 1 - r.below(k.min(16)) } else { r.below(k) };
                    let o = r.below(k);
                    let mut m = Mutator { r: &mut r, dict: &dict };
                    m.mutate(&corpus[e], &corpus[o].program, &mut fresh)
                })
                .collect();
            if age >= LIFE {
                process = None;
            }
            if process.is_none() {
                age = 0;
                before.clear();
                process = match Agent::start(b) {
                    Ok(a) => Some(a),
                    Err(Fail::Error(e) | Fail::Crash(e)) => return ctx.err(format!("{}: {e}", b.name)),
                };
                if rule == Rule::Same {
                    second = match Agent::start(&job.backends[partner]) {
                        Ok(a) => Some(a),
                        Err(Fail::Error(e) | Fail::Crash(e)) => return ctx.err(format!("{}: {e}", job.backends[partner].name)),
                    };
                }
            }
            let mut ops = vec![];
            let mut shape = vec![];
            for p in &batch {
                ops.push(Op::Reset);
                let mut v = vec![];
                for g in p {
                    let o = g.expand().0;
                    v.push(o.len());
                    ops.extend(o);
                }
                ops.push(Op::Cov);
                shape.push(v);
            }
            let replies = match process.as_mut().unwrap().exec(ops.iter()) {
                Ok(x) => x,
                Err(Fail::Error(e)) if e.starts_with(agent::UNSUPPORTED) => {
                    ctx.unsupported.lock().unwrap().insert(b.name.clone(), e.chars().take(400).collect());
                    return;
                }
                Err(Fail::Error(e)) => return ctx.err(format!("{}: {e}", b.name)),
                Err(Fail::Crash(how)) => {
                    let ps: Vec<&Program> = before.iter().chain(&batch).collect();
                    return match locate_crash(b, &ps) {
                        Err(e) => ctx.err(format!("{}: {e}", b.name)),
                        Ok(k) => {
                            let (k, how) = k.unwrap_or((ps.len() - 1, how));
                            ctx.fail(Failure { backend: bi, other: (rule == Rule::Same).then_some(partner), before: ps[..k].iter().map(|p| (*p).clone()).collect(), program: ps[k].clone(), detail: format!("crash: {how}") })
                        }
                    };
                }
            };
            let theirs = match second.as_mut().map(|a| a.exec(ops.iter())) {
                None => None,
                Some(Ok(x)) => Some(x),
                Some(Err(Fail::Error(e))) => return ctx.err(format!("{}: {e}", job.backends[partner].name)),
                Some(Err(Fail::Crash(how))) => {
                    // the other process judges its own crashes
                    return ctx.fail(Failure { backend: partner, other: Some(bi), before: before.into_iter().chain(batch[..batch.len() - 1].iter().cloned()).collect(), program: batch[batch.len() - 1].clone(), detail: format!("crash: {how}") });
                }
            };
            let mut at = 0;
            let mut it = replies.into_iter();
            for (p, s) in batch.into_iter().zip(shape) {
                it.next();
                at += 1;
                let len: usize = s.iter().sum();
                let other = theirs.as_ref().map(|t| &t[at..at + len]);
                at += len + 1;
                let r: Vec<Vec<_>> = s.into_iter().map(|n| it.by_ref().take(n).collect()).collect();
                let cov = it.next().unwrap();
                let Some((new, pairs)) = decode(&cov.data).filter(|_| cov.st == ST_OK) else {
                    return ctx.err(format!("{}: no coverage", b.name));
                };
                done += 1;
                age += 1;
                let verdict = match rule {
                    Rule::Conditions => judge_program(&p, &r),
                    _ if malformed(r.iter().flatten()) => Verdict::Invalid(String::new()),
                    Rule::Same if other.is_some_and(|o| r.iter().flatten().ne(o)) => Verdict::Bad("answers differ".into()),
                    _ => Verdict::Good,
                };
                match verdict {
                    Verdict::Good => {}
                    // a mutated program need not be meaningful
                    Verdict::Invalid(_) => {
                        *kinds.entry("(not a meaningful program)".into()).or_default() += 1;
                        continue;
                    }
                    Verdict::Bad(detail) => {
                        ctx.count(b, p.len());
                        let other = (rule == Rule::Same).then_some(partner);
                        return ctx.fail(Failure { backend: bi, other, before: before.into_iter().collect(), program: p, detail });
                    }
                }
                ctx.count(b, p.len());
                for g in &p {
                    *kinds.entry(g.class()).or_default() += 1;
                    if g.nontrivial() {
                        mine.insert(hash_of(g));
                    }
                }
                if new > 0 {
                    features += new as usize;
                    corpus.push(Entry { program: p.clone(), pairs });
                }
                before.push_back(p);
                if before.len() > BEFORE {
                    before.pop_front();
                }
            }
        }
        seen.lock().unwrap().extend(mine);
        kept.lock().unwrap()[bi].extend(corpus.iter().map(|e| e.program.clone()));
        let mut st = stats.lock().unwrap();
        for (k, n) in [("executions", done), ("kept programs", corpus.len()), ("features", features)] {
            *st.entry(format!("{} {k}", b.name)).or_default() += n;
        }
        for (k, n) in kinds {
            *classes.lock().unwrap().entry(k).or_default() += n;
        }
        if lane == 0 && bi == 0 {
            let v = corpus.iter().rev().take(40).map(|e| serde_json::to_value(&e.program).unwrap()).filter(|v| v.to_string().len() < 1200).take(3);
            samples.lock().unwrap().extend(v);
        }
    });
    let v = json!({
        "classes": classes.into_inner().unwrap(),
        "distinct_nontrivial": seen.into_inner().unwrap().len(),
        "coverage_guided": stats.into_inner().unwrap(),
        "samples": samples.into_inner().unwrap(),
    });
    (v, kept.into_inner().unwrap())
}
