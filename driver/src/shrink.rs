//! Programs as a proptest strategy with integrated shrinking: drop gadgets, take smaller variants, clear bytes.
use crate::gadget::{self, Gadget};
use crate::gen::{rand::Rng, Gen};
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::TestRunner;

pub type Program = Vec<Gadget>;

#[derive(Debug, Clone)]
pub struct Programs {
    pub prop: String,
    pub dict: Vec<Vec<u8>>,
    pub max: usize,
    pub min: usize,
}

impl Strategy for Programs {
    type Tree = ProgramTree;
    type Value = Program;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let mut rng = runner.new_rng();
        let mut g = Gen::new(&mut rng, &self.dict);
        let n = g.r.range(self.min, self.max);
        if self.prop == "C20M" {
            // for an interpreter
            g.long = 48;
        }
        let mut p: Program = vec![];
        match self.prop.as_str() {
            "C20V" => {
                // values only, no cipher and no AES step
                p.extend((0..n).map(|_| Gadget::Raw(gadget::raw_value(&mut g))));
            }
            "C16" | "C20" | "C20M" => {
                p.extend(gadget::raw_prologue(&mut g));
                // register contents before the first command are zero; load some
                for _ in 0..6 {
                    let w = [1u8, 2, 4][g.r.below(3)];
                    let data = g.value(16 * w as usize);
                    p.push(Gadget::Raw(crate::op::Op::Load { w, dst: g.r.below(6) as u8, kind: 0, align: 0, data: crate::op::Hx(data) }));
                }
                p.extend((0..n).map(|_| Gadget::Raw(gadget::raw(&mut g))));
            }
            q if q.starts_with("repeat") => p.push(gadget::repeat(&mut g, q[6..].parse().unwrap())),
            q if q.starts_with("loop") => p.push(gadget::looped(&mut g, q[4..].parse().unwrap())),
            "race" => p.push(gadget::race(&mut g)),
            q if q.starts_with("concurrent") => p.push(gadget::concurrent(&mut g, q[10..].parse().unwrap())),
            q => p.extend((0..n).map(|_| gadget::gadget(q, &mut g))),
        }
        Ok(ProgramTree::new(p))
    }
}

#[derive(Debug, Clone)]
pub struct ProgramTree {
    best: Program,
    cur: Program,
    phase: u8,
    pos: usize,
    size: usize,
    /// gadgets at the end that must stay (a history's last gadget is the one judged)
    pub keep_last: usize,
}

impl ProgramTree {
    pub fn new(p: Program) -> Self {
        let size = p.len();
        ProgramTree { cur: p.clone(), best: p, phase: 0, pos: 0, size, keep_last: 0 }
    }

    fn bytes(p: &mut Program) -> usize {
        p.iter_mut().map(|g| g.datas().iter().map(|d| d.0.len()).sum::<usize>()).sum()
    }

    /// The next candidate derived from best, or false when there is none left.
    fn next(&mut self) -> bool {
        loop {
            let n = self.best.len();
            match self.phase {
                // remove chunks of gadgets, big to small
                0 => {
                    let m = n - self.keep_last.min(n);
                    if self.size == 0 || m == 0 {
                        self.phase = 1;
                        self.pos = 0;
                        continue;
                    }
                    if self.pos >= m {
                        self.pos = 0;
                        self.size /= 2;
                        continue;
                    }
                    let end = (self.pos + self.size).min(m);
                    if end - self.pos == n {
                        self.pos = end;
                        continue;
                    }
                    self.cur = [&self.best[..self.pos], &self.best[end..]].concat();
                    self.pos = end;
                    return true;
                }
                // structurally smaller gadgets
                1 => {
                    let all: Vec<(usize, Gadget)> = self.best.iter().enumerate().flat_map(|(i, g)| g.smaller().into_iter().map(move |s| (i, s))).collect();
                    if self.pos >= all.len() {
                        self.phase = 2;
                        self.pos = 0;
                        self.size = 64;
                        continue;
                    }
                    self.cur = self.best.clone();
                    let (i, s) = all[self.pos].clone();
                    self.cur[i] = s;
                    self.pos += 1;
                    return true;
                }
                // clear runs of bytes
                2 => {
                    let mut c = self.best.clone();
                    let total = Self::bytes(&mut c);
                    if self.pos >= total {
                        self.pos = 0;
                        self.size /= 4;
                        if self.size == 0 {
                            return false;
                        }
                        continue;
                    }
                    let (mut at, mut changed) = (0, false);
                    for g in &mut c {
                        for d in g.datas() {
                            for x in &mut d.0 {
                                if at >= self.pos && at < self.pos + self.size && *x != 0 {
                                    *x = 0;
                                    changed = true;
                                }
                                at += 1;
                            }
                        }
                    }
                    self.pos += self.size;
                    if changed {
                        self.cur = c;
                        return true;
                    }
                }
                _ => return false,
            }
        }
    }
}

impl ValueTree for ProgramTree {
    type Value = Program;
    fn current(&self) -> Program {
        self.cur.clone()
    }
    fn simplify(&mut self) -> bool {
        if self.cur.len() < self.best.len() {
            // the removed chunk is gone: the position now points at what followed it
            self.pos = self.pos.saturating_sub(self.best.len() - self.cur.len());
        } else if self.phase == 1 {
            self.pos = 0;
        }
        self.best = self.cur.clone();
        self.next()
    }
    fn complicate(&mut self) -> bool {
        self.cur = self.best.clone();
        self.next()
    }
}
