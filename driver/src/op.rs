//! Commands to an agent and their encoding.
use crate::proto::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Hx(pub Vec<u8>);
impl std::fmt::Debug for Hx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&hex(&self.0))
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
impl Serialize for Hx {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> Deserialize<'de> for Hx {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16)).collect::<Result<_, _>>().map(Hx).map_err(serde::de::Error::custom)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Reset,
    Load { w: u8, dst: u8, kind: u8, align: u8, data: Hx },
    Get { w: u8, src: u8, kind: u8 },
    TryFrom { w: u8, dst: u8, place: u8, off: u8, data: Hx },
    Store { w: u8, src: u8, place: u8, off: u8, len: u16, fill: u8 },
    Region,
    Un { w: u8, dst: u8, src: u8, op: u8 },
    Bin { w: u8, dst: u8, a: u8, b: u8, op: u8 },
    Pred { w: u8, a: u8, b: u8, op: u8 },
    Chain { w: u8, dst: u8, src: u8, dir: u8, keys: Hx },
    Move { kind: u8, d: u8, s: [u8; 4] },
    Key { size: u8, role: u8, slot: u8, key: Hx },
    Crypt { size: u8, role: u8, slot: u8, w: u8, dst: u8, src: u8 },
    Switch { size: u8, role: u8, slot: u8, dst: u8 },
    CloneKey {
        size: u8,
        role: u8,
        slot: u8,
        dst: u8,
        #[serde(default)]
        from: u8,
    },
    Fmt {
        w: u8,
        src: u8,
        kind: u8,
        alt: u8,
        cap: u16,
        #[serde(default)]
        once: u8,
    },
    Loop { n: u32, ops: Vec<Op> },
    LongChain { w: u8, dst: u8, src: u8, dir: u8, count: u32, keys: Hx },
    Big { store: bool, w: u8, reg: u8, off: u8, len: u64, fill: u8, data: Hx },
    Const { w: u8, idx: u8, dst: u8, kind: u8 },
    FmtKey { size: u8, role: u8, slot: u8 },
    /// per thread: a pause, then commands
    Race { threads: Vec<(u16, Vec<Op>)> },
    Threads { size: u8, n: u8, iters: u16, variant: u8, seq: u8, key: Hx, starts: Hx },
    Repeat { size: u8, role: u8, slot: u8, w: u8, dst: u8, src: u8, n: u16 },
    Cov,
}

impl Op {
    pub fn encode(&self, out: &mut Vec<u8>) {
        let at = out.len();
        out.extend([0, 0]);
        let le = |x: u16| x.to_le_bytes();
        match self {
            Op::Reset => out.push(OP_RESET),
            Op::Load { w, dst, kind, align, data } => {
                out.extend([OP_LOAD, *w, *dst, *kind, *align]);
                out.extend(&data.0);
            }
            Op::Get { w, src, kind } => out.extend([OP_GET, *w, *src, *kind]),
            Op::TryFrom { w, dst, place, off, data } => {
                out.extend([OP_TRYFROM, *w, *dst, *place, *off]);
                out.extend(le(data.0.len() as u16));
                out.extend(&data.0);
            }
            Op::Store { w, src, place, off, len, fill } => {
                out.extend([OP_STORE, *w, *src, *place, *off]);
                out.extend(le(*len));
                out.push(*fill);
            }
            Op::Region => out.push(OP_REGION),
            Op::Un { w, dst, src, op } => out.extend([OP_UN, *w, *dst, *src, *op]),
            Op::Bin { w, dst, a, b, op } => out.extend([OP_BIN, *w, *dst, *a, *b, *op]),
            Op::Pred { w, a, b, op } => out.extend([OP_PRED, *w, *a, *b, *op]),
            Op::Chain { w, dst, src, dir, keys } => {
                out.extend([OP_CHAIN, *w, *dst, *src, *dir]);
                out.extend(le((keys.0.len() / (16 * *w as usize)) as u16));
                out.extend(&keys.0);
            }
            Op::Loop { n, ops } => {
                out.push(OP_LOOP);
                out.extend(n.to_le_bytes());
                for o in ops {
                    o.encode(out);
                }
            }
            Op::Race { threads } => {
                out.extend([OP_RACE, threads.len() as u8]);
                for (pause, ops) in threads {
                    let mut b = vec![];
                    for o in ops {
                        o.encode(&mut b);
                    }
                    out.extend(pause.to_le_bytes());
                    out.extend((b.len() as u16).to_le_bytes());
                    out.extend(b);
                }
            }
            Op::LongChain { w, dst, src, dir, count, keys } => {
                out.extend([OP_LONGCHAIN, *w, *dst, *src, *dir]);
                out.extend(count.to_le_bytes());
                out.push((keys.0.len() / (16 * *w as usize)) as u8);
                out.extend(&keys.0);
            }
            Op::Big { store, w, reg, off, len, fill, data } => {
                out.extend([OP_BIG, *store as u8, *w, *reg, *off]);
                out.extend(len.to_le_bytes());
                out.push(*fill);
                out.extend(&data.0[..data.0.len().min(*len as usize)]);
            }
            Op::Move { kind, d, s } => {
                out.extend([OP_MOVE, *kind, *d]);
                out.extend(s);
            }
            Op::Key { size, role, slot, key } => {
                out.extend([OP_KEY, *size, *role, *slot]);
                out.extend(&key.0);
            }
            Op::Crypt { size, role, slot, w, dst, src } => out.extend([OP_CRYPT, *size, *role, *slot, *w, *dst, *src]),
            Op::Switch { size, role, slot, dst } => out.extend([OP_SWITCH, *size, *role, *slot, *dst]),
            Op::CloneKey { size, role, slot, dst, from } => out.extend([OP_CLONE, *size, *role, *slot, *dst, *from]),
            Op::Fmt { w, src, kind, alt, cap, once } => {
                out.extend([OP_FMT, *w, *src, *kind, *alt]);
                out.extend(le(*cap));
                out.push(*once);
            }
            Op::Const { w, idx, dst, kind } => out.extend([OP_CONST, *w, *idx, *dst, *kind]),
            Op::Cov => out.push(OP_COV),
            Op::FmtKey { size, role, slot } => out.extend([OP_FMTKEY, *size, *role, *slot]),
            Op::Threads { size, n, iters, variant, seq, key, starts } => {
                out.extend([OP_THREADS, *size, *n]);
                out.extend(le(*iters));
                out.extend([*variant, *seq]);
                out.extend(&key.0);
                out.extend(&starts.0);
            }
            Op::Repeat { size, role, slot, w, dst, src, n } => {
                out.extend([OP_REPEAT, *size, *role, *slot, *w, *dst, *src]);
                out.extend(le(*n));
            }
        }
        let n = (out.len() - at - 2) as u16;
        out[at..at + 2].copy_from_slice(&n.to_le_bytes());
    }

    /// Upper bound of the reply's size.
    pub fn out_bound(&self) -> usize {
        match self {
            Op::Store { len, .. } => *len as usize + 160,
            Op::Region => REGION + 160,
            Op::Fmt { .. } => 700,
            Op::Threads { n, .. } => 16 * *n as usize + 16,
            Op::LongChain { .. } => 160,
            Op::Race { threads } => threads.iter().map(|t| 8 + t.1.iter().map(|o| o.out_bound()).sum::<usize>()).sum(),
            Op::Cov => 17 * 64 + 16,
            Op::Loop { .. } => LOOP_OUT + 4,
            _ => 128,
        }
    }

    /// An upper bound of the answer's payload with its header, as it occurs inside a loop.
    pub fn reply_len(&self) -> usize {
        match self {
            Op::Store { len, .. } if *len <= 256 => *len as usize + 136,
            Op::Store { .. } => LOOP_OUT + 1,
            Op::Region => 400, // after a store of at most 256 bytes
            Op::Fmt { .. } => 600,
            Op::TryFrom { w, .. } | Op::Load { w, .. } | Op::Get { w, .. } | Op::Un { w, .. } | Op::Bin { w, .. } | Op::Crypt { w, .. } => 16 * *w as usize + 9,
            _ => 64,
        }
    }

    /// The documented panics: a short destination and an empty key list.
    pub fn must_panic(&self) -> bool {
        match self {
            Op::Store { w, len, .. } => (*len as usize) < 16 * *w as usize,
            Op::Chain { keys, .. } => keys.0.is_empty(),
            Op::LongChain { count, .. } => *count == 0,
            Op::Big { store, w, len, .. } => *store && *len < 16 * *w as u64,
            _ => false,
        }
    }

    /// Does it use memory that the agent has only once?
    pub fn shared_memory(&self) -> bool {
        matches!(self, Op::TryFrom { .. } | Op::Store { .. } | Op::Region | Op::Big { .. } | Op::LongChain { .. } | Op::Loop { .. } | Op::Race { .. } | Op::Threads { .. } | Op::Cov)
    }

    pub fn name(&self) -> &'static str {
        match self {
            Op::Reset => "reset",
            Op::Load { .. } => "load",
            Op::Get { .. } => "get",
            Op::TryFrom { .. } => "tryfrom",
            Op::Store { .. } => "store",
            Op::Region => "region",
            Op::Un { .. } => "unary",
            Op::Bin { op, .. } if *op >= BI_ENC => "round",
            Op::Bin { .. } => "bitop",
            Op::Pred { .. } => "predicate",
            Op::Chain { .. } => "chain",
            Op::LongChain { .. } => "long chain",
            Op::Loop { .. } => "loop",
            Op::Big { .. } => "long slice",
            Op::Move { .. } => "compose",
            Op::Key { .. } => "key",
            Op::Crypt { .. } => "crypt",
            Op::Switch { .. } => "switch",
            Op::CloneKey { .. } => "clone",
            Op::Fmt { .. } => "format",
            Op::Const { .. } => "const",
            Op::FmtKey { .. } => "formatkey",
            Op::Threads { .. } => "threads",
            Op::Race { .. } => "race",
            Op::Repeat { .. } => "repeat",
            Op::Cov => "coverage",
        }
    }
}
